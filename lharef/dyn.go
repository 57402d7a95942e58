package lharef

import "fmt"

// Adaptive Huffman coding as in LZHUF (H. Yoshizaki), for -lh1- (314
// symbols) and the character part of -lh2- (286 symbols).
type lzhuf struct {
	n, t, r int
	freq    []int
	son     []int
	prnt    []int
	Reconst int
	MaxLen  int // longest code used
}

func newLzhuf(n int) *lzhuf {
	h := &lzhuf{n: n, t: 2*n - 1, r: 2*n - 2}
	h.freq = make([]int, h.t+1)
	h.son = make([]int, h.t)
	h.prnt = make([]int, h.t+n)
	for i := 0; i < n; i++ {
		h.freq[i] = 1
		h.son[i] = i + h.t
		h.prnt[i+h.t] = i
	}
	for i, j := 0, n; j <= h.r; i, j = i+2, j+1 {
		h.freq[j] = h.freq[i] + h.freq[i+1]
		h.son[j] = i
		h.prnt[i], h.prnt[i+1] = j, j
	}
	h.freq[h.t] = 0xffff
	h.prnt[h.r] = 0
	return h
}

func (h *lzhuf) reconst() {
	h.Reconst++
	j := 0
	for i := 0; i < h.t; i++ {
		if h.son[i] >= h.t {
			h.freq[j] = (h.freq[i] + 1) / 2
			h.son[j] = h.son[i]
			j++
		}
	}
	for i, j := 0, h.n; j < h.t; i, j = i+2, j+1 {
		f := h.freq[i] + h.freq[i+1]
		k := j - 1
		for f < h.freq[k] {
			k--
		}
		k++
		copy(h.freq[k+1:j+1], h.freq[k:j])
		h.freq[k] = f
		copy(h.son[k+1:j+1], h.son[k:j])
		h.son[k] = i
	}
	for i := 0; i < h.t; i++ {
		k := h.son[i]
		h.prnt[k] = i
		if k < h.t {
			h.prnt[k+1] = i
		}
	}
}

func (h *lzhuf) update(c int) {
	if h.freq[h.r] == 0x8000 {
		h.reconst()
	}
	c = h.prnt[c+h.t]
	for {
		h.freq[c]++
		k := h.freq[c]
		l := c + 1
		if k > h.freq[l] {
			for k > h.freq[l+1] {
				l++
			}
			h.freq[c] = h.freq[l]
			h.freq[l] = k
			i := h.son[c]
			h.prnt[i] = l
			if i < h.t {
				h.prnt[i+1] = l
			}
			j := h.son[l]
			h.son[l] = i
			h.prnt[j] = c
			if j < h.t {
				h.prnt[j+1] = c
			}
			h.son[c] = j
			c = l
		}
		c = h.prnt[c]
		if c == 0 {
			return
		}
	}
}

func (h *lzhuf) encode(w *BitWriter, c int) {
	var bits []int
	for k := h.prnt[c+h.t]; k != h.r; k = h.prnt[k] {
		bits = append(bits, k&1)
	}
	for i := len(bits) - 1; i >= 0; i-- {
		w.Bit(bits[i])
	}
	if len(bits) > h.MaxLen {
		h.MaxLen = len(bits)
	}
	h.update(c)
}

func (h *lzhuf) decode(r *BitReader) (int, error) {
	c := h.son[h.r]
	n := 0
	for c < h.t {
		n++
		b, err := r.Bit()
		if err != nil {
			return 0, err
		}
		c = h.son[c+b]
	}
	c -= h.t
	if n > h.MaxLen {
		h.MaxLen = n
	}
	h.update(c)
	return c, nil
}

// fixed position code of -lh1-: 64 symbols.
func lh1PosLens() []int {
	l := make([]int, 64)
	for i := range l {
		switch {
		case i < 1:
			l[i] = 3
		case i < 4:
			l[i] = 4
		case i < 12:
			l[i] = 5
		case i < 24:
			l[i] = 6
		case i < 48:
			l[i] = 7
		default:
			l[i] = 8
		}
	}
	return l
}

// EncodeLh1: Len 3..60, Dist 1..4096. reconst counts tree rebuilds; longest is the longest code.
func EncodeLh1(tokens []Token) (data []byte, reconst, longest int) {
	w := &BitWriter{}
	h := newLzhuf(314)
	pl := lh1PosLens()
	pc := Codes(pl)
	for _, t := range tokens {
		if t.Len == 0 {
			h.encode(w, int(t.Lit))
			continue
		}
		h.encode(w, 256+t.Len-3)
		d := t.Dist - 1
		w.Bits(pl[d>>6], pc[d>>6])
		w.Bits(6, d&63)
	}
	return w.Buf, h.Reconst, h.MaxLen
}

func DecodeLh1(data []byte, origsize int) ([]Token, Stats, error) {
	r := &BitReader{Buf: data}
	h := newLzhuf(314)
	dp, err := newHuffDecoder(lh1PosLens())
	var st Stats
	if err != nil {
		return nil, st, err
	}
	var toks []Token
	total := 0
	for total < origsize {
		c, err := h.decode(r)
		if err != nil {
			return toks, st, err
		}
		if c < 256 {
			toks = append(toks, Token{Lit: byte(c)})
			total++
			continue
		}
		hi, err := dp.get(r)
		if err != nil {
			return toks, st, err
		}
		lo, err := r.Bits(6)
		if err != nil {
			return toks, st, err
		}
		t := Token{Len: c - 256 + 3, Dist: hi<<6 + lo + 1}
		st.Matches++
		if t.Dist > st.MaxDist {
			st.MaxDist = t.Dist
		}
		if t.Len > st.MaxLen {
			st.MaxLen = t.Len
		}
		toks = append(toks, t)
		total += t.Len
	}
	st.Blocks = h.Reconst
	st.MaxCLen = h.MaxLen
	if total != origsize {
		return toks, st, fmt.Errorf("lharef: the last copy overruns the member by %d bytes", total-origsize)
	}
	return toks, st, nil
}

// The position tree of -lh2-: it starts with one leaf and grows by one leaf
// for every 64 bytes of output. Nodes are kept in order of falling frequency;
// leaders are found by walking, not by bookkeeping.
type lh2pos struct {
	child  []int // > 0: index of the higher child; < 0: ^symbol
	parent []int
	freq   []int
	leaf   map[int]int
	most   int
	total  int
	next   int
	Recon  int
}

func newLh2pos() *lh2pos {
	p := &lh2pos{leaf: map[int]int{0: 0}, next: 64}
	p.child = make([]int, 300)
	p.parent = make([]int, 300)
	p.freq = make([]int, 300)
	p.child[0] = ^0
	p.freq[0] = 1
	return p
}

func (p *lh2pos) setChild(i, c int) {
	p.child[i] = c
	if c < 0 {
		p.leaf[^c] = i
	} else {
		p.parent[c], p.parent[c-1] = i, i
	}
}

func (p *lh2pos) incr(i int) int {
	q := i
	for q > 1 && p.freq[q-1] == p.freq[i] {
		q--
	}
	if q != i {
		a, b := p.child[i], p.child[q]
		p.setChild(i, b)
		p.setChild(q, a)
	}
	p.freq[q]++
	return p.parent[q]
}

func (p *lh2pos) rebuild() {
	p.Recon++
	type n struct {
		f, c int
	}
	// leaves in rising order of frequency
	var lv []n
	for i := p.most; i >= 0; i-- {
		if p.child[i] < 0 {
			lv = append(lv, n{(p.freq[i] + 1) / 2, p.child[i]})
		}
	}
	size := p.most + 1
	arr := lv
	for i := 0; len(arr) < size; i += 2 {
		f := arr[i].f + arr[i+1].f
		k := len(arr)
		for k > 0 && f < arr[k-1].f {
			k--
		}
		arr = append(arr, n{})
		copy(arr[k+1:], arr[k:])
		arr[k] = n{f, i}
		// a child reference in rising index space; fixed up below
	}
	for ri, a := range arr {
		i := size - 1 - ri
		p.freq[i] = a.f
		if a.c < 0 {
			p.setChild(i, a.c)
		} else {
			p.setChild(i, size-1-a.c)
		}
	}
}

func (p *lh2pos) update(sym int) {
	if p.total == 0x8000 {
		p.rebuild()
		p.total = p.freq[0]
		p.freq[0] = 0xffff
	}
	q := p.leaf[sym]
	for q != 0 {
		q = p.incr(q)
	}
	p.total++
}

func (p *lh2pos) grow(sym int) {
	r := p.most + 1
	q := r + 1
	p.setChild(r, p.child[p.most])
	p.freq[r] = p.freq[p.most]
	p.setChild(q, ^sym)
	p.freq[q] = 0
	p.child[p.most] = q
	p.parent[q], p.parent[r] = p.most, p.most
	if p.most == 0 {
		p.freq[0] = 0xffff
	}
	p.most = q
	p.update(sym)
}

// Avail is the number of position symbols that can be coded once `count`
// bytes have been produced.
func Lh2Avail(count int) int {
	n := 1
	for next := 64; count > next && next < 8192; next += 64 {
		n++
	}
	return n
}

// EncodeLh2: Len 3..256, Dist-1 < 64*Lh2Avail(bytes before the token).
func EncodeLh2(tokens []Token) (data []byte, reconC, reconP, longest int) {
	w := &BitWriter{}
	h := newLzhuf(286)
	p := newLh2pos()
	count := 0
	for _, t := range tokens {
		if t.Len == 0 {
			h.encode(w, int(t.Lit))
			count++
			continue
		}
		c := 256 + t.Len - 3
		if c >= 285 {
			h.encode(w, 285)
			w.Bits(8, c-285)
		} else {
			h.encode(w, c)
		}
		for p.next < 8192 && count > p.next {
			p.grow(p.next / 64)
			p.next += 64
		}
		d := t.Dist - 1
		var bits []int
		for k := p.leaf[d>>6]; k != 0; k = p.parent[k] {
			bits = append(bits, k&1)
		}
		for i := len(bits) - 1; i >= 0; i-- {
			w.Bit(bits[i])
		}
		p.update(d >> 6)
		w.Bits(6, d&63)
		count += t.Len
	}
	return w.Buf, h.Reconst, p.Recon, h.MaxLen
}
