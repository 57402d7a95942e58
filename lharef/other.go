package lharef

// -lh3-: static Huffman blocks with 286 characters and 128 positions.
// Len 3..256, Dist 1..8192.
func lh3FixedPos() []int {
	l := make([]int, 128)
	for i := range l {
		switch {
		case i < 1:
			l[i] = 2
		case i < 3:
			l[i] = 4
		case i < 6:
			l[i] = 5
		case i < 13:
			l[i] = 6
		case i < 31:
			l[i] = 7
		case i < 78:
			l[i] = 8
		default:
			l[i] = 9
		}
	}
	return l
}

// Lh3Stats reports which table forms were used.
type Lh3Stats struct{ MaxC, MaxP, Fixed, SingleC, SingleP int }

func EncodeLh3(tokens []Token, sizes []int, ch Chooser, random bool) ([]byte, Lh3Stats) {
	w := &BitWriter{}
	var st Lh3Stats
	at := 0
	code := func(l int) (c, x int) {
		c = 256 + l - 3
		if c >= 285 {
			return 285, c - 285
		}
		return c, -1
	}
	for _, sz := range sizes {
		blk := tokens[at : at+sz]
		at += sz
		cf := make([]int, 286)
		pf := make([]int, 128)
		for _, t := range blk {
			if t.Len == 0 {
				cf[t.Lit]++
			} else {
				c, _ := code(t.Len)
				cf[c]++
				pf[(t.Dist-1)>>6]++
			}
		}
		w.Bits(16, sz)
		cl := pickLens(cf, 16, ch, random)
		if anyLen(cl) {
			for _, l := range cl {
				if l == 0 {
					w.Bit(0)
				} else {
					w.Bit(1)
					w.Bits(4, l-1)
				}
				if l > st.MaxC {
					st.MaxC = l
				}
			}
		} else {
			_, last := used(cf)
			for i := 0; i < 3; i++ {
				w.Bit(1)
				w.Bits(4, 0)
			}
			w.Bits(9, last)
			st.SingleC++
		}
		var pl []int
		if choose(ch, 3) == 1 {
			w.Bit(0)
			pl = lh3FixedPos()
			st.Fixed++
		} else {
			w.Bit(1)
			pl = pickLens(pf, 15, ch, random)
			if anyLen(pl) {
				for _, l := range pl {
					w.Bits(4, l)
					if l > st.MaxP {
						st.MaxP = l
					}
				}
			} else {
				_, last := used(pf)
				for i := 0; i < 3; i++ {
					w.Bits(4, 1)
				}
				w.Bits(7, last)
				st.SingleP++
			}
		}
		cc, pc := Codes(cl), Codes(pl)
		for _, t := range blk {
			if t.Len == 0 {
				w.Bits(cl[t.Lit], cc[t.Lit])
				continue
			}
			c, x := code(t.Len)
			w.Bits(cl[c], cc[c])
			if x >= 0 {
				w.Bits(8, x)
			}
			d := t.Dist - 1
			w.Bits(pl[d>>6], pc[d>>6])
			w.Bits(6, d&63)
		}
	}
	return w.Buf, st
}

// RingToken is a token of the larc methods: copies name an absolute ring
// position.
type RingToken struct {
	Lit byte
	Len int
	Pos int // 0..ring-1, the raw field
}

// -lzs-: ring 2048 of spaces; the field value f means ring index f+17
// (the original starts writing at 2048-17). Len 2..17.
func EncodeLzs(tokens []RingToken) []byte {
	w := &BitWriter{}
	for _, t := range tokens {
		if t.Len == 0 {
			w.Bit(1)
			w.Bits(8, int(t.Lit))
		} else {
			w.Bit(0)
			w.Bits(11, t.Pos)
			w.Bits(4, t.Len-2)
		}
	}
	return w.Buf
}

func ExpandLzs(tokens []RingToken) []byte {
	ring := make([]byte, 2048)
	for i := range ring {
		ring[i] = ' '
	}
	return expandRing(ring, tokens, 17)
}

// -lz5-: ring 4096 with a built-in content; field f means ring index f+18.
// Len 3..18.
func EncodeLz5(tokens []RingToken) []byte {
	var out []byte
	for i := 0; i < len(tokens); i += 8 {
		flag := 0
		var body []byte
		for j := 0; j < 8 && i+j < len(tokens); j++ {
			t := tokens[i+j]
			if t.Len == 0 {
				flag |= 1 << uint(j)
				body = append(body, t.Lit)
			} else {
				body = append(body, byte(t.Pos), byte(t.Pos>>8<<4|(t.Len-3)))
			}
		}
		out = append(out, byte(flag))
		out = append(out, body...)
	}
	return out
}

func ExpandLz5(tokens []RingToken) []byte {
	ring := make([]byte, 4096)
	for i := range ring {
		ring[i] = ' '
	}
	k := 18
	for i := 0; i < 256; i++ {
		for j := 0; j < 13; j++ {
			ring[k] = byte(i)
			k++
		}
	}
	for i := 0; i < 256; i++ {
		ring[k] = byte(i)
		k++
	}
	for i := 255; i >= 0; i-- {
		ring[k] = byte(i)
		k++
	}
	for i := 0; i < 128; i++ {
		ring[k] = 0
		k++
	}
	for k < 4096 {
		ring[k] = ' '
		k++
	}
	return expandRing(ring, tokens, 18)
}

func expandRing(ring []byte, tokens []RingToken, off int) []byte {
	m := len(ring) - 1
	var out []byte
	loc := 0
	put := func(b byte) {
		ring[loc] = b
		loc = (loc + 1) & m
		out = append(out, b)
	}
	for _, t := range tokens {
		if t.Len == 0 {
			put(t.Lit)
			continue
		}
		for i := 0; i < t.Len; i++ {
			put(ring[(t.Pos+off+i)&m])
		}
	}
	return out
}

// -pm2- (PMarc). Len 2..256, Dist 1..8192, subject to Pm2MaxDist.

type pm2Tree1 struct {
	bound, mindepth, nbits int
	lens                   []int
	single                 int
}

// Pm2Epoch is the index of the code tables in force at an output count.
func Pm2Epoch(count int) int {
	switch {
	case count < 0x400:
		return 0
	case count < 0x800:
		return 1
	case count < 0x1000:
		return 2
	default:
		return 3 + (count-0x1000)/0x1000
	}
}

func pm2Bound2(epoch int) int {
	if epoch < 3 {
		return 5 + epoch
	}
	return 8
}

// Pm2MaxDist is the largest distance that can be coded.
func Pm2MaxDist(count int) int {
	return 1 << uint(5+pm2Bound2(Pm2Epoch(count)))
}

var pm2HistBase = []int{0, 8, 16, 32, 64, 96, 128, 192}
var pm2HistBits = []int{3, 3, 4, 5, 5, 5, 6, 6}

func pm2CodeOf(t Token, mtf []byte) (c, nbits, val int) {
	if t.Len == 0 {
		pos := 0
		for mtf[pos] != t.Lit {
			pos++
		}
		for k := 7; k >= 0; k-- {
			if pos >= pm2HistBase[k] {
				return k, pm2HistBits[k], pos - pm2HistBase[k]
			}
		}
	}
	switch {
	case t.Len <= 16:
		return 8 + t.Len - 2, 0, 0
	case t.Len <= 24:
		return 23, 3, t.Len - 17
	case t.Len <= 32:
		return 24, 3, t.Len - 25
	case t.Len <= 64:
		return 25, 5, t.Len - 33
	case t.Len <= 128:
		return 26, 6, t.Len - 65
	case t.Len <= 255:
		return 27, 7, t.Len - 129
	}
	return 28, 0, 0
}

func pm2DistSym(d int) int { // d = Dist-1
	if d < 64 {
		return 0
	}
	return bitlen(d) - 6
}

// Pm2Fix adapts a token to what -pm2- can express at this point: a copy of
// length 2 reaches 64 bytes back, one of 256 only repeats the last byte.
func Pm2Fix(t Token, count int) Token {
	if t.Len == 0 {
		return t
	}
	max := Pm2MaxDist(count)
	if t.Len == 2 {
		max = 64
	}
	if t.Len == 256 {
		max = 1
	}
	if t.Dist > max {
		t.Dist = (t.Dist-1)%max + 1
	}
	return t
}

type Pm2Stats struct{ Epochs, Tree1s, Single1, Single2, None2, MaxLen1 int }

// EncodePm2 expects tokens already passed through Pm2Fix, and an order in
// which every epoch's tables can be chosen for its tokens.
func EncodePm2(tokens []Token, ch Chooser, random bool) ([]byte, Pm2Stats) {
	w := &BitWriter{}
	var st Pm2Stats
	w.Bit(choose(ch, 2))
	mtf := make([]byte, 0, 256)
	add := func(lo, hi int) {
		for i := lo; i <= hi; i++ {
			mtf = append(mtf, byte(i))
		}
	}
	add(0x20, 0x7f)
	add(0x00, 0x1f)
	add(0xa0, 0xdf)
	add(0x80, 0x9f)
	add(0xe0, 0xff)
	front := func(b byte) {
		p := 0
		for mtf[p] != b {
			p++
		}
		copy(mtf[1:p+1], mtf[:p])
		mtf[0] = b
	}
	// First pass: codes of every token, grouped by epoch.
	type coded struct {
		c, n, v int
		d       int
		match   bool
	}
	var groups [][]coded
	var out []byte
	for _, t := range tokens {
		e := Pm2Epoch(len(out))
		for len(groups) <= e {
			groups = append(groups, nil)
		}
		c, n, v := pm2CodeOf(t, mtf)
		groups[e] = append(groups[e], coded{c, n, v, t.Dist - 1, t.Len > 0})
		if t.Len == 0 {
			out = append(out, t.Lit)
			front(t.Lit)
		} else {
			for i := 0; i < t.Len; i++ {
				b := byte(' ')
				if p := len(out) - t.Dist; p >= 0 {
					b = out[p]
				}
				out = append(out, b)
				front(b)
			}
		}
	}
	// Which epochs carry a tree 1. From epoch 3 on it is optional; without
	// one the codes of the epoch must fit the tree in force.
	needs := func(g []coded, f []int) {
		for _, c := range g {
			f[c.c]++
		}
	}
	newTree := make([]bool, len(groups))
	for e := range groups {
		switch {
		case e == 0:
			newTree[e] = true
		case e < 3:
		default:
			newTree[e] = choose(ch, 2) == 0
		}
	}
	var t1 pm2Tree1
	var codes1, lens2, codes2 []int
	single2 := -1
	for e := range groups {
		st.Epochs++
		if e >= 3 {
			if newTree[e] {
				w.Bit(1)
			} else {
				w.Bit(0)
			}
		}
		if newTree[e] {
			st.Tree1s++
			f := make([]int, 29)
			for k := e; k < len(groups) && (k == e || !newTree[k]); k++ {
				needs(groups[k], f)
			}
			if n, _ := used(f); n == 0 {
				f[0] = 1
			}
			t1 = pm2MakeTree1(f, ch, random)
			t1.write(w)
			if t1.single >= 0 {
				st.Single1++
				codes1 = nil
			} else {
				codes1 = Codes(t1.lens)
				for _, l := range t1.lens {
					if l > st.MaxLen1 {
						st.MaxLen1 = l
					}
				}
			}
		}
		if e <= 3 || newTree[e] {
			if t1.bound >= 10 && !(t1.bound == 29 && t1.mindepth == 0) {
				b2 := pm2Bound2(e)
				f := make([]int, b2)
				for k := e; k < len(groups) && (k == e || k > 3 && !newTree[k]); k++ {
					for _, c := range groups[k] {
						if c.match && c.c != 8 && c.c != 28 {
							f[pm2DistSym(c.d)]++
						}
					}
				}
				l2 := pickLens(f, 7, ch, random && ch != nil)
				n, last := used(f)
				switch {
				case anyLen(l2):
					for i := 0; i < b2; i++ {
						w.Bits(3, l2[i])
					}
					lens2, codes2, single2 = l2, Codes(l2), -1
				case n == 1:
					for i := 0; i < b2; i++ {
						if i == last {
							w.Bits(3, 1+choose(ch, 7))
						} else {
							w.Bits(3, 0)
						}
					}
					single2 = last
					st.Single2++
				default:
					w.Bits(3*b2, 0)
					st.None2++
				}
			}
		}
		for _, c := range groups[e] {
			if t1.single < 0 {
				w.Bits(t1.lens[c.c], codes1[c.c])
			}
			w.Bits(c.n, c.v)
			if !c.match {
				continue
			}
			switch {
			case c.c == 8:
				w.Bits(6, c.d)
			case c.c < 28:
				s := pm2DistSym(c.d)
				if single2 < 0 {
					w.Bits(lens2[s], codes2[s])
				}
				if s == 0 {
					w.Bits(6, c.d)
				} else {
					w.Bits(5+s, c.d-1<<uint(5+s))
				}
			}
		}
	}
	return w.Buf, st
}

func pm2MakeTree1(f []int, ch Chooser, random bool) pm2Tree1 {
	n, last := used(f)
	if n == 1 && choose(ch, 4) != 3 {
		return pm2Tree1{bound: last + 1, single: last}
	}
	if n == 1 { // a second, unused leaf
		o := choose(ch, 29)
		if o == last {
			o = (last + 1) % 29
		}
		f = append([]int(nil), f...)
		f[o] = 1
	}
	lens := HuffLens(f, 15)
	if random && ch != nil {
		maxLen := 12
		if choose(ch, 3) == 2 {
			maxLen = 28 // as long as 29 codes can get
		}
		lens = RandLens(f, maxLen, ch)
	}
	t := pm2Tree1{single: -1, lens: lens, mindepth: 99}
	maxd := 0
	for s, l := range lens {
		if l > 0 {
			if s+1 > t.bound {
				t.bound = s + 1
			}
			if l < t.mindepth {
				t.mindepth = l
			}
			if l > maxd {
				maxd = l
			}
		}
	}
	for t.mindepth > 7 || maxd-t.mindepth+1 > 127 {
		panic("lharef: pm2 tree out of range")
	}
	t.nbits = bitlen(maxd - t.mindepth + 1)
	return t
}

func (t pm2Tree1) write(w *BitWriter) {
	w.Bits(5, t.bound)
	if t.single >= 0 {
		w.Bits(3, 0)
		return
	}
	w.Bits(3, t.mindepth)
	w.Bits(3, t.nbits)
	for i := 0; i < t.bound; i++ {
		if t.lens[i] == 0 {
			w.Bits(t.nbits, 0)
		} else {
			w.Bits(t.nbits, t.lens[i]-t.mindepth+1)
		}
	}
}
