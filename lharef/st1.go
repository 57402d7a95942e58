package lharef

import "fmt"

// -lh4- -lh5- -lh6- -lh7-: blocks of static Huffman codes.

const (
	st1NC = 510
	st1NT = 19
)

type St1Param struct {
	Dict int
	NP   int
	PBit int
}

func St1Params(method int) St1Param {
	switch method {
	case 4:
		return St1Param{1 << 12, 14, 4}
	case 5:
		return St1Param{1 << 13, 14, 4}
	case 6:
		return St1Param{1 << 15, 16, 5}
	case 7:
		return St1Param{1 << 16, 17, 5}
	}
	panic("lharef: not an st1 method")
}

func bitlen(v int) int {
	n := 0
	for v > 0 {
		v >>= 1
		n++
	}
	return n
}

func pickLens(freq []int, maxLen int, ch Chooser, random bool) []int {
	if random {
		return RandLens(freq, maxLen, ch)
	}
	return HuffLens(freq, maxLen)
}

func used(freq []int) (n, last int) {
	for s, f := range freq {
		if f > 0 {
			n++
			last = s
		}
	}
	return
}

func anyLen(lens []int) bool {
	for _, l := range lens {
		if l > 0 {
			return true
		}
	}
	return false
}

func writePtLens(w *BitWriter, lens []int, nbit, special int, ch Chooser) {
	n := len(lens)
	for n > 0 && lens[n-1] == 0 {
		n--
	}
	if ch != nil && n < len(lens) && len(lens) < 1<<uint(nbit) && ch.Intn(4) == 0 {
		n += ch.Intn(len(lens) - n + 1) // explicit trailing zeros are allowed
	}
	w.Bits(nbit, n)
	for i := 0; i < n; {
		k := lens[i]
		i++
		if k <= 6 {
			w.Bits(3, k)
		} else {
			w.Bits(3, 7)
			for j := 7; j < k; j++ {
				w.Bit(1)
			}
			w.Bit(0)
		}
		if i == special {
			z := 0
			for z < 3 && i+z < 6 && i+z < len(lens) && lens[i+z] == 0 {
				z++
			}
			if ch != nil && z > 0 && ch.Intn(3) == 0 {
				z = ch.Intn(z + 1)
			}
			w.Bits(2, z)
			i += z
		}
	}
}

// EncodeSt1 writes tokens as blocks; the token counts of the blocks are given
// by sizes (each 1..65535, summing to len(tokens)).
func EncodeSt1(method int, tokens []Token, sizes []int, ch Chooser, random bool) []byte {
	p := St1Params(method)
	w := &BitWriter{}
	at := 0
	for _, sz := range sizes {
		blk := tokens[at : at+sz]
		at += sz
		cf := make([]int, st1NC)
		pf := make([]int, p.NP)
		for _, t := range blk {
			if t.Len == 0 {
				cf[t.Lit]++
			} else {
				cf[256+t.Len-3]++
				pf[bitlen(t.Dist-1)]++
			}
		}
		w.Bits(16, sz)
		cl := pickLens(cf, 16, ch, random)
		if anyLen(cl) {
			writeCLens(w, cl, ch, random)
		} else {
			_, last := used(cf)
			w.Bits(5, 0)
			w.Bits(5, 0)
			w.Bits(9, 0)
			w.Bits(9, last)
		}
		pl := pickLens(pf, 16, ch, random)
		if anyLen(pl) {
			writePtLens(w, pl, p.PBit, -1, ch)
		} else {
			_, last := used(pf)
			w.Bits(p.PBit, 0)
			w.Bits(p.PBit, last)
		}
		cc, pc := Codes(cl), Codes(pl)
		for _, t := range blk {
			if t.Len == 0 {
				w.Bits(cl[t.Lit], cc[t.Lit])
				continue
			}
			c := 256 + t.Len - 3
			w.Bits(cl[c], cc[c])
			d := t.Dist - 1
			j := bitlen(d)
			w.Bits(pl[j], pc[j])
			if j > 1 {
				w.Bits(j-1, d&(1<<uint(j-1)-1))
			}
		}
	}
	return w.Buf
}

type tsym struct{ sym, nbit, val int }

func writeCLens(w *BitWriter, cl []int, ch Chooser, random bool) {
	n := len(cl)
	for n > 0 && cl[n-1] == 0 {
		n--
	}
	var seq []tsym
	for i := 0; i < n; {
		if cl[i] != 0 {
			seq = append(seq, tsym{cl[i] + 2, 0, 0})
			i++
			continue
		}
		run := 0
		for i+run < n && cl[i+run] == 0 {
			run++
		}
		i += run
		for run > 0 {
			k := run
			if ch != nil && ch.Intn(8) == 0 {
				k = 1 + ch.Intn(run)
			}
			switch {
			case k >= 20 && k <= 531:
				seq = append(seq, tsym{2, 9, k - 20})
				run -= k
			case k >= 3 && k <= 18:
				seq = append(seq, tsym{1, 4, k - 3})
				run -= k
			default: // 1, 2, 19
				seq = append(seq, tsym{0, 0, 0})
				run--
			}
		}
	}
	tf := make([]int, st1NT)
	for _, s := range seq {
		tf[s.sym]++
	}
	tl := pickLens(tf, 16, ch, random)
	if anyLen(tl) {
		writePtLens(w, tl, 5, 3, ch)
	} else {
		_, last := used(tf)
		w.Bits(5, 0)
		w.Bits(5, last)
	}
	tc := Codes(tl)
	w.Bits(9, n)
	for _, s := range seq {
		w.Bits(tl[s.sym], tc[s.sym])
		w.Bits(s.nbit, s.val)
	}
}

// Stats of a decoded stream.
type Stats struct {
	Blocks  int
	Sizes   []int // tokens of each block
	MaxCLen int
	MaxPLen int
	MaxTLen int
	MaxDist int
	MaxLen  int
	Matches int
	Single  int // tables that are a single zero-bit code

	codes []*huffDecoder // T, C and P of each block, nil for a single code
}

// Waste compares every Huffman code of the stream (T, C and P of each block)
// with an optimal one for the symbols it codes: the bits lost, counting only
// codes that fit in 16 bits, and those lost by codes cut to 16 bits.
func (st *Stats) Waste() (bits, cut int) {
	for _, d := range st.codes {
		if d == nil || d.single >= 0 {
			continue
		}
		n, long := d.waste()
		if long {
			cut += n
		} else {
			bits += n
		}
	}
	return
}

func readPtLens(r *BitReader, nn, nbit, special int, st *Stats) ([]int, int, error) {
	n, err := r.Bits(nbit)
	if err != nil {
		return nil, 0, err
	}
	lens := make([]int, nn)
	if n == 0 {
		c, err := r.Bits(nbit)
		if err != nil {
			return nil, 0, err
		}
		if c >= nn {
			return nil, 0, fmt.Errorf("lharef: single code %d of %d", c, nn)
		}
		st.Single++
		return nil, c, nil
	}
	if n > nn {
		return nil, 0, fmt.Errorf("lharef: %d lengths for %d symbols", n, nn)
	}
	for i := 0; i < n; {
		k, err := r.Bits(3)
		if err != nil {
			return nil, 0, err
		}
		if k == 7 {
			for {
				b, err := r.Bit()
				if err != nil {
					return nil, 0, err
				}
				if b == 0 {
					break
				}
				k++
			}
		}
		if k > 16 {
			return nil, 0, fmt.Errorf("lharef: length %d", k)
		}
		lens[i] = k
		i++
		if i == special {
			z, err := r.Bits(2)
			if err != nil {
				return nil, 0, err
			}
			i += z
			if i > nn {
				return nil, 0, fmt.Errorf("lharef: zero run past the end")
			}
		}
	}
	return lens, -1, nil
}

func tableDecoder(lens []int, single int) (*huffDecoder, error) {
	if lens == nil {
		return &huffDecoder{single: single}, nil
	}
	return newHuffDecoder(lens)
}

// DecodeSt1 decodes origsize bytes. It is strict: anything a conforming
// decoder need not accept is an error.
func DecodeSt1(method int, data []byte, origsize int) ([]Token, Stats, error) {
	p := St1Params(method)
	r := &BitReader{Buf: data}
	var st Stats
	var toks []Token
	total := 0
	var dc, dp *huffDecoder
	left := 0
	for total < origsize {
		if left == 0 {
			n, err := r.Bits(16)
			if err != nil {
				return toks, st, err
			}
			if n == 0 {
				return toks, st, fmt.Errorf("lharef: empty block")
			}
			left = n
			st.Blocks++
			st.Sizes = append(st.Sizes, n)
			tl, ts, err := readPtLens(r, st1NT, 5, 3, &st)
			if err != nil {
				return toks, st, err
			}
			for _, l := range tl {
				if l > st.MaxTLen {
					st.MaxTLen = l
				}
			}
			dt, err := tableDecoder(tl, ts)
			if err != nil {
				return toks, st, fmt.Errorf("T: %w", err)
			}
			cn, err := r.Bits(9)
			if err != nil {
				return toks, st, err
			}
			if cn == 0 {
				c, err := r.Bits(9)
				if err != nil {
					return toks, st, err
				}
				if c >= st1NC {
					return toks, st, fmt.Errorf("lharef: single C %d", c)
				}
				st.Single++
				dc = &huffDecoder{single: c}
			} else {
				if cn > st1NC {
					return toks, st, fmt.Errorf("lharef: %d C lengths", cn)
				}
				cl := make([]int, st1NC)
				for i := 0; i < cn; {
					s, err := dt.get(r)
					if err != nil {
						return toks, st, err
					}
					run := 0
					switch s {
					case 0:
						run = 1
					case 1:
						v, err := r.Bits(4)
						if err != nil {
							return toks, st, err
						}
						run = v + 3
					case 2:
						v, err := r.Bits(9)
						if err != nil {
							return toks, st, err
						}
						run = v + 20
					default:
						cl[i] = s - 2
						if cl[i] > st.MaxCLen {
							st.MaxCLen = cl[i]
						}
						i++
					}
					i += run
					if i > cn {
						return toks, st, fmt.Errorf("lharef: C zero run past the end")
					}
				}
				if dc, err = newHuffDecoder(cl); err != nil {
					return toks, st, fmt.Errorf("C: %w", err)
				}
			}
			pl, ps, err := readPtLens(r, p.NP, p.PBit, -1, &st)
			if err != nil {
				return toks, st, err
			}
			for _, l := range pl {
				if l > st.MaxPLen {
					st.MaxPLen = l
				}
			}
			if dp, err = tableDecoder(pl, ps); err != nil {
				return toks, st, fmt.Errorf("P: %w", err)
			}
			st.codes = append(st.codes, dt, dc, dp)
		}
		left--
		c, err := dc.get(r)
		if err != nil {
			return toks, st, err
		}
		if c < 256 {
			toks = append(toks, Token{Lit: byte(c)})
			total++
			continue
		}
		j, err := dp.get(r)
		if err != nil {
			return toks, st, err
		}
		d := j
		if j > 1 {
			v, err := r.Bits(j - 1)
			if err != nil {
				return toks, st, err
			}
			d = 1<<uint(j-1) + v
		}
		t := Token{Len: c - 256 + 3, Dist: d + 1}
		if t.Dist > p.Dict {
			return toks, st, fmt.Errorf("lharef: distance %d beyond the %d byte dictionary", t.Dist, p.Dict)
		}
		if t.Dist > st.MaxDist {
			st.MaxDist = t.Dist
		}
		if t.Len > st.MaxLen {
			st.MaxLen = t.Len
		}
		st.Matches++
		toks = append(toks, t)
		total += t.Len
	}
	if total != origsize {
		return toks, st, fmt.Errorf("lharef: the last copy overruns the member by %d bytes", total-origsize)
	}
	if left != 0 {
		return toks, st, fmt.Errorf("lharef: %d codes of the last block are missing", left)
	}
	return toks, st, nil
}
