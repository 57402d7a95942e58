package lharef

import (
	"fmt"
	"sort"
)

// Codes assigns canonical codes (shorter first, then by symbol).
func Codes(lens []int) []int {
	codes := make([]int, len(lens))
	code := 0
	for l := 1; l <= 31; l++ {
		code <<= 1
		for s, sl := range lens {
			if sl == l {
				codes[s] = code
				code++
			}
		}
	}
	return codes
}

// Complete reports whether lens is a complete prefix code.
func Complete(lens []int) bool {
	sum := 0
	for _, l := range lens {
		if l > 0 {
			if l > 24 {
				return false
			}
			sum += 1 << uint(24-l)
		}
	}
	return sum == 1<<24
}

// HuffLens builds code lengths for the symbols with freq > 0, at most maxLen.
// With fewer than two symbols all lengths are 0.
func HuffLens(freq []int, maxLen int) []int {
	f := append([]int(nil), freq...)
	for {
		lens := huffOnce(f)
		m := 0
		for _, l := range lens {
			if l > m {
				m = l
			}
		}
		if m <= maxLen {
			return lens
		}
		for i := range f {
			if f[i] > 0 {
				f[i] = f[i]/2 + 1
			}
		}
	}
}

func huffOnce(freq []int) []int {
	lens := make([]int, len(freq))
	type node struct {
		f    int
		syms []int
	}
	var ns []node
	for s, f := range freq {
		if f > 0 {
			ns = append(ns, node{f, []int{s}})
		}
	}
	if len(ns) < 2 {
		return lens
	}
	for len(ns) > 1 {
		sort.SliceStable(ns, func(a, b int) bool { return ns[a].f < ns[b].f })
		m := node{ns[0].f + ns[1].f, append(append([]int(nil), ns[0].syms...), ns[1].syms...)}
		for _, s := range m.syms {
			lens[s]++
		}
		ns = append([]node{m}, ns[2:]...)
	}
	return lens
}

// RandLens gives an arbitrary complete code over the symbols with freq > 0
// (plus, perhaps, some that never occur), no longer than maxLen.
func RandLens(freq []int, maxLen int, ch Chooser) []int {
	lens := make([]int, len(freq))
	var syms []int
	extra := ch.Intn(3) == 0
	ep := 2 + ch.Intn(40)
	for s, f := range freq {
		if f > 0 || extra && ch.Intn(ep) == 0 {
			syms = append(syms, s)
		}
	}
	if len(syms) < 2 {
		return lens
	}
	for i := len(syms) - 1; i > 0; i-- {
		j := ch.Intn(i + 1)
		syms[i], syms[j] = syms[j], syms[i]
	}
	skew := ch.Intn(4) // 0: even random, 1..3: increasingly lopsided
	var rec func(ss []int, d int)
	rec = func(ss []int, d int) {
		if len(ss) == 1 {
			lens[ss[0]] = d
			return
		}
		capn := 1 << uint(maxLen-d-1)
		if maxLen-d-1 > 20 {
			capn = 1 << 20
		}
		lo, hi := len(ss)-capn, len(ss)-1
		if lo < 1 {
			lo = 1
		}
		if hi > capn {
			hi = capn
		}
		k := lo
		if hi > lo {
			switch {
			case skew > 0 && ch.Intn(4) < skew:
				k = lo // as deep as possible on the other side
			default:
				k = lo + ch.Intn(hi-lo+1)
			}
		}
		rec(ss[:k], d+1)
		rec(ss[k:], d+1)
	}
	rec(syms, 0)
	return lens
}

// Decoder decodes a canonical code.
type huffDecoder struct {
	single int // >= 0: zero-bit code
	m      map[[2]int]int
	max    int
	lens   []int
	used   map[int]int // how often each symbol was decoded
}

func newHuffDecoder(lens []int) (*huffDecoder, error) {
	if !Complete(lens) {
		return nil, fmt.Errorf("lharef: incomplete or oversubscribed code")
	}
	d := &huffDecoder{single: -1, m: map[[2]int]int{}, lens: lens, used: map[int]int{}}
	codes := Codes(lens)
	for s, l := range lens {
		if l > 0 {
			d.m[[2]int{l, codes[s]}] = s
			if l > d.max {
				d.max = l
			}
		}
	}
	return d, nil
}

func (d *huffDecoder) get(r *BitReader) (int, error) {
	if d.single >= 0 {
		return d.single, nil
	}
	c := 0
	for l := 1; l <= d.max; l++ {
		b, err := r.Bit()
		if err != nil {
			return 0, err
		}
		c = c<<1 | b
		if s, ok := d.m[[2]int{l, c}]; ok {
			d.used[s]++
			return s, nil
		}
	}
	return 0, fmt.Errorf("lharef: no such code")
}

// waste is the number of bits the code took beyond an optimal one for what was
// decoded with it, and beyond what one of at most 16 bits needs when the
// optimal one has longer codes (an upper bound then). long tells that.
func (d *huffDecoder) waste() (bits int, long bool) {
	freq := make([]int, len(d.lens))
	took := 0
	for s, n := range d.used {
		freq[s] = n
		took += n * d.lens[s]
	}
	best := huffOnce(freq)
	for _, l := range best {
		if l > 16 {
			long = true
		}
	}
	if long {
		best = HuffLens(freq, 16)
	}
	for s, n := range d.used {
		took -= n * best[s]
	}
	return took, long
}
