package props

import (
	"fmt"
	"math/rand"

	"verif/lharef"
	"verif/pbt"
)

// ------------------------------------------------------------ file contents

func fill(r *rand.Rand, n, alpha int, base byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = base + byte(r.Intn(alpha))
	}
	return b
}

var words = []string{"the ", "archive ", "of ", "lha ", "a", "compress", "ion\n", "   ", "0123456789", "\r\n", "header ", "data"}

// interesting distances: window sizes of the methods and their neighbours
var distances = []int{1, 2, 3, 4, 59, 60, 61, 255, 256, 257, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537}
var lengths = []int{1, 2, 3, 4, 5, 17, 18, 58, 59, 60, 61, 62, 119, 120, 255, 256, 257, 258, 300, 511, 512, 513}

func copyFrom(out []byte, dist, n int) []byte {
	if dist > len(out) {
		dist = len(out)
	}
	if dist <= 0 {
		return out
	}
	for i := 0; i < n; i++ {
		out = append(out, out[len(out)-dist])
	}
	return out
}

// segments appends generated segments until the size is reached.
func segments(t *pbt.T, size int) []byte {
	var out []byte
	for len(out) < size {
		left := size - len(out)
		pick := func(max int) int { // a length up to max and what is left
			if max > left {
				max = left
			}
			if t.OneIn(3) {
				l := lengths[t.Intn(len(lengths))]
				if l <= max {
					return l
				}
			}
			return 1 + t.Intn(max)
		}
		switch t.Weighted(3, 3, 5, 2, 1, 1) {
		case 0: // random bytes over an alphabet
			alpha := []int{1, 2, 3, 8, 64, 200, 256}[t.Intn(7)]
			out = append(out, fill(t.Sub(), pick(1<<20), alpha, byte(t.Intn(256)))...)
		case 1: // a run
			n, b := pick(4000), byte(t.Intn(256))
			for i := 0; i < n; i++ {
				out = append(out, b)
			}
		case 2: // a copy
			n := pick(3000)
			d := 1 + t.Intn(len(out)+1)
			if t.Bool() {
				d = distances[t.Intn(len(distances))]
			}
			out = copyFrom(out, d, n)
			if len(out) == 0 {
				out = append(out, ' ')
			}
		case 3: // words
			r := t.Sub()
			n := pick(5000)
			for k := 0; k < n; {
				w := words[r.Intn(len(words))]
				out = append(out, w...)
				k += len(w)
			}
		case 4: // spaces, as the window starts with
			n := pick(400)
			for i := 0; i < n; i++ {
				out = append(out, ' ')
			}
		case 5: // counter
			n, b := pick(1000), t.Intn(256)
			for i := 0; i < n; i++ {
				out = append(out, byte(b+i))
			}
		}
	}
	return out[:size]
}

// deep builds content whose copy lengths follow a Fibonacci distribution, so
// that Huffman codes reach the limit of the format.
func deep(t *pbt.T, n int) []byte {
	r := t.Sub()
	out := fill(r, 2000, 256, 0)
	base := append([]byte{}, out...)
	var bag []int
	a, b := 1, 1
	for l := 0; l < n; l++ {
		for k := 0; k < a; k++ {
			bag = append(bag, l)
		}
		a, b = b, a+b
	}
	r.Shuffle(len(bag), func(i, j int) { bag[i], bag[j] = bag[j], bag[i] })
	for _, l := range bag {
		ln := 3 + (n - 1 - l)
		p := r.Intn(len(base) - ln)
		out = append(out, base[p:p+ln]...)
		// a byte that does not continue the copy
		out = append(out, base[p+ln]+1+byte(r.Intn(250)))
		if len(out)%7000 < 20 { // keep the base within reach of small windows
			out = append(out, base...)
		}
	}
	return out
}

// Content draws a file body. big allows bodies beyond every window size.
func Content(t *pbt.T, big bool) []byte {
	w := []int{3, 8, 24, 20, 8, 0, 0}
	if big {
		w[5], w[6] = 4, 1
	}
	var b []byte
	switch t.Weighted(w...) {
	case 0:
		t.Label("size=0")
		return nil
	case 1: // every byte chosen
		n := 1 + t.Intn(12)
		for i := 0; i < n; i++ {
			b = append(b, byte(t.Intn(256)))
		}
	case 2:
		b = segments(t, 1+t.Intn(300))
	case 3:
		b = segments(t, 200+t.Intn(3000))
	case 4:
		b = segments(t, 3000+t.Intn(20000))
	case 5:
		if t.Bool() {
			b = segments(t, 60000+t.Intn(240000))
		} else {
			// many literals: several blocks of codes
			b = fill(t.Sub(), 56000+t.Intn(90000), 100+t.Intn(150), byte(t.Intn(256)))
			if t.Bool() {
				b = append(b, segments(t, 1+t.Intn(2000))...)
			}
		}
	case 6:
		b = deep(t, 17+t.Intn(4))
	}
	if t.OneIn(6) {
		b = atEdge(t, b)
	}
	switch {
	case len(b) <= 2:
		t.Label("size=1..2")
	case len(b) < 300:
		t.Label("size<300")
	case len(b) < 8192:
		t.Label("size<8K")
	case len(b) < 65536:
		t.Label("size<64K")
	default:
		t.Label("size>=64K")
	}
	return b
}

// atEdge cuts or repeats b to a size at or next to a multiple of a power of
// two, where windows and buffers end, with or without a longest copy more.
func atEdge(t *pbt.T, b []byte) []byte {
	if len(b) < 8 {
		return b
	}
	bits := 2
	for 2<<bits <= len(b) {
		bits++
	}
	n := 1 << (bits - t.Intn(min(bits, 5)))
	n *= max(1, len(b)/n) + t.Intn(2)
	n += []int{0, 0, -1, 1, -2, 2, -3, 3, 60, 61, 256, 257, 255}[t.Intn(13)]
	if n < 1 {
		n = 1
	}
	for len(b) < n {
		b = append(b, b[:min(len(b), n-len(b))]...)
	}
	t.Label("size at an edge")
	return b[:n:n]
}

// Show writes out content for a description.
func Show(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%d bytes %q", len(b), b)
	}
	return fmt.Sprintf("%d bytes crc=%04x %q...", len(b), lharef.CRC16(b), b[:40])
}

// Diff describes how got differs from want.
func Diff(want, got []byte) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	at := n
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			at = i
			break
		}
	}
	show := func(b []byte) []byte {
		lo, hi := at, at+24
		if lo > len(b) {
			lo = len(b)
		}
		if hi > len(b) {
			hi = len(b)
		}
		return b[lo:hi]
	}
	return fmt.Sprintf("want %d bytes, got %d; first difference at %d: want %q got %q", len(want), len(got), at, show(want), show(got))
}

// ------------------------------------------------------------ names

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+ ()!#$%&'@[]^`{}~,;="

// BaseName draws a file name of n bytes that the format stores unchanged (no
// separator, no NUL, no 0xff, no backslash).
func BaseName(t *pbt.T, n int) string {
	b := make([]byte, n)
	kind := t.Weighted(6, 3, 2)
	r := t.Sub()
	for i := range b {
		switch kind {
		case 0:
			b[i] = nameChars[r.Intn(62)]
		case 1:
			b[i] = nameChars[r.Intn(len(nameChars))]
		case 2: // bytes of other encodings
			for {
				b[i] = byte(1 + r.Intn(254))
				if b[i] != '/' && b[i] != '\\' && b[i] != '|' {
					break
				}
			}
		}
	}
	s := string(b)
	if s == "." || s == ".." {
		s = "ab"[:n]
	}
	return s
}

// NameLen draws a name length, favouring the limits of the header levels.
func NameLen(t *pbt.T, max int) int {
	var n int
	switch t.Weighted(8, 3, 3) {
	case 0:
		n = 1 + t.Intn(16)
	case 1:
		n = 1 + t.Intn(max)
	case 2:
		edge := []int{1, 2, 200, 209, 210, 211, 219, 220, 221, 222, 228, 229, 230, 231, 232, 233, 234, 250, 253, 254, 255}
		n = edge[t.Intn(len(edge))]
	}
	if n > max {
		n = max
	}
	return n
}

// ------------------------------------------------------------ token streams

// TokParam bounds a token stream.
type TokParam struct {
	MinLen, MaxLen int
	Dict           int
	Dist           func(count int) int // further bound, by bytes produced so far
}

// Tokens draws n tokens.
func Tokens(t *pbt.T, n int, p TokParam) []lharef.Token {
	var out []lharef.Token
	var r lharef.Chooser = t
	if n > 60 {
		r = t.Sub()
	}
	alpha := []int{1, 2, 5, 30, 256}[t.Intn(5)]
	base := t.Intn(256)
	matches := t.Intn(4) // 0: none ... 3: most
	style := t.Intn(4)
	lenFix := 0
	if style == 3 { // few distinct lengths
		lenFix = p.MinLen + r.Intn(p.MaxLen-p.MinLen+1)
	}
	count := 0
	for i := 0; i < n; i++ {
		if r.Intn(4) >= matches {
			out = append(out, lharef.Token{Lit: byte(base + r.Intn(alpha))})
			count++
			continue
		}
		tk := lharef.Token{}
		switch {
		case lenFix > 0 && r.Intn(3) > 0:
			tk.Len = lenFix
		case r.Intn(6) == 0:
			tk.Len = p.MaxLen - r.Intn(2)
		case r.Intn(2) == 0:
			tk.Len = p.MinLen + r.Intn(min(12, p.MaxLen-p.MinLen+1))
		default:
			tk.Len = p.MinLen + r.Intn(p.MaxLen-p.MinLen+1)
		}
		if tk.Len < p.MinLen {
			tk.Len = p.MinLen
		}
		max := p.Dict
		if p.Dist != nil {
			if m := p.Dist(count); m < max {
				max = m
			}
		}
		switch r.Intn(5) {
		case 0:
			tk.Dist = 1 + r.Intn(min(max, 4))
		case 1:
			tk.Dist = 1 + r.Intn(max)
		case 2: // powers of two and neighbours
			d := 1<<uint(r.Intn(17)) + r.Intn(3) - 1
			tk.Dist = 1 + d%max
		case 3:
			tk.Dist = max - r.Intn(min(max, 3))
		default:
			if count == 0 {
				tk.Dist = 1
			} else {
				tk.Dist = 1 + r.Intn(min(max, count))
			}
		}
		out = append(out, tk)
		count += tk.Len
	}
	return out
}

// SkewTokens draws a stream whose symbol counts grow like Fibonacci numbers on
// top of the n symbols every adaptive tree starts with, and then uses rare
// symbols while the tree is deepest.
func SkewTokens(t *pbt.T, maxLen, n int) []lharef.Token {
	r := t.Sub()
	a, b := n*6/10+r.Intn(20), n
	var bag []lharef.Token
	total := n
	limit := 32768 - 200 - r.Intn(300)
	base := r.Intn(256)
	for k := 0; total+a < limit; k++ {
		for i := 0; i < a; i++ {
			tk := lharef.Token{Lit: byte(base + k)}
			if k%2 == 1 && k < maxLen-3 {
				tk = lharef.Token{Len: 3 + k, Dist: 1 + r.Intn(40)}
			}
			bag = append(bag, tk)
		}
		total += a
		a, b = b, a+b
	}
	if t.Bool() {
		r.Shuffle(len(bag), func(i, j int) { bag[i], bag[j] = bag[j], bag[i] })
	}
	for i := 0; i < 300+r.Intn(300); i++ {
		if r.Intn(3) == 0 {
			bag = append(bag, lharef.Token{Len: 3 + r.Intn(maxLen-2), Dist: 1 + r.Intn(40)})
		} else {
			bag = append(bag, lharef.Token{Lit: byte(r.Intn(256))})
		}
	}
	return bag
}

// CoverTokens uses every code of an adaptive tree about equally often, so that
// the rarest become few: each code once per round, the rounds shuffled.
func CoverTokens(t *pbt.T, maxLen, codes int) []lharef.Token {
	r := t.Sub()
	var out []lharef.Token
	rounds := 1 + t.Intn(3)
	for k := 0; k < rounds; k++ {
		var round []lharef.Token
		for i := 0; i < 256; i++ {
			round = append(round, lharef.Token{Lit: byte(i)})
		}
		for i := 256; i < codes; i++ {
			n := i - 256 + 3
			if i == codes-1 {
				n += r.Intn(maxLen - n + 1)
			}
			round = append(round, lharef.Token{Len: n, Dist: 1 + r.Intn(40)})
		}
		r.Shuffle(len(round), func(i, j int) { round[i], round[j] = round[j], round[i] })
		if drop := t.Intn(4); k == rounds-1 {
			round = round[drop:]
		}
		out = append(out, round...)
	}
	for i := t.Intn(40); i > 0; i-- {
		out = append(out, out[r.Intn(len(out))])
	}
	return out
}

// deepLh1 is a body that makes an -lh1- coder emit very long adaptive codes:
// the symbols never used form the deepest subtree, and each further class of
// copies is just too common to be joined before everything rarer is.
func deepLh1(t *pbt.T) []byte {
	r := t.Sub()
	m := 54 + r.Intn(6)
	out, base, rare := copyClasses(r, m, 314+m+40+r.Intn(60), 32500, 4096)
	for i := 0; i < 60; i++ {
		out = append(out, rare[r.Intn(len(rare))])
		if r.Intn(3) == 0 {
			p := r.Intn(m - 3)
			out = append(out, base[p:p+3]...)
		}
	}
	return out
}

// deepBlock is a body whose one block of codes would need more than 16 bits
// for some of them, were the length not limited.
func deepBlock(t *pbt.T, dict int) []byte {
	r := t.Sub()
	m := 60 + r.Intn(30)
	if dict > 8192 {
		m = 230 + r.Intn(26)
	}
	out, _, _ := copyClasses(r, m, m+12+r.Intn(16), 20700, dict)
	return out
}

// copyClasses draws a body that is coded as m literals and then copies whose
// lengths have Fibonacci-like frequencies above a weight of s0, at most limit
// in all. A copy is placed only where the window has its bytes and no longer
// match.
func copyClasses(r *rand.Rand, m, s0, limit, dict int) (out, base, rare []byte) {
	perm := r.Perm(256)
	for _, v := range perm[:m] {
		base = append(base, byte(v))
	}
	for _, v := range perm[m:] {
		rare = append(rare, byte(v))
	}
	out = append(out, base...)
	var classes []int
	before, all, w := 0, s0, s0/2+4
	for all+w < limit {
		classes = append(classes, w)
		before, all = all, all+w
		w = before + 3 + r.Intn(1+s0/40)
	}
	var bag []int
	for i, w := range classes { // the commonest class gets the longest copies
		for k := 0; k < w; k++ {
			bag = append(bag, 3+i)
		}
	}
	r.Shuffle(len(bag), func(i, j int) { bag[i], bag[j] = bag[j], bag[i] })
	var pair [256][256]int // where two bytes last stood together, plus 1
	var run [256][24]int   // where a piece of base last began, plus 1
	placed := func(p, ln, at int) {
		for q := p; q < p+ln; q++ {
			if q+1 < p+ln {
				pair[base[q]][base[q+1]] = at + q - p + 1
			}
			for k := 1; k <= p+ln-q && k < 24; k++ {
				run[q][k] = at + q - p + 1
			}
		}
	}
	placed(0, m, 0)
	last := make([]int, m) // when a copy last began here
	end := m
	for i := range bag {
		at := len(out)
		best, ln := -1, bag[i]
		for try := 0; try < 60 && best < 0; try++ {
			j := i + r.Intn(len(bag)-i)
			bag[i], bag[j] = bag[j], bag[i]
			ln = bag[i]
			for _, p := range r.Perm(m - ln + 1) {
				if p == end || (best >= 0 && last[p] >= last[best]) {
					continue
				}
				seen := pair[base[end-1]][base[p]]
				if seen > 0 && at-seen < dict+200 || at-run[p][ln] > dict-200 {
					continue
				}
				best = p
			}
		}
		if best < 0 {
			best = r.Intn(m - ln + 1)
		}
		last[best] = i + 1
		pair[base[end-1]][base[best]] = at
		placed(best, ln, at)
		out = append(out, base[best:best+ln]...)
		end = best + ln
	}
	return out, base, rare
}

// NTokens draws a stream length.
func NTokens(t *pbt.T, big int) int {
	switch t.Weighted(10, 10, 6, 2) {
	case 0:
		return 1 + t.Intn(12)
	case 1:
		return 1 + t.Intn(120)
	case 2:
		return 100 + t.Intn(1500)
	}
	return 1000 + t.Intn(big)
}

// Sizes cuts n tokens into blocks.
func Sizes(t *pbt.T, n int) []int {
	var out []int
	if t.Intn(3) == 0 {
		for n > 0 {
			k := min(n, 65535)
			out = append(out, k)
			n -= k
		}
		return out
	}
	for n > 0 {
		k := min(65535, 1+t.Intn(n))
		if t.OneIn(4) {
			k = min(n, 1+t.Intn(8))
		}
		if len(out) > 40 {
			k = min(n, 65535)
		}
		out = append(out, k)
		n -= k
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// copyRich is a body of several blocks made nearly only of short copies.
func copyRich(t *pbt.T, dict int) []byte {
	n := 250000 + t.Intn(400000)
	lits := t.Intn(3) // of 8
	r := t.Sub()
	reach := dict - 300
	if reach > 6000 {
		reach = 6000
	}
	out := fill(r, reach, 256, 0)
	for len(out) < n {
		p := len(out) - 1 - r.Intn(reach)
		k := 3 + r.Intn(5)
		if p+k > len(out) {
			continue
		}
		out = append(out, out[p:p+k]...)
		if r.Intn(8) < lits {
			out = append(out, byte(r.Intn(256)))
		}
	}
	return out
}
