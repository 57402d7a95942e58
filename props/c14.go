package props

import (
	"fmt"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C14",
		Rule:  "Generated bodies are added with method 1, 5, 6 or 7 and the packed size in the archive is compared with that of a plain reference encoder of the same method (longest copy in the dictionary, put off by one byte, Huffman codes by frequency or the adaptive tree): it may be at most 1.7% and 40 bytes above it, and never above the size of the body; every Huffman code of -lh5- to -lh7- (each block's three) must take the fewest bits possible for the symbols it codes, where no code exceeds 16 bits. Bodies: everything C01 uses, blocks repeated at distances around each dictionary size, long runs, skewed distributions, text. Non-trivial: the reference encoder saves at least a tenth.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "any", Quick: 4500, Thorough: 30000, Run: func(t *pbt.T) { packs(t, Content(t, false)) }},
			{Name: "big", Quick: 360, Thorough: 3000, Run: func(t *pbt.T) { packs(t, Content(t, true)) }},
			{Name: "repeat", Quick: 900, Thorough: 6000, Run: func(t *pbt.T) { packs(t, repeated(t)) }},
			{Name: "skewed", Quick: 900, Thorough: 6000, Run: func(t *pbt.T) { packs(t, skewed(t)) }},
			{Name: "edge", Quick: 1200, Thorough: 8000, Run: edgeOfShrinking},
			{Name: "dictionary", Quick: 180, Thorough: 1500, Run: largerDict},
		},
	})
}

func packedSize(t *pbt.T, body []byte, method, level int) (string, int) {
	m := packedMember(t, body, method, level)
	return m.Method, len(m.Packed)
}

func packedMember(t *pbt.T, body []byte, method, level int) *lharef.Member {
	l := lha.NewLha("k.lzh")
	l.NewArchive = true
	var err error
	if t.OneIn(3) {
		writeFile(t, "k", body)
		t.Lib("Compress", func() { err = l.Compress("k", method, level) })
	} else {
		t.Lib("CompressBytes", func() { err = l.CompressBytes("k", append([]byte{}, body...), method, level) })
	}
	if err != nil {
		t.Fatalf("adding: %v", err)
	}
	m := parseOnly(t, "k.lzh")
	if m.Method >= "-lh5-" && m.Method <= "-lh7-" {
		// the Huffman codes are as short as can be for what they code
		_, st, err := lharef.DecodeSt1(method, m.Packed, len(body))
		if err != nil {
			t.Fatalf("the packed data (%s) does not decode: %v", m.Method, err)
		}
		bits, cut := st.Waste()
		if bits > 0 {
			t.Fatalf("%d bytes take %d packed (%s): the Huffman codes waste %d bits", len(body), len(m.Packed), m.Method, bits)
		}
		t.Label("cut %d", cut)
	}
	return m
}

func packs(t *pbt.T, body []byte) {
	fresh(t)
	method := []int{5, 1, 6, 7}[t.Intn(4)]
	m := packedMember(t, body, method, t.Intn(3))
	got, n := m.Method, len(m.Packed)
	t.Label("method %s", got)
	if n > len(body) {
		t.Fatalf("%d bytes take %d packed (%s)", len(body), n, got)
	}
	if got == "-lh0-" && n != len(body) {
		t.Fatalf("%d bytes stored as %d", len(body), n)
	}
	if got != "-lh0-" && n >= len(body) && len(body) > 0 {
		t.Fatalf("%d bytes that do not shrink (%d packed, %s) are not stored as they are", len(body), n, got)
	}
	want, toks := lharef.PlainSize(method, body)
	t.Describe("method %d, %s in %d tokens: %d packed, reference %d", method, Show(body), len(toks), n, want)
	if want*10 < len(body)*9 {
		t.NonTrivial()
	}
	slack := want/60 + 40
	if len(body) < 4000 {
		slack = min(want/60+25, want/20+12)
	}
	if n > want+slack && method != 1 && got != "-lh0-" {
		// where blocks end is a matter of luck, as long as they are not small
		other, st, err := lharef.DecodeSt1(method, m.Packed, len(body))
		if err == nil && (len(st.Sizes) == 1 || len(other)/(len(st.Sizes)-1) >= 8000) {
			want = max(want, lharef.PlainSizeAt(method, toks, other, st.Sizes))
			t.Label("as blocks end")
		}
	}
	if n > want+slack {
		t.Fatalf("%d bytes take %d packed (%s), a plain encoder of method %d needs %d", len(body), n, got, method, want)
	}
}

// repeated is a block of noise that comes again at a distance near a dictionary size.
func repeated(t *pbt.T) []byte {
	r := t.Sub()
	block := fill(r, 300+t.Intn(3000), 256, 0)
	d := []int{4096, 8192, 32768, 65536}[t.Weighted(4, 4, 2, 1)] + []int{-300, -258, -257, -256, -2, -1, 0, 1, 2, 300}[t.Intn(10)]
	if t.OneIn(3) {
		d = len(block) + t.Intn(9000)
	}
	if d < len(block) {
		d = len(block)
	}
	out := append([]byte{}, block...)
	filler := t.Intn(3)
	switch filler {
	case 0:
		out = append(out, fill(r, d-len(block), 256, 0)...)
	case 1:
		out = append(out, make([]byte, d-len(block))...)
	case 2:
		out = append(out, fill(r, d-len(block), 4, 'a')...)
	}
	for k := 1 + t.Intn(3); k > 0; k-- {
		out = copyFrom(out, d, len(block))
	}
	t.Label("distance %d", d>>12<<12)
	return out
}

// skewed is noise over an uneven distribution.
func skewed(t *pbt.T) []byte {
	r := t.Sub()
	n := 200 + t.Intn(20000)
	k := 2 + t.Intn(60)
	out := make([]byte, n)
	p := 2 + r.Intn(6)
	for i := range out {
		s := 0
		for s < k-1 && r.Intn(p) == 0 {
			s++
		}
		out[i] = byte(s * 37)
	}
	return out
}

// largerDict: a repetition only the larger dictionary reaches.
func largerDict(t *pbt.T) {
	fresh(t)
	r := t.Sub()
	small, large, d := 1, 5, 4097+r.Intn(4000)
	switch t.Intn(3) {
	case 1:
		small, large, d = 5, 6, 8193+r.Intn(24000)
	case 2:
		small, large, d = 6, 7, 32769+r.Intn(32000)
	}
	body := fill(r, d, 256, 0)
	body = copyFrom(body, d, d-300)
	t.NonTrivial()
	t.Describe("%d bytes repeated at distance %d with methods %d and %d", d, d, small, large)
	_, a := packedSize(t, body, small, 2)
	_, b := packedSize(t, body, large, 2)
	if b > d*106/100+400 {
		t.Fatalf("noise of %d bytes, repeated within the dictionary of method %d, takes %d packed", d, large, b)
	}
	if a < len(body) {
		t.Fatalf("%s", fmt.Sprintf("noise repeated outside the dictionary of method %d takes %d for %d bytes", small, a, len(body)))
	}
}

// edgeOfShrinking is noise with just enough repetition that the packed size
// is about the size of the body.
func edgeOfShrinking(t *pbt.T) {
	fresh(t)
	method := []int{5, 1, 6, 7}[t.Intn(4)]
	level := t.Intn(3)
	r := t.Sub()
	body := fill(r, 1+t.Intn([]int{20, 200, 1200}[t.Intn(3)]), 256, 0)
	step := 1 + len(body)/40
	n := 0
	for len(body) < 4000 {
		if n, _ = lharef.PlainSize(method, body); n <= len(body)+2 {
			break
		}
		for i := 0; i < step; i++ {
			body = append(body, body[i%len(body)])
		}
	}
	t.Describe("method %d, noise and some repetition, %s and up to 6 bytes more, reference %d", method, Show(body), n)
	t.NonTrivial()
	for i := 0; i < 7; i++ {
		got, n := packedSize(t, body, method, level)
		if n > len(body) || (got == "-lh0-" && n != len(body)) {
			t.Fatalf("%d bytes take %d packed (%s)", len(body), n, got)
		}
		if got != "-lh0-" && n >= len(body) {
			t.Fatalf("%d bytes that do not shrink (%d packed, %s) are not stored as they are", len(body), n, got)
		}
		if n == len(body) {
			t.Label("stored")
		} else {
			t.Label("packed, %d less", min(3, len(body)-n))
		}
		body = append(body, body[0])
	}
}
