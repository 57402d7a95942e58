package props

import (
	"bytes"
	"os"
	"path/filepath"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

var encMethods = []int{lha.Lzhuff5MethodNum, lha.Lzhuff0MethodNum, lha.Lzhuff1MethodNum, lha.Lzhuff6MethodNum, lha.Lzhuff7MethodNum}

// AddCase is one generated "put this file in an archive".
type AddCase struct {
	Method, Level int
	Name          string // member name
	Path          string // path given to Compress / CompressBytes
	Body          []byte
	File          bool // through Compress, not CompressBytes
	Archive       string
	Mode          os.FileMode
	MTime         int64
}

// maxName is the longest member name the level stores in full.
func maxName(level int) int {
	if level == 0 {
		return 221
	}
	return 255
}

func drawTime(t *pbt.T, dos bool) int64 {
	lo, hi := int64(315619200), int64(4291747200) // 1980-01-02 .. 2105-12-31
	if !dos {
		lo, hi = 1, 1<<32-2
	}
	var v int64
	switch t.Weighted(4, 3, 2) {
	case 0:
		v = 1000000000 + int64(t.Intn(700000000))
	case 1:
		v = lo + int64(t.Uint64n(uint64(hi-lo+1)))
	case 2:
		edge := []int64{lo, lo + 1, hi, hi - 1, 1<<31 - 2, 1<<31 - 1, 1 << 31, 951782399, 951782400, 946684799, 946684800, 1078012800, 4107542400}
		v = edge[t.Intn(len(edge))]
	}
	if dos {
		v &^= 1
		if v < lo {
			v += 2
		}
		if !steady(v) {
			v += 86400
		}
	}
	return v
}

func drawAdd(t *pbt.T, big bool) *AddCase {
	c := &AddCase{}
	c.Method = encMethods[t.Intn(len(encMethods))]
	c.Level = []int{2, 0, 1}[t.Intn(3)]
	max := maxName(c.Level)
	c.File = t.Bool()
	c.Name = BaseName(t, NameLen(t, max))
	c.Archive = []string{"out.lzh", "sub/dir/out.lha", "x", "a.b.c.ym"}[t.Weighted(6, 2, 1, 1)]
	dir := []string{"", "in", "in/more", "./", "//"}[t.Weighted(5, 2, 2, 1, 1)]
	if c.Archive == c.Name {
		c.Archive = "other.lzh"
	}
	if dir == "//" {
		dir = filepath.Join(t.Dir, "abs")
	}
	c.Path = c.Name
	if dir == "./" {
		c.Path = "./" + c.Name
	} else if dir != "" {
		c.Path = dir + "/" + c.Name
	}
	c.Body = Content(t, big)
	c.Mode = os.FileMode([]int{0644, 0600, 0755, 0400, 0666, 0777, 0444, 0555}[t.Intn(8)])
	c.MTime = drawTime(t, c.Level != 2 || t.Bool())
	if c.Level == 0 && t.Bool() {
		c.MTime |= 1 // odd seconds: kept by the unix part of a level 0 header
	}
	t.Label("method %d", c.Method)
	t.Label("level %d", c.Level)
	if c.File {
		t.Label("Compress")
	} else {
		t.Label("CompressBytes")
	}
	if len(c.Name) > 200 {
		t.Label("long name")
	}
	t.Describe("method %d level %d file=%v archive %q path %q mode %o mtime %d body %s", c.Method, c.Level, c.File, c.Archive, c.Path, c.Mode, c.MTime, Show(c.Body))
	return c
}

// put writes the input file of the case.
func (c *AddCase) put(t *pbt.T) {
	mustDir(filepath.Dir(c.Archive))
	if !c.File {
		return
	}
	mustDir(filepath.Dir(c.Path))
	putFile(c.Path, c.Body, c.Mode, c.MTime)
}

func mustDir(d string) {
	if err := os.MkdirAll(d, 0777); err != nil {
		panic(err)
	}
}

func putFile(path string, body []byte, mode os.FileMode, mtime int64) {
	os.Remove(path)
	if err := os.WriteFile(path, body, 0600); err != nil {
		panic(err)
	}
	if err := os.Chmod(path, mode); err != nil {
		panic(err)
	}
	tm := time.Unix(mtime, 0)
	if err := os.Chtimes(path, tm, tm); err != nil {
		panic(err)
	}
}

// add runs the library on the case with the given instance.
func (c *AddCase) add(t *pbt.T, l *lha.Lha) {
	var err error
	if c.File {
		t.Lib("Compress", func() { err = l.Compress(c.Path, c.Method, c.Level) })
	} else {
		body := append([]byte{}, c.Body...)
		t.Lib("CompressBytes", func() { err = l.CompressBytes(c.Path, body, c.Method, c.Level) })
		if !bytes.Equal(body, c.Body) {
			t.Fatalf("CompressBytes changed the caller's bytes: %s", Diff(c.Body, body))
		}
	}
	if err != nil {
		t.Fatalf("adding %q: %v", c.Path, err)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C01",
		Rule:  "A generated body (segments of random bytes, runs, copies at window-sized distances, words; up to 300 KB) is added with Compress or CompressBytes (methods 0,1,5,6,7, header levels 0,1,2, generated names and paths) and read back with Headers, DecompresBytes and Decompress; several files are added in one go; streams are encoded and decoded directly, from readers that hand data out in pieces, one byte at a time, or end early in a read. Non-trivial: the body is not empty.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "archive", Quick: 3900, Thorough: 26000, Run: func(t *pbt.T) { roundTrip(t, false) }},
			{Name: "archive-big", Quick: 780, Thorough: 6000, Run: func(t *pbt.T) { roundTrip(t, true) }},
			{Name: "stream", Quick: 2100, Thorough: 14000, Run: streamRoundTrip},
			{Name: "deep", Quick: 120, Thorough: 500, Run: deepRoundTrip},
			{Name: "several", Quick: 2400, Thorough: 16000, Run: severalRoundTrip},
			{Name: "huge", Quick: 8, Thorough: 160, Run: huge},
		},
	})
}

func roundTrip(t *pbt.T, big bool) {
	fresh(t)
	c := drawAdd(t, big)
	c.put(t)
	if len(c.Body) > 0 {
		t.NonTrivial()
	}
	if t.OneIn(4) {
		lha.GenericFormat = true
		t.Label("generic format")
	}
	l := lha.NewLha(c.Archive)
	c.add(t, l)
	if c.File {
		if got := readFile(c.Path); !bytes.Equal(got, c.Body) {
			t.Fatalf("Compress changed the input file: %s", Diff(c.Body, got))
		}
	}
	// read back with the instance that wrote it, or a fresh one
	same := t.OneIn(3)
	if !same {
		l = lha.NewLha(c.Archive)
	}
	var hs []*lha.LzHeader
	var err error
	t.Lib("Headers", func() { hs, err = l.Headers() })
	if err != nil {
		t.Fatalf("Headers (same instance %v): %v", same, err)
	}
	if len(hs) != 1 {
		t.Fatalf("Headers found %d members, 1 was added", len(hs))
	}
	h := hs[0]
	if cname(h.Name) != c.Name {
		t.Fatalf("member name %q, added as %q", cname(h.Name), c.Name)
	}
	if h.OriginalSize != len(c.Body) {
		t.Fatalf("original size %d, body has %d bytes", h.OriginalSize, len(c.Body))
	}
	var b []byte
	t.Lib("DecompresBytes", func() { b, err = l.DecompresBytes(h) })
	if err != nil {
		t.Fatalf("DecompresBytes: %v", err)
	}
	if !bytes.Equal(b, c.Body) {
		t.Fatalf("DecompresBytes differs from what was added: %s", Diff(c.Body, b))
	}
	abs, _ := filepath.Abs(c.Archive)
	mustDir("out.d")
	if err := os.Chdir("out.d"); err != nil {
		panic(err)
	}
	l2 := lha.NewLha(abs)
	t.Lib("Decompress", func() { err = l2.Decompress(h) })
	if err != nil {
		t.Fatalf("Decompress: %v", err)
	}
	ents, _ := os.ReadDir(".")
	if len(ents) != 1 || ents[0].Name() != c.Name {
		t.Fatalf("Decompress left %d files, want just %q", len(ents), c.Name)
	}
	os.Chmod(c.Name, 0600)
	got, rerr := os.ReadFile(c.Name)
	if rerr != nil {
		t.Fatalf("reading the extracted file: %v", rerr)
	}
	if !bytes.Equal(got, c.Body) {
		t.Fatalf("Decompress wrote other bytes than were added: %s", Diff(c.Body, got))
	}
}

// streamRoundTrip goes through the exported stream coder and decoder.
func streamRoundTrip(t *pbt.T) {
	fresh(t)
	m := encMethods[t.Intn(len(encMethods))]
	body := Content(t, t.OneIn(8))
	t.Label("method %d", m)
	t.Describe("method %d body %s", m, Show(body))
	streamCase(t, m, body)
}

func streamCase(t *pbt.T, m int, body []byte) {
	packed, osize, psize, mid, crc, err := encodeStream(t, m, body)
	if err != nil {
		t.Fatalf("EncodeLzhuf: %v", err)
	}
	if want := "-lh" + string(rune('0'+m)) + "-"; mid != want {
		t.Fatalf("EncodeLzhuf names method %q, asked for %s", mid, want)
	}
	if m > 0 && psize >= osize {
		// the coder gives up on a body it cannot make smaller
		if len(body) > 0 && psize < len(body) {
			t.Fatalf("EncodeLzhuf gave up with %d packed bytes for %d of a body of %d", psize, osize, len(body))
		}
		t.Label("not compressible")
		return
	}
	if osize != len(body) {
		t.Fatalf("EncodeLzhuf reports original size %d, body has %d bytes", osize, len(body))
	}
	if uint(lharef.CRC16(body)) != crc {
		t.Fatalf("EncodeLzhuf reports CRC %04x, the body has %04x", crc, lharef.CRC16(body))
	}
	t.NonTrivial()
	if psize != len(packed) {
		t.Fatalf("EncodeLzhuf reports packed size %d, wrote %d bytes", psize, len(packed))
	}
	junk := make([]byte, t.Intn(3))
	piece := []int{0, 1, 13}[t.Intn(3)]
	out, crc2, read, used := decodeStream(t, mid, packed, len(body), junk, piece)
	if !bytes.Equal(out, body) {
		t.Fatalf("decoded stream differs: %s", Diff(body, out))
	}
	if uint(crc2) != crc {
		t.Fatalf("decoder reports CRC %04x, coder %04x", crc2, crc)
	}
	if read != used || used > len(packed) {
		t.Fatalf("decoder took %d bytes and reports %d of a packed size of %d", used, read, len(packed))
	}
}

// deepRoundTrip uses bodies whose codes get as long as they can.
func deepRoundTrip(t *pbt.T) {
	fresh(t)
	m := encMethods[t.Intn(len(encMethods))]
	if m == 0 {
		m = lha.Lzhuff7MethodNum
	}
	var body []byte
	switch t.Intn(7) {
	case 5, 6:
		body = copyRich(t, dictOf(m))
		t.Label("copies over several blocks")
	case 0:
		body = deep(t, 17+t.Intn(5))
	case 1:
		body = deepLh1(t)
		m = lha.Lzhuff1MethodNum
	case 2:
		body = fibLiterals(t, 18+t.Intn(6))
	default:
		body = deepBlock(t, dictOf(m))
	}
	t.Label("method %d", m)
	t.Describe("method %d skewed body %s", m, Show(body))
	streamCase(t, m, body)
}

// fibLiterals draws literals with Fibonacci frequencies and no repeats worth a copy.
func fibLiterals(t *pbt.T, n int) []byte {
	r := t.Sub()
	var bag []byte
	a, b := 1, 1
	for l := 0; l < n; l++ {
		for k := 0; k < a; k++ {
			bag = append(bag, byte(l*7))
		}
		a, b = b, a+b
	}
	r.Shuffle(len(bag), func(i, j int) { bag[i], bag[j] = bag[j], bag[i] })
	return bag
}

func dictOf(m int) int {
	switch m {
	case lha.Lzhuff1MethodNum:
		return 4096
	case lha.Lzhuff6MethodNum:
		return 32768
	case lha.Lzhuff7MethodNum:
		return 65536
	}
	return 8192
}
