package props

import (
	"bytes"
	"encoding/binary"
	"io"
	"os"
	"path/filepath"
	"strings"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C07",
		Rule:  "Hostile input: random files, well-formed headers over random packed data and false sizes, damaged archives, damaged headers whose checksums are made right again, random streams handed to every decoder. Every reading entry point (Headers, GetHeader, DecompresBytes, Decompress, CommandList, CommandExtract, DecodeLzhuf) and adding to such a file must return within the CPU and memory limits without a panic, write no more than the announced size (plus what is left of a last copy) and read no more than the packed size. Non-trivial: the input gets past the first header, or is a stream.",
		Setup: setup,
		Assume: []string{
			"limits watched: 20 s of CPU time per case, 2.5 GB resident memory per worker process",
		},
		Sections: []pbt.Section{
			{Name: "stream", Quick: 36000, Thorough: 200000, Run: hostileStream},
			{Name: "hostile", Quick: 12000, Thorough: 60000, Run: hostileMember},
			{Name: "mutate", Quick: 8000, Thorough: 40000, Run: hostileMutate},
			{Name: "header", Quick: 80000, Thorough: 400000, Run: hostileHeader},
			{Name: "garbage", Quick: 6000, Thorough: 30000, Run: hostileGarbage},
		},
	})
}

// noise draws bytes of several textures.
func noise(t *pbt.T, n int) []byte {
	r := t.Sub()
	b := make([]byte, n)
	switch t.Weighted(5, 1, 1, 2, 1) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
	case 1: // zeros
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3: // sparse
		for i := range b {
			if r.Intn(6) == 0 {
				b[i] = byte(1 << uint(r.Intn(8)))
			}
		}
	case 4:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	}
	return b
}

func hostileStream(t *pbt.T) {
	fresh(t)
	m := allMethods[t.Intn(len(allMethods))]
	var data []byte
	orig := 0
	switch t.Intn(3) {
	case 0: // pure noise
		data = noise(t, t.Intn(400))
		orig = t.Intn(100000)
	case 1: // a valid stream, damaged
		p := ForeignStream(t, m, false)
		data = append([]byte{}, p.Data...)
		orig = len(p.Body)
		for k := 1 + t.Intn(4); k > 0 && len(data) > 0; k-- {
			switch t.Intn(3) {
			case 0:
				data[t.Intn(len(data))] ^= byte(1 + t.Intn(255))
			case 1:
				data = data[:t.Intn(len(data)+1)]
			case 2:
				data = append(data, noise(t, t.Intn(20))...)
			}
		}
		if t.Bool() {
			orig += t.Intn(50000)
		}
	case 2: // a size far beyond the data
		data = noise(t, t.Intn(40))
		if t.Bool() && len(data) > 0 {
			data[0] |= 0x41
		}
		orig = 1 << uint(16+t.Intn(9))
		if bytes.Count(data, []byte{0}) < len(data)/2 {
			orig = []int{1<<31 - 1, 1 << 31, 1<<32 - 1}[t.Intn(3)]
			t.Label("size of gigabytes announced")
		}
	}
	packed := len(data)
	if t.OneIn(4) {
		packed = t.Intn(len(data) + 50) // not what is there
	}
	t.Label("method %s", m)
	t.Describe("%s: %d bytes, packed size %d, original size %d", m, len(data), packed, orig)
	t.NonTrivial()
	sr := &sawReader{data: data, piece: []int{0, 1}[t.Intn(2)]}
	cw := &countWriter{}
	read := 0
	t.Lib("DecodeLzhuf "+m, func() {
		lha.NewLha("").DecodeLzhuf(sr, cw, orig, packed, "x", methodNum[m], &read)
	})
	longest := 256 // a last copy may run over the end, which is reported
	if m == "-lh2-" {
		longest = 287 // the last length code has 8 more bits
	}
	if cw.n > orig+longest {
		t.Fatalf("%s: %d bytes written, the original size is %d", m, cw.n, orig)
	}
	if sr.pos > packed {
		t.Fatalf("%s: %d bytes read, the packed size is %d", m, sr.pos, packed)
	}
}

type countWriter struct{ n int }

func (c *countWriter) Write(p []byte) (int, error) { c.n += len(p); return len(p), nil }

// readEverything uses every reading entry point on the archive.
func readEverything(t *pbt.T, archive string) (members int) {
	raw := readFile(archive)
	hs, _ := headers(t, archive)
	abs, _ := filepath.Abs(archive)
	for i, h := range hs {
		if i > 4 {
			break
		}
		_ = h.String()
		b, err := bytesOf(t, archive, h)
		if err == nil && regular(h) && len(b) > h.OriginalSize {
			t.Fatalf("DecompresBytes delivers %d bytes for a size of %d", len(b), h.OriginalSize)
		}
	}
	mustDir("rx")
	if err := os.Chdir("rx"); err != nil {
		panic(err)
	}
	for i, h := range hs {
		if i > 2 {
			break
		}
		l := lha.NewLha(abs)
		l.Force = t.Bool()
		t.Lib("Decompress", func() { l.Decompress(h) })
	}
	l := lha.NewLha(abs)
	l.Force = true
	t.Lib("CommandExtract", func() { lha.CommandExtract(abs, l) })
	capture(func() {
		l := lha.NewLha(abs)
		l.VerboseListing, l.Verbose = t.Bool(), t.Bool()
		lha.Quiet = false
		t.Lib("CommandList", func() { lha.CommandList(abs, l) })
		l = lha.NewLha(abs)
		l.OutputToStdout = true
		t.Lib("CommandExtract -p", func() { lha.CommandExtract(abs, l) })
		resetGlobals()
	})
	lha.VerifyMode = true
	t.Lib("CommandExtract -t", func() { lha.CommandExtract(abs, lha.NewLha(abs)) })
	lha.VerifyMode = false
	os.Chdir(filepath.Dir(abs))
	if !bytes.Equal(readFile(archive), raw) {
		t.Fatalf("reading changed the archive")
	}
	return len(hs)
}

// addOnto adds a member to the file: it fails and leaves the file alone, or
// the result is an archive that starts with no wrong member.
func addOnto(t *pbt.T, archive string) {
	raw := readFile(archive)
	l := lha.NewLha(archive)
	l.SortContents = t.Bool()
	level := t.Intn(3)
	var err error
	how := t.Intn(4)
	if how > 0 {
		putFile("added", []byte("the added body the added body"), 0644, 1500000000)
		l.UpdateIfNewer = t.Bool()
	}
	capture(func() {
		t.Lib("adding", func() {
			switch how {
			case 0:
				err = l.CompressBytes("added", []byte("the added body the added body"), 5, level)
			case 1:
				err = l.Compress("added", 5, level)
			case 2:
				l.HeaderLevel, l.CompressMethod = level, 5
				l.CmdFilev, l.CmdFilec = []string{"added", "not there"}, 2
				err = lha.CommandAdd(archive, l)
			case 3: // automatic update: the names come from the archive
				l.HeaderLevel, l.CompressMethod = level, 5
				l.UpdateIfNewer = true
				err = lha.CommandAdd(archive, l)
			}
		})
	})
	now := readFile(archive)
	if err != nil && !bytes.Equal(raw, now) {
		t.Fatalf("adding (way %d) fails (%v) and changes the archive", how, err)
	}
	if err == nil {
		t.Label("added onto")
	}
}

func hostileMember(t *pbt.T) {
	fresh(t)
	n := 1 + t.Intn(2)
	var raw []byte
	for i := 0; i < n; i++ {
		f := drawForeign(t, ForeignOpt{Methods: []string{"-lh0-"}}, "")
		m := f.M
		m.Method = append(allMethods, "-lhd-", "-lhx-", "-lh9-", "-xxx-")[t.Intn(len(allMethods)+4)]
		m.Packed = noise(t, t.Intn(300))
		m.Orig = t.Intn(50000)
		if t.OneIn(4) {
			m.Orig = len(m.Packed)
		}
		if t.OneIn(4) {
			setModeAny(t, f)
		}
		if t.OneIn(4) {
			oddName(t, f)
		}
		raw = append(raw, m.Bytes()...)
		t.Label("method %s", m.Method)
	}
	if t.Bool() {
		raw = append(raw, 0)
	}
	t.NonTrivial()
	writeFile(t, "h.lzh", raw)
	readEverything(t, "h.lzh")
	if t.OneIn(2) {
		addOnto(t, "h.lzh")
	}
}

// oddName gives the member a name no archiver would.
func oddName(t *pbt.T, f *Foreign) {
	name := []string{"", "/", "//", ".", "..", "./", "../", "|", "a|", "|b", "a|b|c", "/a", "a//b", "\x00", "a\x00b", " ", "-", strings.Repeat("n", 200)}[t.Intn(18)]
	if f.M.Level == 0 {
		f.M.Name = []byte(name)
	} else {
		setName(f, name, "")
	}
	if f.M.Level > 0 || len(f.M.Tail) >= 12 {
		switch t.Intn(3) {
		case 0:
			f.M.Method, f.M.Packed, f.M.Orig = "-lhd-", nil, 0
			modeOfForeign(f, 0040755)
		case 1:
			f.M.Method, f.M.Packed, f.M.Orig = "-lhd-", nil, 0
			modeOfForeign(f, 0120777)
		}
	}
	t.Label("odd name")
}

func modeOfForeign(f *Foreign, mode int) {
	if f.M.Level == 0 {
		binary.LittleEndian.PutUint16(f.M.Tail[6:], uint16(mode))
		return
	}
	setMode(f, mode)
}

func setModeAny(t *pbt.T, f *Foreign) {
	mode := t.Intn(65536)
	if f.M.Level == 0 {
		if len(f.M.Tail) >= 12 {
			binary.LittleEndian.PutUint16(f.M.Tail[6:], uint16(mode))
		}
		return
	}
	setMode(f, mode)
}

func hostileMutate(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	raw := append([]byte{}, d.Raw...)
	for k := 1 + t.Intn(5); k > 0; k-- {
		p := t.Intn(len(raw))
		if t.Bool() { // near a header
			p = d.At[t.Intn(len(d.At))] + t.Intn(60)
			if p >= len(raw) {
				p = len(raw) - 1
			}
		}
		switch t.Intn(4) {
		case 0:
			raw[p] = byte(t.Intn(256))
		case 1:
			raw = append(raw[:p:p], raw[min(len(raw), p+1+t.Intn(30)):]...)
		case 2:
			raw = append(raw[:p:p], append(noise(t, 1+t.Intn(10)), raw[p:]...)...)
		case 3:
			raw = raw[:p+1]
		}
		if len(raw) == 0 {
			raw = []byte{0x20}
		}
	}
	t.Describe("damaged archive of %d members, %d bytes", len(d.Ms), len(raw))
	writeFile(t, "h.lzh", raw)
	if readEverything(t, "h.lzh") > 0 {
		t.NonTrivial()
	}
	if t.OneIn(2) {
		addOnto(t, "h.lzh")
	}
}

// fixSums makes checksum and header CRC right again.
func fixSums(h []byte) {
	if len(h) < 21 {
		return
	}
	switch h[20] {
	case 0, 1:
		base := int(h[0]) + 2
		if base > len(h) {
			return
		}
		s := 0
		for _, c := range h[2:base] {
			s += int(c)
		}
		h[1] = byte(s)
	case 2, 3:
		pos, szf := 24, 2
		if h[20] == 3 {
			pos, szf = 28, 4
		}
		for pos+szf <= len(h) {
			sz := 0
			if szf == 2 {
				sz = le16(h[pos:])
			} else {
				sz = le32(h[pos:])
			}
			pos += szf
			if sz < 1+szf || pos+sz > len(h) {
				return
			}
			if h[pos] == 0 && sz >= 3+szf {
				h[pos+1], h[pos+2] = 0, 0
				binary.LittleEndian.PutUint16(h[pos+1:], lharef.CRC16(h))
				return
			}
			pos += sz - szf
		}
	}
}

// hostileHeader: damaged headers that still pass their checksum.
func hostileHeader(t *pbt.T) {
	fresh(t)
	f := drawForeign(t, ForeignOpt{Methods: []string{"-lh0-"}}, "")
	if f.M.Level > 0 && t.Bool() {
		// extended headers of the wrong length
		for k := 1 + t.Intn(3); k > 0; k-- {
			typ := []byte{0, 1, 2, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54, 0x3f}[t.Intn(12)]
			f.M.Exts = append(f.M.Exts, lharef.ExtHdr{Type: typ, Data: noise(t, t.Intn(40))})
		}
	}
	h := f.M.Header()
	for k := t.Intn(4); k > 0; k-- {
		p := t.Intn(len(h))
		if t.Bool() {
			p = []int{0, 1, 7, 8, 10, 11, 19, 20, 21, 22, 24, 25, 26, 28, 29}[t.Intn(15)]
			if p >= len(h) {
				p = 0
			}
		}
		switch t.Intn(3) {
		case 0:
			h[p] = byte(t.Intn(256))
		case 1:
			h[p] = []byte{0, 1, 2, 3, 0xff, 0x7f, 0x80, 20, 21, 22}[t.Intn(10)]
		case 2:
			h[p] += byte(t.Intn(5) - 2)
		}
	}
	if t.Weighted(4, 1) == 0 {
		fixSums(h)
	}
	if t.OneIn(5) {
		h = h[:t.Intn(len(h))+1]
	}
	if t.OneIn(4) {
		lha.ConvertCase = true
		defer func() { lha.ConvertCase = false }()
	}
	raw := append(append([]byte{}, h...), noise(t, t.Intn(200))...)
	t.Label("level byte %d", min(int(byteAt(h, 20)), 4))
	sr := &sawReader{data: raw, piece: []int{0, 1}[t.Intn(2)]}
	var rd io.Reader = sr
	g := lha.NewLzHeader()
	var err error
	var ok bool
	t.Lib("GetHeader", func() { err, ok = g.GetHeader(&rd) })
	if err != nil && ok {
		t.Fatalf("GetHeader returns a header together with error %v", err)
	}
	if ok {
		t.Label("accepted")
		t.NonTrivial()
		if g.PackedSize < 0 || g.OriginalSize < 0 {
			t.Fatalf("negative size accepted: packed %d, original %d", g.PackedSize, g.OriginalSize)
		}
		if g.HeaderSize != sr.pos {
			t.Fatalf("header of %d bytes reported, %d were read", g.HeaderSize, sr.pos)
		}
		_ = g.String()
		// and written again
		if g.HeaderLevel <= 2 && len(cname(g.Name)) < 900 {
			var buf bytes.Buffer
			var w io.Writer = &buf
			t.Lib("WriteHeader", func() { lha.WriteHeader(&w, g) })
		}
	}
}

func byteAt(b []byte, i int) byte {
	if i < len(b) {
		return b[i]
	}
	return 0
}

func hostileGarbage(t *pbt.T) {
	fresh(t)
	var raw []byte
	switch t.Intn(3) {
	case 0:
		raw = noise(t, t.Intn(2000))
	case 1: // header-like pieces
		for k := 1 + t.Intn(4); k > 0; k-- {
			p := noise(t, 22+t.Intn(80))
			copy(p[2:], allMethods[t.Intn(len(allMethods))])
			p[20] = byte(t.Intn(4))
			p[0] = byte(t.Intn(len(p)))
			for i := 7; i < 15; i++ {
				p[i] = 0
			}
			p[7] = byte(t.Intn(60))
			fixSums(p)
			raw = append(raw, p...)
		}
	case 2:
		raw = noise(t, t.Intn(30))
	}
	name := []string{"g.lzh", "g.exe", "g.x"}[t.Weighted(3, 1, 1)]
	t.Describe("%d random bytes as %s", len(raw), name)
	writeFile(t, name, raw)
	if readEverything(t, name) > 0 {
		t.NonTrivial()
	}
	if name == "g.lzh" && t.OneIn(3) {
		addOnto(t, name)
	}
}
