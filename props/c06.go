package props

import (
	"bytes"
	"os"
	"path/filepath"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C06",
		Rule:  "A well-formed archive (written by the library or by the reference writer, 1 to 3 members, every method and header level) is damaged: a byte of a header, of the recorded CRC or sizes, of the packed data, several bytes at once, sizes made false under a right checksum, or the file cut inside a member. Headers, DecompresBytes, Decompress, CommandExtract and test mode must report the damage, and may report success for a member only when the bytes delivered have the size and CRC recorded in its header. Non-trivial: the damage changes bytes of a member with a body.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "data", Quick: 12000, Thorough: 80000, Run: damageData},
			{Name: "crcfield", Quick: 2100, Thorough: 15000, Run: damageCRC},
			{Name: "header", Quick: 9000, Thorough: 60000, Run: damageHeader},
			{Name: "truncate", Quick: 4500, Thorough: 30000, Run: damageTruncate},
			{Name: "anything", Quick: 7500, Thorough: 50000, Run: damageAny},
			{Name: "sizes", Quick: 6000, Thorough: 40000, Run: falseSizes},
		},
	})
}

// Dam is a well-formed archive about to be damaged.
type Dam struct {
	Raw   []byte
	Ms    []*lharef.Member
	At    []int // offset of each member
	Names []string
}

// drawWhole builds a well-formed archive.
func drawWhole(t *pbt.T) *Dam {
	d := &Dam{}
	if t.OneIn(3) {
		// written by the library
		l := lha.NewLha("whole.lzh")
		n := 1 + t.Intn(2)
		for i := 0; i < n; i++ {
			name := []string{"first", "second"}[i]
			body := Content(t, false)
			m := encMethods[t.Intn(len(encMethods))]
			lev := []int{2, 0, 1}[t.Intn(3)]
			var err error
			t.Lib("CompressBytes", func() { err = l.CompressBytes(name, body, m, lev) })
			if err != nil {
				t.Fatalf("CompressBytes: %v", err)
			}
		}
		d.Raw = readFile("whole.lzh")
		os.Remove("whole.lzh")
		t.Label("written by the library")
	} else {
		fs := drawMembers(t, 1+t.Weighted(4, 2, 1), ForeignOpt{Flat: true, Plain: true, Exact: true})
		var ms []*lharef.Member
		for _, f := range fs {
			ms = append(ms, f.M)
		}
		d.Raw = lharef.Archive(ms...)
		t.Label("written by the reference writer")
	}
	ms, err := lharef.ParseArchive(d.Raw)
	if err != nil {
		t.Fatalf("the archive to be damaged is not well formed: %v", err)
	}
	d.Ms = ms
	off := 0
	for _, m := range ms {
		d.At = append(d.At, off)
		off += m.Extra + len(m.Packed)
		d.Names = append(d.Names, m.Path())
	}
	return d
}

// honest checks rule "success only with the recorded size and CRC" for every
// member a reader finds; it returns how many calls failed.
func honest(t *pbt.T, archive string) (headersErr error, failed int) {
	raw := readFile(archive)
	hs, err := headers(t, archive)
	headersErr = err
	seen := map[string]int{}
	for _, h := range hs {
		seen[cname(h.Name)]++
	}
	abs, _ := filepath.Abs(archive)
	for i, h := range hs {
		if seen[cname(h.Name)] > 1 {
			continue // a name twice: which one is meant is not defined
		}
		b, err := bytesOf(t, archive, h)
		if err != nil {
			failed++
		} else if regular(h) {
			if len(b) != h.OriginalSize {
				t.Fatalf("DecompresBytes(%q, %s) reports success with %d bytes, the header says %d", cname(h.Name), h.Method, len(b), h.OriginalSize)
			}
			if h.HasCrc && uint(lharef.CRC16(b)) != h.Crc {
				t.Fatalf("DecompresBytes(%q, %s) reports success with CRC %04x, the header says %04x", cname(h.Name), h.Method, lharef.CRC16(b), h.Crc)
			}
			if headersErr == nil && len(b) != h.OriginalSize {
				t.Fatalf("Headers reports the archive good")
			}
		}
		if headersErr == nil && err != nil && regular(h) {
			t.Fatalf("Headers tests the archive and reports it good, DecompresBytes(%q, %s): %v", cname(h.Name), h.Method, err)
		}
		if !regular(h) || !plainName(cname(h.Name)) || i > 3 {
			continue
		}
		// to disk
		dir := "x" + string(rune('0'+i))
		mustDir(dir)
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		var derr error
		t.Lib("Decompress", func() { derr = lha.NewLha(abs).Decompress(h) })
		var got []byte
		if derr == nil {
			os.Chmod(cname(h.Name), 0600)
			var rerr error
			got, rerr = os.ReadFile(cname(h.Name))
			if rerr != nil {
				t.Fatalf("Decompress(%q) reports success: %v", cname(h.Name), rerr)
			}
			if len(got) != h.OriginalSize || (h.HasCrc && uint(lharef.CRC16(got)) != h.Crc) {
				t.Fatalf("Decompress(%q, %s) reports success with %d bytes, CRC %04x; the header says %d, %04x", cname(h.Name), h.Method, len(got), lharef.CRC16(got), h.OriginalSize, h.Crc)
			}
		}
		if (derr == nil) != (err == nil) {
			t.Fatalf("%q: Decompress says %v, DecompresBytes says %v", cname(h.Name), derr, err)
		}
		if err := os.Chdir(filepath.Dir(abs)); err != nil {
			panic(err)
		}
	}
	if !bytes.Equal(readFile(archive), raw) {
		t.Fatalf("reading changed the archive")
	}
	return
}

func regular(h *lha.LzHeader) bool {
	return int(h.UnixMode)&0170000 == 0100000 && string(h.Method) != "-lhd-"
}

func plainName(s string) bool {
	if s == "" || s == "." || s == ".." || len(s) > 200 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return false
		}
	}
	return true
}

// extractAll runs CommandExtract, in test mode or not, in an empty directory.
func extractAll(t *pbt.T, archive string, verify bool) error {
	abs, _ := filepath.Abs(archive)
	home, _ := os.Getwd()
	dir := "all"
	if verify {
		dir = "test"
	}
	mustDir(dir)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(home)
	l := lha.NewLha(abs)
	l.Force = true
	l.Verbose = t.OneIn(3)
	lha.VerifyMode = verify
	defer resetGlobals()
	var err error
	t.Lib("CommandExtract", func() { err = lha.CommandExtract(abs, l) })
	if verify {
		if ents, _ := os.ReadDir("."); len(ents) > 0 {
			t.Fatalf("test mode wrote %q", ents[0].Name())
		}
	}
	return err
}

// mustReport wants every whole-archive reader to fail.
func mustReport(t *pbt.T, what string, archive string, herr error) {
	if herr == nil {
		t.Fatalf("Headers does not report %s", what)
	}
	if err := extractAll(t, archive, true); err == nil {
		t.Fatalf("test mode does not report %s", what)
	}
	if err := extractAll(t, archive, false); err == nil {
		t.Fatalf("CommandExtract does not report %s", what)
	}
	if err := printAll(t, archive); err == nil {
		t.Fatalf("printing does not report %s", what)
	}
	if t.OneIn(6) {
		mustDir("cli")
		home, _ := os.Getwd()
		abs, _ := filepath.Abs(archive)
		if err := os.Chdir("cli"); err != nil {
			panic(err)
		}
		defer os.Chdir(home)
		o := [][]string{{"-t"}, {"-p"}, {"-e", "-f"}}[t.Intn(3)]
		t.Label("program %s", o[0])
		code, _, errb := runCLI(t, nil, append([]string{"-archive", abs}, o...)...)
		if code != 1 || len(errb) == 0 {
			t.Fatalf("the program does not report %s: %q exits with %d, message %q", what, o, code, firstLine(errb))
		}
	}
}

// printAll prints every member.
func printAll(t *pbt.T, archive string) error {
	l := lha.NewLha(archive)
	l.OutputToStdout = true
	l.Force = t.Bool()
	l.Verbose = t.OneIn(3)
	quiet := lha.Quiet
	lha.Quiet = t.Bool()
	defer func() { lha.Quiet = quiet }()
	var err error
	capture(func() { t.Lib("CommandExtract -p", func() { err = lha.CommandExtract(archive, l) }) })
	return err
}

func pickWithBody(t *pbt.T, d *Dam) int {
	k := t.Intn(len(d.Ms))
	for i := 0; i < len(d.Ms); i++ {
		if len(d.Ms[(k+i)%len(d.Ms)].Packed) > 0 {
			return (k + i) % len(d.Ms)
		}
	}
	return -1
}

// damageData changes packed data.
func damageData(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	k := pickWithBody(t, d)
	if k < 0 {
		return
	}
	m := d.Ms[k]
	raw := append([]byte{}, d.Raw...)
	base := d.At[k] + m.Extra
	n := 1 + t.Weighted(5, 2, 1)
	lo, hi := len(m.Packed), 0
	for i := 0; i < n; i++ {
		p := t.Intn(len(m.Packed))
		if t.OneIn(4) {
			p = []int{0, len(m.Packed) - 1, 1, 2}[t.Intn(4)] % len(m.Packed)
		}
		raw[base+p] ^= byte(1 + t.Intn(255))
		if p < lo {
			lo = p
		}
		if p > hi {
			hi = p
		}
	}
	if bytes.Equal(raw, d.Raw) {
		return
	}
	t.Label("method %s", m.Method)
	t.Describe("damaged packed data of %q (%s, %d bytes) within %d..%d", m.Path(), m.Method, len(m.Packed), lo, hi)
	t.NonTrivial()
	writeFile(t, "d.lzh", raw)
	herr, _ := honest(t, "d.lzh")
	if m.NoCRC {
		return
	}
	stored := m.Method == "-lh0-" || m.Method == "-lz4-" || m.Method == "-pm0-"
	if stored {
		if n == 1 || lharef.CRC16(raw[base:base+len(m.Packed)]) != m.CRC {
			mustReport(t, "a changed stored body", "d.lzh", herr)
		}
		return
	}
	if herr != nil {
		mustReport(t, "what Headers reported", "d.lzh", herr)
	} else if err := extractAll(t, "d.lzh", true); err != nil {
		t.Fatalf("Headers reports the archive good, test mode: %v", err)
	}
}

// damageCRC changes the recorded CRC (and repairs the header checksum).
func damageCRC(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	k := t.Intn(len(d.Ms))
	m := d.Ms[k]
	if m.NoCRC {
		return
	}
	c := *m
	c.CRC ^= uint16(1 + t.Intn(65535))
	what := "a wrong CRC"
	if t.OneIn(4) && len(m.Packed) > 1 && m.Orig > 1 {
		// a wrong size instead
		c = *m
		if t.Bool() {
			c.Orig += 1 + t.Intn(1000)
			what = "a size larger than the data"
		} else {
			k := 1 + t.Intn(m.Orig-1)
			if t.Bool() {
				// the last copy reaches a little too far
				k = min(k, 1+t.Intn(4))
			}
			c.Orig -= k
			what = "a size smaller than the data"
			if lharef.CRC16(nil) == m.CRC {
				return
			}
		}
		t.Label("wrong size")
	} else {
		t.Label("wrong CRC")
	}
	var raw []byte
	raw = append(raw, d.Raw[:d.At[k]]...)
	raw = append(raw, c.Bytes()...)
	raw = append(raw, d.Raw[d.At[k]+m.Extra+len(m.Packed):]...)
	t.Describe("%s for %q (%s): CRC %04x size %d, should be %04x %d", what, m.Path(), m.Method, c.CRC, c.Orig, m.CRC, m.Orig)
	t.NonTrivial()
	writeFile(t, "d.lzh", raw)
	herr, _ := honest(t, "d.lzh")
	if c.CRC != m.CRC && c.Orig == m.Orig {
		mustReport(t, what, "d.lzh", herr)
	}
}

// damageHeader changes one byte that the header checksum or CRC covers.
func damageHeader(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	k := t.Intn(len(d.Ms))
	m := d.Ms[k]
	raw := append([]byte{}, d.Raw...)
	at := d.At[k]
	p := 0
	if m.Level < 2 {
		base := int(raw[at]) + 2
		p = 1 + t.Intn(base-1) // everything but the size byte
	} else {
		// everything but the size, the level and what delimits the extended headers
		skip := map[int]bool{0: true, 1: true, 20: true, 24: true, 25: true, 26: true, 27: true, 28: true, 29: true, 30: true, 31: true}
		pos, szf := 24, 2
		if m.Level == 3 {
			pos, szf = 28, 4
		}
		for i := 0; i < szf; i++ {
			skip[pos+i] = true
		}
		q := pos + szf
		for _, e := range m.Exts {
			skip[q] = true // its type
			q += 1 + len(e.Data)
			for i := 0; i < szf; i++ {
				skip[q+i] = true
			}
			q += szf
		}
		for try := 0; ; try++ {
			p = t.Intn(m.Extra)
			if !skip[p] {
				break
			}
			if try > 50 {
				p = 2 + t.Intn(18)
				break
			}
		}
	}
	old := raw[at+p]
	raw[at+p] ^= byte(1 + t.Intn(255))
	if m.Level < 2 && p == 20 && (raw[at+p] == 2 || raw[at+p] == 3) {
		raw[at+p] = 9
	}
	if m.Level >= 2 && t.OneIn(4) {
		// the header CRC overwritten as a whole, alone or with the change above
		if q := headerCRCAt(m); q > 0 {
			if t.Bool() {
				raw[at+p] = old
			}
			v := []byte{0, 0xff, 0x20, byte(t.Intn(256))}[t.Intn(4)]
			raw[at+q], raw[at+q+1] = v, v
			t.Label("header CRC overwritten")
		}
	}
	if m.Level >= 2 {
		if _, err := lharef.ParseArchive(raw); err == nil {
			return // the CRC happens to be right
		}
	}
	t.Label("level %d", m.Level)
	t.Describe("byte %d of the level %d header of %q changed from %02x to %02x", p, m.Level, m.Path(), old, raw[at+p])
	t.NonTrivial()
	writeFile(t, "d.lzh", raw)
	hs, herr := headers(t, "d.lzh")
	if herr == nil {
		t.Fatalf("Headers does not report a damaged header")
	}
	if len(hs) > k {
		t.Fatalf("Headers returns the member with the damaged header")
	}
	mustReport(t, "a damaged header", "d.lzh", herr)
	listReports(t, "a damaged header")
}

// headerCRCAt is the offset of the header CRC in the header of a member of
// level 2 or 3.
func headerCRCAt(m *lharef.Member) int {
	q, szf := 26, 2
	if m.Level == 3 {
		q, szf = 32, 4
	}
	for _, e := range m.Exts {
		if e.Type == 0 {
			return q + 1
		}
		q += 1 + len(e.Data) + szf
	}
	return 0
}

// listReports wants every way of listing to fail.
func listReports(t *pbt.T, what string) {
	l := lha.NewLha("d.lzh")
	l.Verbose, l.VerboseListing = t.OneIn(3), t.Bool()
	lha.Quiet = t.Bool()
	defer resetGlobals()
	var lerr error
	capture(func() { t.Lib("CommandList", func() { lerr = lha.CommandList("d.lzh", l) }) })
	if lerr == nil {
		t.Fatalf("CommandList (quiet %v verbose %v %v) does not report %s", lha.Quiet, l.Verbose, l.VerboseListing, what)
	}
	if t.OneIn(8) {
		code, _, errb := runCLI(t, nil, append([]string{"-archive", "d.lzh", "-l"}, [][]string{{}, {"-v"}}[t.Intn(2)]...)...)
		if code != 1 || len(errb) == 0 {
			t.Fatalf("the program does not report %s: listing exits with %d, message %q", what, code, firstLine(errb))
		}
	}
}

// damageTruncate cuts the file inside a member.
func damageTruncate(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	k := t.Intn(len(d.Ms))
	m := d.Ms[k]
	size := m.Extra + len(m.Packed)
	cut := 1 + t.Intn(size-1)
	if t.OneIn(4) {
		cut = []int{1, 20, 21, 22, m.Extra - 1, m.Extra, m.Extra + 1, size - 1}[t.Intn(8)]
		if cut >= size || cut < 1 {
			cut = size - 1
		}
	}
	raw := d.Raw[:d.At[k]+cut]
	t.Label("level %d", m.Level)
	if cut < m.Extra {
		t.Label("cut in the header")
	} else {
		t.Label("cut in the data")
	}
	t.Describe("cut %d bytes into %q (header %d, data %d)", cut, m.Path(), m.Extra, len(m.Packed))
	t.NonTrivial()
	writeFile(t, "d.lzh", raw)
	hs, herr := headers(t, "d.lzh")
	mustReport(t, "a truncated archive", "d.lzh", herr)
	for _, h := range hs {
		b, err := bytesOf(t, "d.lzh", h)
		if err == nil && cname(h.Name) == m.Path() {
			t.Fatalf("DecompresBytes(%q) reports success (%d bytes) though the data is cut", m.Path(), len(b))
		}
	}
	listReports(t, "a truncated archive")
}

// damageAny: only the rule on success applies.
func damageAny(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	raw := append([]byte{}, d.Raw...)
	n := 1 + t.Intn(6)
	for i := 0; i < n; i++ {
		switch t.Intn(4) {
		case 0:
			raw[t.Intn(len(raw))] = byte(t.Intn(256))
		case 1:
			p := t.Intn(len(raw))
			raw = append(raw[:p:p], raw[min(len(raw), p+1+t.Intn(8)):]...)
		case 2:
			p := t.Intn(len(raw))
			raw = append(raw[:p:p], append([]byte{byte(t.Intn(256))}, raw[p:]...)...)
		case 3:
			raw = raw[:t.Intn(len(raw))+1]
		}
		if len(raw) == 0 {
			raw = []byte{1}
		}
	}
	t.Describe("%d random changes of an archive of %d members", n, len(d.Ms))
	if !bytes.Equal(raw, d.Raw) {
		t.NonTrivial()
	}
	writeFile(t, "d.lzh", raw)
	honest(t, "d.lzh")
}

// falseSizes: the header is sound but its sizes are not those of the data, and
// the recorded CRC is that of the part of the data a careless reader delivers.
func falseSizes(t *pbt.T) {
	fresh(t)
	fs := drawMembers(t, 1+t.Weighted(4, 2, 1), ForeignOpt{Flat: true, Plain: true, Exact: true})
	k := t.Intn(len(fs))
	for i := 0; i < len(fs) && len(fs[k].Body) == 0; i++ {
		k = (k + 1) % len(fs)
	}
	m, body := fs[k].M, fs[k].Body
	if len(body) == 0 || len(m.Packed) == 0 {
		return
	}
	crc := func(b []byte) { m.CRC = lharef.CRC16(b) }
	stored := m.Method == "-lh0-" || m.Method == "-lz4-" || m.Method == "-pm0-"
	must, what := false, ""
	switch t.Intn(6) {
	case 0: // no data at all
		m.Packed = nil
		crc(nil)
		must, what = stored, "no packed data"
	case 1: // more announced than there is
		m.Orig += []int{1, 2, 3, 255, 256, 257, 4096, 70000}[t.Intn(8)]
		crc(body)
		what = "a larger size announced"
		must = stored
	case 2: // less announced than there is
		m.Orig -= 1 + t.Intn(min(len(body), 300))
		crc(body)
		what = "a smaller size announced, the CRC of the whole"
	case 3:
		m.Orig -= 1 + t.Intn(min(len(body), 300))
		crc(body[:m.Orig])
		what = "a smaller size announced, the CRC of that part"
	case 4: // data cut
		m.Packed = m.Packed[:t.Intn(len(m.Packed))]
		if stored {
			crc(m.Packed)
			must = true
		} else {
			crc(body[:len(body)*len(m.Packed)/max(1, len(fs[k].M.Packed)+1)])
		}
		what = "packed data cut"
	case 5: // more data than needed
		m.Packed = append(append([]byte{}, m.Packed...), fill(t.Sub(), 1+t.Intn(20), 256, 0)...)
		what = "packed data and more"
	}
	t.NonTrivial()
	t.Label("%s", what)
	t.Label("method %s", m.Method)
	t.Describe("%s: %q (%s) says %d bytes packed in %d, really %d", what, m.Path(), m.Method, m.Orig, len(m.Packed), len(body))
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	writeFile(t, "d.lzh", lharef.Archive(ms...))
	herr, _ := honest(t, "d.lzh")
	if must && herr == nil {
		t.Fatalf("Headers does not report %s", what)
	}
	if herr != nil {
		mustReport(t, what, "d.lzh", herr)
	} else if err := extractAll(t, "d.lzh", true); err != nil {
		t.Fatalf("Headers reports the archive good, test mode: %v", err)
	} else if err := extractAll(t, "d.lzh", false); err != nil {
		t.Fatalf("Headers reports the archive good, CommandExtract: %v", err)
	}
}
