package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C04",
		Rule:  "Archives of 1 to 6 members put together by an independent reference writer as other archivers write them: header levels 0 to 3 mixed, every method, every known extended header and unknown ones in any order, directories, Windows/UNIX/MS-DOS time stamps, LArc headers without CRC, with or without end mark, bytes after the end mark, a self-extractor in front. Headers, GetHeader and DecompresBytes must return every member in order with the recorded metadata and content. Non-trivial: at least one member has a body and is not a stored level 0 member.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "archive", Quick: 4500, Thorough: 30000, Run: func(t *pbt.T) { foreignArchive(t, false) }},
			{Name: "sfx", Quick: 900, Thorough: 5000, Run: func(t *pbt.T) { foreignArchive(t, true) }},
			{Name: "getheader", Quick: 4500, Thorough: 30000, Run: foreignHeader},
			{Name: "entries", Quick: 1200, Thorough: 8000, Run: foreignEntries},
		},
	})
}

// uniqueNames makes every drawn name distinct.
func drawMembers(t *pbt.T, n int, o ForeignOpt) []*Foreign {
	var fs []*Foreign
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := drawForeign(t, o, "")
		if seen[f.Name] {
			f = drawForeign(t, o, fmt.Sprintf("member-%d", i))
			if seen[f.Name] {
				continue
			}
		}
		seen[f.Name] = true
		fs = append(fs, f)
	}
	return fs
}

func foreignArchive(t *pbt.T, sfx bool) {
	fresh(t)
	n := 1 + t.Weighted(4, 3, 2, 1, 1, 1)
	if t.OneIn(80) {
		n = 100 + t.Intn(300)
		t.Label("hundreds of members")
	}
	name := []string{"a.lzh", "b.lha", "c.ym", "noext", "d.lzs"}[t.Intn(5)]
	var raw []byte
	if sfx {
		name = []string{"a.exe", "B.COM", "c.x", "d.X", "e.Exe"}[t.Intn(5)]
		k := t.Intn(3000)
		if t.OneIn(3) {
			k = 1 + t.Intn(60000)
		}
		r := t.Sub()
		pre := make([]byte, k)
		for i := range pre {
			pre[i] = byte(r.Intn(256))
			if pre[i] == '-' {
				pre[i] = 'M'
			}
		}
		// look-alikes of a header
		if k > 200 && t.Bool() {
			at := r.Intn(k - 100)
			copy(pre[at:], []string{"-lh5-", "-lhx-", "-pm2-", "-lh0 "}[t.Intn(4)])
			for i := at - 2; i < at+80 && i < k; i++ {
				if i >= 0 && (i < at || i >= at+5) {
					pre[i] = 0xfe
				}
			}
			t.Label("header look-alike in the self-extractor")
		}
		raw = pre
		t.Label("self-extractor")
	}
	fs := drawMembers(t, n, ForeignOpt{SFX: sfx, Long: true})
	for i, f := range fs {
		raw = append(raw, f.M.Bytes()...)
		if len(f.Body) > 0 && (f.M.Level > 0 || f.M.Method != "-lh0-") {
			t.NonTrivial()
		}
		_ = i
	}
	switch t.Weighted(4, 2, 1) {
	case 0:
		raw = append(raw, 0)
	case 1:
		t.Label("no end mark")
	case 2:
		raw = append(raw, 0)
		raw = append(raw, []byte("trailing bytes -lh5- after the end mark")...)
		t.Label("bytes after the end mark")
	}
	writeFile(t, name, raw)
	hs, err := headers(t, name)
	if err != nil {
		t.Fatalf("Headers: %v", err)
	}
	if len(hs) != len(fs) {
		t.Fatalf("Headers found %d members, the archive has %d", len(hs), len(fs))
	}
	for i, f := range fs {
		checkHeader(t, hs[i], f)
	}
	// bodies in any order, one instance or several
	r := t.Sub()
	l := lha.NewLha(name)
	oneInst := t.Bool()
	for _, i := range r.Perm(len(fs)) {
		if !oneInst {
			l = lha.NewLha(name)
		}
		var b []byte
		t.Lib("DecompresBytes", func() { b, err = l.DecompresBytes(hs[i]) })
		if err != nil {
			t.Fatalf("DecompresBytes(%q): %v", fs[i].Name, err)
		}
		if !bytes.Equal(b, fs[i].Body) {
			t.Fatalf("member %d %q (%s): %s", i, fs[i].Name, fs[i].M.Method, Diff(fs[i].Body, b))
		}
	}
	if got := readFile(name); !bytes.Equal(got, raw) {
		t.Fatalf("reading changed the archive")
	}
}

// foreignHeader reads headers one after another with GetHeader.
func foreignHeader(t *pbt.T) {
	fresh(t)
	n := 1 + t.Intn(3)
	fs := drawMembers(t, n, ForeignOpt{Methods: []string{"-lh0-"}, MaxName: 255, Long: true})
	var raw []byte
	for _, f := range fs {
		raw = append(raw, f.M.Header()...)
	}
	t.NonTrivial()
	conv := t.OneIn(5)
	if conv {
		lha.ConvertCase = true
		defer func() { lha.ConvertCase = false }()
		t.Label("case conversion")
	}
	sr := &sawReader{data: raw, piece: []int{0, 1, 5}[t.Intn(3)]}
	var rd io.Reader = sr
	h := lha.NewLzHeader()
	end := 0
	for i, f := range fs {
		var err error
		var ok bool
		if t.Bool() {
			h = lha.NewLzHeader()
		}
		t.Lib("GetHeader", func() { err, ok = h.GetHeader(&rd) })
		if err != nil || !ok {
			t.Fatalf("GetHeader on header %d (level %d): %v, %v", i, f.M.Level, ok, err)
		}
		g := *f
		if conv {
			g.Name = convLower(f.Name, f.M.OS)
		}
		checkHeader(t, h, &g)
		end += f.M.Extra
		if sr.pos != end {
			t.Fatalf("GetHeader left the reader at %d, header %d ends at %d", sr.pos, i, end)
		}
	}
	var err error
	var ok bool
	t.Lib("GetHeader", func() { err, ok = h.GetHeader(&rd) })
	if ok || err != io.EOF {
		t.Fatalf("GetHeader at the end of the file: %v, %v; want EOF", ok, err)
	}
}

// convLower is the documented case conversion: a name in capitals from a
// system that has only those is shown in small letters.
func convLower(s string, os byte) string {
	switch os {
	case 'H', 'K', 'X', 'U', 'J', 'm', 'A':
		return s
	}
	b := []byte(s)
	for _, c := range b {
		if c >= 'a' && c <= 'z' {
			return s
		}
	}
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// foreignEntries: directories and symbolic links among the members.
func foreignEntries(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	kinds := 1 + t.Intn(4)
	for i := 0; i < kinds; i++ {
		f := drawForeign(t, ForeignOpt{Levels: []int{2, 1, 3}, Methods: []string{"-lh0-", "-lh5-"}, Plain: true}, fmt.Sprintf("%s-%d", BaseName(t, 1+t.Intn(8)), i))
		switch t.Intn(6) {
		case 0: // a file stays a file
		case 3: // level 0 has the whole path in one field
			level0Entry(t, f, i)
		case 4: // an Amiga directory is an empty stored file whose name ends in a separator
			makeDir(f)
			f.M.Method, f.M.OS = "-lh0-", 'A'
			f.Shown = "-lhd-"
			if t.Bool() { // without a mode
				var exts []lharef.ExtHdr
				for _, e := range f.M.Exts {
					if e.Type != 0x50 {
						exts = append(exts, e)
					}
				}
				f.M.Exts, f.Mode = exts, 0100666
			}
			t.Label("Amiga directory entry")
		case 5: // Mac OS: ':' separates, '/' is a character like another
			name := []byte{}
			shown := ""
			for k := 1 + t.Intn(3); k > 0; k-- {
				c := fmt.Sprintf("%c%d", 'a'+t.Intn(26), t.Intn(100))
				name, shown = append(name, c...), shown+c
				if t.Bool() {
					name, shown = append(name, "/x"...), shown+":x"
				}
				if k > 1 {
					name, shown = append(name, []byte(":\\")[t.Intn(2)]), shown+"/"
				}
			}
			setName(f, "x", "")
			for j, e := range f.M.Exts {
				if e.Type == 1 {
					f.M.Exts[j].Data = name
				}
			}
			f.M.OS, f.Name = 'm', shown
			t.Label("Mac OS name")
		case 1:
			makeDir(f)
			t.Label("directory entry")
		case 2:
			makeLink(f, linkTarget(t, "target", "../up/one", "/abs/path", "a b"))
			t.Label("symbolic link entry")
		}
		f.M.Header()
		fs = append(fs, f)
	}
	t.NonTrivial()
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	writeFile(t, "e.lzh", lharef.Archive(ms...))
	hs, err := headers(t, "e.lzh")
	if err != nil {
		t.Fatalf("Headers: %v", err)
	}
	if len(hs) != len(fs) {
		t.Fatalf("Headers found %d members, the archive has %d", len(hs), len(fs))
	}
	for i, f := range fs {
		checkHeader(t, hs[i], f)
		if f.M.Orig == 0 {
			continue
		}
		b, err := bytesOf(t, "e.lzh", hs[i])
		if err != nil {
			t.Fatalf("DecompresBytes(%q): %v", f.Name, err)
		}
		if !bytes.Equal(b, f.Body) {
			t.Fatalf("%q: %s", f.Name, Diff(f.Body, b))
		}
	}
}

// setName rewrites the name headers of a level 1..3 member.
func setName(f *Foreign, path, link string) {
	full := path
	if link != "" {
		full += "|" + link
	}
	b := []byte(full)
	cut := -1
	for i := range b {
		if b[i] == '/' {
			b[i] = 0xff
		}
		if b[i] == 0xff {
			cut = i
		}
	}
	var exts []lharef.ExtHdr
	for _, e := range f.M.Exts {
		if e.Type != 1 && e.Type != 2 {
			exts = append(exts, e)
		}
	}
	f.M.Name = nil
	if cut+1 < len(b) {
		exts = append(exts, lharef.ExtHdr{Type: 1, Data: b[cut+1:]})
	}
	if cut >= 0 {
		exts = append(exts, lharef.ExtHdr{Type: 2, Data: b[:cut+1]})
	}
	f.M.Exts = exts
	f.Name = path
}

// setMode rewrites the permission header.
func setMode(f *Foreign, mode int) {
	var exts []lharef.ExtHdr
	for _, e := range f.M.Exts {
		if e.Type != 0x50 {
			exts = append(exts, e)
		}
	}
	f.M.Exts = append(exts, lharef.ExtHdr{Type: 0x50, Data: w16(mode)})
	f.Mode = mode
}

// level0Entry makes a level 0 directory or link of a member.
func level0Entry(t *pbt.T, f *Foreign, i int) {
	sep := []string{"\\", "\xff"}[t.Intn(2)]
	path := fmt.Sprintf("%s%s%s-%d", BaseName(t, 1+t.Intn(5)), sep, BaseName(t, 1+t.Intn(5)), i)
	f.Body, f.User, f.Group = nil, "", ""
	st := uint32(drawTime(t, false))
	m := &lharef.Member{Level: 0, Method: "-lhd-", OS: 'U', Attr: 0x20, DOS: f.M.DOS}
	f.UID, f.GID, f.MTime = t.Intn(65536), t.Intn(65536), int64(st)
	f.Attr = 0x20
	if t.Bool() {
		path += sep
		f.Mode = 0040755
	} else {
		f.Link = "to" + sep + "there"
		f.Mode = 0120777
	}
	f.Name = strings.ReplaceAll(path, sep, "/")
	if f.Link != "" {
		path += "|" + f.Link
		f.Link = "to/there"
	}
	m.Name = []byte(path)
	m.Tail = append([]byte{'U', 0}, w32(st)...)
	m.Tail = append(m.Tail, w16(f.Mode)...)
	m.Tail = append(m.Tail, w16(f.UID)...)
	m.Tail = append(m.Tail, w16(f.GID)...)
	f.M = m
	t.Label("level 0 entry")
}
