package props

import (
	"bytes"
	"os"
	"path/filepath"
	"sort"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

// Added is a member the library was asked to write.
type Added struct {
	Name    string
	Body    []byte
	Method  int
	Level   int
	Generic bool
	Lo, Hi  int64
	Mode    int // -1: from memory
}

// addSeveral adds two to nine files of names of their own to one archive, new or
// another archiver's, by all the ways there are.
func addSeveral(t *pbt.T, generic bool) (archive string, base *Model, want []*Added) {
	archive = "several.lzh"
	base = drawBase(t, archive)
	names := []string{}
	for _, n := range []string{"aa", "Bee", "cc.txt", "d", "eeeeee-long-name.data", "f f", "m", "zz-last", "0first"} {
		names = append(names, n)
	}
	t.Sub().Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+t.Intn(len(names)-1)]
	var l *lha.Lha
	one := t.Bool()
	oneMethod := t.Bool()
	method := encMethods[t.Intn(len(encMethods))]
	for len(names) > 0 {
		if l == nil || !one {
			l = lha.NewLha(archive)
		}
		level := []int{2, 0, 1}[t.Intn(3)]
		if !oneMethod {
			method = encMethods[t.Intn(len(encMethods))]
		}
		l.SortContents = t.Bool()
		lha.GenericFormat = generic && t.Bool()
		k := 1
		how := t.Intn(3)
		if how == 2 {
			k = min(1+t.Intn(4), len(names))
		}
		group := names[:k]
		names = names[k:]
		if how == 2 && t.Bool() {
			sort.Strings(group)
		}
		var args []string
		var as []*Added
		for _, n := range group {
			a := &Added{Name: n, Body: Content(t, t.OneIn(20)), Method: method, Level: level, Generic: lha.GenericFormat, Mode: -1}
			p := n
			if how > 0 {
				a.Lo = drawTime(t, level < 2)
				a.Hi = a.Lo
				mode := []int{0644, 0755, 0600, 0444}[t.Intn(4)]
				a.Mode = 0100000 | mode
				if t.Bool() {
					mustDir("in")
					p = "in/" + n
				}
				putFile(p, a.Body, os.FileMode(mode), a.Lo)
			} else {
				a.Lo = time.Now().Unix()
			}
			args = append(args, p)
			as = append(as, a)
			t.Describe("%s %q method %d level %d generic %v sorted %v: %s", []string{"CompressBytes", "Compress", "CommandAdd"}[how], p, method, level, a.Generic, l.SortContents, Show(a.Body))
		}
		var err error
		switch how {
		case 0:
			t.Lib("CompressBytes", func() { err = l.CompressBytes(args[0], append([]byte{}, as[0].Body...), method, level) })
			as[0].Hi = time.Now().Unix()
		case 1:
			t.Lib("Compress", func() { err = l.Compress(args[0], method, level) })
		case 2:
			l.CmdFilev, l.CmdFilec = append([]string{}, args...), len(args)
			l.CompressMethod, l.HeaderLevel = method, level
			t.Lib("CommandAdd", func() { err = lha.CommandAdd(archive, l) })
			l.CmdFilev, l.CmdFilec = nil, 0
		}
		if err != nil {
			t.Fatalf("adding %q: %v", args, err)
		}
		lha.GenericFormat = false
		for _, p := range args {
			if how > 0 {
				os.Remove(p)
			}
		}
		want = append(want, as...)
	}
	t.Label("%d files added", len(want))
	t.NonTrivial()
	return
}

// severalRoundTrip: every one of several files comes back.
func severalRoundTrip(t *pbt.T) {
	fresh(t)
	archive, base, want := addSeveral(t, true)
	bodies := map[string][]byte{}
	for _, e := range base.List {
		bodies[e.Name] = e.Body
	}
	for _, a := range want {
		bodies[a.Name] = a.Body
	}
	hs, err := headers(t, archive)
	if err != nil {
		t.Fatalf("Headers: %v", err)
	}
	if len(hs) != len(bodies) {
		t.Fatalf("%d members found, %d added", len(hs), len(bodies))
	}
	seen := map[string]bool{}
	for _, h := range hs {
		n := cname(h.Name)
		body, ok := bodies[n]
		if !ok || seen[n] {
			t.Fatalf("member %q was not added, or twice", n)
		}
		seen[n] = true
		b, err := bytesOf(t, archive, h)
		if err != nil {
			t.Fatalf("DecompresBytes(%q): %v", n, err)
		}
		if !bytes.Equal(b, body) {
			t.Fatalf("DecompresBytes(%q): %s", n, Diff(body, b))
		}
	}
	// all to files
	abs := absPath(archive)
	mustDir("all.d")
	if err := os.Chdir("all.d"); err != nil {
		panic(err)
	}
	var xerr error
	capture(func() {
		if t.OneIn(3) {
			if code, _, e := runCLI(t, nil, "-archive", abs, "-e", "-f"); code != 0 {
				t.Fatalf("the program does not extract: %s", firstLine(e))
			}
			t.Label("extracted by the program")
			return
		}
		l := lha.NewLha(abs)
		l.Force = true
		t.Lib("CommandExtract", func() { xerr = lha.CommandExtract(abs, l) })
	})
	if xerr != nil {
		t.Fatalf("CommandExtract: %v", xerr)
	}
	for _, a := range want {
		got, err := os.ReadFile(a.Name)
		if err != nil || !bytes.Equal(got, a.Body) {
			t.Fatalf("extracted %q: %v %s", a.Name, err, Diff(a.Body, got))
		}
	}
}

// severalConform: every one of several members is well formed.
func severalConform(t *pbt.T) {
	fresh(t)
	archive, base, want := addSeveral(t, true)
	raw := readFile(archive)
	ms, err := lharef.ParseArchive(raw)
	if err != nil {
		t.Fatalf("the archive is not well formed: %v", err)
	}
	if len(ms) != len(want)+len(base.List) {
		t.Fatalf("the archive holds %d members, want %d", len(ms), len(want)+len(base.List))
	}
	by := map[string]*lharef.Member{}
	for _, m := range ms {
		by[m.Path()] = m
	}
	for _, a := range want {
		m := by[a.Name]
		if m == nil {
			t.Fatalf("no member %q", a.Name)
		}
		wantData(t, m, a.Method, a.Body)
		wantMeta(t, m, a.Level, a.Generic, a.Name, a.Lo, a.Hi, a.Mode)
	}
}

// hugeBody is one to forty megabytes, the more the cheaper it packs.
func hugeBody(t *pbt.T, method int) []byte {
	r := t.Sub()
	var b []byte
	kind := t.Intn(3)
	if method == 0 {
		n := 1<<20 + t.Intn(40<<20)
		b = make([]byte, n)
		r.Read(b[:1<<20])
		for i := 1 << 20; i < n; i++ {
			b[i] = b[i-1<<20] + byte(i>>20)
		}
		return b
	}
	switch kind {
	case 0: // repetitive
		n := 16<<20 + t.Intn(4<<20)
		page := fill(r, 500+t.Intn(3000), 64, 'A')
		for len(b) < n {
			b = append(b, page...)
			page[r.Intn(len(page))] = byte(r.Intn(256))
		}
	case 1: // mostly noise
		b = fill(r, 1<<20+t.Intn(1<<20), 100+t.Intn(100), 0)
	case 2: // words
		n := 1<<20 + t.Intn(2<<20)
		for len(b) < n {
			b = append(b, words[r.Intn(len(words))]...)
			if r.Intn(8) == 0 {
				b = append(b, byte(r.Intn(256)))
			}
		}
	}
	return b
}

// huge adds one body of many megabytes and reads it back.
func huge(t *pbt.T) {
	fresh(t)
	m := encMethods[t.Intn(len(encMethods))]
	body := hugeBody(t, m)
	level := t.Intn(3)
	t.Describe("method %d level %d %s", m, level, Show(body))
	t.Label("method %d", m)
	t.NonTrivial()
	writeFile(t, "huge.bin", body)
	l := lha.NewLha("h.lzh")
	var err error
	t.Lib("Compress", func() { err = l.Compress("huge.bin", m, level) })
	if err != nil {
		t.Fatalf("Compress: %v", err)
	}
	mustDir("out")
	abs := absPath("h.lzh")
	os.Chdir("out")
	capture(func() {
		l2 := lha.NewLha(abs)
		t.Lib("CommandExtract", func() { err = lha.CommandExtract(abs, l2) })
	})
	if err != nil {
		t.Fatalf("CommandExtract: %v", err)
	}
	got := readFile("huge.bin")
	if !bytes.Equal(got, body) {
		t.Fatalf("extracted: %s", Diff(body, got))
	}
}

// hugeConform packs one body of many megabytes by the format.
func hugeConform(t *pbt.T) {
	fresh(t)
	m := encMethods[t.Intn(len(encMethods))]
	body := hugeBody(t, m)
	level := t.Intn(3)
	t.Describe("method %d level %d %s", m, level, Show(body))
	t.Label("method %d", m)
	t.NonTrivial()
	l := lha.NewLha("h.lzh")
	var err error
	t.Lib("CompressBytes", func() { err = l.CompressBytes("huge.bin", body, m, level) })
	if err != nil {
		t.Fatalf("CompressBytes: %v", err)
	}
	wantData(t, parseOnly(t, filepath.Clean("h.lzh")), m, body)
}
