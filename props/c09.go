package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C09",
		Rule:  "One operation (adding a file, encoding a stream, decoding a valid or damaged stream, reading or extracting a valid or damaged archive) is run, then 1 to 6 other operations of every kind (other methods, levels, sizes; failing readers and writers, unknown methods, damaged and hostile input), then the same operation again on a fresh or the same instance; both results must be identical. Some additions are also compared with the program run in a process of its own, and operations of every kind with the same operation run as the very first of a new process. Every operation, on instances with every option set or not, leaves options, file lists and exported switches as they were. Non-trivial: every case with at least one operation in between that reached a coder, and every case of options.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "add", Quick: 3750, Thorough: 30000, Run: repeatAdd},
			{Name: "encode", Quick: 3000, Thorough: 24000, Run: repeatEncode},
			{Name: "decode", Quick: 6250, Thorough: 50000, Run: repeatDecode},
			{Name: "read", Quick: 3750, Thorough: 30000, Run: repeatRead},
			{Name: "process", Quick: 750, Thorough: 6000, Run: repeatProcess},
			{Name: "cold", Quick: 1500, Thorough: 12000, Run: repeatCold},
			{Name: "options", Quick: 7500, Thorough: 60000, Run: keepsOptions},
		},
	})
}

var errInjected = errors.New("injected fault")

// failReader gives n bytes, then fails.
type failReader struct {
	r   io.Reader
	n   int
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		if f.err != nil {
			return 0, f.err
		}
		return 0, errInjected
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.r.Read(p)
	f.n -= n
	return n, err
}

type failWriter struct {
	n   int
	err error
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) > f.n {
		n := f.n
		f.n = 0
		if f.err != nil {
			return n, f.err
		}
		return n, errInjected
	}
	f.n -= len(p)
	return len(p), nil
}

// disturb runs one other operation, in directory "other". l may be nil.
func disturb(t *pbt.T, l *lha.Lha, i int) {
	mustDir("other")
	abs, err := filepath.Abs("other")
	if err != nil {
		panic(err)
	}
	home := filepath.Dir(abs)
	if err := os.Chdir(abs); err != nil {
		panic(err)
	}
	defer os.Chdir(home)
	li := func() *lha.Lha {
		if l != nil {
			return l
		}
		return lha.NewLha("o.lzh")
	}
	big := t.OneIn(4)
	kind := t.Intn(9)
	t.Label("between: %s", []string{"encode", "failing encode", "decode", "damaged decode", "add", "failing add", "read damaged", "read", "list and print"}[kind])
	switch kind {
	case 0:
		body := Content(t, big)
		m := encMethods[t.Intn(len(encMethods))]
		t.Describe("between: EncodeLzhuf method %d %s", m, Show(body))
		x := li()
		x.CompressMethod = m
		var r io.Reader = bytes.NewReader(body)
		var w io.Writer = &bytes.Buffer{}
		var o, p int
		t.Lib("EncodeLzhuf", func() { x.EncodeLzhuf(&r, &w, len(body), &o, &p, []byte("x"), make([]byte, 5)) })
	case 1:
		body := Content(t, big)
		m := encMethods[t.Intn(len(encMethods))]
		var r io.Reader = bytes.NewReader(body)
		var w io.Writer = &bytes.Buffer{}
		if t.Bool() {
			r = &failReader{r: r, n: t.Intn(len(body) + 1)}
		} else {
			w = &failWriter{n: t.Intn(len(body)/2 + 1)}
		}
		if t.OneIn(5) {
			m = []int{2, 3, 4, 8, 13, 42, -1}[t.Intn(7)]
		}
		t.Describe("between: failing EncodeLzhuf method %d %s", m, Show(body))
		x := li()
		x.CompressMethod = m
		var o, p int
		t.Lib("EncodeLzhuf", func() { x.EncodeLzhuf(&r, &w, len(body), &o, &p, []byte("x"), make([]byte, 5)) })
	case 2, 3:
		m := allMethods[t.Intn(len(allMethods))]
		p := ForeignStream(t, m, big)
		data, orig := append([]byte{}, p.Data...), len(p.Body)
		var w io.Writer = &bytes.Buffer{}
		if kind == 3 {
			data, orig = hurt(t, data, orig)
			if t.OneIn(4) {
				w = &failWriter{n: t.Intn(orig + 1)}
			}
		}
		t.Describe("between: DecodeLzhuf %s %d bytes to %d (damaged %v)", m, len(data), orig, kind == 3)
		var n int
		x := li()
		t.Lib("DecodeLzhuf", func() { x.DecodeLzhuf(bytes.NewReader(data), w, orig, len(data), "x", methodNum[m], &n) })
	case 4, 5:
		m := encMethods[t.Intn(len(encMethods))]
		lev := t.Intn(3)
		if kind == 5 {
			m = []int{2, 3, 4, 11, 42, -1}[t.Intn(6)]
		}
		body := Content(t, big)
		name := pool[t.Intn(len(pool))]
		if t.Bool() { // one of the names the repeated operation uses
			name = fmt.Sprintf("f%d", t.Intn(3))
		}
		writeFile(t, name, body)
		x := li()
		x.HeaderLevel, x.CompressMethod = lev, m
		o1, o2, o3, o4, o5, o6 := x.UpdateIfNewer, x.DeleteAfterAppend, x.BackupOldArchive, x.NewArchive, x.Noexec, x.SortContents
		defer func() {
			x.UpdateIfNewer, x.DeleteAfterAppend, x.BackupOldArchive, x.NewArchive, x.Noexec, x.SortContents = o1, o2, o3, o4, o5, o6
		}()
		x.UpdateIfNewer, x.DeleteAfterAppend, x.BackupOldArchive, x.NewArchive, x.Noexec, x.SortContents = t.OneIn(3), t.OneIn(4), t.OneIn(4), t.OneIn(4), t.OneIn(4), t.Bool()
		if x.UpdateIfNewer && t.Bool() { // an older file: its member is kept
			os.Chtimes(name, time.Unix(1000, 0), time.Unix(1000, 0))
			writeFile(t, "o.lzh", lharef.Archive(drawForeign(t, ForeignOpt{Flat: true, Plain: true, Levels: []int{2}, Methods: []string{"-lh0-"}}, name).M))
		}
		t.Describe("between: add %q %s method %d level %d update %v move %v backup %v new %v dry %v sort %v", name, Show(body), m, lev, x.UpdateIfNewer, x.DeleteAfterAppend, x.BackupOldArchive, x.NewArchive, x.Noexec, x.SortContents)
		x.CmdFilev, x.CmdFilec = []string{name}, 1
		save := lha.GenericFormat
		lha.GenericFormat = t.Bool()
		t.Lib("CommandAdd", func() { lha.CommandAdd("o.lzh", x) })
		lha.GenericFormat = save
		x.CmdFilev, x.CmdFilec = nil, 0
	case 6, 7:
		var raw []byte
		if kind == 6 {
			d := drawWhole(t)
			raw = append([]byte{}, d.Raw...)
			for k := 1 + t.Intn(3); k > 0; k-- {
				raw[t.Intn(len(raw))] ^= byte(1 + t.Intn(255))
			}
			if t.Bool() {
				raw = raw[:t.Intn(len(raw)+1)]
			}
		} else {
			var ms []*lharef.Member
			for _, f := range drawMembers(t, 1+t.Intn(3), ForeignOpt{}) {
				ms = append(ms, f.M)
			}
			raw = lharef.Archive(ms...)
		}
		t.Describe("between: reading an archive of %d bytes (damaged %v)", len(raw), kind == 6)
		writeFile(t, "d.lzh", raw)
		hs, _ := headers(t, "d.lzh")
		for k, h := range hs {
			if k < 2 {
				bytesOf(t, "d.lzh", h)
				y := lha.NewLha("d.lzh")
				y.Force = true
				t.Lib("Decompress", func() { y.Decompress(h) })
			}
		}
	case 8:
		d := drawWhole(t)
		raw := d.Raw
		if t.Bool() {
			raw = raw[:t.Intn(len(raw)+1)]
		}
		writeFile(t, "d.lzh", raw)
		t.Describe("between: listing and printing an archive of %d bytes", len(raw))
		quiet := lha.Quiet
		capture(func() {
			lha.Quiet = t.Bool()
			y := lha.NewLha("d.lzh")
			y.Verbose, y.VerboseListing = t.Bool(), t.Bool()
			t.Lib("CommandList", func() { lha.CommandList("d.lzh", y) })
			y = lha.NewLha("d.lzh")
			y.OutputToStdout = true
			t.Lib("CommandExtract -p", func() { lha.CommandExtract("d.lzh", y) })
		})
		lha.Quiet = quiet
	}
	if kind != 7 {
		t.NonTrivial()
	}
}

// hurt damages a stream.
func hurt(t *pbt.T, data []byte, orig int) ([]byte, int) {
	for k := 1 + t.Intn(3); k > 0 && len(data) > 0; k-- {
		switch t.Intn(3) {
		case 0:
			data[t.Intn(len(data))] ^= byte(1 + t.Intn(255))
		case 1:
			data = data[:t.Intn(len(data)+1)]
		case 2:
			data = append(data, noise(t, t.Intn(20))...)
		}
	}
	if t.OneIn(3) {
		orig += t.Intn(20000)
	}
	return data, orig
}

// switches draws a setting of the exported switches and returns it.
type sw struct{ quiet, generic, conv bool }

func setSw(s sw) { lha.Quiet, lha.GenericFormat, lha.ConvertCase = s.quiet, s.generic, s.conv }

func checkSw(t *pbt.T, s sw, verify bool, what string) {
	if lha.Quiet != s.quiet || lha.GenericFormat != s.generic || lha.ConvertCase != s.conv || lha.VerifyMode != verify || lha.TextMode {
		t.Fatalf("%s: switches changed: quiet %v generic %v convert %v verify %v text %v, were %v %v %v %v false", what,
			lha.Quiet, lha.GenericFormat, lha.ConvertCase, lha.VerifyMode, lha.TextMode, s.quiet, s.generic, s.conv, verify)
	}
}

func between(t *pbt.T, l *lha.Lha) {
	for i, n := 0, 1+t.Intn(4); i < n; i++ {
		disturb(t, l, i)
	}
}

func inst(t *pbt.T, archive string) *lha.Lha {
	if t.Bool() {
		t.Label("same instance")
		return lha.NewLha(archive)
	}
	t.Label("fresh instance")
	return nil
}

// repeatAdd: the same addition to the same archive twice.
func repeatAdd(t *pbt.T) {
	fresh(t)
	method := encMethods[t.Intn(len(encMethods))]
	level := t.Intn(3)
	s := sw{true, t.Bool(), false}
	var old []byte
	if t.Bool() {
		var ms []*lharef.Member
		for _, f := range drawMembers(t, 1+t.Intn(3), ForeignOpt{}) {
			ms = append(ms, f.M)
		}
		if t.Bool() { // names the operations use
			ms = nil
			for _, name := range append([]string{"f0", "f1", "f2"}, pool...) {
				if t.OneIn(3) {
					ms = append(ms, drawForeign(t, ForeignOpt{Flat: true, Plain: true}, name).M)
				}
			}
		}
		old = lharef.Archive(ms...)
	}
	n := 1 + t.Intn(3)
	var names []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d", i)
		putFile(name, Content(t, t.OneIn(5)), 0644, drawTime(t, level < 2))
		names = append(names, name)
	}
	for _, name := range append([]string{"f0", "f1", "f2"}, pool...) {
		if _, err := os.Lstat(name); err != nil && t.OneIn(4) {
			writeFile(t, name, []byte("bystander"))
		}
	}
	sorted, update, move, tree := t.Bool(), t.OneIn(4), t.OneIn(4), t.OneIn(4)
	put := func() {}
	if move {
		bodies, times := make([][]byte, n), make([]int64, n)
		for i, name := range names {
			st, err := os.Stat(name)
			if err != nil {
				panic(err)
			}
			bodies[i], times[i] = readFile(name), st.ModTime().Unix()
		}
		put = func() {
			for i, name := range names {
				putFile(name, bodies[i], 0644, times[i])
			}
		}
		t.Label("move")
	}
	if tree {
		mustDir("tree/sub")
		putFile("tree/g", []byte("in a tree"), 0600, 1000000000)
		putFile("tree/sub/h", []byte("below"), 0600, 1000000002)
		os.Chtimes("tree/sub", time.Unix(1000000000, 0), time.Unix(1000000000, 0))
		os.Chtimes("tree", time.Unix(1000000000, 0), time.Unix(1000000000, 0))
		if !move {
			names = append(names, "tree")
			t.Label("tree")
		}
	}
	t.Describe("adding %q method %d level %d sort %v update %v move %v to an archive of %d bytes", names, method, level, sorted, update, move, len(old))
	t.Label("method %d", method)
	l := inst(t, "a.lzh")
	op := func() string {
		x := l
		if x == nil {
			x = lha.NewLha("a.lzh")
		}
		if old != nil {
			writeFile(t, "a.lzh", old)
		} else {
			os.Remove("a.lzh")
		}
		put()
		setSw(s)
		x.HeaderLevel, x.CompressMethod, x.SortContents = level, method, sorted
		x.UpdateIfNewer, x.DeleteAfterAppend, x.RecursiveArchiving = update, move, tree
		x.CmdFilev, x.CmdFilec = append([]string{}, names...), len(names)
		var err error
		t.Lib("CommandAdd", func() { err = lha.CommandAdd("a.lzh", x) })
		checkSw(t, s, false, "CommandAdd")
		x.CmdFilev, x.CmdFilec = nil, 0
		x.UpdateIfNewer, x.DeleteAfterAppend, x.RecursiveArchiving = false, false, false
		if err != nil {
			t.Fatalf("CommandAdd: %v", err)
		}
		there := ""
		for _, name := range append([]string{"f0", "f1", "f2"}, pool...) {
			if _, err := os.Lstat(name); err == nil {
				there += " " + name
			}
		}
		return string(readFile("a.lzh")) + there
	}
	a := op()
	between(t, l)
	b := op()
	if a != b {
		t.Fatalf("the same addition gives another archive the second time: %s", Diff([]byte(a), []byte(b)))
	}
}

func repeatEncode(t *pbt.T) {
	fresh(t)
	method := encMethods[t.Intn(len(encMethods))]
	body := Content(t, t.OneIn(4))
	t.Label("method %d", method)
	t.Describe("EncodeLzhuf method %d %s", method, Show(body))
	l := inst(t, "o.lzh")
	op := func() string {
		x := l
		if x == nil {
			x = lha.NewLha("o.lzh")
		}
		x.CompressMethod = method
		var r io.Reader = bytes.NewReader(body)
		var buf bytes.Buffer
		var w io.Writer = &buf
		var o, p int
		id := make([]byte, 5)
		var crc uint
		var err error
		t.Lib("EncodeLzhuf", func() { crc, err = x.EncodeLzhuf(&r, &w, len(body), &o, &p, []byte("x"), id) })
		if err != nil {
			t.Fatalf("EncodeLzhuf: %v", err)
		}
		return fmt.Sprintf("sizes %d %d id %s crc %04x\n%s", o, p, id, crc, buf.String())
	}
	a := op()
	between(t, l)
	b := op()
	if a != b {
		t.Fatalf("the same data is encoded differently the second time: %s; %s then %s", Diff([]byte(a), []byte(b)), a[:strings.IndexByte(a, '\n')], b[:strings.IndexByte(b, '\n')])
	}
}

func repeatDecode(t *pbt.T) {
	fresh(t)
	m := allMethods[t.Intn(len(allMethods))]
	p := ForeignStream(t, m, t.OneIn(6))
	data, orig := append([]byte{}, p.Data...), len(p.Body)
	valid := t.Weighted(3, 1) == 0
	if !valid {
		data, orig = hurt(t, data, orig)
		t.Label("damaged stream")
	}
	t.Label("method %s", m)
	l := inst(t, "o.lzh")
	op := func() string {
		x := l
		if x == nil {
			x = lha.NewLha("o.lzh")
		}
		var w bytes.Buffer
		var n, crc int
		t.Lib("DecodeLzhuf", func() {
			crc = x.DecodeLzhuf(bytes.NewReader(data), &w, orig, len(data), "x", methodNum[m], &n)
		})
		return fmt.Sprintf("crc %04x read %d\n%s", crc, n, w.String())
	}
	if t.OneIn(2) {
		between(t, l)
	}
	a := op()
	if valid {
		if want := fmt.Sprintf("crc %04x", lharef.CRC16(p.Body)); !strings.HasPrefix(a, want) || a[strings.IndexByte(a, '\n')+1:] != string(p.Body) {
			t.Fatalf("%s: decoded wrongly after other work: %s, want %s", m, a[:strings.IndexByte(a, '\n')], want)
		}
	}
	between(t, l)
	b := op()
	if a != b {
		t.Fatalf("%s (valid %v): the same stream is decoded differently the second time: %s; %s then %s", m, valid, Diff([]byte(a), []byte(b)), a[:strings.IndexByte(a, '\n')], b[:strings.IndexByte(b, '\n')])
	}
}

// repeatRead: listing, extraction to memory and to disk of an archive.
func repeatRead(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	raw := append([]byte{}, d.Raw...)
	if t.OneIn(3) {
		for k := 1 + t.Intn(3); k > 0; k-- {
			raw[t.Intn(len(raw))] ^= byte(1 + t.Intn(255))
		}
		t.Label("damaged archive")
	}
	writeFile(t, "r.lzh", raw)
	abs, _ := filepath.Abs("r.lzh")
	t.Describe("reading an archive of %d members, %d bytes", len(d.Ms), len(raw))
	same := t.Bool()
	s := sw{t.OneIn(4) == false, t.Bool(), false}
	verify := t.OneIn(5)
	var l *lha.Lha
	op := func(dir string) string {
		var out strings.Builder
		mustDir(dir)
		home, _ := os.Getwd()
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		defer os.Chdir(home)
		if l == nil || !same {
			l = lha.NewLha(abs)
		}
		l.Force = true
		setSw(s)
		lha.VerifyMode = verify
		var hs []*lha.LzHeader
		var err error
		capture(func() {
			t.Lib("Headers", func() { hs, err = l.Headers() })
			checkSw(t, s, verify, "Headers")
			lha.VerifyMode = false
			fmt.Fprintf(&out, "Headers %d %v\n", len(hs), err)
			for _, h := range hs {
				fmt.Fprintf(&out, "%q %q %d %d %d %d %x %v %o %d %d %d %d %s %s\n", cname(h.Name), cname(h.Realname), h.HeaderLevel, h.HeaderSize, h.PackedSize, h.OriginalSize, h.Crc, h.HasCrc,
					h.UnixMode, h.UnixUID, h.UnixGid, h.UnixLastModifiedStamp, h.ExtendType, cname(h.User), cname(h.Group))
				var b []byte
				t.Lib("DecompresBytes", func() { b, err = l.DecompresBytes(h) })
				checkSw(t, s, false, "DecompresBytes")
				fmt.Fprintf(&out, "%d bytes %04x %v\n", len(b), lharef.CRC16(b), err)
				if plainName(cname(h.Name)) {
					os.Remove(cname(h.Name))
					t.Lib("Decompress", func() { err = l.Decompress(h) })
					checkSw(t, s, false, "Decompress")
					os.Chmod(cname(h.Name), 0600)
					f, ferr := os.ReadFile(cname(h.Name))
					fmt.Fprintf(&out, "file %d %04x %v %v\n", len(f), lharef.CRC16(f), err, ferr != nil)
				}
			}
			lha.VerifyMode = true
			t.Lib("CommandExtract -t", func() { err = lha.CommandExtract(abs, l) })
			checkSw(t, s, true, "CommandExtract -t")
			lha.VerifyMode = false
			fmt.Fprintf(&out, "test %v\n", err)
		})
		resetGlobals()
		return out.String()
	}
	a := op("r1")
	if same {
		t.Label("same instance")
		for i, n := 0, t.Intn(3); i < n; i++ {
			disturb(t, nil, i)
		}
	} else {
		between(t, nil)
	}
	b := op("r2")
	t.NonTrivial()
	if a != b {
		al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
		for i := range al {
			if i >= len(bl) || al[i] != bl[i] {
				x := "nothing"
				if i < len(bl) {
					x = bl[i]
				}
				t.Fatalf("the same archive reads differently the second time: %s, then %s", al[i], x)
			}
		}
		t.Fatalf("the same archive reads differently the second time: more lines")
	}
}

// repeatProcess: what an addition gives after other work in this process is
// what a process of its own gives.
func repeatProcess(t *pbt.T) {
	fresh(t)
	name := "file"
	o := []int{0, 5, 6, 7}[t.Intn(4)]
	level, method := 2, 5
	args := []string{"-archive", "cli.lzh", "-a", name}
	if o != 0 {
		args = append(args, "-o", fmt.Sprint(o))
		level, method = 0, o
	}
	if t.Bool() {
		level = t.Intn(2)
		args = append(args, "-h", fmt.Sprint(level))
	}
	body := Content(t, t.OneIn(3))
	putFile(name, body, 0644, drawTime(t, true))
	t.Label("method %d", method)
	t.Describe("%q with %s", args, Show(body))
	l := inst(t, "lib.lzh")
	between(t, l)
	code, _, errb := runCLI(t, nil, args...)
	if code != 0 {
		t.Fatalf("%q: exit status %d, %s", args, code, errb)
	}
	x := l
	if x == nil {
		x = lha.NewLha("lib.lzh")
	}
	setSw(sw{true, true, false})
	x.HeaderLevel, x.CompressMethod, x.SortContents = level, method, true
	x.CmdFilev, x.CmdFilec = []string{name}, 1
	var err error
	t.Lib("CommandAdd", func() { err = lha.CommandAdd("lib.lzh", x) })
	if err != nil {
		t.Fatalf("CommandAdd: %v", err)
	}
	if a, b := readFile("cli.lzh"), readFile("lib.lzh"); !bytes.Equal(a, b) {
		t.Fatalf("the addition gives another archive than in a process of its own: %s", Diff(a, b))
	}
}
