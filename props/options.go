package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	lha "github.com/jeromelesaux/lha"

	"verif/pbt"
)

// optionsOf shows the exported options of an instance.
func optionsOf(l *lha.Lha, except ...string) map[string]string {
	out := map[string]string{}
	v := reflect.ValueOf(l).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		out[f.Name] = fmt.Sprintf("%q", fmt.Sprint(v.Field(i).Interface()))
		if f.Type == reflect.TypeOf([]string{}) {
			out[f.Name] = fmt.Sprintf("%q", append([]string{}, v.Field(i).Interface().([]string)...))
		}
	}
	for _, e := range except {
		delete(out, e)
	}
	return out
}

func sameOptions(t *pbt.T, what string, before, after map[string]string) {
	for k, b := range before {
		if a, ok := after[k]; ok && a != b {
			t.Fatalf("%s: option %s of the instance was %s, is %s afterwards", what, k, b, a)
		}
	}
}

// keepsOptions: whatever an operation does, the options of the instance and
// the exported switches are afterwards as the caller set them.
func keepsOptions(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	raw := append([]byte{}, d.Raw...)
	switch t.Weighted(5, 1, 1) {
	case 1:
		for k := 1 + t.Intn(3); k > 0; k-- {
			raw[t.Intn(len(raw))] ^= byte(1 + t.Intn(255))
		}
		t.Label("damaged archive")
	case 2:
		raw = nil
		t.Label("no archive")
	}
	enter("w")
	if raw != nil {
		writeFile(t, "a.lzh", raw)
	}
	level := t.Intn(3)
	files := []string{"f0", "f1", "f2"}
	for _, f := range files {
		putFile(f, Content(t, false), 0644, drawTime(t, level < 2))
	}
	mustDir("tree/sub")
	putFile("tree/g", []byte("in a tree"), 0600, 1000000000)
	l := lha.NewLha("a.lzh")
	l.Noexec, l.IgnoreDirectory, l.Verbose, l.VerboseListing = t.OneIn(4), t.OneIn(4), t.Bool(), t.Bool()
	l.Force, l.OutputToStdout, l.DecodeMacbinaryContents = t.Bool(), t.OneIn(4), t.OneIn(4)
	l.NewArchive, l.UpdateIfNewer, l.BackupOldArchive = t.OneIn(4), t.OneIn(3), t.OneIn(4)
	l.DeleteAfterAppend, l.SortContents, l.RecursiveArchiving = t.OneIn(4), t.Bool(), t.Bool()
	l.HeaderLevel, l.CompressMethod = level, encMethods[t.Intn(len(encMethods))]
	if t.OneIn(8) {
		l.CompressMethod = 42
	}
	if t.OneIn(4) {
		l.ExtractDirectory = "out"
	}
	if t.OneIn(3) {
		l.ExcludeFiles = []string{[]string{"f1", "F0", "none"}[t.Intn(3)], "x"}
	}
	var all []string
	for _, f := range append(files, "tree", "a.lzh", "missing", "./a.lzh") {
		if t.Bool() {
			all = append(all, f)
		}
	}
	if t.OneIn(3) && len(all) > 1 { // in another order
		all = append(all[1:], all[0])
	}
	s := sw{t.Bool(), t.Bool(), t.OneIn(4)}
	op := t.Intn(11)
	var except []string
	if op >= 5 && op <= 8 || t.OneIn(3) {
		l.CmdFilev, l.CmdFilec = all, len(all)
	}
	if op == 6 { // automatic update
		l.CmdFilev, l.CmdFilec, l.UpdateIfNewer = nil, 0, true
		if len(d.Ms) > 0 && plainName(d.Ms[0].Path()) {
			putFile(d.Ms[0].Path(), []byte("newer"), 0644, 1700000000)
		}
	}
	verify := t.OneIn(5)
	h := lha.NewLzHeader()
	if len(d.Ms) > 0 {
		m := d.Ms[t.Intn(len(d.Ms))]
		copy(h.Name, m.Path())
	}
	body := Content(t, false)
	kept := append([]string{}, all...)
	excl := append([]string{}, l.ExcludeFiles...)
	name := []string{"Headers", "DecompresBytes", "Decompress", "CommandExtract", "CommandList", "CommandAdd", "automatic update", "Compress", "CompressBytes", "EncodeLzhuf", "DecodeLzhuf"}[op]
	t.Label("%s", name)
	t.NonTrivial()
	before := optionsOf(l)
	setSw(s)
	lha.VerifyMode = verify
	t.Describe("%s with %v, files %q, verify %v", name, before, l.CmdFilev, verify)
	capture(func() {
		t.Lib(name, func() {
			switch op {
			case 0:
				_, _ = l.Headers()
			case 1:
				_, _ = l.DecompresBytes(h)
			case 2:
				_ = l.Decompress(h)
			case 3:
				_ = lha.CommandExtract("a.lzh", l)
			case 4:
				_ = lha.CommandList("a.lzh", l)
			case 5, 6:
				_ = lha.CommandAdd("a.lzh", l)
			case 7:
				_ = l.Compress("f0", l.CompressMethod, l.HeaderLevel)
			case 8:
				_ = l.CompressBytes("f0", body, l.CompressMethod, l.HeaderLevel)
			case 9:
				var r io.Reader = bytes.NewReader(body)
				var w io.Writer = &bytes.Buffer{}
				var o, p int
				_, _ = l.EncodeLzhuf(&r, &w, len(body), &o, &p, []byte("x"), make([]byte, 5))
			case 10:
				m := allMethods[t.Intn(len(allMethods))]
				p := ForeignStream(t, m, false)
				var n int
				l.DecodeLzhuf(bytes.NewReader(p.Data), &bytes.Buffer{}, len(p.Body), len(p.Data), "x", methodNum[m], &n)
			}
		})
	})
	checkSw(t, s, verify, name)
	resetGlobals()
	sameOptions(t, name, before, optionsOf(l, except...))
	if strings.Join(kept, "\x00") != strings.Join(all, "\x00") || strings.Join(excl, "\x00") != strings.Join(l.ExcludeFiles, "\x00") {
		t.Fatalf("%s changed the caller's list of files from %q to %q", name, kept, all)
	}
}
