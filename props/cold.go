package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

// coldSpec is one operation, which a process of its own can run as its first.
type coldSpec struct {
	Kind    string
	Method  int
	Level   int
	Orig    int
	Generic bool
	Data    []byte
	Old     []byte
	Header  *lha.LzHeader
	Names   []string
	Bodies  [][]byte
	Stamps  []int64
}

// runCold runs the operation in an empty working directory and returns what
// it gave.
func runCold(s *coldSpec) string {
	var out bytes.Buffer
	lha.Quiet, lha.GenericFormat = true, s.Generic
	for i, n := range s.Names {
		putFile(n, s.Bodies[i], 0644, s.Stamps[i])
	}
	if s.Old != nil {
		if err := os.WriteFile("a.lzh", s.Old, 0644); err != nil {
			panic(err)
		}
	}
	l := lha.NewLha("a.lzh")
	l.Force = true
	switch s.Kind {
	case "decode":
		var w bytes.Buffer
		var n int
		crc := l.DecodeLzhuf(bytes.NewReader(s.Data), &w, s.Orig, len(s.Data), "x", s.Method, &n)
		fmt.Fprintf(&out, "crc %04x read %d\n%s", crc, n, w.String())
	case "encode":
		l.CompressMethod = s.Method
		var r io.Reader = bytes.NewReader(s.Data)
		var buf bytes.Buffer
		var w io.Writer = &buf
		var o, p int
		id := make([]byte, 5)
		crc, err := l.EncodeLzhuf(&r, &w, len(s.Data), &o, &p, []byte("x"), id)
		fmt.Fprintf(&out, "sizes %d %d id %s crc %04x %v\n%s", o, p, id, crc, err, buf.String())
	case "write header":
		var buf bytes.Buffer
		var w io.Writer = &buf
		err := lha.WriteHeader(&w, s.Header)
		fmt.Fprintf(&out, "%v\n%s", err, buf.String())
	case "read header":
		var r io.Reader = bytes.NewReader(s.Old)
		for {
			h := lha.NewLzHeader()
			err, ok := h.GetHeader(&r)
			fmt.Fprintf(&out, "%v %v %q %d %d\n", err, ok, cname(h.Name), h.PackedSize, h.OriginalSize)
			if err != nil || !ok {
				break
			}
			io.CopyN(io.Discard, r, int64(h.PackedSize))
		}
	case "add":
		l.HeaderLevel, l.CompressMethod, l.SortContents = s.Level, s.Method, true
		l.CmdFilev, l.CmdFilec = append([]string{}, s.Names...), len(s.Names)
		err := lha.CommandAdd("a.lzh", l)
		b, _ := os.ReadFile("a.lzh")
		fmt.Fprintf(&out, "%v\n%s", err, b)
	case "compress":
		err := l.Compress(s.Names[0], s.Method, s.Level)
		b, _ := os.ReadFile("a.lzh")
		fmt.Fprintf(&out, "%v\n%s", err, b)
	case "extract", "test":
		lha.VerifyMode = s.Kind == "test"
		var err error
		capture(func() { err = lha.CommandExtract("a.lzh", l) })
		fmt.Fprintf(&out, "%v\n", err)
		es, _ := os.ReadDir(".")
		for _, e := range es {
			b, _ := os.ReadFile(e.Name())
			fmt.Fprintf(&out, "%q %d %04x\n", e.Name(), len(b), lharef.CRC16(b))
		}
	case "list":
		lha.Quiet = false
		l.VerboseListing = true
		var err error
		o := capture(func() { err = lha.CommandList("a.lzh", l) })
		fmt.Fprintf(&out, "%v\n%s", err, o)
	case "headers", "memory":
		hs, err := l.Headers()
		fmt.Fprintf(&out, "%d %v\n", len(hs), err)
		for _, h := range hs {
			fmt.Fprintf(&out, "%q %d %x\n", cname(h.Name), h.OriginalSize, h.Crc)
			if s.Kind == "memory" {
				b, err := l.DecompresBytes(h)
				fmt.Fprintf(&out, "%d %04x %v\n", len(b), lharef.CRC16(b), err)
			}
		}
	case "bytes":
		h := lha.NewLzHeader()
		h.Name = []byte(s.Names[0])
		b, err := l.DecompresBytes(h)
		fmt.Fprintf(&out, "%d %04x %v\n", len(b), lharef.CRC16(b), err)
	}
	resetGlobals()
	return out.String()
}

// ColdMain is the process of its own: the operation in the file, in the
// working directory.
func ColdMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var s coldSpec
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	if err := os.WriteFile(file+".out", []byte(runCold(&s)), 0644); err != nil {
		panic(err)
	}
}

var coldKinds = []string{"decode", "encode", "write header", "read header", "add", "compress", "extract", "test", "list", "headers", "memory"}

// repeatCold: an operation that is the first of a process gives what it gives
// in this process after other work.
func repeatCold(t *pbt.T) {
	fresh(t)
	s := &coldSpec{Kind: coldKinds[t.Intn(len(coldKinds))], Level: t.Intn(3), Generic: t.Bool()}
	t.Label("first: %s", s.Kind)
	switch s.Kind {
	case "decode":
		m := allMethods[t.Intn(len(allMethods))]
		p := ForeignStream(t, m, t.OneIn(6))
		s.Data, s.Orig, s.Method = append([]byte{}, p.Data...), len(p.Body), methodNum[m]
	case "encode":
		s.Method = encMethods[t.Intn(len(encMethods))]
		s.Data = Content(t, t.OneIn(6))
	case "write header":
		h := lha.NewLzHeader()
		copy(h.Method, "-lh5-")
		h.Name = append([]byte("name.txt"), 0)
		h.HeaderLevel = byte(s.Level)
		h.OriginalSize, h.PackedSize = t.Intn(100000), t.Intn(100000)
		h.Crc = uint(t.Intn(65536))
		h.UnixMode = 0100644
		h.UnixLastModifiedStamp = 1000000000 + int64(t.Intn(1000000))
		s.Header = h
	case "add", "compress":
		s.Method = encMethods[t.Intn(len(encMethods))]
		n := 1
		if s.Kind == "add" {
			n = 1 + t.Intn(3)
		}
		for i := 0; i < n; i++ {
			s.Names = append(s.Names, fmt.Sprintf("f%d", i))
			s.Bodies = append(s.Bodies, Content(t, t.OneIn(8)))
			s.Stamps = append(s.Stamps, drawTime(t, s.Level < 2))
		}
	}
	if s.Kind != "decode" && s.Kind != "encode" && s.Kind != "write header" && (len(s.Names) == 0 || t.Bool()) {
		var ms []*lharef.Member
		for _, f := range drawMembers(t, 1+t.Intn(3), ForeignOpt{Long: true}) {
			ms = append(ms, f.M)
		}
		s.Old = lharef.Archive(ms...)
		if t.OneIn(4) {
			s.Old[t.Intn(len(s.Old))] ^= byte(1 + t.Intn(255))
		}
	}
	t.Describe("%s, method %d, level %d, old archive of %d bytes, %d files", s.Kind, s.Method, s.Level, len(s.Old), len(s.Names))
	between(t, nil)
	resetGlobals()
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	home, _ := os.Getwd()
	spec := filepath.Join(home, "cold.json")
	if err := os.WriteFile(spec, b, 0644); err != nil {
		panic(err)
	}
	in := func(dir string, f func()) {
		mustDir(dir)
		if err := os.Chdir(filepath.Join(home, dir)); err != nil {
			panic(err)
		}
		defer os.Chdir(home)
		f()
	}
	var warm string
	in("warm", func() { t.Lib(s.Kind, func() { warm = runCold(s) }) })
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	in("cold", func() {
		code, _, errb := runProg(nil, self, "cold", spec)
		if code != 0 {
			t.Fatalf("%s as the first operation of a process: exit status %d, %s", s.Kind, code, tail(errb))
		}
	})
	cold := string(readFile(spec + ".out"))
	if cold != warm {
		t.Fatalf("%s gives something else as the first operation of a process: %s", s.Kind, Diff([]byte(cold), []byte(warm)))
	}
}

func tail(b []byte) string {
	if len(b) > 400 {
		b = b[len(b)-400:]
	}
	return string(b)
}
