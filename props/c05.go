package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C05",
		Rule:  "A generated header (level 0, 1, 2; any method, sizes up to 4 GB, time stamps, directories in the name, permissions, owner, user and group names, symbolic links; UNIX or generic format, with or without case conversion) is written with WriteHeader, parsed by the independent strict parser and read again with GetHeader: every field the format keeps comes back, checksum, header CRC and sizes are right, and the writer's argument is unchanged. Non-trivial: every case.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "write", Quick: 160000, Thorough: 1000000, Run: writeHeaderCase},
			{Name: "rewrite", Quick: 60000, Thorough: 300000, Run: rewriteHeaderCase},
		},
	})
}

func size32(t *pbt.T) int {
	switch t.Weighted(3, 2, 2) {
	case 0:
		return t.Intn(100000)
	case 1:
		return int(t.Uint64n(1 << 32))
	}
	return []int{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}[t.Intn(11)]
}

// HdrCase is a generated header to write.
type HdrCase struct {
	H       *lha.LzHeader
	Generic bool
	Conv    bool
	Name    string
	Link    string
}

func drawHeader(t *pbt.T) *HdrCase {
	c := &HdrCase{H: lha.NewLzHeader()}
	h := c.H
	level := []int{2, 0, 1}[t.Intn(3)]
	h.HeaderLevel = byte(level)
	c.Generic = t.OneIn(3)
	c.Conv = t.OneIn(5)
	copy(h.Method, append(allMethods, "-lhd-")[t.Intn(len(allMethods)+1)])
	h.PackedSize, h.OriginalSize = size32(t), size32(t)
	if level == 1 && h.PackedSize > 1<<32-4096 {
		h.PackedSize -= 4096
	}
	h.Crc = uint(t.Intn(65536))
	h.HasCrc = true
	h.ExtendType = 'U'
	h.Attribute = byte([]int{0x20, 0x10, 0x21, 0}[t.Intn(4)])
	h.UnixLastModifiedStamp = drawTime(t, level == 1 || (level == 0 && c.Generic))
	if level == 2 {
		h.UnixLastModifiedStamp = drawTime(t, false)
	}
	mode := 0100000
	kind := t.Weighted(6, 1, 2)
	switch kind {
	case 1:
		mode = 0040000
	case 2:
		mode = 0120000
	}
	h.UnixMode = uint16(mode | t.Intn(010000))
	h.UnixUID, h.UnixGid = uint16(t.Intn(65536)), uint16(t.Intn(65536))
	if t.OneIn(3) {
		copy(h.User[:255], ownerName(t))
	}
	if t.OneIn(3) {
		copy(h.Group[:255], ownerName(t))
	}
	limit := 400
	if level == 0 {
		limit = 221
		if c.Generic {
			limit = 233
		}
	}
	var parts []string
	for k := t.Weighted(4, 2, 1, 1); k > 0; k-- {
		parts = append(parts, BaseName(t, 1+t.Intn(30)))
	}
	base := BaseName(t, NameLen(t, 255))
	parts = append(parts, base)
	name := strings.Join(parts, "/")
	if t.OneIn(8) {
		name = "/" + name
	}
	if kind == 2 {
		link := BaseName(t, 1+t.Intn(20))
		if t.Bool() {
			link = "../" + link
		}
		if t.OneIn(3) {
			link = "/" + link
		}
		c.Link = link
		copy(h.Realname, link)
		limit -= len(link) + 1
		t.Label("symbolic link")
	}
	if len(name) > limit {
		name = name[len(name)-limit:]
		name = strings.TrimLeft(name, "/")
		if name == "" {
			name = "a"
		}
	}
	if kind == 2 && t.OneIn(6) {
		b := []byte(name)
		for k := 1 + t.Intn(3); k > 0; k-- {
			if i := t.Intn(len(b)); b[i] < 0x80 && b[i] != '/' {
				b[i] = '|'
			}
		}
		name = string(b)
		t.Label("bar in the name of a link")
	}
	if kind == 1 {
		if len(name)+1 > limit {
			name = name[:len(name)-1]
			name = strings.TrimRight(name, "/") + "x"
			if len(name)+1 > limit {
				name = "d"
			}
		}
		name += "/"
		t.Label("directory")
	}
	c.Name = name
	copy(h.Name, name)
	if len(parts) > 1 {
		t.Label("directories in the name")
	}
	t.Label("level %d", level)
	if c.Generic {
		t.Label("generic")
	}
	if c.Conv {
		t.Label("case conversion")
	}
	t.NonTrivial()
	t.Describe("level %d generic %v conv %v %s packed %d orig %d stamp %d mode %o name %q link %q user %q group %q", level, c.Generic, c.Conv, h.Method, h.PackedSize, h.OriginalSize, h.UnixLastModifiedStamp, h.UnixMode, c.Name, c.Link, cname(h.User), cname(h.Group))
	return c
}

func upperASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// failAfter fails once n bytes were written.
type failAfter struct {
	n   int
	buf []byte
	err error
}

// writeErrors are what a destination may report.
var writeErrors = []error{errors.New("disk full"), io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe,
	&os.PathError{Op: "write", Path: "out", Err: syscall.ENOSPC}, syscall.EINTR, syscall.EAGAIN, os.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EPIPE, fmt.Errorf("wrapped: %w", io.EOF), os.ErrExist, os.ErrNotExist, context.Canceled}

func drawWriteError(t *pbt.T) error {
	if t.Bool() {
		return writeErrors[0]
	}
	return writeErrors[t.Intn(len(writeErrors))]
}

func (f *failAfter) Write(p []byte) (int, error) {
	if len(f.buf)+len(p) > f.n {
		k := f.n - len(f.buf)
		f.buf = append(f.buf, p[:k]...)
		if f.err == nil {
			f.err = writeErrors[0]
		}
		return k, f.err
	}
	f.buf = append(f.buf, p...)
	return len(p), nil
}

func hdrString(h *lha.LzHeader) string {
	return fmt.Sprintf("%d|%s|%d|%d|%d|%d|%q|%q|%d|%v|%d|%d|%o|%d|%d|%q|%q", h.SizeFieldLength, h.Method, h.PackedSize, h.OriginalSize, h.Attribute, h.HeaderLevel,
		cname(h.Name), cname(h.Realname), h.Crc, h.HasCrc, h.ExtendType, h.UnixLastModifiedStamp, h.UnixMode, h.UnixUID, h.UnixGid, cname(h.User), cname(h.Group))
}

func writeHdr(t *pbt.T, h *lha.LzHeader, generic, conv bool) []byte {
	lha.GenericFormat, lha.ConvertCase = generic, conv
	defer resetGlobals()
	var buf bytes.Buffer
	var w io.Writer = &buf
	var err error
	t.Lib("WriteHeader", func() { err = lha.WriteHeader(&w, h) })
	if err != nil {
		t.Fatalf("WriteHeader: %v", err)
	}
	return buf.Bytes()
}

func writeHeaderCase(t *pbt.T) {
	fresh(t)
	c := drawHeader(t)
	before := hdrString(c.H)
	raw := writeHdr(t, c.H, c.Generic, c.Conv)
	if after := hdrString(c.H); after != before {
		t.Fatalf("WriteHeader changed its argument: %s to %s", before, after)
	}
	h := c.H
	level := int(h.HeaderLevel)
	full := c.Name
	if c.Link != "" {
		c.Name = strings.ReplaceAll(c.Name, "|", "_") // as the writer says on standard error
		full = c.Name
		full += "|" + c.Link
	}
	if c.Generic && c.Conv {
		full = upperASCII(full)
	}

	// 1. the strict parser. The packed size is not backed by data here.
	m, hsize, packed, err := parseHeaderOnly(raw)
	if err != nil {
		t.Fatalf("WriteHeader wrote a malformed level %d header: %v", level, err)
	}
	if hsize != len(raw) {
		t.Fatalf("the header is %d bytes long, WriteHeader wrote %d", hsize, len(raw))
	}
	if level == 2 && raw[0] == 0 {
		t.Fatalf("a level 2 header starts with a zero byte, which readers take for the end of the archive")
	}
	if m.Level != level || m.Method != string(h.Method) || packed != h.PackedSize || m.Orig != h.OriginalSize || uint(m.CRC) != h.Crc {
		t.Fatalf("level %d %s packed %d orig %d crc %04x written, want %d %s %d %d %04x", m.Level, m.Method, packed, m.Orig, m.CRC, level, h.Method, h.PackedSize, h.OriginalSize, h.Crc)
	}
	if m.Path() != full {
		t.Fatalf("name %q written, want %q", m.Path(), full)
	}
	if level < 2 {
		if want := lharef.DOSTime(time.Unix(h.UnixLastModifiedStamp, 0)); want != m.DOS && yearOK(h.UnixLastModifiedStamp) {
			t.Fatalf("MS-DOS time %08x written, want %08x", m.DOS, want)
		}
	} else if int64(m.Unix) != h.UnixLastModifiedStamp {
		t.Fatalf("time stamp %d written, want %d", m.Unix, h.UnixLastModifiedStamp)
	}
	if level >= 1 {
		for _, e := range m.Exts {
			if e.Type == 2 && (len(e.Data) == 0 || e.Data[len(e.Data)-1] != 0xff) {
				t.Fatalf("directory header %q does not end with a separator", e.Data)
			}
			if e.Type == 1 && bytes.IndexByte(e.Data, 0xff) >= 0 {
				t.Fatalf("file name header %q holds a separator", e.Data)
			}
		}
		if bytes.IndexByte(m.Name, 0xff) >= 0 {
			t.Fatalf("file name %q holds a separator", m.Name)
		}
	}
	if level == 2 {
		if _, ok := m.FindExt(0); !ok {
			t.Fatalf("level 2 header without header CRC")
		}
	}

	// 2. the library's own reader
	sr := &sawReader{data: append(append([]byte{}, raw...), 1, 2, 3)}
	var rd io.Reader = sr
	g := lha.NewLzHeader()
	var ok bool
	t.Lib("GetHeader", func() { err, ok = g.GetHeader(&rd) })
	symOnly := c.Generic && c.Link != ""
	if err != nil || !ok {
		t.Fatalf("GetHeader on what WriteHeader wrote: %v, %v", ok, err)
	}
	if sr.pos != len(raw) || g.HeaderSize != len(raw) {
		t.Fatalf("GetHeader took %d bytes and reports %d of a header of %d", sr.pos, g.HeaderSize, len(raw))
	}
	want := c.Name
	if c.Generic && c.Conv {
		want = upperASCII(want)
	}
	if symOnly {
		want = full // without the mode nobody can know it is a link
	}
	if cname(g.Name) != want {
		t.Fatalf("name %q read back, %q written", cname(g.Name), want)
	}
	if g.PackedSize != h.PackedSize || g.OriginalSize != h.OriginalSize || g.Crc != h.Crc || string(g.Method) != string(h.Method) || int(g.HeaderLevel) != level || !g.HasCrc {
		t.Fatalf("read back %s, written %s", hdrString(g), hdrString(h))
	}
	if level > 0 || !c.Generic || yearOK(h.UnixLastModifiedStamp) {
		stamp := h.UnixLastModifiedStamp
		if level < 2 && c.Generic {
			stamp &^= 1 // two-second steps
		}
		if g.UnixLastModifiedStamp != stamp {
			t.Fatalf("time stamp %d read back, %d written", g.UnixLastModifiedStamp, stamp)
		}
	}
	if level == 0 && g.Attribute != h.Attribute {
		t.Fatalf("attribute %02x read back, %02x written", g.Attribute, h.Attribute)
	}
	if !c.Generic {
		if g.UnixMode != h.UnixMode || g.UnixUID != h.UnixUID || g.UnixGid != h.UnixGid {
			t.Fatalf("mode/uid/gid %o/%d/%d read back, %o/%d/%d written", g.UnixMode, g.UnixUID, g.UnixGid, h.UnixMode, h.UnixUID, h.UnixGid)
		}
		if g.ExtendType != 'U' {
			t.Fatalf("OS id %02x read back", g.ExtendType)
		}
		if cname(g.Realname) != c.Link {
			t.Fatalf("link target %q read back, %q written", cname(g.Realname), c.Link)
		}
		if level > 0 && (cname(g.User) != cname(h.User) || cname(g.Group) != cname(h.Group)) {
			t.Fatalf("user/group %q/%q read back, %q/%q written", cname(g.User), cname(g.Group), cname(h.User), cname(h.Group))
		}
	}

	// 3. a writer that fails
	if t.OneIn(4) {
		fa := &failAfter{n: t.Intn(len(raw)), err: drawWriteError(t)}
		var w io.Writer = fa
		lha.GenericFormat, lha.ConvertCase = c.Generic, c.Conv
		t.Lib("WriteHeader", func() { err = lha.WriteHeader(&w, h) })
		resetGlobals()
		if err == nil {
			t.Fatalf("WriteHeader reports success on a writer that took %d of %d bytes (%v)", fa.n, len(raw), fa.err)
		}
	}
}

func yearOK(s int64) bool {
	y := time.Unix(s, 0).Year()
	return y >= 1980 && y <= 2107
}

// parseHeaderOnly parses a header whose packed data is not there.
func parseHeaderOnly(raw []byte) (m *lharef.Member, size, packed int, err error) {
	if len(raw) < 22 {
		return nil, 0, 0, fmt.Errorf("%d bytes", len(raw))
	}
	return lharef.ParseHeader(raw)
}

// rewriteHeaderCase: a foreign header read and written again says the same.
func rewriteHeaderCase(t *pbt.T) {
	fresh(t)
	f := drawForeign(t, ForeignOpt{Levels: []int{2, 1, 0}, Methods: []string{"-lh0-"}, Plain: true}, "")
	if f.M.OS != 'U' || f.M.NoCRC {
		// only UNIX members keep everything
		t.Label("not from UNIX")
	}
	t.NonTrivial()
	var rd io.Reader = bytes.NewReader(f.M.Header())
	h := lha.NewLzHeader()
	var err error
	var ok bool
	t.Lib("GetHeader", func() { err, ok = h.GetHeader(&rd) })
	if err != nil || !ok {
		t.Fatalf("GetHeader: %v %v", ok, err)
	}
	raw := writeHdr(t, h, false, false)
	m, size, packed, err := parseHeaderOnly(raw)
	if err != nil || size != len(raw) {
		t.Fatalf("header read and written again is malformed: %v (%d of %d bytes)", err, size, len(raw))
	}
	if m.Path() != f.Name || packed != len(f.M.Packed) || m.Orig != f.M.Orig || m.Level != f.M.Level {
		t.Fatalf("header read and written again says %q packed %d orig %d level %d, was %q %d %d %d", m.Path(), packed, m.Orig, m.Level, f.Name, len(f.M.Packed), f.M.Orig, f.M.Level)
	}
	rd = bytes.NewReader(raw)
	g := lha.NewLzHeader()
	t.Lib("GetHeader", func() { err, ok = g.GetHeader(&rd) })
	if err != nil || !ok {
		t.Fatalf("GetHeader on the header written again: %v %v", ok, err)
	}
	if cname(g.Name) != cname(h.Name) || g.UnixMode != h.UnixMode || g.UnixUID != h.UnixUID || g.UnixGid != h.UnixGid || g.Crc != h.Crc ||
		(f.M.Level > 0 && (cname(g.User) != cname(h.User) || cname(g.Group) != cname(h.Group))) || g.UnixLastModifiedStamp != h.UnixLastModifiedStamp {
		t.Fatalf("read again as %s, was %s", hdrString(g), hdrString(h))
	}
}
