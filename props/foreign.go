package props

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

var allMethods = []string{"-lh0-", "-lh5-", "-lh1-", "-lh4-", "-lh6-", "-lh7-", "-lzs-", "-lz5-", "-lz4-", "-lh2-", "-lh3-", "-pm0-", "-pm2-"}

// Foreign is a generated member as another archiver could have written it,
// with what a reader must make of it.
type Foreign struct {
	M     *lharef.Member
	Body  []byte
	Name  string // slash separated, as a reader shows it
	Mode  int    // UNIX mode
	UID   int
	GID   int
	User  string
	Group string
	MTime int64
	Attr  byte
	HasOS bool
	Link  string // target, for a symbolic link
	Shown string // method a reader shows, when another than recorded
}

// ForeignOpt restricts generation.
type ForeignOpt struct {
	Flat    bool // no directories in the name
	SFX     bool // must be found by a scan for the first header
	Levels  []int
	Methods []string
	Big     bool
	MaxName int
	Long    bool // now and then a header as long as can be (it must stay as drawn)
	Plain   bool // a regular file with ordinary permissions
	Exact   bool // packed data that ends where it should
}

func w16(v int) []byte    { return binary.LittleEndian.AppendUint16(nil, uint16(v)) }
func w32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }

func wintime(unix int64) []byte {
	return binary.LittleEndian.AppendUint64(nil, uint64(unix)*10000000+116444736000000000)
}

// drawForeign generates one member; name is used when not empty.
func drawForeign(t *pbt.T, o ForeignOpt, name string) *Foreign {
	f := &Foreign{}
	levels := o.Levels
	if levels == nil {
		levels = []int{2, 0, 1, 3}
	}
	methods := o.Methods
	if methods == nil {
		methods = allMethods
	}
	level := levels[t.Intn(len(levels))]
	method := methods[t.Intn(len(methods))]
	p := ForeignStream(t, method, o.Big)
	f.Body = p.Body
	m := &lharef.Member{Level: level, Method: method, Packed: p.Data, Orig: len(p.Body), CRC: lharef.CRC16(p.Body), Attr: 0x20}
	f.M = m
	if !o.Exact && t.OneIn(12) { // bytes nobody needs at the end of the packed data
		m.Packed = append(append([]byte(nil), m.Packed...), noise(t, 1+t.Intn(40))...)
		t.Label("packed data with something after it")
	}
	oses := []byte{'U', 0, 'M', 'H', 'K', 'X', 'J', '9', '2', '3', 'C', 'F', 'R', 'T', 'A', 'm', 'W', 'w'}
	m.OS = oses[t.Weighted(8, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
	if o.Plain && m.OS != 'U' && m.OS != 0 && m.OS != 'M' {
		m.OS = 'U'
	}
	f.Mode, f.Attr = 0100666, 0x20

	// name
	max := 40
	if o.MaxName > 0 {
		max = o.MaxName
	}
	base := name
	if base == "" {
		base = BaseName(t, NameLen(t, max))
	}
	if m.OS == 'm' {
		base = strings.Map(func(r rune) rune {
			if r == ':' || r == '/' {
				return '_'
			}
			return r
		}, base)
		if strings.ContainsAny(base, "\xef\xbf\xbd") || !asciiOnly(base) {
			base = fmt.Sprintf("mac%d", t.Intn(1000))
		}
	}
	var dirs []string
	if !o.Flat && t.Bool() {
		n := 1 + t.Intn(3)
		if t.OneIn(12) {
			n = 10 + t.Intn(30)
		}
		for i := 0; i < n; i++ {
			dirs = append(dirs, strings.ReplaceAll(BaseName(t, 1+t.Intn(12)), ":", "_"))
		}
		t.Label("directories in the name")
	}
	f.Name = strings.Join(append(append([]string{}, dirs...), base), "/")

	// time stamps
	stamp := drawTime(t, level < 2)
	f.MTime = stamp
	m.DOS = lharef.DOSTime(time.Unix(stamp, 0))
	m.Unix = uint32(stamp)
	if level < 2 && t.OneIn(30) {
		m.DOS, f.MTime = 0, 0
	}

	// attributes kept in the UNIX extensions
	mode := 0100000 | []int{0644, 0755, 0600, 0444, 0400, 0777, 0666, 0700}[t.Intn(8)]
	if !o.Plain && t.OneIn(4) {
		mode = 0100000 | t.Intn(01000)
	}
	if !o.Plain && t.OneIn(8) {
		mode |= []int{04000, 02000, 01000}[t.Intn(3)]
	}
	uid, gid := t.Intn(65536), t.Intn(65536)

	var exts []lharef.ExtHdr
	add := func(typ byte, data []byte) { exts = append(exts, lharef.ExtHdr{Type: typ, Data: data}) }

	if level == 0 {
		sep := "\\"
		if t.OneIn(4) {
			sep = "\xff"
		}
		full := strings.Join(append(append([]string{}, dirs...), base), sep)
		if len(full) > 200 {
			full = full[len(full)-200:]
			full = strings.Map(func(r rune) rune { return r }, full)
			full = strings.TrimLeft(full, "\\\xff")
			if full == "" || !asciiOnly(full) {
				full = fmt.Sprintf("n%d", t.Intn(1000))
			}
			f.Name = strings.NewReplacer("\\", "/", "\xff", "/").Replace(full)
		}
		m.Name = []byte(full)
		m.Attr = byte([]int{0x20, 0, 1, 0x21, 0x22, 0x27}[t.Weighted(6, 1, 1, 1, 1, 1)])
		if o.SFX {
			m.Attr = 0x20
		}
		f.Attr = m.Attr
		switch t.Weighted(6, 2, 2, 1) {
		case 0: // UNIX extension
			m.OS = 'U'
			st := uint32(drawTime(t, false))
			if t.OneIn(20) {
				st = 0
			}
			m.Tail = append([]byte{'U', 0}, w32(st)...)
			m.Tail = append(m.Tail, w16(mode)...)
			m.Tail = append(m.Tail, w16(uid)...)
			m.Tail = append(m.Tail, w16(gid)...)
			k := t.Intn(3)
			if o.Long && t.OneIn(8) {
				k = t.Intn(max0(255 - 34 - len(m.Name) + 1))
			}
			m.Tail = append(m.Tail, fill(t.Sub(), k, 256, 0)...)
			f.MTime, f.Mode, f.UID, f.GID = int64(st), mode, uid, gid
			t.Label("level 0 UNIX extension")
		case 1: // generic: nothing after the CRC
			m.OS = 0
		case 2: // another extension
			if m.OS == 'U' {
				m.OS = 'M'
			}
			m.Tail = []byte{m.OS}
			k := t.Intn(6)
			if o.Long && t.OneIn(8) {
				k = t.Intn(255 - 23 - len(m.Name) + 1)
			}
			m.Tail = append(m.Tail, fill(t.Sub(), k, 256, 0)...)
			t.Label("level 0 other extension")
		case 3: // LArc: no CRC
			m.NoCRC = true
			m.OS = 0
			t.Label("no CRC field")
		}
		f.HasOS = m.OS != 0
		finishForeign(t, f, level)
		return f
	}

	f.HasOS = true
	// where the name goes
	inExt := level >= 2 || len(base) > 200 || t.OneIn(4)
	if inExt {
		if level == 1 && t.OneIn(3) {
			m.Name = []byte("short")
		}
		add(1, []byte(base))
	} else {
		m.Name = []byte(base)
	}
	if len(dirs) > 0 {
		add(2, []byte(strings.Join(dirs, "\xff")+"\xff"))
	}
	if level == 1 {
		k := t.Weighted(6, 1, 1)
		if o.Long && t.OneIn(12) {
			k = t.Intn(255 - 25 - len(m.Name) + 1)
			t.Label("level 1 long unknown part")
		}
		m.Tail = fill(t.Sub(), k, 256, 0)
	}
	if t.Bool() {
		a := byte([]int{0x20, 0, 1, 2, 4, 0x27}[t.Intn(6)])
		add(0x40, w16(int(a)))
		f.Attr = a
	}
	unixy := t.Weighted(3, 1) == 0
	if unixy {
		add(0x50, w16(mode))
		f.Mode = mode
		if t.Bool() {
			add(0x51, append(w16(gid), w16(uid)...))
			f.UID, f.GID = uid, gid
		}
		if t.OneIn(3) {
			f.Group = ownerName(t)
			add(0x52, []byte(f.Group))
		}
		if t.OneIn(3) {
			f.User = ownerName(t)
			add(0x53, []byte(f.User))
		}
		t.Label("UNIX extended headers")
	}
	switch t.Weighted(4, 2, 2) {
	case 1:
		st := drawTime(t, false)
		if t.OneIn(20) {
			st = 0
		}
		add(0x54, w32(uint32(st)))
		f.MTime = st
		t.Label("UNIX time header")
	case 2:
		st := drawTime(t, false)
		sub := uint64(t.Intn(10000000))
		b := wintime(int64(t.Intn(1 << 30)))
		wt := binary.LittleEndian.Uint64(wintime(st)) + sub
		b = binary.LittleEndian.AppendUint64(b, wt)
		b = append(b, wintime(int64(t.Intn(1<<30)))...)
		add(0x41, b)
		if level < 2 {
			f.MTime = st // else the header has it already
		}
		t.Label("Windows time header")
	}
	for k := t.Weighted(4, 2, 1); k > 0; k-- {
		typ := []byte{0x3f, 0x39, 0x42, 0x7e, 0x7f, 0xcc, 0x71}[t.Intn(7)]
		n := t.Intn([]int{40, 300, 4090}[t.Weighted(8, 2, 1)])
		if typ == 0x42 {
			n = 16
		}
		d := make([]byte, n)
		r := t.Sub()
		for i := range d {
			d[i] = byte(r.Intn(256))
		}
		add(typ, d)
		t.Label("unrelated extended header")
	}
	if level >= 2 || t.OneIn(3) {
		c := lharef.ExtHdr{Type: 0, Data: make([]byte, 2+t.Weighted(4, 1, 1))}
		exts = append([]lharef.ExtHdr{c}, exts...)
	}
	// any order
	if t.Bool() {
		r := t.Sub()
		r.Shuffle(len(exts), func(i, j int) { exts[i], exts[j] = exts[j], exts[i] })
		t.Label("extended headers in another order")
	}
	m.Exts = exts
	if level == 2 {
		m.Pad = t.OneIn(4)
		m.PadVal = byte([]int{0, 0xff, 1, 0x55}[t.Weighted(3, 1, 1, 1)])
	}
	finishForeign(t, f, level)
	return f
}

func finishForeign(t *pbt.T, f *Foreign, level int) {
	f.M.Header()
	t.Label("level %d", level)
	t.Label("method %s", f.M.Method)
	t.Describe("level %d %s OS %02x name %q, %d extended headers, %d packed for %s", level, f.M.Method, f.M.OS, f.Name, len(f.M.Exts), len(f.M.Packed), Show(f.Body))
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// ownerName is a user or group name, now and then a very long one.
func ownerName(t *pbt.T) string {
	switch t.Weighted(6, 2, 1, 1) {
	case 1:
		return BaseName(t, 12+t.Intn(60))
	case 2:
		return BaseName(t, 100+t.Intn(156))
	case 3:
		return BaseName(t, 250+t.Intn(700))
	}
	return BaseName(t, 1+t.Intn(12))
}

// checkHeader compares a header the library read with the generated member.
func checkHeader(t *pbt.T, h *lha.LzHeader, f *Foreign) {
	bad := func(what string, got, want interface{}) {
		t.Fatalf("%s of %q: read as %v, the header says %v", what, f.Name, got, want)
	}
	if int(h.HeaderLevel) != f.M.Level {
		bad("header level", h.HeaderLevel, f.M.Level)
	}
	want := f.M.Method
	if f.Shown != "" {
		want = f.Shown
	}
	if string(h.Method) != want {
		bad("method", string(h.Method), want)
	}
	if cname(h.Name) != f.Name {
		bad("name", fmt.Sprintf("%q", cname(h.Name)), fmt.Sprintf("%q", f.Name))
	}
	if h.PackedSize != len(f.M.Packed) {
		bad("packed size", h.PackedSize, len(f.M.Packed))
	}
	if h.OriginalSize != f.M.Orig {
		bad("original size", h.OriginalSize, f.M.Orig)
	}
	if h.HeaderSize != f.M.Extra {
		bad("header size", h.HeaderSize, f.M.Extra)
	}
	if h.HasCrc == f.M.NoCRC {
		bad("presence of a CRC", h.HasCrc, !f.M.NoCRC)
	}
	if h.HasCrc && h.Crc != uint(f.M.CRC) {
		bad("CRC", fmt.Sprintf("%04x", h.Crc), fmt.Sprintf("%04x", f.M.CRC))
	}
	if h.UnixLastModifiedStamp != f.MTime {
		bad("time stamp", h.UnixLastModifiedStamp, f.MTime)
	}
	if int(h.UnixMode) != f.Mode {
		bad("UNIX mode", fmt.Sprintf("%o", h.UnixMode), fmt.Sprintf("%o", f.Mode))
	}
	if int(h.UnixUID) != f.UID || int(h.UnixGid) != f.GID {
		bad("uid/gid", fmt.Sprint(h.UnixUID, "/", h.UnixGid), fmt.Sprint(f.UID, "/", f.GID))
	}
	if cname(h.User) != f.User || cname(h.Group) != f.Group {
		bad("user/group", fmt.Sprintf("%q/%q", cname(h.User), cname(h.Group)), fmt.Sprintf("%q/%q", f.User, f.Group))
	}
	if h.Attribute != f.Attr {
		bad("attribute", h.Attribute, f.Attr)
	}
	if h.ExtendType != f.M.OS {
		bad("OS id", h.ExtendType, f.M.OS)
	}
	if f.Link != "" && cname(h.Realname) != f.Link {
		bad("link target", fmt.Sprintf("%q", cname(h.Realname)), fmt.Sprintf("%q", f.Link))
	}
}

func max0(n int) int {
	if n < 1 {
		return 1
	}
	return n
}
