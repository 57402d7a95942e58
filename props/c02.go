package props

import (
	"bytes"
	"encoding/binary"
	"os"
	"path/filepath"
	"strings"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C02",
		Rule:  "A generated body and name are added with Compress or CompressBytes to a new archive (methods 0,1,5,6,7; header levels 0,1,2; Unix and generic format) and the archive file is taken apart by an independent strict parser and decoder written from the format description; so are directories, symbolic links and several files added in one go. Non-trivial: the body is not empty.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "add", Quick: 4500, Thorough: 30000, Run: func(t *pbt.T) { conformAdd(t, false) }},
			{Name: "add-big", Quick: 660, Thorough: 5000, Run: func(t *pbt.T) { conformAdd(t, true) }},
			{Name: "stream", Quick: 1500, Thorough: 10000, Run: conformStream},
			{Name: "special", Quick: 1800, Thorough: 12000, Run: conformSpecial},
			{Name: "deep", Quick: 96, Thorough: 300, Run: conformDeep},
			{Name: "several", Quick: 2400, Thorough: 16000, Run: severalConform},
			{Name: "huge", Quick: 8, Thorough: 160, Run: hugeConform},
		},
	})
}

// parseOnly parses the archive strictly and wants one member.
func parseOnly(t *pbt.T, archive string) *lharef.Member {
	raw := readFile(archive)
	ms, err := lharef.ParseArchive(raw)
	if err != nil {
		t.Fatalf("the archive is not well formed: %v", err)
	}
	if len(ms) != 1 {
		t.Fatalf("the archive holds %d members, 1 was added", len(ms))
	}
	return ms[0]
}

func le16(b []byte) int { return int(binary.LittleEndian.Uint16(b)) }
func le32(b []byte) int { return int(binary.LittleEndian.Uint32(b)) }

// wantData checks method, sizes, CRC and packed data of a member.
func wantData(t *pbt.T, m *lharef.Member, method int, body []byte) {
	if m.Orig != len(body) {
		t.Fatalf("%q: original size %d, the body has %d bytes", m.Path(), m.Orig, len(body))
	}
	asked := "-lh" + string(rune('0'+method)) + "-"
	if m.Method != asked && m.Method != "-lh0-" {
		t.Fatalf("%q: method %s, asked for %s", m.Path(), m.Method, asked)
	}
	if m.Method == "-lh0-" && len(m.Packed) != len(body) {
		t.Fatalf("%q: stored with %d bytes, the body has %d", m.Path(), len(m.Packed), len(body))
	}
	if m.Method != "-lh0-" && len(m.Packed) >= len(body) {
		t.Fatalf("%q: %s takes %d bytes, storing takes %d", m.Path(), m.Method, len(m.Packed), len(body))
	}
	if want := lharef.CRC16(body); m.CRC != want {
		t.Fatalf("%q: CRC %04x recorded, the body has %04x", m.Path(), m.CRC, want)
	}
	got, st, err := lharef.DecodeMember(m)
	if err != nil {
		t.Fatalf("%q: the packed data (%s, %d bytes) does not follow the format: %v", m.Path(), m.Method, len(m.Packed), err)
	}
	if !bytes.Equal(got, body) {
		t.Fatalf("%q: the packed data stands for other bytes: %s", m.Path(), Diff(body, got))
	}
	if m.Method != "-lh0-" && m.Method != "-lh1-" {
		labelStats(t, st)
	}
	t.Label("method %s", m.Method)
}

// wantMeta checks level, name and attributes recorded for a regular file.
// lo..hi bounds the time stamp; mode<0: not checked.
func wantMeta(t *pbt.T, m *lharef.Member, level int, generic bool, name string, lo, hi int64, mode int) {
	if m.Level != level {
		t.Fatalf("header level %d, asked for %d", m.Level, level)
	}
	if m.Path() != name {
		t.Fatalf("name %q recorded, added as %q", m.Path(), name)
	}
	attr := byte(0x20)
	if level == 0 && m.Method == "-lhd-" {
		attr = 0x10
	}
	if m.Attr != attr {
		t.Fatalf("attribute %02x of a %s member, want %02x", m.Attr, m.Method, attr)
	}
	if level < 2 {
		ok := false
		for s := lo; s <= hi; s++ {
			if m.DOS == lharef.DOSTime(time.Unix(s, 0)) {
				ok = true
			}
		}
		if !ok {
			t.Fatalf("MS-DOS time %08x recorded, want %08x (%d)", m.DOS, lharef.DOSTime(time.Unix(lo, 0)), lo)
		}
	} else if int64(m.Unix) < lo || int64(m.Unix) > hi {
		t.Fatalf("time stamp %d recorded, want %d..%d", m.Unix, lo, hi)
	}
	if level == 2 {
		if _, ok := m.FindExt(0); !ok {
			t.Fatalf("level 2 header without a header CRC")
		}
		if _, ok := m.FindExt(1); !ok {
			t.Fatalf("level 2 header without a file name header")
		}
	}
	if generic {
		if m.OS != 0 {
			t.Fatalf("generic format, but OS id %02x", m.OS)
		}
		if level == 0 && len(m.Tail) != 0 {
			t.Fatalf("generic format, but %d bytes follow the CRC", len(m.Tail))
		}
		if _, ok := m.FindExt(0x50); ok {
			t.Fatalf("generic format, but a UNIX permission header")
		}
		return
	}
	if m.OS != 'U' {
		t.Fatalf("OS id %02x, want 'U'", m.OS)
	}
	stamp := int64(-1)
	gotMode, uid, gid := -1, -1, -1
	if level == 0 {
		if len(m.Tail) != 12 {
			t.Fatalf("%d bytes follow the CRC of a level 0 header, want 12", len(m.Tail))
		}
		stamp = int64(le32(m.Tail[2:]))
		gotMode, uid, gid = le16(m.Tail[6:]), le16(m.Tail[8:]), le16(m.Tail[10:])
	} else {
		if b, ok := m.FindExt(0x50); ok && len(b) == 2 {
			gotMode = le16(b)
		}
		if b, ok := m.FindExt(0x51); ok && len(b) == 4 {
			gid, uid = le16(b), le16(b[2:])
		}
		if level == 1 {
			if b, ok := m.FindExt(0x54); ok && len(b) == 4 {
				stamp = int64(le32(b))
			}
		}
	}
	if level < 2 && (stamp < lo || stamp > hi) {
		t.Fatalf("UNIX time stamp %d recorded, want %d..%d", stamp, lo, hi)
	}
	if mode >= 0 && gotMode != mode {
		t.Fatalf("UNIX mode %o recorded, the file has %o", gotMode, mode)
	}
	if uid != os.Geteuid()&0xffff || gid != os.Getgid()&0xffff {
		t.Fatalf("uid/gid %d/%d recorded, running as %d/%d", uid, gid, os.Geteuid(), os.Getgid())
	}
}

func conformAdd(t *pbt.T, big bool) {
	fresh(t)
	c := drawAdd(t, big)
	generic := t.OneIn(4)
	if generic {
		lha.GenericFormat = true
		defer func() { lha.GenericFormat = false }()
		t.Label("generic format")
	}
	c.put(t)
	if len(c.Body) > 0 {
		t.NonTrivial()
	}
	before := time.Now().Unix()
	c.add(t, lha.NewLha(c.Archive))
	after := time.Now().Unix()
	m := parseOnly(t, c.Archive)
	if m.Pad {
		t.Label("padded level 2 header")
	}
	wantData(t, m, c.Method, c.Body)
	if c.File {
		wantMeta(t, m, c.Level, generic, c.Name, c.MTime, c.MTime, 0100000|int(c.Mode))
	} else {
		wantMeta(t, m, c.Level, generic, c.Name, before, after, -1)
	}
	// nothing but the archive appears next to it
	ents, _ := os.ReadDir(filepath.Dir(c.Archive))
	for _, e := range ents {
		p := filepath.Join(filepath.Dir(c.Archive), e.Name())
		if p == filepath.Clean(c.Archive) || e.IsDir() || (c.File && p == filepath.Clean(c.Path)) {
			continue
		}
		t.Fatalf("%q was left next to the archive", e.Name())
	}
}

func conformStream(t *pbt.T) {
	fresh(t)
	m := encMethods[t.Intn(len(encMethods))]
	body := Content(t, t.OneIn(8))
	t.Label("method %d", m)
	t.Describe("method %d body %s", m, Show(body))
	conformStreamCase(t, m, body)
}

func conformStreamCase(t *pbt.T, m int, body []byte) {
	packed, osize, psize, mid, crc, err := encodeStream(t, m, body)
	if err != nil {
		t.Fatalf("EncodeLzhuf: %v", err)
	}
	if m > 0 && psize >= osize {
		return
	}
	t.NonTrivial()
	mem := &lharef.Member{Method: mid, Packed: packed, Orig: osize, CRC: uint16(crc)}
	got, st, err := lharef.DecodeMember(mem)
	if err != nil {
		t.Fatalf("the %s stream does not follow the format: %v", mid, err)
	}
	if !bytes.Equal(got, body) {
		t.Fatalf("the %s stream stands for other bytes: %s", mid, Diff(body, got))
	}
	if uint(lharef.CRC16(body)) != crc {
		t.Fatalf("EncodeLzhuf reports CRC %04x, the body has %04x", crc, lharef.CRC16(body))
	}
	if st.MaxCLen == 16 {
		t.Label("codes of 16 bits")
	} else if st.MaxCLen > 16 {
		t.Label("codes of more than 16 bits")
	}
	if mid != "-lh0-" && mid != "-lh1-" {
		labelStats(t, st)
	}
}

func conformDeep(t *pbt.T) {
	fresh(t)
	m := []int{5, 6, 7, 1}[t.Intn(4)]
	var body []byte
	switch {
	case m == 1:
		body = deepLh1(t)
	case t.Intn(3) == 0:
		body = copyRich(t, dictOf(m))
		t.Label("copies over several blocks")
	case t.Bool():
		body = deepBlock(t, dictOf(m))
	case t.Bool():
		body = deep(t, 17+t.Intn(5))
	default:
		body = fibLiterals(t, 18+t.Intn(6))
	}
	t.Label("method %d", m)
	t.Describe("method %d skewed body %s", m, Show(body))
	conformStreamCase(t, m, body)
}

// conformSpecial: directories and symbolic links, alone or with a file.
func conformSpecial(t *pbt.T) {
	fresh(t)
	level := t.Intn(3)
	method := encMethods[t.Intn(len(encMethods))]
	generic := t.OneIn(4)
	if generic {
		lha.GenericFormat = true
		defer func() { lha.GenericFormat = false }()
		t.Label("generic format")
	}
	type item struct {
		path, stored string
		dir, link    bool
		mode         int
		stamp        int64
		body         []byte
	}
	var items []item
	n := 1 + t.Intn(3)
	limit := 4000 // of the name, and of a link's name and target
	if level == 0 {
		limit = 221
		if generic {
			limit = 233
		}
	}
	tooLong := false
	for i := 0; i < n; i++ {
		name := string(rune('a'+i)) + letters(t, 1+t.Intn([]int{3, 12, 60}[t.Intn(3)]), "abcdefghijklmnopqrstuvwxyz0123456789_. -+")
		if t.OneIn(8) {
			name += strings.Repeat("n", min(limit, 255)-1-t.Intn(20)-len(name))
			t.Label("long name")
		}
		it := item{path: name, stored: name, mode: 0700 | t.Intn(01000)}
		it.stamp = 315619200 + 2*int64(t.Intn(1000000000)) + int64(t.Intn(2))
		switch t.Weighted(3, 3, 2) {
		case 0:
			it.dir, it.stored = true, name+"/"
			mustDir(name)
			if t.OneIn(3) {
				writeFile(t, name+"/inner", []byte("inner"))
			}
			if err := os.Chmod(name, os.FileMode(it.mode)); err != nil {
				panic(err)
			}
			it.mode |= 040000
			t.Label("directory")
		case 1:
			target := letters(t, 1+t.Intn([]int{5, 20, 70}[t.Intn(3)]), "abcxyz./_-0189 ")
			switch t.Weighted(6, 1, 1) {
			case 1:
				k := 1 + t.Intn(4095-len(target))
				if t.Bool() { // one off a power of two
					k = max(1, 1<<(6+t.Intn(6))+t.Intn(3)-1-len(target))
				}
				target += strings.Repeat([]string{"/longer", "x"}[t.Intn(2)], 4095)[:k]
				t.Label("long target")
			case 2:
				if k := limit - len(name) - 1 - len(target) + t.Intn(3) - 1; k > 0 && k+len(target) < 4096 {
					target += strings.Repeat("t/", k)[:k]
				}
				t.Label("target about as long as can be")
			}
			if level == 0 && len(name)+1+len(target) > limit {
				tooLong = true
			}
			if err := os.Symlink(target, name); err != nil {
				panic(err)
			}
			st, _ := os.Lstat(name)
			it.link, it.mode, it.stamp = true, 0120777, st.ModTime().Unix()
			it.stored = name + "|" + target
			t.Label("link")
		case 2:
			it.body = Content(t, false)
			writeFile(t, name, it.body)
			if err := os.Chmod(name, os.FileMode(it.mode)); err != nil {
				panic(err)
			}
			it.mode |= 0100000
		}
		if !it.link {
			if err := os.Chtimes(it.path, time.Unix(it.stamp, 0), time.Unix(it.stamp, 0)); err != nil {
				panic(err)
			}
		}
		if it.dir || it.link {
			t.NonTrivial()
		}
		items = append(items, it)
	}
	l := lha.NewLha("sp.lzh")
	var err error
	if n == 1 && t.OneIn(2) {
		t.Lib("Compress", func() { err = l.Compress(items[0].path, method, level) })
	} else {
		l.CompressMethod, l.HeaderLevel = method, level
		for _, it := range items {
			l.CmdFilev = append(l.CmdFilev, it.path)
		}
		l.CmdFilec = len(l.CmdFilev)
		t.Lib("CommandAdd", func() { err = lha.CommandAdd("sp.lzh", l) })
	}
	t.Describe("%+v method %d level %d generic %v", items, method, level, generic)
	if tooLong { // half a target is none
		t.Label("target too long for level 0")
		if err == nil {
			t.Fatalf("a link too long for a level 0 header was added: %+v", items)
		}
		if _, err := os.Lstat("sp.lzh"); err == nil {
			t.Fatalf("an archive was left by an addition that failed: %+v", items)
		}
		return
	}
	if err != nil {
		t.Fatalf("adding %+v: %v", items, err)
	}
	ms, perr := lharef.ParseArchive(readFile("sp.lzh"))
	if perr != nil {
		t.Fatalf("the archive is not well formed: %v", perr)
	}
	if len(ms) != n {
		t.Fatalf("%d members, %d were added", len(ms), n)
	}
	for i, it := range items {
		m := ms[i]
		if it.dir || it.link {
			if m.Method != "-lhd-" || m.Orig != 0 || len(m.Packed) != 0 || m.CRC != 0 {
				t.Fatalf("%q stored as %s with %d/%d bytes, CRC %04x", it.stored, m.Method, m.Orig, len(m.Packed), m.CRC)
			}
		} else {
			wantData(t, m, method, it.body)
		}
		wantMeta(t, m, level, generic, it.stored, it.stamp, it.stamp, it.mode)
	}
}

func letters(t *pbt.T, n int, of string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = of[t.Intn(len(of))]
	}
	return string(b)
}
