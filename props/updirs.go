package props

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

// updateMixed: an archive of directories, links and files of other archivers
// is updated, by the names of the files or automatically, with some of them
// present and older, as old or newer. Newer ones replace their member, the
// others keep every byte.
func updateMixed(t *pbt.T) {
	fresh(t)
	enter("d")
	n := 1 + t.Intn(7)
	var fs []*Foreign
	isDir := map[string]bool{}
	var names []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		name := strings.Repeat(string(rune('a'+t.Intn(26))), 1+t.Intn(3)) + []string{"", "-long", ".txt", "-directory-with-a-long-name"}[t.Intn(4)]
		if seen[name] {
			continue
		}
		seen[name] = true
		names = append(names, name)
	}
	sorted := t.Bool()
	if sorted {
		sort.Strings(names)
	}
	for _, name := range names {
		f := drawForeign(t, ForeignOpt{Flat: true, Levels: []int{2, 1, 3}, Methods: []string{"-lh0-", "-lh5-"}, Plain: true}, name)
		f.M.OS = 'U'
		if t.Bool() {
			f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
			f.M.Method = "-lhd-"
			setName(f, name+"/", "")
			setMode(f, 0040000|[]int{0755, 0700, 0775}[t.Intn(3)])
			isDir[name] = true
		} else {
			setMode(f, 0100000|[]int{0644, 0600, 0755}[t.Intn(3)])
		}
		fs = append(fs, f)
	}
	if sorted {
		sort.SliceStable(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
	}
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	writeFile(t, "u.lzh", lharef.Archive(ms...))
	hs, err := headers(t, "u.lzh")
	if err != nil || len(hs) != len(fs) {
		t.Fatalf("Headers: %d of %d, %v", len(hs), len(fs), err)
	}
	// what is there, and what comes of it
	newer := map[string]int64{}
	auto := t.Bool()
	plain := !auto && t.OneIn(3) // an addition, no update
	var list []string
	for i, f := range fs {
		name := strings.TrimSuffix(f.Name, "/")
		if t.OneIn(4) {
			continue
		}
		at := hs[i].UnixLastModifiedStamp + []int64{0, 1, 2, -1, -2, 86400, -86400}[t.Intn(7)]
		if at < 0 || at > 1<<32-1 {
			continue
		}
		if isDir[name] {
			mustDir(name)
			// what it holds is not archived: only the directory is
			if t.Bool() {
				putFile(name+"/"+names[t.Intn(len(names))], []byte("inside"), 0644, 1000000000+int64(t.Intn(2000000000)))
			}
		} else {
			putFile(name, Content(t, false), 0644, at)
		}
		os.Chtimes(name, tm(at), tm(at))
		list = append(list, name)
		if plain || at > hs[i].UnixLastModifiedStamp {
			newer[f.Name] = at
		}
	}
	if t.Bool() {
		putFile("zz-unrelated", []byte("not in there"), 0644, 1000000000)
	}
	level := 2
	if t.OneIn(3) {
		level = 1
	}
	l := lha.NewLha("u.lzh")
	l.HeaderLevel, l.CompressMethod, l.UpdateIfNewer, l.SortContents = level, encMethods[t.Intn(len(encMethods))], !plain, sorted
	if !auto {
		if len(list) == 0 {
			return
		}
		l.CmdFilev, l.CmdFilec = list, len(list)
	}
	t.NonTrivial()
	t.Label("automatic %v", auto)
	t.Describe("update (plain %v automatic %v sorted %v level %d) of %d members with %q, newer %v", plain, auto, sorted, level, len(fs), list, newer)
	capture(func() { t.Lib("CommandAdd", func() { err = lha.CommandAdd("u.lzh", l) }) })
	if err != nil {
		t.Fatalf("update: %v", err)
	}
	now := readFile("u.lzh")
	got, err := lharef.ParseArchive(now)
	if err != nil {
		t.Fatalf("the updated archive is malformed: %v", err)
	}
	byName := map[string]*lharef.Member{}
	for _, m := range got {
		if byName[m.Path()] != nil {
			t.Fatalf("%q is twice in the updated archive", m.Path())
		}
		byName[m.Path()] = m
	}
	if len(got) != len(fs) {
		t.Fatalf("%d members after the update, %d before", len(got), len(fs))
	}
	var kept, keptGot []string
	for _, f := range fs {
		m := byName[f.Name]
		if m == nil {
			t.Fatalf("%q is gone from the updated archive", f.Name)
		}
		if at, ok := newer[f.Name]; ok {
			if at >= 315532800 || level == 2 {
				if st := memberTime(m); st != at {
					t.Fatalf("%q has time %d after the update, the newer one on disk %d", f.Name, st, at)
				}
			}
			continue
		}
		kept = append(kept, f.Name)
		if !bytes.Contains(now, append(append([]byte{}, f.M.Header()...), f.M.Packed...)) {
			t.Fatalf("%q, not newer on disk, is not as it was after the update", f.Name)
		}
	}
	for _, m := range got {
		if _, ok := newer[m.Path()]; !ok {
			keptGot = append(keptGot, m.Path())
		}
	}
	if fmt.Sprintf("%q", kept) != fmt.Sprintf("%q", keptGot) {
		t.Fatalf("members not updated are now %q, were %q", keptGot, kept)
	}
	if sorted {
		for i := 1; i < len(got); i++ {
			if got[i-1].Path() > got[i].Path() {
				t.Fatalf("the sorted archive is no longer sorted: %q before %q", got[i-1].Path(), got[i].Path())
			}
		}
	}
}

func memberTime(m *lharef.Member) int64 {
	if b, ok := m.FindExt(0x54); ok && len(b) >= 4 {
		return int64(b[0]) | int64(b[1])<<8 | int64(b[2])<<16 | int64(b[3])<<24
	}
	return int64(m.Unix)
}
