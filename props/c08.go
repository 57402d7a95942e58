package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C08",
		Rule:  "Histories of 1 to 8 operations on one archive against a model (an ordered list of members): the archive starts absent, as one of another archiver (levels 0 to 3, every method, directories, any order) or as one of the library; operations are Compress, CompressBytes and CommandAdd of one or several files, new or already there, with sorting, exclusion, update-if-newer, move, backup, re-creation, missing files, directory trees and symbolic links, on one instance or fresh ones. After each operation the archive is parsed strictly and every member read back. Non-trivial: a history of at least two operations, or one that starts with an existing archive.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "history", Quick: 6000, Thorough: 60000, Run: history},
			{Name: "single", Quick: 2400, Thorough: 24000, Run: historySingle},
			{Name: "sfx", Quick: 400, Thorough: 4000, Run: historySFX},
			{Name: "update", Quick: 3000, Thorough: 30000, Run: updateMixed},
		},
	})
}

// Entry is one member in the model.
type Entry struct {
	Name    string
	Body    []byte
	Raw     []byte // exact bytes, once known
	Dir     bool
	Link    string
	MTime   int64
	Method  int // as asked; -1 for a foreign member
	Level   int
	Mode    int
	Lo, Hi  int64
	Generic bool // header without the UNIX extension
}

// Model is the state of an archive.
type Model struct {
	Path   string
	Exists bool
	List   []*Entry
	Mode   os.FileMode
}

func (m *Model) find(name string) int {
	for i, e := range m.List {
		if e.Name == name {
			return i
		}
	}
	return -1
}

func (m *Model) names() []string {
	var out []string
	for _, e := range m.List {
		out = append(out, e.Name)
	}
	return out
}

var pool = []string{"alpha", "beta", "Gamma", "delta.txt", "e", "zeta-long-name.dat", "m1", "m2", "ALPHA", ".beta", "M1", "two words", "-v"}

// drawBase sets up the starting archive.
func drawBase(t *pbt.T, path string) *Model {
	m := &Model{Path: path}
	switch t.Weighted(3, 4) {
	case 0:
		return m
	case 1:
		n := 1 + t.Intn(5)
		many := t.OneIn(100)
		if many {
			n = 100 + t.Intn(250)
			t.Label("hundreds of members")
		}
		seen := map[string]bool{}
		var ms []*lharef.Member
		for i := 0; i < n; i++ {
			name := pool[t.Intn(len(pool))]
			if many && t.Intn(20) > 0 {
				name = fmt.Sprintf("member-%03d", (i*37)%1000)
			}
			f := drawForeign(t, ForeignOpt{Flat: t.Weighted(3, 1) == 0}, name)
			if seen[f.Name] {
				continue
			}
			seen[f.Name] = true
			ms = append(ms, f.M)
			m.List = append(m.List, &Entry{Name: f.Name, Body: f.Body, Raw: f.M.Bytes(), MTime: f.MTime, Method: -1})
		}
		if t.Bool() {
			// in order of name
			idx := make([]int, len(ms))
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return m.List[idx[a]].Name < m.List[idx[b]].Name })
			var ms2 []*lharef.Member
			var l2 []*Entry
			for _, i := range idx {
				ms2 = append(ms2, ms[i])
				l2 = append(l2, m.List[i])
			}
			ms, m.List = ms2, l2
		}
		raw := lharef.Archive(ms...)
		if t.OneIn(4) {
			raw = raw[:len(raw)-1]
			t.Label("archive without end mark")
		}
		writeFile(t, path, raw)
		m.Exists = true
		m.Mode = os.FileMode([]int{0644, 0600, 0664, 0640, 0444, 0400, 0755, 0666}[t.Intn(8)])
		os.Chmod(path, m.Mode)
		t.Label("foreign archive to start with")
		t.Describe("start: %q", m.names())
	}
	return m
}

type opFile struct {
	path, name string
	e          *Entry // nil: missing
}

// newEntry makes the input file of an add.
func newFile(t *pbt.T, name, dir string, level, method int) opFile {
	e := &Entry{Name: name, Level: level, Method: method}
	e.Body = Content(t, false)
	e.MTime = drawTime(t, level < 2)
	mode := []int{0644, 0755, 0600, 0444}[t.Intn(4)]
	e.Mode = 0100000 | mode
	p := name
	if dir != "" {
		mustDir(dir)
		p = dir + "/" + name
	}
	putFile(p, e.Body, os.FileMode(mode), e.MTime)
	e.Lo, e.Hi = e.MTime, e.MTime
	return opFile{p, name, e}
}

func sorted(ss []string) bool { return sort.StringsAreSorted(ss) }

func history(t *pbt.T) {
	fresh(t)
	archive := []string{"m.lzh", "arch/m.lha"}[t.Intn(2)]
	mustDir(filepath.Dir(archive))
	m := drawBase(t, archive)
	n := 1 + t.Intn(5)
	if t.OneIn(6) {
		n += 3
	}
	if n > 1 || m.Exists {
		t.NonTrivial()
	}
	var l *lha.Lha
	one := t.Bool()
	if one {
		t.Label("one instance")
	} else {
		t.Label("fresh instances")
	}
	if m.Exists {
		m.verify(t, "at the start")
	}
	for i := 0; i < n; i++ {
		if l == nil || !one {
			l = lha.NewLha(archive)
		}
		if t.OneIn(8) { // the same instance with another archive
			putFile("aside", []byte("aside"), 0644, 1000000000)
			l.CmdFilev, l.CmdFilec = []string{"aside"}, 1
			l.NewArchive, l.UpdateIfNewer, l.DeleteAfterAppend, l.BackupOldArchive, l.RecursiveArchiving, l.Noexec = false, false, false, false, false, false
			l.ExcludeFiles = nil
			l.HeaderLevel, l.CompressMethod = 2, 5
			var err error
			t.Lib("CommandAdd", func() { err = lha.CommandAdd("aside.lzh", l) })
			l.CmdFilev, l.CmdFilec = nil, 0
			if err != nil {
				t.Fatalf("adding to another archive: %v", err)
			}
			ms, err := lharef.ParseArchive(readFile("aside.lzh"))
			if err != nil || len(ms) != 1 || ms[0].Path() != "aside" {
				t.Fatalf("another archive with one file holds %d members, %v", len(ms), err)
			}
			if m.Exists {
				m.verify(t, "after adding to another archive")
			}
			os.Remove("aside.lzh")
			os.Remove("aside")
			t.Label("another archive in between")
			l = lha.NewLha(archive) // that one is bound to the other archive
		}
		runOp(t, l, m, i)
	}
}

// runOp draws and runs one operation and checks the archive.
func runOp(t *pbt.T, l *lha.Lha, m *Model, i int) {
	level := []int{2, 0, 1}[t.Intn(3)]
	method := encMethods[t.Intn(len(encMethods))]
	l.SortContents = t.Bool()
	l.NewArchive, l.UpdateIfNewer, l.DeleteAfterAppend, l.BackupOldArchive, l.RecursiveArchiving, l.Noexec = false, false, false, false, false, false
	l.ExcludeFiles = nil
	switch t.Weighted(3, 3, 5, 1) {
	case 0: // CompressBytes
		name := pool[t.Intn(len(pool))]
		e := &Entry{Name: name, Body: Content(t, false), Level: level, Method: method, Mode: -1}
		p := name
		if t.OneIn(3) {
			p = "no/such/dir/" + name
		}
		l.BackupOldArchive = t.OneIn(6)
		l.NewArchive = t.OneIn(10)
		t.Describe("op %d: CompressBytes(%q, %s, method %d, level %d) sorted %v new %v backup %v", i, p, Show(e.Body), method, level, l.SortContents, l.NewArchive, l.BackupOldArchive)
		t.Label("op CompressBytes")
		before := m.snapshot()
		e.Lo = time.Now().Unix()
		var err error
		t.Lib("CompressBytes", func() { err = l.CompressBytes(p, append([]byte{}, e.Body...), method, level) })
		e.Hi = time.Now().Unix()
		if err != nil {
			t.Fatalf("op %d: CompressBytes: %v", i, err)
		}
		m.apply(t, l, before, []opFile{{p, name, e}}, i)
		cleanup(m, nil)
	case 1: // Compress
		name, dir := pool[t.Intn(len(pool))], []string{"", "in", "in/deep"}[t.Intn(3)]
		if dir != "" && t.OneIn(12) {
			name = filepath.Base(m.Path) // another file of the archive's name
			t.Label("a file named as the archive")
		}
		f := newFile(t, name, dir, level, method)
		l.UpdateIfNewer = t.OneIn(4)
		l.DeleteAfterAppend = t.OneIn(5)
		l.BackupOldArchive = t.OneIn(6)
		l.NewArchive = t.OneIn(10)
		t.Describe("op %d: Compress(%q, %s, mtime %d, method %d, level %d) sorted %v new %v update %v move %v backup %v", i, f.path, Show(f.e.Body), f.e.MTime, method, level, l.SortContents, l.NewArchive, l.UpdateIfNewer, l.DeleteAfterAppend, l.BackupOldArchive)
		t.Label("op Compress")
		before := m.snapshot()
		var err error
		t.Lib("Compress", func() { err = l.Compress(f.path, method, level) })
		if err != nil {
			t.Fatalf("op %d: Compress: %v", i, err)
		}
		m.apply(t, l, before, []opFile{f}, i)
		cleanup(m, []opFile{f})
	case 2: // CommandAdd with several files
		l.UpdateIfNewer = t.OneIn(4)
		l.DeleteAfterAppend = t.OneIn(5)
		l.BackupOldArchive = t.OneIn(6)
		l.NewArchive = t.OneIn(10)
		k := 1 + t.Intn(4)
		var files []opFile
		var unreadable []string
		seen := map[string]bool{}
		for j := 0; j < k; j++ {
			name := pool[t.Intn(len(pool))]
			if seen[name] {
				continue
			}
			seen[name] = true
			dir := []string{"", "in", "in/deep"}[t.Intn(3)]
			if dir != "" && t.OneIn(15) && !seen[filepath.Base(m.Path)] {
				name = filepath.Base(m.Path)
				seen[name] = true
				t.Label("a file named as the archive")
			}
			switch {
			case t.OneIn(10):
				p := name
				if dir != "" {
					p = dir + "/" + name
				}
				os.Remove(p)
				files = append(files, opFile{p, name, nil})
				t.Label("missing input")
			case t.OneIn(12):
				f := newFile(t, name, dir, level, method)
				os.Chmod(f.path, 0)
				if h, err := os.Open(f.path); err == nil {
					h.Close() // root reads it all the same
					os.Remove(f.path)
				} else {
					unreadable = append(unreadable, f.path)
					t.Label("input that cannot be read")
				}
				files = append(files, opFile{f.path, name, nil})
			case t.OneIn(15):
				p := name
				if dir != "" {
					mustDir(dir)
					p = dir + "/" + name
				}
				os.Remove(p)
				if putSpecial(t, p) {
					unreadable = append(unreadable, p)
				}
				files = append(files, opFile{p, name, nil})
			case t.OneIn(12):
				p := "link-" + name
				target := []string{"alpha", "nowhere", "../elsewhere/x"}[t.Intn(3)]
				os.Remove(p)
				if err := os.Symlink(target, p); err != nil {
					panic(err)
				}
				st, _ := os.Lstat(p)
				files = append(files, opFile{p, p, &Entry{Name: p, Link: target, Level: level, MTime: st.ModTime().Unix(), Lo: st.ModTime().Unix(), Hi: st.ModTime().Unix()}})
				t.Label("symbolic link")
			default:
				files = append(files, newFile(t, name, dir, level, method))
			}
		}
		if t.OneIn(6) {
			l.RecursiveArchiving = !t.OneIn(4)
			files = append(files, drawTree(t, level, method)...)
			if l.RecursiveArchiving {
				t.Label("directory tree")
			} else {
				t.Label("directory without what is in it")
			}
		}
		if t.Bool() {
			sort.Slice(files, func(a, b int) bool { return files[a].name < files[b].name })
		}
		if t.OneIn(4) {
			l.ExcludeFiles = drawExcludes(t, files)
			t.Label("exclusion")
		}
		var args []string
		for _, f := range files {
			if strings.HasPrefix(f.path, "tree/") {
				continue
			}
			args = append(args, f.path)
		}
		if t.OneIn(5) {
			// the archive itself is among the files: left out
			self := []string{m.Path, "./" + m.Path, absPath(m.Path)}[t.Intn(3)]
			at := t.Intn(len(args) + 1)
			args = append(args[:at], append([]string{self}, args[at:]...)...)
			t.Label("the archive itself is listed")
		}
		l.CmdFilev, l.CmdFilec = append([]string{}, args...), len(args)
		l.HeaderLevel, l.CompressMethod = level, method
		t.Describe("op %d: CommandAdd(%q) method %d level %d sorted %v new %v update %v move %v backup %v exclude %q", i, args, method, level, l.SortContents, l.NewArchive, l.UpdateIfNewer, l.DeleteAfterAppend, l.BackupOldArchive, l.ExcludeFiles)
		t.Label("op CommandAdd %d files", min(len(args), 3))
		before := m.snapshot()
		var err error
		t.Lib("CommandAdd", func() { err = lha.CommandAdd(m.Path, l) })
		if err != nil {
			t.Fatalf("op %d: CommandAdd: %v", i, err)
		}
		l.CmdFilev, l.CmdFilec = nil, 0
		m.apply(t, l, before, files, i)
		for _, p := range unreadable {
			if _, err := os.Lstat(p); err != nil {
				t.Fatalf("op %d: %q cannot be read, is not archived and is gone", i, p)
			}
		}
		cleanup(m, files)
	case 3: // CommandAdd without files: automatic update
		if !m.Exists {
			return
		}
		l.UpdateIfNewer = true
		l.DeleteAfterAppend = t.OneIn(5)
		files := autoUpdate(t, m, level, method)
		l.CmdFilev, l.CmdFilec = nil, 0
		l.HeaderLevel, l.CompressMethod = level, method
		t.Describe("op %d: automatic update with %q newer or older, method %d level %d sorted %v move %v", i, pathsOf(files), method, level, l.SortContents, l.DeleteAfterAppend)
		t.Label("op automatic update")
		before := m.snapshot()
		var err error
		capture(func() {
			t.Lib("CommandAdd", func() { err = lha.CommandAdd(m.Path, l) })
		})
		if err != nil {
			t.Fatalf("op %d: automatic update: %v", i, err)
		}
		l.CmdFilev, l.CmdFilec = nil, 0
		if len(files) == 0 {
			if !bytes.Equal(readFile(m.Path), before.raw) {
				t.Fatalf("op %d: nothing to update, but the archive changed", i)
			}
			return
		}
		m.apply(t, l, before, files, i)
		cleanup(m, files)
	}
}

func absPath(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		panic(err)
	}
	return a
}

// putSpecial makes a pipe or socket, which no archive holds.
func putSpecial(t *pbt.T, p string) bool {
	kind := []uint32{syscall.S_IFIFO, syscall.S_IFSOCK}[t.Intn(2)]
	if err := syscall.Mknod(p, kind|0644, 0); err != nil {
		return false
	}
	t.Label("pipe or socket")
	return true
}

// drawTree makes a directory "tree" of up to ten nodes: files, links and
// directories, some empty, all with names of their own.
func drawTree(t *pbt.T, level, method int) []opFile {
	mustDir("tree")
	out := []opFile{{"tree", "tree/", &Entry{Name: "tree/", Dir: true, Level: level}}}
	dirs := []string{"tree"}
	n := t.Intn(10)
	for i := 0; i < n; i++ {
		d := dirs[t.Intn(len(dirs))]
		letter := string(rune('a' + (i*7)%26))
		switch t.Weighted(10, 6, 2, 1) {
		case 3:
			putSpecial(t, d+"/special-"+letter)
		case 0:
			name := "leaf-" + letter
			if t.OneIn(4) {
				name = "." + name
			}
			out = append(out, newFile(t, name, d, level, method))
		case 1:
			name := "sub-" + letter
			p := d + "/" + name
			mustDir(p)
			dirs = append(dirs, p)
			out = append(out, opFile{p, name + "/", &Entry{Name: name + "/", Dir: true, Level: level}})
		case 2:
			name := "ln-" + letter
			p := d + "/" + name
			target := []string{"leaf-a", "../x", "/etc/none"}[t.Intn(3)]
			if err := os.Symlink(target, p); err != nil {
				panic(err)
			}
			st, _ := os.Lstat(p)
			s := st.ModTime().Unix()
			out = append(out, opFile{p, name, &Entry{Name: name, Link: target, Level: level, MTime: s, Lo: s, Hi: s}})
		}
	}
	return out
}

// drawExcludes makes a list of one to six names, one or two of them of the
// files given, anywhere in it and in any case.
func drawExcludes(t *pbt.T, files []opFile) []string {
	n := t.Intn(6)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, []string{"nothing-like-it", "leaf", "alph", "alphaa", "*", "tree-", "e.txt"}[t.Intn(7)])
	}
	if t.Bool() {
		// close to the name of a file, but not it
		x := strings.TrimSuffix(files[t.Intn(len(files))].name, "/")
		switch t.Intn(6) {
		case 0:
			x += ".txt"
		case 1:
			x = strings.TrimSuffix(x, filepath.Ext(x)) + "."
		case 2:
			x = x[:len(x)-1]
		case 3:
			x = x[1:]
		case 4:
			x = "in/" + x
		case 5:
			if e := filepath.Ext(x); e != "" {
				x = x[:len(x)-len(e)]
			} else {
				x += "*"
			}
		}
		if x != "" {
			out = append(out, x)
		}
	}
	k := t.Weighted(1, 6, 3)
	for i := 0; i < k; i++ {
		x := strings.TrimSuffix(files[t.Intn(len(files))].name, "/")
		switch t.Intn(3) {
		case 1:
			x = strings.ToUpper(x)
		case 2:
			x = strings.ToUpper(x[:1]) + x[1:]
		}
		at := t.Intn(len(out) + 1)
		out = append(out[:at], append([]string{x}, out[at:]...)...)
	}
	return out
}

func cleanup(m *Model, files []opFile) {
	for _, f := range files {
		os.Remove(f.path)
	}
	os.RemoveAll("tree")
	os.Remove(m.Path + ".bak")
}

type snap struct {
	raw   []byte
	files map[string]bool
}

func (m *Model) snapshot() snap {
	s := snap{files: map[string]bool{}}
	if m.Exists {
		s.raw = readFile(m.Path)
	}
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			s.files[p] = true
		}
		return nil
	})
	return s
}

// apply works out what the archive must be now, and checks it.
func (m *Model) apply(t *pbt.T, l *lha.Lha, before snap, files []opFile, op int) {
	old := m.List
	if l.NewArchive {
		old = nil
	}
	excluded := func(p string) bool {
		for _, x := range l.ExcludeFiles {
			if strings.EqualFold(x, filepath.Base(p)) {
				return true
			}
		}
		return false
	}
	inTree := false
	written := map[string]*Entry{}
	var order []string
	var gone []string
	for _, f := range files {
		if f.path == "tree" && !excluded("tree") {
			inTree = true
		}
	}
	for _, f := range files {
		if strings.HasPrefix(f.path, "tree/") && (!inTree || !l.RecursiveArchiving) {
			continue
		}
		if f.e == nil || excluded(f.path) {
			continue
		}
		if strings.HasPrefix(f.path, "tree/") {
			out := false
			for _, d := range strings.Split(f.path, "/") {
				out = out || excludedDir(l, d)
			}
			if out {
				t.Label("excluded in a tree")
				continue
			}
		}
		if f.e.Dir {
			st, err := os.Lstat(f.path)
			if err == nil {
				f.e.MTime = st.ModTime().Unix()
			} else { // moved into the archive
				f.e.MTime = -1
			}
		}
		if l.UpdateIfNewer {
			kept := false
			for _, e := range old {
				if e.Name == f.e.Name && (f.e.MTime == -1 || e.MTime >= f.e.MTime) {
					kept = true
				}
			}
			if kept && !f.e.Dir {
				t.Label("older than the member")
				continue
			}
		}
		written[f.name] = f.e
		order = append(order, f.name)
		gone = append(gone, f.path)
	}
	// what happens to the files
	for _, f := range files {
		_, err := os.Lstat(f.path)
		isGone := os.IsNotExist(err)
		arch := false
		for _, g := range gone {
			if g == f.path {
				arch = true
			}
		}
		if f.e == nil || f.e.Mode == -1 {
			continue
		}
		if l.DeleteAfterAppend && arch && !isGone && !f.e.Dir {
			t.Fatalf("op %d: %q was moved into the archive but is still there", op, f.path)
		}
		if l.DeleteAfterAppend && arch && !isGone && f.e.Dir && !l.UpdateIfNewer {
			if ents, err := os.ReadDir(f.path); err == nil && len(ents) == 0 {
				t.Fatalf("op %d: directory %q was moved into the archive with all that is in it, but is still there", op, f.path)
			}
		}
		if (!l.DeleteAfterAppend || !arch) && isGone {
			t.Fatalf("op %d: %q is gone (move %v, archived %v)", op, f.path, l.DeleteAfterAppend, arch)
		}
		if !isGone && f.e.Link == "" && !f.e.Dir {
			if !bytes.Equal(readPlain(f.path), f.e.Body) {
				t.Fatalf("op %d: input file %q was changed", op, f.path)
			}
		}
	}
	// the backup
	bak, err := os.ReadFile(m.Path + ".bak")
	if l.BackupOldArchive && m.Exists {
		if err != nil || !bytes.Equal(bak, before.raw) {
			t.Fatalf("op %d: the backup is not the old archive: %v", op, err)
		}
		t.Label("backup")
	} else if err == nil {
		t.Fatalf("op %d: a backup nobody asked for", op)
	}
	// nothing else in the directories
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !before.files[p] && p != filepath.Clean(m.Path) && p != filepath.Clean(m.Path)+".bak" {
			t.Fatalf("op %d: %q was left behind", op, p)
		}
		return nil
	})
	// the new archive
	raw, err := os.ReadFile(m.Path)
	if err != nil {
		t.Fatalf("op %d: no archive: %v", op, err)
	}
	st, _ := os.Stat(m.Path)
	if m.Exists && st.Mode().Perm() != m.Mode {
		t.Fatalf("op %d: the archive had permissions %o and now has %o", op, m.Mode, st.Mode().Perm())
	}
	m.Mode = st.Mode().Perm()
	m.Exists = true
	ms, perr := lharef.ParseArchive(raw)
	if perr != nil {
		t.Fatalf("op %d: the archive is not well formed: %v", op, perr)
	}
	type got struct {
		m   *lharef.Member
		raw []byte
	}
	byName := map[string]got{}
	var names []string
	off := 0
	for _, x := range ms {
		n := x.Extra + len(x.Packed)
		name := readerName(x)
		if _, dup := byName[name]; dup {
			t.Fatalf("op %d: %q is in the archive twice: %q", op, name, names)
		}
		byName[name] = got{x, raw[off : off+n]}
		names = append(names, name)
		off += n
	}
	var next []*Entry
	var wantUntouched, gotUntouched []string
	for _, e := range old {
		if written[e.Name] == nil {
			wantUntouched = append(wantUntouched, e.Name)
		}
	}
	for _, n := range names {
		if w := written[n]; w != nil {
			x := byName[n]
			w.Raw = append([]byte{}, x.raw...)
			switch {
			case w.Link != "":
				if got := linkOf(x.m); got != w.Link || x.m.Method != "-lhd-" {
					t.Fatalf("op %d: link %q to %q stored with target %q (%s)", op, n, w.Link, got, x.m.Method)
				}
			case w.Dir:
				if x.m.Method != "-lhd-" || len(x.m.Packed) > 0 {
					t.Fatalf("op %d: directory %q stored as %s", op, n, x.m.Method)
				}
			default:
				wantData(t, x.m, w.Method, w.Body)
				wantMeta(t, x.m, w.Level, w.Generic, n, w.Lo, w.Hi, w.Mode)
			}
			if w.Mode == -1 {
				w.MTime = stampOf(x.m)
			}
			next = append(next, w)
			continue
		}
		i := -1
		for j, e := range old {
			if e.Name == n {
				i = j
			}
		}
		if i < 0 {
			t.Fatalf("op %d: member %q comes from nowhere; members now %q, before %q, written %q", op, n, names, m.names(), order)
		}
		gotUntouched = append(gotUntouched, n)
		if !bytes.Equal(old[i].Raw, byName[n].raw) {
			t.Fatalf("op %d: member %q was not touched but changed: %s", op, n, Diff(old[i].Raw, byName[n].raw))
		}
		next = append(next, old[i])
	}
	for _, n := range order {
		if _, ok := byName[n]; !ok {
			t.Fatalf("op %d: %q was added but is not in the archive: %q", op, n, names)
		}
	}
	if fmt.Sprint(wantUntouched) != fmt.Sprint(gotUntouched) {
		t.Fatalf("op %d: the members not named by the operation were %q and are %q", op, wantUntouched, gotUntouched)
	}
	// order
	if l.SortContents {
		var on []string
		for _, e := range old {
			on = append(on, e.Name)
		}
		var listed []string
		for _, f := range files {
			listed = append(listed, f.name)
		}
		if sorted(on) && sorted(listed) && !inTree && !sorted(names) {
			t.Fatalf("op %d: sorted archive %q plus sorted files %q gives %q", op, on, order, names)
		}
	} else if len(order) == 1 && len(files) == 1 {
		want := []string{}
		in := false
		for _, e := range old {
			want = append(want, e.Name)
			if e.Name == order[0] {
				in = true
			}
		}
		if !in {
			want = append(want, order[0])
			t.Label("appended")
		} else {
			t.Label("replaced in place")
		}
		if fmt.Sprint(want) != fmt.Sprint(names) {
			t.Fatalf("op %d: adding %q without sorting to %q gives %q", op, order[0], want, names)
		}
	}
	m.List = next
	m.verify(t, fmt.Sprintf("after op %d", op))
}

func excludedDir(l *lha.Lha, name string) bool {
	for _, x := range l.ExcludeFiles {
		if strings.EqualFold(x, name) {
			return true
		}
	}
	return false
}

func readPlain(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		os.Chmod(p, 0600)
		b = readFile(p)
	}
	return b
}

// readerName is the member's name as a reader shows it.
func readerName(x *lharef.Member) string {
	p := x.Path()
	if modeOf(x)&0170000 == 0120000 {
		if i := strings.IndexByte(p, '|'); i >= 0 {
			return p[:i]
		}
	}
	return p
}

func linkOf(x *lharef.Member) string {
	p := x.Path()
	if i := strings.IndexByte(p, '|'); i >= 0 {
		return p[i+1:]
	}
	return ""
}

func modeOf(x *lharef.Member) int {
	if x.Level == 0 {
		if len(x.Tail) >= 12 && x.Tail[0] == 'U' {
			return le16(x.Tail[6:])
		}
		return 0100666
	}
	if b, ok := x.FindExt(0x50); ok && len(b) >= 2 {
		return le16(b)
	}
	return 0100666
}

func stampOf(x *lharef.Member) int64 {
	if x.Level == 0 && len(x.Tail) >= 12 {
		return int64(le32(x.Tail[2:]))
	}
	if b, ok := x.FindExt(0x54); ok {
		return int64(le32(b))
	}
	return int64(x.Unix)
}

// verify reads the archive with the library and compares with the model.
func (m *Model) verify(t *pbt.T, when string) {
	hs, err := headers(t, m.Path)
	if err != nil {
		t.Fatalf("%s: Headers: %v", when, err)
	}
	if len(hs) != len(m.List) {
		t.Fatalf("%s: Headers finds %d members, there are %d", when, len(hs), len(m.List))
	}
	for i, e := range m.List {
		h := hs[i]
		if cname(h.Name) != e.Name {
			t.Fatalf("%s: member %d is %q, want %q", when, i, cname(h.Name), e.Name)
		}
		if e.Link != "" {
			if cname(h.Realname) != e.Link {
				t.Fatalf("%s: link %q to %q, want %q", when, e.Name, cname(h.Realname), e.Link)
			}
			continue
		}
		if e.Dir {
			continue
		}
		b, err := bytesOf(t, m.Path, h)
		if err != nil {
			t.Fatalf("%s: DecompresBytes(%q): %v", when, e.Name, err)
		}
		if !bytes.Equal(b, e.Body) {
			t.Fatalf("%s: %q: %s", when, e.Name, Diff(e.Body, b))
		}
	}
}

// historySingle: one add to an existing archive, larger bodies.
func historySingle(t *pbt.T) {
	fresh(t)
	m := &Model{Path: "m.lzh"}
	for !m.Exists {
		m = drawBase(t, "m.lzh")
		if !m.Exists {
			l := lha.NewLha("m.lzh")
			runOp(t, l, m, -1)
		}
	}
	t.NonTrivial()
	runOp(t, lha.NewLha("m.lzh"), m, 0)
}

// historySFX: adding to a self-extracting archive makes a plain one beside it.
func historySFX(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	fs = drawMembers(t, 1+t.Intn(3), ForeignOpt{Flat: true, SFX: true})
	pre := noise(t, t.Intn(5000))
	for i := range pre {
		if pre[i] == '-' {
			pre[i] = '.'
		}
	}
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	raw := append(append([]byte{}, pre...), lharef.Archive(ms...)...)
	sfx := []string{"self.exe", "SELF.COM", "self.x"}[t.Intn(3)]
	writeFile(t, sfx, raw)
	body := Content(t, false)
	level := t.Intn(3)
	t.Describe("adding to %s with %d members behind %d bytes of program", sfx, len(fs), len(pre))
	t.NonTrivial()
	l := lha.NewLha(sfx)
	var err error
	how := t.Intn(3)
	if how > 0 {
		writeFile(t, "zz-added", body)
	}
	t.Lib("adding", func() {
		switch how {
		case 0:
			err = l.CompressBytes("zz-added", body, 5, level)
		case 1:
			err = l.Compress("zz-added", 5, level)
		default:
			l.CompressMethod, l.HeaderLevel = 5, level
			l.CmdFilev, l.CmdFilec = []string{"zz-added"}, 1
			err = lha.CommandAdd(sfx, l)
		}
	})
	if err != nil {
		t.Fatalf("adding (way %d): %v", how, err)
	}
	if how > 0 && !bytes.Equal(readFile("zz-added"), body) {
		t.Fatalf("the file added was changed")
	}
	if !bytes.Equal(readFile(sfx), raw) {
		t.Fatalf("the self-extracting archive was changed")
	}
	out := strings.TrimSuffix(sfx, filepath.Ext(sfx)) + ".lzh"
	nraw, err := os.ReadFile(out)
	if err != nil {
		t.Fatalf("no new archive: %v", err)
	}
	nms, perr := lharef.ParseArchive(nraw)
	if perr != nil {
		t.Fatalf("the new archive is not well formed: %v", perr)
	}
	if len(nms) != len(fs)+1 {
		t.Fatalf("%d members in the new archive, want %d", len(nms), len(fs)+1)
	}
	off := 0
	for i, f := range fs {
		n := len(f.M.Bytes())
		if !bytes.Equal(nraw[off:off+n], f.M.Bytes()) {
			t.Fatalf("member %d was changed", i)
		}
		off += n
	}
	wantData(t, nms[len(fs)], 5, body)
}
