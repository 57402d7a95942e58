package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:     "C10",
		Userns: true,
		Rule:   "Archives of 1 to 7 members (files of every method and header level, directories, symbolic links, hostile names with .., absolute paths, empty components, repeated names) are extracted with CommandExtract (all or a selection) or Decompress into the working directory or an extraction directory that may already hold files, links and directories. A third of the instances extracted another archive elsewhere before, half of them without success. The whole scratch tree is recorded before and after and compared with a model: inside the directory exactly the members, outside nothing changed. Non-trivial: the archive holds at least one member to be extracted.",
		Setup:  setup,
		Sections: []pbt.Section{
			{Name: "files", Quick: 7500, Thorough: 50000, Run: extractFiles},
			{Name: "tree", Quick: 7500, Thorough: 50000, Run: extractTree},
			{Name: "each", Quick: 4500, Thorough: 30000, Run: extractEach},
			{Name: "hostile", Quick: 12000, Thorough: 80000, Run: extractHostile},
		},
	})
}

// Node is one entry of a recorded tree.
type Node struct {
	Kind  byte // f, d, l, o(ther)
	Data  string
	Perm  os.FileMode
	MTime int64 // not for directories unless asked
}

func (n Node) String() string {
	switch n.Kind {
	case 'f':
		return fmt.Sprintf("file %s mode %o time %d", Show([]byte(n.Data)), n.Perm, n.MTime)
	case 'd':
		return fmt.Sprintf("directory mode %o", n.Perm)
	case 'l':
		return fmt.Sprintf("link to %q", n.Data)
	}
	return "other"
}

// scan records a tree; symbolic links are not followed.
func scan(root string) map[string]Node {
	out := map[string]Node{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if fi != nil && fi.IsDir() {
				os.Chmod(p, 0700)
			}
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		n := Node{Perm: fi.Mode().Perm() | fi.Mode()&(os.ModeSetuid|os.ModeSetgid|os.ModeSticky)}
		switch {
		case fi.IsDir():
			n.Kind = 'd'
		case fi.Mode()&os.ModeSymlink != 0:
			n.Kind, n.Perm = 'l', 0
			n.Data, _ = os.Readlink(p)
		case fi.Mode().IsRegular():
			n.Kind, n.MTime = 'f', fi.ModTime().Unix()
			b, err := os.ReadFile(p)
			if err != nil {
				os.Chmod(p, 0600)
				b, _ = os.ReadFile(p)
				os.Chmod(p, n.Perm)
			}
			n.Data = string(b)
		default:
			n.Kind = 'o'
		}
		out[rel] = n
		return nil
	})
	return out
}

// sameTree compares two recorded trees except for the paths skip accepts.
func sameTree(t *pbt.T, what string, want, got map[string]Node, skip func(string) bool) {
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		if skip == nil || !skip(k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case !okw:
			t.Fatalf("%s: %q was made: %v", what, k, g)
		case !okg:
			t.Fatalf("%s: %q is not there; want %v", what, k, w)
		case w != g:
			if w.Kind == 'f' && g.Kind == 'f' && w.Data != g.Data {
				t.Fatalf("%s: content of %q: %s", what, k, Diff([]byte(w.Data), []byte(g.Data)))
			}
			t.Fatalf("%s: %q is %v, want %v", what, k, g, w)
		}
	}
}

// place is where an extraction goes.
type place struct {
	root    string // the scratch tree
	archive string // absolute
	cwd     string // relative to root
	dir     string // ExtractDirectory
	target  string // relative to root
}

// drawPlace makes the directories around an extraction and enters the working directory.
func drawPlace(t *pbt.T, raw []byte) *place {
	root, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	p := &place{root: root, cwd: "work"}
	mustDir("work")
	mustDir("outside/deep")
	putFile("outside/secret", []byte("secret"), 0640, 1000000001)
	putFile("outside/deep/f", []byte("deep secret"), 0600, 1000000003)
	putFile("secret", []byte("top secret"), 0644, 1000000005)
	writeFile(t, "a.lzh", raw)
	p.archive = filepath.Join(root, "a.lzh")
	if t.OneIn(5) {
		os.Rename("a.lzh", "work/zz-archive.lzh")
		p.archive = "zz-archive.lzh"
	}
	p.target = p.cwd
	switch t.Weighted(5, 2, 1, 1, 1) {
	case 1:
		mustDir("work/out")
		p.dir, p.target = "out", "work/out"
	case 2:
		mustDir("work/out")
		p.dir, p.target = filepath.Join(root, "work/out"), "work/out"
	case 3:
		p.dir, p.target = "not/yet/there", "work/not/yet/there"
		t.Label("extraction directory to be made")
	case 4:
		mustDir("work/out")
		p.dir, p.target = "out/", "work/out"
	}
	if p.dir != "" {
		t.Label("extraction directory")
	}
	if err := os.Chdir("work"); err != nil {
		panic(err)
	}
	return p
}

// inside tells whether a path of the recorded tree is in the target.
func (p *place) inside(k string) bool {
	return k != p.target && strings.HasPrefix(k+"/", p.target+"/")
}

// parents tells whether a path is one of the directories made for the target.
func (p *place) parents(k string) bool {
	return strings.HasPrefix(p.target+"/", k+"/")
}

func last(name string) string {
	name = strings.TrimRight(name, "/")
	return name[strings.LastIndex(name, "/")+1:]
}

func unixOwned(f *Foreign) bool { return f.M.OS == 'U' || f.M.OS == 'K' || f.M.OS == 'X' }

// wantNode is what extraction makes of a file member.
func wantNode(f *Foreign) Node {
	n := Node{Kind: 'f', Data: string(f.Body), MTime: f.MTime, Perm: 0644}
	if unixOwned(f) && f.HasOS {
		n.Perm = os.FileMode(f.Mode) & 0777
	}
	return n
}

// equalNode compares, leaving out permissions that were not recorded.
func fixPerm(got map[string]Node, key string, f *Foreign, want *Node) {
	g, ok := got[key]
	if !ok {
		return
	}
	if !(unixOwned(f) && f.HasOS) {
		want.Perm = g.Perm
	} else {
		g.Perm &= 0777 // the bits above are the system's business
		got[key] = g
	}
}

// usedBefore makes, now and then, the instance extract another archive in
// another directory first, perhaps one that fails half way.
func usedBefore(t *pbt.T, l *lha.Lha, p *place) bool {
	if !t.OneIn(3) {
		return false
	}
	t.Label("instance used before")
	back, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	mustDir(filepath.Join(p.root, "elsewhere"))
	if err := os.Chdir(filepath.Join(p.root, "elsewhere")); err != nil {
		panic(err)
	}
	defer func() {
		if err := os.Chdir(back); err != nil {
			panic(err)
		}
	}()
	var ms []*lharef.Member
	for _, n := range []string{"aa", "bb", "dd"} {
		f := drawForeign(t, ForeignOpt{Flat: true, Levels: []int{2, 1, 3}, Methods: []string{"-lh0-"}, Plain: true}, "x")
		f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
		f.M.Method, f.M.OS = "-lhd-", 'U'
		setName(f, n+"/", "")
		setMode(f, 0040711)
		ms = append(ms, f.M)
	}
	f := drawForeign(t, ForeignOpt{Flat: true, Plain: true}, "file")
	ms = append(ms, f.M)
	raw := lharef.Archive(ms...)
	fails := t.Bool()
	if fails {
		if len(f.M.Packed) > 0 {
			raw = raw[:len(raw)-1-t.Intn(len(f.M.Packed))-1]
		} else {
			raw = append(raw[:len(raw)-1], 30, 1, 2, 3)
		}
		t.Label("which failed")
	}
	writeFile(t, "other.lzh", raw)
	l.Force = true
	t.Lib("CommandExtract of another archive", func() { _ = lha.CommandExtract("other.lzh", l) })
	t.Describe("the instance extracted another archive elsewhere before (failing %v)", fails)
	return true
}

// extractFiles: distinct names, nothing in the way.
func extractFiles(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	seen := map[string]bool{"aa": true, "dd": true, "out": true, "not": true, "zz-archive.lzh": true, "there-before": true}
	count := 1 + t.Intn(5)
	if t.OneIn(120) {
		count = 100 + t.Intn(200)
		t.Label("hundreds of members")
	}
	for i := 0; i < count; i++ {
		f := drawForeign(t, ForeignOpt{MaxName: []int{40, 200}[t.Weighted(5, 1)]}, "")
		if f.M.NoCRC {
			f.HasOS = false
		}
		b := last(f.Name)
		if seen[b] || b == "" || b == "." || b == ".." {
			continue
		}
		seen[b] = true
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return
	}
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	p := drawPlace(t, lharef.Archive(ms...))
	if p.dir == "" || p.target == "work/out" {
		putFile(filepath.Join(p.dir, "there-before"), []byte("there before"), 0604, 1234567890)
	}
	l := lha.NewLha(p.archive)
	ways := 3
	if usedBefore(t, l, p) {
		ways = 2 // the instance is bound to the other archive
	}
	mustDir("aa")
	mustDir("dd")
	l.ExtractDirectory = p.dir
	l.Force = t.Bool()
	l.IgnoreDirectory = t.OneIn(4)
	want := scan(p.root)
	var picked []*Foreign
	var err error
	t.NonTrivial()
	switch t.Intn(ways) {
	case 0: // everything
		picked = fs
		t.Label("everything")
		t.Describe("CommandExtract of %d members into %q", len(fs), p.target)
		t.Lib("CommandExtract", func() { err = lha.CommandExtract(p.archive, l) })
	case 1: // some
		for _, f := range fs {
			if t.Bool() {
				picked = append(picked, f)
			}
		}
		if len(picked) == 0 {
			picked = fs[:1]
		}
		for _, f := range picked {
			l.CmdFilev = append(l.CmdFilev, f.Name)
		}
		if t.OneIn(3) {
			l.CmdFilev = append(l.CmdFilev, "not in there", last(fs[0].Name)+"x")
		}
		// names that are almost those of members select nothing
		names := map[string]bool{}
		for _, f := range fs {
			names[f.Name] = true
		}
		for _, f := range fs {
			if !t.OneIn(3) {
				continue
			}
			n := f.Name
			d := []string{strings.ToUpper(n), strings.ToLower(n), last(n), "x/" + n, "./" + n, n + "/", n + " ", n[:len(n)-1], "/" + n, "*"}[t.Intn(10)]
			if !names[d] {
				l.CmdFilev = append(l.CmdFilev, d)
				t.Label("a name almost right")
			}
		}
		for i := len(l.CmdFilev) - 1; i > 0; i-- {
			j := t.Intn(i + 1)
			l.CmdFilev[i], l.CmdFilev[j] = l.CmdFilev[j], l.CmdFilev[i]
		}
		l.CmdFilec = len(l.CmdFilev)
		t.Label("a selection")
		t.Describe("CommandExtract of %d of %d members into %q", len(picked), len(fs), p.target)
		t.Lib("CommandExtract", func() { err = lha.CommandExtract(p.archive, l) })
	case 2: // one by its header
		i := t.Intn(len(fs))
		picked = fs[i : i+1]
		hs, herr := headers(t, p.archive)
		if herr != nil || len(hs) != len(fs) {
			t.Fatalf("Headers: %d of %d, %v", len(hs), len(fs), herr)
		}
		t.Label("one by its header")
		t.Describe("Decompress of %q of %d members into %q", fs[i].Name, len(fs), p.target)
		t.Lib("Decompress", func() { err = l.Decompress(hs[i]) })
	}
	if err != nil {
		t.Fatalf("extraction: %v", err)
	}
	got := scan(p.root)
	for _, f := range picked {
		key := filepath.Join(p.target, last(f.Name))
		w := wantNode(f)
		fixPerm(got, key, f, &w)
		want[key] = w
		wantOwner(t, filepath.Join(p.root, key), f)
	}
	sameTree(t, "extraction", want, got, p.parents)
}

var mayChown = -1

// wantOwner checks the owner of an extracted member where this process may
// give files away.
func wantOwner(t *pbt.T, path string, f *Foreign) {
	if mayChown < 0 {
		mayChown = 0
		if p, err := os.CreateTemp("", "own"); err == nil {
			if os.Lchown(p.Name(), 54321, 65535) == nil && os.Lchown(p.Name(), 1, 2) == nil {
				mayChown = 1
			}
			p.Close()
			os.Remove(p.Name())
		}
	}
	if mayChown == 0 || !unixOwned(f) {
		return
	}
	st, err := os.Lstat(path)
	if err != nil {
		return
	}
	if sys := st.Sys().(*syscall.Stat_t); int(sys.Uid) != f.UID || int(sys.Gid) != f.GID {
		t.Fatalf("%q belongs to %d/%d, recorded %d/%d", path, sys.Uid, sys.Gid, f.UID, f.GID)
	}
	t.Label("owner checked")
}

// extractEach: files, directories and links, each by its header, in any order.
func extractEach(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	var ms []*lharef.Member
	for i, n := 0, 1+t.Intn(6); i < n; i++ {
		name := []string{"", "some/where/", "/"}[t.Weighted(4, 1, 1)] + string(rune('m'+i)) + "-" + letters(t, 1+t.Intn(20), "abcdefgh.-_ ")
		f := drawForeign(t, ForeignOpt{Flat: true, Levels: []int{2, 1, 3}, Methods: []string{"-lh0-", "-lh5-", "-lz5-", "-lh1-"}, Plain: true}, "x")
		setName(f, name, "")
		switch t.Weighted(2, 2, 1) {
		case 1:
			f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
			f.M.Method, f.M.OS = "-lhd-", 'U'
			setName(f, name+"/", "")
			setMode(f, 0040000|[]int{0755, 0700, 0775, 0711}[t.Intn(4)])
			t.Label("directory")
		case 2:
			f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
			f.M.Method, f.M.OS = "-lhd-", 'U'
			f.Link = linkTarget(t, "target", "../outside/secret", "/nowhere/at/all")
			setName(f, name, f.Link)
			setMode(f, 0120777)
			t.Label("link")
		}
		fs = append(fs, f)
		if t.OneIn(3) {
			// another file of that name, in another directory
			g := drawForeign(t, ForeignOpt{Flat: true, Levels: []int{2, 1, 3}, Methods: []string{"-lh0-", "-lh5-"}, Plain: true}, "x")
			setName(g, "else/where/"+last(f.Name), "")
			if t.Bool() {
				fs[len(fs)-1] = g
				g = f
			}
			fs = append(fs, g)
			t.Label("same name in two directories")
		}
	}
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	p := drawPlace(t, lharef.Archive(ms...))
	hs, herr := headers(t, p.archive)
	if herr != nil || len(hs) != len(fs) {
		t.Fatalf("Headers: %d of %d, %v", len(hs), len(fs), herr)
	}
	want := scan(p.root)
	one := t.Bool()
	l := lha.NewLha(p.archive)
	order := make([]int, len(fs))
	for i := range order {
		j := t.Intn(i + 1)
		order[i] = order[j]
		order[j] = i
	}
	if len(order) > 1 {
		order = order[:1+t.Intn(len(order))]
	}
	t.NonTrivial()
	t.Describe("%d members %q, each by its header, in order %v, one instance %v, into %q", len(fs), namesOf(fs), order, one, p.target)
	done := map[string]bool{}
	for _, i := range order {
		f := fs[i]
		if done[last(f.Name)] {
			continue
		}
		done[last(f.Name)] = true
		if !one {
			l = lha.NewLha(p.archive)
		}
		l.ExtractDirectory = p.dir
		var err error
		capture(func() { t.Lib("Decompress", func() { err = l.Decompress(hs[i]) }) })
		if err != nil {
			t.Fatalf("Decompress(%q): %v", f.Name, err)
		}
		key := filepath.Join(p.target, last(f.Name))
		got := scan(p.root)
		w := wantNode(f)
		switch {
		case f.Link != "":
			w = Node{Kind: 'l', Data: f.Link}
		case f.M.Method == "-lhd-":
			w = Node{Kind: 'd', Perm: os.FileMode(f.Mode) & 0777}
			st, err := os.Lstat(filepath.Join(p.root, key))
			if err != nil {
				t.Fatalf("Decompress(%q) reports success: %v", f.Name, err)
			}
			if st.ModTime().Unix() != f.MTime {
				t.Fatalf("directory %q has time %d, recorded %d", f.Name, st.ModTime().Unix(), f.MTime)
			}
		default:
			fixPerm(got, key, f, &w)
		}
		wantOwner(t, filepath.Join(p.root, key), f)
		want[key] = w
		sameTree(t, "after "+f.Name, want, got, p.parents)
	}
}

// linkTarget: one of these, or one that is odd but as good.
func linkTarget(t *pbt.T, plain ...string) string {
	if t.OneIn(3) {
		return []string{"./here", "two//slashes", "slash/", "a/../b", "../x/./y/", "a b", "a*?", "-", "...", strings.Repeat("long/", 30) + "end",
			strings.Repeat("longer/", 1+t.Intn(570)) + "end"}[t.Intn(11)]
	}
	return plain[t.Intn(len(plain))]
}

var treeNames = []string{"aa", "bb", "cc", "dd/aa", "dd/ee/bb", "dd", "dd//cc"}

// extractTree: files, directories and links whose names collide, with force.
func extractTree(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	for i, n := 0, 1+t.Intn(6); i < n; i++ {
		name := treeNames[t.Intn(len(treeNames))]
		f := drawForeign(t, ForeignOpt{Flat: true, Levels: []int{2, 1, 3}, Methods: []string{"-lh0-", "-lh5-", "-lz5-"}, Plain: true}, "x")
		setName(f, name, "")
		switch t.Weighted(4, 2, 2) {
		case 1:
			f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
			f.M.Method, f.M.OS = "-lhd-", 'U'
			setName(f, name+[]string{"/", "//"}[t.Weighted(6, 1)], "")
			setMode(f, 0040000|[]int{0755, 0700, 0775}[t.Intn(3)])
			if t.OneIn(4) {
				f.M.OS = []byte{'M', 'w', 'm', 0}[t.Intn(4)]
				t.Label("directory of another system")
			}
			t.Label("directory")
		case 2:
			f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
			f.M.Method, f.M.OS = "-lhd-", 'U'
			f.Link = linkTarget(t, "target", "../outside/secret", "../outside", "/nowhere/at/all", "aa", ".")
			setName(f, name, f.Link)
			setMode(f, 0120777)
			t.Label("link")
		}
		fs = append(fs, f)
		t.Describe("member %d: %q mode %o link %q", i, f.Name, f.Mode, f.Link)
	}
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	p := drawPlace(t, lharef.Archive(ms...))
	// what is there before
	if p.dir == "" || p.target == "work/out" {
		for i, n := 0, t.Intn(3); i < n; i++ {
			name := filepath.Join(p.dir, []string{"aa", "bb", "cc", "dd"}[t.Intn(4)])
			if _, err := os.Lstat(name); err == nil {
				continue
			}
			switch t.Intn(4) {
			case 0:
				putFile(name, []byte("there before"), 0600, 1222222222)
			case 1:
				mustDir(name)
				os.Chmod(name, []os.FileMode{0755, 0700, 0711, 0750}[t.Intn(4)])
			case 3:
				if err := os.Link(filepath.Join(p.root, "outside/secret"), name); err != nil {
					panic(err)
				}
				t.Label("hard link there before")
			case 2:
				os.Symlink([]string{filepath.Join(p.root, "outside/secret"), filepath.Join(p.root, "outside"), "nothing"}[t.Intn(3)], name)
			}
			t.Label("something there before")
		}
	}
	l := lha.NewLha(p.archive)
	usedBefore(t, l, p)
	l.ExtractDirectory = p.dir
	l.Force = true
	l.IgnoreDirectory = t.OneIn(8)
	want := scan(p.root)
	// the model
	type dirAttr struct {
		key string
		f   *Foreign
	}
	var dirs []dirAttr
	var unowned []dirAttr
	expectErr := ""
	before := scan(p.root)
	if t.OneIn(4) {
		for _, f := range fs {
			switch n := f.Name; t.Intn(5) {
			case 0, 1:
				l.CmdFilev = append(l.CmdFilev, n)
			case 2: // a directory without its slash, a file with one
				if m := strings.TrimRight(n, "/"); m != n {
					l.CmdFilev = append(l.CmdFilev, m)
				} else {
					l.CmdFilev = append(l.CmdFilev, n+"/")
				}
			}
		}
		l.CmdFilec = len(l.CmdFilev)
		if l.CmdFilec > 0 {
			t.Label("a selection")
		}
		t.Describe("selection %q", l.CmdFilev)
	}
	for _, f := range fs {
		key := filepath.Join(p.target, last(f.Name))
		if l.CmdFilec > 0 && !slices.Contains(l.CmdFilev, f.Name) {
			continue
		}
		old, there := want[key]
		if f.M.Method == "-lhd-" && l.IgnoreDirectory {
			continue
		}
		switch {
		case f.Link != "":
			if there && old.Kind == 'd' {
				expectErr = "a link over a directory"
			} else {
				want[key] = Node{Kind: 'l', Data: f.Link}
			}
		case f.M.Method == "-lhd-":
			if there && old.Kind != 'd' {
				expectErr = "a directory over something else"
			} else {
				if !there {
					want[key] = Node{Kind: 'd'}
				}
				dirs = append(dirs, dirAttr{key, f})
			}
		default:
			if there && old.Kind == 'd' {
				expectErr = "a file over a directory"
			} else {
				want[key] = wantNode(f)
				unowned = append(unowned, dirAttr{key, f})
			}
		}
		if expectErr != "" {
			break
		}
	}
	var err error
	t.NonTrivial()
	t.Lib("CommandExtract", func() { err = lha.CommandExtract(p.archive, l) })
	if (err != nil) != (expectErr != "") {
		t.Fatalf("extraction: error %v, expected %q", err, expectErr)
	}
	got := scan(p.root)
	if expectErr != "" {
		t.Label("stopped by %s", expectErr)
	}
	for _, u := range unowned {
		w := want[u.key]
		if w.Kind == 'f' && w.Data == string(u.f.Body) {
			fixPerm(got, u.key, u.f, &w)
			want[u.key] = w
		}
	}
	for _, d := range dirs {
		// a directory several times: any of the recorded permissions will do
		w := want[d.key]
		recorded, ok := false, false
		for _, e := range dirs {
			if e.key == d.key && e.f.M.OS == 'U' {
				recorded = true
				ok = ok || os.FileMode(e.f.Mode)&0777 == got[d.key].Perm
				w.Perm = os.FileMode(e.f.Mode) & 0777
			}
		}
		b, there := before[d.key]
		switch {
		case recorded && (ok || err != nil), !recorded && !there:
			w.Perm = got[d.key].Perm
		case !recorded:
			w.Perm = b.Perm
		}
		want[d.key] = w
	}
	if err == nil {
		for _, d := range dirs {
			st, serr := os.Lstat(filepath.Join(p.root, d.key))
			if serr != nil {
				continue
			}
			ok := false
			for _, e := range dirs {
				if e.key == d.key && e.f.MTime == st.ModTime().Unix() {
					ok = true
				}
			}
			if !ok {
				t.Fatalf("directory %q has time %d, recorded %d", d.key, st.ModTime().Unix(), d.f.MTime)
			}
		}
	}
	sameTree(t, "extraction", want, got, p.parents)
}

// hostileName draws a name made to get out.
func hostileName(t *pbt.T, root string) string {
	if t.OneIn(4) {
		abs := []string{"/outside/secret", "/secret", "/outside/new", "/work/../outside/new", "/outside/deep"}
		return root + abs[t.Intn(len(abs))]
	}
	part := []string{"..", ".", "", "outside", "secret", "deep", "f", "aa", "lnk", "dlnk", "work", "...", "..a", " ", "a.."}
	n := 1 + t.Intn(4)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, part[t.Intn(len(part))])
	}
	s := strings.Join(ps, "/")
	if t.OneIn(8) {
		s += "\x00/../x"
	}
	if t.OneIn(8) {
		s = "/" + s
	}
	return s
}

// putName stores the name in the member, in any of the ways the format has.
func putName(t *pbt.T, m *lharef.Member, name string) {
	sep := []string{"/", "\\", "\xff"}[t.Intn(3)]
	s := strings.ReplaceAll(name, "/", sep)
	if m.Level == 0 {
		if len(s) > 200 {
			s = s[:200]
		}
		m.Name = []byte(s)
		return
	}
	var exts []lharef.ExtHdr
	for _, e := range m.Exts {
		if e.Type != 1 && e.Type != 2 {
			exts = append(exts, e)
		}
	}
	m.Name = nil
	switch t.Intn(4) {
	case 0: // all in the file name header
		exts = append(exts, lharef.ExtHdr{Type: 1, Data: []byte(s)})
	case 1: // directory and file name
		i := strings.LastIndex(s, sep)
		exts = append(exts, lharef.ExtHdr{Type: 1, Data: []byte(s[i+1:])})
		if i >= 0 {
			exts = append(exts, lharef.ExtHdr{Type: 2, Data: []byte(s[:i+1])})
		}
	case 2: // cut anywhere
		i := t.Intn(len(s) + 1)
		exts = append(exts, lharef.ExtHdr{Type: 2, Data: []byte(s[:i])}, lharef.ExtHdr{Type: 1, Data: []byte(s[i:])})
	case 3:
		if m.Level == 1 && len(s) < 200 {
			m.Name = []byte(s)
		} else {
			exts = append(exts, lharef.ExtHdr{Type: 2, Data: []byte(s)})
		}
	}
	m.Exts = exts
}

// extractHostile: nothing outside the target changes, whatever the archive says.
func extractHostile(t *pbt.T) {
	fresh(t)
	root, _ := os.Getwd()
	var ms []*lharef.Member
	for i, n := 0, 1+t.Intn(5); i < n; i++ {
		f := drawForeign(t, ForeignOpt{Flat: true, Methods: []string{"-lh0-", "-lh5-"}, Plain: true}, "x")
		name := hostileName(t, root)
		kind := t.Weighted(5, 2, 3)
		link := ""
		if kind > 0 {
			f.M.Packed, f.M.Orig, f.M.CRC = nil, 0, 0
			f.M.Method, f.M.OS = "-lhd-", 'U'
			if f.M.NoCRC {
				f.M.NoCRC = false
			}
			mode := 0040000 | []int{0777, 0, 0755}[t.Intn(3)]
			if kind == 2 {
				mode = 0120777
				link = []string{"../outside", "../outside/secret", root + "/outside", "..", "/", ".", root + "/secret"}[t.Intn(7)]
				name += "|" + link
			}
			if f.M.Level == 0 {
				f.M.Tail = append([]byte{'U', 0}, w32(1000000000)...)
				f.M.Tail = append(f.M.Tail, w16(mode)...)
				f.M.Tail = append(f.M.Tail, 0, 0, 0, 0)
			} else {
				setMode(f, mode)
			}
		}
		putName(t, f.M, name)
		if f.M.Level == 0 && len(f.M.Header()) > 257 {
			continue
		}
		ms = append(ms, f.M)
		t.Describe("member %d: level %d kind %d %q", i, f.M.Level, kind, strings.ReplaceAll(name, root, "ROOT"))
	}
	if len(ms) == 0 {
		return
	}
	p := drawPlace(t, lharef.Archive(ms...))
	if p.dir == "" || p.target == "work/out" {
		if t.Bool() {
			os.Symlink(filepath.Join(p.root, "outside/secret"), filepath.Join(p.dir, "lnk"))
			os.Symlink(filepath.Join(p.root, "outside"), filepath.Join(p.dir, "dlnk"))
			t.Label("links there before")
		}
		if t.OneIn(4) {
			os.Symlink(filepath.Join(p.root, "outside/secret"), filepath.Join(p.dir, []string{"secret", "f", "aa"}[t.Intn(3)]))
		}
		if t.OneIn(4) {
			mustDir(filepath.Join(p.dir, "deep"))
		}
	}
	want := scan(p.root)
	t.NonTrivial()
	for k, n := 0, 1+t.Intn(2); k < n; k++ {
		l := lha.NewLha(p.archive)
		l.ExtractDirectory = p.dir
		l.Force = t.Weighted(1, 3) == 1
		var err error
		if t.Bool() {
			t.Lib("CommandExtract", func() { err = lha.CommandExtract(p.archive, l) })
		} else {
			hs, _ := headers(t, p.archive)
			for i := range hs {
				h := hs[i]
				t.Lib("Decompress", func() { err = l.Decompress(h) })
			}
		}
		if err == nil {
			t.Label("extracted without error")
		} else {
			t.Label("refused")
		}
	}
	got := scan(p.root)
	sameTree(t, "outside "+p.target, want, got, func(k string) bool {
		return p.inside(k) || (strings.HasPrefix(p.target, "work/not") && p.parents(k) && k != "." && k != "work")
	})
	// nothing below a directory made or found in the target, either
	for k := range got {
		if p.inside(k) && strings.Contains(strings.TrimPrefix(k, p.target+"/"), "/") {
			if _, ok := want[k]; !ok && !strings.HasPrefix(k, "work/out/") {
				t.Fatalf("%q was made in a subdirectory of the target", k)
			}
		}
	}
	if !bytes.Equal([]byte(want["secret"].Data), []byte("top secret")) {
		panic("scan")
	}
}
