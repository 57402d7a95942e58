package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C13",
		Rule:  "Generated archives (every header level, method and system id, directories, links, self-extractors) and generated command lines of the program built from the tree. The listing (short, long, verbose; of everything or of selected members) must be the text a model predicts, up to the width of blanks; printing must give each file's bytes behind its banner; testing, listing, printing and extracting must end with status 0 on a whole archive and 1 with a message on a damaged, cut or missing one; histories of -a, -c, -m, -u, -x, -g, -h, -o must leave what the model of C08 predicts. Non-trivial: an archive with at least one member, or a history.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "list", Quick: 10000, Thorough: 80000, Run: listing},
			{Name: "large", Quick: 3, Thorough: 40, Run: listLarge},
			{Name: "print", Quick: 2000, Thorough: 16000, Run: printing},
			{Name: "status", Quick: 2500, Thorough: 20000, Run: exitStatus},
			{Name: "extract", Quick: 1250, Thorough: 10000, Run: cliExtract},
			{Name: "history", Quick: 1500, Thorough: 12000, Run: cliHistory},
		},
	})
}

// perms is the first column of the listing.
func perms(os byte, mode int) string {
	b := []byte("----------")
	set := func(i, bit int, c byte) {
		if mode&bit != 0 {
			b[i] = c
		}
	}
	switch os {
	case 'U':
		switch mode & 0170000 {
		case 0040000:
			b[0] = 'd'
		case 0120000:
			b[0] = 'l'
		}
		for i := 0; i < 3; i++ {
			set(1+3*i, 0400>>uint(3*i), 'r')
			set(2+3*i, 0200>>uint(3*i), 'w')
			set(3+3*i, 0100>>uint(3*i), 'x')
		}
		set(3, 04000, 's')
		set(6, 02000, 's')
		set(9, 01000, 't')
		return string(b)
	case 'K', 'X':
		for i, c := range []byte("dsewrewr") {
			set(i, 0200>>uint(i), c)
		}
		return string(b[:8])
	}
	name := map[byte]string{0: "generic", 'C': "CP/M", 'F': "FLEX", '9': "OS-9", 'M': "MS-DOS", 'm': "Mac OS", '2': "OS/2", 'H': "Human68K", '3': "OS-386", 'R': "Runser", 'T': "TownsOS", 'J': "JAVA"}[os]
	if name == "" {
		name = "unknown"
	}
	return "[" + name + "]"
}

func sizes(packed, orig int, long bool) string {
	s := ""
	if long {
		s = fmt.Sprintf("%d ", packed)
	}
	if orig == 0 {
		return s + "0 ******"
	}
	return s + fmt.Sprintf("%d %.1f%%", orig, float64(packed)*100/float64(orig))
}

// squeeze makes runs of blanks one blank and drops those at the ends of lines.
func squeeze(s string) string {
	var b strings.Builder
	blank := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == ' ':
			blank = true
			continue
		case s[i] == '\n':
		case blank:
			b.WriteByte(' ')
		}
		blank = false
		b.WriteByte(s[i])
	}
	return b.String()
}

// wantListing is the text of a listing without its title.
func wantListing(fs []*Foreign, long, verbose bool) (lines string, total string) {
	var b strings.Builder
	packed, orig := 0, 0
	for _, f := range fs {
		name := f.Name
		if f.Link != "" {
			name += " -> " + f.Link
		}
		if verbose {
			fmt.Fprintf(&b, "%s\n", name)
		}
		b.WriteString(perms(f.M.OS, f.Mode) + " ")
		if f.M.OS == 'U' || f.M.OS == 'K' || f.M.OS == 'X' {
			if f.User != "" {
				fmt.Fprintf(&b, "%5.5s/", f.User)
			} else {
				fmt.Fprintf(&b, "%5d/", f.UID)
			}
			if f.Group != "" {
				fmt.Fprintf(&b, "%-5.5s ", f.Group)
			} else {
				fmt.Fprintf(&b, "%-5d ", f.GID)
			}
		}
		b.WriteString(sizes(f.M.PackedSize(), f.M.Orig, long))
		if long {
			if f.M.NoCRC {
				fmt.Fprintf(&b, " %s ****", f.M.Method)
			} else {
				fmt.Fprintf(&b, " %s %04x", f.M.Method, f.M.CRC)
			}
		}
		if verbose {
			fmt.Fprintf(&b, " [%d]\n", f.M.Level)
		} else {
			fmt.Fprintf(&b, " %s\n", name)
		}
		packed += f.M.PackedSize()
		orig += f.M.Orig
	}
	s := "s"
	if len(fs) == 1 {
		s = ""
	}
	return b.String(), fmt.Sprintf(" Total %d file%s %s\n", len(fs), s, sizes(packed, orig, long))
}

// drawEntries draws files, directories and links as another archiver keeps them.
func drawEntries(t *pbt.T) []*Foreign {
	if t.OneIn(100) {
		t.Label("hundreds of members")
		return drawMembers(t, 100+t.Intn(300), ForeignOpt{})
	}
	if t.Bool() {
		return drawMembers(t, t.Weighted(1, 4, 3, 2, 1), ForeignOpt{Long: true})
	}
	var fs []*Foreign
	for i, n := 0, 1+t.Intn(4); i < n; i++ {
		f := drawForeign(t, ForeignOpt{Levels: []int{2, 1, 3}, Methods: []string{"-lh0-", "-lh5-"}}, fmt.Sprintf("%s-%d", BaseName(t, 1+t.Intn(8)), i))
		switch t.Intn(3) {
		case 1:
			makeDir(f)
			t.Label("directory")
		case 2:
			makeLink(f, linkTarget(t, "target", "../up/one", "/abs/path", "a b"))
			t.Label("symbolic link")
		}
		f.M.Header()
		fs = append(fs, f)
	}
	return fs
}

func makeDir(f *Foreign) {
	f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
	f.M.Method = "-lhd-"
	f.M.OS = 'U'
	setName(f, f.Name+"/", "")
	setMode(f, 0040755)
}

func makeLink(f *Foreign, target string) {
	f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
	f.M.Method = "-lhd-"
	f.M.OS = 'U'
	f.Link = target
	setName(f, f.Name, f.Link)
	setMode(f, 0120777)
}

func listing(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	archive := []string{"l.lzh", "l.lha", "l"}[t.Intn(3)]
	var raw []byte
	if t.OneIn(10) {
		fs = drawMembers(t, 1+t.Intn(3), ForeignOpt{SFX: true})
		for fs[0].M.Method[1] == 'm' {
			fs[0] = drawForeign(t, ForeignOpt{SFX: true, Methods: []string{"-lh5-"}}, "front")
		}
		archive = []string{"l.exe", "L.COM", "l.x"}[t.Intn(3)]
		for _, c := range noise(t, 1+t.Intn(3000)) {
			if c == '-' {
				c = '+'
			}
			raw = append(raw, c)
		}
		t.Label("self-extractor")
	} else {
		fs = drawEntries(t)
		if t.OneIn(6) { // listing does not unpack what is announced
			for _, f := range fs {
				if f.M.Method != "-lhd-" && t.Bool() {
					f.M.Orig = int([]int64{1 << 31, 3 << 30, 1<<32 - 1, 1<<31 - 1}[t.Intn(4)])
					t.Label("gigabytes announced")
				}
			}
		}
	}
	for _, f := range fs {
		raw = append(raw, f.M.Bytes()...)
		t.NonTrivial()
	}
	raw = append(raw, 0)
	writeFile(t, archive, raw)
	long, verbose := t.Bool(), t.Bool()
	var out []byte
	quiet := false
	if t.OneIn(5) {
		t.Label("program")
		args := []string{"-archive", archive, "-l"}
		if long {
			args[2] = "-lv"
		}
		if verbose {
			args = append(args, "-v")
		}
		code, o, e := runCLI(t, nil, args...)
		if code != 0 {
			t.Fatalf("%q: exit status %d: %s", args, code, firstLine(e))
		}
		out = o
		t.Describe("%q", args)
	} else {
		l := lha.NewLha(archive)
		l.Verbose, l.VerboseListing = verbose, long
		quiet = t.OneIn(4)
		if len(fs) > 1 && t.OneIn(4) { // a selection
			var some []*Foreign
			for _, f := range fs {
				if t.Bool() {
					some = append(some, f)
					l.CmdFilev = append(l.CmdFilev, f.Name)
				}
			}
			if len(some) > 0 {
				fs = some
				l.CmdFilec = len(l.CmdFilev)
				t.Label("selection")
			}
		}
		t.Describe("CommandList long %v verbose %v quiet %v selection %q", long, verbose, quiet, l.CmdFilev)
		var err error
		lha.Quiet = quiet
		out = capture(func() {
			t.Lib("CommandList", func() { err = lha.CommandList(archive, l) })
		})
		lha.Quiet = true
		if err != nil {
			t.Fatalf("CommandList: %v", err)
		}
	}
	t.Label("long %v verbose %v", long, verbose)
	lines, total := wantListing(fs, long, verbose)
	got := squeeze(string(out))
	if !quiet {
		// title and bar
		p := strings.SplitN(got, "\n", 3)
		if len(p) < 3 || !strings.HasPrefix(p[0], "PERMISSION") || strings.Trim(p[1], "- ") != "" {
			t.Fatalf("the listing does not start with its title: %q", got)
		}
		title := "PERMISSION UID GID SIZE RATIO STAMP"
		if long {
			title = "PERMISSION UID GID PACKED SIZE RATIO METHOD CRC STAMP"
		}
		if verbose {
			title += " LV"
		} else {
			title += " NAME"
		}
		if strings.Join(strings.Fields(p[0]), " ") != title {
			t.Fatalf("the title of the listing is %q, want the columns %q", p[0], title)
		}
		bar := p[1] + "\n"
		lines = lines + bar + total
		got = p[2]
	}
	if want := squeeze(lines); got != want {
		t.Fatalf("listing (long %v, verbose %v): %s", long, verbose, Diff([]byte(want), []byte(got)))
	}
}

func archiveOf(fs []*Foreign) []byte {
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	return lharef.Archive(ms...)
}

// printing: -p writes each file behind a banner.
func printing(t *pbt.T) {
	fresh(t)
	fs := drawEntries(t)
	writeFile(t, "p.lzh", archiveOf(fs))
	var want []byte
	banner := true
	var out []byte
	prog := t.Bool()
	l := lha.NewLha("p.lzh")
	if !prog {
		banner = t.Bool()
		l.OutputToStdout = true
		if len(fs) > 1 && t.OneIn(3) {
			var some []*Foreign
			for _, f := range fs {
				if t.Bool() {
					some = append(some, f)
					l.CmdFilev = append(l.CmdFilev, f.Name)
				}
			}
			if len(some) > 0 {
				fs = some
				l.CmdFilec = len(l.CmdFilev)
				t.Label("selection")
			}
		}
	}
	for _, f := range fs {
		if f.M.Method == "-lhd-" {
			continue
		}
		t.NonTrivial()
		if banner {
			want = append(want, "::::::::\n"+last(f.Name)+"\n::::::::\n"...)
		}
		want = append(want, f.Body...)
	}
	if prog {
		t.Label("program")
		code, o, e := runCLI(t, nil, "-archive", "p.lzh", "-p")
		if code != 0 {
			t.Fatalf("-p: exit status %d: %s", code, firstLine(e))
		}
		out = o
	} else {
		var err error
		lha.Quiet = !banner
		out = capture(func() {
			t.Lib("CommandExtract to standard output", func() { err = lha.CommandExtract("p.lzh", l) })
		})
		lha.Quiet = true
		if err != nil {
			t.Fatalf("CommandExtract: %v", err)
		}
	}
	t.Describe("printing %q banner %v", namesOf(fs), banner)
	if !bytes.Equal(out, want) {
		t.Fatalf("printing %q: %s", namesOf(fs), Diff(want, out))
	}
}

// exitStatus: what the program says about whole, damaged, cut and missing archives.
func exitStatus(t *pbt.T) {
	fresh(t)
	d := drawWhole(t)
	raw := append([]byte{}, d.Raw...)
	kind := t.Weighted(3, 2, 2, 2, 1, 1)
	cmd := []string{"-l", "-lv", "-t", "-p", "-e", "-a"}[t.Intn(6)]
	args := []string{cmd}
	if cmd == "-a" {
		writeFile(t, "added", []byte("added"))
		here, _ := os.Getwd()
		args = append(args, filepath.Join(here, "added"))
		if kind == 2 {
			kind = 0
		}
	}
	for _, o := range []string{"-f", "-v"} {
		if t.OneIn(3) {
			args = append(args, o)
		}
	}
	content := cmd == "-t" || cmd == "-p" || cmd == "-e"
	archive := "s.lzh"
	want := 1
	k := t.Intn(len(d.Ms))
	m := d.Ms[k]
	switch kind {
	case 0:
		want = 0
		writeFile(t, archive, raw)
	case 1: // a changed byte in a header with a checksum
		at := d.At[k]
		if m.Level == 0 || m.Level == 1 {
			at += 2 + t.Intn(20)
			if at == d.At[k]+20 { // the level
				at--
			}
		} else {
			at += 7 + t.Intn(13)
		}
		raw[at] ^= byte(1 + t.Intn(255))
		writeFile(t, archive, raw)
	case 2: // the recorded CRC does not fit
		if !content || m.NoCRC || len(m.Packed) == 0 {
			want = 0
			if content {
				t.Label("nothing damaged")
				writeFile(t, archive, raw)
				break
			}
		}
		x := *m
		if !m.NoCRC {
			x.CRC ^= uint16(1 + t.Intn(65535))
		}
		raw = append(append(append([]byte{}, raw[:d.At[k]]...), x.Bytes()...), raw[d.At[k]+len(m.Bytes()):]...)
		writeFile(t, archive, raw)
	case 3: // cut inside the packed data
		n := len(m.Packed)
		if n == 0 {
			want = 0
			writeFile(t, archive, raw)
			break
		}
		raw = raw[:d.At[k]+m.Extra+t.Intn(n)]
		writeFile(t, archive, raw)
	case 4: // no archive
		if cmd == "-a" {
			want = 0
		}
	case 5: // a directory
		mustDir(archive)
	}
	name := []string{"whole", "header damaged", "CRC does not fit", "cut", "missing", "directory"}[kind]
	t.Label("%s", name)
	t.NonTrivial()
	t.Describe("%s on an archive that is %s (member %d, level %d %s)", args, name, k, m.Level, m.Method)
	here, _ := os.Getwd()
	path := filepath.Join(here, archive)
	mustDir("out")
	os.Chdir("out")
	code, _, e := runCLI(t, nil, append([]string{"-archive", path}, args...)...)
	os.Chdir(here)
	if code != want {
		t.Fatalf("%s on an archive that is %s: exit status %d, want %d; it says %q", args, name, code, want, firstLine(e))
	}
	if want == 1 && len(bytes.TrimSpace(e)) == 0 {
		t.Fatalf("%s on an archive that is %s: no message", args, name)
	}
}

// cliExtract: -e puts every member in the working directory.
func cliExtract(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	seen := map[string]bool{}
	for _, f := range drawMembers(t, 1+t.Intn(4), ForeignOpt{Plain: true}) {
		if n := last(f.Name); !seen[n] && plainName(n) {
			seen[n] = true
			fs = append(fs, f)
			t.NonTrivial()
		}
	}
	writeFile(t, "x.lzh", archiveOf(fs))
	mustDir("out")
	here, _ := os.Getwd()
	os.Chdir("out")
	var args []string
	if t.Bool() {
		args = []string{"-f"}
	}
	if t.OneIn(3) {
		args = append(args, "-v")
	}
	code, _, e := runCLI(t, nil, append([]string{"-archive", "../x.lzh", "-e"}, args...)...)
	os.Chdir(here)
	t.Describe("-e %q of %q", args, namesOf(fs))
	if code != 0 {
		t.Fatalf("-e: exit status %d: %s", code, firstLine(e))
	}
	got := scan("out")
	for _, f := range fs {
		n := last(f.Name)
		b, err := os.ReadFile("out/" + n)
		if err != nil {
			os.Chmod("out/"+n, 0600)
			b, err = os.ReadFile("out/" + n)
		}
		if err != nil {
			t.Fatalf("-e: %q was not extracted: %v", f.Name, err)
		}
		if !bytes.Equal(b, f.Body) {
			t.Fatalf("-e: %q: %s", f.Name, Diff(f.Body, b))
		}
	}
	n := 0
	for k := range got {
		if k != "." && k != "" {
			n++
		}
	}
	if n != len(fs) {
		t.Fatalf("-e: %d entries extracted, the archive has %d", n, len(fs))
	}
}

// cliHistory: additions by the program against the model of C08.
func cliHistory(t *pbt.T) {
	fresh(t)
	archive := []string{"m.lzh", "arch/m.lha"}[t.Intn(2)]
	mustDir(filepath.Dir(archive))
	m := drawBase(t, archive)
	t.NonTrivial()
	for i, n := 0, 1+t.Intn(4); i < n; i++ {
		level, method, generic := 2, 5, true
		args := []string{"-archive", archive}
		l := lha.NewLha(archive) // holds the options for the model
		l.SortContents = true
		if t.OneIn(3) {
			g := []int{0, 1, 2, 5}[t.Intn(4)]
			args = append(args, "-g", fmt.Sprint(g))
			level = g
			if g == 5 {
				level, generic = 0, false
			}
		}
		if t.OneIn(3) {
			method = 5 + t.Intn(3)
			level = 0
			args = append(args, "-o", fmt.Sprint(method))
		}
		if t.OneIn(3) {
			h := t.Intn(2)
			level = h
			args = append(args, "-h", fmt.Sprint(h))
		}
		if t.OneIn(4) {
			args = append(args, "-v")
		}
		auto := m.Exists && t.OneIn(6)
		var files []opFile
		if auto { // -u without a file: what is newer in the working directory
			l.UpdateIfNewer = true
			files = autoUpdate(t, m, level, method)
			args = append(args, "-u")
			t.Label("automatic update")
		} else {
			f := newFile(t, pool[t.Intn(len(pool))], []string{"", "in"}[t.Intn(2)], level, method)
			files = []opFile{f}
			switch t.Weighted(16, 2, 2, 2) {
			case 1:
				os.Remove(f.path)
				files[0].e = nil
				t.Label("missing input")
			case 2:
				os.Remove(f.path)
				files = drawTree(t, level, method)
				t.Label("directory without what is in it")
			case 3:
				if generic { // has no mode to tell a link by
					break
				}
				os.Remove(f.path)
				p := "link-" + f.name
				target := []string{"alpha", "nowhere", "../elsewhere/x"}[t.Intn(3)]
				if err := os.Symlink(target, p); err != nil {
					panic(err)
				}
				st, _ := os.Lstat(p)
				s := st.ModTime().Unix()
				files[0] = opFile{p, p, &Entry{Name: p, Link: target, Level: level, MTime: s, Lo: s, Hi: s}}
				t.Label("symbolic link")
			}
			what := files[0].path
			if l.NewArchive = t.OneIn(5); l.NewArchive {
				args = append(args, "-c", what)
				t.Label("re-create")
				if n := pool[t.Intn(len(pool))]; t.OneIn(3) && n != f.name {
					g := newFile(t, n, []string{"", "in"}[t.Intn(2)], level, method)
					args = append(args, "-a", g.path)
					files = append(files, g)
					sort.SliceStable(files, func(i, j int) bool { return files[i].path < files[j].path }) // as the program does
					t.Label("two files")
				}
			} else {
				args = append(args, "-a", what)
			}
			if l.UpdateIfNewer = t.OneIn(3); l.UpdateIfNewer {
				args = append(args, "-u")
				t.Label("update")
			}
			if t.OneIn(5) {
				x := drawExcludes(t, files)
				l.ExcludeFiles = x
				args = append(args, "-x", strings.Join(x, ","))
				t.Label("exclude")
			}
		}
		if l.DeleteAfterAppend = t.OneIn(4); l.DeleteAfterAppend {
			args = append(args, "-m")
			t.Label("move")
		}
		for _, f := range files {
			if f.e != nil {
				f.e.Generic = generic
			}
		}
		t.Describe("op %d: %q, files %q", i, args, pathsOf(files))
		before := m.snapshot()
		code, _, e := runCLI(t, nil, args...)
		if code != 0 {
			t.Fatalf("op %d: %q: exit status %d: %s", i, args, code, firstLine(e))
		}
		if auto && len(files) == 0 {
			if !bytes.Equal(readFile(archive), before.raw) {
				t.Fatalf("op %d: nothing to update, but the archive changed", i)
			}
			continue
		}
		m.apply(t, l, before, files, i)
		cleanup(m, files)
	}
	// an addition that cannot work
	if t.OneIn(4) {
		putFile("in.txt", []byte("content"), 0644, 1234567890)
		args := []string{"-archive", "no/such/dir/m.lzh", "-a", "in.txt"}
		if t.Bool() {
			args = append(args, "-m")
		}
		code, _, e := runCLI(t, nil, args...)
		if code != 1 || len(bytes.TrimSpace(e)) == 0 {
			t.Fatalf("%q: exit status %d, message %q; want 1 and a message", args, code, firstLine(e))
		}
		if !bytes.Equal(readFile("in.txt"), []byte("content")) {
			t.Fatalf("%q: the input was changed", args)
		}
	}
}

func pathsOf(files []opFile) []string {
	var out []string
	for _, f := range files {
		out = append(out, f.path)
	}
	return out
}

// autoUpdate puts files of the names of some members, and others, in the
// working directory and returns the ones an automatic update has to look at.
func autoUpdate(t *pbt.T, m *Model, level, method int) []opFile {
	here := map[string]opFile{}
	for _, n := range pool {
		if t.OneIn(2) {
			f := newFile(t, n, "", level, method)
			if i := m.find(n); i >= 0 && t.Bool() { // about as old as the member
				d := int64(2 * (t.Intn(3) - 1))
				at := m.List[i].MTime + d
				if at >= 315532800 && at < 4000000000 && at%2 == 0 {
					f.e.MTime, f.e.Lo, f.e.Hi = at, at, at
					os.Chtimes(f.path, tm(at), tm(at))
				}
			}
			here[n] = f
		}
	}
	var files []opFile
	for _, e := range m.List {
		if f, ok := here[e.Name]; ok && e.Link == "" && !e.Dir {
			files = append(files, f)
			delete(here, e.Name)
		}
	}
	for _, f := range here { // not in the archive: not to be touched
		os.Remove(f.path)
		putFile("unrelated-"+f.name, f.e.Body, 0644, f.e.MTime)
	}
	return files
}

// listLarge: members of gigabytes (holes in the archive file) are listed with
// their sizes, and what follows them is found.
func listLarge(t *pbt.T) {
	fresh(t)
	var fs []*Foreign
	n := 2 + t.Intn(3)
	big := t.Intn(n - 1)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := drawForeign(t, ForeignOpt{Plain: true, Flat: true, Methods: []string{"-lh0-", "-lh5-"}}, fmt.Sprintf("%c%d", 'a'+t.Intn(26), i))
		if seen[f.Name] || f.M.NoCRC {
			t.Label("a name twice")
			return
		}
		seen[f.Name] = true
		if i == big {
			f.M.Method = "-lh0-"
			size := 1<<31 - 2 + t.Intn(5)
			if t.Bool() {
				size = 1<<31 + t.Intn(1<<31-100000)
			}
			f.Body, f.M.Packed, f.M.Orig, f.M.Far = nil, nil, size, size
		}
		fs = append(fs, f)
	}
	file, err := os.Create("big.lzh")
	if err != nil {
		panic(err)
	}
	defer func() {
		file.Close()
		os.Remove("big.lzh")
	}()
	at := int64(0)
	for _, f := range fs {
		b := f.M.Bytes()
		if _, err := file.WriteAt(b, at); err != nil {
			t.Label("no such large files here: %v", err)
			return
		}
		at += int64(len(b))
		if f.M.Far > 0 {
			at += int64(f.M.Far)
		}
	}
	if _, err := file.WriteAt([]byte{0}, at); err != nil {
		t.Label("no such large files here: %v", err)
		return
	}
	t.NonTrivial()
	t.Describe("%q with %q of %d bytes (level %d)", namesOf(fs), fs[big].Name, fs[big].M.Orig, fs[big].M.Level)
	long := t.Bool()
	args := []string{"-archive", "big.lzh", "-l"}
	if long {
		args[2] = "-lv"
	}
	code, out, e := runCLI(t, nil, args...)
	if code != 0 {
		t.Fatalf("%q: exit status %d: %s", args, code, firstLine(e))
	}
	lines, total := wantListing(fs, long, false)
	p := strings.SplitN(squeeze(string(out)), "\n", 3)
	if len(p) < 3 {
		t.Fatalf("%q prints %q", args, out)
	}
	if want := squeeze(lines + p[1] + "\n" + total); p[2] != want {
		t.Fatalf("%q: %s", args, Diff([]byte(want), []byte(p[2])))
	}
	// what follows
	f := fs[n-1]
	l := lha.NewLha("big.lzh")
	l.Force = true
	l.ExtractDirectory = "out"
	l.CmdFilev, l.CmdFilec = []string{f.Name}, 1
	capture(func() { t.Lib("CommandExtract", func() { err = lha.CommandExtract("big.lzh", l) }) })
	if err != nil {
		t.Fatalf("extracting %q: %v", f.Name, err)
	}
	os.Chmod("out/"+last(f.Name), 0600)
	if got, err := os.ReadFile("out/" + last(f.Name)); err != nil || !bytes.Equal(got, f.Body) {
		t.Fatalf("%q behind a member of %d bytes: %v, %s", f.Name, fs[big].M.Orig, err, Diff(f.Body, got))
	}
}
