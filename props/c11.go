package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C11",
		Rule:  "Archives of 1 to 8 members (files and symbolic links) are extracted by the program, run in a process of its own, into a directory where files, links, directories and fifos of those names exist, with a generated sequence of answers on standard input (yes, no, all, skip, empty, nonsense, end of input), with or without force or no-execute; a model of the questions says what each file must be afterwards. Reading operations and dry runs of the library and of the program are run on valid and damaged archives and the whole tree compared. Non-trivial: at least one member meets something that exists, or the operation is a dry run or a reading one.",
		Setup: setup,
		Sections: []pbt.Section{
			{Name: "answers", Quick: 7500, Thorough: 50000, Run: answers},
			{Name: "force", Quick: 4500, Thorough: 30000, Run: forceLib},
			{Name: "readonly", Quick: 4500, Thorough: 30000, Run: readOnly},
			{Name: "dryrun", Quick: 4500, Thorough: 30000, Run: dryRun},
		},
	})
}

var overNames = []string{"aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh"}

// overMembers draws members with the names of overNames, in that order or another.
func overMembers(t *pbt.T, links bool) []*Foreign {
	n := 1 + t.Intn(6)
	if t.OneIn(6) {
		n = 8
	}
	var fs []*Foreign
	for i := 0; i < n; i++ {
		f := drawForeign(t, ForeignOpt{Flat: true, Methods: []string{"-lh0-", "-lh5-", "-lh1-", "-lzs-"}, Plain: true, Levels: []int{2, 1, 3}}, overNames[i])
		if t.OneIn(4) {
			setName(f, "some/dir/"+overNames[i], "")
		}
		if links && t.OneIn(6) {
			f.Body, f.M.Packed, f.M.Orig, f.M.CRC = nil, nil, 0, 0
			f.M.Method, f.M.OS = "-lhd-", 'U'
			f.Link = "../outside/secret"
			setName(f, f.Name, f.Link)
			setMode(f, 0120777)
		}
		fs = append(fs, f)
	}
	if t.Bool() {
		r := t.Sub()
		r.Shuffle(n, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	return fs
}

// inTheWay puts something under the name.
func inTheWay(t *pbt.T, name string) byte {
	if _, err := os.Lstat(name); err == nil {
		return 0 // by another member of the name
	}
	switch t.Weighted(12, 1, 2, 1, 1) {
	case 0:
		putFile(name, append([]byte("old content of "), name...), os.FileMode([]int{0644, 0600, 0444, 0400}[t.Intn(4)]), 1100000000+int64(t.Intn(1000)))
		return 'f'
	case 1:
		mustDir(name)
		return 'd'
	case 2:
		os.Symlink([]string{"../outside/secret", "nowhere", "../outside/new", "../outside", filepath.Base(name)}[t.Intn(5)], name)
		return 'l'
	case 3:
		if err := syscall.Mkfifo(name, 0600); err != nil {
			panic(err)
		}
		return 'o'
	case 4:
		if err := syscall.Mknod(name, syscall.S_IFSOCK|0600, 0); err != nil {
			panic(err)
		}
		return 'o'
	}
	return 0
}

// answers: the questions of the program.
func answers(t *pbt.T) {
	fresh(t)
	fs := overMembers(t, true)
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	mustDir("outside")
	putFile("outside/secret", []byte("secret"), 0640, 1000000001)
	writeFile(t, "a.lzh", lharef.Archive(ms...))
	mustDir("work")
	root, _ := os.Getwd()
	if err := os.Chdir("work"); err != nil {
		panic(err)
	}
	var kinds []string
	for _, f := range fs {
		if t.Weighted(2, 1) == 0 {
			k := inTheWay(t, last(f.Name))
			kinds = append(kinds, string(rune(k))+last(f.Name))
			t.NonTrivial()
		}
	}
	force, noexec := t.OneIn(8), t.OneIn(8)
	// the answers
	var in []string
	for i, n := 0, t.Intn(10); i < n; i++ {
		a := []string{"y", "Y", "n", "N", "a", "A", "s", "S", "", "x", "?", "q no", "yes", "no", "all", "skip", " y", "1"}
		in = append(in, a[t.Weighted(6, 4, 6, 4, 2, 1, 4, 2, 4, 1, 1, 1, 2, 2, 1, 1, 1, 1)])
	}
	stdin := ""
	if len(in) > 0 {
		stdin = strings.Join(in, "\n") + "\n"
	}
	t.Describe("members %q, there before %q, answers %q, force %v dry run %v", namesOf(fs), kinds, in, force, noexec)

	want := scan(root)
	expectErr := ""
	left := in
	frc, skip := force, false
	var written []*Foreign
	for _, f := range fs {
		key := "work/" + last(f.Name)
		old, there := want[key]
		if noexec {
			if there && f.Link == "" && old.Kind != 'f' && !frc {
				expectErr = "not a file"
				break
			}
			continue
		}
		if there {
			if skip && !frc {
				t.Label("skipped without a question")
				continue
			}
			if !frc && old.Kind != 'f' {
				expectErr = "not a file"
				break
			}
			if !frc {
				verdict := byte('n')
				for {
					if len(left) == 0 {
						t.Label("answers run out")
						break
					}
					a := left[0]
					left = left[1:]
					if a == "" {
						t.Label("empty answer")
						break
					}
					c := a[0] | 0x20
					if c == 'y' || c == 'n' || c == 'a' || c == 's' {
						verdict = c
						t.Label("answer %c", c)
						break
					}
					t.Label("asked again")
				}
				if verdict == 'n' {
					continue
				}
				if verdict == 's' {
					skip = true
					continue
				}
				if verdict == 'a' {
					frc = true
				}
			}
			if old.Kind == 'd' {
				expectErr = "directory in the way"
				break
			}
		}
		if f.Link != "" {
			want[key] = Node{Kind: 'l', Data: f.Link}
		} else {
			want[key] = wantNode(f)
			written = append(written, f)
		}
	}
	args := []string{"-archive", "../a.lzh", "-e"}
	if force {
		args = append(args, "-f")
	}
	if noexec {
		args = append(args, "-n")
	}
	code, _, errb := runCLI(t, []byte(stdin), args...)
	if (code != 0) != (expectErr != "") || code > 1 || code < 0 {
		t.Fatalf("exit status %d (%s), expected error %q", code, firstLine(errb), expectErr)
	}
	got := scan(root)
	for _, f := range written {
		key := "work/" + last(f.Name)
		w := want[key]
		fixPerm(got, key, f, &w)
		want[key] = w
	}
	sameTree(t, "extraction", want, got, nil)
}

func namesOf(fs []*Foreign) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f.Name)
	}
	return out
}

func firstLine(b []byte) string {
	s := string(b)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// forceLib: the library with force, or without and nothing to answer.
func forceLib(t *pbt.T) {
	fresh(t)
	fs := overMembers(t, true)
	var ms []*lharef.Member
	for _, f := range fs {
		ms = append(ms, f.M)
	}
	mustDir("outside")
	putFile("outside/secret", []byte("secret"), 0640, 1000000001)
	writeFile(t, "a.lzh", lharef.Archive(ms...))
	archive, _ := filepath.Abs("a.lzh")
	mustDir("work")
	root, _ := os.Getwd()
	if err := os.Chdir("work"); err != nil {
		panic(err)
	}
	dir := ""
	if t.OneIn(3) {
		dir = "out"
		mustDir(dir)
	}
	for _, f := range fs {
		if t.Bool() {
			inTheWay(t, filepath.Join(dir, last(f.Name)))
			t.NonTrivial()
		}
	}
	force := t.Weighted(1, 3) == 1
	l := lha.NewLha(archive)
	l.Force = force
	l.ExtractDirectory = dir
	want := scan(root)
	var written []*Foreign
	expectErr := ""
	t.Describe("force %v, members %q", force, namesOf(fs))
	pick := -1
	var hs []*lha.LzHeader
	if t.OneIn(3) {
		pick = t.Intn(len(fs))
		var err error
		if hs, err = headers(t, archive); err != nil || len(hs) != len(fs) {
			t.Fatalf("Headers: %d, %v", len(hs), err)
		}
		t.Label("one by its header")
	}
	for i, f := range fs {
		if pick >= 0 && i != pick {
			continue
		}
		key := filepath.Join("work", dir, last(f.Name))
		old, there := want[key]
		if there && !force {
			if old.Kind != 'f' {
				expectErr = "not a file"
				break
			}
			continue // nobody answers
		}
		if there && old.Kind == 'd' {
			expectErr = "directory in the way"
			break
		}
		if f.Link != "" {
			want[key] = Node{Kind: 'l', Data: f.Link}
		} else {
			want[key] = wantNode(f)
			written = append(written, f)
		}
	}
	var err error
	capture(func() {
		if pick >= 0 {
			t.Lib("Decompress", func() { err = l.Decompress(hs[pick]) })
		} else {
			t.Lib("CommandExtract", func() { err = lha.CommandExtract(archive, l) })
		}
	})
	if (err != nil) != (expectErr != "") {
		t.Fatalf("error %v, expected %q", err, expectErr)
	}
	got := scan(root)
	for _, f := range written {
		key := filepath.Join("work", dir, last(f.Name))
		w := want[key]
		fixPerm(got, key, f, &w)
		want[key] = w
	}
	sameTree(t, "extraction", want, got, nil)
}

// readOnly: listing, testing, printing and reading change nothing.
func readOnly(t *pbt.T) {
	fresh(t)
	d := &Dam{}
	if t.Bool() {
		d = drawWhole(t)
	} else {
		fs := drawEntries(t)
		for len(fs) == 0 {
			fs = drawEntries(t)
		}
		d.Raw = archiveOf(fs)
		for _, f := range fs {
			d.Names = append(d.Names, last(strings.TrimSuffix(f.Name, "/")))
		}
		t.Label("archive with directories and links")
	}
	raw := append([]byte{}, d.Raw...)
	if t.OneIn(3) {
		for k := 1 + t.Intn(3); k > 0; k-- {
			raw[t.Intn(len(raw))] ^= byte(1 + t.Intn(255))
		}
		if t.OneIn(3) {
			raw = raw[:t.Intn(len(raw)+1)]
		}
		t.Label("damaged archive")
	}
	putFile("r.lzh", raw, os.FileMode([]int{0644, 0444}[t.Intn(2)]), 1111111111)
	for _, n := range d.Names {
		if plainName(n) && n != "r.lzh" && t.Bool() {
			inTheWay(t, n)
		}
	}
	t.NonTrivial()
	root, _ := os.Getwd()
	want := scan(root)
	op := t.Intn(7)
	name := []string{"Headers", "DecompresBytes", "CommandList", "test", "print", "program", "nothing there"}[op]
	t.Label("%s", name)
	t.Describe("%s on an archive of %q", name, d.Names)
	l := lha.NewLha("r.lzh")
	l.Force = t.Bool()
	lha.Quiet = t.Bool()
	capture(func() {
		switch op {
		case 0:
			t.Lib("Headers", func() { l.Headers() })
		case 1:
			hs, _ := headers(t, "r.lzh")
			for _, h := range hs {
				t.Lib("DecompresBytes", func() { l.DecompresBytes(h) })
			}
		case 2:
			l.Verbose, l.VerboseListing = t.Bool(), t.Bool()
			t.Lib("CommandList", func() { lha.CommandList("r.lzh", l) })
		case 3:
			lha.VerifyMode = true
			t.Lib("CommandExtract -t", func() { lha.CommandExtract("r.lzh", l) })
		case 4:
			l.OutputToStdout = true
			t.Lib("CommandExtract -p", func() { lha.CommandExtract("r.lzh", l) })
		case 5:
			o := [][]string{{"-l"}, {"-lv"}, {"-t"}, {"-p"}, {"-l", "-v"}, {"-p", "-f"}, {"-t", "-f"}, {"-n", "-e"}, {"-n", "-e", "-f"}}[t.Intn(9)]
			runCLI(t, []byte("a\n"), append([]string{"-archive", "r.lzh"}, o...)...)
		case 6:
			m := lha.NewLha("missing.lzh")
			var err error
			switch t.Intn(3) {
			case 0:
				t.Lib("Headers", func() { _, err = m.Headers() })
			case 1:
				t.Lib("CommandExtract", func() { err = lha.CommandExtract("missing.lzh", m) })
			case 2:
				t.Lib("CommandList", func() { err = lha.CommandList("missing.lzh", m) })
			}
			if err == nil {
				t.Fatalf("reading an archive that is not there reports success")
			}
		}
	})
	resetGlobals()
	sameTree(t, name, want, scan(root), nil)
}

// dryRun: no-execute changes nothing.
func dryRun(t *pbt.T) {
	fresh(t)
	archive := "m.lzh"
	var exists bool
	var names []string
	if t.Bool() {
		m := drawBase(t, archive)
		exists, names = m.Exists, m.names()
	} else {
		fs := drawEntries(t)
		for len(fs) == 0 {
			fs = drawEntries(t)
		}
		writeFile(t, archive, archiveOf(fs))
		exists = true
		for _, f := range fs {
			names = append(names, last(strings.TrimSuffix(f.Name, "/")))
		}
		t.Label("archive with directories and links")
	}
	if exists {
		os.Chtimes(archive, tm(1111111111), tm(1111111111))
	}
	inWay := false
	for _, n := range names {
		if plainName(n) && n != archive && t.OneIn(4) {
			inTheWay(t, n)
			inWay = true
		}
	}
	var args []string
	for i, n := 0, 1+t.Intn(3); i < n; i++ {
		f := newFile(t, pool[t.Intn(len(pool))], "in", 2, 5)
		args = append(args, f.path)
	}
	l := lha.NewLha(archive)
	if t.OneIn(4) {
		l.RecursiveArchiving = true
		drawTree(t, 2, 5)
		args = append(args, "tree")
		t.Label("directory tree")
	}
	root, _ := os.Getwd()
	want := scan(root)
	t.NonTrivial()
	l.Noexec = true
	l.Verbose = t.OneIn(3)
	lha.Quiet = t.Bool()
	l.SortContents = t.Bool()
	l.UpdateIfNewer = t.OneIn(3)
	l.NewArchive = t.OneIn(4)
	l.DeleteAfterAppend = t.OneIn(3)
	l.BackupOldArchive = t.OneIn(3)
	l.Force = inWay || t.OneIn(3)
	if t.OneIn(3) {
		l.ExtractDirectory = []string{"out", "out/deep", "."}[t.Intn(3)]
	}
	kind := t.Weighted(2, 1, 2, 2, 2)
	t.Label("%s", []string{"add", "add bytes", "extract", "extract one", "program"}[kind])
	t.Describe("dry run %d of %q, new %v move %v backup %v update %v", kind, args, l.NewArchive, l.DeleteAfterAppend, l.BackupOldArchive, l.UpdateIfNewer)
	var err error
	capture(func() {
		switch kind {
		case 0:
			l.CmdFilev, l.CmdFilec = append([]string{}, args...), len(args)
			l.HeaderLevel, l.CompressMethod = t.Intn(3), encMethods[t.Intn(len(encMethods))]
			t.Lib("CommandAdd", func() { err = lha.CommandAdd(archive, l) })
		case 1:
			t.Lib("CompressBytes", func() { err = l.CompressBytes("fresh", []byte("fresh body"), 5, t.Intn(3)) })
		case 2:
			if exists {
				t.Lib("CommandExtract", func() { err = lha.CommandExtract(archive, l) })
			}
		case 3:
			if exists {
				hs, herr := headers(t, archive)
				if herr != nil {
					t.Fatalf("Headers: %v", herr)
				}
				if len(hs) == 0 {
					t.Fatalf("Headers finds no members")
				}
				h := hs[t.Intn(len(hs))]
				t.Lib("Decompress", func() { err = l.Decompress(h) })
			}
		case 4:
			a := []string{"-archive", archive, "-n"}
			if t.OneIn(3) {
				a = append(a, "-v")
			}
			switch t.Intn(7) {
			case 0:
				a = append(a, "-a", args[0])
			case 1:
				a = append(a, "-c", args[0])
			case 2:
				a = append(a, "-a", args[0], "-m")
			case 3:
				a = append(a, "-a", args[0], "-u", "-o", fmt.Sprint(5+t.Intn(3)))
			case 4:
				a = append(a, "-e", "-f")
			case 5:
				a = append(a, "-e")
			case 6:
				a = append(a, "-u")
			}
			code, _, errb := runCLI(t, []byte("a\n"), a...)
			if code != 0 && exists && !inWay {
				t.Fatalf("%q: exit status %d: %s", a, code, firstLine(errb))
			}
		}
	})
	if err != nil && !inWay {
		t.Fatalf("dry run: %v", err)
	}
	sameTree(t, "dry run", want, scan(root), nil)
}
