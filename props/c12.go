package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	lha "github.com/jeromelesaux/lha"

	"verif/lharef"
	"verif/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C12",
		Rule: "An addition (file or bytes, every method and level, with or without move, sorting, update) to an archive that exists or not is made to fail: unknown method or level, damaged or cut old archive, archive or directory that cannot be read or written, a file size limit at a generated byte offset (every write offset can be hit), system calls that fail (write, rename, seek, chmod, truncate, close); and the program is stopped at a generated byte offset or system call. Afterwards: error reported exactly when the archive is not the complete new one, old bytes intact, inputs intact, no temporary file (unless stopped). A read of one input, or of the archive while it is listed, tested, printed or extracted, is made to fail: success means that everything was delivered. Stream encoding and extraction with readers, writers and files that fail after a generated number of bytes must report it. Non-trivial: the fault was reached.",
		Assume: []string{
			"the fault-free result of the same operation is taken from a run of the same code without fault",
			"stopping the process: killed by a signal at a system call or when a file reaches a size limit; loss of power is not modelled",
		},
		Level: "fault_enumeration",
		Setup: func() {
			setup()
			signal.Notify(make(chan os.Signal, 1), syscall.SIGXFSZ) // a write beyond the limit then fails with EFBIG
		},
		Sections: []pbt.Section{
			{Name: "refused", Quick: 6250, Thorough: 40000, Run: refusedAdd},
			{Name: "limit", Quick: 6250, Thorough: 50000, Run: limitAdd},
			{Name: "stream", Quick: 7500, Thorough: 60000, Run: faultStream},
			{Name: "extract", Quick: 3750, Thorough: 30000, Run: limitExtract},
			{Name: "crash", Quick: 2000, Thorough: 16000, Run: crashAdd},
			{Name: "syscall", Quick: 1250, Thorough: 10000, Run: syscallFault},
			{Name: "onefile", Quick: 750, Thorough: 6000, Run: oneFileFault},
			{Name: "late", Quick: 2000, Thorough: 16000, Run: lateFault},
			{Name: "readfault", Quick: 750, Thorough: 6000, Run: readFault},
		},
	})
}

// withFileLimit runs f while no file can grow beyond n bytes.
func withFileLimit(n int, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}()
	f()
}

// addition is one generated add operation that can be run in any directory.
type addition struct {
	archive string
	old     []byte // nil: no archive
	files   []string
	bodies  [][]byte
	mtimes  []int64
	bytes   bool // CompressBytes
	method  int
	level   int
	sort    bool
	update  bool
	move    bool
	backup  bool
	fresh   bool
}

func drawAddition(t *pbt.T, big bool) *addition {
	a := &addition{archive: "m.lzh", method: encMethods[t.Intn(len(encMethods))], level: []int{2, 0, 1}[t.Intn(3)]}
	if t.Weighted(1, 3) == 1 {
		var ms []*lharef.Member
		for _, f := range drawMembers(t, 1+t.Intn(3), ForeignOpt{Flat: true}) {
			ms = append(ms, f.M)
		}
		a.old = lharef.Archive(ms...)
		t.Label("archive there before")
	}
	a.bytes = t.OneIn(3)
	n := 1
	if !a.bytes {
		n += t.Intn(3)
	}
	for i := 0; i < n; i++ {
		a.files = append(a.files, fmt.Sprintf("in%d", i))
		a.bodies = append(a.bodies, Content(t, big))
		a.mtimes = append(a.mtimes, drawTime(t, true))
	}
	a.sort = t.Bool()
	a.update = t.OneIn(5)
	a.move = !a.bytes && t.OneIn(3)
	a.fresh = t.OneIn(8)
	t.Describe("add %d files (bytes %v) %s method %d level %d to an archive of %d bytes; sort %v update %v move %v re-create %v", n, a.bytes, Show(a.bodies[0]), a.method, a.level, len(a.old), a.sort, a.update, a.move, a.fresh)
	return a
}

// put lays the files out in the current directory.
func (a *addition) put() {
	if a.old != nil {
		putFile(a.archive, a.old, 0640, 1234567890)
	}
	if !a.bytes {
		for i, f := range a.files {
			putFile(f, a.bodies[i], 0644, a.mtimes[i])
		}
	}
}

func (a *addition) run(t *pbt.T) (err error) {
	l := lha.NewLha(a.archive)
	l.SortContents, l.UpdateIfNewer, l.DeleteAfterAppend, l.NewArchive, l.BackupOldArchive = a.sort, a.update, a.move, a.fresh, a.backup
	if a.bytes {
		t.Lib("CompressBytes", func() { err = l.CompressBytes(a.files[0], append([]byte{}, a.bodies[0]...), a.method, a.level) })
		return
	}
	l.HeaderLevel, l.CompressMethod = a.level, a.method
	l.CmdFilev, l.CmdFilec = append([]string{}, a.files...), len(a.files)
	t.Lib("CommandAdd", func() { err = lha.CommandAdd(a.archive, l) })
	return
}

// intact checks what a failed addition leaves.
func (a *addition) intact(t *pbt.T, what string, temps bool) {
	now, err := os.ReadFile(a.archive)
	if a.old != nil {
		if err != nil {
			t.Fatalf("%s: the archive is gone: %v", what, err)
		}
		if !bytes.Equal(now, a.old) {
			t.Fatalf("%s: the archive changed: %s", what, Diff(a.old, now))
		}
	} else if err == nil {
		t.Fatalf("%s: an archive of %d bytes was made", what, len(now))
	}
	a.inputs(t, what)
	if !temps {
		a.alone(t, what)
	}
}

// inputs checks that the input files are as they were.
func (a *addition) inputs(t *pbt.T, what string) {
	if a.bytes {
		return
	}
	for i, f := range a.files {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatalf("%s: input %q: %v", what, f, err)
		}
		if !bytes.Equal(b, a.bodies[i]) {
			t.Fatalf("%s: input %q changed", what, f)
		}
	}
}

// alone checks that nothing else is in the directory.
func (a *addition) alone(t *pbt.T, what string) {
	ents, _ := os.ReadDir(".")
	for _, e := range ents {
		ok := e.Name() == a.archive
		for _, f := range a.files {
			ok = ok || f == e.Name()
		}
		if !ok {
			t.Fatalf("%s: %q was left behind", what, e.Name())
		}
	}
}

// enter makes and enters a directory.
func enter(dir string) {
	mustDir(dir)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
}

// refusedAdd: additions that cannot succeed.
func refusedAdd(t *pbt.T) {
	fresh(t)
	a := drawAddition(t, false)
	a.fresh = false
	enter("d")
	kind := t.Intn(9)
	what := ""
	undo := func() {}
	nonempty := false
	for _, b := range a.bodies {
		if len(b) > 0 {
			nonempty = true
		}
	}
	switch kind {
	case 0:
		what = "unknown method"
		a.method = []int{2, 3, 4, 8, 9, 10, 11, 12, 13, 14, 42, 255}[t.Intn(12)]
		if !nonempty {
			a.bodies[0] = []byte("not empty")
		}
		a.update = false
	case 1:
		what = "unknown header level"
		a.level = []int{3, 4, 9, -1}[t.Intn(4)]
		a.update = false
	case 2, 3:
		if a.old == nil {
			var ms []*lharef.Member
			for _, f := range drawMembers(t, 1+t.Intn(2), ForeignOpt{Flat: true}) {
				ms = append(ms, f.M)
			}
			a.old = lharef.Archive(ms...)
		}
		ms, err := lharef.ParseArchive(a.old)
		if err != nil {
			panic(err)
		}
		k := t.Intn(len(ms))
		off := 0
		for _, m := range ms[:k] {
			off += m.Extra + len(m.Packed)
		}
		if kind == 2 {
			what = "cut old archive"
			a.old = append([]byte{}, a.old[:off+1+t.Intn(ms[k].Extra+len(ms[k].Packed)-1)]...)
		} else {
			what = "damaged header in the old archive"
			a.old = append([]byte{}, a.old...)
			p := 2 + t.Intn(18) // checked by sum or CRC at every level
			if ms[k].Level < 2 {
				p = 1 + t.Intn(19)
			}
			a.old[off+p] ^= byte(1 + t.Intn(255))
		}
	case 4:
		what = "directory that cannot be written"
	case 5:
		what = "archive that cannot be read"
		if a.old == nil {
			a.old = []byte{0}
		}
	case 6:
		what = "archive path that is a directory or below a file"
		a.old = nil
	case 7, 8:
		what = "backup that cannot be made"
		if a.old == nil {
			a.old = lharef.Archive(drawMembers(t, 1, ForeignOpt{Flat: true})[0].M)
		}
		if kind == 7 {
			what = "a directory in the place of the new archive"
			a.archive = []string{"m.exe", "m.COM", "m.x"}[t.Intn(3)]
			a.old = append([]byte("MZ"), a.old...) // a program in front
		}
	}
	a.put()
	switch kind {
	case 4:
		os.Chmod(".", 0555)
		undo = func() { os.Chmod(".", 0755) }
	case 5:
		os.Chmod(a.archive, 0)
		undo = func() { os.Chmod(a.archive, 0640) }
	case 6:
		if t.Bool() {
			a.archive = "adir"
			mustDir("adir")
			a.files = append(a.files, "adir")
		} else if t.Bool() {
			writeFile(t, "afile", []byte("x"))
			a.archive = "afile/m.lzh"
			a.files = append(a.files, "afile")
		} else {
			a.archive = "nodir/m.lzh"
		}
	case 7, 8:
		d := a.archive + ".bak"
		if kind == 7 {
			d = "m.lzh"
		}
		mustDir(d)
		writeFile(t, d+"/keep", []byte("keep"))
		a.files = append(a.files, d)
	}
	if kind != 6 {
		a.backup = t.OneIn(4)
	}
	if kind == 7 {
		a.backup = t.Bool()
	}
	if kind == 8 {
		a.backup = true
	}
	t.Label("%s", what)
	t.Describe("%s (method %d level %d)", what, a.method, a.level)
	t.NonTrivial()
	extra := a.files
	if kind >= 6 {
		a.files = a.files[:len(a.bodies)]
	}
	err := a.run(t)
	undo()
	if err == nil {
		t.Fatalf("%s: the addition reports success", what)
	}
	if kind == 6 {
		if _, serr := os.Lstat(a.archive); a.archive != "adir" && serr == nil {
			t.Fatalf("%s: %q was made", what, a.archive)
		}
		a.inputs(t, what)
		a.files = extra
		a.alone(t, what)
		return
	}
	if kind > 6 {
		if b, err := os.ReadFile(extra[len(extra)-1] + "/keep"); err != nil || string(b) != "keep" {
			t.Fatalf("%s: the file in the directory is %q, %v", what, b, err)
		}
		a.inputs(t, what)
		a.bytes, a.files = true, extra
	}
	a.intact(t, what, false)
}

// fault-free result of the addition, in a directory of its own.
func (a *addition) reference(t *pbt.T) []byte {
	home, _ := os.Getwd()
	enter("ref")
	defer os.Chdir(home)
	a.put()
	if err := a.run(t); err != nil {
		t.Fatalf("without fault: %v", err)
	}
	return readFile(a.archive)
}

func offset(t *pbt.T, size int) int {
	switch t.Weighted(5, 1, 1) {
	case 1:
		return t.Intn(60)
	case 2:
		d := size - t.Intn(30)
		if d < 0 {
			d = 0
		}
		return d
	}
	return t.Intn(size + 1)
}

// limitAdd: a write of the new archive fails at an offset.
func limitAdd(t *pbt.T) {
	fresh(t)
	a := drawAddition(t, t.OneIn(10))
	if a.bytes {
		// the time stamp of bytes is the present: only the failure can be compared
		a.update = false
	}
	want := a.reference(t)
	enter("d")
	a.put()
	n := offset(t, len(want)+20)
	t.Describe("file size limit %d, the complete archive has %d bytes", n, len(want))
	var err error
	withFileLimit(n, func() { err = a.run(t) })
	if n < len(want) {
		t.NonTrivial()
		if err == nil {
			t.Fatalf("a write at offset %d of the new archive (%d bytes) failed, the addition reports success", n, len(want))
		}
		t.Label("failed write")
	}
	if err != nil {
		a.intact(t, fmt.Sprintf("write failing at offset %d", n), false)
		return
	}
	a.complete(t, "without fault", want)
}

// complete checks that the archive is the new one.
func (a *addition) complete(t *pbt.T, what string, want []byte) {
	now, err := os.ReadFile(a.archive)
	if err != nil {
		t.Fatalf("%s: no archive: %v", what, err)
	}
	if st, err := os.Stat(a.archive); a.old != nil && err == nil && st.Mode().Perm() != 0640 {
		t.Fatalf("%s: the archive had permissions 640 and now has %o", what, st.Mode().Perm())
	}
	if a.bytes {
		if len(now) != len(want) {
			t.Fatalf("%s: archive of %d bytes, want %d", what, len(now), len(want))
		}
		return
	}
	if !bytes.Equal(now, want) {
		t.Fatalf("%s: not the complete new archive: %s", what, Diff(want, now))
	}
}

// faultStream: readers and writers of the stream encoder that fail.
func faultStream(t *pbt.T) {
	fresh(t)
	method := encMethods[t.Intn(len(encMethods))]
	body := Content(t, t.OneIn(10))
	l := lha.NewLha("")
	l.CompressMethod = method
	full, _, _, _, _, err := encodeStream(t, method, body)
	if err != nil {
		t.Fatalf("EncodeLzhuf: %v", err)
	}
	var r io.Reader = bytes.NewReader(body)
	var buf bytes.Buffer
	var w io.Writer = &buf
	reading := t.Bool()
	n := 0
	fault := false
	if reading {
		n = t.Intn(len(body) + 1)
		fr := &failReader{r: r, n: n, err: drawWriteError(t)}
		if errors.Is(fr.err, io.EOF) || errors.Is(fr.err, io.ErrUnexpectedEOF) {
			fr.err = nil // that is a file that ends early, not a fault
		}
		r = fr
		// with all of the body read, the fault may never be met
		fault = n < len(body)
	} else {
		n = t.Intn(len(full) + 1)
		fw := &failWriter{n: n, err: drawWriteError(t)}
		w = fw
		fault = n < len(full)
	}
	t.Label("method %d", method)
	t.Describe("method %d %s: reader %v fails after %d bytes", method, Show(body), reading, n)
	var o, p int
	t.Lib("EncodeLzhuf", func() { _, err = l.EncodeLzhuf(&r, &w, len(body), &o, &p, []byte("x"), make([]byte, 5)) })
	if fault {
		t.NonTrivial()
		if err == nil {
			if reading {
				t.Fatalf("method %d: the reader failed after %d of %d bytes, EncodeLzhuf reports success", method, n, len(body))
			}
			t.Fatalf("method %d: the writer failed after %d of %d bytes, EncodeLzhuf reports success", method, n, len(full))
		}
	} else if err != nil && n > len(body) {
		t.Fatalf("no fault, but %v", err)
	}
	// the same instance works afterwards
	again, _, _, _, _, err := encodeStream(t, method, body)
	if err != nil || !bytes.Equal(again, full) {
		t.Fatalf("after the fault the same data is encoded differently (%v)", err)
	}
}

// limitExtract: a write of an extracted file fails, or printing does.
func limitExtract(t *pbt.T) {
	fresh(t)
	fs := drawMembers(t, 1+t.Intn(2), ForeignOpt{Flat: true, Plain: true})
	var ms []*lharef.Member
	longest, total := 0, 0
	for _, f := range fs {
		if !plainName(f.Name) {
			return
		}
		ms = append(ms, f.M)
		total += len(f.Body)
		if len(f.Body) > longest {
			longest = len(f.Body)
		}
	}
	writeFile(t, "a.lzh", lharef.Archive(ms...))
	if longest == 0 {
		return
	}
	archive, _ := filepath.Abs("a.lzh")
	enter("x")
	if t.OneIn(3) {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer full.Close()
		t.NonTrivial()
		if t.Bool() {
			t.Label("printing to a full device")
			l := lha.NewLha(archive)
			l.OutputToStdout = true
			old := os.Stdout
			os.Stdout = full
			t.Lib("CommandExtract -p", func() { err = lha.CommandExtract(archive, l) })
			os.Stdout = old
			if err == nil {
				t.Fatalf("printing %d bytes to a full device reports success", total)
			}
		} else {
			t.Label("program printing to a full device")
			cmd := exec.Command(os.Getenv("VERIF_CLI"), "-archive", archive, "-p")
			cmd.Stdout = full
			err := cmd.Run()
			if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() != 1 {
				t.Fatalf("printing %d bytes to a full device: the program ends with %v", total, err)
			}
		}
		return
	}
	n := t.Intn(longest + 1)
	t.Describe("file size limit %d, the longest member has %d bytes", n, longest)
	var err error
	i := t.Intn(len(fs))
	one := t.Bool()
	need := longest
	l := lha.NewLha(archive)
	if one {
		hs, herr := headers(t, archive)
		if herr != nil {
			t.Fatalf("Headers: %v", herr)
		}
		need = len(fs[i].Body)
		withFileLimit(n, func() { t.Lib("Decompress", func() { err = l.Decompress(hs[i]) }) })
	} else {
		withFileLimit(n, func() { t.Lib("CommandExtract", func() { err = lha.CommandExtract(archive, l) }) })
	}
	if n < need {
		t.NonTrivial()
		t.Label("failed write")
		if err == nil {
			t.Fatalf("a write at offset %d of %d failed, extraction reports success", n, need)
		}
	} else if err != nil {
		t.Fatalf("no fault, but %v", err)
	}
}

// cliArgs are the arguments for the addition; only one file is possible.
func (a *addition) cliArgs(t *pbt.T) []string {
	a.bytes = false
	a.files, a.bodies, a.mtimes = a.files[:1], a.bodies[:1], a.mtimes[:1]
	args := []string{"-archive", a.archive}
	if a.fresh {
		args = append(args, "-c", a.files[0])
	} else {
		args = append(args, "-a", a.files[0])
	}
	if o := []int{0, 5, 6, 7}[t.Intn(4)]; o > 0 {
		args = append(args, "-o", fmt.Sprint(o))
	}
	if a.move {
		args = append(args, "-m")
	}
	if a.update {
		args = append(args, "-u")
	}
	return args
}

// cliReference runs the program without fault in a directory of its own.
func (a *addition) cliReference(t *pbt.T, args []string) []byte {
	home, _ := os.Getwd()
	enter("ref")
	defer os.Chdir(home)
	a.put()
	if code, _, e := runCLI(t, nil, args...); code != 0 {
		t.Fatalf("%q: exit status %d: %s", args, code, firstLine(e))
	}
	return readFile(a.archive)
}

// stopped checks the state after the program ended in any way.
func (a *addition) stopped(t *pbt.T, what string, code int, want []byte, args []string) {
	now, err := os.ReadFile(a.archive)
	isNew := err == nil && bytes.Equal(now, want)
	isOld := (a.old == nil && err != nil) || (a.old != nil && err == nil && bytes.Equal(now, a.old))
	if !isNew && !isOld {
		if err != nil {
			t.Fatalf("%s: exit status %d and the archive is gone: %v", what, code, err)
		}
		t.Fatalf("%s: exit status %d and the archive is neither the old one (%d bytes) nor the new one: %s", what, code, len(a.old), Diff(want, now))
	}
	if !isNew {
		a.inputs(t, what)
	} else if b, err := os.ReadFile(a.files[0]); err == nil && !bytes.Equal(b, a.bodies[0]) {
		t.Fatalf("%s: input changed", what)
	} else if err != nil && !a.move {
		t.Fatalf("%s: input gone", what)
	}
	if st, err := os.Stat(a.archive); code == 0 && a.old != nil && err == nil && st.Mode().Perm() != 0640 {
		t.Fatalf("%s: exit status 0, the archive had permissions 640 and now has %o", what, st.Mode().Perm())
	}
	if code == 0 && !isNew {
		t.Fatalf("%s: exit status 0 and the archive is the old one", what)
	}
	if code == 1 {
		if isNew && !isOld {
			t.Fatalf("%s: exit status 1 and the archive is the new one", what)
		}
		a.alone(t, what)
	}
	if isNew {
		t.Label("new archive in place")
	} else {
		t.Label("old archive in place")
		// whatever was left, the operation works the next time
		code, _, errb := runCLI(t, nil, args...)
		if code != 0 {
			t.Fatalf("%s: the operation fails when run again: %s", what, firstLine(errb))
		}
		a.complete(t, what+" and run again", want)
	}
}

// crashAdd: the program is stopped when a file reaches a size.
func crashAdd(t *pbt.T) {
	fresh(t)
	a := drawAddition(t, t.OneIn(10))
	args := a.cliArgs(t)
	want := a.cliReference(t, args)
	enter("d")
	a.put()
	n := offset(t, len(want)+5)
	t.Describe("%q stopped at offset %d of %d", args, n, len(want))
	var code int
	withFileLimit(n, func() { code, _, _ = runCLI(t, nil, args...) })
	if n < len(want) {
		t.NonTrivial()
		if code == 0 {
			t.Fatalf("the write at offset %d of the new archive (%d bytes) could not be made, the program reports success", n, len(want))
		}
	}
	a.stopped(t, fmt.Sprintf("stopped at offset %d", n), code, want, args)
}

// syscallFault: one kind of system call fails, or the program is killed there.
func syscallFault(t *pbt.T) {
	fresh(t)
	setZone("UTC") // no file is read for the time zone, which a fault could hit
	a := drawAddition(t, false)
	for i := range a.bodies { // every byte is a system call
		if len(a.bodies[i]) > 1500 {
			a.bodies[i] = a.bodies[i][:1500]
		}
	}
	args := a.cliArgs(t)
	want := a.cliReference(t, args)
	enter("d")
	a.put()
	call := []string{"renameat", "rename,renameat2,renameat", "fchmod", "lseek", "ftruncate", "write", "unlinkat", "close", "openat", "read", "fchmodat,chmod,fchmod", "pwrite64,write"}[t.Intn(12)]
	kill := t.Bool() || call == "openat" // an input that cannot be opened is left out
	inject := call + ":error=EIO:when=1+"
	if kill {
		inject = call + ":signal=SIGKILL:when=" + fmt.Sprint(1+t.Intn(4))
	} else if t.OneIn(3) {
		inject = call + ":error=ENOSPC:when=" + fmt.Sprint(1+t.Intn(4))
	}
	if (call == "read" || call == "close") && !kill {
		inject = call + ":error=EIO:when=" + fmt.Sprint(1+t.Intn(6)) + "+"
	}
	t.Describe("%q with %s", args, inject)
	t.Label("%s", inject[:strings.Index(inject, "=")])
	home, _ := os.Getwd()
	log := filepath.Join(filepath.Dir(home), "strace.log")
	sargs := append([]string{"-f", "-o", log, "-e", "trace=" + call, "-e", "inject=" + inject, os.Getenv("VERIF_CLI")}, args...)
	code, _, errb := runProg(nil, "/usr/bin/strace", sargs...)
	lg, _ := os.ReadFile(log)
	if !bytes.Contains(lg, []byte("+++")) {
		t.Label("no tracing here: %s", firstLine(errb))
		return
	}
	hit := bytes.Contains(lg, []byte("INJECTED")) || bytes.Contains(lg, []byte("killed by SIGKILL"))
	if hit {
		t.NonTrivial()
	} else {
		t.Label("fault not reached")
		if code != 0 {
			t.Fatalf("no fault, but exit status %d: %s", code, firstLine(errb))
		}
	}
	a.stopped(t, inject, code, want, args)
	if !kill && hit && code == 1 {
		t.Label("reported")
	}
}

// traced runs the program with faults injected into the system calls call on
// the file path. hit tells whether one was; ok is false when nothing can be
// traced here.
func traced(t *pbt.T, path, call, inject string, args []string) (code int, out []byte, hit, ok bool) {
	home, _ := os.Getwd()
	log := filepath.Join(filepath.Dir(home), "strace.log")
	os.Remove(log)
	sargs := append([]string{"-f", "-o", log, "-P", path, "-e", "trace=" + call, "-e", "inject=" + inject, os.Getenv("VERIF_CLI")}, args...)
	code, out, errb := runProg(nil, "/usr/bin/strace", sargs...)
	lg, _ := os.ReadFile(log)
	os.Remove(log)
	if !bytes.Contains(lg, []byte("+++")) {
		t.Label("no tracing here: %s", firstLine(errb))
		return 0, nil, false, false
	}
	return code, out, bytes.Contains(lg, []byte("INJECTED")), true
}

func whichCall(t *pbt.T, n int) string {
	k := 1
	if !t.OneIn(4) {
		k = 1 + t.Intn(n)
	}
	s := fmt.Sprint(k)
	if t.Bool() {
		s += "+"
	}
	return s
}

// oneFileFault: an addition during which reading one input or the old
// archive fails.
func oneFileFault(t *pbt.T) {
	fresh(t)
	a := drawAddition(t, false)
	for i := range a.bodies {
		if len(a.bodies[i]) > 1500 {
			a.bodies[i] = a.bodies[i][:1500]
		}
	}
	args := a.cliArgs(t)
	want := a.cliReference(t, args)
	enter("d")
	a.put()
	home, _ := os.Getwd()
	what, size := a.archive, len(a.old)
	if a.old == nil || t.Bool() {
		what, size = a.files[0], len(a.bodies[0])
	}
	path := what
	if !filepath.IsAbs(path) {
		path = filepath.Join(home, path)
	}
	err := []string{"EIO", "EINVAL", "ENOMEM", "ESTALE"}[t.Weighted(3, 1, 1, 1)]
	inject := "read:error=" + err + ":when=" + whichCall(t, 2+min(size, 60))
	t.Describe("%q with %s on %s", args, inject, what)
	code, _, hit, ok := traced(t, path, "read", inject, args)
	if !ok {
		return
	}
	if hit {
		t.NonTrivial()
		t.Label("read fault")
	} else if code != 0 {
		t.Fatalf("no fault, but exit status %d", code)
	}
	a.stopped(t, inject+" on "+what, code, want, args)
}

// readFault: reading the archive fails at one point while it is listed,
// tested, printed or extracted; success means that all of it was delivered.
func readFault(t *pbt.T) {
	fresh(t)
	fs := drawMembers(t, 1+t.Intn(3), ForeignOpt{Flat: true, Plain: true})
	var ms []*lharef.Member
	for _, f := range fs {
		if !plainName(f.Name) {
			return
		}
		ms = append(ms, f.M)
	}
	raw := lharef.Archive(ms...)
	if len(raw) > 4000 {
		return
	}
	enter("d")
	home, _ := os.Getwd()
	archive := filepath.Join(filepath.Dir(home), "a.lzh")
	writeFile(t, archive, raw)
	op := []string{"-e", "-p", "-t", "-l"}[t.Intn(4)]
	args := []string{"-archive", archive, op}
	_, clean, _ := runCLI(t, nil, args...)
	if es, err := os.ReadDir("."); err == nil {
		for _, e := range es {
			os.Remove(e.Name())
		}
	}
	inject := "read:error=" + []string{"EIO", "EINVAL", "ESTALE"}[t.Weighted(3, 1, 1)] + ":when=" + whichCall(t, 2+min(len(raw), 60))
	t.Label("%s", op)
	t.Describe("%s of %d bytes with %s", op, len(raw), inject)
	code, out, hit, ok := traced(t, archive, "read", inject, args)
	if !ok {
		return
	}
	if !hit {
		if code != 0 {
			t.Fatalf("no fault, but exit status %d", code)
		}
		return
	}
	t.NonTrivial()
	if code != 0 {
		t.Label("reported")
		return
	}
	if !bytes.Equal(out, clean) {
		t.Fatalf("%s with %s ends with status 0 but prints %d bytes, %d without a fault", op, inject, len(out), len(clean))
	}
	if op == "-e" {
		for _, f := range fs {
			if b, err := os.ReadFile(f.Name); err != nil || !bytes.Equal(b, f.Body) {
				t.Fatalf("%s with %s ends with status 0 but %q is not as recorded (%v)", op, inject, f.Name, err)
			}
		}
	}
	t.Label("not needed")
}

// lateFault: the system calls of an addition are recorded, then the same
// addition is run again with one of them failing, mostly one of the last.
func lateFault(t *pbt.T) {
	fresh(t)
	setZone("UTC") // no file is read for the time zone, which a fault could hit
	a := drawAddition(t, false)
	for i := range a.bodies {
		if len(a.bodies[i]) > 1500 {
			a.bodies[i] = a.bodies[i][:1500]
		}
	}
	if t.OneIn(5) { // does not shrink, and is read a second time to be stored
		a.bodies[t.Intn(len(a.bodies))] = noise(t, 1500+t.Intn(6000))
		t.Label("stored")
	}
	args := a.cliArgs(t)
	root, _ := os.Getwd()
	const calls = "write,pwrite64,lseek,ftruncate,fchmod,fchmodat,rename,renameat,renameat2,read,close"
	// the undisturbed run
	enter("ref")
	a.put()
	log := filepath.Join(root, "strace.log")
	code, _, errb := runProg(nil, "/usr/bin/strace", append([]string{"-f", "-o", log, "-e", "trace=" + calls, os.Getenv("VERIF_CLI")}, args...)...)
	lg, _ := os.ReadFile(log)
	if !bytes.Contains(lg, []byte("+++")) {
		t.Label("no tracing here: %s", firstLine(errb))
		return
	}
	if code != 0 {
		t.Fatalf("%q: exit status %d: %s", args, code, firstLine(errb))
	}
	want := readFile(a.archive)
	type made struct {
		call string
		n    int
	}
	var seq []made
	count := map[string]int{}
	for _, line := range strings.Split(string(lg), "\n") {
		f := strings.SplitN(line, " ", 2)
		if len(f) < 2 {
			continue
		}
		rest := strings.TrimLeft(f[1], " ")
		k := strings.IndexByte(rest, '(')
		if k <= 0 || strings.HasPrefix(rest, "<...") || strings.HasPrefix(rest, "+++") || strings.HasPrefix(rest, "---") {
			continue
		}
		call := rest[:k]
		count[f[0]+call]++
		seq = append(seq, made{call, count[f[0]+call]})
	}
	if len(seq) == 0 {
		return
	}
	back := t.Intn(len(seq))
	if !t.OneIn(4) {
		back = t.Intn(min(len(seq), 16))
	}
	c := seq[len(seq)-1-back]
	fault := "error=" + []string{"EIO", "ENOSPC", "EDQUOT", "ESTALE"}[t.Weighted(3, 2, 1, 1)]
	if t.OneIn(5) {
		fault = "signal=SIGKILL"
	}
	inject := fmt.Sprintf("%s:%s:when=%d", c.call, fault, c.n)
	if t.OneIn(4) {
		inject += "+"
	}
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
	enter("d")
	a.put()
	t.Describe("%q with %s (call %d before the last)", args, inject, back)
	os.Remove(log)
	code, _, errb = runProg(nil, "/usr/bin/strace", append([]string{"-f", "-o", log, "-e", "trace=" + calls, "-e", "inject=" + inject, os.Getenv("VERIF_CLI")}, args...)...)
	lg, _ = os.ReadFile(log)
	if bytes.Contains(lg, []byte("INJECTED")) || bytes.Contains(lg, []byte("killed by SIGKILL")) {
		t.NonTrivial()
		t.Label("%s", c.call)
	} else if code != 0 {
		t.Fatalf("no fault, but exit status %d: %s", code, firstLine(errb))
	}
	a.stopped(t, inject, code, want, args)
}
