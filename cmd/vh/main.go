// Command vh runs the generated-input checks of /verif.
//
//	vh run PROP            run a check (VERIF_SEED, VERIF_TIER)
//	vh replay FILE         run one saved failure again
//	vh worker ... | one    internal
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/pbt"
	"verif/props"
)

const (
	shards      = 8
	nobody      = 65534
	defaultCPU  = 60
	memLimitMB  = 2500
	shrinkTries = 400
	quickWall   = 400 * time.Second
	quickTotal  = 780 * time.Second
	unconfirmed = 3
	wallLimit   = 200 * time.Second // of one case
)

type msg struct {
	T       string   `json:"t"`
	Section string   `json:"s,omitempty"`
	Index   int      `json:"i"`
	Msg     string   `json:"m,omitempty"`
	Labels  []string `json:"l,omitempty"`
	NonTriv bool     `json:"n,omitempty"`
	Key     string   `json:"k,omitempty"`
	Desc    []string `json:"d,omitempty"`
	Known   []string `json:"w,omitempty"`
	Choices []uint64 `json:"c,omitempty"`
	First   []uint64 `json:"c0,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"` // choices | history
	Tier     string   `json:"tier"`
	Seed     int64    `json:"seed"`
	Section  string   `json:"section"`
	Index    int      `json:"index"`
	Shard    int      `json:"shard"`
	From     int      `json:"from"` // history: first position of the shard's case list to run
	Choices  []uint64 `json:"choices,omitempty"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
}

type caseID struct {
	section int
	index   int
}

func caseList(p *pbt.Prop, tier string, shard int) []caseID {
	var all []caseID
	max := 0
	count := func(s pbt.Section) int {
		if tier == "thorough" {
			return s.Thorough
		}
		return s.Quick
	}
	for _, s := range p.Sections {
		if c := count(s); c > max {
			max = c
		}
	}
	// interleave the sections evenly
	type item struct {
		pos float64
		c   caseID
	}
	var items []item
	only := os.Getenv("VERIF_SECTION") // development: restrict to sections containing this text
	for si, s := range p.Sections {
		n := count(s)
		if only != "" && !strings.Contains(s.Name, only) {
			continue
		}
		for i := 0; i < n; i++ {
			items = append(items, item{(float64(i) + 0.5) / float64(n), caseID{si, i}})
		}
	}
	sort.SliceStable(items, func(a, b int) bool { return items[a].pos < items[b].pos })
	for k, it := range items {
		if k%shards == shard {
			all = append(all, it.c)
		}
	}
	return all
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run PROP | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runCheck(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "cold":
		props.ColdMain(os.Args[2])
	case "list":
		for _, id := range pbt.IDs() {
			p := pbt.Get(id)
			for _, s := range p.Sections {
				fmt.Println(id, s.Name, s.Quick, s.Thorough)
			}
		}
	default:
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- worker

func cpuNow() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	from := fs.Int("from", 0, "")
	only := fs.String("only", "", "section:index, alone")
	until := fs.String("until", "", "section:index, last case to run")
	choices := fs.String("choices", "", "file with a choice list, with -only")
	dir := fs.String("dir", "", "scratch directory")
	noshrink := fs.Bool("noshrink", false, "")
	wall := fs.Duration("wall", 0, "begin no case after this time")
	fs.Parse(args)
	out := os.NewFile(3, "report")
	var mu sync.Mutex
	bw := bufio.NewWriter(out)
	send := func(m msg, flush bool) {
		b, _ := json.Marshal(m)
		mu.Lock()
		bw.Write(b)
		bw.WriteByte('\n')
		if flush {
			bw.Flush()
		}
		mu.Unlock()
	}
	p := pbt.Get(*prop)
	if p == nil {
		send(msg{T: "x", Msg: "no property " + *prop}, true)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(2)
	limit := p.CPULimit
	if limit == 0 {
		limit = defaultCPU
	}
	var active int64
	var startCPU int64
	var curS atomic.Value
	curS.Store(msg{})
	go func() {
		var seen int64
		var since time.Time
		for {
			time.Sleep(250 * time.Millisecond)
			a := atomic.LoadInt64(&active)
			if a == 0 {
				continue
			}
			if a != seen {
				seen, since = a, time.Now()
			} else if time.Since(since) > wallLimit { // waits for what does not come
				m := curS.Load().(msg)
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				m.T = "hang"
				m.Msg = fmt.Sprintf("no result after %v; %s", wallLimit, libFrames(string(buf[:n])))
				send(m, true)
				os.Exit(3)
			}
			c := int64(cpuNow())
			if c-atomic.LoadInt64(&startCPU) > int64(limit)*int64(time.Second) && atomic.LoadInt64(&active) == a {
				m := curS.Load().(msg)
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				m.T = "hang"
				m.Msg = fmt.Sprintf("no result after %d s of CPU time; %s", limit, libFrames(string(buf[:n])))
				send(m, true)
				os.Exit(3)
			}
			if r := rssMB(); r > memLimitMB {
				m := curS.Load().(msg)
				m.T = "hang"
				m.Msg = fmt.Sprintf("resident memory reached %d MB", r)
				send(m, true)
				os.Exit(3)
			}
		}
	}()
	devnull, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err == nil {
		keepFiles = []*os.File{os.Stdin, os.Stdout, os.Stderr} // or they are closed when collected
		os.Stdout = devnull
		os.Stdin = devnull
		if os.Getenv("VERIF_DEBUG") == "" {
			os.Stderr = devnull
		}
	}
	if p.Setup != nil {
		p.Setup()
	}
	prep := func(t *pbt.T) {
		work := filepath.Join(*dir, "w")
		os.Chdir(*dir)
		if ents, err := os.ReadDir(*dir); err == nil && !(len(ents) == 1 && emptyDir(work)) {
			for _, e := range ents {
				unlock(filepath.Join(*dir, e.Name()))
				os.RemoveAll(filepath.Join(*dir, e.Name()))
			}
		}
		os.MkdirAll(work, 0777)
		if err := os.Chdir(work); err != nil {
			panic(err)
		}
		syscall.Umask(022)
		t.Dir = work
	}
	serial := int64(0)
	run := func(si int, t *pbt.T) pbt.Result {
		prep(t)
		serial++
		atomic.StoreInt64(&startCPU, int64(cpuNow()))
		atomic.StoreInt64(&active, serial)
		r := pbt.Execute(t, p.Sections[si].Run)
		atomic.StoreInt64(&active, 0)
		return r
	}
	secIndex := func(name string) int {
		for i, s := range p.Sections {
			if s.Name == name {
				return i
			}
		}
		return -1
	}
	parse := func(s string) caseID {
		k := strings.LastIndex(s, ":")
		n, _ := strconv.Atoi(s[k+1:])
		return caseID{secIndex(s[:k]), n}
	}
	list := caseList(p, *tier, *shard)
	if *from > 0 {
		list = list[*from:]
	}
	if *only != "" {
		list = []caseID{parse(*only)}
	}
	var last caseID
	if *until != "" {
		last = parse(*until)
	}
	var fixed []uint64
	if *choices != "" {
		b, err := os.ReadFile(*choices)
		if err == nil {
			err = json.Unmarshal(b, &fixed)
		}
		if err != nil {
			send(msg{T: "x", Msg: err.Error()}, true)
			os.Exit(2)
		}
	}
	samples := map[int]int{}
	began := time.Now()
	for _, c := range list {
		if *wall > 0 && time.Since(began) > *wall {
			break
		}
		s := p.Sections[c.section]
		m := msg{T: "b", Section: s.Name, Index: c.index}
		curS.Store(m)
		send(m, true)
		var t *pbt.T
		if fixed != nil {
			t = pbt.NewReplay(fixed)
		} else {
			t = pbt.NewRandom(pbt.SeedFor(*seed, p.ID, s.Name, c.index))
		}
		r := run(c.section, t)
		if r.Harness != "" && !scarce(r.Harness) {
			// a step of the check that always works did not, after what the
			// library did: a failure if it happens again in a new process
			send(msg{T: "f", Section: s.Name, Index: c.index, Msg: "the check could not go on after what the library did: " + r.Harness, Desc: r.Desc, First: r.Choices}, true)
			os.Exit(1)
		}
		if r.Harness != "" {
			send(msg{T: "x", Section: s.Name, Index: c.index, Msg: r.Harness}, true)
			os.Exit(2)
		}
		if r.Failed {
			first := r
			if !*noshrink {
				start := cpuNow()
				r = pbt.Shrink(r, shrinkTries, func() bool { return cpuNow()-start > 15*time.Second }, func(ch []uint64) pbt.Result {
					return run(c.section, pbt.NewReplay(ch))
				})
			}
			send(msg{T: "f", Section: s.Name, Index: c.index, Msg: r.Msg, Desc: r.Desc, Choices: r.Choices, First: first.Choices}, true)
			os.Exit(1)
		}
		e := msg{T: "e", Section: s.Name, Index: c.index, Labels: r.Labels, NonTriv: r.NonTriv, Key: hex.EncodeToString(r.Key[:]), Known: r.Known}
		if r.NonTriv && samples[c.section] < 1 {
			samples[c.section]++
			e.Desc = r.Desc
		}
		send(e, false)
		if *until != "" && c == last {
			break
		}
	}
	send(msg{T: "done"}, true)
	if os.Getenv("VERIF_DEBUG") == "keep" {
		os.Exit(0)
	}
	os.Exit(0)
}

var keepFiles []*os.File

func emptyDir(d string) bool {
	e, err := os.ReadDir(d)
	return err == nil && len(e) == 0
}

func unlock(root string) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() && fi.Mode().Perm()&0700 != 0700 {
			os.Chmod(p, 0700)
		}
		return nil
	})
}

func libFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/repo/") && len(out) < 3 {
			if i := strings.LastIndex(l, " +"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimPrefix(l, "/repo/"))
		}
	}
	return "in [" + strings.Join(out, " < ") + "]"
}

// ---------------------------------------------------------------- parent

type outcome struct {
	kind    string // done | fail | hang | crash | harness
	m       msg
	lastB   msg
	stderr  string
	begun   int
	elapsed time.Duration
}

type collector struct {
	mu     sync.Mutex
	evals  int
	keys   map[string]bool
	labels map[string]map[string]int
	persec map[string]int
	sample map[string][]string
	known  map[string]int
}

var verifRoot string

func init() {
	exe, err := os.Executable()
	if err == nil {
		// <root>/.build/vh
		verifRoot = filepath.Dir(filepath.Dir(exe))
	}
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		verifRoot = r
	}
}

// the users of the namespace some workers run in; outside it they are
// nobody in particular
const (
	nsFirst = 3000000000
	nsSize  = 65536
)

var nsOnce sync.Once
var nsWorks bool

func nsAttr(a *syscall.SysProcAttr) {
	m := []syscall.SysProcIDMap{{ContainerID: 0, HostID: nsFirst, Size: nsSize}}
	a.Cloneflags |= syscall.CLONE_NEWUSER
	a.UidMappings, a.GidMappings = m, m
	a.Credential = &syscall.Credential{Uid: 0, Gid: 0, NoSetGroups: true}
}

// useNS tells whether this shard runs in a user namespace of its own.
func useNS(p *pbt.Prop, shard int) bool {
	if !p.Userns || shard%2 == 0 || os.Geteuid() != 0 {
		return false
	}
	nsOnce.Do(func() {
		cmd := exec.Command("/bin/true")
		cmd.SysProcAttr = &syscall.SysProcAttr{}
		nsAttr(cmd.SysProcAttr)
		nsWorks = cmd.Run() == nil
	})
	return nsWorks
}

func runWorker(ns bool, base string, name string, col *collector, stop <-chan struct{}, args ...string) outcome {
	dir := filepath.Join(base, name, "p", "q", "r", "s")
	if err := os.MkdirAll(dir, 0777); err != nil {
		return outcome{kind: "harness", m: msg{Msg: err.Error()}}
	}
	root := os.Geteuid() == 0
	if root {
		filepath.Walk(filepath.Join(base, name), func(p string, fi os.FileInfo, err error) error {
			if ns {
				os.Chown(p, nsFirst, nsFirst)
			} else {
				os.Chown(p, nobody, nobody)
			}
			return nil
		})
	}
	r, w, err := os.Pipe()
	if err != nil {
		return outcome{kind: "harness", m: msg{Msg: err.Error()}}
	}
	cmd := exec.Command(filepath.Join(base, "vh"), append([]string{"worker", "-dir", dir}, args...)...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOTRACEBACK=all", "GOGC=50", "TZ=" + os.Getenv("TZ"),
		"VERIF_DEBUG=" + os.Getenv("VERIF_DEBUG"), "VERIF_SECTION=" + os.Getenv("VERIF_SECTION"), "VERIF_CLI=" + filepath.Join(base, "lharc")}
	var errbuf tailBuf
	cmd.Stderr = &errbuf
	cmd.ExtraFiles = []*os.File{w}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if ns {
		nsAttr(cmd.SysProcAttr)
	} else if root {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	begin := time.Now()
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		w.Close()
		r.Close()
		return outcome{kind: "harness", m: msg{Msg: "start: " + err.Error()}}
	}
	w.Close()
	fin := make(chan struct{})
	go func() {
		select {
		case <-stop:
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		case <-fin:
		}
	}()
	o := outcome{kind: "crash"}
	sc := bufio.NewReaderSize(r, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			break
		}
		var m msg
		if json.Unmarshal(line, &m) != nil {
			continue
		}
		switch m.T {
		case "b":
			o.lastB = m
			o.begun++
		case "e":
			if col != nil {
				col.add(m)
			}
		case "f":
			o.kind, o.m = "fail", m
		case "hang":
			o.kind, o.m = "hang", m
		case "x":
			o.kind, o.m = "harness", m
		case "done":
			o.kind = "done"
		}
	}
	cmd.Wait()
	close(fin)
	r.Close()
	o.stderr = errbuf.String()
	if o.stderr == "" && cmd.ProcessState != nil {
		o.stderr = cmd.ProcessState.String()
	}
	o.elapsed = time.Since(begin)
	return o
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func (c *collector) add(m msg) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	c.persec[m.Section]++
	if m.NonTriv {
		c.keys[m.Section+m.Key] = true
	}
	if c.labels[m.Section] == nil {
		c.labels[m.Section] = map[string]int{}
	}
	for _, l := range m.Labels {
		c.labels[m.Section][l]++
	}
	for _, k := range m.Known {
		c.known[k]++
	}
	if len(m.Desc) > 0 && len(c.sample[m.Section]) == 0 {
		c.sample[m.Section] = m.Desc
	}
}

func scratch() (string, error) {
	base, err := os.MkdirTemp("", "verif-lha-")
	if err != nil {
		return "", err
	}
	os.Chmod(base, 0755)
	exe, err := os.Executable()
	if err != nil {
		return base, err
	}
	for _, f := range []string{exe, filepath.Join(filepath.Dir(exe), "lharc")} {
		b, err := os.ReadFile(f)
		if err != nil {
			return base, err
		}
		if err := os.WriteFile(filepath.Join(base, filepath.Base(f)), b, 0755); err != nil {
			return base, err
		}
	}
	return base, nil
}

func cleanup(base string) {
	if strings.Contains(base, "verif-lha-") {
		unlock(base)
		os.RemoveAll(base)
	}
}

func env() (tier string, seed int64) {
	tier = os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return
}

type failure struct {
	shard int
	o     outcome
}

// explore runs all cases of a tier, until one fails.
func explore(p *pbt.Prop, base, tier string, seed int64, round int, wall time.Duration) (*collector, *failure) {
	col := &collector{keys: map[string]bool{}, labels: map[string]map[string]int{}, persec: map[string]int{}, sample: map[string][]string{}, known: map[string]int{}}
	stop := make(chan struct{})
	results := make(chan failure, shards)
	common := []string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed)}
	if tier == "quick" {
		common = append(common, "-wall", wall.String()) // a slow machine gets an answer in time too
	}
	for i := 0; i < shards; i++ {
		go func(i int) {
			o := runWorker(useNS(p, i), base, fmt.Sprintf("s%d.%d", round, i), col, stop, append(common[:len(common):len(common)], "-shard", fmt.Sprint(i))...)
			results <- failure{i, o}
		}(i)
	}
	var bad *failure
	for i := 0; i < shards; i++ {
		r := <-results
		if r.o.kind != "done" && bad == nil {
			rr := r
			bad = &rr
			close(stop)
		}
	}
	return col, bad
}

func runCheck(id string) int {
	p := pbt.Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	tier, seed := env()
	start := time.Now()
	base, err := scratch()
	if base != "" {
		defer cleanup(base)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		return 2
	}
	planned := 0
	for i := 0; i < shards; i++ {
		planned += len(caseList(p, tier, i))
	}
	var col *collector
	code, violations := 0, 0
	for round := 0; round < 2; round++ {
		wall := quickWall
		if round > 0 && tier == "quick" {
			wall = min(wall, quickTotal-time.Since(start))
			if wall < time.Minute {
				code = 2
				break
			}
		}
		var bad *failure
		col, bad = explore(p, base, tier, seed, round, wall)
		if bad == nil {
			if round > 0 {
				fmt.Println("nothing fails in a second run of all cases: what failed once was not the code")
			}
			code = 0
			break
		}
		code = report(p, base, tier, seed, bad.shard, bad.o, round > 0)
		if code == 1 {
			violations = 1
		}
		if code != unconfirmed {
			break
		}
	}
	kf, err := knownFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var kk []string
	for k := range col.known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		d, ok := kf[id+"/"+k]
		if !ok {
			// a check may only tolerate what the file lists
			fmt.Printf("a check tolerated %q, which the known-findings file does not list\n", k)
			if code == 0 {
				code = 2
			}
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, d)
	}
	if err := writeEvidence(p, tier, seed, col, violations, planned, time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, exit %d\n", id, tier, seed, col.evals, len(col.keys), time.Since(start).Seconds(), code)
	return code
}

// knownFindings reads known_findings.txt: "finding: property=C01 key=name text".
func knownFindings() (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifRoot, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return out, nil
		}
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			return nil, fmt.Errorf("known_findings.txt: bad line %q", l)
		}
		out[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return out, nil
}

// scarce tells a lack of memory, disk or processes from other errors.
func scarce(m string) bool {
	for _, e := range []syscall.Errno{syscall.ENOSPC, syscall.ENOMEM, syscall.EMFILE, syscall.ENFILE, syscall.EAGAIN, syscall.EIO, syscall.EDQUOT, syscall.EROFS} {
		if strings.Contains(m, e.Error()) {
			return true
		}
	}
	return false
}

func never() chan struct{} { return make(chan struct{}) }

// report confirms a failure in a fresh process and prints the verdict.
// What cannot be seen again is reported only in the last round.
func report(p *pbt.Prop, base, tier string, seed int64, shard int, o outcome, last bool) int {
	if !last && (o.kind == "harness" || o.kind == "crash" && o.begun == 0) {
		fmt.Printf("no answer (%s %s); all cases are run again\n", clip(o.m.Msg), clip(o.stderr))
		return unconfirmed
	}
	if o.kind == "harness" {
		fmt.Fprintf(os.Stderr, "harness error in %s:%d: %s\n", o.m.Section, o.m.Index, o.m.Msg)
		return 2
	}
	common := []string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-noshrink"}
	confirm := func(n string, args ...string) outcome {
		return runWorker(useNS(p, shard), base, n, nil, never(), append(append([]string{}, common...), args...)...)
	}
	isBad := func(o outcome) bool { return o.kind == "fail" || o.kind == "hang" || o.kind == "crash" && o.begun > 0 }
	c := o.m
	if o.kind == "crash" {
		c = o.lastB
		c.Msg = "the process died: " + firstLines(o.stderr)
		if o.begun == 0 {
			fmt.Fprintf(os.Stderr, "worker died before its first case: %s\n", o.stderr)
			return 2
		}
	}
	id := fmt.Sprintf("%s:%d", c.Section, c.Index)
	rf := replayFile{Property: p.ID, Tier: tier, Seed: seed, Section: c.Section, Index: c.Index, Shard: shard, Message: c.Msg, Case: c.Desc}
	// 1. the shrunk case, 2. the case as generated, 3. the history that led to it
	for i, ch := range [][]uint64{o.m.Choices, o.m.First} {
		if o.kind != "fail" || ch == nil {
			continue
		}
		f := filepath.Join(base, fmt.Sprintf("choices%d.json", i))
		b, _ := json.Marshal(ch)
		os.WriteFile(f, b, 0644)
		if r := confirm(fmt.Sprintf("confirm%d", i), "-only", id, "-choices", f); isBad(r) {
			rf.Kind, rf.Choices = "choices", ch
			if r.kind == "fail" {
				rf.Message, rf.Case = r.m.Msg, r.m.Desc
			}
			return verdict(rf)
		}
	}
	if r := confirm("confirm2", "-only", id); isBad(r) {
		rf.Kind = "case"
		if r.m.Msg != "" {
			rf.Message = r.m.Msg
		} else if r.kind == "crash" {
			rf.Message = "the process died: " + firstLines(r.stderr)
		}
		return verdict(rf)
	}
	// a failure that needs what ran before it in the same process
	list := caseList(p, tier, shard)
	pos := -1
	for i, cc := range list {
		if p.Sections[cc.section].Name == c.Section && cc.index == c.Index {
			pos = i
		}
	}
	for _, back := range []int{1, 2, 4, 16, 64, 256, 1 << 20} {
		from := pos - back
		if from < 0 {
			from = 0
		}
		r := confirm(fmt.Sprintf("hist%d", back), "-shard", fmt.Sprint(shard), "-from", fmt.Sprint(from), "-until", id)
		if isBad(r) {
			rf.Kind, rf.From = "history", from
			if r.kind == "fail" {
				rf.Message, rf.Case = r.m.Msg, r.m.Desc
			}
			rf.Message += fmt.Sprintf(" (only after the %d cases before it in the same process)", pos-from)
			return verdict(rf)
		}
		if from == 0 {
			break
		}
	}
	// a failure that depends on more than the input: the order of threads, say
	for i := 0; i < retries; i++ {
		if r := confirm(fmt.Sprintf("again%d", i), "-only", id); isBad(r) {
			rf.Kind = "case"
			rf.Message += fmt.Sprintf(" (not each time: it took %d more runs of the case to see it again)", i+2)
			return verdict(rf)
		}
	}
	if !last {
		fmt.Printf("%s failed once, and not in %d more runs: %q; all cases are run again\n", id, retries+1, clip(c.Msg))
		return unconfirmed
	}
	if o.kind == "fail" {
		rf.Kind = "case"
		rf.Message += fmt.Sprintf(" (seen once, and not in %d more runs of the case)", retries+1)
		return verdict(rf)
	}
	fmt.Fprintf(os.Stderr, "could not reproduce %s: %s\n", id, c.Msg)
	return 2
}

const retries = 20

func firstLines(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 3 {
		ls = ls[:3]
	}
	out := strings.Join(ls, " / ")
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

func verdict(rf replayFile) int {
	b, _ := json.MarshalIndent(rf, "", " ")
	h := sha256.Sum256(b)
	dir := filepath.Join(verifRoot, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", rf.Property, hex.EncodeToString(h[:4])))
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %q\n", rf.Section, clip(rf.Message))
	for _, d := range rf.Case {
		fmt.Printf("  case: %q\n", clip(d))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func clip(s string) string {
	if len(s) > 800 {
		return s[:800] + "..."
	}
	return s
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := pbt.Get(rf.Property)
	if p == nil {
		return 2
	}
	base, err := scratch()
	if base != "" {
		defer cleanup(base)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	args := []string{"-prop", rf.Property, "-tier", rf.Tier, "-seed", fmt.Sprint(rf.Seed), "-noshrink"}
	id := fmt.Sprintf("%s:%d", rf.Section, rf.Index)
	switch rf.Kind {
	case "choices":
		f := filepath.Join(base, "choices.json")
		cb, _ := json.Marshal(rf.Choices)
		os.WriteFile(f, cb, 0644)
		args = append(args, "-only", id, "-choices", f)
	case "case":
		args = append(args, "-only", id)
	case "history":
		args = append(args, "-shard", fmt.Sprint(rf.Shard), "-from", fmt.Sprint(rf.From), "-until", id)
	}
	var o outcome
	for i := 0; i <= retries; i++ { // not every failure comes up each time
		o = runWorker(useNS(p, rf.Shard), base, fmt.Sprintf("replay%d", i), nil, never(), args...)
		if o.kind != "done" || rf.Kind != "case" {
			break
		}
	}
	switch o.kind {
	case "done":
		fmt.Println("the case passes")
		return 0
	case "harness":
		fmt.Fprintln(os.Stderr, o.m.Msg)
		return 2
	}
	fmt.Printf("%s: %q %s\n", o.kind, clip(o.m.Msg), firstLines(o.stderr))
	for _, d := range o.m.Desc {
		fmt.Printf("  case: %q\n", clip(d))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

func writeEvidence(p *pbt.Prop, tier string, seed int64, col *collector, violations, planned int, wall time.Duration) error {
	type sample struct {
		Section string   `json:"section"`
		Case    []string `json:"case"`
	}
	var samples []sample
	var names []string
	for s := range col.sample {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		var d []string
		for _, l := range col.sample[s] {
			d = append(d, strings.ToValidUTF8(l, "?"))
		}
		samples = append(samples, sample{s, d})
	}
	if samples == nil {
		samples = []sample{}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    level,
		"coverage": map[string]interface{}{
			"evaluations":         col.evals,
			"distinct_nontrivial": len(col.keys),
			"rule":                p.Rule,
			"samples":             samples,
			"cases_per_section":   col.persec,
			"classes":             col.labels,
		},
		"assumptions": p.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	if planned != col.evals && violations == 0 {
		ev["coverage"].(map[string]interface{})["cut_short_by_time_planned"] = planned
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(verifRoot, "evidence"), 0755)
	return os.WriteFile(filepath.Join(verifRoot, "evidence", p.ID+".json"), b, 0644)
}
