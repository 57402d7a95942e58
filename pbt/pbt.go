// Package pbt is a small property-based testing engine. A case is the list of
// integer choices its generator drew; the same list always produces the same
// case, so a failure is shrunk by editing the list and replayed from it.
package pbt

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
)

// T is one running case.
type T struct {
	replay  []uint64
	rng     *rand.Rand
	rec     []uint64
	pos     int
	labels  map[string]int
	nontriv bool
	desc    []string
	known   []string
	Dir     string // scratch directory, empty when the case starts
	History bool
}

type failure struct{ msg string }

// SeedFor derives the seed of a case.
func SeedFor(seed int64, prop, section string, index int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", seed, prop, section, index)))
	return int64(binary.LittleEndian.Uint64(h[:]) >> 1)
}

// NewRandom starts a case that draws fresh choices.
func NewRandom(seed int64) *T {
	return &T{rng: rand.New(rand.NewSource(seed)), labels: map[string]int{}}
}

// NewReplay starts a case that reuses recorded choices; past the end it draws zeros.
func NewReplay(ch []uint64) *T { return &T{replay: ch, labels: map[string]int{}} }

// Uint64n draws a number below n. Zero is the simplest value.
func (t *T) Uint64n(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.rng != nil {
		v = t.rng.Uint64() % n
	} else if t.pos < len(t.replay) {
		v = t.replay[t.pos]
		if v >= n {
			v %= n
		}
	}
	t.pos++
	t.rec = append(t.rec, v)
	return v
}

// Intn draws in [0,n).
func (t *T) Intn(n int) int { return int(t.Uint64n(uint64(n))) }

// Range draws in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Bool draws a boolean, false being simplest.
func (t *T) Bool() bool { return t.Intn(2) == 1 }

// OneIn is true with probability 1/n; false is simplest.
func (t *T) OneIn(n int) bool { return t.Intn(n) == n-1 }

// Weighted picks an index with the given weights; index 0 is simplest.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.Intn(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Sub is a pseudo-random source determined by one drawn choice, for bulk data.
func (t *T) Sub() *rand.Rand { return rand.New(rand.NewSource(int64(t.Uint64n(1 << 32)))) }

// Label counts a class of cases.
func (t *T) Label(format string, a ...interface{}) {
	t.labels[fmt.Sprintf(format, a...)]++
}

// NonTrivial marks the case as non-trivial by the rule of its check.
func (t *T) NonTrivial() { t.nontriv = true }

// Describe adds a line to the description of the case.
func (t *T) Describe(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	t.desc = append(t.desc, s)
}

// Known records that a listed finding was met in this case.
func (t *T) Known(key string) { t.known = append(t.known, key) }

// Fatalf fails the case.
func (t *T) Fatalf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Lib runs code under test: a panic in it is a failure of the property.
func (t *T) Lib(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			panic(failure{fmt.Sprintf("%s: panic: %v%s", what, r, site(string(debug.Stack())))})
		}
	}()
	f()
}

// site picks the library frames out of a stack.
func site(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/repo/") && len(out) < 4 {
			if i := strings.LastIndex(l, " +"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimPrefix(l, "/repo/"))
		}
	}
	return " at [" + strings.Join(out, " < ") + "]"
}

// Result of one case.
type Result struct {
	Failed  bool
	Msg     string
	Harness string // non-empty: the harness itself broke
	Choices []uint64
	Labels  []string
	NonTriv bool
	Desc    []string
	Known   []string
	Key     [8]byte
}

// Execute runs f on t.
func Execute(t *T, f func(*T)) (res Result) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if fl, ok := r.(failure); ok {
					res.Failed = true
					res.Msg = fl.msg
					return
				}
				res.Harness = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			}
		}()
		f(t)
	}()
	res.Choices = t.rec
	res.NonTriv = t.nontriv
	res.Desc = t.desc
	res.Known = t.known
	for l := range t.labels {
		res.Labels = append(res.Labels, l)
	}
	sort.Strings(res.Labels)
	h := sha256.New()
	var b [8]byte
	for _, c := range t.rec {
		binary.LittleEndian.PutUint64(b[:], c)
		h.Write(b[:])
	}
	copy(res.Key[:], h.Sum(nil))
	return
}

// Shrink looks for a simpler choice list for which run still fails.
// run must return the result for a list. budget bounds the executions.
func Shrink(first Result, budget int, stop func() bool, run func([]uint64) Result) Result {
	best := first
	cur := append([]uint64{}, first.Choices...)
	n := 0
	try := func(c []uint64) bool {
		if n >= budget || stop() {
			return false
		}
		n++
		r := run(c)
		if r.Failed && less(r.Choices, best.Choices) {
			best = r
			cur = append([]uint64{}, r.Choices...)
			return true
		}
		return false
	}
	for improved := true; improved && n < budget && !stop(); {
		improved = false
		for size := len(cur); size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); {
				c := append(append([]uint64{}, cur[:i]...), cur[i+size:]...)
				if try(c) {
					improved = true
				} else {
					i += size
				}
				if n >= budget || stop() {
					return best
				}
			}
		}
		for size := len(cur); size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); i += size {
				zero := true
				for _, v := range cur[i : i+size] {
					if v != 0 {
						zero = false
					}
				}
				if zero {
					continue
				}
				c := append([]uint64{}, cur...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(cur); i++ {
			lo, hi := uint64(0), cur[i]
			for lo < hi && i < len(cur) && n < budget {
				mid := lo + (hi-lo)/2
				c := append([]uint64{}, cur...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(cur) {
						break
					}
					hi = mid
					if cur[i] < hi {
						hi = cur[i]
					}
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Section is one generated population of a check.
type Section struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(t *T)
}

// Prop is one property with its sections.
type Prop struct {
	ID       string
	Rule     string
	Assume   []string
	Setup    func()
	CPULimit int // seconds of CPU time a case may take (0: default)
	Level    string
	Userns   bool // half of the workers may give files away, in a user namespace
	Sections []Section
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { registry[p.ID] = p }

// Get finds a property.
func Get(id string) *Prop { return registry[id] }

// IDs lists what is registered.
func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
