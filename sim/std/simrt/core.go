// Package simrt is the deterministic simulator's library. The build overlay
// places it in the Go distribution so that harnesses in every module of the
// repository can import it.
//
// One integer decides everything in a run: every choice a scenario or fault
// model makes is a function of (seed, label, occurrence of the label), and the
// runtime's scheduler draws from the same seed. A recorded run lists its
// non-zero choices and its scheduling decisions; replaying that list, or a
// subset of it, is again a pure function. Zero is always the plainest choice
// (no fault, first item, no delay), so removing an entry simplifies the run.
package simrt

import (
	"fmt"
	"internal/race"
	"runtime"
	"strconv"
	"strings"
	"time"
)

const (
	maxChoices  = 1 << 14
	maxCounters = 1 << 12
	maxLog      = 1 << 15
	maxLabels   = 1 << 14
)

// Choice is one recorded decision of a scenario or fault model.
type Choice struct {
	K string `json:"k"`
	V int    `json:"v"`
}

// Spec selects one run.
type Spec struct {
	Seed     uint64      `json:"seed"`
	Fixed    bool        `json:"fixed,omitempty"` // take every choice from the lists below
	Choices  []Choice    `json:"choices,omitempty"`
	Preempts []uint64    `json:"preempts,omitempty"`
	Picks    [][2]uint64 `json:"picks,omitempty"`
	Lives    []Spec      `json:"lives,omitempty"` // process lifetimes of the run
}

// Failure is a violation seen during a run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type labelCount struct {
	h uint64
	n uint32
}

type counter struct {
	name string
	n    uint64
}

// Run is one simulated execution.
type Run struct {
	Spec    Spec
	Tier    string
	Verbose bool

	fixedK []string
	fixedV []int

	LifeEnv  []string // environment of the lives
	choices  []Choice // preallocated; written without synchronisation by design
	nChoices int
	labels   []labelCount
	fails    []Failure
	nFails   int
	evHash   uint64
	nEvents  int
	log      []string
	nLog     int
	notriv   bool
	mainDone bool
	start    int64
	maxLive  int
	simtime  int64
	ignLeak  bool
	scratch  string
	lives    []Spec
	fs       *FS

	lifeSched, lifeSteps, lifeSwitches uint64
}

var counters [maxCounters]counter

var (
	choiceBuf [maxChoices]Choice
	labelBuf  [maxLabels]labelCount
	logBuf    [maxLog]string
	failBuf   [16]Failure
)

//go:norace
func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

//go:norace
func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// Mix hashes a pair of integers.
//
//go:norace
func Mix(a, b uint64) uint64 { return mix(mix(a+0x9e3779b97f4a7c15) ^ (b * 0xff51afd7ed558ccd)) }

// HashBytes is a 64-bit hash.
//
//go:norace
func HashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	return mix(h)
}

//go:norace
func (r *Run) occurrence(h uint64) uint32 {
	i := int(h % maxLabels)
	for k := 0; k < maxLabels; k++ {
		e := &r.labels[i]
		if e.h == h {
			e.n++
			return e.n - 1
		}
		if e.h == 0 {
			e.h = h
			e.n = 1
			return 0
		}
		i++
		if i == maxLabels {
			i = 0
		}
	}
	panic("simrt: too many labels")
}

// draw returns the raw 64-bit random value of the next occurrence of label, or
// the recorded value.
//
//go:norace
func (r *Run) draw(label string) (raw uint64, key string, fixed int, isFixed bool) {
	h := hashStr(label)
	if h == 0 {
		h = 1
	}
	occ := r.occurrence(h)
	key = label
	if occ > 0 {
		key = label + "#" + strconv.Itoa(int(occ))
	}
	if r.Spec.Fixed {
		lo, hi := 0, len(r.fixedK)
		for lo < hi {
			m := (lo + hi) / 2
			if r.fixedK[m] < key {
				lo = m + 1
			} else {
				hi = m
			}
		}
		if lo < len(r.fixedK) && r.fixedK[lo] == key {
			return 0, key, r.fixedV[lo], true
		}
		return 0, key, 0, true
	}
	return mix(mix(r.Spec.Seed^h) + uint64(occ)*0x9e3779b97f4a7c15), key, 0, false
}

//go:norace
func (r *Run) record(key string, v int) {
	if v != 0 && r.nChoices < maxChoices {
		r.choices[r.nChoices].K = key
		r.choices[r.nChoices].V = v
		r.nChoices++
	}
}

// Int chooses uniformly from [0, n).
//
//go:norace
func (r *Run) Int(label string, n int) int {
	if n <= 1 {
		return 0
	}
	raw, key, v, fixed := r.draw(label)
	if !fixed {
		v = int((raw >> 1) % uint64(n))
	} else if v < 0 || v >= n {
		v = ((v % n) + n) % n
	}
	r.record(key, v)
	return v
}

// Chance is true with probability num/den; false is the plain choice.
//
//go:norace
func (r *Run) Chance(label string, num, den int) bool {
	raw, key, v, fixed := r.draw(label)
	if !fixed {
		v = 0
		if int((raw>>1)%uint64(den)) < num {
			v = 1
		}
	}
	if v != 0 {
		v = 1
	}
	r.record(key, v)
	return v == 1
}

// Weighted chooses an index with the given weights.
//
//go:norace
func (r *Run) Weighted(label string, w ...int) int {
	t := 0
	for i := 0; i < len(w); i++ {
		t += w[i]
	}
	raw, key, v, fixed := r.draw(label)
	if !fixed {
		x := int((raw >> 1) % uint64(t))
		v = 0
		for x >= w[v] {
			x -= w[v]
			v++
		}
	} else if v < 0 || v >= len(w) {
		v = 0
	}
	r.record(key, v)
	return v
}

// Pos chooses a position in [0, n) with extra weight on both ends.
//
//go:norace
func (r *Run) Pos(label string, n int) int {
	if n <= 1 {
		return 0
	}
	raw, key, v, fixed := r.draw(label)
	if !fixed {
		x := raw >> 8
		switch raw & 7 {
		case 0:
			v = int(x % uint64(min(n, 16)))
		case 1:
			v = n - 1 - int(x%uint64(min(n, 16)))
		default:
			v = int(x % uint64(n))
		}
	} else if v < 0 || v >= n {
		v = ((v % n) + n) % n
	}
	r.record(key, v)
	return v
}

// Bits returns 31 random bits.
func (r *Run) Bits(label string) int { return r.Int(label, 1<<31) }

// sprintf formats without ordering the goroutines that do (package fmt keeps a
// pool), so that reporting hides no race.
func sprintf(format string, args ...any) string {
	race.Disable()
	defer race.Enable()
	return fmt.Sprintf(format, args...)
}

// Fail records a violation.
//
//go:norace
func (r *Run) Fail(class, format string, args ...any) {
	msg := sprintf(format, args...)
	r.Logf("VIOLATION %s: %s", class, msg)
	if r.nFails < len(r.fails) {
		r.fails[r.nFails] = Failure{Class: class, Msg: msg}
		r.nFails++
	}
}

// Failed reports whether a violation was recorded.
//
//go:norace
func (r *Run) Failed() bool { return r.nFails > 0 }

// Logf adds an event to the run's history.
//
//go:norace
func (r *Run) Logf(format string, args ...any) {
	s := sprintf(format, args...)
	r.evHash = (r.evHash ^ hashStr(s)) * 1099511628211
	r.nEvents++
	if r.Verbose && r.nLog < maxLog {
		r.log[r.nLog] = s
		r.nLog++
	}
}

// Notef adds a line to the report that is not part of the history.
//
//go:norace
func (r *Run) Notef(format string, args ...any) {
	if r.Verbose && r.nLog < maxLog {
		r.log[r.nLog] = sprintf(format, args...)
		r.nLog++
	}
}

// T is the simulated time since the run began.
//
//go:norace
func (r *Run) T() time.Duration { return time.Duration(runtime.SimNow() - r.start) }

// Nontrivial marks the run as having exercised what it is about.
//
//go:norace
func (r *Run) Nontrivial() { r.notriv = true }

// IgnoreLeaks disables the check that no goroutine survives the run.
//
//go:norace
func (r *Run) IgnoreLeaks() { r.ignLeak = true }

// Count adds to a named counter of this process ("fault:..." or "probe:...").
//
//go:norace
func Count(name string, n uint64) {
	h := hashStr(name)
	i := int(h % maxCounters)
	for k := 0; k < maxCounters; k++ {
		c := &counters[i]
		if c.name == name {
			c.n += n
			return
		}
		if c.name == "" {
			c.name = name
			c.n = n
			return
		}
		i = (i + 1) % maxCounters
	}
}

// Fault counts an injected fault.
func (r *Run) Fault(kind string) { Count("fault:"+kind, 1) }

// Probe counts that a rare situation was reached.
func (r *Run) Probe(name string) { Count("probe:"+name, 1) }

// Yield offers the processor to another goroutine at a point of the harness.
func Yield() { runtime.SimYieldNow() }

// StepLimit is the panic value of a run that exceeded its step budget.
type StepLimit struct{ Steps uint64 }

func (s StepLimit) Error() string {
	return fmt.Sprintf("no result after %d simulated steps", s.Steps)
}

// PanicSite describes where a recovered panic came from: the first frame
// outside the runtime and the harness.
func PanicSite() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "runtime.") && !strings.Contains(f.Function, "simrt.") && !strings.Contains(f.File, "zz_sim") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			return fn
		}
		if !more {
			return "?"
		}
	}
}

// Try calls f and turns a panic into a violation of the given class prefix.
// ok is false after a panic.
func (r *Run) Try(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
			if s, is := e.(StepLimit); is {
				r.Fail("hang", "%s: %v", what, s)
				runtime.SimSetMaxSteps(0)
				return
			}
			r.Fail("panic:"+PanicSite(), "%s panicked: %v", what, e)
		}
	}()
	f()
	return true
}

// Group is a set of simulated callers.
type Group struct {
	r    *Run
	n    int
	done chan struct{}
}

// NewGroup returns an empty group.
func (r *Run) NewGroup() *Group { return &Group{r: r, done: make(chan struct{}, 1024)} }

// Go starts a simulated caller.
func (g *Group) Go(name string, f func()) {
	g.n++
	go func() {
		defer func() { g.done <- struct{}{} }()
		g.r.Try(name, f)
	}()
}

// Wait waits for all callers.
func (g *Group) Wait() {
	for ; g.n > 0; g.n-- {
		<-g.done
	}
}

// Measure runs f and returns the simulated steps and bytes allocated by it.
func Measure(f func()) (steps, bytes uint64) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	s := runtime.SimSteps()
	f()
	steps = runtime.SimSteps() - s
	runtime.ReadMemStats(&b)
	return steps, b.TotalAlloc - a.TotalAlloc
}

// LimitSteps sets the budget for the next n steps of the run.
func LimitSteps(n uint64) { runtime.SimSetMaxSteps(runtime.SimSteps() + n) }
