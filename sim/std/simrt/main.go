package simrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"syscall"
	"time"
)

// Config is what the orchestrator passes to a worker process.
type Config struct {
	Prop    string   `json:"prop"`
	Tier    string   `json:"tier"`
	Base    uint64   `json:"base"`
	Start   int      `json:"start"`
	Stride  int      `json:"stride"`
	Count   int      `json:"count"`
	MaxMs   int      `json:"max_ms"`
	Data    string   `json:"data"`    // /verif/sim
	Scratch string   `json:"scratch"` // directory the worker may use
	Out     string   `json:"out"`
	Hashes  bool     `json:"hashes"`
	Verbose bool     `json:"verbose"`
	Known   []string `json:"known"` // violation classes not to stop at
	Specs   []Spec   `json:"specs"` // replay these instead of searching
	Race    bool     `json:"race"`
	Extra   string   `json:"extra"` // target specific
}

// Record is one line of a worker's report.
type Record struct {
	T        string            `json:"t"` // run, end
	I        int               `json:"i"`
	Spec     *Spec             `json:"spec,omitempty"`
	Hash     string            `json:"hash,omitempty"`
	Fails    []Failure         `json:"fails,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Runs     int               `json:"runs,omitempty"`
	Nontriv  int               `json:"nontriv,omitempty"`
	Steps    uint64            `json:"steps,omitempty"`
	Events   uint64            `json:"events,omitempty"`
	SimMs    int64             `json:"sim_ms,omitempty"`
	Switches uint64            `json:"switches,omitempty"`
	MaxRun   int               `json:"max_run,omitempty"`
	Counters map[string]uint64 `json:"counters,omitempty"`
	Sched    []uint64          `json:"sched,omitempty"` // distinct interleavings
	Shapes   []uint64          `json:"shapes,omitempty"`
	Extra    json.RawMessage   `json:"extra,omitempty"`
}

// Cfg is the configuration of this worker.
var Cfg Config

var outFd = -1

func rawWrite(fd int, b []byte) {
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		b = b[n:]
	}
}

// Emit appends a record to the worker's report.
func Emit(rec *Record) {
	b, err := json.Marshal(rec)
	if err != nil {
		panic(err)
	}
	rawWrite(outFd, append(b, '\n'))
}

// LoadConfig reads the configuration named by SIM_CONFIG; false: not a worker.
func LoadConfig() bool {
	path := os.Getenv("SIM_CONFIG")
	if path == "" {
		return false
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &Cfg); err != nil {
		panic(err)
	}
	os.Unsetenv("SIM_CONFIG")
	fd, err := syscall.Open(Cfg.Out, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND|syscall.O_CLOEXEC, 0o644)
	if err != nil {
		panic(fmt.Sprintf("open %s: %v", Cfg.Out, err))
	}
	outFd = fd
	if v, err := strconv.ParseUint(os.Getenv("SIM_RLIMIT_AS"), 10, 64); err == nil && v > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: v, Max: v})
	}
	runtime.MemProfileRate = 0
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	return true
}

// Scenario is the body of a run.
type Scenario struct {
	Run       func(*Run)
	MaxSteps  uint64
	Preempt   bool // draw preemption points and scheduling policies
	RandStart bool // draw the wall clock of the run
	Plain     bool // the scenario drives lives and is itself not simulated
}

func newRun(spec Spec) *Run {
	r := &Run{Spec: spec, Tier: Cfg.Tier, Verbose: Cfg.Verbose}
	r.choices = choiceBuf[:]
	r.labels = labelBuf[:]
	r.fails = failBuf[:]
	r.log = logBuf[:]
	clear(labelBuf[:])
	r.scratch = Cfg.Scratch
	r.evHash = 14695981039346656037
	if spec.Fixed {
		cs := append([]Choice(nil), spec.Choices...)
		sort.Slice(cs, func(i, j int) bool { return cs[i].K < cs[j].K })
		for _, c := range cs {
			r.fixedK = append(r.fixedK, c.K)
			r.fixedV = append(r.fixedV, c.V)
		}
	}
	return r
}

// NewRun makes a run outside the standard loop.
func NewRun(spec Spec) *Run { return newRun(spec) }

// Scratch is a directory of this worker.
func (r *Run) Scratch() string { return r.scratch }

// Recorded returns the run as a replayable spec.
func (r *Run) Recorded(st *runtime.SimStats) *Spec {
	s := &Spec{Seed: r.Spec.Seed, Fixed: true, Choices: append([]Choice(nil), r.choices[:r.nChoices]...)}
	if st != nil {
		s.Lives = append([]Spec(nil), r.lives...)
		s.Preempts = st.Preempts
		for _, p := range st.PickLog {
			s.Picks = append(s.Picks, [2]uint64{p.N, uint64(p.I)})
		}
	}
	return s
}

// Fails returns the violations recorded.
func (r *Run) Fails() []Failure { return append([]Failure(nil), r.fails[:r.nFails]...) }

// Log returns the event text (verbose runs only).
func (r *Run) LogText() []string { return append([]string(nil), r.log[:r.nLog]...) }

// EvHash is the hash of the events so far.
func (r *Run) EvHash() uint64 { return r.evHash }

// SchedConfig derives the scheduler configuration of a run.
func SchedConfig(spec Spec, sc Scenario) runtime.SimConfig {
	c := runtime.SimConfig{Seed: spec.Seed, MaxSteps: sc.MaxSteps}
	c.OnMaxStep = func() { panic(StepLimit{runtime.SimSteps()}) }
	if spec.Fixed {
		c.Replay = true
		c.Preempts = spec.Preempts
		for _, p := range spec.Picks {
			c.Picks = append(c.Picks, runtime.SimPick{N: p[0], I: uint32(p[1])})
		}
		return c
	}
	if sc.Preempt {
		h := Mix(spec.Seed, 0x5ced)
		c.Policy = uint8(h & 3)
		rates := [...]uint32{0, 65536 / 1000, 65536 / 200, 65536 / 50, 65536 / 12, 65536 / 3}
		c.Preempt = rates[(h>>8)%uint64(len(rates))]
	}
	return c
}

// Exec performs one run.
func Exec(spec Spec, sc Scenario) (*Run, runtime.SimStats) {
	r := newRun(spec)
	cfg := SchedConfig(spec, sc)
	var now int64
	if sc.RandStart {
		h := Mix(spec.Seed, 0x71e)
		now = 315532800e9 + int64(h%uint64(90*365*86400))*1e9 + int64(h>>40) // 1980..2070
	}
	runtime.SimStart(cfg)
	dead := runtime.SimBubble(now, func() {
		r.start = runtime.SimNow()
		if sc.RandStart {
			r.Notef("the clock says %s", time.Now().UTC().Format(time.RFC3339))
		}
		defer func() {
			r.simtime = runtime.SimNow() - r.start
			r.mainDone = true
		}()
		r.Try("scenario", func() { sc.Run(r) })
	})
	st := runtime.SimStop()
	if dead != "" {
		if !r.mainDone {
			r.Fail("hang", "every goroutine is blocked for ever (%s)", dead)
		} else if !r.ignLeak && !r.Failed() {
			r.Fail("leak", "goroutines are still blocked after every call has returned")
		}
	}
	return r, st
}

func known(class string) bool {
	for _, k := range Cfg.Known {
		if k == class {
			return true
		}
	}
	return false
}

// Main is the loop of a worker process.
func Main(sc Scenario) {
	var end Record
	end.T = "end"
	sched := map[uint64]struct{}{}
	shapes := map[uint64]struct{}{}
	t0 := time.Now()
	var startLine [24]byte
	specs := Cfg.Specs
	for k := 0; ; k++ {
		var spec Spec
		i := Cfg.Start + k*Cfg.Stride
		if len(specs) > 0 {
			if k >= len(specs) {
				break
			}
			spec = specs[k]
			i = k
		} else {
			if k >= Cfg.Count || (Cfg.MaxMs > 0 && k > 0 && time.Since(t0) > time.Duration(Cfg.MaxMs)*time.Millisecond) {
				break
			}
			spec = Spec{Seed: Mix(Cfg.Base, uint64(i)+1)}
		}
		n := copy(startLine[:], "S ")
		b := fmt.Appendf(startLine[:n], "%d\n", i)
		rawWrite(outFd, b)
		exec := Exec
		if sc.Plain {
			exec = ExecPlain
		}
		r, st := exec(spec, sc)
		if ResetBetweenRuns != nil {
			ResetBetweenRuns()
		}
		end.Runs++
		if r.notriv {
			end.Nontriv++
		}
		end.Steps += st.Steps
		end.Switches += st.Switches
		end.Events += uint64(r.nEvents)
		end.SimMs += r.simtime / 1e6
		if st.MaxRun > end.MaxRun {
			end.MaxRun = st.MaxRun
		}
		if st.Picks > 0 && len(sched) < 200000 {
			sched[st.Hash] = struct{}{}
		}
		if r.notriv && len(shapes) < 200000 {
			shapes[r.evHash] = struct{}{}
		}
		stop := false
		if r.nFails > 0 || Cfg.Hashes || Cfg.Verbose || (k < 2 && Cfg.Start == 0) {
			rec := Record{T: "run", I: i, Fails: r.Fails(), Hash: fmt.Sprintf("%016x.%016x.%d", r.evHash, st.Hash, st.Steps)}
			if r.nFails > 0 || Cfg.Verbose {
				rec.Spec = r.Recorded(&st)
				rec.Log = r.LogText()
			}
			Emit(&rec)
			for _, f := range r.Fails() {
				if !known(f.Class) {
					stop = true
				}
			}
		}
		if stop && len(specs) == 0 {
			break
		}
		if k%8 == 7 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 192<<20 {
				runtime.GC()
			}
		}
	}
	end.Counters = CounterMap()
	for h := range sched {
		end.Sched = append(end.Sched, h)
	}
	for h := range shapes {
		end.Shapes = append(end.Shapes, h)
	}
	Emit(&end)
}

// ResetBetweenRuns, when set, runs after every run outside the simulation.
var ResetBetweenRuns func()

// CounterMap returns the counters of this process.
func CounterMap() map[string]uint64 {
	m := map[string]uint64{}
	for i := range counters {
		if counters[i].name != "" {
			m[counters[i].name] = counters[i].n
		}
	}
	return m
}
