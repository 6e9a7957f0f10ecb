// Simulation support added to the runtime by /verif/sim through a build
// overlay: with a simulation running, the choice of the next goroutine, the
// preemption points and the runtime's random numbers all come from one seed.
// Nothing here is active until SimStart is called, and it is only ever called
// with GOMAXPROCS=1 from inside a synctest bubble.

package runtime

import (
	"unsafe"
)

// SimConfig selects one execution.
type SimConfig struct {
	Seed      uint64 // scheduling and runtime randomness
	Preempt   uint32 // probability of a preemption at a yield point, in 1/65536
	Policy    uint8  // 0 FIFO, 1 uniform, 2 LIFO, 3 priorities (PCT-like)
	MaxSteps  uint64 // 0: no limit
	Replay    bool   // take decisions from Preempts and Picks only
	Preempts  []uint64
	Picks     []SimPick
	OnMaxStep func() // called once (on the goroutine that exceeded the limit)
}

// SimPick is one scheduling decision that differs from first-in-first-out.
type SimPick struct {
	N uint64 // ordinal of the decision
	I uint32 // index chosen
}

// SimStats describes the execution that just ended.
type SimStats struct {
	Steps    uint64 // yield points passed
	Picks    uint64 // decisions with more than one runnable goroutine
	Switches uint64 // forced preemptions
	Hash     uint64 // hash of the interleaving
	MaxRun   int    // longest run queue seen
	Goros    uint64 // goroutines created
	Preempts []uint64
	PickLog  []SimPick
}

const simMaxQ = 8192

var simOn bool

// simCPUs, when set, is the number of processors a program is told about.
var simCPUs int

// SimSetCPUs sets it.
func SimSetCPUs(n int) { simCPUs = n }

var sim struct {
	lock     mutex
	q        [simMaxQ]guintptr
	n        int
	state    uint64 // scheduling PRNG
	rnd      uint64 // PRNG behind runtime.rand in bubbles
	rnd2     uint64 // PRNG behind select, timer ties and semaphores
	runs     uint64
	cfg      SimConfig
	baseGoid uint64
	steps    uint64
	picks    uint64
	switches uint64
	hash     uint64
	maxrun   int
	goros    uint64
	nextPre  int
	nextPick int
	overrun  bool
	sinceSw  uint64
	prioSalt uint64
	nPre     int
	nPick    int
}

const simLogMax = 1 << 15

var simPreLog [simLogMax]uint64
var simPickLog [simLogMax]SimPick

func simMix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// SimStart begins a controlled execution.
func SimStart(c SimConfig) {
	sim.cfg = c
	sim.state = simMix(c.Seed ^ 0x5117)
	sim.rnd = simMix(c.Seed ^ 0xabcd1234)
	sim.rnd2 = simMix(c.Seed ^ 0x90210)
	sim.prioSalt = simMix(c.Seed ^ 0x77)
	sim.runs++
	sim.baseGoid = 1<<40 + sim.runs<<20
	sim.steps, sim.picks, sim.switches, sim.goros = 0, 0, 0, 0
	sim.hash = 14695981039346656037
	sim.maxrun = 0
	sim.nextPre, sim.nextPick = 0, 0
	sim.nPre, sim.nPick = 0, 0
	sim.overrun = false
	sim.sinceSw = 0
	simOn = true
}

// SimSnapshot reports on the execution so far without ending it.
func SimSnapshot() SimStats {
	st := SimStats{Steps: sim.steps, Picks: sim.picks, Switches: sim.switches, Hash: sim.hash, MaxRun: sim.maxrun, Goros: sim.goros}
	st.Preempts = append(st.Preempts, simPreLog[:sim.nPre]...)
	st.PickLog = append(st.PickLog, simPickLog[:sim.nPick]...)
	return st
}

// SimStop ends the controlled execution and reports on it.
func SimStop() SimStats {
	simOn = false
	st := SimSnapshot()
	// Goroutines still queued go back to the normal scheduler.
	systemstack(func() {
		lock(&sim.lock)
		var q gQueue
		for i := 0; i < sim.n; i++ {
			q.pushBack(sim.q[i].ptr())
			sim.q[i] = 0
		}
		sim.n = 0
		unlock(&sim.lock)
		if !q.empty() {
			lock(&sched.lock)
			globrunqputbatch(&q)
			unlock(&sched.lock)
		}
	})
	return st
}

var simStartTime int64

// SimBubble runs f in a bubble of its own whose clock starts at now (Unix
// nanoseconds; 0: the synctest default). It reports how the bubble ended: ""
// when every goroutine of it has finished.
func SimBubble(now int64, f func()) (deadlock string) {
	simStartTime = now
	defer func() {
		if e := recover(); e != nil {
			d, ok := e.(synctestDeadlockError)
			if !ok {
				panic(e)
			}
			deadlock = d.reason
		}
	}()
	synctestRun(f)
	return ""
}

// SimNow returns the clock of the caller's bubble.
func SimNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return 0
}

// SimActive reports whether a controlled execution is running.
func SimActive() bool { return simOn }

// SimSteps returns the number of yield points passed so far.
func SimSteps() uint64 { return sim.steps }

// SimSetMaxSteps changes the step limit of the running execution.
func SimSetMaxSteps(n uint64) { sim.cfg.MaxSteps = n; sim.overrun = false }

// SimGoid returns the id of the calling goroutine.
func SimGoid() uint64 { return getg().goid }

// SimBubbleGoroutines returns the number of live goroutines of the caller's bubble.
func SimBubbleGoroutines() int {
	b := getg().bubble
	if b == nil {
		return 0
	}
	return b.total
}

// SimNote mixes an observation of the harness into the interleaving hash.
func SimNote(x uint64) {
	sim.hash = (sim.hash ^ x) * 1099511628211
}

// SimYield is called at every statement of the instrumented code.
func SimYield() {
	if simOn {
		simYield()
	}
}

func simYield() {
	gp := getg()
	if gp.bubble == nil || gp.m.locks != 0 {
		return
	}
	sim.steps++
	sim.sinceSw++
	if sim.cfg.MaxSteps != 0 && sim.steps > sim.cfg.MaxSteps && !sim.overrun {
		sim.overrun = true
		if sim.cfg.OnMaxStep != nil {
			sim.cfg.OnMaxStep()
		}
	}
	if sim.cfg.Replay {
		for sim.nextPre < len(sim.cfg.Preempts) && sim.cfg.Preempts[sim.nextPre] < sim.steps {
			sim.nextPre++
		}
		if sim.nextPre < len(sim.cfg.Preempts) && sim.cfg.Preempts[sim.nextPre] == sim.steps {
			sim.nextPre++
			if sim.n > 0 {
				simPreempt()
			}
		}
		return
	}
	if sim.cfg.Preempt == 0 {
		return
	}
	if uint32(simNext(&sim.state)&0xffff) < sim.cfg.Preempt {
		if sim.n > 0 {
			simPreempt()
		}
	}
}

// SimYieldNow always offers the processor to another goroutine.
func SimYieldNow() {
	if !simOn || getg().bubble == nil {
		return
	}
	sim.steps++
	if sim.n > 0 && !sim.cfg.Replay {
		simPreempt()
	} else if sim.cfg.Replay {
		for sim.nextPre < len(sim.cfg.Preempts) && sim.cfg.Preempts[sim.nextPre] < sim.steps {
			sim.nextPre++
		}
		if sim.nextPre < len(sim.cfg.Preempts) && sim.cfg.Preempts[sim.nextPre] == sim.steps {
			sim.nextPre++
			if sim.n > 0 {
				simPreempt()
			}
		}
	}
}

func simPreempt() {
	sim.switches++
	sim.sinceSw = 0
	if sim.nPre < simLogMax {
		simPreLog[sim.nPre] = sim.steps
		sim.nPre++
	}
	mcall(gosched_m)
}

// simPut queues a bubble goroutine; false: not ours.
func simPut(gp *g) bool {
	if !simOn || gp.bubble == nil || gp.bubble.root == gp {
		return false
	}
	lock(&sim.lock)
	if sim.n >= simMaxQ {
		unlock(&sim.lock)
		throw("simulation run queue overflow")
	}
	sim.q[sim.n].set(gp)
	sim.n++
	if sim.n > sim.maxrun {
		sim.maxrun = sim.n
	}
	unlock(&sim.lock)
	return true
}

func simPending() bool { return sim.n > 0 }

// simRel is the goroutine's number within the run; 0: it is older than the run.
func simRel(gp *g) uint64 {
	if gp.goid > sim.baseGoid {
		return gp.goid - sim.baseGoid
	}
	return 0
}

// simGet picks the next bubble goroutine.
func simGet() *g {
	if sim.n == 0 {
		return nil
	}
	lock(&sim.lock)
	n := sim.n
	if n == 0 {
		unlock(&sim.lock)
		return nil
	}
	i := 0
	if n > 1 {
		k := sim.picks
		sim.picks++
		if sim.cfg.Replay {
			for sim.nextPick < len(sim.cfg.Picks) && sim.cfg.Picks[sim.nextPick].N < k {
				sim.nextPick++
			}
			if sim.nextPick < len(sim.cfg.Picks) && sim.cfg.Picks[sim.nextPick].N == k {
				i = int(sim.cfg.Picks[sim.nextPick].I) % n
				sim.nextPick++
			}
		} else {
			switch sim.cfg.Policy {
			case 1:
				i = int(simNext(&sim.state) % uint64(n))
			case 2:
				i = n - 1
				if simNext(&sim.state)&15 == 0 {
					i = 0
				}
			case 3:
				r := simNext(&sim.state)
				if r&63 == 0 {
					sim.prioSalt = simMix(sim.prioSalt + r)
				}
				if r&31 == 1 {
					i = int((r >> 8) % uint64(n))
					break
				}
				best := uint64(0)
				for j := 0; j < n; j++ {
					p := simMix(simRel(sim.q[j].ptr()) ^ sim.prioSalt)
					if p >= best {
						best = p
						i = j
					}
				}
			}
			if i != 0 && sim.nPick < simLogMax {
				simPickLog[sim.nPick] = SimPick{N: k, I: uint32(i)}
				sim.nPick++
			}
		}
	}
	gp := sim.q[i].ptr()
	for j := i; j < n-1; j++ {
		sim.q[j] = sim.q[j+1]
	}
	sim.q[n-1] = 0
	sim.n--
	sim.hash = (sim.hash ^ simRel(gp)<<32 ^ sim.steps) * 1099511628211
	unlock(&sim.lock)
	return gp
}

func simCheaprand() uint32 {
	if simRandActive() {
		return uint32(simNext(&sim.rnd2) >> 32)
	}
	return cheaprand()
}

func simCheaprandn(n uint32) uint32 {
	if simRandActive() {
		return uint32((simNext(&sim.rnd2) >> 32) * uint64(n) >> 32)
	}
	return cheaprandn(n)
}

// simRandActive reports whether runtime randomness must come from the seed.
//
//go:nosplit
func simRandActive() bool {
	if !simOn {
		return false
	}
	mp := getg().m
	return mp != nil && mp.curg != nil && mp.curg.bubble != nil
}

var _ = unsafe.Pointer(nil)
