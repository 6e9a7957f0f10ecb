package simrt

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A life is one simulated process lifetime: it runs in an operating-system
// process of its own, so that nothing but the scratch directory survives it.

// LifeReport is what a life leaves behind.
type LifeReport struct {
	T        string            `json:"t"`
	End      string            `json:"end"`  // exit, crash, hang, panic, killed
	Code     int               `json:"code"` // exit status
	Spec     Spec              `json:"spec"`
	Fails    []Failure         `json:"fails"`
	Log      []string          `json:"log"`
	Hash     uint64            `json:"hash"`
	Sched    uint64            `json:"sched"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	MaxRun   int               `json:"max_run"`
	SimMs    int64             `json:"sim_ms"`
	Counters map[string]uint64 `json:"counters"`
	Obs      json.RawMessage   `json:"obs"`
	Detail   string            `json:"detail"`
	Events   int               `json:"events"`
}

// Life is the body of a simulated lifetime.
type Life struct {
	Setup    func(*Run)              // outside the simulation, before the clock starts
	Main     func(*Run)              // the program; returning means exit status 0
	Finish   func(*Run, *LifeReport) // observations to report, layer off
	MaxSteps uint64
	Now      int64
	Sched    func(spec Spec) runtime.SimConfig
}

var lifeDone bool

// RunLife performs a life and ends the process.
func RunLife(l Life) {
	spec := Cfg.Specs[0]
	r := newRun(spec)
	finish := func(end string, code int, detail string) {
		if lifeDone {
			return
		}
		lifeDone = true
		st := runtime.SimSnapshot()
		if r.fs != nil {
			r.fs.off = true
		}
		rep := &LifeReport{T: "life", End: end, Code: code, Detail: detail}
		rep.SimMs = (runtime.SimNow() - l.Now) / 1e6
		if runtime.SimNow() == 0 {
			rep.SimMs = r.simtime / 1e6
		}
		r.Logf("%s %d %s", end, code, firstLine(detail))
		if l.Finish != nil {
			l.Finish(r, rep)
		}
		rep.Spec = *r.Recorded(&st)
		rep.Fails = r.Fails()
		rep.Log = r.LogText()
		rep.Hash, rep.Sched, rep.Steps, rep.Switches, rep.MaxRun = r.evHash, st.Hash, st.Steps, st.Switches, st.MaxRun
		rep.Events = r.nEvents
		rep.Counters = CounterMap()
		b, err := json.Marshal(rep)
		if err != nil {
			panic(err)
		}
		rawWrite(outFd, append(b, '\n'))
	}
	if l.Setup != nil {
		l.Setup(r)
	}
	if r.fs != nil {
		r.fs.OnCrash = func(op *FSOp) {
			finish("crash", 137, "")
			syscall.Exit(137)
		}
	}
	os.SimExit = func(code int) {
		if !lifeDone {
			finish("exit", code, "")
		}
		syscall.Exit(code)
	}
	sc := Scenario{MaxSteps: l.MaxSteps, Preempt: true}
	cfg := SchedConfig(spec, sc)
	runtime.SimStart(cfg)
	dead := runtime.SimBubble(l.Now, func() {
		r.start = runtime.SimNow()
		defer func() {
			r.simtime = runtime.SimNow() - r.start
			if e := recover(); e != nil {
				if s, ok := e.(StepLimit); ok {
					finish("hang", 2, s.Error())
				} else {
					finish("panic", 2, fmt.Sprintf("%v at %s", e, PanicSite()))
				}
				syscall.Exit(2)
			}
		}()
		l.Main(r)
		finish("exit", 0, "")
		syscall.Exit(0)
	})
	finish("hang", 2, dead)
	syscall.Exit(2)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var lifeSeq int

// Lifetime runs one life of the worker's binary with the given extra
// configuration and waits for it.
func (r *Run) Lifetime(scratch string, extra any) *LifeReport {
	j := len(r.lives)
	var spec Spec
	if r.Spec.Fixed {
		spec.Fixed = true
		if j < len(r.Spec.Lives) {
			spec = r.Spec.Lives[j]
		}
	} else {
		spec.Seed = Mix(r.Spec.Seed, uint64(j)+0x11fe)
	}
	lifeSeq++
	c := Cfg
	b, err := json.Marshal(extra)
	if err != nil {
		panic(err)
	}
	base := filepath.Join(Cfg.Scratch, "life")
	c.Extra = string(b)
	c.Specs = []Spec{spec}
	c.Scratch = scratch
	c.Out = base + ".out"
	c.Verbose = r.Verbose
	cb, _ := json.Marshal(c)
	if err := os.WriteFile(base+".cfg", cb, 0o644); err != nil {
		panic(err)
	}
	os.Remove(c.Out)
	if f, err := os.OpenFile(c.Out, os.O_CREATE|os.O_WRONLY, 0o666); err == nil {
		f.Chmod(0o666)
		f.Close()
	}
	errFile, err := os.Create(base + ".err")
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "SIM_CONFIG="+base+".cfg", "SIM_LIFE=1", "TZ=UTC")
	cmd.Env = append(cmd.Env, r.LifeEnv...)
	cmd.Stdin = nil
	cmd.Stdout = errFile
	cmd.Stderr = errFile
	cmd.Dir = scratch
	GiveToLife(scratch)
	if os.Geteuid() == 0 {
		// An escaped file operation of the program can reach nothing real.
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: lifeUID, Gid: lifeUID}}
	}
	if err := cmd.Start(); err != nil {
		if cmd.SysProcAttr == nil {
			panic(err)
		}
		c2 := exec.Command(os.Args[0], os.Args[1:]...)
		c2.Env, c2.Stdout, c2.Stderr, c2.Dir = cmd.Env, errFile, errFile, scratch
		cmd = c2
		if err := cmd.Start(); err != nil {
			panic(err)
		}
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	timedOut := !timer.Stop()
	errFile.Close()
	if timedOut {
		panic("simrt: a life did not end within 120 s of real time")
	}
	rep := &LifeReport{}
	out, _ := os.ReadFile(c.Out)
	stderr, _ := os.ReadFile(base + ".err")
	for _, line := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(line, "{\"t\":\"life\"") {
			if err := json.Unmarshal([]byte(line), rep); err != nil {
				panic(err)
			}
		}
	}
	if i := strings.Index(string(stderr), "WARNING: DATA RACE"); i >= 0 {
		r.Fail("race", "%s", RaceSummary(string(stderr[i:])))
	}
	if rep.T == "" {
		// The Go runtime ended the process.
		rep.T, rep.End, rep.Code = "life", "died", 2
		rep.Detail = tail(string(stderr), 3000)
		rep.Spec = spec
		if werr == nil {
			panic("simrt: a life ended without a report: " + rep.Detail)
		}
	}
	if rep.Detail == "" {
		rep.Detail = tail(string(stderr), 2000)
	}
	r.lives = append(r.lives, rep.Spec)
	for _, f := range rep.Fails {
		r.Fail(f.Class, "%s", f.Msg)
	}
	for _, s := range rep.Log {
		if r.Verbose && r.nLog < maxLog {
			r.log[r.nLog] = "life " + strconv.Itoa(j) + " " + s
			r.nLog++
		}
	}
	r.evHash = Mix(r.evHash, rep.Hash)
	r.nEvents += rep.Events
	r.lifeSched = Mix(r.lifeSched, rep.Sched)
	r.lifeSteps += rep.Steps
	r.lifeSwitches += rep.Switches
	r.maxLive = max(r.maxLive, rep.MaxRun)
	r.simtime += rep.SimMs * 1e6
	for k, v := range rep.Counters {
		Count(k, v)
	}
	return rep
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// RaceSummary reduces a race report to the two accesses.
func RaceSummary(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine") {
			w := strings.Fields(l)
			desc := w[0]
			if len(w) > 1 {
				desc += " " + w[1]
			}
			for k := i + 1; k+1 < len(lines) && k < i+12; k += 2 {
				fn := strings.TrimSpace(lines[k])
				if fn == "" {
					break
				}
				if !strings.HasPrefix(fn, "runtime.") {
					f := strings.Fields(lines[k+1])
					if len(f) > 0 {
						out = append(out, desc+" at "+fn+" "+filepath.Base(f[0]))
					}
					break
				}
			}
		}
		if len(out) == 2 {
			break
		}
	}
	return "unsynchronised access: " + strings.Join(out, "; ")
}

// IsLife reports whether this process is a life.
func IsLife() bool { return os.Getenv("SIM_LIFE") != "" }

// ExecPlain performs one run whose scenario drives lives; the scenario itself
// runs outside the simulator.
func ExecPlain(spec Spec, sc Scenario) (*Run, runtime.SimStats) {
	r := newRun(spec)
	r.Try("scenario", func() { sc.Run(r) })
	st := runtime.SimStats{Steps: r.lifeSteps, Switches: r.lifeSwitches, Hash: r.lifeSched, MaxRun: r.maxLive}
	if r.lifeSwitches > 0 || r.maxLive > 1 {
		st.Picks = 1
	}
	return r, st
}

// lifeUID is the account lifetimes run under when the worker is root.
const lifeUID = 65534

// GiveToLife hands a directory tree to the account of lifetimes.
func GiveToLife(dir string) {
	if os.Geteuid() != 0 {
		return
	}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil {
			os.Lchown(p, lifeUID, lifeUID)
		}
		return nil
	})
}
