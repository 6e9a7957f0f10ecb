package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

// These mirror package simrt.

type choice struct {
	K string `json:"k"`
	V int    `json:"v"`
}

type spec struct {
	Seed     uint64      `json:"seed"`
	Fixed    bool        `json:"fixed,omitempty"`
	Choices  []choice    `json:"choices,omitempty"`
	Preempts []uint64    `json:"preempts,omitempty"`
	Picks    [][2]uint64 `json:"picks,omitempty"`
	Lives    []spec      `json:"lives,omitempty"`
}

type failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type config struct {
	Prop    string   `json:"prop"`
	Tier    string   `json:"tier"`
	Base    uint64   `json:"base"`
	Start   int      `json:"start"`
	Stride  int      `json:"stride"`
	Count   int      `json:"count"`
	MaxMs   int      `json:"max_ms"`
	Data    string   `json:"data"`
	Scratch string   `json:"scratch"`
	Out     string   `json:"out"`
	Hashes  bool     `json:"hashes"`
	Verbose bool     `json:"verbose"`
	Known   []string `json:"known"`
	Specs   []spec   `json:"specs"`
	Race    bool     `json:"race"`
	Extra   string   `json:"extra"`
}

type record struct {
	T        string            `json:"t"`
	I        int               `json:"i"`
	Spec     *spec             `json:"spec,omitempty"`
	Hash     string            `json:"hash,omitempty"`
	Fails    []failure         `json:"fails,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Sample   string            `json:"sample,omitempty"`
	Runs     int               `json:"runs,omitempty"`
	Nontriv  int               `json:"nontriv,omitempty"`
	Steps    uint64            `json:"steps,omitempty"`
	Events   uint64            `json:"events,omitempty"`
	SimMs    int64             `json:"sim_ms,omitempty"`
	Switches uint64            `json:"switches,omitempty"`
	MaxRun   int               `json:"max_run,omitempty"`
	Counters map[string]uint64 `json:"counters,omitempty"`
	Sched    []uint64          `json:"sched,omitempty"`
	Shapes   []uint64          `json:"shapes,omitempty"`
}

// outcome is what one worker process did.
type outcome struct {
	runs   []record
	end    *record
	lastI  int    // last run that started
	died   string // the process ended without its end record: its standard error
	killed bool   // ended by the orchestrator (another worker found a violation)
	hung   bool   // watchdog
	status string
}

var workerSeq int
var workerMu sync.Mutex

func (c *ctl) scratchDir() string {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "simverif-")
	if err != nil {
		d, err = os.MkdirTemp("", "simverif-")
		if err != nil {
			die("%v", err)
		}
	}
	os.Chmod(d, 0o755)
	return d
}

// worker runs one worker process to its end.
func (c *ctl) worker(t *target, cfg config, race bool, stop <-chan struct{}, watchdog time.Duration) outcome {
	workerMu.Lock()
	workerSeq++
	id := workerSeq
	workerMu.Unlock()
	dir := filepath.Join(c.scratch, fmt.Sprintf("w%d", id))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	cfg.Tier = c.tier
	cfg.Data = c.sim
	cfg.Scratch = dir
	cfg.Out = filepath.Join(dir, "out.jsonl")
	cfg.Race = race
	b, _ := json.Marshal(cfg)
	cf := filepath.Join(dir, "config.json")
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		die("%v", err)
	}
	errPath := filepath.Join(dir, "stderr")
	errFile, err := os.Create(errPath)
	if err != nil {
		die("%v", err)
	}
	cmd := exec.Command(c.binary(t, race), "-test.run", "^TestSimWorker$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "SIM_CONFIG="+cf, "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1", "GOTRACEBACK=single",
		"TZ=UTC", "GORACE=halt_on_error=1 history_size=5 atexit_sleep_ms=0", "GOGC=off", "HOME="+dir, "NO_COLOR=1", "TERM=dumb")
	if !race {
		cmd.Env = append(cmd.Env, "SIM_RLIMIT_AS=4294967296")
	}
	cmd.Stdout, cmd.Stderr = errFile, errFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		die("start worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := outcome{lastI: -1}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	lastSize, lastGrow := int64(-1), time.Now()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-stop:
			o.killed = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			break loop
		case <-tick.C:
			if st, err := os.Stat(cfg.Out); err == nil && st.Size() != lastSize {
				lastSize, lastGrow = st.Size(), time.Now()
			}
			if time.Since(lastGrow) > watchdog {
				o.hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errFile.Close()
	f, err := os.Open(cfg.Out)
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 256<<20)
		for sc.Scan() {
			line := sc.Bytes()
			if len(line) > 2 && line[0] == 'S' && line[1] == ' ' {
				fmt.Sscanf(string(line), "S %d", &o.lastI)
				continue
			}
			var r record
			if json.Unmarshal(line, &r) != nil {
				continue
			}
			switch r.T {
			case "run":
				o.runs = append(o.runs, r)
			case "end":
				o.end = &r
			}
		}
		f.Close()
	}
	if o.end == nil && !o.killed && !o.hung {
		e, _ := os.ReadFile(errPath)
		o.died = string(e)
		if o.died == "" {
			o.died = "no output"
		}
		o.status = fmt.Sprint(werr)
	} else if o.hung {
		e, _ := os.ReadFile(errPath)
		o.status = string(e)
	}
	return o
}

var frameRE = regexp.MustCompile(`(?m)^(github\.com/way-platform/[^\s(]+|main\.[^\s(]+)`)

// deathClass turns the standard error of a dead worker into a violation class;
// "" means the death says nothing about the code under test.
func deathClass(stderr string) (class, msg string) {
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		i := strings.Index(stderr, "WARNING: DATA RACE")
		return "race", raceSummary(stderr[i:])
	case strings.Contains(stderr, "fatal error: stack overflow") || strings.Contains(stderr, "stack exceeds"):
		return "crash:stack overflow", "stack overflow in " + site(stderr)
	case strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate memory"):
		return "crash:out of memory", "memory exhausted in " + site(stderr)
	case strings.Contains(stderr, "fatal error: concurrent map"):
		return "crash:concurrent map access", "concurrent map access in " + site(stderr)
	case strings.Contains(stderr, "fatal error: sync: "):
		return "crash:misuse of a lock", "lock misuse in " + site(stderr)
	case strings.Contains(stderr, "panic: simrt:") || strings.Contains(stderr, "panic: sim "):
		return "", ""
	case strings.Contains(stderr, "panic: "):
		i := strings.Index(stderr, "panic: ")
		line, _, _ := strings.Cut(stderr[i:], "\n")
		return "crash:" + site(stderr[i:]), line + " in " + site(stderr[i:])
	}
	return "", ""
}

func site(stderr string) string {
	for _, m := range frameRE.FindAllString(stderr, -1) {
		if !strings.Contains(m, "simharness") && !strings.Contains(m, "TestSim") {
			return m[strings.LastIndex(m, "/")+1:]
		}
	}
	return "?"
}

func raceSummary(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if !strings.Contains(l, "by goroutine") && !strings.Contains(l, "by main goroutine") {
			continue
		}
		w := strings.Fields(l)
		desc := w[0]
		if len(w) > 1 && w[1] != "at" {
			desc += " " + w[1]
		}
		for k := i + 1; k+1 < len(lines) && k < i+16; k += 2 {
			fn := strings.TrimSpace(lines[k])
			if fn == "" {
				break
			}
			if strings.HasPrefix(fn, "runtime.") {
				continue
			}
			f := strings.Fields(lines[k+1])
			if len(f) > 0 {
				out = append(out, desc+" at "+strings.TrimSuffix(fn, "()")+" "+filepath.Base(f[0]))
			}
			break
		}
		if len(out) == 2 {
			break
		}
	}
	return "unsynchronised access: " + strings.Join(out, "; ")
}

// result of one execution of a spec in isolation.
type result struct {
	fails []failure
	spec  *spec
	log   []string
	hash  string
	hung  bool
	infra string
}

func (r *result) class(want string) bool {
	for _, f := range r.fails {
		if f.Class == want {
			return true
		}
	}
	return false
}

// execSpecs executes specs one after another in one process; results in order.
// A death ends the batch; the rest are executed in further processes.
func (c *ctl) execSpecs(t *target, prop string, race bool, extra string, specs []spec, verbose bool) []result {
	out := make([]result, len(specs))
	at := 0
	for at < len(specs) {
		o := c.worker(t, config{Prop: prop, Specs: specs[at:], Verbose: verbose, Hashes: true, Extra: extra}, race, nil, 180*time.Second)
		for _, r := range o.runs {
			if at+r.I < len(specs) {
				out[at+r.I] = result{fails: r.Fails, spec: r.Spec, log: r.Log, hash: r.Hash}
			}
		}
		if o.end != nil {
			break
		}
		k := at + o.lastI
		if o.lastI < 0 {
			out[at].infra = o.died + o.status
			break
		}
		if o.hung {
			out[k].hung = true
		} else if cl, msg := deathClass(o.died); cl != "" {
			out[k].fails = []failure{{cl, msg}}
			s := specs[k]
			out[k].spec = &s
			out[k].log = []string{tailStr(o.died, 4000)}
		} else {
			out[k].infra = o.died + o.status
		}
		at = k + 1
	}
	return out
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func mustJSON(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}
