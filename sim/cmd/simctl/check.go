package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

const workers = 8

type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Target   string   `json:"target"`
	Race     bool     `json:"race"`
	Extra    string   `json:"extra,omitempty"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Spec     *spec    `json:"spec"`
	Prefix   *prefix  `json:"prefix,omitempty"` // runs that precede it in the same process
	Minimal  bool     `json:"minimised"`
	Entries  int      `json:"entries"`
	From     int      `json:"entries_before_minimisation"`
	Hash     string   `json:"hash"`
	Trace    []string `json:"trace"`
}

type prefix struct {
	Base   uint64 `json:"base"`
	Start  int    `json:"start"`
	Stride int    `json:"stride"`
	Count  int    `json:"count"`
}

// tally adds up what the workers report.
type tally struct {
	runs, nontriv  int
	steps, events  uint64
	simMs          int64
	switches       uint64
	maxRun         int
	counters       map[string]uint64
	sched, shapes  map[uint64]struct{}
	samples        []string
	perPhase       []map[string]any
	violations     int
	hashesChecked  int
	hashesMismatch int
}

func (t *tally) add(r *record) {
	t.runs += r.Runs
	t.nontriv += r.Nontriv
	t.steps += r.Steps
	t.events += r.Events
	t.simMs += r.SimMs
	t.switches += r.Switches
	t.maxRun = max(t.maxRun, r.MaxRun)
	for k, v := range r.Counters {
		t.counters[k] += v
	}
	for _, h := range r.Sched {
		t.sched[h] = struct{}{}
	}
	for _, h := range r.Shapes {
		t.shapes[h] = struct{}{}
	}
}

type found struct {
	ph    phase
	w     int
	i     int
	class string
	msg   string
	spec  *spec
	base  uint64
	start int
	hash  string
}

func mixc(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func mix2(a, b uint64) uint64 { return mixc(mixc(a+0x9e3779b97f4a7c15) ^ (b * 0xff51afd7ed558ccd)) }

func (c *ctl) check(id string) int {
	var p *propConf
	for i := range props {
		if props[i].id == id {
			p = &props[i]
		}
	}
	if p == nil {
		die("no check for %s", id)
	}
	c.scratch = c.scratchDir()
	defer os.RemoveAll(c.scratch)
	known, knownLines, err := c.knownFindings(id)
	if err != nil {
		die("%v", err)
	}
	built := map[string]bool{}
	for _, ph := range p.phases {
		key := fmt.Sprint(ph.target, ph.race)
		if !built[key] {
			built[key] = true
			if err := c.build(targets[ph.target], ph.race); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
		}
	}
	t := &tally{counters: map[string]uint64{}, sched: map[uint64]struct{}{}, shapes: map[uint64]struct{}{}}
	seenKnown := map[string]string{}
	searchStart := time.Now()
	var hit *found
	for k, ph := range p.phases {
		f, infra := c.search(p, ph, k, t, known, seenKnown)
		if infra != "" {
			fmt.Fprintf(os.Stderr, "simctl: the search did not finish: %s\n", infra)
			return 2
		}
		if f != nil {
			hit = f
			break
		}
	}
	search := time.Since(searchStart)
	code := 0
	if hit != nil {
		rf, ok := c.confirm(p, hit)
		if !ok {
			fmt.Fprintf(os.Stderr, "simctl: run %d of %s (%s: %s) did not reproduce; no verdict\n", hit.i, id, hit.class, hit.msg)
			return 2
		}
		t.violations = 1
		path := c.writeReplay(rf)
		fmt.Printf("%s: %s\n", rf.Class, rf.Message)
		for _, l := range lastLines(rf.Trace, 40) {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	} else {
		for _, l := range knownLines {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, l)
		}
	}
	c.evidence(p, t, search, seenKnown)
	for _, n := range c.notes {
		fmt.Fprintln(os.Stderr, "note: "+n)
	}
	c.logf("%s: %d runs (%d with the situation of interest), %d distinct histories, %d distinct interleavings, %.0f s simulated, exit %d",
		id, t.runs, t.nontriv, len(t.shapes), len(t.sched), float64(t.simMs)/1000, code)
	return code
}

func lastLines(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// search runs one phase on all workers.
func (c *ctl) search(p *propConf, ph phase, k int, t *tally, known []string, seenKnown map[string]string) (*found, string) {
	ms := ph.quickMs
	if c.tier == "thorough" {
		ms = ph.thoroughMs
		if ms == 0 {
			ms = ph.quickMs * 8
		}
	}
	if v := os.Getenv("SIM_MS"); v != "" {
		fmt.Sscanf(v, "%d", &ms)
	}
	base := mix2(mix2(c.seed, uint64(len(p.id))*131+hash(p.id)), uint64(k))
	stop := make(chan struct{})
	var once sync.Once
	var mu sync.Mutex
	var wg sync.WaitGroup
	var hit *found
	infra := ""
	one := func(w, start, count int) {
		cfg := config{Prop: p.id, Base: base, Start: start, Stride: workers, Count: count, MaxMs: ms, Known: known, Extra: ph.extra}
		o := c.worker(targets[ph.target], cfg, ph.race, stop, 150*time.Second)
		mu.Lock()
		defer mu.Unlock()
		if o.end != nil {
			t.add(o.end)
		}
		for _, r := range o.runs {
			if len(r.Fails) == 0 {
				if r.Sample != "" && len(t.samples) < 3 {
					t.samples = append(t.samples, r.Sample)
				}
				if len(t.samples) < 3 && r.I < 2 && len(r.Log) > 0 {
					t.samples = append(t.samples, strings.Join(lastLines(r.Log, 25), "\n"))
				}
				continue
			}
			for _, f := range r.Fails {
				if isKnown(known, f.Class) {
					seenKnown[f.Class] = f.Msg
					continue
				}
				if hit == nil || r.I < hit.i {
					hit = &found{ph: ph, w: w, i: r.I, class: f.Class, msg: f.Msg, spec: r.Spec, base: base, start: start, hash: r.Hash}
				}
				once.Do(func() { close(stop) })
				break
			}
		}
		if o.end == nil && !o.killed {
			if o.hung {
				infra = fmt.Sprintf("run %d: no progress for 150 s of real time\n%s", o.lastI, tailStr(o.status, 2000))
				once.Do(func() { close(stop) })
				return
			}
			class, msg := deathClass(o.died)
			if class == "" || o.lastI < 0 {
				infra = fmt.Sprintf("worker %d died at run %d (%s): %s", w, o.lastI, o.status, tailStr(o.died, 3000))
			} else if isKnown(known, class) {
				seenKnown[class] = msg
			} else if hit == nil || o.lastI < hit.i {
				hit = &found{ph: ph, w: w, i: o.lastI, class: class, msg: msg, spec: &spec{Seed: mix2(base, uint64(o.lastI)+1)}, base: base, start: start}
			}
			once.Do(func() { close(stop) })
		}
	}
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start, count := w, 1<<30
			if ph.count > 0 {
				count = (ph.count - w + workers - 1) / workers
			}
			if ph.fresh > 0 {
				count = ph.fresh
			}
			for first := true; count > 0; first = false {
				mu.Lock()
				over := hit != nil || infra != ""
				mu.Unlock()
				if over || !first && (ph.fresh == 0 || time.Now().After(deadline)) {
					return
				}
				one(w, start, count)
				start += workers * count
			}
		}()
	}
	wg.Wait()
	if hit != nil {
		return hit, ""
	}
	if infra != "" {
		return nil, infra
	}
	c.recheck(p, ph, base, t)
	return nil, ""
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func isKnown(known []string, class string) bool {
	for _, k := range known {
		if k == class {
			return true
		}
	}
	return false
}

// recheck executes a few seeds again, alone and from their record, and compares.
func (c *ctl) recheck(p *propConf, ph phase, base uint64, t *tally) {
	specs := []spec{{Seed: mix2(base, 1)}, {Seed: mix2(base, 2)}}
	var a, b []result
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a = c.execSpecs(targets[ph.target], p.id, ph.race, ph.extra, specs, true) }()
	go func() { defer wg.Done(); b = c.execSpecs(targets[ph.target], p.id, ph.race, ph.extra, specs, true) }()
	wg.Wait()
	var rec []spec
	var want []string
	for i := range specs {
		t.hashesChecked++
		if a[i].hash == "" || a[i].hash != b[i].hash {
			t.hashesMismatch++
			c.notes = append(c.notes, fmt.Sprintf("seed %d: %q and %q", specs[i].Seed, a[i].hash, b[i].hash))
			continue
		}
		if len(t.samples) < 3 && len(a[i].log) > 0 {
			t.samples = append(t.samples, fmt.Sprintf("seed %d\n%s", specs[i].Seed, strings.Join(lastLines(a[i].log, 25), "\n")))
		}
		if a[i].spec != nil {
			rec = append(rec, *a[i].spec)
			want = append(want, a[i].hash)
		}
	}
	if len(rec) > 0 {
		d := c.execSpecs(targets[ph.target], p.id, ph.race, ph.extra, rec, false)
		for i := range rec {
			t.hashesChecked++
			if d[i].hash != want[i] {
				t.hashesMismatch++
				c.notes = append(c.notes, fmt.Sprintf("recorded run of seed %d: %q, want %q", rec[i].Seed, d[i].hash, want[i]))
			}
		}
	}
}

// confirm reproduces a violation in a fresh process and minimises it.
func (c *ctl) confirm(p *propConf, h *found) (*replayFile, bool) {
	t := targets[h.ph.target]
	rf := &replayFile{Property: p.id, Class: h.class, Message: h.msg, Target: h.ph.target, Race: h.ph.race, Extra: h.ph.extra, Tier: c.tier, Seed: mix2(h.base, uint64(h.i)+1), Run: h.i}
	tries := 1
	if h.class == "race" {
		tries = 4
	}
	full := func(s spec) (result, bool) {
		var last result
		for k := 0; k < tries; k++ {
			r := c.execSpecs(t, p.id, h.ph.race, h.ph.extra, []spec{s}, true)[0]
			if r.class(h.class) {
				return r, true
			}
			last = r
		}
		return last, false
	}
	r, ok := full(spec{Seed: rf.Seed})
	if !ok && h.spec != nil {
		r, ok = full(*h.spec)
	}
	if !ok {
		// The history of earlier runs in the same process matters.
		cfg := config{Prop: p.id, Base: h.base, Start: h.start, Stride: workers, Count: (h.i-h.start)/workers + 1, Extra: h.ph.extra, Hashes: true}
		for k := 0; k < 2 && !ok; k++ {
			o := c.worker(t, cfg, h.ph.race, nil, 300*time.Second)
			for _, rr := range o.runs {
				if rr.I == h.i {
					for _, f := range rr.Fails {
						if f.Class == h.class {
							ok = true
							r = result{fails: rr.Fails, spec: rr.Spec, hash: rr.Hash}
						}
					}
				}
			}
			if o.end == nil && o.lastI == h.i {
				if cl, msg := deathClass(o.died); cl == h.class {
					ok = true
					r = result{fails: []failure{{cl, msg}}, log: []string{tailStr(o.died, 3000)}}
				}
			}
		}
		if !ok {
			return nil, false
		}
		rf.Prefix = &prefix{Base: h.base, Start: h.start, Stride: workers, Count: cfg.Count}
		rf.Spec, rf.Hash, rf.Trace = r.spec, r.hash, r.log
		return rf, true
	}
	for _, f := range r.fails {
		if f.Class == h.class {
			rf.Message = f.Msg
			break
		}
	}
	rf.Spec, rf.Hash, rf.Trace = r.spec, r.hash, r.log
	if r.spec == nil {
		rf.Spec = &spec{Seed: rf.Seed}
		return rf, true
	}
	if !r.spec.Fixed {
		return rf, true // the process died before it could report its decisions
	}
	rf.From = entries(rf.Spec)
	budget := 60 * time.Second
	if c.tier == "thorough" {
		budget = 150 * time.Second
	}
	min, mr := c.minimise(t, p.id, h, *r.spec, budget)
	if mr != nil {
		if fr, ok := full(min); ok && fr.spec != nil {
			rf.Spec, rf.Hash, rf.Trace, rf.Minimal = fr.spec, fr.hash, fr.log, true
			for _, f := range fr.fails {
				if f.Class == h.class {
					rf.Message = f.Msg
					break
				}
			}
		}
	}
	rf.Entries = entries(rf.Spec)
	return rf, true
}

func entries(s *spec) int {
	n := len(s.Choices) + len(s.Preempts) + len(s.Picks)
	for i := range s.Lives {
		n += entries(&s.Lives[i])
	}
	return n
}

// filter keeps the entries whose running index satisfies keep.
func filter(s spec, keep func(int) bool) spec {
	i := 0
	var walk func(s spec) spec
	walk = func(s spec) spec {
		o := spec{Seed: s.Seed, Fixed: true}
		for _, e := range s.Choices {
			if keep(i) {
				o.Choices = append(o.Choices, e)
			}
			i++
		}
		for _, e := range s.Preempts {
			if keep(i) {
				o.Preempts = append(o.Preempts, e)
			}
			i++
		}
		for _, e := range s.Picks {
			if keep(i) {
				o.Picks = append(o.Picks, e)
			}
			i++
		}
		for _, l := range s.Lives {
			o.Lives = append(o.Lives, walk(l))
		}
		return o
	}
	return walk(s)
}

// minimise removes decisions while the violation remains.
func (c *ctl) minimise(t *target, prop string, h *found, s spec, budget time.Duration) (spec, *result) {
	deadline := time.Now().Add(budget)
	cur := s
	var best *result
	chunk := (entries(&cur) + 1) / 2
	for chunk >= 1 && time.Now().Before(deadline) {
		n := entries(&cur)
		if n == 0 {
			break
		}
		var cands []spec
		for at := 0; at < n; at += chunk {
			lo, hi := at, min(at+chunk, n)
			cands = append(cands, filter(cur, func(i int) bool { return i < lo || i >= hi }))
		}
		progress := false
		// Try candidates in parallel, adopt the first that still fails, and
		// continue with what follows it.
		for at := 0; at < len(cands) && time.Now().Before(deadline); at += 16 {
			batch := cands[at:min(at+16, len(cands))]
			res := make([]result, len(batch))
			var wg sync.WaitGroup
			sem := make(chan struct{}, workers)
			for i := range batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					if time.Now().After(deadline) {
						return
					}
					res[i] = c.execSpecs(t, prop, h.ph.race, h.ph.extra, []spec{batch[i]}, false)[0]
				}()
			}
			wg.Wait()
			pick := -1
			for i := range res {
				if res[i].class(h.class) && (pick < 0) {
					pick = i
				}
			}
			if pick >= 0 {
				cur = batch[pick]
				if res[pick].spec != nil && res[pick].spec.Fixed && entries(res[pick].spec) <= entries(&cur) {
					cur = *res[pick].spec
				}
				r := res[pick]
				best = &r
				progress = true
				break
			}
		}
		if !progress {
			if chunk == 1 {
				break
			}
			chunk = (chunk + 1) / 2
		} else if m := entries(&cur); chunk > (m+1)/2 && m > 0 {
			chunk = (m + 1) / 2
		}
	}
	return cur, best
}

func (c *ctl) writeReplay(rf *replayFile) string {
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", rf.Property, rf.Seed))
	if err := os.WriteFile(path, mustJSON(rf), 0o644); err != nil {
		die("%v", err)
	}
	return path
}

// replay executes a replay file.
func (c *ctl) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	c.scratch = c.scratchDir()
	defer os.RemoveAll(c.scratch)
	c.tier = rf.Tier
	t := targets[rf.Target]
	if err := c.build(t, rf.Race); err != nil {
		die("%v", err)
	}
	tries := 1
	if rf.Class == "race" {
		tries = 4
	}
	for k := 0; k < tries; k++ {
		var r result
		if rf.Prefix != nil {
			o := c.worker(t, config{Prop: rf.Property, Base: rf.Prefix.Base, Start: rf.Prefix.Start, Stride: rf.Prefix.Stride, Count: rf.Prefix.Count, Extra: rf.Extra, Hashes: true}, rf.Race, nil, 600*time.Second)
			for _, rr := range o.runs {
				if rr.I == rf.Run {
					r = result{fails: rr.Fails, log: rr.Log, hash: rr.Hash}
				}
			}
			if o.end == nil {
				if cl, msg := deathClass(o.died); cl != "" {
					r = result{fails: []failure{{cl, msg}}, log: []string{o.died}}
				}
			}
		} else {
			r = c.execSpecs(t, rf.Property, rf.Race, rf.Extra, []spec{*rf.Spec}, true)[0]
		}
		if k == 0 || r.class(rf.Class) {
			for _, l := range r.log {
				fmt.Println(l)
			}
			if r.infra != "" {
				fmt.Println(r.infra)
			}
		}
		if r.class(rf.Class) {
			same := "the same execution"
			if rf.Hash != "" && r.hash != rf.Hash {
				same = "a different execution: the code has changed"
			}
			fmt.Printf("reproduced %s (%s)\n", rf.Class, same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

// show runs the first runs of a check's first phase and prints their histories.
func (c *ctl) show(id string, n int) int {
	for _, p := range props {
		if p.id != id {
			continue
		}
		c.scratch = c.scratchDir()
		defer os.RemoveAll(c.scratch)
		ph := p.phases[0]
		if v := os.Getenv("SIM_PHASE"); v != "" {
			var k int
			fmt.Sscanf(v, "%d", &k)
			ph = p.phases[k]
		}
		if err := c.build(targets[ph.target], ph.race); err != nil {
			die("%v", err)
		}
		base := mix2(mix2(c.seed, uint64(len(p.id))*131+hash(p.id)), 0)
		var specs []spec
		from := 0
		if v := os.Getenv("SIM_FROM"); v != "" {
			fmt.Sscanf(v, "%d", &from)
		}
		for i := from; i < from+n; i++ {
			specs = append(specs, spec{Seed: mix2(base, uint64(i)+1)})
		}
		for i, r := range c.execSpecs(targets[ph.target], id, ph.race, ph.extra, specs, true) {
			fmt.Printf("=== run %d seed %d hash %s\n", from+i, specs[i].Seed, r.hash)
			for _, l := range r.log {
				fmt.Println(l)
			}
			for _, f := range r.fails {
				fmt.Println("FAIL", f.Class, f.Msg)
			}
			if r.infra != "" {
				fmt.Println("INFRA", r.infra)
			}
		}
	}
	return 0
}

// knownFindings reads the committed list.
func (c *ctl) knownFindings(id string) (classes, lines []string, err error) {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil, nil
	}
	if err != nil {
		return nil, nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" class=")
		if !ok {
			continue
		}
		cl, desc, ok := strings.Cut(rest, " :: ")
		if !ok {
			return nil, nil, fmt.Errorf("known-findings.txt: bad line %q", l)
		}
		classes = append(classes, cl)
		lines = append(lines, cl+": "+desc)
	}
	return
}

func (c *ctl) evidence(p *propConf, t *tally, search time.Duration, seenKnown map[string]string) {
	faults := map[string]uint64{}
	probes := map[string]uint64{}
	other := map[string]uint64{}
	for k, v := range t.counters {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe:"):
			probes[k[6:]] = v
		default:
			other[k] = v
		}
	}
	real, stub := map[string]bool{}, map[string]bool{}
	for _, ph := range p.phases {
		for _, s := range targets[ph.target].real {
			real[s] = true
		}
		for _, s := range targets[ph.target].stub {
			stub[s] = true
		}
	}
	hours := search.Hours()
	samples := []any{}
	for _, s := range t.samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":             t.runs,
		"distinct_nontrivial":     len(t.shapes),
		"rule":                    p.rule + " A run is non-trivial when " + p.nontrivial + "; distinct non-trivial runs are counted by the hash of their event history.",
		"samples":                 samples,
		"nontrivial_runs":         t.nontriv,
		"distinct_interleavings":  len(t.sched),
		"interleaving_measure":    "hash of the sequence (goroutine, scheduling point) over every switch of a run, runs with at least one scheduling decision",
		"seeds_per_hour":          int(float64(t.runs) / hours),
		"simulated_seconds":       float64(t.simMs) / 1000,
		"scheduling_points":       t.steps,
		"forced_preemptions":      t.switches,
		"most_runnable_at_once":   t.maxRun,
		"events":                  t.events,
		"faults_injected":         faults,
		"situations_reached":      probes,
		"executions_compared":     t.hashesChecked,
		"executions_that_differ":  t.hashesMismatch,
		"components_real":         keysSorted(real),
		"components_stub":         keysSorted(stub),
		"known_findings_observed": seenKnown,
	}
	if len(other) > 0 {
		cov["counters"] = other
	}
	ev := map[string]any{
		"property": p.id, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{
			"Go 1.25 runtime, compiler and standard library behave as documented apart from the listed patches; memory is sequentially consistent between scheduling points (race builds report where the code relies on more)",
			"protobuf, protocompile and other dependencies are not instrumented: goroutines are not preempted inside them",
		}, p.assumptions...),
		"wall_s": time.Since(c.t0).Seconds(), "violations": t.violations,
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), mustJSON(ev), 0o644); err != nil {
		die("%v", err)
	}
}

func keysSorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
