package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"simrt"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"
)

// simLife is what the driver tells a lifetime.
type simLife struct {
	Prop  string
	Out   string
	Conc  int
	Mode  string // plain, delays, faults, stalls
	FS    string // none, errors, crash
	Equal bool   // every download takes the same time
	Sites []*simSite
	Cur   int // index of the site version served now
	Day   int // this lifetime's day
	Days  []int
	Bound time.Duration // simulated time allowed
}

// simObs is what a lifetime reports.
type simObs struct {
	Reqs     []simReq
	MaxIn    int
	FSFaults int
	CritFS   int // faults on operations that concern the root, the index or the directories
	ListBad  bool
	RootBad  bool
	Stderr   string
	Ops      int
	Elapsed  time.Duration
}

type simReq struct {
	URL   string
	Fault string
	EOF   bool // the whole body was delivered
	Code  int
}

const simDay0 = 20820 // days since 1970: 2027-01-02

func TestSimWorker(t *testing.T) {
	if !simrt.LoadConfig() {
		t.Skip("not a simulation worker")
	}
	if simrt.IsLife() {
		simRunLife()
		return
	}
	sc, ok := simScenarios[simrt.Cfg.Prop]
	if !ok {
		panic("simrt: no scenario " + simrt.Cfg.Prop)
	}
	simrt.Main(simrt.Scenario{Run: sc, Plain: true})
}

// ---------------------------------------------------------------- lifetimes

func simRunLife() {
	var cfg simLife
	if err := json.Unmarshal([]byte(simrt.Cfg.Extra), &cfg); err != nil {
		panic(err)
	}
	site := cfg.Sites[cfg.Cur]
	obs := &simObs{}
	var net *simrt.Network
	var fs *simrt.FS
	var errOut strings.Builder
	now := int64(simDay0+cfg.Day) * 86400e9
	simrt.RunLife(simrt.Life{
		MaxSteps: 30_000_000,
		Now:      now,
		Setup: func(r *simrt.Run) {
			fs = r.NewFS(cfg.Out)
			fs.Root = filepath.Dir(cfg.Out)
			net = r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan {
				if cfg.Prop == "C15" {
					simCheckWhole(r, &cfg, net.Reqs(), q, "when "+q.URL+" is requested")
				}
				return simNetPlan(r, &cfg, site, req, q)
			})
			net.InFlight = func(q *simrt.Req) bool {
				return q.URL != simRootURL && q.URL != simList1 && q.URL != simList2
			}
			fs.Plan = func(op *simrt.FSOp) simrt.FSFault { return simFSPlan(r, &cfg, op, obs) }
			fs.Before = func(op *simrt.FSOp) { simBefore(r, &cfg, net, op) }
			os.SimStdio = func(name string, b []byte) (int, error) {
				if errOut.Len() < 1<<16 {
					errOut.Write(b)
				}
				return len(b), nil
			}
			flag.CommandLine = flag.NewFlagSet("fetch-certs", flag.ExitOnError)
			os.Args = []string{"fetch-certs", "-dir", cfg.Out, "-base-url", simBase, "-concurrency", fmt.Sprint(cfg.Conc)}
		},
		Main: func(r *simrt.Run) {
			go func() {
				time.Sleep(cfg.Bound)
				if cfg.Prop == "C18" {
					r.Fail("no-termination", "still running after %v of simulated time (%d links, limit %d)", cfg.Bound, len(site.Rows), cfg.Conc)
				}
				os.Exit(99)
			}()
			main()
		},
		Finish: func(r *simrt.Run, rep *simrt.LifeReport) {
			for _, q := range net.Reqs() {
				code := 0
				if q.Answered {
					code = q.Plan.Status
				}
				obs.Reqs = append(obs.Reqs, simReq{URL: q.URL, Fault: q.Plan.Note, EOF: q.EOF, Code: code})
			}
			obs.MaxIn = net.MaxIn
			obs.Ops = fs.N()
			obs.Elapsed = time.Duration(runtime.SimNow() - now)
			obs.Stderr = errOut.String()
			if len(obs.Stderr) > 4000 {
				obs.Stderr = obs.Stderr[len(obs.Stderr)-4000:]
			}
			b, err := json.Marshal(obs)
			if err != nil {
				panic(err)
			}
			rep.Obs = b
		},
	})
}

// simStatuses are answers that are not the document asked for.
var simStatuses = []int{503, 404, 206, 204, 500, 202, 203, 201, 429, 403, 304, 299, 226}

// simNetPlan decides what the network does with a request.
//
//go:norace
func simNetPlan(r *simrt.Run, cfg *simLife, site *simSite, req *http.Request, q *simrt.Req) simrt.Plan {
	status, body, _ := site.body(q.URL)
	p := simrt.Ok(body)
	p.Status = status
	l := "net:" + strings.TrimPrefix(q.URL, simBase) + ":"
	cert := q.URL != simRootURL && q.URL != simList1 && q.URL != simList2
	if !cert {
		p.Header = http.Header{"Content-Type": {"text/html"}}
	}
	switch {
	case cfg.Equal:
		p.Delay = 100 * time.Millisecond
		return p
	case cfg.Mode == "plain":
		return p
	}
	p.Delay = time.Duration(r.Weighted(l+"delay", 3, 2, 2, 1, 1, 1)) * 7 * time.Millisecond
	if p.Delay == 35*time.Millisecond {
		p.Delay = time.Duration(1+r.Int(l+"slow", 4000)) * time.Millisecond
	}
	if r.Chance(l+"chunked", 1, 4) {
		// At most about 250 pieces and five seconds: slow, but no fault.
		p.Chunk = 1 + r.Int(l+"chunk", 400) + len(body)/250
		p.Gap = time.Duration(r.Int(l+"gap", 20)) * time.Millisecond
	}
	if cfg.Mode == "delays" {
		return p
	}
	rate := 5
	if !cert {
		rate = 14
	}
	if cfg.Mode == "stalls" {
		rate = 3
		if !cert {
			rate = 8
		}
	}
	if !r.Chance(l+"fault", 1, rate) {
		return p
	}
	w := []int{0, 3, 2, 2, 2, 4, 2, 1, 1, 1, 1}
	if cfg.Mode == "stalls" {
		w = []int{0, 1, 1, 1, 1, 1, 1, 4, 4, 3, 3}
	}
	w[0] = 1
	k := r.Weighted(l+"kind", w...)
	cut := func() int { return r.Pos(l+"at", len(body)+1) }
	switch k {
	case 0:
		return p
	case 1:
		p.Note, p.Err = "reset", simrt.ErrReset
	case 2:
		p.Note, p.Err = "dns", simrt.ErrDNS
	case 3:
		p.Status = simStatuses[r.Int(l+"status", len(simStatuses))]
		p.Note = "other status"
		switch r.Int(l+"answer", 4) {
		case 0:
			p.Body = []byte("busy")
		case 1:
			p.Body = nil
		case 2:
			p.Body = body[:r.Pos(l+"part", len(body)+1)]
		}
	case 4:
		p.Note, p.Err = "connect timeout", simrt.ErrTimeout
		p.Delay += 20 * time.Second
	case 5:
		p.Note, p.CutAt, p.CutErr = "body cut", cut(), io.ErrUnexpectedEOF
	case 6:
		p.Note, p.CutAt, p.CutErr = "body reset", cut(), simrt.ErrReset
	case 7:
		p.Note, p.Hang = "never answers", true
	case 8:
		p.Note, p.StallAt = "body stalls", cut()
	case 9:
		p.Note, p.Endless, p.Chunk, p.Gap = "endless body", -1, 4096, 500*time.Millisecond
	case 10:
		p.Note, p.Chunk, p.Gap = "slow body", 1, time.Duration(5+r.Int(l+"drip", 100))*time.Second
	}
	r.Fault("net " + p.Note)
	return p
}

// simWriting is the file opened for writing last.
var simWriting string

// simFSPlan decides what the disk does.
//
//go:norace
func simFSPlan(r *simrt.Run, cfg *simLife, op *simrt.FSOp, obs *simObs) simrt.FSFault {
	f := simrt.Faultless
	if cfg.FS == "none" || cfg.FS == "" {
		return f
	}
	if op.Op == "openw" {
		simWriting = op.Name
	}
	rel, _ := filepath.Rel(cfg.Out, op.Name)
	l := "fs:" + op.Op + ":" + rel
	if cfg.FS == "crash" {
		if op.Mutating || op.Op == "close" || op.Op == "sync" {
			if r.Chance(l+":crash", 1, 25) {
				f.Crash, f.Limit = true, 0
				if op.Op == "write" {
					f.Limit = r.Pos(l+":at", op.Size+1)
				}
			}
		}
		return f
	}
	if !r.Chance(l, 1, 18) {
		return f
	}
	k := r.Int(l+":kind", 4)
	switch op.Op {
	case "write":
		f.Err = []error{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EINTR}[k]
		if k == 3 {
			f.Err = syscall.EIO
		}
		f.Limit = r.Pos(l+":at", op.Size+1)
	case "openw", "mkdir":
		f.Err = []error{syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EROFS}[k]
	case "rename", "remove", "removeall", "truncate", "chmod", "link", "symlink":
		f.Err = []error{syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.ENOSPC}[k]
	case "close", "sync":
		f.Err = []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EIO}[k]
		if op.Op == "close" && op.Name == simWriting {
			// What was written late is lost.
			if st, err := os.Lstat(op.Name); err == nil && st.Mode().IsRegular() && st.Size() > 0 {
				syscall.Truncate(op.Name, int64(r.Pos(l+":lost", int(st.Size()))))
			}
		}
	case "open", "opendir", "read":
		f.Err = []error{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.EIO}[k]
	}
	obs.FSFaults++
	return f
}

// simBefore looks at the directory before every file operation.
//
//go:norace
func simBefore(r *simrt.Run, cfg *simLife, net *simrt.Network, op *simrt.FSOp) {
	switch cfg.Prop {
	case "C15":
		if op.Mutating || op.Op == "close" {
			simCheckDir(r, cfg, fmt.Sprintf("before file operation %d (%s %s)", op.N, op.Op, op.Name))
			simCheckWhole(r, cfg, net.Reqs(), nil, fmt.Sprintf("before file operation %d (%s %s)", op.N, op.Op, op.Name))
		}
	case "C19":
		if op.Mutating {
			simCheckPath(r, cfg, op.Op, op.Name)
			if op.Name2 != "" {
				simCheckPath(r, cfg, op.Op, op.Name2)
			}
		}
	}
}

// simCheckPath is C19: is this a place the tool may change?
func simCheckPath(r *simrt.Run, cfg *simLife, op, name string) {
	rel, err := filepath.Rel(cfg.Out, name)
	if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
		if op == "mkdir" && (name == filepath.Dir(cfg.Out) || strings.HasPrefix(cfg.Out, name+"/")) {
			return // a parent of the output directory
		}
		r.Fail("outside:"+op, "%s %s: outside the output directory %s", op, name, cfg.Out)
		return
	}
	base := filepath.Base(rel)
	temp := strings.Contains(base, "tmp") || strings.Contains(base, "temp")
	dir := filepath.Dir(rel)
	ok := false
	switch {
	case rel == "." || rel == "root" || rel == "g1" || rel == "g2":
		ok = op == "mkdir" || op == "openw" || op == "chmod"
	case dir == ".":
		ok = base == "index.json" || temp || strings.HasPrefix(base, ".") && strings.Contains(base, "index")
	case strings.HasPrefix(rel, "root/") || strings.HasPrefix(rel, "g1/") || strings.HasPrefix(rel, "g2/"):
		ok = strings.HasSuffix(base, ".bin") || strings.Contains(base, ".bin") || temp
	}
	if !ok {
		r.Fail("misplaced:"+op, "%s %s: not the index nor a certificate file in root, g1 or g2", op, rel)
	}
}

// -------------------------------------------------------------- the directory

type simIndexEntry struct {
	CAR, CHR, Country, URL, ExpirationDate, Path string
}

type simIndex struct {
	CreateTime time.Time
	Root       *simIndexEntry
	G1, G2     []simIndexEntry
	raw        []byte
}

func simReadIndex(out string) (*simIndex, error) {
	b, err := os.ReadFile(filepath.Join(out, "index.json"))
	if err != nil {
		return nil, err
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, fmt.Errorf("index is not complete JSON: %w", err)
	}
	x := &simIndex{raw: b}
	if err := json.Unmarshal(b, x); err != nil {
		return nil, fmt.Errorf("index: %w", err)
	}
	if x.Root == nil {
		return nil, errors.New("index without a root certificate")
	}
	return x, nil
}

// day returns the lifetime that made the index.
func (x *simIndex) day() int { return int(x.CreateTime.Unix()/86400) - simDay0 }

// simCheckDir is C15.
func simCheckDir(r *simrt.Run, cfg *simLife, when string) {
	if r.Failed() {
		return
	}
	x, err := simReadIndex(cfg.Out)
	if err != nil {
		if !os.IsNotExist(err) {
			r.Fail("index-incomplete", "%s: %v", when, err)
		}
	} else {
		k := -1
		for i, d := range cfg.Days {
			if d == x.day() {
				k = i
			}
		}
		if k < 0 {
			r.Fail("index-foreign", "%s: index created at %v, which is no refresh of this run", when, x.CreateTime)
			return
		}
		site := cfg.Sites[k]
		check := func(gen int, e simIndexEntry) {
			b, err := os.ReadFile(filepath.Join(cfg.Out, filepath.FromSlash(e.Path)))
			if err != nil {
				r.Fail("listed-missing", "%s: the index lists %s (%s), which cannot be read: %v", when, e.Path, e.URL, err)
				return
			}
			want := simRootBytes()
			if gen > 0 {
				_, want, _ = site.body(e.URL)
			}
			if string(b) != string(want) {
				r.Fail("listed-differs", "%s: %s holds %d bytes that are not the %d bytes downloaded from %s", when, e.Path, len(b), len(want), e.URL)
			}
		}
		check(0, *x.Root)
		for _, e := range x.G1 {
			check(1, e)
		}
		for _, e := range x.G2 {
			check(2, e)
		}
	}
	for gen, dir := range []string{"root", "g1", "g2"} {
		ents, _ := os.ReadDir(filepath.Join(cfg.Out, dir))
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".bin") || e.IsDir() || strings.Contains(e.Name(), "tmp") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(cfg.Out, dir, e.Name()))
			if err != nil {
				continue
			}
			ok := gen == 0 && string(b) == string(simRootBytes())
			for _, s := range cfg.Sites {
				for i := range s.Rows {
					if s.Rows[i].Gen == gen && string(s.Rows[i].Body) == string(b) {
						ok = true
					}
				}
				if gen == 0 && s.Root != "good" && len(b) == 100 {
					ok = ok || string(b) == string(simRootBytes()[:100])
				}
				if gen == 0 && s.Root == "long" && len(b) == 145 && string(b) == string(simRootBytes())+"\x00" {
					ok = true // complete, and refused
				}
				if gen == 0 && s.Root == "zero" && string(b) == string(make([]byte, 144)) {
					ok = true
				}
			}
			if !ok {
				r.Fail("partial-file", "%s: %s/%s holds %d bytes that no download delivered in full", when, dir, e.Name(), len(b))
			}
		}
	}
}

// simCheckWhole is the other part of C15: an index of this refresh is not there
// before everything it has to describe was fetched.
func simCheckWhole(r *simrt.Run, cfg *simLife, reqs []*simrt.Req, now *simrt.Req, when string) {
	if r.Failed() {
		return
	}
	x, err := simReadIndex(cfg.Out)
	if err != nil || x.day() != cfg.Day {
		return
	}
	got := map[string]int{}
	for _, q := range reqs {
		if q == now {
			continue
		}
		got[simUnescape(q.URL)]++
		if !q.Answered && !q.Ended {
			r.Fail("index-early", "%s: an index of this refresh is present while %s is being fetched", when, q.URL)
			return
		}
	}
	site := cfg.Sites[cfg.Cur]
	need := []string{simList1, simList2}
	for i := range site.Rows {
		need = append(need, site.Rows[i].url())
	}
	for _, u := range need {
		if got[simUnescape(u)] == 0 {
			r.Fail("index-early", "%s: an index of this refresh is present although %s was not fetched yet", when, u)
			return
		}
	}
}

// --------------------------------------------------------------- the scenarios

var simScenarios = map[string]func(*simrt.Run){
	"C15": simC15, "C16": simC16, "C17": simC17, "C18": simC18, "C19": simC19, "C20": simC20,
}

var simDirSeq int

// simOuts are names of output directories.
var simOuts = []string{"out", "out[12]", "o?t", "out*", "my certs", "[out", "out.bin"}

// simNeighbours are directories a careless reading of such a name would reach.
var simNeighbours = []string{"out1", "oat", "outside", "out", "out2"}

// simDir makes a fresh directory and the output path in it.
func simDir(r *simrt.Run) (dir, out string) {
	simDirSeq++
	dir = filepath.Join(r.Scratch(), fmt.Sprintf("run%d", simDirSeq%2))
	if err := os.RemoveAll(dir); err != nil {
		panic("simrt: " + err.Error())
	}
	// The output directory lies deep, so that a path that climbs out of it
	// still lands in this run's own directory.
	out = filepath.Join(dir, "a", "b", "c", simOuts[r.Weighted("out", 9, 1, 1, 1, 1, 1, 1)])
	if err := os.MkdirAll(filepath.Dir(out), 0o777); err != nil {
		panic("simrt: " + err.Error())
	}
	return dir, out
}

func simStart(r *simrt.Run, dir string, cfg *simLife) (*simrt.LifeReport, *simObs) {
	if cfg.Bound == 0 {
		cfg.Bound = simBound(len(cfg.Sites[cfg.Cur].Rows), cfg.Conc)
	}
	r.LifeEnv = nil
	if r.Chance("surroundings", 1, 3) {
		r.LifeEnv = append(r.LifeEnv, fmt.Sprint("SIM_SURROUNDINGS=", 1+r.Int("machine", 10000)), "TZ="+[]string{"UTC", "Asia/Tokyo", "America/St_Johns", "Pacific/Kiritimati"}[r.Int("zone", 4)])
		r.Fault("another machine")
	}
	rep := r.Lifetime(dir, cfg)
	o := &simObs{}
	if len(rep.Obs) > 0 {
		if err := json.Unmarshal(rep.Obs, o); err != nil {
			panic(err)
		}
	}
	if r.Verbose {
		for _, l := range strings.Split(strings.TrimSpace(o.Stderr), "\n") {
			r.Notef("tool: %s", l)
		}
	}
	r.Logf("refresh %d ended: %s %d after %v, %d requests, %d file operations", cfg.Cur, rep.End, rep.Code, o.Elapsed, len(o.Reqs), o.Ops)
	if rep.End == "panic" || rep.End == "died" {
		r.Fail("crash", "the refresh ended in a panic: %s", simFirst(rep.Detail))
	}
	return rep, o
}

func simFirst(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// simBound is far above what any reasonable set of timeouts needs.
func simBound(links, conc int) time.Duration {
	if conc < 1 {
		conc = 1
	}
	return 20 * time.Minute * time.Duration(links/conc+6)
}

func simConc(r *simrt.Run, l string) int {
	return []int{10, 1, 2, 3, 5, 16}[r.Int(l, 6)]
}

// delivered lists the URLs whose body was delivered completely with status 200.
func (o *simObs) delivered() map[string]int {
	m := map[string]int{}
	for _, q := range o.Reqs {
		if q.EOF && q.Code == 200 {
			m[simUnescape(q.URL)]++
		}
	}
	return m
}

func (o *simObs) faulty(url string) bool {
	for _, q := range o.Reqs {
		if simSameURL(q.URL, url) && q.Fault != "" {
			return true
		}
	}
	return false
}

// simCompare is C16 and part of C20: the index against the site and the
// deliveries. allow is the number of absences that injected disk faults explain.
func simCompare(r *simrt.Run, site *simSite, x *simIndex, o *simObs, out string, allow int) {
	got := o.delivered()
	for gen := 1; gen <= 2; gen++ {
		list := x.G1
		if gen == 2 {
			list = x.G2
		}
		type exp struct {
			row  *simRow
			must bool
		}
		var exps []exp
		for i := range site.Rows {
			row := &site.Rows[i]
			if row.Gen != gen {
				continue
			}
			if !row.Valid && !row.Optional {
				continue
			}
			if got[simUnescape(row.url())] == 0 {
				continue // not delivered: must be absent
			}
			exps = append(exps, exp{row, !row.Optional})
		}
		used := make([]bool, len(exps))
		for _, e := range list {
			found := false
			for i := range exps {
				row := exps[i].row
				if used[i] || !simSameURL(e.URL, row.url()) {
					continue
				}
				if row.Optional || (e.CAR == row.CAR && e.CHR == row.CHR && e.Country == row.Country && e.ExpirationDate == row.Exp) {
					used[i] = true
					found = true
					break
				}
			}
			if found {
				// The file it names is this certificate.
				_, want, _ := site.body(e.URL)
				if b, err := os.ReadFile(filepath.Join(out, filepath.FromSlash(e.Path))); err != nil || string(b) != string(want) {
					r.Fail("entry-file", "the entry for %s names %s, which does not hold the certificate served there (%v)", e.URL, e.Path, err)
					return
				}
				continue
			}
			for i := range site.Rows {
				if row := &site.Rows[i]; row.Gen == gen && simSameURL(e.URL, row.url()) && got[simUnescape(e.URL)] > 0 && row.Valid {
					n := 0
					for _, f := range list {
						if simSameURL(f.URL, e.URL) {
							n++
						}
					}
					r.Fail("entry-wrong", "the entry for %s says country %q, expiry %q, CAR %s, CHR %q (%d entries for this address); the certificate served there has country %q, expiry %q, CAR %s, CHR %q",
						e.URL, e.Country, e.ExpirationDate, e.CAR, e.CHR, n, row.Country, row.Exp, row.CAR, row.CHR)
					return
				}
			}
			r.Fail("entry-invented", "generation %d lists %s, which was not downloaded successfully", gen, e.URL)
			return
		}
		missing := 0
		first := ""
		// Several rows may share an address; after a failure of some of its
		// downloads only as many entries as deliveries are due.
		excuse := map[string]int{}
		for i := range exps {
			u := simUnescape(exps[i].row.url())
			if _, ok := excuse[u]; !ok {
				n := 0
				for k := range exps {
					if simUnescape(exps[k].row.url()) == u {
						n++
					}
				}
				excuse[u] = 0
				if o.faulty(exps[i].row.url()) {
					excuse[u] = max(0, n-got[u])
				}
			}
			if !used[i] && exps[i].must && excuse[u] > 0 {
				excuse[u]--
				continue
			}
			if !used[i] && exps[i].must {
				missing++
				if first == "" {
					first = exps[i].row.url()
				}
			}
		}
		if missing > allow {
			r.Fail("entry-missing", "%d certificates of generation %d were downloaded but are not in the index, first %s (%d disk faults injected)", missing, gen, first, o.FSFaults)
			return
		}
		allow -= missing
	}
	// A download that needed no retry and met no fault must have been made.
	for i := range site.Rows {
		row := &site.Rows[i]
		if row.Valid && !row.Optional && got[simUnescape(row.url())] == 0 && !o.faulty(row.url()) {
			r.Fail("link-skipped", "%s was never downloaded although nothing was wrong with it", row.url())
			return
		}
	}
}

func simC16(r *simrt.Run) {
	dir, out := simDir(r)
	o := simSiteOpts{maxRows: []int{4, 12, 25}[r.Int("size", 3)]}
	site := simBuildSite(r, "s.", o)
	lives := 1 + r.Int("again", 2)
	for k := 0; k < lives; k++ {
		cfg := &simLife{Prop: "C16", Out: out, Conc: simConc(r, "conc"), Mode: []string{"plain", "delays", "faults"}[r.Weighted("mode", 1, 3, 4)], Sites: []*simSite{site}, Days: []int{k}, Day: k}
		rep, obs := simStart(r, dir, cfg)
		if r.Failed() {
			return
		}
		if len(site.Rows) > 1 {
			r.Nontrivial()
		}
		x, err := simReadIndex(out)
		if rep.Code != 0 || rep.End != "exit" {
			if cfg.Mode != "faults" {
				r.Fail("failed", "the refresh failed (%s %d) although the root certificate and both lists were served correctly: %s", rep.End, rep.Code, simTail(obs.Stderr))
				return
			}
			got := obs.delivered()
			excused := rep.End != "exit" || rep.Code == 99
			for _, q := range obs.Reqs {
				if q.URL == simRootURL || q.URL == simList1 || q.URL == simList2 {
					excused = excused || got[simUnescape(q.URL)] == 0
				}
			}
			if !excused {
				r.Fail("failed", "the refresh failed (%s %d) although nothing went wrong with the root certificate and the lists: %s", rep.End, rep.Code, simTail(obs.Stderr))
				return
			}
			continue
		}
		if err != nil {
			r.Fail("index-unreadable", "after a successful refresh: %v", err)
			return
		}
		simCompare(r, site, x, obs, out, 0)
		if r.Failed() {
			return
		}
	}
}

func simTail(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

func simC15(r *simrt.Run) {
	dir, out := simDir(r)
	lives := 1 + r.Int("lives", 3)
	o := simSiteOpts{maxRows: []int{3, 8}[r.Int("size", 2)], badRoot: r.Chance("badroot", 1, 6)}
	cfg := &simLife{Prop: "C15", Out: out}
	for k := 0; k < lives; k++ {
		if k > 0 && r.Chance("samesite", 1, 3) {
			cfg.Sites = append(cfg.Sites, cfg.Sites[k-1])
		} else {
			cfg.Sites = append(cfg.Sites, simBuildSite(r, fmt.Sprintf("s%d.", k), o))
		}
		cfg.Days = append(cfg.Days, k)
		cfg.Cur, cfg.Day = k, k
		cfg.Conc = simConc(r, "conc")
		cfg.Mode = []string{"plain", "delays", "faults"}[r.Weighted("mode", 1, 2, 2)]
		cfg.FS = []string{"none", "errors", "crash"}[r.Weighted("fs", 2, 2, 4)]
		cfg.Bound = 0
		rep, _ := simStart(r, dir, cfg)
		if r.Failed() {
			return
		}
		simCheckDir(r, cfg, fmt.Sprintf("after refresh %d (%s %d)", k, rep.End, rep.Code))
		if r.Failed() {
			return
		}
		if rep.End == "crash" || cfg.FS != "none" || k > 0 {
			r.Nontrivial()
		}
		if rep.End == "crash" {
			r.Probe("crash during a refresh")
			if k > 0 {
				r.Probe("crash during a refresh over an old directory")
			}
		}
	}
}

// simTree reads the result of a refresh: file names to contents, index without
// its creation time.
func simTree(out string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.WalkDir(out, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(out, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if rel == "index.json" {
			var x struct{ CreateTime string }
			json.Unmarshal(b, &x)
			b = []byte(strings.Replace(string(b), x.CreateTime, "TIME", 1))
		}
		m[rel] = string(b)
		return nil
	})
	return m, err
}

func simC17(r *simrt.Run) {
	dir, out := simDir(r)
	site := simBuildSite(r, "s.", simSiteOpts{maxRows: []int{4, 10, 20}[r.Int("size", 3)], hostile: r.Chance("odd", 1, 5)})
	lives := 2 + r.Int("lives", 3)
	var first map[string]string
	for k := 0; k < lives; k++ {
		if !r.Chance("again", 1, 4) {
			if err := os.RemoveAll(out); err != nil {
				panic("simrt: " + err.Error())
			}
		}
		cfg := &simLife{Prop: "C17", Out: out, Conc: simConc(r, "conc"), Mode: []string{"plain", "delays"}[r.Weighted("mode", 1, 5)], Sites: []*simSite{site}, Days: []int{k}, Day: k}
		rep, obs := simStart(r, dir, cfg)
		if r.Failed() {
			return
		}
		if rep.Code != 0 || rep.End != "exit" {
			r.Fail("failed", "the refresh failed without any fault: %s %d: %s", rep.End, rep.Code, simTail(obs.Stderr))
			return
		}
		x, err := simReadIndex(out)
		if err != nil {
			r.Fail("index-unreadable", "after a successful refresh: %v", err)
			return
		}
		for gen, list := range [][]simIndexEntry{x.G1, x.G2} {
			for i := 1; i < len(list); i++ {
				a, b := list[i-1], list[i]
				ta, ea := time.Parse(time.RFC3339, a.ExpirationDate)
				tb, eb := time.Parse(time.RFC3339, b.ExpirationDate)
				bad := a.Country > b.Country || a.Country == b.Country && (ea != nil && eb == nil || ea == nil && eb == nil && ta.Before(tb))
				if bad {
					r.Fail("order", "generation %d: entry %d (%s, %s) stands before entry %d (%s, %s)", gen+1, i-1, a.Country, a.ExpirationDate, i, b.Country, b.ExpirationDate)
					return
				}
			}
		}
		tree, err := simTree(out)
		if err != nil {
			panic("simrt: " + err.Error())
		}
		if k == 0 {
			first = tree
			continue
		}
		if len(x.G1)+len(x.G2) > 1 {
			r.Nontrivial()
		}
		names := map[string]string{}
		for n := range first {
			names[n] = ""
		}
		for n := range tree {
			names[n] = ""
		}
		for _, n := range simSorted(names) {
			a, okA := first[n]
			b, okB := tree[n]
			if !okA || !okB {
				r.Fail("files-differ", "%s exists after one refresh of the same site and not after another", n)
				return
			}
			if a != b {
				r.Fail("content-differs", "%s differs between two refreshes of the same site: %s", n, simDiff(a, b))
				return
			}
		}
	}
}

func simDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-60), min(len(s), i+60)
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d %q and %q", i, cut(a), cut(b))
}

func simC18(r *simrt.Run) {
	dir, out := simDir(r)
	if r.Chance("use", 1, 3) {
		// Is the limit used when all downloads take equally long?
		site := simBuildSite(r, "s.", simSiteOpts{maxRows: 20, plain: true})
		cfg := &simLife{Prop: "C18", Out: out, Conc: 1 + r.Int("limit", 12), Mode: "plain", Equal: true, Sites: []*simSite{site}, Days: []int{0}}
		_, obs := simStart(r, dir, cfg)
		n := [3]int{}
		for i := range site.Rows {
			n[site.Rows[i].Gen]++
		}
		most := max(n[1], n[2])
		if r.Failed() {
			return
		}
		if obs.MaxIn > cfg.Conc {
			r.Fail("limit-exceeded", "%d downloads were in flight with a limit of %d", obs.MaxIn, cfg.Conc)
		} else if want := min(most, cfg.Conc); obs.MaxIn < want {
			r.Fail("limit-unused", "at most %d downloads were in flight with a limit of %d and %d links to fetch", obs.MaxIn, cfg.Conc, most)
		}
		if most >= cfg.Conc {
			r.Nontrivial()
			r.Probe("the limit was reached")
		}
		return
	}
	site := simBuildSite(r, "s.", simSiteOpts{maxRows: []int{3, 10, 20}[r.Int("size", 3)], badRoot: r.Chance("badroot", 1, 8)})
	cfg := &simLife{Prop: "C18", Out: out, Conc: simConc(r, "conc"), Mode: []string{"delays", "faults", "stalls"}[r.Weighted("mode", 1, 1, 4)], Sites: []*simSite{site}, Days: []int{0}}
	if r.Chance("odd limit", 1, 12) {
		cfg.Conc = -r.Int("limit", 3)
	}
	cfg.FS = []string{"none", "errors"}[r.Weighted("fs", 4, 1)]
	rep, obs := simStart(r, dir, cfg)
	if rep.End == "hang" {
		r.Fail("no-termination", "the refresh never ends: %s (%d links, limit %d)", simTail(rep.Detail), len(site.Rows), cfg.Conc)
	}
	if r.Failed() {
		return
	}
	if cfg.Conc >= 1 && obs.MaxIn > cfg.Conc {
		r.Fail("limit-exceeded", "%d downloads were in flight with a limit of %d", obs.MaxIn, cfg.Conc)
	}
	for _, q := range obs.Reqs {
		if q.Fault != "" {
			r.Nontrivial()
		}
	}
}

func simC19(r *simrt.Run) {
	dir, out := simDir(r)
	site := simBuildSite(r, "s.", simSiteOpts{maxRows: []int{3, 8}[r.Int("size", 2)], hostile: true})
	// Files that are none of the tool's business.
	foreign := map[string]string{
		"notes.txt": "n", "g1/README": "r", "g2/old.bin.bak": "b", "root/x.pem": "p", "other/cert.bin": "c", "cert.bin": "top", "index.json.bak": "i",
		"g1/notes.tmp": "t", "tmp": "t2", "root/EC_PK.zip": "z",
		"../neighbour.bin": "v", "../victim0.bin": "v0", "../../victim1.bin": "v1", "../../../victim2.bin": "v2",
	}
	for _, n := range simNeighbours {
		if filepath.Base(out) != n {
			foreign["../"+n+"/g1/123.bin"], foreign["../"+n+"/root/EC_PK.bin"], foreign["../"+n+"/index.json"] = "n1", "n2", "n3"
		}
	}
	for _, f := range simSorted(foreign) {
		if r.Chance("foreign", 3, 4) {
			p := filepath.Join(out, f)
			os.MkdirAll(filepath.Dir(p), 0o777)
			if err := os.WriteFile(p, []byte(foreign[f]), 0o666); err != nil {
				panic("simrt: " + err.Error())
			}
		} else {
			delete(foreign, f)
		}
	}
	if r.Chance("directory", 1, 10) {
		// A directory with the name of a certificate file, and something in it.
		f := []string{"g1/mine.bin/readme", "g2/keep.bin/1.bin", "root/old.bin/deep/notes"}[r.Int("which", 3)]
		os.MkdirAll(filepath.Dir(filepath.Join(out, f)), 0o777)
		if err := os.WriteFile(filepath.Join(out, f), []byte("d"), 0o666); err != nil {
			panic("simrt: " + err.Error())
		}
		foreign[f] = "d"
		r.Probe("directory with the name of a certificate file")
	}
	simOwn(dir)
	lives := 1 + r.Int("lives", 2)
	for k := 0; k < lives; k++ {
		cfg := &simLife{Prop: "C19", Out: out, Conc: simConc(r, "conc"), Mode: []string{"plain", "delays", "faults"}[r.Weighted("mode", 2, 1, 1)], FS: []string{"none", "errors", "crash"}[r.Weighted("fs", 4, 1, 1)], Sites: []*simSite{site}, Days: []int{k}, Day: k}
		_, obs := simStart(r, dir, cfg)
		if r.Failed() {
			return
		}
		if obs.Ops > 10 {
			r.Nontrivial()
		}
		for _, f := range simSorted(foreign) {
			b, err := os.ReadFile(filepath.Join(out, f))
			if err != nil || string(b) != foreign[f] {
				r.Fail("foreign-file", "%s, which is not the tool's, was changed or removed (%v)", f, err)
				return
			}
		}
	}
}

func simC20(r *simrt.Run) {
	dir, out := simDir(r)
	lives := 1 + r.Int("lives", 2)
	for k := 0; k < lives; k++ {
		site := simBuildSite(r, fmt.Sprintf("s%d.", k), simSiteOpts{maxRows: []int{2, 6}[r.Int("size", 2)], badRoot: r.Chance("badroot", 1, 4)})
		cfg := &simLife{Prop: "C20", Out: out, Conc: simConc(r, "conc"), Mode: []string{"plain", "delays", "faults"}[r.Weighted("mode", 2, 2, 3)], FS: []string{"none", "errors"}[r.Weighted("fs", 1, 3)], Sites: []*simSite{site}, Days: []int{k}, Day: k}
		rep, obs := simStart(r, dir, cfg)
		if r.Failed() {
			return
		}
		x, err := simReadIndex(out)
		fresh := err == nil && x.day() == k
		got := obs.delivered()
		var broken []string
		if site.Root != "good" {
			broken = append(broken, "the root certificate was "+site.Root)
		} else if got[simRootURL] == 0 {
			broken = append(broken, "the root certificate was not delivered")
		}
		if got[simList1] == 0 {
			broken = append(broken, "the first list was not delivered")
		}
		if got[simList2] == 0 {
			broken = append(broken, "the second list was not delivered")
		}
		if rep.End == "hang" || rep.Code == 99 {
			continue // C18
		}
		faults := obs.FSFaults
		for _, q := range obs.Reqs {
			if q.Fault != "" {
				faults++
			}
		}
		if faults > 0 || len(broken) > 0 {
			r.Nontrivial()
		}
		if rep.Code != 0 {
			r.Probe("refresh reported failure")
			if fresh {
				r.Fail("index-after-failure", "the refresh failed with status %d (%s) and left an index", rep.Code, simTail(obs.Stderr))
				return
			}
			if err == nil && obs.FSFaults == 0 {
				r.Fail("index-after-failure", "the refresh failed with status %d (%s) and left the index of an earlier one", rep.Code, simTail(obs.Stderr))
				return
			}
			if faults == 0 && len(broken) == 0 {
				r.Fail("failed", "the refresh failed without any fault: status %d: %s", rep.Code, simTail(obs.Stderr))
				return
			}
			continue
		}
		if len(broken) > 0 {
			r.Fail("success-despite-failure", "the refresh exited with status 0 although %s", strings.Join(broken, " and "))
			return
		}
		if !fresh {
			r.Fail("success-without-index", "the refresh exited with status 0 but there is no index of it (%v)", err)
			return
		}
		if b, err := os.ReadFile(filepath.Join(out, "root", "EC_PK.bin")); err != nil || string(b) != string(simRootBytes()) {
			r.Fail("success-without-root", "the refresh exited with status 0 but root/EC_PK.bin is not the root certificate (%v)", err)
			return
		}
		if obs.FSFaults > 0 {
			r.Probe("refresh succeeded despite disk faults")
		}
		simCompare(r, site, x, obs, out, obs.FSFaults)
		if r.Failed() {
			return
		}
		for _, e := range append(append([]simIndexEntry(nil), x.G1...), x.G2...) {
			_, want, _ := site.body(e.URL)
			b, err := os.ReadFile(filepath.Join(out, filepath.FromSlash(e.Path)))
			if err != nil || string(b) != string(want) {
				r.Fail("success-with-bad-file", "the refresh exited with status 0 and lists %s, whose file is not what %s served (%v)", e.Path, e.URL, err)
				return
			}
		}
	}
}

// simOwn gives the directory to the account lifetimes run under.
func simOwn(dir string) { simrt.GiveToLife(dir) }

var _ = sort.Strings
