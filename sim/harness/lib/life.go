package tachograph_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"simpki"
	"simrt"
	"strings"
	"time"

	"github.com/way-platform/tachograph-go"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// C22: the same work in processes that differ in everything but the input.

func init() { simScenarios["C22"] = simrt.Scenario{Run: simC22, Plain: true} }

// simTask is a simWork that can be handed to another process.
type simTask struct {
	Name  string `json:"name"`
	Data  []byte `json:"data"`
	Kind  int    `json:"kind"`
	Ref   string `json:"ref"`
	Via   int    `json:"via"`
	Twice bool   `json:"twice"`
	Limit int    `json:"limit"` // of the caller's patience, in milliseconds; 0: none
}

type simLifeConf struct {
	Bad     map[string]int `json:"bad"`
	Worse   map[string]int `json:"worse"` // how addresses behave during the history; nil: the same
	Delays  bool           `json:"delays"`
	Now     int64          `json:"now"`
	History []simTask      `json:"history"`
	Tasks   []simTask      `json:"tasks"`
	Order   []int          `json:"order"`
	Callers int            `json:"callers"` // more than 1: at the same time
}

// simOutcome is what came of a task, comparable between processes.
type simOutcome struct {
	Steps []string `json:"steps"`
	Files []uint64 `json:"files"`
	Parts []string `json:"parts"` // digests of the parts of each file
	Saved []uint64 `json:"saved"`
	Cert  uint64   `json:"cert"`
}

// simMsgHash hashes all content of a message.
func simMsgHash(m protoreflect.Message) uint64 {
	h := uint64(len(m.GetUnknown()))*31 + 7
	one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) {
		switch {
		case fd.Message() != nil:
			h = simrt.Mix(h, simMsgHash(v.Message()))
		case fd.Kind() == protoreflect.BytesKind:
			h = simrt.Mix(h, simrt.HashBytes(v.Bytes()))
		default:
			h = simrt.Mix(h, simrt.HashBytes([]byte(v.String())))
		}
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !m.Has(fd) {
			continue
		}
		h = simrt.Mix(h, uint64(fd.Number()))
		if v := m.Get(fd); fd.IsList() {
			h = simrt.Mix(h, uint64(v.List().Len()))
			for k := 0; k < v.List().Len(); k++ {
				one(fd, v.List().Get(k))
			}
		} else {
			one(fd, v)
		}
	}
	return h
}

// simMsgParts lists digests down to the given depth, for reports.
func simMsgParts(path string, m protoreflect.Message, depth int) []string {
	var out []string
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !m.Has(fd) {
			continue
		}
		if fd.Message() != nil && !fd.IsList() {
			if depth > 0 {
				out = append(out, simMsgParts(path+"."+string(fd.Name()), m.Get(fd).Message(), depth-1)...)
			} else {
				out = append(out, fmt.Sprintf("%s.%s %x", path, fd.Name(), simMsgHash(m.Get(fd).Message())))
			}
			continue
		}
		h := uint64(1)
		if v := m.Get(fd); fd.IsList() && fd.Message() != nil {
			for k := 0; k < v.List().Len(); k++ {
				h = simrt.Mix(h, simMsgHash(v.List().Get(k).Message()))
			}
		} else if fd.Kind() == protoreflect.BytesKind && !fd.IsList() {
			h = simrt.HashBytes(v.Bytes())
		} else {
			h = simrt.HashBytes([]byte(v.String()))
		}
		out = append(out, fmt.Sprintf("%s.%s %x", path, fd.Name(), h))
	}
	return out
}

func (d *simDone) outcome(verbose bool) (o simOutcome) {
	o.Steps = d.steps
	for _, f := range d.files {
		o.Files = append(o.Files, simMsgHash(f.ProtoReflect()))
		if verbose {
			o.Parts = append(o.Parts, simMsgParts("file", f.ProtoReflect(), 3)...)
		}
	}
	for _, b := range d.saved {
		o.Saved = append(o.Saved, simrt.HashBytes(b))
	}
	if d.cert != nil {
		o.Cert = simMsgHash(d.cert.ProtoReflect())
	}
	return o
}

func (o *simOutcome) diff(x *simOutcome) string {
	if a, b := strings.Join(o.Steps, "; "), strings.Join(x.Steps, "; "); a != b {
		return fmt.Sprintf("%q and %q", a, b)
	}
	if fmt.Sprint(o.Files) != fmt.Sprint(x.Files) {
		for i := range o.Parts {
			if i < len(x.Parts) && o.Parts[i] != x.Parts[i] {
				return fmt.Sprintf("the file differs: %s and %s", o.Parts[i], x.Parts[i])
			}
		}
		return "the file differs"
	}
	if fmt.Sprint(o.Saved) != fmt.Sprint(x.Saved) {
		return "the saved bytes differ"
	}
	if o.Cert != x.Cert {
		return "the certificate differs"
	}
	return ""
}

// simFixedPlan is what a network does that treats each address the same way.
func simFixedPlan(r *simrt.Run, bad map[string]int, delays bool, q *simrt.Req) simrt.Plan {
	ca := simByURL(q.URL)
	if ca == nil {
		p := simrt.Ok([]byte("not found"))
		p.Status = 404
		return p
	}
	p := simrt.Ok(ca.Bytes)
	switch bad[q.URL] {
	case 1:
		p.Status = 404
	case 2:
		p.Err = simrt.ErrRefused
	case 3:
		p.Body = p.Body[:len(p.Body)/2]
	case 4:
		p.CutAt = 20
	case 5:
		p.Body = append(bytes.Clone(p.Body), 0)
	}
	if bad[q.URL] > 0 {
		r.Fault("network: address out of order")
	}
	if delays {
		p.Delay = time.Duration(r.Int("delay", 3000)) * time.Millisecond
		if r.Chance("chunks", 1, 3) {
			p.Chunk = 1 + r.Int("chunk", 80)
			p.Gap = time.Duration(r.Int("gap", 2000)) * time.Millisecond
		}
	}
	return p
}

func (t *simTask) work() *simWork {
	return &simWork{name: t.Name, data: t.Data, kind: t.Kind, ref: t.Ref, via: t.Via, twice: t.Twice, limit: t.Limit}
}

// simRunLife is one process of C22.
func simRunLife() {
	var c simLifeConf
	if err := json.Unmarshal([]byte(simrt.Cfg.Extra), &c); err != nil {
		panic(err)
	}
	out := make([]simOutcome, len(c.Tasks))
	before := true
	simrt.RunLife(simrt.Life{
		MaxSteps: 50_000_000,
		Now:      c.Now,
		Setup: func(r *simrt.Run) {
			r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan {
				bad := c.Bad
				if before && c.Worse != nil {
					bad = c.Worse
				}
				return simFixedPlan(r, bad, c.Delays, q)
			})
		},
		Main: func(r *simrt.Run) {
			shared := tachograph.DefaultCertificateResolver()
			for i := range c.History {
				if _, ok := c.History[i].work().do(r, shared); !ok {
					return
				}
			}
			before = false
			g := r.NewGroup()
			for k := 0; k < c.Callers; k++ {
				g.Go("caller", func() {
					for n, i := range c.Order {
						if n%c.Callers != k {
							continue
						}
						d, ok := c.Tasks[i].work().do(r, shared)
						if !ok {
							return
						}
						out[i] = d.outcome(simrt.Cfg.Verbose)
					}
				})
			}
			g.Wait()
		},
		Finish: func(r *simrt.Run, rep *simrt.LifeReport) {
			b, err := json.Marshal(out)
			if err != nil {
				panic(err)
			}
			rep.Obs = b
		},
	})
}

var simZones = []string{"UTC", "Asia/Tokyo", "America/Los_Angeles", "Pacific/Kiritimati", "Africa/Monrovia", "America/St_Johns", "Europe/Warsaw", "Nowhere/Atall"}

func simDrawTask(r *simrt.Run, l string) (simTask, string) {
	t := simTask{Via: r.Int(l+"/via", 3)}
	switch r.Weighted(l+"/what", 5, 4, 2) {
	case 0:
		m := simDownload(r, l+"/file", 4, 1, 3)
		t.Name, t.Data = m.String(), m.data
		if len(t.Data) > 0 && r.Chance(l+"/damaged", 1, 4) {
			t.Data = bytes.Clone(t.Data)
			k := r.Int(l+"/record", len(m.ends))
			simDamage(r, l+"/damage", t.Data[m.start(k)+min(5, m.ends[k]-m.start(k)-1):m.ends[k]])
		}
	case 1:
		d := simMakeDriver(r, l+"/card", 1, 4)
		t.Name, t.Data, t.Twice = "card"+d.String(), d.Bytes(), r.Chance(l+"/twice", 1, 4)
	case 2:
		t.Kind = r.Int(l+"/kind", 3)
		t.Name = "lookup of the root"
		if t.Kind > 0 {
			list := simCAs(t.Kind)
			ca := list[r.Int(l+"/ca", len(list))]
			t.Ref, t.Name = ca.Ref(), "lookup of "+ca.Name
		}
	}
	return t, t.Name
}

func simC22(r *simrt.Run) {
	bad := map[string]int{}
	for _, ca := range simpki.CAs() {
		for _, u := range ca.URLs {
			if r.Chance("address/bad", 1, 4) {
				bad[u] = 1 + r.Int("address/how", 5)
			}
		}
	}
	var tasks []simTask
	for i, n := 0, 2+r.Int("tasks", 6); i < n; i++ {
		t, name := simDrawTask(r, fmt.Sprint("task", i))
		r.Logf("task %d: %s", i, name)
		tasks = append(tasks, t)
	}
	var first []simOutcome
	firstHow := ""
	lives := 2 + r.Int("processes", 2)
	for k := 0; k < lives && !r.Failed(); k++ {
		l := fmt.Sprint("p", k)
		c := simLifeConf{Bad: bad, Tasks: tasks, Callers: 1, Delays: r.Chance(l+"/delays", 1, 2)}
		for i := range tasks {
			c.Order = append(c.Order, i)
		}
		how := ""
		r.LifeEnv = nil
		// the clock
		c.Now = 1_800_000_000e9
		if r.Chance(l+"/clock", 2, 3) {
			c.Now = 315532800e9 + int64(r.Int(l+"/day", 36500))*86400e9 + int64(r.Int(l+"/second", 86400))*1e9
			r.Fault("clock set")
			how += time.Unix(0, c.Now).UTC().Format(" at 2006-01-02T15:04:05,")
		}
		// surroundings
		if r.Chance(l+"/zone", 1, 2) {
			z := simZones[r.Int(l+"/which zone", len(simZones))]
			r.LifeEnv = append(r.LifeEnv, "TZ="+z)
			r.Fault("time zone set")
			how += " in " + z + ","
		}
		if r.Chance(l+"/environment", 1, 3) {
			r.LifeEnv = append(r.LifeEnv, "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nowhere", "USER=nobody", "DEBUG=1", "CI=1", "TMPDIR=/nowhere", "NO_COLOR=", "GODEBUG=asyncpreemptoff=1,rsa1024min=1", "TACHOGRAPH_DEBUG=1", "HTTP_PROXY=http://127.0.0.1:1", "HTTPS_PROXY=http://127.0.0.1:1")
			r.Fault("other environment")
			how += " other environment,"
		}
		if r.Chance(l+"/surroundings", 2, 3) {
			r.LifeEnv = append(r.LifeEnv, fmt.Sprint("SIM_SURROUNDINGS=", 1+r.Int(l+"/machine", 10000)))
			r.Fault("another machine")
			how += " on another machine,"
		}
		// what came before
		if n := r.Int(l+"/history", 5); n > 0 {
			for i := 0; i < n; i++ {
				var t simTask
				if r.Chance(l+"/again", 1, 3) {
					t = tasks[r.Int(l+"/earlier", len(tasks))]
				} else {
					t, _ = simDrawTask(r, fmt.Sprintf("%s/before%d", l, i))
				}
				if r.Chance(l+"/gave up", 1, 5) {
					t.Limit = 1 + r.Int(l+"/limit", 4000)
					r.Fault("earlier caller gave up")
				}
				c.History = append(c.History, t)
			}
			if r.Chance(l+"/worse", 1, 2) {
				// More addresses were out of order than later.
				c.Worse = map[string]int{}
				for _, ca := range simpki.CAs() {
					for _, u := range ca.URLs {
						if c.Worse[u] = bad[u]; bad[u] == 0 && r.Chance(l+"/worse here", 1, 2) {
							c.Worse[u] = 1 + r.Int(l+"/how", 5)
						}
					}
				}
				r.Fault("network out of order before")
			}
			r.Fault("other calls before")
			how += fmt.Sprintf(" after %d other calls,", n)
		}
		if r.Chance(l+"/order", 1, 2) {
			for i := len(c.Order) - 1; i > 0; i-- {
				j := r.Int(l+"/swap", i+1)
				c.Order[i], c.Order[j] = c.Order[j], c.Order[i]
			}
			how += " in another order,"
		}
		if r.Chance(l+"/concurrent", 1, 2) {
			c.Callers = 2 + r.Int(l+"/callers", 2)
			how += fmt.Sprintf(" %d at a time,", c.Callers)
		}
		dir := filepath.Join(r.Scratch(), "life"+strings.Repeat("x", r.Int(l+"/directory", 4)))
		os.MkdirAll(dir, 0o777)
		rep := r.Lifetime(dir, c)
		if rep.End != "exit" || rep.Code != 0 {
			r.Fail("process ended", "a process ended with %s %d: %s", rep.End, rep.Code, simShort(rep.Detail))
			return
		}
		var out []simOutcome
		if err := json.Unmarshal(rep.Obs, &out); err != nil {
			panic(err)
		}
		how = strings.TrimSuffix(strings.TrimSpace(how), ",")
		r.Logf("process %d: %s", k, how)
		if k == 0 {
			first, firstHow = out, how
			continue
		}
		r.Nontrivial()
		for i := range out {
			if s := out[i].diff(&first[i]); s != "" {
				r.Fail("result differs", "%s gave different results in a process (%s) and in the first one (%s): %s", tasks[i].Name, how, firstHow, s)
				return
			}
		}
	}
}
