package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"simrt"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/encoding/protojson"
)

// C21: the command as a program of its own, its files and its output failing.

// simCliConf is what the driver tells a life.
type simCliConf struct {
	Args   []string         `json:"args"`
	Faults bool             `json:"faults"`
	Short  map[string]int   `json:"short"` // reads of this file return at most so many bytes
	Deny   map[string]int   `json:"deny"`  // opening this file fails
	Ends   map[string][]int `json:"ends"`  // reads of this file stop where a record ends
	Out    int              `json:"out"`   // standard output fails after so many bytes; negative: it does not
	Once   bool             `json:"once"`  // ... only once
	Err    bool             `json:"err"`   // standard error fails
}

// simCliObs is what a life reports.
type simCliObs struct {
	Stdout   []byte         `json:"stdout"`
	Stderr   []byte         `json:"stderr"`
	ReadBad  map[string]int `json:"read_bad"`  // faults while opening or reading, by file
	WriteBad int            `json:"write_bad"` // faults of standard output
	Writes   int            `json:"writes"`
	ErrBad   int            `json:"err_bad"`
	pos      map[string]int
}

func TestSimWorker(t *testing.T) {
	if !simrt.LoadConfig() {
		t.Skip("not a simulation worker")
	}
	if simrt.IsLife() {
		simCliLife()
		return
	}
	if simrt.Cfg.Prop != "C21" {
		panic("simrt: no scenario " + simrt.Cfg.Prop)
	}
	simrt.Main(simrt.Scenario{Run: simC21, Plain: true})
}

func simCliLife() {
	var c simCliConf
	if err := json.Unmarshal([]byte(simrt.Cfg.Extra), &c); err != nil {
		panic(err)
	}
	o := &simCliObs{ReadBad: map[string]int{}, pos: map[string]int{}}
	room := c.Out
	simrt.RunLife(simrt.Life{
		MaxSteps: 100_000_000,
		Now:      1_800_000_000e9,
		Setup: func(r *simrt.Run) {
			wd, err := os.Getwd()
			if err != nil {
				panic(err)
			}
			fs := r.NewFS(wd)
			fs.Plan = func(op *simrt.FSOp) simrt.FSFault { return simCliFault(r, &c, wd, op, o) }
			os.SimStdio = func(name string, b []byte) (int, error) {
				if name == "/dev/stderr" {
					if c.Err {
						o.ErrBad++
						r.Fault("standard error: broken")
						return 0, syscall.EIO
					}
					o.Stderr = append(o.Stderr, b[:min(len(b), max(0, 1<<16-len(o.Stderr)))]...)
					return len(b), nil
				}
				o.Writes++
				if c.Out >= 0 && room < len(b) && !(c.Once && o.WriteBad > 0) {
					n := max(room, 0)
					room = 0
					o.Stdout = append(o.Stdout, b[:n]...)
					o.WriteBad++
					r.Fault("standard output: full")
					return n, syscall.ENOSPC
				}
				room -= len(b)
				o.Stdout = append(o.Stdout, b...)
				return len(b), nil
			}
			flag.CommandLine = flag.NewFlagSet("tachograph", flag.ExitOnError)
			os.Args = append([]string{"tachograph"}, c.Args...)
		},
		Main: func(r *simrt.Run) {
			go func() {
				time.Sleep(time.Hour)
				os.Exit(99)
			}()
			main()
		},
		Finish: func(r *simrt.Run, rep *simrt.LifeReport) {
			b, err := json.Marshal(o)
			if err != nil {
				panic(err)
			}
			rep.Obs = b
		},
	})
}

//go:norace
func simCliFault(r *simrt.Run, c *simCliConf, wd string, op *simrt.FSOp, o *simCliObs) simrt.FSFault {
	f := simrt.Faultless
	rel, err := filepath.Rel(wd, op.Name)
	if err != nil || strings.HasPrefix(rel, "..") {
		return f
	}
	bad := func(errs ...error) simrt.FSFault {
		f.Err = errs[r.Int("fs:"+op.Op+":"+rel+":error", len(errs))]
		o.ReadBad[rel]++
		return f
	}
	switch op.Op {
	case "open", "opendir":
		o.pos[rel] = 0
		if c.Deny[rel] > 0 {
			return bad(syscall.EACCES, syscall.EMFILE, syscall.EIO)
		}
	case "read":
		if n := c.Short[rel]; n > 0 && n < op.Size {
			f.Limit = n
		}
		if c.Faults && r.Chance("fs:read:"+rel, 1, 14) {
			return bad(syscall.EIO, syscall.ESTALE, syscall.EISDIR, syscall.ENOMEM)
		}
		for _, e := range c.Ends[rel] {
			if at := o.pos[rel]; e > at {
				f.Limit = min(e-at, op.Size)
				break
			}
		}
		if f.Limit < 0 {
			o.pos[rel] += op.Size
		} else {
			o.pos[rel] += f.Limit
		}
	case "close":
		if c.Faults && r.Chance("fs:close:"+rel, 1, 14) {
			f.Err = syscall.EIO // of no consequence to a reader, but it may be reported
			o.ReadBad[rel]++
		}
	}
	return f
}

// ------------------------------------------------------------ the scenario

type simCliFile struct {
	arg, rel string
	kind     string
	data     []byte
	m        *simMedium // the genuine download, if it is one
	ref      *tachographv1.File
	err      error // why the command cannot show it
}

var simCliNames = []string{"card.ddd", "C_20270102_1200_A_Muster.DDD", "with space.ddd", "percent%d%s.ddd", "ümlaut-日本.ddd", "quote'\".ddd", "sub/dir/deep.ddd", "semi;colon.ddd", "star*.ddd", "x", "back\\slash.ddd", "a=b.ddd", "json{}.ddd"}

func simCliDraw(r *simrt.Run, l, dir string, used map[string]bool) *simCliFile {
	f := &simCliFile{}
	for i := 0; ; i++ {
		f.rel = simCliNames[r.Int(l+"/name", len(simCliNames))]
		if i > 3 {
			f.rel = fmt.Sprintf("n%d.ddd", len(used))
		}
		if !used[f.rel] {
			break
		}
	}
	used[f.rel] = true
	p := filepath.Join(dir, f.rel)
	os.MkdirAll(filepath.Dir(p), 0o777)
	switch r.Weighted(l+"/path", 4, 1, 1) {
	case 0:
		f.arg = f.rel
	case 1:
		f.arg = "./" + f.rel
	case 2:
		f.arg = p
	}
	switch r.Weighted(l+"/kind", 10, 2, 2, 1, 1, 1, 1) {
	case 0:
		f.kind = "good"
		f.m = simDownload(r, l+"/file", 4, 1, 3)
		f.data = f.m.data
	case 1:
		f.kind = "damaged"
		m := simDownload(r, l+"/file", 4, 1, 3)
		f.data = bytes.Clone(m.data)
		for i, n := 0, 1+r.Int(l+"/wrecks", 3); i < n; i++ {
			f.data = simWreck(r, l+"/wreck", m, f.data)
		}
	case 2:
		f.kind = "cut"
		m := simDownload(r, l+"/file", 4, 1, 3)
		f.data = m.data[:r.Pos(l+"/cut", len(m.data))]
		if r.Chance(l+"/at a record", 1, 2) {
			f.data = m.data[:m.start(r.Int(l+"/record", len(m.ends)))]
		}
	case 3:
		f.kind = "empty"
	case 4:
		f.kind = "text"
		f.data = []byte("{\"this\": \"is no download\"}\n")
	case 5:
		f.kind = "missing"
		f.err = os.ErrNotExist
		return f
	case 6:
		f.kind = "directory"
		f.err = syscall.EISDIR
		if err := os.MkdirAll(p, 0o777); err != nil {
			panic(err)
		}
		return f
	}
	if err := os.WriteFile(p, f.data, 0o644); err != nil {
		panic(err)
	}
	if !r.Try("reading "+f.kind, func() { f.ref, f.err = tachograph.UnmarshalFile(bytes.Clone(f.data)) }) {
		return f
	}
	if f.err == nil && f.ref == nil {
		f.err = io.ErrUnexpectedEOF
	}
	return f
}

// simCliDocs splits the output in documents; rest is what does not make one.
func simCliDocs(b []byte) (docs [][]byte, rest []byte) {
	d := json.NewDecoder(bytes.NewReader(b))
	at := int64(0)
	for {
		var m json.RawMessage
		if err := d.Decode(&m); err != nil {
			return docs, bytes.TrimSpace(b[at:])
		}
		docs = append(docs, m)
		at = d.InputOffset()
	}
}

func simC21(r *simrt.Run) {
	dir := filepath.Join(r.Scratch(), "cli")
	if err := os.RemoveAll(dir); err != nil {
		panic("simrt: " + err.Error())
	}
	if err := os.MkdirAll(dir, 0o777); err != nil {
		panic("simrt: " + err.Error())
	}
	used := map[string]bool{}
	var files []*simCliFile
	for i, n := 0, 1+r.Int("files", 4); i < n; i++ {
		files = append(files, simCliDraw(r, fmt.Sprint("f", i), dir, used))
		if r.Failed() {
			return
		}
	}
	var args []*simCliFile
	if !r.Chance("no arguments", 1, 25) {
		args = append(args, files...)
		for i, n := 0, r.Int("again", 3); i < n; i++ {
			args = append(args, files[r.Int("which", len(files))])
		}
		for i := len(args) - 1; i > 0; i-- {
			j := r.Int("swap", i+1)
			args[i], args[j] = args[j], args[i]
		}
	}
	for i, f := range args {
		r.Logf("argument %d: %q %s, %d bytes, %v", i, strings.ReplaceAll(f.arg, dir, "DIR"), f.kind, len(f.data), f.err != nil)
		if f.err != nil {
			r.Fault("file: " + f.kind)
			r.Nontrivial()
		}
	}
	if len(args) > 1 {
		r.Nontrivial()
	}
	simrt.GiveToLife(dir)
	c := simCliConf{Args: []string{"parse"}, Out: -1}
	if r.Chance("dashes", 1, 8) {
		c.Args = append(c.Args, "--")
	}
	for _, f := range args {
		c.Args = append(c.Args, f.arg)
	}
	var whole []byte
	lives := 1 + r.Weighted("lives", 1, 4, 3)
	for k := 0; k < lives; k++ {
		l := fmt.Sprint("p", k)
		if k > 0 {
			c.Faults = r.Chance(l+"/reads fail", 1, 2)
			c.Short, c.Deny, c.Ends = map[string]int{}, map[string]int{}, map[string][]int{}
			for _, f := range files {
				if r.Chance(l+"/short", 1, 3) {
					c.Short[f.rel] = 1 + r.Pos(l+"/short size", 5000) + len(f.data)/300
				} else if f.m != nil && r.Chance(l+"/by record", 1, 2) {
					c.Ends[f.rel] = f.m.ends
				}
				if r.Chance(l+"/deny", 1, 10) {
					c.Deny[f.rel] = 1
				}
			}
			c.Out, c.Once, c.Err = -1, false, false
			if r.Chance(l+"/output fails", 1, 3) {
				c.Out, c.Once = r.Pos(l+"/room", len(whole)+2), r.Chance(l+"/once", 1, 2)
			}
			c.Err = r.Chance(l+"/errors fail", 1, 12)
		}
		r.LifeEnv = nil
		if r.Chance("surroundings", 1, 3) {
			r.LifeEnv = append(r.LifeEnv, fmt.Sprint("SIM_SURROUNDINGS=", 1+r.Int("machine", 10000)), "TZ="+[]string{"UTC", "Asia/Tokyo", "America/St_Johns", "Pacific/Kiritimati"}[r.Int("zone", 4)])
			r.Fault("another machine")
		}
		rep := r.Lifetime(dir, c)
		o := &simCliObs{}
		if len(rep.Obs) > 0 {
			if err := json.Unmarshal(rep.Obs, o); err != nil {
				panic(err)
			}
		}
		r.Logf("process %d ended: %s %d, %d bytes in %d writes, %d and %d faults, said %q", k, rep.End, rep.Code, len(o.Stdout), o.Writes, len(o.ReadBad), o.WriteBad, simShort(strings.ReplaceAll(string(o.Stderr), dir, "DIR")))
		if rep.End != "exit" || rep.Code == 99 {
			r.Fail("no end", "the command ended with %s %d: %s", rep.End, rep.Code, simShort(rep.Detail))
			return
		}
		if k > 0 {
			r.Nontrivial()
		}
		simCliJudge(r, args, rep.Code, o, whole, k == 0)
		if r.Failed() {
			return
		}
		if k == 0 {
			whole = o.Stdout
		}
	}
}

func simCliJudge(r *simrt.Run, args []*simCliFile, code int, o *simCliObs, whole []byte, first bool) {
	said := string(o.Stderr)
	if len(args) == 0 {
		if code == 0 {
			r.Fail("success without files", "without any file the command exits with status 0")
		}
		return
	}
	docs, rest := simCliDocs(o.Stdout)
	// Every complete document must be the contents of its file.
	for i, d := range docs {
		if i >= len(args) {
			r.Fail("too much output", "%d documents for %d files", len(docs), len(args))
			return
		}
		f := args[i]
		if f.err != nil {
			r.Fail("output for a bad file", "document %d is shown for %s, which is %s (%v)", i, f.rel, f.kind, f.err)
			return
		}
		got := &tachographv1.File{}
		if err := protojson.Unmarshal(d, got); err != nil {
			r.Fail("output unreadable", "document %d (%s) is no file: %v", i, f.rel, err)
			return
		}
		if s := simDiffMsg("file", got.ProtoReflect(), f.ref.ProtoReflect()); s != "" {
			r.Fail("output differs", "document %d is not the contents of %s (%s): %s (shown/in the file)", i, f.rel, f.kind, s)
			return
		}
		if f.m != nil {
			if class, msg := simCheckPart(r, f.m, len(f.m.ends), got); class != "" {
				r.Fail("output differs: "+class, "document %d is not what was downloaded to %s: %s", i, f.rel, msg)
				return
			}
		}
	}
	if first {
		whole = o.Stdout
	} else if !bytes.HasPrefix(whole, o.Stdout) {
		i := 0
		for i < len(whole) && i < len(o.Stdout) && whole[i] == o.Stdout[i] {
			i++
		}
		r.Fail("output is no prefix", "%d bytes of output are not the beginning of what the same files give without faults: they part at byte %d", len(o.Stdout), i)
		return
	}
	if code == 0 {
		switch {
		case len(docs) < len(args):
			r.Fail("success despite failure", "status 0 although only %d of %d files were shown (next: %s, %s, %v; %d failed reads, %d failed writes)", len(docs), len(args), args[len(docs)].rel, args[len(docs)].kind, args[len(docs)].err, o.ReadBad[args[len(docs)].rel], o.WriteBad)
		case len(rest) > 0:
			r.Fail("stray output", "%d bytes after the last document", len(rest))
		case len(o.Stdout) != len(whole):
			r.Fail("success despite failure", "status 0 although only %d of %d bytes were written", len(o.Stdout), len(whole))
		}
		return
	}
	// It failed: why?
	if o.WriteBad > 0 {
		r.Probe("output failed")
		low := strings.ToLower(said)
		named := strings.Contains(low, "writ") || strings.Contains(low, "output")
		for _, f := range args {
			named = named || strings.Contains(said, f.arg)
		}
		if !named && o.ErrBad == 0 {
			r.Fail("failure not named", "output failed, but all the command says is %q", simShort(said))
		}
		return
	}
	if len(rest) > 0 {
		r.Fail("stray output", "%d bytes that make no document stand after %d documents, without a failing write", len(rest), len(docs))
		return
	}
	if len(docs) == len(args) {
		for _, f := range args {
			if o.ReadBad[f.rel] > 0 {
				return // a failing close reported late
			}
		}
		r.Fail("failure without reason", "status %d although all %d files were shown: %s", code, len(args), simShort(said))
		return
	}
	f := args[len(docs)]
	if f.err == nil && o.ReadBad[f.rel] == 0 {
		r.Fail("failure without reason", "status %d at %s, which is in order: %s", code, f.rel, simShort(said))
		return
	}
	r.Probe("a file failed")
	if !strings.Contains(said, f.arg) && o.ErrBad == 0 {
		r.Fail("failure not named", "%s (%s) failed, but all the command says is %q", f.arg, f.kind, simShort(said))
	}
}
