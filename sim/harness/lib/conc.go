package tachograph_test

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"simpki"
	"simrt"
	"strings"
	"time"

	"github.com/way-platform/tachograph-go"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

// C09: concurrent callers.

func init() { simScenarios["C09"] = simrt.Scenario{Run: simC09, Preempt: true} }

// simWork is one piece of work of one caller.
type simWork struct {
	name  string
	data  []byte // a file to read, save, verify and save again; nil: a lookup
	kind  int    // of the lookup
	ca    *simpki.CA
	ref   string
	via   int // 0 default source, 1 one shared source, 2 one's own
	twice bool
	limit int // of the caller's patience, in milliseconds; 0: none
}

// simDone is what came of it.
type simDone struct {
	steps []string // errors by step
	files []*tachographv1.File
	saved [][]byte
	cert  proto.Message
}

func (d *simDone) step(what string, err error) {
	s := what + ": fine"
	if err != nil {
		s = what + ": " + err.Error()
	}
	d.steps = append(d.steps, s)
}

// diff names the first difference.
func (d *simDone) diff(o *simDone) string {
	for i := 0; i < len(d.steps) || i < len(o.steps); i++ {
		if i >= len(d.steps) || i >= len(o.steps) {
			return fmt.Sprintf("%d/%d steps", len(d.steps), len(o.steps))
		}
		if d.steps[i] != o.steps[i] {
			return fmt.Sprintf("%q/%q", d.steps[i], o.steps[i])
		}
	}
	for i := range d.files {
		if s := simDiffMsg("file", d.files[i].ProtoReflect(), o.files[i].ProtoReflect()); s != "" {
			return s
		}
	}
	for i := range d.saved {
		if !bytes.Equal(d.saved[i], o.saved[i]) {
			return fmt.Sprintf("saved bytes differ (%d/%d bytes)", len(d.saved[i]), len(o.saved[i]))
		}
	}
	if (d.cert == nil) != (o.cert == nil) {
		return "certificate present or not"
	}
	if d.cert != nil {
		return simDiffMsg("certificate", d.cert.ProtoReflect(), o.cert.ProtoReflect())
	}
	return ""
}

func (w *simWork) do(r *simrt.Run, shared tachograph.CertificateResolver) (d *simDone, ok bool) {
	d = &simDone{}
	ctx := context.Background()
	if w.limit > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, time.Duration(w.limit)*time.Millisecond)
		defer cancel()
	}
	var res tachograph.CertificateResolver
	switch w.via {
	case 1:
		res = shared
	case 2:
		res = tachograph.DefaultCertificateResolver()
	}
	ok = r.Try(w.name, func() {
		if w.data == nil {
			if res == nil {
				res = tachograph.DefaultCertificateResolver()
			}
			var err error
			switch w.kind {
			case 0:
				var c *securityv1.RootCertificate
				if c, err = res.GetRootCertificate(ctx); c != nil {
					d.cert = c
				}
			case 1:
				var c *securityv1.RsaCertificate
				if c, err = res.GetRsaCertificate(ctx, w.ref); c != nil {
					d.cert = c
				}
			case 2:
				var c *securityv1.EccCertificate
				if c, err = res.GetEccCertificate(ctx, w.ref); c != nil {
					d.cert = c
				}
			}
			d.step("lookup", err)
			return
		}
		f, err := tachograph.UnmarshalFile(w.data)
		d.step("read", err)
		if err != nil {
			return
		}
		save := func() {
			out, err := tachograph.MarshalFile(f)
			d.step("save", err)
			d.saved = append(d.saved, out)
		}
		save()
		verify := func() {
			if w.via == 0 {
				err = tachograph.VerifyFile(ctx, f)
			} else {
				err = tachograph.VerifyOptions{CertificateResolver: res}.VerifyFile(ctx, f)
			}
			d.step("verify", err)
		}
		verify()
		if w.twice {
			verify()
		}
		save()
		d.files = append(d.files, f)
	})
	return d, ok
}

func simC09(r *simrt.Run) {
	// The network treats each address the same way throughout the run.
	bad := map[string]int{}
	for _, ca := range simpki.CAs() {
		for _, u := range ca.URLs {
			if r.Chance("address/bad", 1, 4) {
				bad[u] = 1 + r.Int("address/how", 5)
			}
		}
	}
	delays := r.Chance("delays", 2, 3)
	r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan {
		return simFixedPlan(r, bad, delays, q)
	})
	callers := 2 + r.Weighted("callers", 4, 2, 1)
	crowd := r.Chance("crowd", 1, 4)
	var lists [][]*simWork
	var all []*simWork
	for k := 0; k < callers; k++ {
		var ws []*simWork
		for i, n := 0, 1+r.Int("pieces", 3); i < n; i++ {
			w := &simWork{via: r.Int("via", 3)}
			switch r.Weighted("work", 3, 3, 3) {
			case 0:
				m := simDownload(r, "file", 3, 1, 2)
				w.name, w.data = m.String(), m.data
				if len(w.data) > 0 && r.Chance("damaged", 1, 4) {
					w.data = bytes.Clone(w.data)
					k := r.Int("record", len(m.ends))
					simDamage(r, "damage", w.data[m.start(k)+min(5, m.ends[k]-m.start(k)-1):m.ends[k]])
					w.name += ", damaged"
				}
			case 1:
				d := simMakeDriver(r, "card", 1, 4)
				w.name, w.data, w.twice = "card"+d.String(), d.Bytes(), r.Chance("twice", 1, 4)
			case 2:
				w.kind = r.Int("kind", 3)
				w.name = "root"
				if w.kind > 0 {
					list := simCAs(w.kind)
					w.ca = list[r.Int("ca", len(list))]
					w.ref = w.ca.Ref()
					w.name = "lookup of " + w.ca.Name
				}
			}
			if len(all) > 0 && (crowd || r.Chance("same", 1, 5)) {
				// Two callers have the same work.
				c := *all[r.Int("as", len(all))]
				if !crowd {
					c.via = w.via
				}
				w = &c
				w.data = bytes.Clone(w.data)
				w.limit, w.name = 0, strings.TrimSuffix(w.name, ", impatient")
			}
			if r.Chance("impatient", 1, 5) {
				// A caller that gives up: what it gets is not compared, what the others get is.
				w.limit = 1 + r.Int("limit", 4000)
				w.name += ", impatient"
				r.Fault("caller gives up")
			}
			ws = append(ws, w)
			all = append(all, w)
		}
		lists = append(lists, ws)
	}
	shared := tachograph.DefaultCertificateResolver()
	alone := map[*simWork]*simDone{}
	sequential := func() bool {
		for _, w := range all {
			if w.limit > 0 {
				continue
			}
			d, ok := w.do(r, shared)
			if !ok {
				return false
			}
			alone[w] = d
		}
		return true
	}
	before := r.Chance("alone first", 1, 2)
	if before && !sequential() {
		return
	}
	results := make([][]*simDone, callers)
	for k := range results {
		results[k] = make([]*simDone, len(lists[k]))
	}
	g := r.NewGroup()
	for k, ws := range lists {
		g.Go("caller", func() {
			for i, w := range ws {
				d, ok := w.do(r, shared)
				if !ok {
					return
				}
				results[k][i] = d
			}
		})
	}
	g.Wait()
	if r.Failed() || !before && !sequential() {
		return
	}
	for k, ws := range lists {
		for i, w := range ws {
			d := results[k][i]
			if w.limit > 0 {
				r.Logf("caller %d: %s", k, w.name)
				continue
			}
			r.Logf("caller %d: %s: %d steps, %d saved", k, w.name, len(d.steps), len(d.saved))
			if s := d.diff(alone[w]); s != "" {
				r.Fail("result differs", "%s: with others at work and alone: %s", w.name, s)
				return
			}
		}
	}
	if len(all) > 2 {
		r.Nontrivial()
	}
}
