package tachograph_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"simpki"
	"simrt"
	"strconv"
	"sync"
	"time"

	"github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

func init() {
	simScenarios["C04"] = simrt.Scenario{Run: simC04, Preempt: true}
	simScenarios["C05"] = simrt.Scenario{Run: simC05, Preempt: true}
	simScenarios["C06"] = simrt.Scenario{Run: simC06, Preempt: true}
	simScenarios["C07"] = simrt.Scenario{Run: simC07}
}

// ------------------------------------------------------------------- C04

type simCallKey struct{}

// simCall is one lookup as the members of a chain see it.
type simCall struct {
	id    int
	kind  int
	chr   string
	asked []int // members, in order
	errs  []error
	last  proto.Message // the answer of the member that succeeded
	copy  proto.Message
	bad   string
}

// simMember is one member of a chain.
type simMember struct {
	r       *simrt.Run
	n       int
	rate    int
	pauses  bool
	nothing bool
}

type simMemberErr struct {
	member, call int
	alike        bool // says the same whoever failed
}

func (e *simMemberErr) Error() string {
	if e.alike {
		return "service unavailable"
	}
	return fmt.Sprintf("member %d call %d failed", e.member, e.call)
}

func (m *simMember) answer(ctx context.Context, kind int, chr string, make func() proto.Message) (proto.Message, error) {
	c, _ := ctx.Value(simCallKey{}).(*simCall)
	if c == nil {
		m.r.Fail("context-lost", "member %d was asked with another context", m.n)
		return nil, errSim
	}
	c.asked = append(c.asked, m.n)
	if kind != c.kind || chr != c.chr {
		c.bad = fmt.Sprintf("member %d was asked for kind %d %q instead of kind %d %q", m.n, kind, chr, c.kind, c.chr)
	}
	l := fmt.Sprintf("m%d.%d", m.n, c.id)
	if m.pauses {
		switch m.r.Weighted(l+"/pause", 3, 2, 1) {
		case 1:
			simrt.Yield()
		case 2:
			t := time.NewTimer(time.Duration(1+m.r.Int(l+"/ms", 2000)) * time.Millisecond)
			select {
			case <-t.C:
			case <-ctx.Done():
			}
			t.Stop()
		}
	}
	if m.r.Chance(l+"/fails", m.rate, 8) {
		m.r.Fault("member fails")
		var err error = &simMemberErr{m.n, c.id, m.r.Chance(l+"/alike", 1, 3)}
		switch m.r.Int(l+"/err", 4) {
		case 1:
			err = fmt.Errorf("outer: %w", err)
		case 2:
			err = errors.Join(err, context.Canceled)
		case 3:
			err = errors.Join(err, context.DeadlineExceeded, os.ErrNotExist)
		}
		c.errs = append(c.errs, err)
		var partial proto.Message
		if m.r.Chance(l+"/partial", 1, 4) {
			partial = make()
		}
		return partial, err
	}
	msg := make()
	c.last = msg
	c.copy = proto.Clone(msg)
	return msg, nil
}

func (m *simMember) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	v, err := m.answer(ctx, 0, "", func() proto.Message {
		return simRootMsg(strconv.Itoa(m.n), []byte{byte(m.n)}, []byte{3})
	})
	c, _ := v.(*securityv1.RootCertificate)
	return c, err
}

func (m *simMember) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	v, err := m.answer(ctx, 1, chr, func() proto.Message {
		c := simRsaMsg([]byte{byte(m.n), 1})
		c.SetCertificateHolderReference(chr)
		return c
	})
	c, _ := v.(*securityv1.RsaCertificate)
	return c, err
}

func (m *simMember) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	v, err := m.answer(ctx, 2, chr, func() proto.Message {
		c := &securityv1.EccCertificate{}
		c.SetRawData([]byte{byte(m.n), 2})
		c.SetCertificateHolderReference(chr)
		return c
	})
	c, _ := v.(*securityv1.EccCertificate)
	return c, err
}

// simC04: chains.
func simC04(r *simrt.Run) {
	n := r.Int("members", 6)
	var flat []cert.Resolver
	rate := r.Int("rate", 9)
	for i := 0; i < n; i++ {
		flat = append(flat, &simMember{r: r, n: i, rate: rate, pauses: r.Chance("pauses", 1, 2)})
	}
	// The same members may be arranged in nested chains.
	list := append([]cert.Resolver(nil), flat...)
	nested := r.Chance("nested", 1, 3) && n >= 2
	if nested {
		at := r.Int("at", n-1)
		to := at + 1 + r.Int("to", n-at)
		inner := cert.NewChainResolver(append([]cert.Resolver(nil), list[at:to]...)...)
		list = append(append(append([]cert.Resolver(nil), list[:at]...), inner), list[to:]...)
	}
	chain := cert.NewChainResolver(list...)
	if r.Chance("list reused", 1, 4) && !nested {
		// The caller's slice is its own afterwards; a chain that kept it would
		// be one the caller can no longer reorder safely. Not judged: order is
		// the order given, so give it again.
		list = append([]cert.Resolver(nil), flat...)
		chain = cert.NewChainResolver(list...)
	}
	r.Logf("%d members, nested=%v, rate=%d", n, nested, rate)
	callers := 1 + r.Weighted("callers", 2, 2, 1, 1)
	g := r.NewGroup()
	seq := 0
	for k := 0; k < callers; k++ {
		calls := 1 + r.Int("calls", 3)
		var cs []*simCall
		for i := 0; i < calls; i++ {
			c := &simCall{id: seq, kind: r.Int("kind", 3)}
			seq++
			if c.kind > 0 {
				c.chr = []string{"1316820541096591105", "", "x", "0", "18446744073709551615", "../a"}[r.Int("chr", 6)]
			}
			cs = append(cs, c)
		}
		limit := -1
		if r.Chance("cancelled", 1, 8) {
			limit = r.Int("cancel at", 1500)
		}
		g.Go("caller", func() {
			for _, c := range cs {
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), simCallKey{}, c))
				if limit >= 0 {
					t := time.AfterFunc(time.Duration(limit)*time.Millisecond, cancel)
					defer t.Stop()
				}
				var got proto.Message
				var isNil bool
				var err error
				switch c.kind {
				case 0:
					v, e := chain.GetRootCertificate(ctx)
					got, err, isNil = v, e, v == nil
				case 1:
					v, e := chain.GetRsaCertificate(ctx, c.chr)
					got, err, isNil = v, e, v == nil
				default:
					v, e := chain.GetEccCertificate(ctx, c.chr)
					got, err, isNil = v, e, v == nil
				}
				simCheckChain(r, n, c, got, isNil, err, ctx.Err() != nil)
				cancel()
			}
		})
	}
	g.Wait()
	if seq > 1 && n > 1 {
		r.Nontrivial()
	}
}

func simCheckChain(r *simrt.Run, n int, c *simCall, got proto.Message, isNil bool, err error, cancelled bool) {
	r.Logf("call %d kind %d asked %v failed %d error=%v", c.id, c.kind, c.asked, len(c.errs), err != nil)
	if c.bad != "" {
		r.Fail("wrong-request", "%s", c.bad)
	}
	for i, m := range c.asked {
		if m != i {
			r.Fail("order", "members were asked in the order %v", c.asked)
			return
		}
	}
	if c.last != nil && len(c.errs) != len(c.asked)-1 {
		r.Fail("asked-on", "members were asked on after a success: %v", c.asked)
		return
	}
	if c.last != nil {
		if err != nil {
			r.Fail("success-lost", "member %d answered, the chain failed: %v", c.asked[len(c.asked)-1], err)
			return
		}
		if isNil || !proto.Equal(got, c.copy) {
			r.Fail("answer-changed", "the chain's answer is not that of member %d", c.asked[len(c.asked)-1])
		}
		return
	}
	if err == nil {
		r.Fail("failure-lost", "no member answered, the chain reports success (asked %v)", c.asked)
		return
	}
	if len(c.asked) != n && !cancelled {
		r.Fail("not-asked", "the chain failed after asking %v of %d members", c.asked, n)
		return
	}
	for i, e := range c.errs {
		var t *simMemberErr
		if !errors.Is(err, e) && !simHasMemberErr(err, i, c.id) {
			r.Fail("error-hidden", "the error of member %d cannot be recognised in: %v", i, err)
		}
		_ = t
	}
	// What each member wrapped must be recognisable as well.
	for i, e := range c.errs {
		for _, target := range []error{context.Canceled, context.DeadlineExceeded, os.ErrNotExist} {
			if errors.Is(e, target) && !errors.Is(err, target) {
				r.Fail("error-hidden", "member %d failed with %v, which cannot be recognised in: %v", i, target, err)
			}
		}
		if !simHasMemberErr(err, i, c.id) {
			r.Fail("error-hidden", "the error of member %d is not in: %v", i, err)
		}
	}
}

func simHasMemberErr(err error, member, call int) bool {
	if e, ok := err.(*simMemberErr); ok {
		return e.member == member && e.call == call
	}
	switch u := err.(type) {
	case interface{ Unwrap() []error }:
		for _, e := range u.Unwrap() {
			if simHasMemberErr(e, member, call) {
				return true
			}
		}
	case interface{ Unwrap() error }:
		if e := u.Unwrap(); e != nil {
			return simHasMemberErr(e, member, call)
		}
	}
	return false
}

// ------------------------------------------------------------------- C05

// simC05: network lookups.
func simC05(r *simrt.Run) {
	o := &simNetFaults{num: r.Int("rate", 17), hang: r.Chance("hangs", 1, 3), delays: true}
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan { return simServe(r, "net", o, req, q) })
	var res cert.Resolver
	direct := r.Chance("direct", 3, 5)
	if direct {
		res = cert.NewClient(&http.Client{})
	} else {
		res = tachograph.DefaultCertificateResolver()
	}
	calls := 1 + r.Int("calls", 5)
	for i := 0; i < calls && !r.Failed(); i++ {
		gen := 1 + r.Int("gen", 2)
		var ca *simpki.CA
		ref := ""
		if r.Chance("odd", 1, 4) {
			good := simCAs(gen)[r.Int("near", 5)].Ref()
			odd := []string{"", "abc", "0" + good, "../root/EC_PK", simpki.BadURLRef, good + "0", good[1:], " " + good, strconv.FormatUint(simpki.RootID, 10), simCAs(gen)[2].Ref(), simCAs(gen)[3].Ref(), good + "\n", "%", good + ".bin", "/" + good, simNear(r, good), simNear(r, good), simNear(r, good), simCAs(3 - gen)[r.Int("near", 5)].Ref()}
			ref = odd[r.Int("ref", len(odd))]
			ca = simByRef(gen, ref)
		} else {
			ca = simCAs(gen)[r.Int("ca", len(simCAs(gen)))]
			ref = ca.Ref()
		}
		ctx, cancel := context.WithTimeout(context.Background(), 6*time.Hour)
		mark := net.Len()
		var raw []byte
		var car, chr string
		var msg proto.Message
		var isNil bool
		var err error
		if !r.Try("lookup", func() {
			if gen == 1 {
				c, e := res.GetRsaCertificate(ctx, ref)
				raw, car, err, msg, isNil = c.GetRawData(), c.GetCertificateAuthorityReference(), e, c, c == nil
			} else {
				c, e := res.GetEccCertificate(ctx, ref)
				raw, car, chr, err, msg, isNil = c.GetRawData(), c.GetCertificateAuthorityReference(), c.GetCertificateHolderReference(), e, c, c == nil
			}
		}) {
			cancel()
			return
		}
		cancel()
		reqs := net.Reqs()[mark:]
		r.Logf("lookup gen%d %q: error=%v, %d requests", gen, ref, err != nil, len(reqs))
		simCheckLookup(r, direct, gen, ref, ca, reqs, err, isNil, raw, car, chr, msg)
	}
}

// simNear is a reference like another, but for a digit or two.
func simNear(r *simrt.Run, ref string) string {
	b := []byte(ref)
	for i, n := 0, 1+r.Int("near/n", 2); i < n; i++ {
		at := r.Int("near/at", len(b))
		if r.Chance("near/end", 1, 2) {
			at = len(b) - 1 - r.Int("near/back", 3)
		}
		b[at] = byte('0' + r.Int("near/digit", 10))
	}
	return string(b)
}

func simCheckLookup(r *simrt.Run, direct bool, gen int, ref string, ca *simpki.CA, reqs []*simrt.Req, err error, isNil bool, raw []byte, car, chr string, msg proto.Message) {
	offline := !direct && ca != nil && ca.Embedded
	for _, q := range reqs {
		listed := false
		if ca != nil && ca.Listed {
			for _, u := range ca.URLs {
				listed = listed || u == q.URL
			}
		}
		if q.Method != http.MethodGet || !listed {
			r.Fail("wrong-request", "lookup of %q (gen %d) requested %s %s", ref, gen, q.Method, q.URL)
		}
		if offline {
			r.Fail("needless-request", "%s is shipped, yet %s was requested", ca.Name, q.URL)
		}
		if q.Answered && !q.Closed && !q.EOF && !q.Aborted && !(q.Plan.CutAt >= 0 && q.Read >= int64(q.Plan.CutAt)) {
			r.Fail("not-released", "the response for %s was not released (%d bytes read)", q.URL, q.Read)
		}
	}
	if len(reqs) > 1 {
		seen := map[string]int{}
		for _, q := range reqs {
			if seen[q.URL]++; seen[q.URL] > 1 {
				r.Fail("repeated-request", "%s was requested %d times in one lookup", q.URL, seen[q.URL])
			}
		}
	}
	if err == nil && isNil {
		r.Fail("nothing", "lookup of %q returned neither a certificate nor an error", ref)
		return
	}
	if err != nil && !isNil {
		r.Probe("certificate returned with an error")
	}
	if err != nil {
		r.Nontrivial()
		if len(reqs) == 1 && reqs[0].Plan.Note == "" && ca != nil {
			r.Fail("lookup-failed", "lookup of %s failed although the server answered correctly: %v", ca.Name, err)
		}
		if offline {
			r.Fail("lookup-failed", "lookup of shipped %s failed: %v", ca.Name, err)
		}
		if ca != nil && ca.Listed && len(reqs) == 0 && !offline {
			r.Fail("no-request", "lookup of listed %s failed without a request: %v", ca.Name, err)
		}
		return
	}
	r.Probe("lookup succeeded")
	if offline {
		if !bytes.Equal(raw, ca.Bytes) {
			r.Fail("bytes-differ", "%s: %d bytes that are not the shipped ones", ca.Name, len(raw))
		}
		return
	}
	if ca == nil || !ca.Listed {
		r.Fail("unlisted", "lookup of %q (gen %d), which is not listed, succeeded", ref, gen)
		return
	}
	// One of the requests must have delivered exactly these bytes.
	var served *simrt.Req
	for _, q := range reqs {
		if q.Answered && q.Plan.Status == 200 && q.EOF && bytes.Equal(simBody(q), raw) {
			served = q
		}
	}
	if served == nil {
		why := "no request"
		if len(reqs) > 0 {
			q := reqs[len(reqs)-1]
			why = fmt.Sprintf("status %d, fault %q, %d bytes read, complete=%v", q.Plan.Status, q.Plan.Note, q.Read, q.EOF)
		}
		r.Fail("not-as-served", "lookup of %s returned %d bytes that no complete 200 response carried (%s)", ca.Name, len(raw), why)
		return
	}
	if gen == 1 {
		if len(raw) != 194 {
			r.Fail("malformed", "a response of %d bytes was accepted as an RSA certificate", len(raw))
			return
		}
		if want := strconv.FormatUint(binary.BigEndian.Uint64(raw[186:]), 10); car != want {
			r.Fail("fields", "authority reference %q instead of %q", car, want)
		}
		return
	}
	p, ok := simpki.ECOpen(raw)
	if !ok {
		r.Fail("malformed", "a response of %d bytes (%s) was accepted as an ECC certificate", len(raw), served.Plan.Note)
		return
	}
	if got := strconv.FormatUint(p.CHR, 10); got != ref {
		r.Fail("another-holder", "lookup of %s returned the certificate of %s", ref, got)
	}
	if chr != ref || car != strconv.FormatUint(p.CAR, 10) {
		r.Fail("fields", "certificate of %s names holder %q and authority %q", ref, chr, car)
	}
	want := simEccMsg(raw)
	m := msg.(*securityv1.EccCertificate)
	if m.GetPublicKey().GetDomainParametersOid() != want.GetPublicKey().GetDomainParametersOid() || !bytes.Equal(m.GetPublicKey().GetPublicPointX(), want.GetPublicKey().GetPublicPointX()) || !bytes.Equal(m.GetPublicKey().GetPublicPointY(), want.GetPublicKey().GetPublicPointY()) {
		r.Fail("fields", "the key of %s is not the one in the certificate", ref)
	}
}

// ------------------------------------------------------------------- C06

// simSlow is a source that answers only after its context ends or much later.
type simSlow struct {
	r     *simrt.Run
	delay time.Duration // negative: never
	at    int           // which lookup is slow
	n     int
	good  *simSource
}

func (s *simSlow) wait(ctx context.Context) error {
	s.n++
	if s.n-1 != s.at {
		return nil
	}
	if s.delay < 0 {
		<-ctx.Done()
		return ctx.Err()
	}
	t := time.NewTimer(s.delay)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return context.Cause(ctx)
	}
}

func (s *simSlow) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	if err := s.wait(ctx); err != nil {
		return nil, err
	}
	return s.good.GetRootCertificate(ctx)
}

func (s *simSlow) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	if err := s.wait(ctx); err != nil {
		return nil, err
	}
	return s.good.GetRsaCertificate(ctx, chr)
}

func (s *simSlow) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	if err := s.wait(ctx); err != nil {
		return nil, err
	}
	return s.good.GetEccCertificate(ctx, chr)
}

var errSimCause = errors.New("the caller's own reason")

// simC06: cancellation and deadlines.
func simC06(r *simrt.Run) {
	// A server that is slow in one of several ways and otherwise correct.
	slow := r.Int("slow", 6)
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan {
		ca := simByURL(q.URL)
		if ca == nil {
			p := simrt.Ok(nil)
			p.Status = 404
			return p
		}
		p := simrt.Ok(ca.Bytes)
		l := "net"
		switch slow {
		case 0:
			p.Hang = true
			r.Fault("server never answers")
		case 1:
			p.StallAt = r.Pos(l+"/stall", len(p.Body)+1)
			r.Fault("server stalls")
		case 2:
			p.Delay = time.Duration(1+r.Int(l+"/minutes", 600)) * time.Minute
			r.Fault("server answers after hours")
		case 3:
			p.Chunk = 1 + r.Int(l+"/chunk", 3)
			p.Gap = time.Duration(1+r.Int(l+"/gap", 300)) * time.Second
			r.Fault("server drips")
		case 4:
			p.Endless = -1
			p.Chunk = 1
			p.Gap = 10 * time.Second
			r.Fault("server drips for ever")
		case 5:
			p.Delay = time.Duration(r.Int(l+"/ms", 3000)) * time.Millisecond
		}
		if r.Chance(l+"/nolength", 1, 4) {
			p.Length = -1
		}
		return p
	})
	callers := 1 + r.Weighted("callers", 3, 2, 1)
	shared := tachograph.DefaultCertificateResolver()
	g := r.NewGroup()
	for k := 0; k < callers; k++ {
		l := fmt.Sprintf("c%d", k)
		what := r.Int(l+"/what", 4)
		n := r.Int(l+"/n", 8)
		var f *simVerifyJob
		switch what {
		case 0, 1:
			f = simJob(r, l, n)
			if f == nil {
				return
			}
		}
		// How the context ends.
		how := r.Int(l+"/how", 6) // 0 never, 1 cancel, 2 deadline, 3 cancel with cause, 4 deadline with cause, 5 already ended
		if how == 0 && (slow == 0 || slow == 1 || slow == 4) {
			how = 1 + r.Int(l+"/how2", 5)
		}
		end := time.Duration(r.Int(l+"/end", 4000)) * time.Millisecond
		if r.Chance(l+"/late", 1, 3) {
			end = time.Duration(r.Int(l+"/end s", 40000)) * time.Second
		}
		custom := what < 2 && r.Chance(l+"/own source", 1, 3)
		sl := &simSlow{r: r, at: r.Int(l+"/at", 3), good: &simSource{r: r, l: l}}
		sl.delay = []time.Duration{-1, 2 * time.Hour, time.Second, 0}[r.Int(l+"/source", 4)]
		if how == 0 && sl.delay < 0 {
			sl.delay = 5 * time.Hour
		}
		wrap := r.Chance(l+"/derived", 1, 3)
		g.Go(l, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var want []error
			ends := r.T() + end
			switch how {
			case 1:
				t := time.AfterFunc(end, cancel)
				defer t.Stop()
				want = []error{context.Canceled}
			case 2:
				var c2 context.CancelFunc
				ctx, c2 = context.WithTimeout(ctx, end)
				defer c2()
				want = []error{context.DeadlineExceeded}
			case 3:
				var c2 context.CancelCauseFunc
				ctx, c2 = context.WithCancelCause(ctx)
				t := time.AfterFunc(end, func() { c2(errSimCause) })
				defer t.Stop()
				want = []error{context.Canceled, errSimCause}
			case 4:
				var c2 context.CancelFunc
				ctx, c2 = context.WithTimeoutCause(ctx, end, errSimCause)
				defer c2()
				want = []error{context.DeadlineExceeded, errSimCause}
			case 5:
				cancel()
				ends = r.T()
				want = []error{context.Canceled}
			}
			if wrap {
				ctx = context.WithValue(ctx, simCallKey{}, 1)
			}
			var err error
			done := true // what success means was done
			start := r.T()
			switch what {
			case 0, 1:
				opts := tachograph.VerifyOptions{CertificateResolver: shared}
				if custom {
					opts.CertificateResolver = sl
				}
				err = opts.VerifyFile(ctx, f.file)
				card := f.file.GetDriverCard()
				done = (!f.d.G1 || card.GetTachograph().GetCardCertificate().GetRsaCertificate().GetSignatureValid()) &&
					(!f.d.G2 || card.GetTachographG2().GetCardSignCertificate().GetEccCertificate().GetSignatureValid())
			case 2:
				var c *securityv1.RsaCertificate
				ca := simCAs(1)[[]int{1, 4, 0, 3}[n%4]]
				c, err = shared.GetRsaCertificate(ctx, ca.Ref())
				done = bytes.Equal(c.GetRawData(), ca.Bytes)
			case 3:
				var c *securityv1.EccCertificate
				ca := simCAs(2)[[]int{1, 4, 5, 0}[n%4]]
				c, err = shared.GetEccCertificate(ctx, ca.Ref())
				done = bytes.Equal(c.GetRawData(), ca.Bytes)
			}
			took := r.T() - start
			ended := r.T() >= ends && how != 0
			r.Logf("%s: what %d how %d end %v: error=%v after %v", l, what, how, end, err != nil, took)
			if how != 0 && err != nil {
				r.Nontrivial()
			}
			if how != 0 && r.T() > ends+time.Second && !(how == 5 && took <= time.Second) {
				r.Fail("late-return", "the context ended %v ago; the call returned only now (error: %v)", r.T()-ends, err)
			}
			if err == nil {
				if !done {
					r.Fail("end taken for success", "the call reports success although its work was not done (context: %v)", ctx.Err())
				}
				return
			}
			if !ended {
				r.Fail("cut-short", "the call failed after %v although its context had not ended and the sources were only slow: %v", took, err)
				return
			}
			for _, w := range want {
				if errors.Is(err, w) {
					return
				}
			}
			r.Fail("unrecognisable", "the context ended (%v); the error does not say so: %v", context.Cause(ctx), err)
		})
	}
	g.Wait()
	if open := net.Open(); open > 0 && !r.Failed() {
		r.Fail("open-connection", "%d exchanges are still open after every call returned", open)
	}
}

type simVerifyJob struct {
	file *tachographv1.File
	d    *simDriver
}

func simJob(r *simrt.Run, l string, n int) *simVerifyJob {
	d := &simDriver{N: n, G1: n%3 != 2, G2: n%3 != 1}
	if d.G1 {
		d.CA1 = simCAs(1)[[]int{1, 4, 0, 3}[n%4]]
		d.C1, d.K1 = simCard1(d.CA1, d.N), "genuine"
	}
	if d.G2 {
		d.CA2 = simCAs(2)[[]int{1, 4, 5, 0}[n%4]]
		d.C2, d.K2 = simCard2(d.CA2, d.N), "genuine"
	}
	f := simParse(r, d)
	if f == nil {
		return nil
	}
	return &simVerifyJob{file: f, d: d}
}

// ------------------------------------------------------------------- C07

// simShipped is the certificate store as shipped: what the repository's
// directory holds (real store) or the simulated hierarchy.
type simShippedCert struct {
	gen   int
	ref   string
	bytes []byte
}

var simShipped = sync.OnceValues(func() ([]simShippedCert, []string) {
	var out []simShippedCert
	var unshipped []string
	if simrt.Cfg.Extra != "real" {
		for _, ca := range simpki.CAs() {
			if ca.Embedded {
				out = append(out, simShippedCert{ca.Gen, ca.Ref(), ca.Bytes})
			} else if ca.Listed {
				unshipped = append(unshipped, fmt.Sprintf("%d%s", ca.Gen, ca.Ref()))
			}
		}
		return out, unshipped
	}
	repo := os.Getenv("SIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := filepath.Join(repo, "internal/cert/certcache")
	have := map[string]bool{}
	for gen := 1; gen <= 2; gen++ {
		m, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("g%d", gen), "*.bin"))
		for _, p := range m {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			ref := filepath.Base(p)
			ref = ref[:len(ref)-4]
			have[fmt.Sprintf("%d%s", gen, ref)] = true
			out = append(out, simShippedCert{gen, ref, b})
		}
	}
	b, err := os.ReadFile(filepath.Join(dir, "index.json"))
	if err != nil {
		panic(err)
	}
	var x struct{ G1, G2 []struct{ CHR, URL string } }
	if err := json.Unmarshal(b, &x); err != nil {
		panic(err)
	}
	for _, e := range x.G1 {
		if !have["1"+e.CHR] {
			unshipped = append(unshipped, "1"+e.CHR)
		}
	}
	for _, e := range x.G2 {
		if !have["2"+e.CHR] {
			unshipped = append(unshipped, "2"+e.CHR)
		}
	}
	if len(out) == 0 {
		panic("no shipped certificates found")
	}
	return out, unshipped
})

func simShippedRoot() []byte {
	if simrt.Cfg.Extra != "real" {
		return simpki.StoreRoot()
	}
	repo := os.Getenv("SIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	b, err := os.ReadFile(filepath.Join(repo, "internal/cert/certcache/root/EC_PK.bin"))
	if err != nil {
		panic(err)
	}
	return b
}

// simC07: shipped certificates resolve offline.
func simC07(r *simrt.Run) {
	mode := r.Int("network", 4)
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan {
		p := simrt.Ok([]byte("x"))
		switch mode {
		case 0:
			p.Err = simrt.ErrDNS
			r.Fault("no network")
		case 1:
			p.Hang = true
			r.Fault("network hangs")
		case 2:
			r.Fault("network answers nonsense")
		case 3:
			if ca := simByURL(q.URL); ca != nil {
				p.Body = ca.Bytes
			}
		}
		return p
	})
	shipped, unshipped := simShipped()
	res := tachograph.DefaultCertificateResolver()
	var root *securityv1.RootCertificate
	rootBytes := simShippedRoot()
	n := 2 + r.Int("steps", 10)
	for i := 0; i < n && !r.Failed(); i++ {
		ctx := context.Background()
		mark := net.Len()
		ended := r.Chance("ended", 1, 10)
		if ended {
			// Even a caller whose context is over can use what is at hand; but
			// an error is acceptable then.
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		}
		if r.Chance("fresh", 1, 4) {
			res = tachograph.DefaultCertificateResolver()
		}
		var err error
		switch r.Weighted("what", 2, 6, 2) {
		case 0:
			var c *securityv1.RootCertificate
			if !r.Try("root", func() { c, err = res.GetRootCertificate(ctx) }) {
				return
			}
			if err != nil {
				if !ended {
					r.Fail("root-missing", "the root key does not resolve: %v", err)
				}
				break
			}
			root = c
			id := strconv.FormatUint(binary.BigEndian.Uint64(rootBytes[:8]), 10)
			if c.GetKeyId() != id || !bytes.Equal(c.GetRsaModulus(), rootBytes[8:136]) || !bytes.Equal(c.GetRsaExponent(), rootBytes[136:144]) {
				r.Fail("root-differs", "the root key (%s) is not the shipped one (%s)", c.GetKeyId(), id)
			}
			if net.Len() != mark {
				r.Fail("needless-request", "resolving the root key requested %s", net.Reqs()[mark].URL)
			}
		case 1:
			s := shipped[r.Int("which", len(shipped))]
			r.Nontrivial()
			if s.gen == 1 {
				var c *securityv1.RsaCertificate
				if !r.Try("lookup", func() { c, err = res.GetRsaCertificate(ctx, s.ref) }) {
					return
				}
				simCheckShipped(r, net, mark, s, c.GetRawData(), err, ended)
				if err == nil && root != nil && !r.Failed() {
					r.Try("verify shipped", func() { err = security.VerifyRsaCertificateWithRoot(c, root) })
					if err != nil {
						r.Fail("shipped-unverifiable", "shipped certificate %s: %v", s.ref, err)
					} else if c.GetCertificateHolderReference() != s.ref {
						r.Fail("shipped-identity", "shipped certificate %s is that of %s", s.ref, c.GetCertificateHolderReference())
					}
				}
			} else {
				var c *securityv1.EccCertificate
				if !r.Try("lookup", func() { c, err = res.GetEccCertificate(ctx, s.ref) }) {
					return
				}
				simCheckShipped(r, net, mark, s, c.GetRawData(), err, ended)
				if err == nil && c.GetCertificateHolderReference() != s.ref {
					r.Fail("shipped-identity", "shipped certificate %s is that of %s", s.ref, c.GetCertificateHolderReference())
				}
			}
		case 2:
			if len(unshipped) == 0 {
				break
			}
			u := unshipped[r.Int("unshipped", len(unshipped))]
			ref := u[1:]
			ctx, cancel := context.WithTimeout(ctx, time.Minute)
			if u[0] == '1' {
				_, err = res.GetRsaCertificate(ctx, ref)
			} else {
				_, err = res.GetEccCertificate(ctx, ref)
			}
			cancel()
			if net.Len() == mark && !ended {
				r.Fail("not-requested", "certificate %s (gen %c) is not shipped; its lookup made no request (error: %v)", ref, u[0], err)
			}
			if err == nil && mode != 3 {
				r.Fail("from-nowhere", "certificate %s (gen %c) is not shipped and the network does not work, yet it resolved", ref, u[0])
			}
		}
		r.Logf("step %d error=%v requests=%d", i, err != nil, net.Len()-mark)
	}
}

func simCheckShipped(r *simrt.Run, net *simrt.Network, mark int, s simShippedCert, raw []byte, err error, ended bool) {
	if err != nil {
		if !ended {
			r.Fail("shipped-missing", "shipped certificate %s (gen %d) does not resolve: %v", s.ref, s.gen, err)
		}
		return
	}
	if !bytes.Equal(raw, s.bytes) {
		r.Fail("shipped-differs", "shipped certificate %s (gen %d) resolves to other bytes (%d instead of %d)", s.ref, s.gen, len(raw), len(s.bytes))
	}
	if net.Len() != mark {
		r.Fail("needless-request", "certificate %s (gen %d) is shipped, yet %s was requested", s.ref, s.gen, net.Reqs()[mark].URL)
	}
}
