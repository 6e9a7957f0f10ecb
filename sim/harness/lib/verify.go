package tachograph_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net/http"
	"simpki"
	"simrt"
	"strconv"
	"time"

	"github.com/way-platform/tachograph-go"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

func init() {
	simScenarios["C01"] = simrt.Scenario{Run: simC01}
	simScenarios["C02"] = simrt.Scenario{Run: simC02}
	simScenarios["C03"] = simrt.Scenario{Run: simC03, Preempt: true}
}

// simVerdict is what a call may claim about a file.
type simVerdict struct {
	has1, has2 bool
	ok1, ok2   bool
	content    []byte // recovered from the first-generation certificate
}

func simCert1(f *tachographv1.File) *securityv1.RsaCertificate {
	return f.GetDriverCard().GetTachograph().GetCardCertificate().GetRsaCertificate()
}

func simCert2(f *tachographv1.File) *securityv1.EccCertificate {
	return f.GetDriverCard().GetTachographG2().GetCardSignCertificate().GetEccCertificate()
}

func simJudge(f *tachographv1.File, a *simAnswers) (v simVerdict) {
	if f.GetDriverCard().GetTachograph() != nil {
		v.has1 = true
		v.content, v.ok1 = a.prove1(simCert1(f).GetRawData())
	}
	if f.GetDriverCard().GetTachographG2() != nil {
		v.has2 = true
		v.ok2 = a.prove2(simCert2(f).GetRawData())
	}
	return v
}

// simCaller is one caller's way to verify.
type simCaller struct {
	r      *simrt.Run
	net    *simrt.Network
	src    *simSource // nil: the default source and the simulated network
	shared tachograph.CertificateResolver
	mark   int
}

func (c *simCaller) options() tachograph.VerifyOptions {
	if c.src != nil {
		return tachograph.VerifyOptions{CertificateResolver: c.src}
	}
	return tachograph.VerifyOptions{CertificateResolver: c.shared}
}

// verify performs one call and returns what the sources answered during it.
func (c *simCaller) verify(what string, ctx context.Context, f *tachographv1.File) (err error, a *simAnswers, ok bool) {
	if c.src != nil {
		c.src.reset()
	}
	c.mark = c.net.Len()
	ok = c.r.Try(what, func() {
		if c.src == nil && c.shared == nil {
			err = tachograph.VerifyFile(ctx, f)
		} else {
			err = c.options().VerifyFile(ctx, f)
		}
	})
	if c.src != nil {
		a = &c.src.simAnswers
	} else {
		a = simOffline(c.net, c.mark)
	}
	return err, a, ok
}

// simC01: success only on a genuine chain.
func simC01(r *simrt.Run) {
	o := &simNetFaults{num: 6, delays: true}
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan { return simServe(r, "net", o, req, q) })
	d := simMakeDriver(r, "card", 3, 5)
	f := simParse(r, d)
	if f == nil {
		return
	}
	r.Logf("card%s", d)
	c := &simCaller{r: r, net: net}
	if r.Chance("own source", 3, 5) {
		c.src = &simSource{r: r, l: "src", faulty: r.Chance("faulty", 3, 4), num: 1 + r.Int("rate", 4)}
	} else {
		o.faultless = !r.Chance("faulty", 3, 4)
		if r.Chance("shared", 1, 2) {
			c.shared = tachograph.DefaultCertificateResolver()
		}
	}
	n := 1 + r.Weighted("calls", 4, 2, 1)
	for i := 0; i < n && !r.Failed(); i++ {
		ctx := context.Background()
		if r.Chance("limited", 1, 6) {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, time.Duration(r.Int("limit", 4000))*time.Millisecond)
			defer cancel()
			r.Fault("deadline")
		}
		err, a, ok := c.verify("verify", ctx, f)
		if !ok {
			return
		}
		v := simJudge(f, a)
		if d.K1 != "" && d.K1 != "genuine" || d.K2 != "" && d.K2 != "genuine" || err != nil {
			r.Nontrivial()
		}
		r.Logf("call %d: error=%v proven=%v/%v", i, err != nil, v.ok1, v.ok2)
		if err == nil {
			r.Probe("verification succeeded")
			if v.has1 && !v.ok1 {
				r.Fail("accepted-gen1", "verification succeeded; the answers of the sources do not prove the Gen1 card certificate (%s)", d)
			}
			if v.has2 && !v.ok2 {
				r.Fail("accepted-gen2", "verification succeeded; the answers of the sources do not prove the card signature certificate (%s)", d)
			}
			if d.G1 && !v.has1 || d.G2 && !v.has2 {
				r.Fail("generation-lost", "verification succeeded; the file was read without a generation the card has (%s)", d)
			}
		}
		if r.Chance("bad later", 1, 4) {
			// The next call is for another card.
			d = simMakeDriver(r, "card", 3, 5)
			if f = simParse(r, d); f == nil {
				return
			}
			r.Logf("card%s", d)
		}
	}
}

func simPtr[T any](v T) *T { return &v }

// simC02: the marks tell the truth about the latest verification.
func simC02(r *simrt.Run) {
	o := &simNetFaults{num: 6, delays: true}
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan { return simServe(r, "net", o, req, q) })
	d := simMakeDriver(r, "card", 1, 3)
	f := simParse(r, d)
	if f == nil {
		return
	}
	r.Logf("card%s", d)
	k1, k2 := d.K1 == "genuine", d.K2 == "genuine"
	own := &simSource{r: r, l: "src"}
	steps := 2 + r.Int("steps", 7)
	for i := 0; i < steps && !r.Failed(); i++ {
		c1, c2 := simCert1(f), simCert2(f)
		switch op := r.Weighted("op", 6, 2, 2, 1, 1); op {
		case 1: // the caller sets the marks
			v := r.Chance("value", 2, 3)
			if c1 != nil {
				c1.SetSignatureValid(v)
			}
			if c2 != nil {
				c2.SetSignatureValid(v)
			}
			r.Logf("%d: caller sets marks to %v", i, v)
		case 2: // the caller puts other certificates into the file
			e := simMakeDriver(r, "other", 1, 2)
			g := simParse(r, e)
			if g == nil {
				break
			}
			if c := simCert1(g); c != nil && c1 != nil {
				m := proto.CloneOf(c)
				m.SetSignatureValid(r.Chance("premarked", 1, 2))
				f.GetDriverCard().GetTachograph().GetCardCertificate().SetRsaCertificate(m)
				k1 = e.K1 == "genuine"
				r.Logf("%d: replaced Gen1: %s", i, e.K1)
			}
			if c := simCert2(g); c != nil && c2 != nil {
				m := proto.CloneOf(c)
				m.SetSignatureValid(r.Chance("premarked", 1, 2))
				f.GetDriverCard().GetTachographG2().GetCardSignCertificate().SetEccCertificate(m)
				k2 = e.K2 == "genuine"
				r.Logf("%d: replaced Gen2: %s", i, e.K2)
			}
		case 3: // damage in memory
			if c1 != nil && len(c1.GetRawData()) == 194 {
				c1.SetRawData(simFlip(r, "damage", c1.GetRawData(), 0, 186))
				k1 = false
				r.Logf("%d: damaged Gen1", i)
			}
		case 4: // a certificate goes missing
			if r.Chance("which", 1, 2) {
				if c1 != nil {
					f.GetDriverCard().GetTachograph().ClearCardCertificate()
					k1 = false
				}
			} else if c2 != nil {
				f.GetDriverCard().GetTachographG2().ClearCardSignCertificate()
				k2 = false
			}
			r.Logf("%d: removed a certificate", i)
		default:
			c := &simCaller{r: r, net: net}
			faulty := r.Chance("faulty", 1, 2)
			if r.Chance("own source", 2, 3) {
				own.faulty, own.num = faulty, 1+r.Int("rate", 5)
				c.src = own
			}
			o.faultless = !faulty
			ctx := context.Background()
			limited := r.Chance("limited", 1, 6)
			if limited {
				var cancel context.CancelFunc
				ctx, cancel = context.WithTimeout(ctx, time.Duration(r.Int("limit", 4000))*time.Millisecond)
				defer cancel()
				r.Fault("deadline")
			}
			before := proto.CloneOf(f)
			err, a, ok := c.verify("verify", ctx, f)
			if !ok {
				return
			}
			v := simJudge(before, a)
			m1, m2 := simCert1(f).GetSignatureValid(), simCert2(f).GetSignatureValid()
			r.Logf("%d: verify error=%v marks=%v/%v proven=%v/%v", i, err != nil, m1, m2, v.ok1, v.ok2)
			if err != nil || i > 0 {
				r.Nontrivial()
			}
			attempted2 := !v.has1 || m1
			if v.has1 && m1 && !v.ok1 {
				r.Fail("stale-mark-gen1", "the Gen1 card certificate is marked valid after a call that did not prove it (error: %v)", err)
			}
			if v.has2 && m2 && !v.ok2 {
				if attempted2 || m2 != simCert2(before).GetSignatureValid() {
					r.Fail("stale-mark-gen2", "the card signature certificate is marked valid after a call that did not prove it (error: %v)", err)
				}
			}
			if err == nil && (v.has1 && !m1 || v.has2 && !m2) {
				r.Fail("unmarked", "verification succeeded and left a certificate unmarked (%v/%v)", m1, m2)
			}
			if c.src != nil && !faulty && !limited {
				if v.has1 && k1 && !m1 {
					r.Fail("mark-missing-gen1", "the genuine Gen1 card certificate is not marked valid: %v", err)
				}
				if v.has2 && k2 && attempted2 && !m2 {
					r.Fail("mark-missing-gen2", "the genuine card signature certificate is not marked valid: %v", err)
				}
			}
			simUnchanged(r, before, f, v)
		}
	}
}

// simUnchanged: verification changed nothing but the verdict and recovered fields.
func simUnchanged(r *simrt.Run, before, after *tachographv1.File, v simVerdict) {
	a := proto.CloneOf(after)
	if c := simCert1(a); c != nil {
		b := simCert1(before)
		if v.ok1 && c.GetSignatureValid() {
			w := v.content
			u := func(p []byte) string { return strconv.FormatUint(binary.BigEndian.Uint64(p), 10) }
			if c.GetCertificateHolderReference() != u(w[20:28]) || !bytes.Equal(c.GetRsaModulus(), w[28:156]) || !bytes.Equal(c.GetRsaExponent(), w[156:164]) {
				r.Fail("recovered-fields", "a proved certificate carries holder %s, %d bytes of modulus and exponent %x that are not its content", c.GetCertificateHolderReference(), len(c.GetRsaModulus()), c.GetRsaExponent())
			}
			if eov := binary.BigEndian.Uint32(w[16:20]); eov != 0xffffffff && eov != 0 && c.GetEndOfValidity().GetSeconds() != int64(eov) {
				r.Fail("recovered-fields", "a proved certificate ends at %v instead of %d", c.GetEndOfValidity(), eov)
			}
			if b.GetCertificateAuthorityReference() != c.GetCertificateAuthorityReference() && c.GetCertificateAuthorityReference() != u(w[1:9]) {
				r.Fail("recovered-fields", "verification changed the authority reference")
			}
			c.SetCertificateAuthorityReference(b.GetCertificateAuthorityReference())
			simCopyField(c, b, "certificate_holder_reference", "rsa_modulus", "rsa_exponent", "end_of_validity")
		}
		simCopyField(c, b, "signature_valid")
	}
	if c := simCert2(a); c != nil {
		simCopyField(c, simCert2(before), "signature_valid")
	}
	if !proto.Equal(a, before) {
		r.Fail("file-changed", "verification changed more than its verdict (card: %s)", simDiff(before, a))
	}
}

func simCopyField[M proto.Message](dst, src M, names ...string) {
	d, s := dst.ProtoReflect(), src.ProtoReflect()
	for i := 0; i < d.Descriptor().Fields().Len(); i++ {
		fd := d.Descriptor().Fields().Get(i)
		for _, n := range names {
			if string(fd.Name()) == n {
				if s.Has(fd) {
					d.Set(fd, s.Get(fd))
				} else {
					d.Clear(fd)
				}
			}
		}
	}
}

// simC03: recovery after faults.
func simC03(r *simrt.Run) {
	o := &simNetFaults{num: 4 + r.Int("rate", 13), hang: true, delays: true}
	net := r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan { return simServe(r, "net", o, req, q) })
	shared := tachograph.DefaultCertificateResolver()
	kept := map[int]*tachographv1.File{}
	keptD := map[int]*simDriver{}
	genuine := func(k int) (*tachographv1.File, *simDriver) {
		if kept[k] == nil || r.Chance("fresh", 1, 2) {
			d := &simDriver{N: k & 7, G1: k%3 != 2, G2: k%3 != 1}
			if d.G1 {
				d.CA1 = []*simpki.CA{simCAs(1)[0], simCAs(1)[1], simCAs(1)[3], simCAs(1)[4]}[k%4]
				d.C1, d.K1 = simCard1(d.CA1, d.N), "genuine"
			}
			if d.G2 {
				d.CA2 = []*simpki.CA{simCAs(2)[0], simCAs(2)[1], simCAs(2)[3], simCAs(2)[4], simCAs(2)[5]}[k%5]
				d.C2, d.K2 = simCard2(d.CA2, d.N), "genuine"
			}
			if d.G2 && k%4 == 1 {
				// All certificates a card of the second generation has.
				d.Drawn, d.X2, d.Y2 = true, d.CA2.Bytes, simCard2(d.CA2, d.N+1)
				if d.G1 {
					d.X1 = d.CA1.Bytes
				}
			}
			if kept[k], keptD[k] = simParse(r, d), d; kept[k] == nil && !r.Failed() {
				r.Fail("genuine card not read", "a genuine card (%s) was not read", d)
			}
		}
		return kept[k], keptD[k]
	}
	own := &simSource{r: r, l: "src", faulty: true, num: 3}
	// The faulty period.
	rounds := 1 + r.Int("rounds", 4)
	for round := 0; round < rounds; round++ {
		g := r.NewGroup()
		n := 1 + r.Weighted("callers", 3, 2, 1, 1)
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("r%d.%d", round, i)
			what := r.Int(l+"/what", 4)
			k := r.Int(l+"/card", 30)
			var f *tachographv1.File
			switch what {
			case 0, 1:
				if n == 1 {
					f, _ = genuine(k)
				} else {
					d := simMakeDriver(r, l+"/card", 1, 2)
					f = simParse(r, d)
				}
			}
			ms := r.Int(l+"/limit", 20000)
			limited := r.Chance(l+"/limited", 1, 3)
			useOwn := n == 1 && r.Chance(l+"/own", 1, 4)
			g.Go(l, func() {
				// Everything ends after two hours at the latest.
				ctx, cancel := context.WithTimeout(context.Background(), 2*time.Hour)
				if limited {
					ctx, cancel = context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond)
				}
				defer cancel()
				var err error
				switch what {
				case 0, 1:
					if f == nil {
						return
					}
					opts := tachograph.VerifyOptions{CertificateResolver: shared}
					if useOwn {
						opts.CertificateResolver = own
					}
					err = opts.VerifyFile(ctx, f)
				case 2:
					_, err = shared.GetRsaCertificate(ctx, simCAs(1)[k%5].Ref())
				case 3:
					_, err = shared.GetEccCertificate(ctx, simCAs(2)[k%6].Ref())
				}
				if err != nil {
					r.Probe("a call failed before the recovery")
					r.Nontrivial()
				}
				r.Logf("%s: error=%v", l, err != nil)
			})
		}
		g.Wait()
		if r.Chance("gap", 1, 3) {
			time.Sleep(time.Duration(r.Int("pause", 3600)) * time.Second)
		}
	}
	if r.Chance("outage", 1, 4) && !r.Failed() {
		// The server is down for so long that very many calls in a row fail.
		o.down = 1 + r.Int("kind of outage", len(simOutages)-1)
		m := 1<<r.Int("calls in the outage", 8) + r.Int("calls more", 8)
		f, _ := genuine(r.Int("card in the outage", 30))
		what := r.Int("calls of", 4)
		failed := 0
		for i := 0; i < m && !r.Failed(); i++ {
			var err error
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			switch w := what; {
			case w == 1 || w == 0 && i%3 == 0:
				_, err = shared.GetRsaCertificate(ctx, simCAs(1)[i%5].Ref())
			case w == 2 || w == 0 && i%3 == 1:
				_, err = shared.GetEccCertificate(ctx, simCAs(2)[i%6].Ref())
			case f != nil:
				err = tachograph.VerifyOptions{CertificateResolver: shared}.VerifyFile(ctx, f)
			}
			cancel()
			if err != nil {
				failed++
			}
		}
		r.Logf("outage (%s): %d of %d calls failed", simOutages[o.down], failed, m)
		r.Probe("a lasting outage")
		if r.Chance("outage ends later", 1, 2) {
			time.Sleep(time.Duration(r.Int("outage lasts", 100000)) * time.Second)
		}
	}
	if r.Failed() {
		return
	}
	// The sources answer correctly again.
	o.faultless, own.faulty = true, false
	r.Logf("faults stop")
	n := 1 + r.Int("after", 4)
	for i := 0; i < n && !r.Failed(); i++ {
		ctx := context.Background()
		k := r.Int("later", 60)
		switch r.Int("probe", 4) {
		case 0, 1:
			f, d := genuine(k)
			if f == nil {
				return
			}
			opts := tachograph.VerifyOptions{CertificateResolver: shared}
			switch r.Int("via", 3) {
			case 1:
				opts.CertificateResolver = nil
			case 2:
				opts.CertificateResolver = own
			}
			var err error
			if r.Try("verify after recovery", func() { err = opts.VerifyFile(ctx, f) }) && err != nil {
				r.Fail("no-recovery:verify", "a genuine card does not verify although the sources work again: %v (%s)", err, d)
			}
		case 2:
			ca := simCAs(1)[k%5]
			if !simReachable(ca) {
				break
			}
			var c *securityv1.RsaCertificate
			var err error
			r.Try("lookup after recovery", func() { c, err = shared.GetRsaCertificate(ctx, ca.Ref()) })
			if !r.Failed() && (err != nil || !bytes.Equal(c.GetRawData(), ca.Bytes)) {
				r.Fail("no-recovery:rsa", "lookup of %s although the network works again: %v, %d bytes", ca.Name, err, len(c.GetRawData()))
			}
		case 3:
			ca := simCAs(2)[k%6]
			if !simReachable(ca) {
				break
			}
			var c *securityv1.EccCertificate
			var err error
			r.Try("lookup after recovery", func() { c, err = shared.GetEccCertificate(ctx, ca.Ref()) })
			if !r.Failed() && (err != nil || !bytes.Equal(c.GetRawData(), ca.Bytes)) {
				r.Fail("no-recovery:ecc", "lookup of %s although the network works again: %v, %d bytes", ca.Name, err, len(c.GetRawData()))
			}
		}
	}
	if open := net.Open(); open > 0 && !r.Failed() {
		r.Fail("open-connection", "%d exchanges are still open", open)
	}
}

// simDiff names the first difference of two messages.
func simDiff(a, b proto.Message) string {
	if a == nil || b == nil {
		return "nil"
	}
	return simDiffMsg("", a.ProtoReflect(), b.ProtoReflect())
}

var _ = errors.Is
var _ *cardv1.DriverCardFile
