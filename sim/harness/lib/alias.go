package tachograph_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"runtime/debug"
	"simpki"
	"simrt"
	"strconv"
	"time"

	"github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

// C08: the trust material cannot be altered by using it.

func init() { simScenarios["C08"] = simrt.Scenario{Run: simC08, Preempt: true} }

// simEverything is what sources that work can tell.
func simEverything() *simAnswers {
	a := simOffline(nil, 0)
	for _, c := range simpki.CAs() {
		if c.Embedded {
			continue
		}
		if c.Gen == 1 {
			a.rsa = append(a.rsa, c.Bytes)
		} else if p, ok := simpki.ECOpen(c.Bytes); ok {
			a.ecc = append(a.ecc, simEC{strconv.FormatUint(p.CHR, 10), simDotted(p.OID), p.X, p.Y})
		}
	}
	return a
}

// simFresh is what a lookup must return.
func simFresh(kind int, ca *simpki.CA) proto.Message {
	switch kind {
	case 0:
		b := simpki.StoreRoot()
		m := simRootMsg(strconv.FormatUint(simpki.RootID, 10), bytes.Clone(b[8:136]), bytes.Clone(b[136:144]))
		return m
	case 1:
		c, err := security.UnmarshalRsaCertificate(bytes.Clone(ca.Bytes))
		if err != nil {
			panic(err)
		}
		return c
	}
	c, err := security.UnmarshalEccCertificate(bytes.Clone(ca.Bytes))
	if err != nil {
		panic(err)
	}
	return c
}

// simOwner is a caller's source that hands out its own certificates.
type simOwner struct {
	r      *simrt.Run
	root   *securityv1.RootCertificate
	rsa    map[string]*securityv1.RsaCertificate
	ecc    map[string]*securityv1.EccCertificate
	was    map[proto.Message]proto.Message
	wait   bool
	untrue bool // some of its certificates are not what their holders have
}

func simNewOwner(r *simrt.Run, l string) *simOwner {
	o := &simOwner{r: r, root: simGoodRoot(), rsa: map[string]*securityv1.RsaCertificate{}, ecc: map[string]*securityv1.EccCertificate{}, was: map[proto.Message]proto.Message{}}
	o.wait = r.Chance(l+"/waits", 1, 2)
	o.was[o.root] = proto.Clone(o.root)
	for _, ca := range simpki.CAs() {
		if ca.Gen == 1 {
			m := simRsaMsg(ca.Bytes)
			switch r.Weighted(l+"/state", 3, 1, 1, 1) {
			case 1:
				// as verified before
				m.SetCertificateHolderReference(ca.Ref())
				m.SetRsaModulus(ca.RSA.Modulus())
				m.SetRsaExponent([]byte{0, 0, 0, 0, 0, 1, 0, 1})
				m.SetSignatureValid(true)
			case 2:
				m.SetSignatureValid(false)
			case 3:
				m.SetRsaModulus(make([]byte, 128))
				m.SetEndOfValidity(nil)
			}
			o.rsa[ca.Ref()] = m
			o.was[m] = proto.Clone(m)
		} else {
			m := simEccMsg(ca.Bytes)
			if r.Chance(l+"/marked", 1, 3) {
				m.SetSignatureValid(r.Chance(l+"/mark", 1, 2))
			}
			o.ecc[ca.Ref()] = m
			o.was[m] = proto.Clone(m)
		}
	}
	return o
}

// falsify gives the holders keys that strangers have.
func (o *simOwner) falsify(l string) {
	o.untrue = true
	for _, ca := range simpki.CAs() {
		if ca.Gen == 2 && o.r.Chance(l+"/false", 1, 2) {
			m, k := o.ecc[ca.Ref()], simpki.NewECKey(ca.EC.C.Name, "rogue")
			m.GetPublicKey().SetPublicPointX(bytes.Clone(k.X))
			m.GetPublicKey().SetPublicPointY(bytes.Clone(k.Y))
			o.was[m] = proto.Clone(m)
		}
	}
}

func (o *simOwner) pause() {
	if o.wait {
		simrt.Yield()
	}
}

func (o *simOwner) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	o.pause()
	return o.root, nil
}

func (o *simOwner) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	o.pause()
	if c := o.rsa[chr]; c != nil {
		return c, nil
	}
	return nil, errSim
}

func (o *simOwner) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	o.pause()
	if c := o.ecc[chr]; c != nil {
		return c, nil
	}
	return nil, errSim
}

// check compares the owner's certificates with what they were.
func (o *simOwner) check(when string) bool {
	for _, ca := range simpki.CAs() {
		var m proto.Message = o.rsa[ca.Ref()]
		if ca.Gen == 2 {
			m = o.ecc[ca.Ref()]
		}
		if d := simDiffMsg("certificate", m.ProtoReflect(), o.was[m].ProtoReflect()); d != "" {
			o.r.Fail("owner's certificate changed", "the certificate of %s, which belongs to the caller's source, changed %s: %s (now/before)", ca.Name, when, d)
			return false
		}
	}
	if d := simDiffMsg("root", o.root.ProtoReflect(), o.was[o.root].ProtoReflect()); d != "" {
		o.r.Fail("owner's root changed", "the root key, which belongs to the caller's source, changed %s: %s (now/before)", when, d)
		return false
	}
	return true
}

// simSpoil overwrites a message the caller owns.
func simSpoil(r *simrt.Run, l string, m proto.Message) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	switch r.Int(l, 4) {
	case 0, 1:
		r.Fault("certificate overwritten")
		r.Try("overwriting what was returned", func() { simScribble(m.ProtoReflect()) })
	case 2:
		r.Fault("certificate emptied")
		simClearAll(m.ProtoReflect())
	case 3:
		r.Fault("certificate exchanged for another")
		switch c := m.(type) {
		case *securityv1.RootCertificate:
			c.SetKeyId("1")
			c.SetRsaModulus(simpki.RSAKeys()["Rogue"].Modulus())
		case *securityv1.RsaCertificate:
			copy(c.GetRawData(), simCAs(1)[3].Bytes)
			c.SetCertificateHolderReference("1")
			c.SetSignatureValid(true)
			c.SetRsaModulus(simpki.RSAKeys()["Rogue"].Modulus())
		case *securityv1.EccCertificate:
			o := simpki.NewECKey("p256", "rogue")
			c.SetCertificateHolderReference("1")
			if c.HasPublicKey() {
				c.GetPublicKey().SetDomainParametersOid(simDotted(o.C.OID))
				copy(c.GetPublicKey().GetPublicPointX(), o.X)
				copy(c.GetPublicKey().GetPublicPointY(), o.Y)
			}
			c.SetSignatureValid(true)
		default:
			simScribble(m.ProtoReflect())
		}
	}
}

func simC08(r *simrt.Run) {
	o := &simNetFaults{faultless: true, delays: true}
	r.Net(func(req *http.Request, q *simrt.Req) simrt.Plan { return simServe(r, "net", o, req, q) })
	all := simEverything()
	shared := tachograph.DefaultCertificateResolver()
	owner := simNewOwner(r, "owner")
	verdict := func(f *tachographv1.File, what string, err error, own bool, d *simDriver) {
		v := simJudge(f, all)
		want := (!v.has1 || v.ok1) && (!v.has2 || v.ok2)
		if !own && (d.CA1 != nil && !simReachable(d.CA1) || d.CA2 != nil && !simReachable(d.CA2)) {
			want = false
		}
		if errors.Is(err, context.DeadlineExceeded) {
			return
		}
		if want && err != nil {
			r.Fail("no longer accepted", "%s: a genuine card (%s) is refused: %v", what, d, err)
		}
		if !want && err == nil {
			r.Fail("now accepted", "%s: a card that is not genuine (%s) is accepted", what, d)
		}
	}
	ctx := context.Background()
	tasks := 1 + r.Weighted("tasks", 2, 2, 1)
	g := r.NewGroup()
	for t := 0; t < tasks; t++ {
		g.Go(fmt.Sprint("task ", t), func() {
			l := fmt.Sprint("t", t)
			res := shared
			mine := simNewOwner(r, l+"/mine")
			type kept struct {
				what string
				m    proto.Message
				was  proto.Message
			}
			var have []kept
			var files []*tachographv1.File
			for i, n := 0, 2+r.Int(l+"/steps", 9); i < n && !r.Failed(); i++ {
				if r.Chance(l+"/fresh", 1, 5) {
					res = tachograph.DefaultCertificateResolver()
				}
				switch r.Weighted(l+"/what", 6, 4, 4, 3, 1) {
				case 0: // look a certificate up
					kind := r.Int(l+"/kind", 3)
					var ca *simpki.CA
					name := "the root key"
					if kind > 0 {
						list := simCAs(kind)
						ca = list[r.Int(l+"/ca", len(list))]
						if !simReachable(ca) {
							continue
						}
						name = ca.Name
					}
					var m proto.Message
					var err error
					if !r.Try("lookup", func() {
						switch kind {
						case 0:
							m, err = res.GetRootCertificate(ctx)
						case 1:
							m, err = res.GetRsaCertificate(ctx, ca.Ref())
						case 2:
							m, err = res.GetEccCertificate(ctx, ca.Ref())
						}
					}) {
						return
					}
					if err != nil {
						r.Fail("lookup failed", "the lookup of %s failed: %v", name, err)
						return
					}
					r.Logf("%s: looked up %s", l, name)
					want := simFresh(kind, ca)
					if d := simDiffMsg("certificate", m.ProtoReflect(), want.ProtoReflect()); d != "" {
						r.Fail("lookup altered", "the lookup of %s returns an altered certificate: %s (now/as published)", name, d)
						return
					}
					have = append(have, kept{name, m, want})
				case 1: // overwrite something obtained
					if k := r.Int(l+"/spoiled", 1+len(have)+len(files)); k < len(have) {
						simSpoil(r, l+"/spoil", have[k].m)
						r.Logf("%s: spoiled %s", l, have[k].what)
						have = append(have[:k], have[k+1:]...)
						r.Nontrivial()
					} else if k -= len(have); k < len(files) {
						simSpoil(r, l+"/spoil", files[k])
						r.Logf("%s: spoiled a verified file", l)
						files = append(files[:k], files[k+1:]...)
						r.Nontrivial()
					}
				case 2: // verify with the default source
					d := simMakeDriver(r, l+"/card", 1, 4)
					f := simParse(r, d)
					if f == nil {
						continue
					}
					var err error
					if !r.Try("verify", func() {
						err = tachograph.VerifyOptions{CertificateResolver: res}.VerifyFile(ctx, f)
					}) {
						return
					}
					r.Logf("%s: verified%s: error=%v", l, d, err != nil)
					verdict(f, "after other uses", err, false, d)
					files = append(files, f)
				case 3: // verify with the caller's source
					d := simMakeDriver(r, l+"/own card", 1, 4)
					f := simParse(r, d)
					if f == nil {
						continue
					}
					var err error
					own := owner
					if r.Chance(l+"/alone", 1, 2) {
						own = mine
					}
					if !r.Try("verify", func() {
						err = tachograph.VerifyOptions{CertificateResolver: own}.VerifyFile(ctx, f)
					}) {
						return
					}
					r.Nontrivial()
					r.Logf("%s: verified with own source%s: error=%v", l, d, err != nil)
					if !own.check("during verification") {
						return
					}
					if !own.untrue {
						verdict(f, "own source", err, true, d)
					}
					if r.Chance(l+"/spoil now", 1, 3) {
						simSpoil(r, l+"/spoil", f)
						own.check("when the verified file was overwritten")
					} else {
						files = append(files, f)
					}
				case 4: // the caller does what it likes with the certificates of a source that was used
					for i, ca := range simpki.CAs() {
						var m proto.Message = mine.rsa[ca.Ref()]
						if ca.Gen == 2 {
							m = mine.ecc[ca.Ref()]
						}
						simSpoil(r, fmt.Sprintf("%s/mine%d", l, i), m)
					}
					r.Logf("%s: spoiled its own source's certificates", l)
					mine = simNewOwner(r, l+"/mine")
					if r.Chance(l+"/false source", 1, 2) {
						mine.falsify(l)
						r.Fault("source that tells untruths")
					}
				}
				for _, k := range have {
					if d := simDiffMsg("certificate", k.m.ProtoReflect(), k.was.ProtoReflect()); d != "" {
						r.Fail("result altered", "the certificate of %s returned earlier was altered: %s (now/as returned)", k.what, d)
						return
					}
				}
				if r.Chance(l+"/pause", 1, 4) {
					time.Sleep(time.Duration(1+r.Int(l+"/ms", 3000)) * time.Millisecond)
				}
			}
		})
	}
	g.Wait()
	if !r.Failed() {
		owner.check("in the end")
	}
}
