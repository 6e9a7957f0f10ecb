package tachograph_test

import (
	"bytes"
	"context"
	"encoding/asn1"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"simpki"
	"simrt"
	"strconv"
	"sync"
	"time"

	"github.com/way-platform/tachograph-go"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

var simScenarios = map[string]simrt.Scenario{}

// ------------------------------------------------------------------- cards

// simRec is one record of a card file.
type simRec struct {
	fid uint16
	app byte
	val []byte
}

func simTLV(recs ...simRec) []byte {
	var b []byte
	for _, c := range recs {
		b = binary.BigEndian.AppendUint16(b, c.fid)
		b = append(b, c.app)
		b = binary.BigEndian.AppendUint16(b, uint16(len(c.val)))
		b = append(b, c.val...)
	}
	return b
}

// simDriver is a driver's card as far as its certificates are concerned.
type simDriver struct {
	G1, G2   bool
	C1, C2   []byte // card certificate, card signature certificate; nil: absent
	CA1, CA2 *simpki.CA
	K1, K2   string // what was done to them
	X1, X2   []byte // CA certificates stored on the card, if drawn
	Y2, L2   []byte // card mutual authentication and link certificate, if drawn
	Drawn    bool   // the certificates stored on the card are X1, X2, Y2 and L2
	N        int
}

// Bytes is the card file.
func (d *simDriver) Bytes() []byte {
	s := simSamples()
	recs := []simRec{{0x0002, 0, s["icc"]}, {0x0005, 0, s["ic"]}}
	if d.G1 {
		recs = append(recs, simRec{0x0501, 0, s["application_identification"]}, simRec{0x0501, 1, bytes.Repeat([]byte{byte(d.N)}, 128)})
		if d.C1 != nil {
			recs = append(recs, simRec{0xc100, 0, d.C1})
		}
		if d.Drawn {
			if d.X1 != nil {
				recs = append(recs, simRec{0xc108, 0, d.X1})
			}
		} else if d.CA1 != nil {
			recs = append(recs, simRec{0xc108, 0, d.CA1.Bytes})
		}
	}
	if d.G2 {
		recs = append(recs, simRec{0x0520, 2, s["identification"]}, simRec{0x0520, 3, bytes.Repeat([]byte{byte(d.N)}, 64)})
		if d.Y2 != nil {
			recs = append(recs, simRec{0xc100, 2, d.Y2})
		}
		if d.C2 != nil {
			recs = append(recs, simRec{0xc101, 2, d.C2})
		}
		if d.Drawn {
			if d.X2 != nil {
				recs = append(recs, simRec{0xc108, 2, d.X2})
			}
		} else if d.CA2 != nil {
			recs = append(recs, simRec{0xc108, 2, d.CA2.Bytes})
		}
		if d.L2 != nil {
			recs = append(recs, simRec{0xc109, 2, d.L2})
		}
	}
	return simTLV(recs...)
}

func simCAs(gen int) []*simpki.CA {
	var out []*simpki.CA
	for _, c := range simpki.CAs() {
		if c.Gen == gen {
			out = append(out, c)
		}
	}
	return out
}

func simByRef(gen int, ref string) *simpki.CA {
	for _, c := range simCAs(gen) {
		if c.Ref() == ref {
			return c
		}
	}
	return nil
}

func simByURL(url string) *simpki.CA {
	for _, c := range simpki.CAs() {
		for _, u := range c.URLs {
			if u == url {
				return c
			}
		}
	}
	return nil
}

var simCertCache sync.Map

func simCached(key string, f func() []byte) []byte {
	if v, ok := simCertCache.Load(key); ok {
		return bytes.Clone(v.([]byte))
	}
	b := f()
	simCertCache.Store(key, bytes.Clone(b))
	return b
}

func simContent1(ca *simpki.CA, n int) simpki.RSAContent {
	k := simpki.RSAKeys()[[]string{"Card1", "Card2"}[n&1]]
	eov := []uint32{0xffffffff, 1900000000, 1000000000, 0}[n&3]
	return simpki.RSAContent{CAR: ca.CHR, CHR: 0x4400000000000101 + uint64(n)<<16, EOV: eov, Modulus: k.Modulus(), Exponent: 65537}
}

// simCard1 is a genuine first-generation card certificate.
func simCard1(ca *simpki.CA, n int) []byte {
	return simCached(fmt.Sprintf("1/%s/%d", ca.Name, n), func() []byte {
		return simpki.RSACert(ca.RSA, simContent1(ca, n), ca.CHR)
	})
}

func simContent2(ca *simpki.CA, n int) simpki.ECContent {
	k := simpki.NewECKey([]string{"bp256", "p256", "bp384", "p384"}[n&3], "card"+strconv.Itoa(n))
	// Certificates of long ago and of times no clock has reached yet.
	from := []uint32{1700000000, 0, 1000000000, 3000000000}[n>>2&3]
	to := []uint32{2000000000, 1700000001, 4000000000, 0xfffffffe}[n>>1&3]
	if to < from {
		to = 4200000000
	}
	return simpki.ECContent{CAR: ca.CHR, CHR: 0x4400000000000201 + uint64(n)<<16, Curve: k.C, X: k.X, Y: k.Y, From: from, To: to}
}

// simCard2 is a genuine card signature certificate.
func simCard2(ca *simpki.CA, n int) []byte {
	return simCached(fmt.Sprintf("2/%s/%d", ca.Name, n), func() []byte {
		return simpki.ECCert(ca.EC, simContent2(ca, n))
	})
}

func simOther(r *simrt.Run, l string, ca *simpki.CA) *simpki.CA {
	all := simCAs(ca.Gen)
	k := r.Int(l, len(all)-1)
	for _, c := range all {
		if c != ca {
			if k == 0 {
				return c
			}
			k--
		}
	}
	return nil
}

func simFlip(r *simrt.Run, l string, b []byte, from, to int) []byte {
	b = bytes.Clone(b)
	n := 1 + r.Weighted(l+"/n", 6, 2, 1)
	for i := 0; i < n; i++ {
		p := from + r.Pos(l+"/at", to-from)
		b[p] ^= byte(1 + r.Int(l+"/bits", 255))
	}
	return b
}

// simMakeCert1 makes a first-generation card certificate, genuine or not.
func simMakeCert1(r *simrt.Run, l string, ca *simpki.CA, n int, bad bool) ([]byte, string) {
	good := simCard1(ca, n)
	if !bad {
		return good, "genuine"
	}
	c := simContent1(ca, n)
	rogue := simpki.RSAKeys()["Rogue"]
	switch r.Int(l+"/kind", 14) {
	case 0:
		return simFlip(r, l, good, 0, len(good)), "flipped bits"
	case 1:
		return simCached(fmt.Sprintf("1r/%s/%d", ca.Name, n), func() []byte { return simpki.RSACert(rogue, c, ca.CHR) }), "signed by a stranger"
	case 2:
		o := simOther(r, l+"/other", ca)
		return simCached(fmt.Sprintf("1o/%s/%s/%d", ca.Name, o.Name, n), func() []byte { return simpki.RSACert(o.RSA, c, ca.CHR) }), "signed by another authority"
	case 3:
		o := simOther(r, l+"/other", ca)
		binary.BigEndian.PutUint64(good[186:], o.CHR)
		return good, "names another authority"
	case 4:
		return nil, "absent"
	case 5:
		z := make([]byte, 194)
		binary.BigEndian.PutUint64(z[186:], ca.CHR)
		return z, "zeros"
	case 6:
		return bytes.Clone(ca.Bytes), "certificate of the authority itself"
	case 7:
		// The authority signed something that is not a certificate.
		block := make([]byte, 128)
		for i := range block {
			block[i] = byte(simrt.Mix(uint64(n), uint64(i)))
		}
		content := c.Bytes()
		copy(block[1:], content[:106])
		block[0], block[127] = 0x6a, 0xbc
		k := r.Int(l+"/block", 4)
		good = simCached(fmt.Sprintf("1b/%s/%d/%d", ca.Name, n, k), func() []byte {
			switch k {
			case 1:
				block[0] = 0x4a
			case 2:
				block[127] = 0xcc
			case 3:
				block[0], block[127] = 0, 0
			}
			return simpki.RSASignRaw(ca.RSA, block, content[106:], ca.CHR)
		})
		return good, "authority's signature on other data"
	case 8:
		s := new(big.Int).Add(new(big.Int).SetBytes(good[:128]), ca.RSA.N)
		if s.BitLen() <= 1024 {
			s.FillBytes(good[:128])
		}
		return good, "signature value beyond the modulus"
	case 9:
		o := simCard1(ca, n^1)
		copy(good[128:186], o[128:186])
		return good, "spliced with another genuine certificate"
	case 10, 11:
		// The authority signed, but one byte around the content is wrong.
		at, x := simBlockFlaw(r, l)
		content := c.Bytes()
		return simCached(fmt.Sprintf("1x/%s/%d/%d/%d", ca.Name, n, at, x), func() []byte {
			return simFlawed(ca.RSA, simpki.RSACert(ca.RSA, c, ca.CHR), content[106:], ca.CHR, at, x)
		}), "authority's signature with a wrong " + simBlockPart(at)
	case 12:
		// It calls itself by the authority's name.
		k := simpki.RSAKeys()[[]string{"Card1", "Card2"}[n&1]]
		c.CHR = ca.CHR
		return simCached(fmt.Sprintf("1m/%s/%d", ca.Name, n), func() []byte { return simpki.RSACert(k, c, ca.CHR) }), "signed by itself in the name of the authority"
	default:
		k := simpki.RSAKeys()["Card1"]
		c.CAR = c.CHR
		return simCached(fmt.Sprintf("1s/%s/%d", ca.Name, n), func() []byte { return simpki.RSACert(k, c, c.CHR) }), "signed by itself"
	}
}

// simBlockFlaw draws a byte outside the content of a recovered signature block
// (header, hash or trailer) and how it is wrong.
func simBlockFlaw(r *simrt.Run, l string) (at int, x byte) {
	switch r.Int(l+"/part", 4) {
	case 0:
		at = 0
	case 1:
		at = 127
	default:
		at = 107 + r.Int(l+"/hash byte", 20)
	}
	return at, []byte{1, 0x80, 0x40, 0x10, 0x08, 0xff}[r.Int(l+"/wrong", 6)]
}

func simBlockPart(at int) string {
	switch at {
	case 0:
		return "header"
	case 127:
		return "trailer"
	}
	return "hash"
}

// simFlawed signs what cert was signed over again, with one byte changed.
func simFlawed(k *simpki.RSAKey, cert, cn []byte, trailer uint64, at int, x byte) []byte {
	m := new(big.Int).Exp(new(big.Int).SetBytes(cert[:128]), big.NewInt(65537), k.N)
	b := m.FillBytes(make([]byte, 128))
	b[at] ^= x
	return simpki.RSASignRaw(k, b, cn, trailer)
}

// simMakeCert2 makes a card signature certificate, genuine or not.
func simMakeCert2(r *simrt.Run, l string, ca *simpki.CA, n int, bad bool) ([]byte, string) {
	good := simCard2(ca, n)
	if !bad {
		return good, "genuine"
	}
	c := simContent2(ca, n)
	p, _ := simpki.ECOpen(good)
	body := bytes.Index(good, p.Body)
	sl := len(p.R)
	sig := len(good) - 2*sl
	put := func(rr, ss *big.Int) []byte {
		if rr.BitLen() > 8*sl || ss.BitLen() > 8*sl {
			return good
		}
		rr.FillBytes(good[sig : sig+sl])
		ss.FillBytes(good[sig+sl:])
		return good
	}
	R, S, N := new(big.Int).SetBytes(p.R), new(big.Int).SetBytes(p.S), ca.EC.C.N
	switch r.Int(l+"/kind", 17) {
	case 0:
		return simFlip(r, l, good, body, body+len(p.Body)), "flipped bits in the body"
	case 1:
		return simFlip(r, l, good, sig, len(good)), "flipped bits in the signature"
	case 2:
		k := simpki.NewECKey(ca.EC.C.Name, "rogue")
		return simCached(fmt.Sprintf("2r/%s/%d", ca.Name, n), func() []byte { return simpki.ECCert(k, c) }), "signed by a stranger"
	case 3:
		o := simOther(r, l+"/other", ca)
		return simCached(fmt.Sprintf("2o/%s/%s/%d", ca.Name, o.Name, n), func() []byte { return simpki.ECCert(o.EC, c) }), "signed by another authority"
	case 4:
		o := simOther(r, l+"/other", ca)
		c.CAR = o.CHR
		return simCached(fmt.Sprintf("2c/%s/%s/%d", ca.Name, o.Name, n), func() []byte { return simpki.ECCert(ca.EC, c) }), "names another authority"
	case 5:
		return nil, "absent"
	case 6:
		zero := new(big.Int)
		switch r.Int(l+"/zero", 3) {
		case 0:
			return put(zero, zero), "zero signature"
		case 1:
			return put(zero, S), "zero r"
		}
		return put(R, zero), "zero s"
	case 7:
		switch r.Int(l+"/n", 4) {
		case 0:
			return put(N, N), "signature (n, n)"
		case 1:
			return put(new(big.Int).Add(R, N), S), "r beyond the order"
		case 2:
			return put(R, new(big.Int).Add(S, N)), "s beyond the order"
		}
		return put(big.NewInt(1), big.NewInt(1)), "signature (1, 1)"
	case 8:
		return put(R, new(big.Int).Sub(N, S)), "mirrored signature"
	case 9:
		k := *ca.EC
		cc := *k.C
		cc.Bits = map[int]int{256: 384, 384: 512, 512: 256}[cc.Bits]
		k.C = &cc
		return simCached(fmt.Sprintf("2h/%s/%d", ca.Name, n), func() []byte { return simpki.ECCert(&k, c) }), "signed over another hash"
	case 10:
		o, _ := simpki.ECOpen(simCard2(ca, n^4))
		copy(good[sig:], o.R)
		copy(good[sig+sl:], o.S)
		return good, "signature of another certificate"
	case 11:
		return bytes.Clone(ca.Bytes), "certificate of the authority itself"
	case 12:
		return simFlip(r, l, good, 0, len(good)), "flipped bits"
	case 13:
		return put(S, R), "r and s swapped"
	case 14, 15:
		// Signed with the key it certifies, under its own name or the authority's.
		k := simpki.NewECKey(c.Curve.Name, "card"+strconv.Itoa(n))
		how := "signed by itself"
		if r.Chance(l+"/borrowed name", 1, 2) {
			c.CHR = ca.CHR
			how += " in the name of the authority"
		} else {
			c.CAR = c.CHR
		}
		return simCached(fmt.Sprintf("2m/%s/%d/%d", ca.Name, n, c.CHR), func() []byte { return simpki.ECCert(k, c) }), how
	default:
		// The body alone, without its tag and length, was signed.
		return simCached(fmt.Sprintf("2n/%s/%d", ca.Name, n), func() []byte {
			rr, ss := ca.EC.Sign(p.Body[4:])
			copy(good[sig:], rr)
			copy(good[sig+sl:], ss)
			return good
		}), "signature over a part of the body"
	}
}

// simMakeDriver draws a card.
func simMakeDriver(r *simrt.Run, l string, badNum, badDen int) *simDriver {
	d := &simDriver{N: r.Int(l+"/n", 8)}
	switch r.Weighted(l+"/gens", 3, 2, 3) {
	case 0:
		d.G1, d.G2 = true, true
	case 1:
		d.G1 = true
	default:
		d.G2 = true
	}
	if d.G1 {
		d.CA1 = simCAs(1)[r.Int(l+"/ca1", 5)]
		d.C1, d.K1 = simMakeCert1(r, l+"/c1", d.CA1, d.N, r.Chance(l+"/bad1", badNum, badDen))
	}
	if d.G2 {
		d.CA2 = simCAs(2)[r.Int(l+"/ca2", 6)]
		d.C2, d.K2 = simMakeCert2(r, l+"/c2", d.CA2, d.N, r.Chance(l+"/bad2", badNum, badDen))
	}
	// The CA certificates stored on the card are not what decides: they may be
	// another authority's, damaged or not there.
	d.Drawn = true
	stored := func(l string, own *simpki.CA, all []*simpki.CA) []byte {
		if own == nil {
			return nil
		}
		switch r.Weighted(l, 6, 3, 2, 1) {
		case 1:
			return nil
		case 2:
			return all[r.Int(l+"/other", len(all))].Bytes
		case 3:
			return simFlip(r, l+"/damage", own.Bytes, len(own.Bytes)-50, len(own.Bytes))
		}
		return own.Bytes
	}
	d.X1 = stored(l+"/x1", d.CA1, simCAs(1))
	d.X2 = stored(l+"/x2", d.CA2, simCAs(2))
	if d.G2 && r.Chance(l+"/more", 1, 4) {
		d.Y2 = simCard2(d.CA2, d.N+1)
		if r.Chance(l+"/link", 1, 2) {
			d.L2 = simCAs(2)[r.Int(l+"/linked", 6)].Bytes
		}
	}
	return d
}

func (d *simDriver) String() string {
	s := ""
	if d.G1 {
		s += fmt.Sprintf(" G1[%s: %s]", d.CA1.Name, d.K1)
	}
	if d.G2 {
		s += fmt.Sprintf(" G2[%s: %s]", d.CA2.Name, d.K2)
	}
	return s
}

// simParse parses a card that must be a driver card.
func simParse(r *simrt.Run, d *simDriver) *tachographv1.File {
	var f *tachographv1.File
	var err error
	r.Try("parse", func() { f, err = tachograph.UnmarshalFile(d.Bytes()) })
	if err != nil || f.GetType() != tachographv1.File_DRIVER_CARD {
		return nil
	}
	return f
}

// ------------------------------------------------------------------- oracle

// simRoot is a root key as a source returned it.
type simRoot struct {
	id   string
	n, e []byte
}

// simEC is an ECC certificate as a source returned it.
type simEC struct {
	chr, oid string
	x, y     []byte
}

// simAnswers is what the sources returned during one call.
type simAnswers struct {
	roots   []simRoot
	rsa     [][]byte
	ecc     []simEC
	lookups int // of certificates
	fails   int // lookups that returned an error
}

func (a *simAnswers) reset() { *a = simAnswers{} }

// prove1 decides whether the answers prove a first-generation certificate.
func (a *simAnswers) prove1(cert []byte) (content []byte, ok bool) {
	for _, root := range a.roots {
		for _, ca := range a.rsa {
			c, tr, ok := simpki.RSAOpen(ca, root.n, root.e)
			if !ok || strconv.FormatUint(tr, 10) != root.id {
				continue
			}
			d, tr, ok := simpki.RSAOpen(cert, c[28:156], c[156:164])
			if ok && tr == binary.BigEndian.Uint64(c[20:28]) {
				return d, true
			}
		}
	}
	return nil, false
}

var simProofs sync.Map

// prove2 decides whether the answers prove a card signature certificate.
func (a *simAnswers) prove2(cert []byte) bool {
	p, ok := simpki.ECOpen(cert)
	if !ok {
		return false
	}
	for _, c := range a.ecc {
		if c.chr != strconv.FormatUint(p.CAR, 10) {
			continue
		}
		key := c.oid + "|" + string(c.x) + "|" + string(c.y) + "|" + string(cert)
		v, seen := simProofs.Load(key)
		if !seen {
			v = simpki.ECVerify(simOID(c.oid), c.x, c.y, p.Body, p.R, p.S)
			simProofs.Store(key, v)
		}
		if v.(bool) {
			return true
		}
	}
	return false
}

// simOID converts a dotted identifier to its DER content.
func simOID(s string) []byte {
	for _, c := range simpki.Curves() {
		if simDotted(c.OID) == s {
			return c.OID
		}
	}
	return nil
}

func simDotted(oid []byte) string {
	var o asn1.ObjectIdentifier
	if _, err := asn1.Unmarshal(append([]byte{6, byte(len(oid))}, oid...), &o); err != nil {
		return "?"
	}
	return o.String()
}

// ------------------------------------------------------------------ sources

func simRootMsg(id string, n, e []byte) *securityv1.RootCertificate {
	m := &securityv1.RootCertificate{}
	m.SetKeyId(id)
	m.SetRsaModulus(n)
	m.SetRsaExponent(e)
	return m
}

func simRsaMsg(b []byte) *securityv1.RsaCertificate {
	m := &securityv1.RsaCertificate{}
	m.SetRawData(bytes.Clone(b))
	if len(b) == 194 {
		m.SetCertificateAuthorityReference(strconv.FormatUint(binary.BigEndian.Uint64(b[186:]), 10))
	}
	return m
}

func simEccMsg(b []byte) *securityv1.EccCertificate {
	m := &securityv1.EccCertificate{}
	m.SetRawData(bytes.Clone(b))
	p, ok := simpki.ECOpen(b)
	if !ok {
		return m
	}
	m.SetCertificateAuthorityReference(strconv.FormatUint(p.CAR, 10))
	m.SetCertificateHolderReference(strconv.FormatUint(p.CHR, 10))
	k := &securityv1.EccCertificate_PublicKey{}
	k.SetDomainParametersOid(simDotted(p.OID))
	k.SetPublicPointX(bytes.Clone(p.X))
	k.SetPublicPointY(bytes.Clone(p.Y))
	m.SetPublicKey(k)
	g := &securityv1.EccCertificate_EccSignature{}
	g.SetR(bytes.Clone(p.R))
	g.SetS(bytes.Clone(p.S))
	m.SetSignature(g)
	return m
}

func simGoodRoot() *securityv1.RootCertificate {
	return simRootMsg(strconv.FormatUint(simpki.RootID, 10), simpki.RSAKeys()["Root"].Modulus(), []byte{0, 0, 0, 0, 0, 1, 0, 1})
}

// simSource is a caller-supplied certificate source with faults.
type simSource struct {
	r      *simrt.Run
	l      string
	faulty bool
	num    int // faults per 8 lookups
	simAnswers
}

var errSim = errors.New("simulated source failure")

func (s *simSource) fault(l string, n int) int {
	if !s.faulty || !s.r.Chance(s.l+"/"+l+"/fault", s.num, 8) {
		return 0
	}
	return 1 + s.r.Int(s.l+"/"+l+"/kind", n)
}

// pause stands for the time a lookup takes.
func (s *simSource) pause(ctx context.Context) error {
	switch s.r.Weighted(s.l+"/pause", 6, 2, 1) {
	case 1:
		simrt.Yield()
	case 2:
		t := time.NewTimer(time.Duration(1+s.r.Int(s.l+"/ms", 5000)) * time.Millisecond)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	return nil
}

func (s *simSource) err(kind int) error {
	s.fails++
	switch kind {
	case 1:
		s.r.Fault("source error")
		return fmt.Errorf("lookup: %w", errSim)
	case 2:
		s.r.Fault("source timeout")
		return context.DeadlineExceeded
	}
	s.r.Fault("source ends early")
	return io.ErrUnexpectedEOF
}

func (s *simSource) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	if err := s.pause(ctx); err != nil {
		s.fails++
		return nil, err
	}
	m := simGoodRoot()
	switch k := s.fault("root", 9); k {
	case 0:
	case 1, 2, 3:
		return nil, s.err(k)
	case 4:
		s.r.Fault("source returns nothing")
		s.fails++
		return nil, nil
	case 5:
		s.r.Fault("root with zero modulus")
		m.SetRsaModulus(make([]byte, 128))
	case 6:
		s.r.Fault("root of a stranger")
		m.SetRsaModulus(simpki.RSAKeys()["Rogue"].Modulus())
	case 7:
		s.r.Fault("root without key")
		m.SetRsaModulus(nil)
	case 8:
		s.r.Fault("root with another identity")
		m.SetKeyId("1")
	case 9:
		s.r.Fault("root corrupted")
		m.SetRsaModulus(simFlip(s.r, s.l+"/rootflip", m.GetRsaModulus(), 0, 128))
	}
	s.roots = append(s.roots, simRoot{m.GetKeyId(), bytes.Clone(m.GetRsaModulus()), bytes.Clone(m.GetRsaExponent())})
	return m, nil
}

func (s *simSource) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	s.lookups++
	if err := s.pause(ctx); err != nil {
		s.fails++
		return nil, err
	}
	ca := simByRef(1, chr)
	if ca == nil {
		s.fails++
		return nil, fmt.Errorf("unknown authority %s: %w", chr, errSim)
	}
	raw := bytes.Clone(ca.Bytes)
	rogue := simpki.RSAKeys()["Rogue"]
	forged := func() []byte {
		return simCached("forged/"+ca.Name, func() []byte {
			return simpki.RSACert(rogue, simpki.RSAContent{CAR: simpki.RootID, CHR: ca.CHR, EOV: 0xffffffff, Modulus: rogue.Modulus(), Exponent: 65537}, simpki.RootID)
		})
	}
	var pre *simpki.RSAKey
	k := s.fault("rsa", 14)
	switch k {
	case 0:
	case 1, 2, 3:
		return nil, s.err(k)
	case 4:
		s.r.Fault("source returns nothing")
		s.fails++
		return nil, nil
	case 5:
		s.r.Fault("certificate of another authority")
		raw = bytes.Clone(simOther(s.r, s.l+"/subst", ca).Bytes)
	case 6:
		s.r.Fault("forged authority")
		raw = forged()
	case 7:
		s.r.Fault("forged authority with its key filled in")
		raw, pre = forged(), rogue
	case 8:
		s.r.Fault("genuine authority with a stranger's key filled in")
		pre = rogue
	case 9:
		s.r.Fault("certificate corrupted")
		raw = simFlip(s.r, s.l+"/rsaflip", raw, 0, len(raw))
	case 10:
		s.r.Fault("certificate empty")
		raw = nil
	case 11:
		s.r.Fault("certificate truncated")
		raw = raw[:s.r.Pos(s.l+"/rsacut", len(raw))]
	case 12:
		s.r.Fault("card certificate instead of an authority's")
		raw = simCard1(ca, 0)
	case 13:
		s.r.Fault("genuine authority with its key filled in")
		pre = ca.RSA
	case 14:
		s.r.Fault("authority's certificate with a flaw in what the root signed")
		at, x := simBlockFlaw(s.r, s.l+"/flaw")
		raw = simCached(fmt.Sprintf("flaw/%s/%d/%d", ca.Name, at, x), func() []byte {
			return simFlawed(simpki.RSAKeys()["Root"], ca.Bytes, ca.Bytes[128:186], simpki.RootID, at, x)
		})
	}
	m := simRsaMsg(raw)
	if pre != nil {
		m.SetCertificateHolderReference(chr)
		m.SetRsaModulus(pre.Modulus())
		m.SetRsaExponent([]byte{0, 0, 0, 0, 0, 1, 0, 1})
		m.SetSignatureValid(true)
	}
	s.rsa = append(s.rsa, bytes.Clone(raw))
	return m, nil
}

func (s *simSource) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	s.lookups++
	if err := s.pause(ctx); err != nil {
		s.fails++
		return nil, err
	}
	ca := simByRef(2, chr)
	if ca == nil {
		s.fails++
		return nil, fmt.Errorf("unknown authority %s: %w", chr, errSim)
	}
	m := simEccMsg(ca.Bytes)
	rogue := simpki.NewECKey(ca.EC.C.Name, "rogue")
	k := s.fault("ecc", 16)
	switch k {
	case 0:
	case 1, 2, 3:
		return nil, s.err(k)
	case 4:
		s.r.Fault("source returns nothing")
		s.fails++
		return nil, nil
	case 5:
		s.r.Fault("certificate of another authority")
		m = simEccMsg(simOther(s.r, s.l+"/subst", ca).Bytes)
	case 6:
		s.r.Fault("forged authority")
		m = simEccMsg(simCached("forged2/"+ca.Name, func() []byte {
			return simpki.ECCert(rogue, simpki.ECContent{CAR: simpki.RootID, CHR: ca.CHR, Curve: rogue.C, X: rogue.X, Y: rogue.Y, From: 1, To: 4000000000})
		}))
	case 7:
		s.r.Fault("key point off the curve")
		m.GetPublicKey().SetPublicPointX(simFlip(s.r, s.l+"/xflip", m.GetPublicKey().GetPublicPointX(), 0, ca.EC.C.Len))
	case 8:
		s.r.Fault("key on an unknown curve")
		m.GetPublicKey().SetDomainParametersOid([]string{"1.2.3.4", "", "x", "1.3.36.3.3.2.8.1.1.5"}[s.r.Int(s.l+"/oid", 4)])
	case 9:
		s.r.Fault("key without coordinates")
		if s.r.Chance(s.l+"/which", 1, 2) {
			m.GetPublicKey().SetPublicPointX(nil)
		} else {
			m.GetPublicKey().SetPublicPointY(nil)
		}
	case 10:
		s.r.Fault("certificate without key")
		m.ClearPublicKey()
	case 11:
		s.r.Fault("zero key")
		z := make([]byte, ca.EC.C.Len)
		m.GetPublicKey().SetPublicPointX(z)
		m.GetPublicKey().SetPublicPointY(z)
	case 12:
		s.r.Fault("key on another curve")
		names := []string{"bp256", "bp384", "bp512", "p256", "p384", "p521"}
		o := simpki.NewECKey(names[s.r.Int(s.l+"/curve", 6)], "rogue")
		m.GetPublicKey().SetDomainParametersOid(simDotted(o.C.OID))
		if s.r.Chance(s.l+"/point", 1, 2) {
			m.GetPublicKey().SetPublicPointX(o.X)
			m.GetPublicKey().SetPublicPointY(o.Y)
		}
	case 13:
		s.r.Fault("oversized coordinates")
		m.GetPublicKey().SetPublicPointX(bytes.Repeat([]byte{0xff}, 1+s.r.Int(s.l+"/long", 200)))
	case 14:
		s.r.Fault("empty message")
		m = &securityv1.EccCertificate{}
	case 15:
		s.r.Fault("another holder's name on the right key")
		m.SetCertificateHolderReference("42")
	case 16:
		s.r.Fault("no holder's name on a key")
		if s.r.Chance(s.l+"/whose", 1, 2) {
			m = simEccMsg(simOther(s.r, s.l+"/subst", ca).Bytes)
		}
		m.SetCertificateHolderReference("")
	}
	s.ecc = append(s.ecc, simEC{m.GetCertificateHolderReference(), m.GetPublicKey().GetDomainParametersOid(), bytes.Clone(m.GetPublicKey().GetPublicPointX()), bytes.Clone(m.GetPublicKey().GetPublicPointY())})
	return m, nil
}

// ------------------------------------------------------------------ network

// simNetFaults is how the network treats requests for certificates.
type simNetFaults struct {
	num       int  // faults per 16 requests
	hang      bool // servers may never answer
	delays    bool
	faultless bool
	down      int // kind of a lasting outage
}

// simOutages are the ways in which a server can be down for a long time.
var simOutages = []string{"", "connection refused", "connection reset", "name not found", "connect timeout", "TLS failure", "other status", "empty answer", "cut off", "half a file", "a web page"}

var simStatuses = []int{404, 500, 206, 302, 204, 201, 403, 503, 304, 226, 418, 429, 299, 203}

// simServe decides the answer to one request.
func simServe(r *simrt.Run, l string, o *simNetFaults, req *http.Request, q *simrt.Req) simrt.Plan {
	ca := simByURL(q.URL)
	if ca == nil || q.Method != http.MethodGet {
		p := simrt.Ok([]byte("not found"))
		p.Status = 404
		p.Note = "unknown address"
		return p
	}
	p := simrt.Ok(ca.Bytes)
	if o.down > 0 && !o.faultless {
		p.Note = "outage: " + simOutages[o.down]
		switch o.down {
		case 6:
			p.Status = 503
		case 7:
			p.Body = nil
		case 8:
			p.CutAt = len(p.Body) / 2
		case 9:
			p.Body = p.Body[:len(p.Body)/2]
		case 10:
			p.Body = []byte("<html>We are working on it</html>")
		default:
			p.Err = []error{nil, simrt.ErrRefused, simrt.ErrReset, simrt.ErrDNS, simrt.ErrTimeout, simrt.ErrTLS}[o.down]
		}
		r.Fault("network: " + p.Note)
		return p
	}
	if o.delays {
		switch r.Weighted(l+"/delay", 5, 3, 1) {
		case 1:
			p.Delay = time.Duration(1+r.Int(l+"/ms", 3000)) * time.Millisecond
		case 2:
			p.Delay = time.Duration(1+r.Int(l+"/min", 90)) * time.Minute
		}
		switch r.Weighted(l+"/chunks", 6, 2, 1) {
		case 1:
			p.Chunk = 1 + r.Int(l+"/chunk", 64)
		case 2:
			p.Chunk = 1 + r.Int(l+"/chunk", 64)
			p.Gap = time.Duration(1+r.Int(l+"/gap", 30000)) * time.Millisecond
		}
		if r.Chance(l+"/nolength", 1, 4) {
			p.Length = -1
		}
	}
	if o.faultless || !r.Chance(l+"/fault", o.num, 16) {
		return p
	}
	fault := func(s string) {
		p.Note = s
		r.Fault("network: " + s)
	}
	n := 20
	if !o.hang {
		n = 18
	}
	k := r.Int(l+"/kind", n)
	if k >= 16 && !o.hang {
		k += 2
	}
	switch k {
	case 0:
		p.Err = simrt.ErrRefused
		fault("connection refused")
	case 1:
		p.Err = simrt.ErrReset
		fault("connection reset")
	case 2:
		p.Err = simrt.ErrDNS
		fault("name not found")
	case 3:
		p.Err = simrt.ErrTimeout
		fault("connect timeout")
	case 4:
		p.Err = simrt.ErrTLS
		fault("TLS failure")
	case 5:
		p.Status = simStatuses[r.Int(l+"/status", len(simStatuses))]
		if r.Chance(l+"/nobody", 1, 3) {
			p.Body = []byte("<html>sorry</html>")
		}
		fault("other status")
	case 6:
		p.CutAt = r.Pos(l+"/cut", len(p.Body))
		fault("cut off")
	case 7:
		p.CutAt = r.Pos(l+"/cut", len(p.Body))
		p.CutErr = simrt.ErrReset
		fault("reset in the body")
	case 8:
		p.Body = p.Body[:r.Pos(l+"/trunc", len(p.Body))]
		fault("truncated file")
	case 9:
		p.Body = append(bytes.Clone(p.Body), bytes.Repeat([]byte{byte(r.Int(l+"/fill", 256))}, 1+r.Pos(l+"/extra", 2000))...)
		fault("bytes added")
	case 10:
		g := make([]byte, len(p.Body))
		for i := range g {
			g[i] = byte(simrt.Mix(uint64(i), uint64(len(g))))
		}
		p.Body = g
		fault("garbage")
	case 11:
		p.Body = simOther(r, l+"/subst", ca).Bytes
		if own := binary.BigEndian.AppendUint64([]byte{0x5f, 0x20, 8}, ca.CHR); ca.Gen == 2 && bytes.Contains(ca.Bytes, own) && r.Chance(l+"/near", 1, 2) {
			// A holder whose reference is nearly the one that is looked up.
			near := []uint64{ca.CHR ^ 1, ca.CHR ^ 1<<63, ca.CHR + 10_000_000_000_000_000_000, ca.CHR / 10, ca.CHR * 10, ca.CHR ^ 1<<uint(r.Int(l+"/bit", 64)), ca.CHR % 1_000_000_000_000_000_000}[r.Int(l+"/how", 7)]
			if near != ca.CHR {
				p.Body = bytes.Replace(ca.Bytes, own, binary.BigEndian.AppendUint64([]byte{0x5f, 0x20, 8}, near), 1)
			}
		}
		fault("another authority's certificate")
	case 12:
		p.Body = simFlip(r, l+"/flip", p.Body, 0, len(p.Body))
		fault("corrupted")
	case 13:
		p.Body = nil
		fault("empty")
	case 14:
		if r.Chance(l+"/forever", 1, 2) {
			p.Endless = -1
			p.Chunk = 32 << 10
		} else {
			p.Endless = int64(1 + r.Int(l+"/many", 3<<20))
			p.Chunk = 32 << 10
		}
		p.Gap = 0
		fault("far too long")
	case 15:
		rogue := simpki.RSAKeys()["Rogue"]
		if ca.Gen == 1 {
			p.Body = simCached("netforged/"+ca.Name, func() []byte {
				return simpki.RSACert(rogue, simpki.RSAContent{CAR: simpki.RootID, CHR: ca.CHR, EOV: 0xffffffff, Modulus: rogue.Modulus(), Exponent: 65537}, simpki.RootID)
			})
		} else {
			o := simCAs(2)[0]
			if o == ca {
				o = simCAs(2)[1]
			}
			p.Body = o.Bytes
		}
		fault("forged")
	case 16:
		p.Hang = true
		fault("no answer")
	case 17:
		p.StallAt = r.Pos(l+"/stall", len(p.Body)+1)
		fault("stalled")
	case 18:
		// All of the certificate arrives, but not all that was announced.
		p.CutAt = len(p.Body)
		p.Body = append(bytes.Clone(p.Body), bytes.Repeat([]byte{0xff}, 1+r.Pos(l+"/extra", 2000))...)
		if r.Chance(l+"/reset", 1, 2) {
			p.CutErr = simrt.ErrReset
		}
		fault("cut off behind the certificate")
	case 19:
		// The certificate of a holder that is called almost the same.
		if at := bytes.Index(p.Body, []byte{0x5f, 0x20, 8}); ca.Gen == 2 && at >= 0 {
			p.Body = bytes.Clone(p.Body)
			p.Body[at+3+r.Pos(l+"/digit", 8)] ^= 1 << r.Int(l+"/bit", 8)
			fault("certificate of a holder with a similar name")
		}
	}
	return p
}

// simDelivered lists the complete bodies of successful responses since mark.
func simDelivered(n *simrt.Network, mark int) [][]byte {
	var out [][]byte
	for _, q := range n.Reqs()[mark:] {
		if q.Answered && q.EOF && q.Plan.Status == 200 {
			out = append(out, simBody(q))
		}
	}
	return out
}

// simBody is what the body of a response contains in full.
func simBody(q *simrt.Req) []byte {
	b := bytes.Clone(q.Plan.Body)
	for i := int64(len(b)); q.Plan.Endless > 0 && i < int64(len(q.Plan.Body))+q.Plan.Endless && i < 1<<16; i++ {
		b = append(b, byte('A'+i%23))
	}
	return b
}

// simOffline is what the default source can know: the shipped certificates and
// what the network delivered.
func simOffline(n *simrt.Network, mark int) *simAnswers {
	root := simpki.RSAKeys()["Root"]
	a := &simAnswers{roots: []simRoot{{strconv.FormatUint(simpki.RootID, 10), root.Modulus(), []byte{0, 0, 0, 0, 0, 1, 0, 1}}}}
	add := func(b []byte) {
		if len(b) == 194 {
			a.rsa = append(a.rsa, b)
		} else if p, ok := simpki.ECOpen(b); ok {
			a.ecc = append(a.ecc, simEC{strconv.FormatUint(p.CHR, 10), simDotted(p.OID), p.X, p.Y})
		}
	}
	for _, c := range simpki.CAs() {
		if c.Embedded {
			add(c.Bytes)
		}
	}
	if n != nil {
		for _, b := range simDelivered(n, mark) {
			add(b)
		}
	}
	return a
}

// simReachable: the default source can get this authority's certificate.
func simReachable(ca *simpki.CA) bool { return ca.Embedded || ca.Listed }

func simDigest(m proto.Message) uint64 {
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return simrt.HashBytes(b)
}
