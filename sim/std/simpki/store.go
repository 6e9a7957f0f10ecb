package simpki

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"sync"
)

// RootID is the key identifier of the root.
const RootID = 0xFD45432001FFFF01

// CA is one certification authority of the simulated hierarchy.
type CA struct {
	Name     string
	Gen      int
	CHR      uint64
	RSA      *RSAKey
	EC       *ECKey
	Bytes    []byte // its genuine certificate
	Embedded bool   // shipped with the library
	Listed   bool   // in the index
	URLs     []string
}

// Ref is the holder reference as the library writes it.
func (c *CA) Ref() string { return strconv.FormatUint(c.CHR, 10) }

// Base is the address certificates are published under.
const Base = "https://dtc.jrc.ec.europa.eu/"

// CAs is the hierarchy below the root.
var CAs = sync.OnceValue(func() []*CA {
	root := RSAKeys()["Root"]
	rootEC := NewECKey("bp256", "root")
	var out []*CA
	g1 := func(name string, chr uint64, embedded, listed bool, urls ...string) {
		k := RSAKeys()[name]
		c := &CA{Name: name, Gen: 1, CHR: chr, RSA: k, Embedded: embedded, Listed: listed, URLs: urls}
		eov := uint32(0xffffffff)
		if len(out)%2 == 0 {
			eov = 1900000000
		}
		c.Bytes = RSACert(root, RSAContent{CAR: RootID, CHR: chr, EOV: eov, Modulus: k.Modulus(), Exponent: 65537}, RootID)
		out = append(out, c)
	}
	g1("CaA", 0x1246494E20110201, true, true, Base+"BIN_DT/A1.bin")
	g1("CaB", 0x1341555420120202, false, true, Base+"BIN_DT/B1.bin")
	g1("CaC", 0x1443484520130203, false, false, Base+"BIN_DT/C1.bin")
	g1("CaD", 0x1543595020140204, true, false, Base+"BIN_DT/D1.bin")
	g1("CaE", 0xF6435A4520150205, false, true, Base+"BIN_DT/E%20%281%29.bin?v=2")
	g2 := func(name, curve string, chr uint64, embedded, listed bool, urls ...string) {
		k := NewECKey(curve, name)
		c := &CA{Name: name, Gen: 2, CHR: chr, EC: k, Embedded: embedded, Listed: listed, URLs: urls}
		c.Bytes = ECCert(rootEC, ECContent{CAR: RootID, CHR: chr, Curve: k.C, X: k.X, Y: k.Y, From: 1500000000, To: 2100000000})
		out = append(out, c)
	}
	g2("EcA", "bp256", 0x1246494E20210301, true, true, Base+"CSM_Certificates/A2.bin")
	g2("EcB", "p256", 0x1341555420220302, false, true, Base+"CSM_Certificates/B2.bin")
	g2("EcC", "bp384", 0x1443484520230303, false, false, Base+"CSM_Certificates/C2.bin")
	g2("EcD", "bp384", 0x1543595020240304, true, false, Base+"CSM_Certificates/D2.bin")
	g2("EcE", "p384", 0xF6435A4520250305, false, true, Base+"CSM_Certificates/E2.bin", Base+"CSM_Certificates/E2-again.bin")
	// The same number as a first-generation authority.
	g2("EcF", "bp256", 0x1246494E20110201, false, true, Base+"CSM_Certificates/F2.bin")
	return out
})

// StoreRoot is the shipped root key file.
func StoreRoot() []byte { return RootFile(RootID, RSAKeys()["Root"]) }

// StoreIndex is the shipped index.
func StoreIndex() []byte {
	type entry struct {
		CAR     string `json:"car"`
		CHR     string `json:"chr"`
		Country string `json:"country"`
		URL     string `json:"url"`
		Exp     string `json:"expirationDate,omitzero"`
		Path    string `json:"path"`
	}
	rid := strconv.FormatUint(RootID, 10)
	x := map[string]any{"createTime": "2026-01-02T03:04:05Z", "root": entry{CAR: rid, CHR: rid, URL: Base + "erca_of_doc/EC_PK.zip", Path: "root/EC_PK.bin"}}
	var g [3][]entry
	add := func(c *CA) {
		for _, u := range c.URLs {
			g[c.Gen] = append(g[c.Gen], entry{CAR: rid, CHR: c.Ref(), Country: "Country " + c.Name, URL: u, Exp: "2031-03-21T00:00:00Z", Path: fmt.Sprintf("g%d/%s.bin", c.Gen, c.Ref())})
		}
	}
	for _, c := range CAs() {
		if c.Listed {
			add(c)
		}
	}
	// An address no request can be made for.
	for gen := 1; gen <= 2; gen++ {
		g[gen] = append(g[gen], entry{CAR: rid, CHR: BadURLRef, Country: "Nowhere", URL: "http://[::1%/x.bin", Path: "x"})
	}
	x["g1"], x["g2"] = g[1], g[2]
	b, err := json.MarshalIndent(x, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

// BadURLRef is a listed holder whose address is unusable.
const BadURLRef = "1111111111111111111"

// RSAOpen recovers and checks a certificate under a key; the reference
// implementation the library is compared with.
func RSAOpen(cert []byte, n []byte, e []byte) (content []byte, trailer uint64, ok bool) {
	if len(cert) != 194 {
		return nil, 0, false
	}
	trailer = binary.BigEndian.Uint64(cert[186:])
	N, E := new(big.Int).SetBytes(n), new(big.Int).SetBytes(e)
	if N.Sign() == 0 || E.BitLen() > 64 {
		return nil, trailer, false
	}
	m := new(big.Int).Exp(new(big.Int).SetBytes(cert[:128]), E, N)
	if m.BitLen() > 1024 {
		return nil, trailer, false
	}
	b := m.FillBytes(make([]byte, 128))
	if b[0] != 0x6a || b[127] != 0xbc {
		return nil, trailer, false
	}
	content = append(append([]byte(nil), b[1:107]...), cert[128:186]...)
	h := sha1.Sum(content)
	return content, trailer, bytes.Equal(h[:], b[107:127])
}

// ECParts is an ECC certificate taken apart.
type ECParts struct {
	Body     []byte // with its tag and length: what is signed
	CAR, CHR uint64
	OID      []byte
	X, Y     []byte
	R, S     []byte
}

// tlv reads one element with a tag of one or two bytes.
func tlv(b []byte) (tag int, val, full, rest []byte, ok bool) {
	if len(b) < 2 {
		return
	}
	i := 1
	tag = int(b[0])
	if b[0]&0x1f == 0x1f {
		tag = tag<<8 | int(b[1])
		i = 2
		if b[1]&0x80 != 0 || len(b) < 3 {
			return
		}
	}
	n := int(b[i])
	i++
	switch {
	case n < 128:
	case n == 0x81 && len(b) > i:
		n = int(b[i])
		i++
	case n == 0x82 && len(b) > i+1:
		n = int(b[i])<<8 | int(b[i+1])
		i += 2
	default:
		return
	}
	if len(b) < i+n {
		return
	}
	return tag, b[i : i+n], b[:i+n], b[i+n:], true
}

// ECOpen takes a certificate apart.
func ECOpen(cert []byte) (p ECParts, ok bool) {
	_, outer, _, _, ok := tlv(cert)
	if !ok {
		return p, false
	}
	_, body, full, rest, ok := tlv(outer)
	if !ok {
		return p, false
	}
	p.Body = full
	var f [7][]byte
	for i := range f {
		if _, f[i], _, body, ok = tlv(body); !ok {
			return p, false
		}
	}
	_, sig, _, _, ok := tlv(rest)
	if !ok || len(sig)%2 != 0 || len(f[1]) != 8 || len(f[4]) != 8 {
		return p, false
	}
	p.R, p.S = sig[:len(sig)/2], sig[len(sig)/2:]
	p.CAR, p.CHR = binary.BigEndian.Uint64(f[1]), binary.BigEndian.Uint64(f[4])
	_, oid, _, pk, ok := tlv(f[3])
	if !ok {
		return p, false
	}
	_, pt, _, _, ok := tlv(pk)
	if !ok || len(pt)%2 != 1 || pt[0] != 4 {
		return p, false
	}
	p.OID = oid
	p.X, p.Y = pt[1:1+len(pt)/2], pt[1+len(pt)/2:]
	return p, true
}

// ECVerify checks a signature by affine arithmetic.
func ECVerify(oid, x, y, msg, r, s []byte) bool {
	var c *Curve
	for _, k := range Curves() {
		if bytes.Equal(k.OID, oid) {
			c = k
		}
	}
	if c == nil {
		return false
	}
	X, Y := new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)
	X.Mod(X, c.P)
	Y.Mod(Y, c.P)
	// y^2 = x^3 + ax + b
	l := new(big.Int).Mul(Y, Y)
	q := new(big.Int).Mul(X, X)
	q.Add(q, c.A).Mul(q, X).Add(q, c.B)
	if l.Sub(l, q).Mod(l, c.P).Sign() != 0 {
		return false
	}
	R, S := new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)
	if R.Sign() == 0 || S.Sign() == 0 || R.Cmp(c.N) >= 0 || S.Cmp(c.N) >= 0 {
		return false
	}
	var hash []byte
	switch c.Bits {
	case 256:
		h := sha256.Sum256(msg)
		hash = h[:]
	case 384:
		h := sha512.Sum384(msg)
		hash = h[:]
	default:
		h := sha512.Sum512(msg)
		hash = h[:]
	}
	w := new(big.Int).ModInverse(S, c.N)
	u1 := new(big.Int).SetBytes(hash)
	u1.Mul(u1, w).Mod(u1, c.N)
	u2 := new(big.Int).Mul(R, w)
	u2.Mod(u2, c.N)
	x1, y1 := c.mul(u1, c.X, c.Y)
	x2, y2 := c.mul(u2, X, Y)
	x3, _ := c.add(x1, y1, x2, y2)
	if x3 == nil {
		return false
	}
	return new(big.Int).Mod(x3, c.N).Cmp(R) == 0
}
