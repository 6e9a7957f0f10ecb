// Package simpki builds and signs the certificates of the simulated hierarchy.
package simpki

import (
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"sync"
)

// The simulated certificate hierarchy: RSA certificates after Appendix 11
// Part A (ISO 9796-2 signatures with message recovery) and ECC certificates
// after Part B, built and signed here so that any chain, genuine or forged,
// can be made. This code shares nothing with the code under test.

// RSAKey is a 1024-bit key with exponent 65537.
type RSAKey struct {
	N, D *big.Int
}

// RSAKeys are the keys by name.
var RSAKeys = sync.OnceValue(func() map[string]*RSAKey {
	m := map[string]*RSAKey{}
	for name, h := range rsaKeyHex {
		n, _ := new(big.Int).SetString(h[0], 16)
		d, _ := new(big.Int).SetString(h[1], 16)
		m[name] = &RSAKey{N: n, D: d}
	}
	return m
})

// Modulus is the 128-byte modulus.
func (k *RSAKey) Modulus() []byte { return k.N.FillBytes(make([]byte, 128)) }

// RSAContent is the 164-byte content of an RSA certificate.
type RSAContent struct {
	CAR, CHR uint64
	EOV      uint32
	Modulus  []byte
	Exponent uint64
}

// Bytes encodes the content.
func (c RSAContent) Bytes() []byte {
	b := make([]byte, 0, 164)
	b = append(b, 1)
	b = binary.BigEndian.AppendUint64(b, c.CAR)
	b = append(b, 0xff, 0x54, 0x41, 0x43, 0x48, 0x4f, 0x01)
	b = binary.BigEndian.AppendUint32(b, c.EOV)
	b = binary.BigEndian.AppendUint64(b, c.CHR)
	b = append(b, c.Modulus...)
	b = binary.BigEndian.AppendUint64(b, c.Exponent)
	return b
}

// RSACert signs the content; trailerCAR is the reference in the clear.
func RSACert(signer *RSAKey, c RSAContent, trailerCAR uint64) []byte {
	content := c.Bytes()
	h := sha1.Sum(content)
	sr := make([]byte, 0, 128)
	sr = append(sr, 0x6a)
	sr = append(sr, content[:106]...)
	sr = append(sr, h[:]...)
	sr = append(sr, 0xbc)
	return RSASignRaw(signer, sr, content[106:], trailerCAR)
}

// RSASignRaw signs an arbitrary 128-byte block.
func RSASignRaw(signer *RSAKey, block, cn []byte, trailerCAR uint64) []byte {
	s := new(big.Int).Exp(new(big.Int).SetBytes(block), signer.D, signer.N)
	out := s.FillBytes(make([]byte, 128))
	out = append(out, cn...)
	return binary.BigEndian.AppendUint64(out, trailerCAR)
}

// RootFile is the 144-byte root key file.
func RootFile(keyID uint64, k *RSAKey) []byte {
	b := binary.BigEndian.AppendUint64(nil, keyID)
	b = append(b, k.Modulus()...)
	return binary.BigEndian.AppendUint64(b, 65537)
}

// Curve is a short Weierstrass curve.
type Curve struct {
	Name             string
	OID              []byte // DER content
	Bits             int    // hash size
	P, A, B, X, Y, N *big.Int
	Len              int
}

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex")
	}
	return n
}

// Curves by name.
var Curves = sync.OnceValue(func() map[string]*Curve {
	mk := func(name string, oid []byte, bits, l int, p, a, b, x, y, n string) *Curve {
		return &Curve{Name: name, OID: oid, Bits: bits, Len: l, P: hexInt(p), A: hexInt(a), B: hexInt(b), X: hexInt(x), Y: hexInt(y), N: hexInt(n)}
	}
	m := map[string]*Curve{}
	for _, c := range []*Curve{
		mk("bp256", []byte{0x2b, 0x24, 3, 3, 2, 8, 1, 1, 7}, 256, 32,
			"A9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377",
			"7D5A0975FC2C3057EEF67530417AFFE7FB8055C126DC5C6CE94A4B44F330B5D9",
			"26DC5C6CE94A4B44F330B5D9BBD77CBF958416295CF7E1CE6BCCDC18FF8C07B6",
			"8BD2AEB9CB7E57CB2C4B482FFC81B7AFB9DE27E1E3BD23C23A4453BD9ACE3262",
			"547EF835C3DAC4FD97F8461A14611DC9C27745132DED8E545C1D54C72F046997",
			"A9FB57DBA1EEA9BC3E660A909D838D718C397AA3B561A6F7901E0E82974856A7"),
		mk("bp384", []byte{0x2b, 0x24, 3, 3, 2, 8, 1, 1, 11}, 384, 48,
			"8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53",
			"7BC382C63D8C150C3C72080ACE05AFA0C2BEA28E4FB22787139165EFBA91F90F8AA5814A503AD4EB04A8C7DD22CE2826",
			"04A8C7DD22CE28268B39B55416F0447C2FB77DE107DCD2A62E880EA53EEB62D57CB4390295DBC9943AB78696FA504C11",
			"1D1C64F068CF45FFA2A63A81B7C13F6B8847A3E77EF14FE3DB7FCAFE0CBD10E8E826E03436D646AAEF87B2E247D4AF1E",
			"8ABE1D7520F9C2A45CB1EB8E95CFD55262B70B29FEEC5864E19C054FF99129280E4646217791811142820341263C5315",
			"8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B31F166E6CAC0425A7CF3AB6AF6B7FC3103B883202E9046565"),
		mk("p256", []byte{0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}, 256, 32,
			"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF",
			"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC",
			"5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B",
			"6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296",
			"4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5",
			"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551"),
		mk("p384", []byte{0x2b, 0x81, 4, 0, 0x22}, 384, 48,
			"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFF0000000000000000FFFFFFFF",
			"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFF0000000000000000FFFFFFFC",
			"B3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF",
			"AA87CA22BE8B05378EB1C71EF320AD746E1D3B628BA79B9859F741E082542A385502F25DBF55296C3A545E3872760AB7",
			"3617DE4A96262C6F5D9E98BF9292DC29F8F41DBD289A147CE9DA3113B5F0B8C00A60B1CE1D7E819D7A431D7C90EA0E5F",
			"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973"),
		mk("bp512", []byte{0x2b, 0x24, 3, 3, 2, 8, 1, 1, 13}, 512, 64,
			"AADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3",
			"7830A3318B603B89E2327145AC234CC594CBDD8D3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CA",
			"3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CADC083E67984050B75EBAE5DD2809BD638016F723",
			"81AEE4BDD82ED9645A21322E9C4C6A9385ED9F70B5D916C1B43B62EEF4D0098EFF3B1F78E2D0D48D50D1687B93B97D5F7C6D5047406A5E688B352209BCB9F822",
			"7DDE385D566332ECC0EABFA9CF7822FDF209F70024A57B1AA000C55B881F8111B2DCDE494A5F485E5BCA4BD88A2763AED1CA2B2FA8F0540678CD1E0F3AD80892",
			"AADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA70330870553E5C414CA92619418661197FAC10471DB1D381085DDADDB58796829CA90069"),
		mk("p521", []byte{0x2b, 0x81, 4, 0, 0x23}, 512, 66,
			"1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
			"1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC",
			"51953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00",
			"C6858E06B70404E9CD9E3ECB662395B4429C648139053FB521F828AF606B4D3DBAA14B5E77EFE75928FE1DC127A2FFA8DE3348B3C1856A429BF97E7E31C2E5BD66",
			"11839296A789A3BC0045C8A5FB42C7D1BD998F54449579B446817AFBD17273E662C97EE72995EF42640C550B9013FAD0761353C7086A272C24088BE94769FD16650",
			"1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409"),
	} {
		m[c.Name] = c
	}
	return m
})

// add is affine addition; a nil x is the point at infinity.
func (c *Curve) add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		s := new(big.Int).Add(y1, y2)
		if s.Mod(s, c.P).Sign() == 0 {
			return nil, nil
		}
		n := new(big.Int).Mul(x1, x1)
		n.Mul(n, big.NewInt(3)).Add(n, c.A)
		d := new(big.Int).Lsh(y1, 1)
		l = n.Mul(n, d.ModInverse(d.Mod(d, c.P), c.P))
	} else {
		n := new(big.Int).Sub(y2, y1)
		d := new(big.Int).Sub(x2, x1)
		l = n.Mul(n, d.ModInverse(d.Mod(d, c.P), c.P))
	}
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1).Sub(x, x2).Mod(x, c.P)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l).Sub(y, y1).Mod(y, c.P)
	return x, y
}

func (c *Curve) mul(k, x, y *big.Int) (*big.Int, *big.Int) {
	var rx, ry *big.Int
	for i := k.BitLen() - 1; i >= 0; i-- {
		if rx != nil {
			rx, ry = c.add(rx, ry, rx, ry)
		}
		if k.Bit(i) == 1 {
			rx, ry = c.add(rx, ry, x, y)
		}
	}
	return rx, ry
}

// ECKey is a key on a curve.
type ECKey struct {
	C    *Curve
	D    *big.Int
	X, Y []byte
}

var ecKeys sync.Map

// NewECKey derives a key from a name.
func NewECKey(curve, name string) *ECKey {
	id := curve + "/" + name
	if k, ok := ecKeys.Load(id); ok {
		return k.(*ECKey)
	}
	c := Curves()[curve]
	h := sha512.Sum512([]byte("simrt key " + id))
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.N, big.NewInt(1))).Add(d, big.NewInt(1))
	x, y := c.mul(d, c.X, c.Y)
	k := &ECKey{C: c, D: d, X: x.FillBytes(make([]byte, c.Len)), Y: y.FillBytes(make([]byte, c.Len))}
	ecKeys.Store(id, k)
	return k
}

// Sign is ECDSA with a nonce derived from the message.
func (k *ECKey) Sign(msg []byte) (r, s []byte) {
	c := k.C
	var hash []byte
	switch c.Bits {
	case 256:
		h := sha256.Sum256(msg)
		hash = h[:]
	case 384:
		h := sha512.Sum384(msg)
		hash = h[:]
	default:
		h := sha512.Sum512(msg)
		hash = h[:]
	}
	z := new(big.Int).SetBytes(hash)
	n := sha512.Sum512(append(append([]byte("nonce"), k.D.Bytes()...), hash...))
	kk := new(big.Int).SetBytes(n[:])
	kk.Mod(kk, new(big.Int).Sub(c.N, big.NewInt(1))).Add(kk, big.NewInt(1))
	x, _ := c.mul(kk, c.X, c.Y)
	ri := new(big.Int).Mod(x, c.N)
	si := new(big.Int).Mul(ri, k.D)
	si.Add(si, z).Mul(si, new(big.Int).ModInverse(kk, c.N)).Mod(si, c.N)
	return ri.FillBytes(make([]byte, c.Len)), si.FillBytes(make([]byte, c.Len))
}

// TLV encodes a DER element.
func TLV(tag []byte, content []byte) []byte {
	out := append([]byte(nil), tag...)
	switch n := len(content); {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	default:
		out = append(out, 0x82, byte(n>>8), byte(n))
	}
	return append(out, content...)
}

// ECContent is the body of an ECC certificate.
type ECContent struct {
	CAR, CHR uint64
	CHA      []byte
	Curve    *Curve
	X, Y     []byte
	From, To uint32
}

// Body encodes the certificate body.
func (e ECContent) Body() []byte {
	cha := e.CHA
	if cha == nil {
		cha = []byte{0xff, 0x53, 0x4d, 0x52, 0x44, 0x54, 0x0e}
	}
	var b []byte
	b = append(b, TLV([]byte{0x5f, 0x29}, []byte{0})...)
	b = append(b, TLV([]byte{0x42}, binary.BigEndian.AppendUint64(nil, e.CAR))...)
	b = append(b, TLV([]byte{0x5f, 0x4c}, cha)...)
	pt := append([]byte{4}, e.X...)
	pt = append(pt, e.Y...)
	b = append(b, TLV([]byte{0x7f, 0x49}, append(TLV([]byte{6}, e.Curve.OID), TLV([]byte{0x86}, pt)...))...)
	b = append(b, TLV([]byte{0x5f, 0x20}, binary.BigEndian.AppendUint64(nil, e.CHR))...)
	b = append(b, TLV([]byte{0x5f, 0x25}, binary.BigEndian.AppendUint32(nil, e.From))...)
	b = append(b, TLV([]byte{0x5f, 0x24}, binary.BigEndian.AppendUint32(nil, e.To))...)
	return TLV([]byte{0x7f, 0x4e}, b)
}

// ECCert signs the content.
func ECCert(signer *ECKey, e ECContent) []byte {
	body := e.Body()
	r, s := signer.Sign(body)
	return TLV([]byte{0x7f, 0x21}, append(body, TLV([]byte{0x5f, 0x37}, append(r, s...))...))
}

// ECCertUnsigned carries filler instead of a signature.
func ECCertUnsigned(e ECContent, fill uint64) []byte {
	body := e.Body()
	sig := make([]byte, 2*e.Curve.Len)
	for i := range sig {
		sig[i] = byte(mix2(fill, uint64(i)))
	}
	return TLV([]byte{0x7f, 0x21}, append(body, TLV([]byte{0x5f, 0x37}, sig)...))
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func mix2(a, b uint64) uint64 { return mix(mix(a+0x9e3779b97f4a7c15) ^ (b * 0xff51afd7ed558ccd)) }
