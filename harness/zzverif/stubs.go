package zzverif

import (
	"crypto/rand"
	"errors"
	"hash"
	"io"
	"math/big"
	"sync"

	cecdsa "crypto/ecdsa"
	"crypto/elliptic"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

// The functions below replace library code inside the symbolic engine only.

func ufDigest(name string, in []byte) []byte      { panic("engine only") }
func ufHmac(name string, key, data []byte) []byte { panic("engine only") }
func randBytes(n int) []byte                      { panic("engine only") }
func onceDone(o *sync.Once) bool                  { panic("engine only") }
func structBigs(v any) []*big.Int                 { panic("engine only") }
func setStructBigs(v any, f []*big.Int)           { panic("engine only") }
func structLen(v any) int                         { panic("engine only") }

type digest struct {
	name        string
	size, block int
	buf         []byte
}

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, ufDigest(d.name, d.buf)...) }
func (d *digest) Reset()                      { d.buf = nil }
func (d *digest) Size() int                   { return d.size }
func (d *digest) BlockSize() int              { return d.block }

func newSha256() hash.Hash         { return &digest{name: "sha256", size: 32, block: 64} }
func newSha512() hash.Hash         { return &digest{name: "sha512", size: 64, block: 128} }
func newSha1() hash.Hash           { return &digest{name: "sha1", size: 20, block: 64} }
func newRipemd160() hash.Hash      { return &digest{name: "ripemd160", size: 20, block: 64} }
func ripemd160Sum(b []byte) []byte { return ufDigest("ripemd160", b) }

type mac struct {
	name        string
	size, block int
	key, buf    []byte
}

func (d *mac) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *mac) Sum(b []byte) []byte         { return append(b, ufHmac(d.name, d.key, d.buf)...) }
func (d *mac) Reset()                      { d.buf = nil }
func (d *mac) Size() int                   { return d.size }
func (d *mac) BlockSize() int              { return d.block }

func newHmac(h func() hash.Hash, key []byte) hash.Hash {
	d := h().(*digest)
	return &mac{name: d.name, size: d.size, block: d.block, key: append([]byte{}, key...)}
}

func randRead(b []byte) (int, error) {
	copy(b, randBytes(len(b)))
	return len(b), nil
}

// cryptoRandRead reads from the reader of a harness, if there is one.
func cryptoRandRead(b []byte) (int, error) {
	if rand.Reader != nil {
		return io.ReadFull(rand.Reader, b)
	}
	return randRead(b)
}

// randInt follows crypto/rand.Int.
func randInt(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := new(big.Int)
	n.Sub(max, n.SetUint64(1))
	bitLen := n.BitLen()
	if bitLen == 0 {
		return n, nil
	}
	k := (bitLen + 7) / 8
	b := uint(bitLen % 8)
	if b == 0 {
		b = 8
	}
	bytes := make([]byte, k)
	if p, ok := r.(interface{ Plan() []byte }); ok { // a reader of a harness
		copy(bytes, p.Plan())
	} else {
		copy(bytes, randBytes(k))
	}
	bytes[0] &= uint8(int(1<<b) - 1)
	n = new(big.Int).SetBytes(bytes)
	Assume(n.Cmp(max) < 0)
	return n, nil
}

// randPrime gives the primes of 5 and 6 bits in turn.
func randPrime(r io.Reader, bits int) (*big.Int, error) {
	if bits != 5 && bits != 6 {
		panic("rand.Prime is not modelled")
	}
	primes++
	if bits == 5 {
		return big.NewInt(int64([]int{29, 31}[primes&1])), nil
	}
	return big.NewInt(int64([]int{61, 53}[primes&1])), nil
}

var primes int

func onceDo(o *sync.Once, f func()) {
	if !onceDone(o) {
		f()
	}
}

func bytesEqual(a, b []byte) bool { return Eq(a, b) }

func curveParamsParams(c *elliptic.CurveParams) *elliptic.CurveParams { return c }

// derInt is the DER encoding of a non-negative or negative INTEGER of small size.
func derInt(v *big.Int) []byte {
	if v.Sign() < 0 {
		panic("negative DER integers are not modelled")
	}
	b := v.Bytes()
	if len(b) == 0 || b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

func asn1Marshal(v any) ([]byte, error) {
	var body []byte
	for _, x := range structBigs(v) {
		if x == nil {
			return nil, errors.New("asn1: structure error")
		}
		body = append(body, derInt(x)...)
	}
	if len(body) > 127 {
		panic("long DER body is not modelled")
	}
	return append([]byte{0x30, byte(len(body))}, body...), nil
}

var errDER = errors.New("asn1: structure error")

// asn1Unmarshal follows encoding/asn1 for a SEQUENCE of INTEGERs with short lengths.
func asn1Unmarshal(b []byte, v any) ([]byte, error) {
	n := structLen(v)
	if len(b) < 2 || b[0] != 0x30 || b[1] >= 0x80 {
		if len(b) >= 2 && b[0] == 0x30 && b[1] >= 0x80 {
			Assume(false) // long-form lengths are outside the model
		}
		return nil, errDER
	}
	l := int(b[1])
	if l > len(b)-2 {
		return nil, errDER
	}
	l = Concrete(l)
	body := b[2 : 2+l]
	rest := b[2+l:]
	var out []*big.Int
	for i := 0; i < n; i++ {
		if len(body) < 2 || body[0] != 2 {
			return nil, errDER
		}
		k := int(body[1])
		if k >= 0x80 || k > len(body)-2 || k == 0 {
			return nil, errDER
		}
		k = Concrete(k)
		x := body[2 : 2+k]
		body = body[2+k:]
		if k > 1 && (x[0] == 0 && x[1]&0x80 == 0 || x[0] == 0xff && x[1]&0x80 != 0) {
			return nil, errDER
		}
		z := new(big.Int).SetBytes(x)
		if x[0]&0x80 != 0 {
			z.Sub(z, new(big.Int).Lsh(big.NewInt(1), uint(8*k)))
		}
		out = append(out, z)
	}
	// like encoding/asn1, trailing bytes inside the SEQUENCE are ignored
	setStructBigs(v, out)
	return rest, nil
}

// ecdsaVerify is the textbook verification over the curve of the key, using the curve's own methods.
func ecdsaVerify(pub *cecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
	c := pub.Curve
	N := c.Params().N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	orderBits := N.BitLen()
	ob := (orderBits + 7) / 8
	if len(hash) > ob {
		hash = hash[:ob]
	}
	e := new(big.Int).SetBytes(hash)
	if ex := len(hash)*8 - orderBits; ex > 0 {
		e.Rsh(e, uint(ex))
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, N)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, N)
	x1, y1 := c.ScalarBaseMult(u1.Bytes())
	x2, y2 := c.ScalarMult(pub.X, pub.Y, u2.Bytes())
	x, y := c.Add(x1, y1, x2, y2)
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}
	x.Mod(x, N)
	return x.Cmp(r) == 0
}

// Ideal ECDSA (zz.Abstract): the signature of a hash by a key is a value only that key gives for that hash.
func ecdsaSignIdeal(prv *xcrypto.PrvKey, hash []byte) ([]byte, error) {
	return idealSig(prv.PubKey(), hash), nil
}

func idealSig(pub *xcrypto.PubKey, hash []byte) []byte {
	d := ufDigest("signature", append(pub.SerializeCompressed(), hash...))
	s := append([]byte{0x30, 68, 2, 32}, d...)
	s = append(s, 2, 32)
	return append(s, make([]byte, 32)...)
}

func ecdsaVerifyIdeal(pub *xcrypto.PubKey, hash, sign []byte) error {
	if !Eq(sign, idealSig(pub, hash)) {
		return errors.New("ecdsa.signature.verify.failed")
	}
	return nil
}

// Ideal Base58Check (zz.Abstract): a string is the encoding of exactly one version and payload. Strings that are not
// made by the encoder are refused.
var base58Made []base58Item

type base58Item struct {
	s string
	p []byte
	v byte
}

func base58CheckEncodeIdeal(p []byte, v byte) string {
	s := "zz2" + string(ufDigest("base58", append([]byte{v}, p...)))
	base58Made = append(base58Made, base58Item{s, append([]byte{}, p...), v})
	return s
}

func base58CheckDecodeIdeal(s string) ([]byte, byte, error) {
	for _, x := range base58Made {
		if EqStr(s, x.s) {
			return append([]byte{}, x.p...), x.v, nil
		}
	}
	return nil, 0, xbase.ErrBase58Checksum
}

// Ideal group (zz.Abstract): the point of a scalar is a value of its own, adding points adds their scalars. No two
// scalars in play are negatives of each other, and none is zero unless it is the constant.
func groupPoint(k *big.Int) (*big.Int, *big.Int) {
	if k.Sign() == 0 {
		return new(big.Int), new(big.Int)
	}
	b := k.FillBytes(make([]byte, 32))
	x := append([]byte{1}, ufDigest("pointx", b)...)
	y := append([]byte{1}, ufDigest("pointy", b)...)
	return new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)
}

func groupN() *big.Int { return secp256k1.SECP256K1().Params().N }

func groupLog(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return new(big.Int)
	}
	b := ufInput("pointx", x.FillBytes(make([]byte, 32))[1:])
	if b == nil {
		return nil
	}
	return new(big.Int).SetBytes(b)
}

func groupBaseMult(c *elliptic.CurveParams, k []byte) (*big.Int, *big.Int) {
	n := new(big.Int).SetBytes(k)
	return groupPoint(n.Mod(n, groupN()))
}

func groupMult(c *elliptic.CurveParams, x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	d := groupLog(x)
	if d == nil {
		panic("a point of unknown scalar is not modelled")
	}
	n := new(big.Int).SetBytes(k)
	return groupPoint(n.Mod(n.Mul(n, d), groupN()))
}

func groupAdd(c *elliptic.CurveParams, x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	d1, d2 := groupLog(x1), groupLog(x2)
	if d1 == nil || d2 == nil {
		panic("a point of unknown scalar is not modelled")
	}
	n := new(big.Int).Add(d1, d2)
	return groupPoint(n.Mod(n, groupN()))
}

func groupOn(c *elliptic.CurveParams, x, y *big.Int) bool {
	d := groupLog(x)
	if d == nil || x.Sign() == 0 {
		return false
	}
	_, y2 := groupPoint(d)
	return y.Cmp(y2) == 0
}

func groupUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
	if data[0]&^1 != 2 {
		return nil, nil
	}
	x := new(big.Int).SetBytes(data[1:])
	d := groupLog(x)
	if d == nil {
		return nil, nil
	}
	_, y := groupPoint(d)
	if y.Bit(0) != uint(data[0]&1) {
		y = new(big.Int).Sub(curve.Params().P, y)
	}
	return x, y
}

// Ideal Base58 (zz.Abstract): a string is the encoding of exactly one byte string.
var base58Raw []base58Item

func base58EncodeIdeal(p []byte) string {
	in := append([]byte{0}, p...)
	if n := len(p); n > 4 && Eq(p[n-4:], xcrypto.DoubleSha256(p[:n-4])[:4]) {
		// a checked string: what the checksum is made from determines it
		in = append([]byte{1}, p[:n-4]...)
	}
	s := "zz3" + string(ufDigest("base58raw", in))
	base58Raw = append(base58Raw, base58Item{s, append([]byte{}, p...), 0})
	return s
}

func base58DecodeIdeal(s string) []byte {
	for _, x := range base58Raw {
		if EqStr(s, x.s) {
			return append([]byte{}, x.p...)
		}
	}
	return nil
}

// Ideal nonce (zz.Abstract): a number of the range that depends on the key and the hash in an unknown way.
func nonceIdeal(q, x *big.Int, hash []byte) *big.Int {
	d := ufDigest("nonce", append(x.FillBytes(make([]byte, 32)), hash...))
	k := new(big.Int).SetBytes(d[:(q.BitLen()+7)/8])
	Assume(k.Sign() > 0)
	Assume(k.Cmp(q) < 0)
	if q.BitLen() < 8 {
		return big.NewInt(int64(Concrete(int(k.Int64()))))
	}
	return k
}

// Ideal Paillier encryption (zz.Abstract("paillier")): the ciphertext of m is m + 1 and plaintexts never wrap;
// a harness checks that the real modulus is large enough.
func paillierKeys(bits int) (*paillier.PubKey, *paillier.PrvKey, error) {
	n := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	n.Sub(n, big.NewInt(1))
	return &paillier.PubKey{N: n, NN: new(big.Int).Mul(n, n), G: new(big.Int).Add(n, big.NewInt(1))}, &paillier.PrvKey{}, nil
}

func paillierEncrypt(pk *paillier.PubKey, m *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 {
		return nil, errors.New("plaintext.invalid")
	}
	return new(big.Int).Add(m, big.NewInt(1)), nil
}

func paillierPlain(ct *big.Int) (*big.Int, error) {
	if ct == nil || ct.Sign() <= 0 {
		return nil, errors.New("input.invalid")
	}
	return new(big.Int).Sub(ct, big.NewInt(1)), nil
}

func paillierDecrypt(sk *paillier.PrvKey, ct *big.Int) (*big.Int, error) { return paillierPlain(ct) }

func paillierMul(pk *paillier.PubKey, ct, m *big.Int) (*big.Int, error) {
	p, err := paillierPlain(ct)
	if err != nil {
		return nil, err
	}
	return p.Mul(p, m).Add(p, big.NewInt(1)), nil
}

func paillierAddPlain(pk *paillier.PubKey, ct, m *big.Int) (*big.Int, error) {
	p, err := paillierPlain(ct)
	if err != nil {
		return nil, err
	}
	return p.Add(p, m).Add(p, big.NewInt(1)), nil
}

func paillierAdd(pk *paillier.PubKey, a, b *big.Int) (*big.Int, error) {
	p, err := paillierPlain(a)
	if err != nil {
		return nil, err
	}
	q, err := paillierPlain(b)
	if err != nil {
		return nil, err
	}
	return p.Add(p, q).Add(p, big.NewInt(1)), nil
}

func ufInput(name string, b []byte) []byte { panic("engine only") }

func enterTask()       { panic("engine only") }
func leaveTask(n bool) { panic("engine only") }

// tryRun runs f, and tells whether it could run without waiting for a lock.
func tryRun(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(string); is && r.(string) == "zz: would block" {
				leaveTask(true)
				return
			}
			panic(r)
		}
	}()
	enterTask()
	f()
	leaveTask(false)
	return true
}
