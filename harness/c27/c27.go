// Package c27 checks Schnorr signatures.
package c27

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/toy"
)

func curve() (toy.Curve, []toy.Pt) {
	k := 2
	if zz.Thorough() {
		k = 2 - zz.Choose("curve", 0, 2)
	}
	c, _ := toy.Use(k)
	return c, c.Table()
}

// square tells for every multiple of G whether its ordinate is a nonzero square.
func square(c toy.Curve, t []toy.Pt) []bool {
	sq := make([]bool, c.P)
	for i := 1; i < c.P; i++ {
		sq[i*i%c.P] = true
	}
	out := make([]bool, len(t))
	for i, p := range t {
		out[i] = i > 0 && sq[p[1]]
	}
	return out
}

// hash is a number modulo n.
func hash(n int, parts ...[]byte) int {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	h := sha256.Sum256(b)
	v := new(big.Int).SetBytes(h[:])
	return int(v.Mod(v, big.NewInt(int64(n))).Int64())
}

func be32(v int) []byte {
	b := make([]byte, 32)
	b[31] = byte(v)
	return b
}

// point in the compressed encoding.
func point(p toy.Pt) []byte {
	return append([]byte{2 + byte(p[1]&1)}, be32(p[0])...)
}

// ZZ_Sign: signatures are those of the specification.
func ZZ_Sign() {
	zz.MaxSteps(20000000)
	zz.Bound("every private key and message of 32 bytes on 1 small curve (3 thorough)")
	c, t := curve()
	sq := square(c, t)
	d := zz.Choose("key", 1, c.N-1)
	k := xcrypto.PrvKeyFromBytes([]byte{byte(d)})
	msg := zz.Bytes("~message", 32)
	before := append([]byte(nil), msg...)
	sig, err := xcrypto.SchnorrSign(k, msg)
	zz.Assert(zz.Eq(msg, before) && k.D.Cmp(big.NewInt(int64(d))) == 0, "key and message are unchanged")
	n := hash(c.N, be32(d), msg)
	if err != nil {
		zz.Assert(n == 0 && sig == nil, "only a zero nonce is an error")
		zz.Reach("error")
		return
	}
	zz.Assert(n != 0, "a zero nonce is an error")
	zz.Assert(len(sig) == 64, "64 bytes")
	n = zz.Concrete(n)
	rx := be32(t[n][0])
	zz.Assert(zz.Eq(sig[:32], rx), "the first half is the abscissa of the nonce point")
	if !sq[n] {
		n = c.N - n
	}
	e := hash(c.N, rx, point(t[d]), msg)
	zz.Assert(zz.Eq(sig[32:], be32((n+e*d)%c.N)), "the second half is k + ed")
	zz.Reach("signed")
	again, err := xcrypto.SchnorrSign(k, msg)
	zz.Assert(err == nil && zz.Eq(again, sig), "signing is deterministic")
	zz.Assert(xcrypto.SchnorrVerify(k.PubKey(), msg, sig) == nil, "the signature is verified")
}

// ZZ_Verify: exactly the signatures of the specification are accepted.
func ZZ_Verify() {
	zz.MaxSteps(20000000)
	zz.Bound("every r and s below 128, message of 32 bytes and key on 1 small curve (3 thorough)")
	c, t := curve()
	sq := square(c, t)
	d := zz.Choose("key", 1, c.N-1)
	p := xcrypto.PrvKeyFromBytes([]byte{byte(d)}).PubKey()
	px, py := new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
	msg := zz.Bytes("~message", 32)
	r, s := zz.U8("r"), zz.U8("s")
	zz.Assume(r < 128 && s < 128)
	sig := append(be32(int(r)), be32(int(s))...)
	err := xcrypto.SchnorrVerify(p, msg, sig)
	zz.Assert(p.X.Cmp(px) == 0 && p.Y.Cmp(py) == 0, "the key is unchanged")
	ok := false
	if int(r) < c.P && int(s) < c.N {
		e := hash(c.N, be32(int(r)), point(t[d]), msg)
		j := (int(s) + e*(c.N-d)) % c.N
		ok = zz.And(sq[j], t[j][0] == int(r))
	}
	zz.Assert((err == nil) == ok, "exactly the valid signatures are accepted")
	zz.Assert(schnorr.Verify((*ecdsa.PublicKey)(p), msg, big.NewInt(int64(r)), big.NewInt(int64(s))) == ok, "by the numbers alike")
	if ok {
		zz.Reach("accepted")
	} else {
		zz.Reach("refused")
	}
}

// ZZ_Encoding: signatures are 64 bytes.
func ZZ_Encoding() {
	zz.Bound("every byte string of 0-70 bytes")
	toy.Real()
	in := zz.Bytes("signature", zz.Choose("length", 0, 70))
	sig := xcrypto.NewSignatureSchnorr()
	err := sig.Deserialize(in)
	if len(in) != 64 {
		zz.Assert(err != nil, "a signature of another size is refused")
		p := xcrypto.PrvKeyFromBytes([]byte{7}).PubKey()
		zz.Assert(xcrypto.SchnorrVerify(p, make([]byte, 32), in) != nil, "and never verified")
		zz.Reach("refused")
		return
	}
	zz.Assert(err == nil, "64 bytes are read")
	zz.Assert(sig.R.Cmp(new(big.Int).SetBytes(in[:32])) == 0 && sig.S.Cmp(new(big.Int).SetBytes(in[32:])) == 0, "as two numbers")
	out, err := sig.Serialize()
	zz.Assert(err == nil && zz.Eq(out, in), "and written back")
	zz.Reach("read")
}

// ZZ_Range: numbers outside the field and the order are refused on the real curve.
func ZZ_Range() {
	zz.Bound("every r of at least P and s of at least N of 32 bytes on secp256k1")
	v := toy.Real()
	p := xcrypto.PrvKeyFromBytes([]byte{9}).PubKey()
	msg := zz.Bytes("message", 32)
	r, s := zz.Bytes("r", 32), zz.Bytes("s", 32)
	if zz.Bool("r is large") {
		zz.Assume(new(big.Int).SetBytes(r).Cmp(v.Params().P) >= 0)
	} else {
		zz.Assume(new(big.Int).SetBytes(s).Cmp(v.Params().N) >= 0)
	}
	zz.Assert(xcrypto.SchnorrVerify(p, msg, append(r, s...)) != nil, "a number out of range is refused")
	zz.Reach("refused")
}

// ZZ_Challenge: the challenge on the real curve.
func ZZ_Challenge() {
	zz.Bound("every point of 32-byte coordinates, abscissa and message of 0-65 bytes")
	v := toy.Real()
	sizes := []int{0, 1, 31, 32, 33, 65}
	msg := zz.Bytes("message", sizes[zz.Choose("size", 0, 5)])
	px, py, r := zz.Bytes("px", 32), zz.Bytes("py", 32), zz.Bytes("r", 32)
	zz.Assume(px[0] != 0 && py[0] != 0)
	before := append([]byte(nil), r...)
	got := schnorr.GetE(v, msg, new(big.Int).SetBytes(px), new(big.Int).SetBytes(py), r)
	zz.Assert(zz.Eq(r, before), "the abscissa is unchanged")
	b := append(append(append([]byte(nil), before...), 2+py[31]&1), px...)
	h := sha256.Sum256(append(b, msg...))
	want := new(big.Int).SetBytes(h[:])
	want.Mod(want, v.Params().N)
	zz.Assert(got.Cmp(want) == 0, "the hash of abscissa, key and message modulo the order")
	d := zz.Bytes("d", 32)
	k0, err := schnorr.GetK0(msg, d, v.Params().N)
	h = sha256.Sum256(append(append([]byte(nil), d...), msg...))
	want.SetBytes(h[:])
	want.Mod(want, v.Params().N)
	if err == nil {
		zz.Assert(k0.Cmp(want) == 0, "the nonce is the hash of key and message modulo the order")
	} else {
		zz.Assert(want.Sign() == 0, "only a zero nonce is refused")
	}
	zz.Reach("challenge")
}

// ZZ_GetK: the nonce or its negation.
func ZZ_GetK() {
	zz.Bound("every ordinate and nonce on 6 small curves")
	c, v := toy.Use(zz.Choose("curve", 0, len(toy.Curves)-1))
	y := zz.IntIn("ordinate", 1, c.P-1)
	k := zz.IntIn("nonce", 1, c.N-1)
	k0 := big.NewInt(int64(k))
	got := schnorr.GetK(v, big.NewInt(int64(y)), k0)
	sq := make([]bool, 128)
	for i := 1; i < c.P; i++ {
		sq[i*i%c.P] = true
	}
	want := c.N - k
	if sq[y] {
		want = k
	}
	zz.Assert(got.Cmp(big.NewInt(int64(want))) == 0, "the nonce, or its negation if the ordinate is no square")
	zz.Assert(k0.Cmp(big.NewInt(int64(k))) == 0, "the nonce is unchanged")
	zz.Reach("k")
}
