// Package c25 checks ECDSA signatures.
package c25

import (
	"crypto/ecdsa"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/toy"
)

// curve is the smallest curve, or one of the three smallest.
func curve() toy.Curve {
	k := 2
	if zz.Thorough() {
		k = 2 - zz.Choose("curve", 0, 2)
	}
	c, _ := toy.Use(k)
	return c
}

// number is the leftmost bits of a hash.
func number(hash []byte, n int) int {
	bits := big.NewInt(int64(n)).BitLen()
	return int(hash[0]) >> uint(8-bits)
}

// valid: (r, s) is a signature of the hash by the key d on the curve.
func valid(c toy.Curve, xs []int, d, e, r, s int) bool {
	if r < 1 || r >= c.N || s < 1 || s >= c.N {
		return false
	}
	ws := make([]int, 128)
	for i := 1; i < c.N; i++ {
		ws[i] = toy.Inv(i, c.N)
	}
	w := ws[s]
	j := (e%c.N*w + r*w%c.N*d) % c.N
	return j != 0 && xs[j]%c.N == r
}

func abscissas(c toy.Curve) []int {
	xs := make([]int, c.N)
	for i, p := range c.Table() {
		xs[i] = p[0]
	}
	return xs
}

// ZZ_Sign: signatures are valid, low and deterministic.
func ZZ_Sign() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ecdsa.NonceRFC6979")
	zz.Assumption("the nonce is some number of its range (C26)")
	zz.MaxSteps(20000000)
	zz.Bound("every private key, nonce and hash of 32 bytes on 1 small curve (3 thorough)")
	c := curve()
	xs := abscissas(c)
	d := zz.Choose("key", 1, c.N-1)
	k := xcrypto.PrvKeyFromBytes([]byte{byte(d)})
	hash := zz.Bytes("~hash", 32)
	before := append([]byte(nil), hash...)
	sig, err := xcrypto.EcdsaSign(k, hash)
	zz.Assert(zz.Eq(hash, before) && k.D.Cmp(big.NewInt(int64(d))) == 0, "key and hash are unchanged")
	e := number(hash, c.N)
	if err != nil {
		zz.Assert(sig == nil, "no signature with an error")
		zz.Reach("error")
		// only a zero r or s is an error: the nonce that was used
		if zz.Symbolic() {
			n := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k.D, hash).Int64())
			r := xs[n] % c.N
			zz.Assert(r == 0 || (e+r*d)%c.N == 0, "a signature is refused only if r or s is zero")
		}
		return
	}
	zz.Assert(len(sig) == 8 && zz.Eq(sig[:4], []byte{0x30, 6, 2, 1}) && zz.Eq(sig[5:7], []byte{2, 1}), "DER")
	r, s := int(sig[4]), int(sig[7])
	zz.Assert(r > 0 && r < c.N, "r is in range")
	zz.Assert(s > 0 && s <= c.N/2, "s is low")
	zz.Assert(valid(c, xs, d, e, r, s), "the signature is valid")
	zz.Reach("signed")
	again, err := xcrypto.EcdsaSign(k, hash)
	zz.Assert(err == nil && zz.Eq(again, sig), "signing is deterministic")
	zz.Assert(xcrypto.EcdsaVerify(k.PubKey(), hash, sig) == nil, "the signature is verified")
}

// ZZ_Verify: exactly the valid signatures are accepted.
func ZZ_Verify() {
	zz.MaxSteps(20000000)
	zz.Assumption("crypto/ecdsa of the standard library verifies as in its textbook form")
	zz.Bound("every pair of r and s below 128 and hash of 32 bytes, for 3 keys (all thorough) on 1 small curve (3 thorough)")
	c := curve()
	xs := abscissas(c)
	keys := []int{1, 2, c.N - 3}
	d := 0
	if zz.Thorough() {
		d = zz.Choose("key", 1, c.N-1)
	} else {
		d = keys[zz.Choose("key", 0, 2)]
	}
	p := xcrypto.PrvKeyFromBytes([]byte{byte(d)}).PubKey()
	hash := zz.Bytes("hash", 32)
	r, s := zz.U8("r"), zz.U8("s")
	zz.Assume(r < 128 && s < 128)
	err := xcrypto.EcdsaVerify(p, hash, []byte{0x30, 6, 2, 1, r, 2, 1, s})
	ok := valid(c, xs, d, number(hash, c.N), int(r), int(s))
	zz.Assert((err == nil) == ok, "exactly the valid signatures are accepted")
	zz.Assert(xecdsa.Verify((*ecdsa.PublicKey)(p), hash, big.NewInt(int64(r)), big.NewInt(int64(s))) == ok, "by the numbers alike")
	if ok {
		zz.Reach("accepted")
	} else {
		zz.Reach("refused")
	}
}

// ZZ_Number: the number of a hash is its leftmost bits.
func ZZ_Number() {
	zz.Bound("every hash of 0-40 bytes; the order of secp256k1 and orders of 4, 5, 7, 9, 12 and 255 bits")
	orders := []uint{0, 4, 5, 7, 9, 12, 255}
	bits := orders[zz.Choose("order", 0, len(orders)-1)]
	c := toy.Real()
	if bits > 0 {
		c.Params().N = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	} else {
		bits = 256
	}
	n := zz.Choose("length", 0, 40)
	hash := zz.Bytes("hash", n)
	before := append([]byte(nil), hash...)
	got := xecdsa.HashToInt(c, hash)
	want := new(big.Int)
	if uint(8*n) > bits {
		want.Rsh(want.SetBytes(hash), uint(8*n)-bits)
	} else {
		want.SetBytes(hash)
	}
	zz.Assert(got.Cmp(want) == 0, "the leftmost bits of the hash")
	zz.Assert(zz.Eq(hash, before), "the hash is unchanged")
	zz.Reach("number")
}

// ZZ_DER: numbers of the real size in DER.
func ZZ_DER() {
	zz.Bound("r and s of 1, 2, 31 and 32 significant bytes, all values")
	lens := []int{1, 2, 31, 32}
	num := func(name string) ([]byte, []byte) {
		b := zz.Bytes(name, lens[zz.Choose(name+" length", 0, 3)])
		zz.Assume(b[0] != 0)
		if b[0] >= 0x80 {
			return b, append([]byte{0}, b...)
		}
		return b, b
	}
	r, rd := num("r")
	s, sd := num("s")
	want := append([]byte{0x30, byte(4 + len(rd) + len(sd)), 2, byte(len(rd))}, rd...)
	want = append(append(want, 2, byte(len(sd))), sd...)
	sig := &xcrypto.SignatureEcdsa{R: new(big.Int).SetBytes(r), S: new(big.Int).SetBytes(s)}
	got, err := sig.Serialize()
	zz.Assert(err == nil && zz.Eq(got, want), "two integers in DER")
	back := xcrypto.NewSignatureEcdsa()
	zz.Assert(back.Deserialize(want) == nil, "a signature is read back")
	zz.Assert(back.R.Cmp(sig.R) == 0 && back.S.Cmp(sig.S) == 0, "with its numbers")
	zz.Reach("der")
}

// ZZ_Strict: a signature has only one encoding.
func ZZ_Strict() {
	top := 9
	if zz.Thorough() {
		top = 12
	}
	zz.Assumption("encoding/asn1 reads sequences of integers as modelled; lengths of more than 127 are outside the model")
	zz.Bound("every byte string of 0-9 bytes (12 thorough)")
	in := zz.Bytes("signature", zz.Choose("length", 0, top))
	if len(in) > 1 {
		zz.Assume(in[1] < 0x80)
	}
	if len(in) > 4 {
		zz.Assume(in[4] < 0x80) // negative numbers are outside the model of writing
		if len(in) > 7 {
			k := int(in[3])
			for i := 1; i < len(in)-6; i++ {
				if k == i {
					zz.Assume(in[6+k] < 0x80)
				}
			}
		}
	}
	sig := xcrypto.NewSignatureEcdsa()
	if sig.Deserialize(in) != nil {
		zz.Reach("refused")
		return
	}
	out, err := sig.Serialize()
	zz.Assert(err == nil && zz.Eq(out, in), "a signature that is read is the encoding of its numbers")
	zz.Reach("read")
}
