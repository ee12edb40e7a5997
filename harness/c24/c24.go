// Package c24 checks the encodings of public and private keys.
package c24

import (
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/toy"
)

func curves() int {
	if zz.Thorough() {
		return len(toy.Curves) - 1
	}
	return 2
}

func tables(c toy.Curve) (xs, ys []uint8) {
	xs, ys = make([]uint8, 128), make([]uint8, 128)
	for i, p := range c.Table() {
		xs[i], ys[i] = uint8(p[0]), uint8(p[1])
	}
	return
}

func all(cs ...bool) bool {
	r := true
	for _, c := range cs {
		r = zz.And(r, c)
	}
	return r
}

func field(v uint8) []byte { return append(make([]byte, 31), v) }

func same(k *xcrypto.PubKey, err error, x, y uint8) bool {
	return err == nil && k.X.Cmp(big.NewInt(int64(x))) == 0 && k.Y.Cmp(big.NewInt(int64(y))) == 0
}

// ZZ_Roundtrip: a public key in its three encodings.
func ZZ_Roundtrip() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Bound("every point but infinity of 3 small curves (6 thorough), in fields of 32 bytes")
	c, _ := toy.Use(zz.Choose("curve", 0, curves()))
	xs, ys := tables(c)
	i := zz.U8("point")
	zz.Assume(i > 0 && int(i) < c.N)
	x, y := xs[i], ys[i]
	k := &xcrypto.PubKey{Curve: secp256k1.SECP256K1(), X: big.NewInt(int64(x)), Y: big.NewInt(int64(y))}
	comp := append([]byte{2 + y&1}, field(x)...)
	full := append(append([]byte{4}, field(x)...), field(y)...)
	hyb := append(append([]byte{6 + y&1}, field(x)...), field(y)...)
	zz.Assert(zz.Eq(k.SerializeCompressed(), comp), "the compressed encoding")
	zz.Assert(zz.Eq(k.Serialize(), comp), "the encoding is the compressed one")
	zz.Assert(zz.Eq(k.SerializeUncompressed(), full), "the uncompressed encoding")
	zz.Assert(zz.Eq(k.SerializeHybrid(), hyb), "the hybrid encoding")
	zz.Assert(zz.Eq(k.Hash160(), xcrypto.Hash160(comp)), "the hash of the compressed encoding")
	var in []byte
	switch zz.Choose("form", 0, 2) {
	case 0:
		in = comp
	case 1:
		in = full
	case 2:
		in = hyb
	}
	g, err := xcrypto.PubKeyFromBytes(in)
	zz.Assert(same(g, err, x, y), "an encoded key is read back")
	zz.Reach("roundtrip")
}

// ZZ_Compressed: every short abscissa in the compressed form.
func ZZ_Compressed() {
	zz.Bound("every first byte and abscissas below 256, and some with a high byte set; 3 small curves (6 thorough)")
	c, _ := toy.Use(zz.Choose("curve", 0, curves()))
	p := int(c.P)
	first, x := zz.U8("form"), zz.U8("abscissa")
	in := append([]byte{first}, field(x)...)
	hi := []int{0, 1, 16, 31}[zz.Choose("high byte", 0, 3)]
	if hi > 0 {
		in[hi] = 1
	}
	g, err := xcrypto.PubKeyFromBytes(in)
	// whether there is a point
	squares := make([]bool, 128)
	roots := make([]uint8, 256) // even root
	for y := 0; y < p; y++ {
		squares[y*y%p] = true
		if y%2 == 0 {
			roots[y*y%p] = uint8(y)
		}
	}
	if hi > 0 || int(x) >= p || first != 2 && first != 3 {
		zz.Assert(err != nil && g == nil, "a wrong form or an abscissa out of the field is refused")
		zz.Reach("form")
		return
	}
	v := (int(x)*int(x)*int(x) + c.B) % p
	if !squares[v] {
		zz.Assert(err != nil && g == nil, "an abscissa without a point is refused")
		zz.Reach("no point")
		return
	}
	y := roots[v]
	if first == 3 {
		y = uint8(p) - y
	}
	zz.Assert(same(g, err, x, y), "the point of that abscissa and oddness")
	zz.Reach("point")
}

// ZZ_Uncompressed: both coordinates given.
func ZZ_Uncompressed() {
	zz.Bound("every first byte and coordinates below 256, and some with a high byte set; 3 small curves (6 thorough)")
	c, _ := toy.Use(zz.Choose("curve", 0, curves()))
	p := int(c.P)
	first, x, y := zz.U8("form"), zz.U8("x"), zz.U8("y")
	in := append(append([]byte{first}, field(x)...), field(y)...)
	hi := []int{0, 1, 31, 33, 63}[zz.Choose("high byte", 0, 4)]
	if hi > 0 {
		in[hi] = 1
	}
	g, err := xcrypto.PubKeyFromBytes(in)
	ok := zz.Or(first == 4, first == 6+y&1)
	ok = all(ok, hi == 0, int(x) < p, int(y) < p, (int(y)*int(y))%p == (int(x)*int(x)*int(x)+c.B)%p)
	if err != nil {
		zz.Assert(!ok, "a point of the curve is read")
		zz.Assert(g == nil, "no key with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(ok, "only points of the curve in their right form are read")
	zz.Assert(same(g, nil, x, y), "with their coordinates")
	zz.Reach("read")
}

// ZZ_Range: coordinates of the real field.
func ZZ_Range() {
	zz.Bound("every 65-byte key with a coordinate of P or more; every first byte but 4, 6, 7")
	s := toy.Real()
	P := s.Params().P
	in := append([]byte{zz.U8("form")}, zz.Bytes("coordinates", 64)...)
	x, y := new(big.Int).SetBytes(in[1:33]), new(big.Int).SetBytes(in[33:])
	bad := zz.Or(all(in[0] != 4, in[0] != 6, in[0] != 7), zz.Or(x.Cmp(P) >= 0, y.Cmp(P) >= 0))
	zz.Assume(bad)
	_, err := xcrypto.PubKeyFromBytes(in)
	zz.Assert(err != nil, "refused")
	zz.Reach("range")
}

// ZZ_Length: keys of any other length.
func ZZ_Length() {
	zz.Bound("0-70 bytes, any")
	n := zz.Choose("length", 0, 70)
	zz.Assume(n != 33 && n != 65)
	g, err := xcrypto.PubKeyFromBytes(zz.Bytes("key", n))
	zz.Assert(err != nil && g == nil, "a key of another length is refused")
	zz.Reach("length")
}

// ZZ_Real: the base point at its real size.
func ZZ_Real() {
	s := toy.Real()
	p := s.Params()
	ks := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(5), new(big.Int).Sub(p.N, big.NewInt(3))}
	k := xcrypto.PrvKeyFromBytes(ks[zz.Choose("key", 0, 3)].Bytes()).PubKey()
	x, y := make([]byte, 32), make([]byte, 32)
	k.X.FillBytes(x)
	k.Y.FillBytes(y)
	zz.Assert(zz.Eq(k.SerializeUncompressed(), append(append([]byte{4}, x...), y...)), "the uncompressed encoding")
	for _, in := range [][]byte{k.SerializeCompressed(), k.SerializeUncompressed(), k.SerializeHybrid()} {
		g, err := xcrypto.PubKeyFromBytes(in)
		zz.Assert(err == nil && g.X.Cmp(k.X) == 0 && g.Y.Cmp(k.Y) == 0, "an encoded key is read back")
		bad := append([]byte(nil), in...)
		bad[len(bad)-1] ^= byte(1 << uint(zz.Choose("bit", 0, 1)))
		if len(bad) == 65 {
			_, err = xcrypto.PubKeyFromBytes(bad)
			zz.Assert(err != nil, "a changed ordinate is refused")
		}
	}
	zz.Reach("real")
}

// ZZ_Private: private keys.
func ZZ_Private() {
	zz.Abstract("group")
	zz.Assumption("the points of secp256k1 are an ideal group (C23)")
	zz.Bound("every private key of 32 bytes with at most one leading zero byte (three thorough) and shorter ones of 1, 2, 31 bytes; every addend of 32 bytes for which the sum has no leading zero byte (two thorough)")
	n := []int{32, 1, 2, 31}[zz.Choose("length", 0, 3)]
	raw := zz.Bytes("key", n)
	z := 2
	if zz.Thorough() {
		z = 4
	}
	if n > z {
		nz := false
		for _, b := range raw[:z] {
			nz = zz.Or(nz, b != 0)
		}
		zz.Assume(nz)
	}
	N := secp256k1.SECP256K1().Params().N
	d := new(big.Int).SetBytes(raw)
	zz.Assume(zz.And(d.Sign() > 0, d.Cmp(N) < 0))
	k := xcrypto.PrvKeyFromBytes(raw)
	zz.Assert(k.D.Cmp(d) == 0, "the number of the bytes")
	want := make([]byte, 32)
	copy(want[32-n:], raw)
	zz.Assert(zz.Eq(k.Serialize(), want), "32 bytes, most significant first")
	x, y := secp256k1.SECP256K1().ScalarBaseMult(raw)
	p := k.PubKey()
	zz.Assert(p.X.Cmp(x) == 0 && p.Y.Cmp(y) == 0, "the public key is that multiple of the base point")
	add := zz.Bytes("addend", 32)
	zz.Assume(add[0] != 0)
	s := new(big.Int).Add(d, new(big.Int).SetBytes(add))
	s.Mod(s, N)
	zz.Assume(s.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(8*(34-z)-8))) >= 0)
	sum := k.Add(add)
	zz.Assert(sum.D.Cmp(s) == 0, "the sum modulo the order")
	zz.Assert(k.D.Cmp(d) == 0, "the key added to is unchanged")
	zz.Reach("private")
}

// ZZ_Sum: the public key of a sum is the sum of the public keys.
func ZZ_Sum() {
	zz.Bound("every pair of private keys of a small curve (3 thorough)")
	top := 0
	if zz.Thorough() {
		top = 2
	}
	c, _ := toy.Use(zz.Choose("curve", 0, top))
	a, b := zz.IntIn("a", 1, c.N-1), zz.IntIn("b", 1, c.N-1)
	ka, kb := xcrypto.PrvKeyFromBytes([]byte{byte(a)}), xcrypto.PrvKeyFromBytes([]byte{byte(b)})
	s := ka.Add([]byte{byte(b)})
	p := ka.PubKey().Add(kb.PubKey())
	zz.Assert(s.D.Cmp(big.NewInt(int64((a+b)%c.N))) == 0, "the sum of the private keys")
	zz.Assert(p.X.Cmp(s.X) == 0 && p.Y.Cmp(s.Y) == 0, "and of the public keys")
	zz.Reach("sum")
}
