// Package c26 checks the deterministic nonces of RFC 6979.
package c26

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto/ecdsa"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/toy"
)

func mac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// bits is the number of the leftmost bits of b.
func bits(b []byte, n int) *big.Int {
	v := new(big.Int).SetBytes(b)
	if 8*len(b) > n {
		v.Rsh(v, uint(8*len(b)-n))
	}
	return v
}

// candidates of RFC 6979 section 3.2, by its text.
type gen struct {
	q    *big.Int
	k, v []byte
}

func start(q, x *big.Int, hash []byte) *gen {
	n := q.BitLen()
	size := (n + 7) / 8
	z := bits(hash, n)
	z.Mod(z, q)
	seed := append(x.FillBytes(make([]byte, size)), z.FillBytes(make([]byte, size))...)
	k, v := make([]byte, 32), make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	k = mac(k, v, []byte{0}, seed)
	v = mac(k, v)
	k = mac(k, v, []byte{1}, seed)
	v = mac(k, v)
	return &gen{q, k, v}
}

func (g *gen) next() *big.Int {
	var t []byte
	n := g.q.BitLen()
	for 8*len(t) < n {
		g.v = mac(g.k, g.v)
		t = append(t, g.v...)
	}
	return bits(t, n)
}

func (g *gen) reject() {
	g.k = mac(g.k, g.v, []byte{0})
	g.v = mac(g.k, g.v)
}

func good(c, q *big.Int) bool { return zz.And(c.Sign() > 0, c.Cmp(q) < 0) }

func orders() *big.Int {
	real := new(big.Int).Set(toy.Real().Params().N)
	top := 2
	if zz.Thorough() {
		top = 6
	}
	b := zz.Choose("order", 0, top)
	if b == 0 {
		return real
	}
	n := []uint{5, 300, 13, 8, 9, 255}[b-1]
	// an odd number of that many bits
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(int64(2*(n%3)+1)))
}

func check(q *big.Int, hash []byte) {
	size := (q.BitLen() + 7) / 8
	xb := zz.Bytes("~key", size)
	x := new(big.Int).SetBytes(xb)
	zz.Assume(good(x, q))
	lead := 1
	if zz.Thorough() {
		lead = 3
	}
	if size > lead {
		nz := false
		for _, b := range xb[:lead] {
			nz = zz.Or(nz, b != 0)
		}
		zz.Assume(nz)
	}
	z := bits(hash, q.BitLen())
	z.Mod(z, q)
	if size > lead+1 && len(hash) >= size {
		zz.Assume(z.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(8*(size-lead)))) >= 0)
	}
	g := start(q, x, hash)
	rounds := 1
	if zz.Thorough() {
		rounds = 2
	}
	want := g.next()
	tries := zz.Choose("rejected", 0, rounds)
	for i := 0; i < tries; i++ {
		zz.Assume(!good(want, q))
		g.reject()
		want = g.next()
	}
	zz.Assume(good(want, q))
	before := append([]byte(nil), hash...)
	got := ecdsa.NonceRFC6979(q, x, hash)
	zz.Assert(got.Cmp(want) == 0, "the nonce of RFC 6979")
	zz.Assert(zz.Eq(hash, before), "the hash is unchanged")
	zz.Assert(zz.Eq(x.FillBytes(make([]byte, size)), xb), "the key is unchanged")
	zz.Reach("nonce")
}

// ZZ_Nonce: hashes of the usual length for all orders.
func ZZ_Nonce() {
	zz.Assumption("HMAC-SHA256 is an uninterpreted function")
	zz.Bound("the order of secp256k1 and orders of 5 and 300 bits (8, 9, 13 and 255 thorough); every hash of 32 bytes; keys and numbers of hashes with no leading zero byte (two thorough); up to 1 (2) candidates rejected")
	check(orders(), zz.Bytes("~hash", 32))
}

// ZZ_Length: hashes of other lengths for the real order.
func ZZ_Length() {
	zz.Assumption("HMAC-SHA256 is an uninterpreted function")
	zz.Bound("the order of secp256k1; every hash of 0, 1, 20, 31, 33, 48 and 64 bytes")
	n := []int{0, 1, 20, 31, 33, 48, 64}[zz.Choose("length", 0, 6)]
	h := zz.Bytes("~hash", n)
	if n > 0 {
		zz.Assume(h[0] != 0)
	}
	check(toy.Real().Params().N, h)
}
