// Package c28 checks the two-party signing protocols.
package c28

import (
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/toy"
)

const nonceFn = "github.com/keyfuse/tokucore/xcrypto/ecdsa.NonceRFC6979"

// pick one of the given numbers, or of all when thorough.
func pick(name string, n int, some ...int) int {
	if zz.Thorough() {
		return zz.Choose(name, 1, n-1)
	}
	return some[zz.Choose(name, 0, len(some)-1)]
}

func key(d int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes([]byte{byte(d)}) }

func number(hash []byte, n int) int {
	return int(hash[0]) >> uint(8-big.NewInt(int64(n)).BitLen())
}

func is(p *xcrypto.PubKey, t toy.Pt) bool {
	return p.X.Cmp(big.NewInt(int64(t[0]))) == 0 && p.Y.Cmp(big.NewInt(int64(t[1]))) == 0
}

func inverses(n int) []int {
	w := make([]int, 128)
	for i := 1; i < n; i++ {
		w[i] = toy.Inv(i, n)
	}
	return w
}

// valid: (r, s) is a signature of the number e by the key d.
func valid(c toy.Curve, t []toy.Pt, d, e, r, s int) bool {
	if r < 1 || r >= c.N || s < 1 || s >= c.N {
		return false
	}
	w := inverses(c.N)[s]
	j := (e%c.N*w + r*w%c.N*d) % c.N
	return j != 0 && t[j][0]%c.N == r
}

// ZZ_Ecdsa: both parties obtain the same valid signature of the shared key.
func ZZ_Ecdsa() {
	zz.Abstract(nonceFn)
	zz.Abstract("paillier")
	zz.Assumption("the nonces are some numbers of their range (C26); Paillier encryption is homomorphic (C29)")
	zz.MaxSteps(20000000)
	zz.Bound("every pair of nonces and hash of 32 bytes, for 4 pairs of keys (all thorough) on a small curve")
	c, _ := toy.Use(2)
	t := c.Table()
	d1, d2 := pick("key 1", c.N, 1, 5), pick("key 2", c.N, 2, 12)
	hash := zz.Bytes("~hash", 32)
	before := append([]byte(nil), hash...)
	k1, k2 := key(d1), key(d2)
	p1, p2 := xcrypto.NewEcdsaParty(k1), xcrypto.NewEcdsaParty(k2)
	pub, pubB := p1.Phase1(k2.PubKey()), p2.Phase1(k1.PubKey())
	d := d1 * d2 % c.N
	zz.Assert(is(pub, t[d]) && is(pubB, t[d]), "the shared key is the product of the keys")
	e1, n1, r1 := p1.Phase2(hash)
	e2, n2, r2 := p2.Phase2(hash)
	zz.Assert(n1.N.BitLen() > 1025 && n2.N.BitLen() > 1025, "plaintexts of the protocol do not wrap")
	a, b := p1.Phase3(r2), p2.Phase3(r1)
	zz.Assert(a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0, "the nonce point is shared")
	s1, err1 := p1.Phase4(e2, n2, a)
	s2, err2 := p2.Phase4(e1, n1, b)
	zz.Assert(err1 == nil && err2 == nil, "no error before the last phase")
	f1, err1 := p1.Phase5(a, s2)
	f2, err2 := p2.Phase5(b, s1)
	zz.Assert(zz.Eq(hash, before) && k1.D.Cmp(big.NewInt(int64(d1))) == 0 && k2.D.Cmp(big.NewInt(int64(d2))) == 0, "hash and keys are unchanged")
	zz.Assert((err1 == nil) == (err2 == nil), "both parties succeed or fail")
	e := number(hash, c.N)
	if err1 != nil {
		zz.Assert(f1 == nil && f2 == nil, "no signature with an error")
		if zz.Symbolic() {
			m := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k1.D, hash).Int64())
			n := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k2.D, hash).Int64())
			r := t[m*n%c.N][0] % c.N
			zz.Assert(r == 0 || (e+r*d)%c.N == 0, "a signature is refused only if r or s is zero")
		}
		zz.Reach("error")
		return
	}
	zz.Assert(zz.Eq(f1, f2), "both parties obtain the same signature")
	zz.Assert(len(f1) == 8 && zz.Eq(f1[:4], []byte{0x30, 6, 2, 1}) && zz.Eq(f1[5:7], []byte{2, 1}), "DER")
	r, s := int(f1[4]), int(f1[7])
	zz.Assert(s <= c.N/2, "s is low")
	zz.Assert(valid(c, t, d, e, r, s), "the signature is valid for the shared key")
	zz.Reach("signed")
	// a run leaves the parties ready for another one
	g, err := p1.Phase5(a, s2)
	zz.Assert(err == nil && zz.Eq(g, f1), "the last phase can be repeated")
	p1.Close()
	p2.Close()
	zz.Assert(k1.D.Cmp(big.NewInt(int64(d1))) == 0 && zz.Eq(g, f1), "closing leaves the key and the signature alone")
}

// ZZ_Hash: the leftmost bits of the hash are signed, whatever its length.
func ZZ_Hash() {
	zz.Abstract(nonceFn)
	zz.Abstract("paillier")
	zz.Assumption("the nonces are some numbers of their range (C26); Paillier encryption is homomorphic (C29)")
	zz.MaxSteps(20000000)
	zz.Bound("hashes of 1, 2, 32, 33, 48 and 64 bytes, 1s but for a first or last byte of 0, 2, 0x7f or 0xff (any value thorough), one pair of keys and two pairs of nonces (all thorough) on a small curve")
	c, _ := toy.Use(2)
	t := c.Table()
	hash := make([]byte, []int{1, 2, 32, 33, 48, 64}[zz.Choose("length", 0, 5)])
	for i := range hash {
		hash[i] = 1
	}
	place := []int{0, len(hash) - 1}[zz.Choose("place", 0, 1)]
	if zz.Thorough() {
		hash[place] = zz.U8("~value")
	} else {
		hash[place] = []byte{0, 2, 0x7f, 0xff}[zz.Choose("value", 0, 3)]
	}
	k1, k2 := key(5), key(2)
	if zz.Symbolic() && !zz.Thorough() {
		m := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k1.D, hash).Int64())
		n := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k2.D, hash).Int64())
		zz.Assume(m == 3 && (n == 2 || n == 7))
	}
	p1, p2 := xcrypto.NewEcdsaParty(k1), xcrypto.NewEcdsaParty(k2)
	p1.Phase1(k2.PubKey())
	p2.Phase1(k1.PubKey())
	e1, n1, r1 := p1.Phase2(hash)
	e2, n2, r2 := p2.Phase2(hash)
	a, b := p1.Phase3(r2), p2.Phase3(r1)
	s1, err1 := p1.Phase4(e2, n2, a)
	s2, err2 := p2.Phase4(e1, n1, b)
	zz.Assert(err1 == nil && err2 == nil, "no error before the last phase")
	f1, err1 := p1.Phase5(a, s2)
	f2, err2 := p2.Phase5(b, s1)
	zz.Assert((err1 == nil) == (err2 == nil), "both parties succeed or fail")
	if err1 == nil {
		zz.Assert(zz.Eq(f1, f2), "both parties obtain the same signature")
		zz.Assert(len(f1) == 8 && valid(c, t, 10, number(hash, c.N), int(f1[4]), int(f1[7])), "the signature is valid for the shared key")
		zz.Reach("signed")
	}
}

// ZZ_Scriptless: the adaptor signature completes and reveals the secret.
func ZZ_Scriptless() {
	zz.Abstract(nonceFn)
	zz.Abstract("paillier")
	zz.Assumption("the nonces are some numbers of their range (C26); Paillier encryption is homomorphic (C29)")
	zz.MaxSteps(20000000)
	zz.Bound("every pair of nonces and hash of 32 bytes, for 4 triples of keys and secret (all thorough) on a small curve")
	c, _ := toy.Use(2)
	t := c.Table()
	d1, d2, secret := pick("key 1", c.N, 1, 5), pick("key 2", c.N, 2, 12), pick("secret", c.N, 5)
	hash := zz.Bytes("~hash", 32)
	k1, k2 := key(d1), key(d2)
	sec := big.NewInt(int64(secret))
	alice, bob := xcrypto.NewEcdsaAlice(k1), xcrypto.NewEcdsaBob(k2, sec)
	pub, pubB := alice.ScriptlessPhase1(k2.PubKey()), bob.ScriptlessPhase1(k1.PubKey())
	d := d1 * d2 % c.N
	zz.Assert(is(pub, t[d]) && is(pubB, t[d]), "the shared key is the product of the keys")
	e1, n1, r1 := alice.ScriptlessPhase2(hash)
	e2, n2, r2 := bob.ScriptlessPhase2(hash)
	zz.Assert(n1.N.BitLen() > 1025 && n2.N.BitLen() > 1025, "plaintexts of the protocol do not wrap")
	a, b := alice.ScriptlessPhase3(r2), bob.ScriptlessPhase3(r1)
	zz.Assert(a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0, "the nonce point is shared")
	s1, err1 := alice.ScriptlessPhase4(e2, n2, a)
	s2, err2 := bob.ScriptlessPhase4(e1, n1, b)
	zz.Assert(err1 == nil && err2 == nil, "ciphertexts")
	f1, err1 := alice.ScriptlessPhase5(a, s2)
	f2, err2 := bob.ScriptlessPhase5(b, s1)
	zz.Assert(err1 == nil && err2 == nil, "partial signatures")
	der, err := bob.ScriptlessPhase6(b, f2)
	zz.Assert(k1.D.Cmp(big.NewInt(int64(d1))) == 0 && k2.D.Cmp(big.NewInt(int64(d2))) == 0 && sec.Cmp(big.NewInt(int64(secret))) == 0, "keys and secret are unchanged")
	e := number(hash, c.N)
	if err != nil {
		if zz.Symbolic() {
			m := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k1.D, hash).Int64())
			n := int(xecdsa.NonceRFC6979(big.NewInt(int64(c.N)), k2.D, hash).Int64())
			r := t[m*n%c.N*secret%c.N][0] % c.N
			zz.Assert(r == 0 || (e+r*d)%c.N == 0, "a signature is refused only if r or s is zero")
		}
		zz.Reach("error")
		return
	}
	zz.Assert(len(der) == 8 && zz.Eq(der[:4], []byte{0x30, 6, 2, 1}) && zz.Eq(der[5:7], []byte{2, 1}), "DER")
	zz.Assert(int(der[7]) <= c.N/2, "s is low")
	zz.Assert(valid(c, t, d, e, int(der[4]), int(der[7])), "the completed signature is valid for the shared key")
	zz.Assert(f1.Cmp(f2) != 0 || secret == 1, "the partial signature is not the signature")
	got := alice.ScriptlessPhase6(f1, f2)
	zz.Assert(got.Cmp(sec) == 0, "the signature reveals the secret")
	zz.Assert(int(der[7]) == int(f2.Int64()) || int(der[7]) == c.N-int(f2.Int64()), "the partial signature is unchanged")
	zz.Reach("signed")
}

// ZZ_Schnorr: both parties obtain the same valid signature of the shared key.
func ZZ_Schnorr() {
	zz.MaxSteps(20000000)
	zz.Bound("every message of 32 bytes (pair of nonces and challenge), for 2 pairs of keys (all thorough) on a small curve")
	c, _ := toy.Use(2)
	t := c.Table()
	d1, d2 := pick("key 1", c.N, 5), pick("key 2", c.N, 2, 11)
	msg := zz.Bytes("~message", 32)
	before := append([]byte(nil), msg...)
	k1, k2 := key(d1), key(d2)
	p1, err1 := xcrypto.NewSchnorrParty(k1)
	p2, err2 := xcrypto.NewSchnorrParty(k2)
	zz.Assert(err1 == nil && err2 == nil, "parties")
	pub, pubB := p1.Phase1(k2.PubKey()), p2.Phase1(k1.PubKey())
	d := (d1 + d2) % c.N
	if d == 0 {
		return // no shared key
	}
	zz.Assert(is(pub, t[d]) && is(pubB, t[d]), "the shared key is the sum of the keys")
	r1, r2 := p1.Phase2(msg), p2.Phase2(msg)
	if r1 == nil || r2 == nil {
		zz.Reach("zero nonce")
		return
	}
	a, b := p1.Phase3(r2), p2.Phase3(r1)
	zz.Assert(a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0, "the nonce point is shared")
	if a.X.Sign() == 0 && a.Y.Sign() == 0 {
		zz.Reach("opposite nonces")
		return
	}
	s1, err1 := p1.Phase4(pub, a)
	s2, err2 := p2.Phase4(pubB, b)
	zz.Assert(err1 == nil && err2 == nil, "partial signatures")
	f1, err1 := p1.Phase5(a, s1, s2)
	f2, err2 := p2.Phase5(b, s2, s1)
	zz.Assert(err1 == nil && err2 == nil, "signatures")
	zz.Assert(zz.Eq(msg, before) && k1.D.Cmp(big.NewInt(int64(d1))) == 0 && k2.D.Cmp(big.NewInt(int64(d2))) == 0, "message and keys are unchanged")
	zz.Assert(zz.Eq(f1, f2), "both parties obtain the same signature")
	zz.Assert(len(f1) == 64 && zz.Eq(f1[:32], a.X.FillBytes(make([]byte, 32))), "the first half is the abscissa of the shared nonce point")
	zz.Assert(xcrypto.SchnorrVerify(pub, msg, f1) == nil, "the signature is verified with the shared key")
	again, err := p1.Phase4(pub, a)
	zz.Assert(err == nil && zz.Eq(again, s1), "a phase can be repeated")
	zz.Reach("signed")
}
