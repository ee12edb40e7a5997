// Package c29 checks Paillier encryption.
package c29

import (
	"crypto/rand"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto/paillier"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// plan is a source of randomness with known numbers.
type plan struct {
	nums []int
	i    int
}

func (p *plan) Plan() []byte {
	v := p.nums[p.i]
	if p.i+1 < len(p.nums) {
		p.i++
	}
	return []byte{byte(v >> 8), byte(v)}
}

func (p *plan) Read(b []byte) (int, error) {
	if len(b) == 1 {
		b[0] = 0
		return 1, nil
	}
	return copy(b, p.Plan()), nil
}

// noise is a source of randomness for the primes.
type noise struct{ s uint32 }

func (n *noise) Read(b []byte) (int, error) {
	for i := range b {
		n.s = n.s*1664525 + 1013904223
		b[i] = byte(n.s >> 24)
	}
	return len(b), nil
}

// keys of the primes 29 and 31, or 53 and 61.
func keys() (*paillier.PubKey, *paillier.PrvKey, int64) {
	bits, n := 10, int64(899)
	if zz.Thorough() && zz.Choose("size", 0, 1) == 1 {
		bits, n = 12, 53*61
	}
	zz.Assumption("the two primes of a key differ")
	rand.Reader = &noise{}
	for {
		pk, sk, err := paillier.GenerateKeyPair(bits)
		zz.Assert(err == nil, "key generation")
		zz.Assert(pk.N.BitLen() <= bits, "the modulus has at most the size asked for")
		if pk.N.Cmp(big.NewInt(n)) == 0 {
			zz.Assert(pk.NN.Cmp(big.NewInt(n*n)) == 0 && pk.G.Cmp(big.NewInt(n+1)) == 0, "public key")
			return pk, sk, n
		}
	}
}

// random numbers to encrypt with: zero and multiples of the primes are skipped.
func random(name string, n int64) {
	some := []int{1, 2, 0, 29, 31, 62, 7, 53, 61, 898, 500, 451}
	v := 0
	if zz.Thorough() {
		v = zz.Choose(name, 0, int(n)-1)
	} else {
		v = some[zz.Choose(name, 0, len(some)-1)]
	}
	rand.Reader = &plan{nums: []int{v, 0, 31, 53, 62, 61, 29, 3}}
}

func num(name string, n int64) (*big.Int, int64) {
	mask := uint16(0x3ff)
	if n > 1024 {
		mask = 0xfff
	}
	v := int64(zz.U16(name) & mask)
	zz.Assume(v < n)
	return big.NewInt(v), v
}

func is(v *big.Int, want int64) bool { return v.Cmp(big.NewInt(want)) == 0 }

// ZZ_Encrypt: what is encrypted is decrypted.
func ZZ_Encrypt() {
	zz.Bound("every plaintext with 12 random numbers (all thorough) and one key (2 thorough), primes of 5 bits (6 thorough)")
	pk, sk, n := keys()
	random("r", n)
	m, v := num("message", n)
	ct, err := pk.Encrypt(m)
	zz.Assert(err == nil, "every number below the modulus is encrypted")
	zz.Assert(is(m, v), "the message is unchanged")
	zz.Assert(ct.Sign() > 0 && ct.Cmp(pk.NN) < 0, "the ciphertext is a number modulo the square")
	got, err := sk.Decrypt(ct)
	zz.Assert(err == nil && is(got, v), "and decrypted")
	again, err := sk.Decrypt(ct)
	zz.Assert(err == nil && is(again, v), "any number of times")
	zz.Reach("decrypted")
}

// ZZ_Plain: operations with plaintexts.
func ZZ_Plain() {
	zz.Bound("every plaintext with 6 operands (40 thorough), negative and beyond the modulus among them, and one key (2 thorough)")
	pk, sk, n := keys()
	rand.Reader = &plan{nums: []int{7}}
	m, v := num("message", n)
	ct, err := pk.Encrypt(m)
	zz.Assert(err == nil, "encryption")
	ops := []int64{0, 1, n - 1, 2*n + 3, -5, 30}
	if zz.Thorough() {
		for i := int64(0); i < 34; i++ {
			ops = append(ops, 2+i*29)
		}
	}
	k := ops[zz.Choose("operand", 0, len(ops)-1)]
	kb := big.NewInt(k)
	mod := func(a int64) int64 { return ((a % n) + n) % n }
	check := func(c *big.Int, err error, want int64, what string) {
		zz.Assert(err == nil, what+": no error")
		got, err := sk.Decrypt(c)
		zz.Assert(err == nil && is(got, want), what)
	}
	switch zz.Choose("operation", 0, 2) {
	case 0:
		c, err := pk.AddPlaintext(ct, kb)
		check(c, err, mod(v+mod(k)), "sum with a plaintext")
		zz.Reach("sum")
	case 1:
		c, err := pk.MultPlaintext(ct, kb)
		check(c, err, mod(v*mod(k)), "product with a plaintext")
		zz.Reach("product")
	case 2:
		c, err := pk.DivPlaintext(ct, kb)
		inv := new(big.Int).ModInverse(big.NewInt(mod(k)), pk.N)
		if inv == nil {
			zz.Assert(err != nil, "no division by a plaintext without an inverse")
			zz.Reach("no quotient")
			break
		}
		check(c, err, mod(v*inv.Int64()), "quotient by a plaintext")
		zz.Reach("quotient")
	}
	zz.Assert(is(kb, k) && is(m, v), "the operands are unchanged")
	got, err := sk.Decrypt(ct)
	zz.Assert(err == nil && is(got, v), "the ciphertext is unchanged")
}

// ZZ_Cipher: operations of two ciphertexts.
func ZZ_Cipher() {
	zz.Bound("every plaintext with 8 others (60 thorough) and one key (2 thorough)")
	pk, sk, n := keys()
	rand.Reader = &plan{nums: []int{5, 11}}
	m, v := num("message", n)
	a, err := pk.Encrypt(m)
	zz.Assert(err == nil, "encryption")
	top := 7
	if zz.Thorough() {
		top = 59
	}
	k := int64(zz.Choose("other", 0, top)) * (n - 1) / int64(top)
	b, err := pk.Encrypt(big.NewInt(k))
	zz.Assert(err == nil, "encryption")
	var c *big.Int
	var want int64
	switch zz.Choose("operation", 0, 3) {
	case 0:
		c, err = pk.Add(a, b)
		zz.Assert(err == nil, "sum: no error")
		want = (v + k) % n
	case 1:
		c, err = pk.Add(b, a)
		zz.Assert(err == nil, "sum: no error")
		want = (v + k) % n
	case 2:
		c = pk.Sub(a, b)
		want = (v - k + n) % n
	case 3:
		c, err = pk.Add(a, a)
		zz.Assert(err == nil, "sum: no error")
		want = 2 * v % n
	}
	got, err := sk.Decrypt(c)
	zz.Assert(err == nil && is(got, want), "sum or difference of the plaintexts")
	got, err = sk.Decrypt(a)
	zz.Assert(err == nil && is(got, v), "the first ciphertext is unchanged")
	got, err = sk.Decrypt(b)
	zz.Assert(err == nil && is(got, k), "the second ciphertext is unchanged")
	zz.Reach("result")
}

// ZZ_Refuse: what is no plaintext or no ciphertext is refused.
func ZZ_Refuse() {
	zz.Bound("plaintexts out of range and ciphertexts that are nil, zero or negative, of up to 32 bits")
	pk, sk, n := keys()
	rand.Reader = &plan{nums: []int{5}}
	for _, x := range []int64{-n, -1, n, n + 1, 2 * n, n * n} {
		ct, err := pk.Encrypt(big.NewInt(x))
		zz.Assert(err != nil && ct == nil, "a number just out of range is not encrypted")
	}
	x := int64(zz.I32("number"))
	v := big.NewInt(x)
	if x < 0 || x >= n {
		ct, err := pk.Encrypt(v)
		zz.Assert(err != nil && ct == nil, "a number out of range is not encrypted")
		zz.Reach("plaintext")
	}
	if zz.Bool("nil") {
		v = nil
	} else {
		zz.Assume(x <= 0)
	}
	_, err := sk.Decrypt(v)
	zz.Assert(err != nil, "no decryption")
	_, err = pk.AddPlaintext(v, big.NewInt(1))
	zz.Assert(err != nil, "no sum with a plaintext")
	_, err = pk.MultPlaintext(v, big.NewInt(1))
	zz.Assert(err != nil, "no product")
	_, err = pk.DivPlaintext(v, big.NewInt(1))
	zz.Assert(err != nil, "no quotient")
	_, err = pk.Add(v, big.NewInt(1))
	zz.Assert(err != nil, "no sum")
	_, err = pk.Add(big.NewInt(1), v)
	zz.Assert(err != nil, "no sum")
	zz.Reach("ciphertext")
}
