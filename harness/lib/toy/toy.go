// Package toy puts small curves in the place of secp256k1: the code is written for any parameters of y² = x³ + b.
package toy

import (
	"crypto/elliptic"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

// Curve is a curve of prime order.
type Curve struct{ P, N, B, Gx, Gy int }

// Curves: of fewer and of more points than field elements.
var Curves = []Curve{{43, 31, 7, 2, 12}, {31, 43, 3, 1, 2}, {19, 13, 2, 4, 3}, {67, 79, 7, 2, 22}, {79, 97, 3, 1, 2}, {103, 97, 5, 2, 42}}

// Use replaces the parameters of the curve.
func Use(k int) (Curve, elliptic.Curve) {
	c := Curves[k]
	s := secp256k1.SECP256K1()
	p := s.Params()
	p.P, p.N, p.B = big.NewInt(int64(c.P)), big.NewInt(int64(c.N)), big.NewInt(int64(c.B))
	p.Gx, p.Gy = big.NewInt(int64(c.Gx)), big.NewInt(int64(c.Gy))
	return c, s
}

// Real restores the parameters of secp256k1.
func Real() elliptic.Curve {
	s := secp256k1.SECP256K1()
	p := s.Params()
	p.P, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	p.N, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	p.B = big.NewInt(7)
	p.Gx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	p.Gy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
	return s
}

// Inv is the inverse modulo a prime.
func Inv(a, p int) int {
	a %= p
	if a < 0 {
		a += p
	}
	for i := 1; i < p; i++ {
		if a*i%p == 1 {
			return i
		}
	}
	panic("no inverse")
}

// Pt is a point; {0, 0} is the point at infinity.
type Pt [2]int

func mod(a, p int) int {
	a %= p
	if a < 0 {
		a += p
	}
	return a
}

// Add is the chord and tangent law.
func (c Curve) Add(a, b Pt) Pt {
	inf := Pt{}
	if a == inf {
		return b
	}
	if b == inf {
		return a
	}
	var l int
	switch {
	case a[0] != b[0]:
		l = mod((b[1]-a[1])*Inv(b[0]-a[0], c.P), c.P)
	case a[1] == b[1]:
		l = mod(3*a[0]*a[0]*Inv(2*a[1], c.P), c.P)
	default:
		return inf
	}
	x := mod(l*l-a[0]-b[0], c.P)
	return Pt{x, mod(l*(a[0]-x)-a[1], c.P)}
}

// Table is the multiples 0G, 1G, … (N-1)G.
func (c Curve) Table() []Pt {
	t := make([]Pt, c.N)
	for i := 1; i < c.N; i++ {
		t[i] = c.Add(t[i-1], Pt{c.Gx, c.Gy})
	}
	return t
}
