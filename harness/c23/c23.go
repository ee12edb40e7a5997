// Package c23 checks the arithmetic of the curve.
package c23

import (
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/toy"
)

func curves() int {
	if zz.Thorough() {
		return len(toy.Curves) - 1
	}
	return 2
}

// point is any point of the curve, the one at infinity included.
func point(c toy.Curve, name string, split bool) (x, y int64, inf bool) {
	t := c.Table()
	xs, ys := make([]uint8, 128), make([]uint8, 128)
	for i, p := range t {
		xs[i], ys[i] = uint8(p[0]), uint8(p[1])
	}
	i := zz.U8(name)
	if split {
		i = uint8(zz.Choose(name, 0, c.N-1))
	}
	zz.Assume(int(i) < c.N)
	inf = i == 0
	return int64(xs[i]), int64(ys[i]), inf
}

func is(x, y *big.Int, wx, wy int64) bool {
	return x.Cmp(big.NewInt(wx)) == 0 && y.Cmp(big.NewInt(wy)) == 0
}

// ZZ_Add: the sum of any two points.
func ZZ_Add() {
	zz.Bound("every pair of points of 3 small curves (6 thorough), of fewer and of more points than field elements")
	c, s := toy.Use(zz.Choose("curve", 0, curves()))
	p := int64(c.P)
	x1, y1, inf1 := point(c, "first", true)
	x2, y2, inf2 := point(c, "second", false)
	a, b, d, e := big.NewInt(x1), big.NewInt(y1), big.NewInt(x2), big.NewInt(y2)
	var X, Y *big.Int
	if zz.Choose("through", 0, 1) == 0 {
		X, Y = s.Add(a, b, d, e)
	} else {
		r := secp256k1.NewScalar(a, b).Add(s, secp256k1.NewScalar(d, e))
		X, Y = r.X, r.Y
	}
	zz.Assert(is(a, b, x1, y1) && is(d, e, x2, y2), "the points added are unchanged")
	switch {
	case inf1:
		zz.Assert(is(X, Y, x2, y2), "the point at infinity is neutral on the left")
		zz.Reach("left")
	case inf2:
		zz.Assert(is(X, Y, x1, y1), "the point at infinity is neutral on the right")
		zz.Reach("right")
	case x1 == x2 && y1 != y2:
		zz.Assert(is(X, Y, 0, 0), "the sum of opposite points is the point at infinity")
		zz.Reach("opposite")
	default:
		zz.Assert(X.Sign() >= 0 && X.Cmp(big.NewInt(p)) < 0 && Y.Sign() >= 0 && Y.Cmp(big.NewInt(p)) < 0, "coordinates of the field")
		x3, y3 := X.Int64(), Y.Int64()
		// the chord or tangent of slope n/d
		n, dn := y2-y1+p, x2-x1+p
		if x1 == x2 {
			n, dn = 3*x1*x1, 2*y1
			zz.Reach("double")
		} else {
			zz.Reach("chord")
		}
		n, dn = n%p, dn%p
		zz.Assert((x3+x1+x2)%p*(dn*dn%p)%p == n*n%p, "the sum of the abscissas is the square of the slope")
		zz.Assert((y3+y1)%p*dn%p == n*(x1-x3+p)%p, "the three points are on a line")
	}
}

// ZZ_Double: twice any point.
func ZZ_Double() {
	zz.Bound("every point of 3 small curves (6 thorough)")
	c, s := toy.Use(zz.Choose("curve", 0, curves()))
	p := int64(c.P)
	x1, y1, inf := point(c, "point", false)
	X, Y := s.Double(big.NewInt(x1), big.NewInt(y1))
	if inf {
		zz.Assert(is(X, Y, 0, 0), "twice the point at infinity")
		zz.Reach("infinity")
		return
	}
	zz.Assert(X.Sign() >= 0 && X.Cmp(big.NewInt(p)) < 0 && Y.Sign() >= 0 && Y.Cmp(big.NewInt(p)) < 0, "coordinates of the field")
	x3, y3 := X.Int64(), Y.Int64()
	n, dn := 3*x1*x1%p, 2*y1%p
	zz.Assert((x3+2*x1)%p*(dn*dn%p)%p == n*n%p, "the sum of the abscissas is the square of the slope")
	zz.Assert((y3+y1)%p*dn%p == n*(x1-x3+p)%p, "the points are on a tangent")
	zz.Reach("double")
}

// ZZ_On: the points of the curve.
func ZZ_On() {
	zz.Bound("every pair of coordinates below 256 on 3 small curves (6 thorough)")
	c, s := toy.Use(zz.Choose("curve", 0, curves()))
	x, y := int64(zz.U8("x")), int64(zz.U8("y"))
	zz.Assume(x < int64(c.P) && y < int64(c.P))
	zz.Assert(s.IsOnCurve(big.NewInt(x), big.NewInt(y)) == ((y*y)%int64(c.P) == (x*x*x+int64(c.B))%int64(c.P)), "a point is on the curve if it satisfies the equation")
	zz.Reach("on")
}

// ZZ_Mult: the multiples of the base point and of any other.
func ZZ_Mult() {
	zz.MaxSteps(50000000)
	zz.Bound("every number of one byte, with up to 2 zero bytes before it, times every point of 1 small curve (3 thorough); two bytes times the base point (thorough)")
	top := 0
	if zz.Thorough() {
		top = 2
	}
	c, s := toy.Use(zz.Choose("curve", 0, top))
	t := c.Table()
	n := 1
	if zz.Thorough() {
		n = zz.Choose("bytes", 1, 2)
	}
	k := zz.Bytes("number", n)
	v := 0
	for _, b := range k {
		v = v<<8 | int(b)
	}
	in := append(make([]byte, zz.Choose("zeros", 0, 2)), k...)
	var X, Y *big.Int
	j := 1
	if n == 2 || zz.Choose("base", 0, 1) == 0 {
		X, Y = s.ScalarBaseMult(in)
	} else {
		j = zz.Choose("point", 0, c.N-1)
		X, Y = s.ScalarMult(big.NewInt(int64(t[j][0])), big.NewInt(int64(t[j][1])), in)
	}
	w := t[v*j%c.N]
	zz.Assert(is(X, Y, int64(w[0]), int64(w[1])), "the multiple of the point")
	zz.Reach("multiple")
}

// ZZ_Real: the parameters of secp256k1 and some multiples at its size.
func ZZ_Real() {
	zz.MaxSteps(50000000)
	zz.Bound("the parameters; the multiples 0, 1, 2, N-1, N, N+1 and (N+1)/2 of the base point, at most 4 bits of the number arbitrary")
	s := toy.Real()
	p := s.Params()
	hex := func(v string) *big.Int { r, _ := new(big.Int).SetString(v, 16); return r }
	zz.Assert(p.BitSize == 256, "256 bits")
	zz.Assert(s.IsOnCurve(p.Gx, p.Gy), "the base point is on the curve")
	one := big.NewInt(1)
	nm := new(big.Int).Sub(p.N, one)
	x, y := s.ScalarBaseMult(nm.Bytes())
	zz.Assert(x.Cmp(p.Gx) == 0 && new(big.Int).Add(y, p.Gy).Cmp(p.P) == 0, "(N-1)G is -G")
	x, y = s.ScalarBaseMult(p.N.Bytes())
	zz.Assert(is(x, y, 0, 0), "NG is the point at infinity")
	x, y = s.ScalarBaseMult(new(big.Int).Add(p.N, one).Bytes())
	zz.Assert(x.Cmp(p.Gx) == 0 && y.Cmp(p.Gy) == 0, "(N+1)G is G")
	x, y = s.ScalarBaseMult(nil)
	zz.Assert(is(x, y, 0, 0), "0G is the point at infinity")
	x, y = s.Double(p.Gx, p.Gy)
	x2, y2 := hex("c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"), hex("1ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a")
	zz.Assert(x.Cmp(x2) == 0 && y.Cmp(y2) == 0, "2G")
	x, y = s.ScalarMult(x2, y2, new(big.Int).Rsh(new(big.Int).Add(p.N, one), 1).Bytes())
	zz.Assert(x.Cmp(p.Gx) == 0 && y.Cmp(p.Gy) == 0, "(N+1)/2 times 2G is G")
	zz.Reach("real")
}

// ZZ_Parameters: the curve is secp256k1 from the start.
func ZZ_Parameters() {
	s := secp256k1.SECP256K1()
	p := *s.Params()
	r := toy.Real().Params()
	zz.Assert(p.P.Cmp(r.P) == 0 && p.N.Cmp(r.N) == 0 && p.B.Cmp(r.B) == 0 && p.Gx.Cmp(r.Gx) == 0 && p.Gy.Cmp(r.Gy) == 0 && p.BitSize == 256, "the parameters of secp256k1")
	zz.Reach("parameters")
}
