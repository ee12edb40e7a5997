package main

import (
	"fmt"
	"math/big"
)

// math/big.Int is modelled by an exact-width bit-vector: every operation widens
// its result so that nothing ever wraps.

const maxBigW = 4096

var bigZeroV = &BigV{k: new(big.Int)}

func bigK(k *big.Int) *BigV { return &BigV{k: k} }

// bigCell returns the cell that holds the content of *big.Int.
func (w *Worker) bigCell(v Value) *Value {
	p, ok := v.P.(*Value)
	if !ok {
		if v.P == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.unsupported("big.Int pointer %T", v.P)
	}
	s, ok := p.P.(StructV)
	if !ok || len(s) < 2 {
		w.unsupported("big.Int layout")
	}
	return &s[1]
}

func (w *Worker) bigGet(v Value) *BigV {
	c := w.bigCell(v)
	if b, ok := c.P.(*BigV); ok {
		return b
	}
	return bigZeroV
}

func (w *Worker) bigSet(v Value, b *BigV) Value {
	w.set(w.bigCell(v), Value{P: b}, -1)
	return v
}

func (w *Worker) bigNew(b *BigV) Value {
	p := new(Value)
	p.P = StructV{Value{}, Value{P: b}}
	return Value{P: p}
}

// bigU makes an unsigned BigV and strips known leading zeros.
func (w *Worker) bigU(t *Term) *BigV {
	if t.isConst() {
		return &BigV{k: new(big.Int).Set(t.cbig())}
	}
	if n := w.c.sigbits(t); n < t.w {
		t = w.c.Extract(t, n-1, 0)
	}
	if t.isConst() {
		return &BigV{k: new(big.Int).Set(t.cbig())}
	}
	return &BigV{t: t}
}

func (w *Worker) bigS(t *Term) *BigV {
	if t.isConst() {
		return &BigV{k: new(big.Int).Set(toSigned(t.cbig(), t.w))}
	}
	if t.op == OConcat && t.args[0].isConst() && constBit(t.args[0], t.args[0].w-1) == 0 {
		return w.bigU(t)
	}
	return &BigV{t: t, signed: true}
}

func (b *BigV) isNeg() bool { return b.k != nil && b.k.Sign() < 0 }

// sgn tells whether the representation needs a sign bit.
func (b *BigV) sgn() bool { return b.signed || b.isNeg() }

// width needed in the given representation.
func (b *BigV) width(signed bool) int {
	if b.k != nil {
		n := b.k.BitLen()
		if signed {
			n++
			if b.k.Sign() < 0 {
				n++
			}
		}
		return max(1, n)
	}
	n := b.t.w
	if signed && !b.signed {
		n++
	}
	return n
}

func (w *Worker) bigTerm(b *BigV, n int) *Term {
	if n > maxBigW {
		w.unsupported("big.Int wider than %d bits", maxBigW)
	}
	if b.k != nil {
		return w.c.KB(n, b.k)
	}
	if b.signed {
		return w.c.Sext(b.t, n)
	}
	return w.c.Zext(b.t, n)
}

func (w *Worker) bigIte(cond *Term, x, y *BigV) (Value, bool) {
	if x == y {
		return Value{P: x}, true
	}
	if x.k != nil && y.k != nil && x.k.Cmp(y.k) == 0 {
		return Value{P: x}, true
	}
	s := x.sgn() || y.sgn()
	n := max(x.width(s), y.width(s))
	if n > maxBigW {
		return Value{}, false
	}
	t := w.c.Ite(cond, w.bigTerm(x, n), w.bigTerm(y, n))
	if s {
		return Value{P: w.bigS(t)}, true
	}
	return Value{P: w.bigU(t)}, true
}

// liftOf sees a number as a table over a narrow term: one made by lift, or the narrow term itself if fresh is set.
func (w *Worker) liftOf(x *BigV, fresh bool) (idx *Term, v []*big.Int) {
	if x.k != nil || x.signed {
		return nil, nil
	}
	if t := tabOf(x.t); t != nil && w.c.lifted[t] {
		for _, e := range w.c.tables[t.name].v {
			v = append(v, new(big.Int).SetUint64(e))
		}
		return t.args[0], v
	}
	if !fresh || x.t.w > 12 {
		return nil, nil
	}
	for i := int64(0); i < 1<<uint(x.t.w); i++ {
		v = append(v, big.NewInt(i))
	}
	return x.t, v
}

// lift applies a function to the elements of a table; nil if a result is not a number of at most 63 bits.
func (w *Worker) lift(idx *Term, v []*big.Int, f func(*big.Int) *big.Int) *BigV {
	vs := make([]uint64, len(v))
	n := 1
	for i, e := range v {
		r := f(e)
		if r == nil || r.Sign() < 0 || r.BitLen() > 63 {
			return nil
		}
		vs[i] = r.Uint64()
		n = max(n, r.BitLen())
	}
	t := w.c.Tab(idx, vs, n)
	if t.op == OTab {
		if w.c.lifted == nil {
			w.c.lifted = map[*Term]bool{}
		}
		w.c.lifted[t] = true
	}
	return w.bigU(t)
}

// lift2 lifts an operation of a lifted number and a constant.
func (w *Worker) lift2(x, y *BigV, f func(a, b *big.Int) *big.Int) *BigV {
	if y.k != nil {
		if idx, v := w.liftOf(x, false); idx != nil {
			return w.lift(idx, v, func(a *big.Int) *big.Int { return f(a, y.k) })
		}
	} else if x.k != nil {
		if idx, v := w.liftOf(y, false); idx != nil {
			return w.lift(idx, v, func(b *big.Int) *big.Int { return f(x.k, b) })
		}
	} else if i, v := w.liftOf(x, false); i != nil {
		if j, u := w.liftOf(y, false); j == i && len(u) == len(v) {
			k := -1
			return w.lift(i, v, func(a *big.Int) *big.Int { k++; return f(a, u[k]) })
		}
	}
	return nil
}

func (w *Worker) bigAdd(x, y *BigV) *BigV {
	if x.k != nil && y.k != nil {
		return bigK(new(big.Int).Add(x.k, y.k))
	}
	if r := w.lift2(x, y, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }); r != nil {
		return r
	}
	if x.k != nil && x.k.Sign() == 0 {
		return y
	}
	if y.k != nil && y.k.Sign() == 0 {
		return x
	}
	s := x.sgn() || y.sgn()
	n := max(x.width(s), y.width(s)) + 1
	t := w.c.Add(w.bigTerm(x, n), w.bigTerm(y, n))
	if s {
		return w.bigS(t)
	}
	return w.bigU(t)
}

func (w *Worker) bigNeg(x *BigV) *BigV {
	if x.k != nil {
		return bigK(new(big.Int).Neg(x.k))
	}
	n := x.width(true) + 1
	return w.bigS(w.c.Neg(w.bigTerm(x, n)))
}

func (w *Worker) bigSub(x, y *BigV) *BigV {
	if x.k != nil && y.k != nil {
		return bigK(new(big.Int).Sub(x.k, y.k))
	}
	if r := w.lift2(x, y, func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }); r != nil {
		return r
	}
	if y.k != nil && y.k.Sign() == 0 {
		return x
	}
	n := max(x.width(true), y.width(true)) + 1
	return w.bigS(w.c.Sub(w.bigTerm(x, n), w.bigTerm(y, n)))
}

func (w *Worker) bigMul(x, y *BigV) *BigV {
	if x.k != nil && y.k != nil {
		return bigK(new(big.Int).Mul(x.k, y.k))
	}
	if x.k != nil && x.k.Sign() == 0 || y.k != nil && y.k.Sign() == 0 {
		return bigZeroV
	}
	if r := w.lift2(x, y, func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }); r != nil {
		return r
	}
	s := x.sgn() || y.sgn()
	n := x.width(s) + y.width(s)
	t := w.c.Mul(w.bigTerm(x, n), w.bigTerm(y, n))
	if s {
		return w.bigS(t)
	}
	return w.bigU(t)
}

func (w *Worker) bigLsh(x *BigV, k int) *BigV {
	if x.k != nil {
		return bigK(new(big.Int).Lsh(x.k, uint(k)))
	}
	if k == 0 {
		return x
	}
	n := x.t.w + k
	if n > maxBigW {
		w.unsupported("big.Int shift")
	}
	t := w.c.Concat(x.t, w.c.K(k, 0))
	if x.signed {
		return &BigV{t: t, signed: true}
	}
	return w.bigU(t)
}

func (w *Worker) bigRsh(x *BigV, k int) *BigV {
	if x.k != nil {
		return bigK(new(big.Int).Rsh(x.k, uint(k)))
	}
	if k == 0 {
		return x
	}
	if k >= x.t.w {
		if x.signed {
			return w.bigS(w.c.Sext(w.c.Extract(x.t, x.t.w-1, x.t.w-1), 2))
		}
		return bigZeroV
	}
	t := w.c.Extract(x.t, x.t.w-1, k)
	if x.signed {
		return w.bigS(t)
	}
	return w.bigU(t)
}

// bigCmpTerms returns (x<y, x==y).
func (w *Worker) bigCmp(x, y *BigV) (*Term, *Term) {
	if x.k != nil && y.k != nil {
		c := x.k.Cmp(y.k)
		return w.c.Bool(c < 0), w.c.Bool(c == 0)
	}
	s := x.sgn() || y.sgn()
	n := max(x.width(s), y.width(s))
	a, b := w.bigTerm(x, n), w.bigTerm(y, n)
	if s {
		return w.c.Slt(a, b), w.c.Eq(a, b)
	}
	return w.c.Ult(a, b), w.c.Eq(a, b)
}

func (w *Worker) cmpVal(lt, eq *Term) Value {
	return tval(w.c.Ite(lt, w.c.KB(64, big.NewInt(-1)), w.c.Ite(eq, w.c.K(64, 0), w.c.K(64, 1))))
}

func (w *Worker) bigIsZero(x *BigV) *Term {
	_, eq := w.bigCmp(x, bigZeroV)
	return eq
}

// bigDivMod is Euclidean division. y must be non-zero (checked here).
func (w *Worker) bigDivMod(x, y *BigV, euclid bool) (q, r *BigV) {
	z := w.bigIsZero(y)
	if w.branch(z) {
		w.rtPanic("division by zero")
	}
	if x.k != nil && y.k != nil {
		qq, rr := new(big.Int), new(big.Int)
		if euclid {
			qq.DivMod(x.k, y.k, rr)
		} else {
			qq.QuoRem(x.k, y.k, rr)
		}
		return bigK(qq), bigK(rr)
	}
	c := w.c
	if y.k != nil && y.k.Sign() > 0 {
		if idx, v := w.liftOf(x, false); idx != nil {
			q := w.lift(idx, v, func(a *big.Int) *big.Int { return new(big.Int).Div(a, y.k) })
			r := w.lift(idx, v, func(a *big.Int) *big.Int { return new(big.Int).Mod(a, y.k) })
			if q != nil && r != nil {
				return q, r
			}
		}
	}
	if euclid && x.k == nil && y.k != nil && y.k.Sign() > 0 && y.k.BitLen() > 64 && x.width(x.sgn()) <= y.k.BitLen()+2 {
		// a few subtractions instead of a division
		n := y.k.BitLen() + 4
		a, q := w.bigTerm(x, n), c.K(n, 0)
		if x.sgn() {
			a, q = c.Add(a, c.KB(n, new(big.Int).Lsh(y.k, 2))), c.KB(n, big.NewInt(-4))
		}
		for i := 2; i >= 0; i-- {
			d := c.KB(n, new(big.Int).Lsh(y.k, uint(i)))
			ge := c.Ule(d, a)
			a = c.Ite(ge, c.Sub(a, d), a)
			q = c.Ite(ge, c.Add(q, c.K(n, 1<<uint(i))), q)
		}
		return w.bigS(q), w.bigU(c.Extract(a, y.k.BitLen()-1, 0))
	}
	if euclid && x.k == nil && !x.sgn() && y.k != nil && y.k.Sign() > 0 && y.k.BitLen() <= 12 && y.k.Bit(0) == 1 && x.width(false) >= 40 {
		// the residue of a long number by those of its bytes
		m := y.k.Int64()
		n := x.width(false)
		a := w.bigTerm(x, n)
		if a.op == OVar && a.uf != 0 && n >= 128 && n%8 == 0 {
			// of a digest: a number that depends on the digest in an unknown way
			real := func(b []byte) []byte {
				r := new(big.Int).SetBytes(b)
				r.Mod(r, big.NewInt(m))
				return r.FillBytes(make([]byte, 2))
			}
			bs := w.ufHash(fmt.Sprintf("residue%d", m), w.splitBytes(a), 2, false, real)
			r := w.c.Concat(w.term(bs[0], 8), w.term(bs[1], 8))
			w.pushPC(c.Ult(r, c.K(16, uint64(m))))
			return w.bigU(c.Udiv(a, c.KB(n, y.k))), w.bigU(c.Extract(r, max(1, big.NewInt(m-1).BitLen())-1, 0))
		}
		sum, f := c.K(32, 0), int64(1)%m
		for lo := 0; lo < n; lo += 8 {
			part := c.Extract(a, min(lo+8, n)-1, lo)
			sum = c.Add(sum, c.Mul(c.Zext(part, 32), c.K(32, uint64(f))))
			f = f * 256 % m
		}
		r := c.Urem(sum, c.K(32, uint64(m)))
		return w.bigU(c.Udiv(a, c.KB(n, y.k))), w.bigU(c.Extract(r, max(1, big.NewInt(m-1).BitLen())-1, 0))
	}
	if !x.sgn() && !y.sgn() {
		n := max(x.width(false), y.width(false))
		a, b := w.bigTerm(x, n), w.bigTerm(y, n)
		return w.bigU(c.Udiv(a, b)), w.bigU(c.Urem(a, b))
	}
	n := max(x.width(true), y.width(true)) + 1
	a, b := w.bigTerm(x, n), w.bigTerm(y, n)
	qt, rt := c.Sdiv(a, b), c.Srem(a, b)
	if !euclid {
		return w.bigS(qt), w.bigS(rt)
	}
	neg := c.Slt(rt, c.K(n, 0))
	bneg := c.Slt(b, c.K(n, 0))
	babs := c.Ite(bneg, c.Neg(b), b)
	r2 := c.Ite(neg, c.Add(rt, babs), rt)
	q2 := c.Ite(neg, c.Ite(bneg, c.Add(qt, c.K(n, 1)), c.Sub(qt, c.K(n, 1))), qt)
	rb := w.bigU(r2)
	if y.k != nil {
		k := new(big.Int).Abs(y.k)
		k.Sub(k, big.NewInt(1))
		rb = w.bigU(c.Extract(r2, max(1, k.BitLen())-1, 0))
	} else if rb.t != nil {
		rb = w.bigU(c.Extract(r2, min(n, y.width(true))-1, 0))
	}
	return w.bigS(q2), rb
}

func (w *Worker) bigBytes(x *BigV) Value {
	if x.k != nil {
		return byteSlice(x.k.Bytes())
	}
	if x.signed {
		// sign must be decided first
		neg := w.c.Slt(x.t, w.c.K(x.t.w, 0))
		if w.branch(neg) {
			x = w.bigU(w.c.Neg(x.t))
		} else {
			x = w.bigU(x.t)
		}
		if x.k != nil {
			return byteSlice(x.k.Bytes())
		}
	}
	n := (x.t.w + 7) / 8
	t := w.c.Zext(x.t, n*8)
	for n > 0 {
		top := w.c.Extract(t, n*8-1, n*8-8)
		if w.branch(w.c.Not(w.c.Eq(top, w.c.K(8, 0)))) {
			break
		}
		n--
	}
	out := make(SliceV, n)
	for i := 0; i < n; i++ {
		out[i] = tval(w.c.Extract(t, (n-i)*8-1, (n-i)*8-8))
	}
	return Value{P: out}
}

func (w *Worker) bigSetBytes(bs []Value) *BigV {
	if b, ok := concBytes(bs); ok {
		return bigK(new(big.Int).SetBytes(b))
	}
	ts := make([]*Term, len(bs))
	for i := range bs {
		ts[i] = w.term(bs[i], 8)
	}
	return w.bigU(w.c.Concat(ts...))
}

func (w *Worker) bigBitLen(x *BigV) Value {
	if x.k != nil {
		return ival(int64(x.k.BitLen()))
	}
	if x.signed {
		w.unsupported("BitLen of signed")
	}
	r := w.c.K(64, 0)
	for i := 0; i < x.t.w; i++ {
		r = w.c.Ite(w.c.Eq(w.c.Extract(x.t, i, i), w.c.K(1, 1)), w.c.K(64, uint64(i+1)), r)
	}
	return tval(r)
}

// smallTable applies a function on residues mod a small constant m.
func (w *Worker) smallTable(x *BigV, m *big.Int, width int, f func(i int64) *big.Int) *Term {
	_, r := w.bigDivMod(x, bigK(m), true)
	n := int(m.Int64())
	el := make([]*Term, n)
	for i := range el {
		el[i] = w.c.KB(width, f(int64(i)))
	}
	if r.k != nil {
		return el[r.k.Int64()]
	}
	return w.c.Mux(r.t, el)
}

func (w *Worker) smallMod(m *BigV, what string) *big.Int {
	if m.k == nil || m.k.Sign() <= 0 || m.k.BitLen() > 13 {
		w.unsupported("%s with a symbolic operand and a large or symbolic modulus", what)
	}
	return m.k
}

func (w *Worker) bigExp(x, y, m *BigV) *BigV {
	if x.k != nil && y.k != nil && (m == nil || m.k != nil) {
		var mk *big.Int
		if m != nil {
			mk = m.k
		}
		r := new(big.Int).Exp(x.k, y.k, mk)
		if r == nil {
			return nil
		}
		return bigK(r)
	}
	if m != nil && m.k != nil && m.k.Sign() == 0 {
		m = nil
	}
	if m == nil {
		if y.k == nil || y.k.BitLen() > 6 {
			w.unsupported("Exp without modulus")
		}
		r := bigK(big.NewInt(1))
		for i := int64(0); i < y.k.Int64(); i++ {
			r = w.bigMul(r, x)
		}
		return r
	}
	red := func(v *BigV) *BigV { _, r := w.bigDivMod(v, m, true); return r }
	if y.sgn() {
		w.unsupported("Exp with negative exponent")
	}
	if m.k != nil && m.k.BitLen() <= 7 && y.k != nil {
		// unary function of a small residue: table
		t := w.smallTable(x, m.k, 8, func(i int64) *big.Int { return new(big.Int).Exp(big.NewInt(i), y.k, m.k) })
		return w.bigU(t)
	}
	if m.k != nil && (x.k != nil || y.k != nil) {
		k, sym := y, x
		if x.k != nil {
			k, sym = x, y
		}
		if idx, v := w.liftOf(sym, true); idx != nil {
			r := w.lift(idx, v, func(e *big.Int) *big.Int {
				if x.k != nil {
					return new(big.Int).Exp(x.k, e, m.k)
				}
				return new(big.Int).Exp(e, k.k, m.k)
			})
			if r != nil {
				return r
			}
		}
	}
	n := y.width(false)
	if n > 40 || (m.k == nil && m.width(false) > 40) || (m.k != nil && m.k.BitLen() > 24) {
		w.unsupported("modular exponentiation over a large modulus")
	}
	base := red(x)
	r := red(bigK(big.NewInt(1)))
	yt := w.bigTerm(y, n)
	for i := n - 1; i >= 0; i-- {
		r = red(w.bigMul(r, r))
		bit := w.c.Eq(w.c.Extract(yt, i, i), w.c.K(1, 1))
		if bit == w.c.F {
			continue
		}
		mul := red(w.bigMul(r, base))
		v, _ := w.bigIte(bit, mul, r)
		r = v.P.(*BigV)
	}
	return r
}

type bigFn = func(w *Worker, fr *Frame, a []Value) Value

func bigIntrinsics(m map[string]bigFn) {
	p := "(*math/big.Int)."
	bin := func(name string, f func(w *Worker, x, y *BigV) *BigV) {
		m[p+name] = func(w *Worker, fr *Frame, a []Value) Value {
			return w.bigSet(a[0], f(w, w.bigGet(a[1]), w.bigGet(a[2])))
		}
	}
	bin("Add", (*Worker).bigAdd)
	bin("Sub", (*Worker).bigSub)
	bin("Mul", (*Worker).bigMul)
	bin("Div", func(w *Worker, x, y *BigV) *BigV { q, _ := w.bigDivMod(x, y, true); return q })
	bin("Mod", func(w *Worker, x, y *BigV) *BigV { _, r := w.bigDivMod(x, y, true); return r })
	bin("Quo", func(w *Worker, x, y *BigV) *BigV { q, _ := w.bigDivMod(x, y, false); return q })
	bin("Rem", func(w *Worker, x, y *BigV) *BigV { _, r := w.bigDivMod(x, y, false); return r })
	bit := func(name string, op Op, f func(z, x, y *big.Int) *big.Int) {
		bin(name, func(w *Worker, x, y *BigV) *BigV {
			if x.k != nil && y.k != nil {
				return bigK(f(new(big.Int), x.k, y.k))
			}
			if x.sgn() || y.sgn() {
				w.unsupported("bitwise op on negative big.Int")
			}
			n := max(x.width(false), y.width(false))
			return w.bigU(w.c.bitop(op, w.bigTerm(x, n), w.bigTerm(y, n)))
		})
	}
	bit("And", OBand, (*big.Int).And)
	bit("Or", OBor, (*big.Int).Or)
	bit("Xor", OBxor, (*big.Int).Xor)
	m["math/big.NewInt"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.bigNew(w.bigFromInt(a[0], true))
	}
	m[p+"SetInt64"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigSet(a[0], w.bigFromInt(a[1], true)) }
	m[p+"SetUint64"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigSet(a[0], w.bigFromInt(a[1], false)) }
	m[p+"Set"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigSet(a[0], w.bigGet(a[1])) }
	m[p+"SetBytes"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigSet(a[0], w.bigSetBytes(sliceOf(a[1]))) }
	m[p+"SetString"] = func(w *Worker, fr *Frame, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			w.unsupported("big.Int.SetString on symbolic text")
		}
		k, good := new(big.Int).SetString(s, int(int64(a[2].N)))
		if !good {
			return Value{P: TupleV{Value{}, bval(false)}}
		}
		w.bigSet(a[0], bigK(k))
		return Value{P: TupleV{a[0], bval(true)}}
	}
	m[p+"Bytes"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigBytes(w.bigGet(a[0])) }
	m[p+"FillBytes"] = func(w *Worker, fr *Frame, a []Value) Value {
		x := w.bigGet(a[0])
		buf := sliceOf(a[1])
		if x.sgn() {
			w.unsupported("FillBytes of signed")
		}
		n := len(buf) * 8
		if x.width(false) > n {
			over := w.c.Not(w.c.Eq(w.c.Extract(w.bigTerm(x, x.width(false)), x.width(false)-1, n), w.c.K(x.width(false)-n, 0)))
			if w.branch(over) {
				w.rtPanic("math/big: buffer too small to fit value")
			}
		}
		var t *Term
		if wd := x.width(false); wd > n {
			t = w.c.Extract(w.bigTerm(x, wd), n-1, 0)
		} else {
			t = w.bigTerm(x, n)
		}
		for i := range buf {
			w.set(&buf[i], tval(w.c.Extract(t, n-8*i-1, n-8*i-8)), 8)
		}
		return a[1]
	}
	m[p+"Cmp"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.cmpVal(w.bigCmp(w.bigGet(a[0]), w.bigGet(a[1])))
	}
	m[p+"CmpAbs"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := w.bigGet(a[0]), w.bigGet(a[1])
		return w.cmpVal(w.bigCmp(w.bigAbs(x), w.bigAbs(y)))
	}
	m[p+"Abs"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigSet(a[0], w.bigAbs(w.bigGet(a[1]))) }
	m[p+"Sign"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.cmpVal(w.bigCmp(w.bigGet(a[0]), bigZeroV))
	}
	m[p+"Neg"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigSet(a[0], w.bigNeg(w.bigGet(a[1]))) }
	m[p+"Lsh"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.bigSet(a[0], w.bigLsh(w.bigGet(a[1]), w.concInt(a[2], "Lsh")))
	}
	m[p+"Rsh"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.bigSet(a[0], w.bigRsh(w.bigGet(a[1]), w.concInt(a[2], "Rsh")))
	}
	m[p+"Bit"] = func(w *Worker, fr *Frame, a []Value) Value {
		x := w.bigGet(a[0])
		i := w.concInt(a[1], "Bit")
		if x.k != nil {
			return uval(uint64(x.k.Bit(i)))
		}
		if i >= x.t.w {
			if x.signed {
				i = x.t.w - 1
			} else {
				return uval(0)
			}
		}
		return tval(w.c.Zext(w.c.Extract(x.t, i, i), 64))
	}
	m[p+"BitLen"] = func(w *Worker, fr *Frame, a []Value) Value { return w.bigBitLen(w.bigGet(a[0])) }
	toInt := func(w *Worker, x *BigV) Value {
		if x.k != nil {
			return uval(new(big.Int).And(x.k, new(big.Int).SetUint64(mask(64))).Uint64())
		}
		n := max(64, x.width(x.sgn()))
		return tval(w.c.Extract(w.bigTerm(x, n), 63, 0))
	}
	m[p+"Int64"] = func(w *Worker, fr *Frame, a []Value) Value { return toInt(w, w.bigGet(a[0])) }
	m[p+"Uint64"] = func(w *Worker, fr *Frame, a []Value) Value { return toInt(w, w.bigGet(a[0])) }
	isFit := func(lo, hi *big.Int) bigFn {
		return func(w *Worker, fr *Frame, a []Value) Value {
			x := w.bigGet(a[0])
			lt, _ := w.bigCmp(x, bigK(lo))
			gt, _ := w.bigCmp(bigK(hi), x)
			return tval(w.c.And(w.c.Not(lt), w.c.Not(gt)))
		}
	}
	m[p+"IsInt64"] = isFit(big.NewInt(-1<<63), big.NewInt(1<<63-1))
	m[p+"IsUint64"] = isFit(big.NewInt(0), new(big.Int).SetUint64(^uint64(0)))
	m[p+"DivMod"] = func(w *Worker, fr *Frame, a []Value) Value {
		q, r := w.bigDivMod(w.bigGet(a[1]), w.bigGet(a[2]), true)
		w.bigSet(a[0], q)
		w.bigSet(a[3], r)
		return Value{P: TupleV{a[0], a[3]}}
	}
	m[p+"QuoRem"] = func(w *Worker, fr *Frame, a []Value) Value {
		q, r := w.bigDivMod(w.bigGet(a[1]), w.bigGet(a[2]), false)
		w.bigSet(a[0], q)
		w.bigSet(a[3], r)
		return Value{P: TupleV{a[0], a[3]}}
	}
	m[p+"Exp"] = func(w *Worker, fr *Frame, a []Value) Value {
		var mm *BigV
		if a[3].P != nil {
			mm = w.bigGet(a[3])
		}
		y := w.bigGet(a[2])
		x := w.bigGet(a[1])
		// a negative exponent means the inverse
		if y.k != nil && y.k.Sign() < 0 && x.k == nil && mm != nil {
			inv, ok := w.bigInv(x, mm)
			if !ok {
				return Value{}
			}
			x, y = inv, bigK(new(big.Int).Neg(y.k))
		}
		r := w.bigExp(x, y, mm)
		if r == nil {
			return Value{}
		}
		return w.bigSet(a[0], r)
	}
	m[p+"ModInverse"] = func(w *Worker, fr *Frame, a []Value) Value {
		r, ok := w.bigInv(w.bigGet(a[1]), w.bigGet(a[2]))
		if !ok {
			return Value{}
		}
		return w.bigSet(a[0], r)
	}
	m[p+"ModSqrt"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, n := w.bigGet(a[1]), w.bigGet(a[2])
		if x.k != nil && n.k != nil {
			r := new(big.Int).ModSqrt(x.k, n.k)
			if r == nil {
				return Value{}
			}
			return w.bigSet(a[0], bigK(r))
		}
		mod := w.smallMod(n, "ModSqrt")
		none := w.smallTable(x, mod, 1, func(i int64) *big.Int {
			if new(big.Int).ModSqrt(big.NewInt(i), mod) == nil {
				return big.NewInt(1)
			}
			return big.NewInt(0)
		})
		if w.branch(w.c.Eq(none, w.c.K(1, 1))) {
			return Value{}
		}
		t := w.smallTable(x, mod, mod.BitLen(), func(i int64) *big.Int {
			if r := new(big.Int).ModSqrt(big.NewInt(i), mod); r != nil {
				return r
			}
			return big.NewInt(0)
		})
		return w.bigSet(a[0], w.bigU(t))
	}
	m["math/big.Jacobi"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, n := w.bigGet(a[0]), w.bigGet(a[1])
		if x.k != nil && n.k != nil {
			return ival(int64(big.Jacobi(x.k, n.k)))
		}
		mod := w.smallMod(n, "Jacobi")
		return tval(w.smallTable(x, mod, 64, func(i int64) *big.Int {
			return big.NewInt(int64(big.Jacobi(big.NewInt(i), mod)))
		}))
	}
	m[p+"ProbablyPrime"] = func(w *Worker, fr *Frame, a []Value) Value {
		x := w.bigGet(a[0])
		if x.k == nil {
			w.unsupported("ProbablyPrime")
		}
		return bval(x.k.ProbablyPrime(20))
	}
	m[p+"String"] = func(w *Worker, fr *Frame, a []Value) Value {
		if a[0].P == nil {
			return sval("<nil>")
		}
		x := w.bigGet(a[0])
		if x.k == nil {
			return sval("<big>")
		}
		return sval(x.k.String())
	}
	m[p+"Text"] = func(w *Worker, fr *Frame, a []Value) Value {
		x := w.bigGet(a[0])
		if x.k == nil {
			w.unsupported("Text of symbolic big.Int")
		}
		return sval(x.k.Text(int(int64(a[1].N))))
	}
	m[p+"GCD"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := w.bigGet(a[3]), w.bigGet(a[4])
		if x.k == nil || y.k == nil {
			// gcd against a small constant is a table on residues
			if a[1].P != nil || a[2].P != nil {
				w.unsupported("extended GCD of symbolic values")
			}
			if x.k != nil {
				x, y = y, x
			}
			mod := w.smallMod(y, "GCD")
			t := w.smallTable(x, mod, mod.BitLen(), func(i int64) *big.Int {
				return new(big.Int).GCD(nil, nil, big.NewInt(i), mod)
			})
			return w.bigSet(a[0], w.bigU(t))
		}
		var cx, cy *big.Int
		if a[1].P != nil {
			cx = new(big.Int)
		}
		if a[2].P != nil {
			cy = new(big.Int)
		}
		g := new(big.Int).GCD(cx, cy, x.k, y.k)
		if cx != nil {
			w.bigSet(a[1], bigK(cx))
		}
		if cy != nil {
			w.bigSet(a[2], bigK(cy))
		}
		return w.bigSet(a[0], bigK(g))
	}
}

func (w *Worker) bigAbs(x *BigV) *BigV {
	if x.k != nil {
		return bigK(new(big.Int).Abs(x.k))
	}
	if !x.signed {
		return x
	}
	n := x.t.w
	neg := w.c.Slt(x.t, w.c.K(n, 0))
	return w.bigU(w.c.Ite(neg, w.c.Neg(x.t), x.t))
}

func (w *Worker) bigFromInt(v Value, signed bool) *BigV {
	if v.P == nil {
		if signed {
			return bigK(big.NewInt(int64(v.N)))
		}
		return bigK(new(big.Int).SetUint64(v.N))
	}
	t := v.sym()
	if signed && !w.c.isNonneg(t) {
		return w.bigS(t)
	}
	return w.bigU(t)
}

func (w *Worker) concInt(v Value, why string) int {
	if v.P == nil {
		return int(int64(v.N))
	}
	return int(int64(w.concretize(v.sym(), 600, why)))
}

func (w *Worker) bigInv(x, n *BigV) (*BigV, bool) {
	if x.k != nil && n.k != nil {
		if n.k.Sign() == 0 {
			w.rtPanic("division by zero")
		}
		r := new(big.Int).ModInverse(x.k, n.k)
		if r == nil {
			return nil, false
		}
		return bigK(r), true
	}
	if idx, v := w.liftOf(x, false); idx != nil && n.k != nil && n.k.Sign() > 0 {
		none := w.lift(idx, v, func(a *big.Int) *big.Int {
			if new(big.Int).ModInverse(a, n.k) == nil {
				return big.NewInt(1)
			}
			return big.NewInt(0)
		})
		inv := w.lift(idx, v, func(a *big.Int) *big.Int {
			if r := new(big.Int).ModInverse(a, n.k); r != nil {
				return r
			}
			return big.NewInt(1)
		})
		if none != nil && inv != nil {
			if w.branch(w.c.Not(w.bigIsZero(none))) {
				return nil, false
			}
			return inv, true
		}
	}
	mod := w.smallMod(n, "ModInverse")
	none := w.smallTable(x, mod, 1, func(i int64) *big.Int {
		if new(big.Int).ModInverse(big.NewInt(i), mod) == nil {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	})
	if w.branch(w.c.Eq(none, w.c.K(1, 1))) {
		return nil, false
	}
	t := w.smallTable(x, mod, mod.BitLen(), func(i int64) *big.Int {
		if r := new(big.Int).ModInverse(big.NewInt(i), mod); r != nil {
			return r
		}
		return big.NewInt(1)
	})
	return w.bigU(t), true
}
