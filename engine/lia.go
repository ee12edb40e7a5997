package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/bits"
)

// Integer re-encoding of a bit-vector query: every w-bit term becomes an integer in [0, 2^w), wrap-around kept
// exactly through explicit quotients. Used for queries with division by constants, which bit-blasting stalls on.

type liaUnsupported struct{}

type liaEnc struct {
	buf  bytes.Buffer
	defs map[*Term]string
	ub   map[string]*big.Int // by integer expression name
	dm   map[string][2]string
	n    int
}

var one = big.NewInt(1)

func pow2(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }

func (e *liaEnc) fresh(ub *big.Int) string {
	e.n++
	n := fmt.Sprintf("k%d", e.n)
	fmt.Fprintf(&e.buf, "(declare-const %s Int)\n(assert (<= 0 %s))\n(assert (<= %s %v))\n", n, n, n, ub)
	e.ub[n] = ub
	return n
}

func (e *liaEnc) def(expr string, ub *big.Int) string {
	e.n++
	n := fmt.Sprintf("k%d", e.n)
	fmt.Fprintf(&e.buf, "(define-fun %s () Int %s)\n", n, expr)
	e.ub[n] = ub
	return n
}

func (e *liaEnc) lit(b *big.Int) string {
	n := b.String()
	e.ub[n] = b
	return n
}

// divmod returns x div k, x mod k for a constant k>0.
func (e *liaEnc) divmod(x string, k *big.Int) (string, string) {
	if e.ub[x].Cmp(k) < 0 {
		return e.lit(new(big.Int)), x
	}
	key := x + "/" + k.String()
	if r, ok := e.dm[key]; ok {
		return r[0], r[1]
	}
	q := e.fresh(new(big.Int).Div(e.ub[x], k))
	r := e.fresh(new(big.Int).Sub(k, one))
	fmt.Fprintf(&e.buf, "(assert (= %s (+ (* %v %s) %s)))\n", x, k, q, r)
	e.dm[key] = [2]string{q, r}
	return q, r
}

func (e *liaEnc) wrap(x string, w int) string {
	_, r := e.divmod(x, pow2(w))
	return r
}

func (e *liaEnc) constVal(t *Term) *big.Int {
	if t.op != OConst {
		return nil
	}
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.val)
}

func (e *liaEnc) sum(xs []string, w int) string {
	if len(xs) == 1 {
		return xs[0]
	}
	s := "(+"
	ub := new(big.Int)
	for _, x := range xs {
		s += " " + x
		ub = new(big.Int).Add(ub, e.ub[x])
	}
	return e.wrap(e.def(s+")", ub), w)
}

func (e *liaEnc) scale(x string, k *big.Int) string {
	if k.Sign() == 0 {
		return e.lit(new(big.Int))
	}
	if k.Cmp(one) == 0 {
		return x
	}
	return e.def(fmt.Sprintf("(* %v %s)", k, x), new(big.Int).Mul(k, e.ub[x]))
}

func (e *liaEnc) bits(x string, lo, w int) string {
	if lo > 0 {
		x, _ = e.divmod(x, pow2(lo))
	}
	return e.wrap(x, w)
}

func (e *liaEnc) signed(x string, w int) string {
	if e.ub[x].Cmp(pow2(w-1)) < 0 {
		return x
	}
	return fmt.Sprintf("(ite (>= %s %v) (- %s %v) %s)", x, pow2(w-1), x, pow2(w), x)
}

func (e *liaEnc) enc(root *Term) string {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := e.defs[f.t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			st = append(st, fr{a, 0})
			continue
		}
		t := f.t
		st = st[:len(st)-1]
		e.defs[t] = e.one(t)
		if e.n > 60000 {
			panic(liaUnsupported{})
		}
	}
	return e.defs[root]
}

func (e *liaEnc) boolDef(expr string) string {
	e.n++
	n := fmt.Sprintf("k%d", e.n)
	fmt.Fprintf(&e.buf, "(define-fun %s () Bool %s)\n", n, expr)
	return n
}

func (e *liaEnc) one(t *Term) string {
	a := make([]string, len(t.args))
	for i, x := range t.args {
		a[i] = e.defs[x]
	}
	w := t.w
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return e.lit(e.constVal(t))
	case OVar:
		if w == 0 {
			fmt.Fprintf(&e.buf, "(declare-const |%s| Bool)\n", t.name)
			return "|" + t.name + "|"
		}
		n := "|" + t.name + "|"
		ub := new(big.Int).Sub(pow2(w), one)
		fmt.Fprintf(&e.buf, "(declare-const %s Int)\n(assert (<= 0 %s))\n(assert (<= %s %v))\n", n, n, n, ub)
		e.ub[n] = ub
		return n
	case ONot:
		return e.boolDef("(not " + a[0] + ")")
	case OAnd, OOr:
		s := "(" + opNames[t.op]
		for _, x := range a {
			s += " " + x
		}
		return e.boolDef(s + ")")
	case OEq:
		return e.boolDef("(= " + a[0] + " " + a[1] + ")")
	case OIte:
		if w == 0 {
			return e.boolDef("(ite " + a[0] + " " + a[1] + " " + a[2] + ")")
		}
		ub := e.ub[a[1]]
		if e.ub[a[2]].Cmp(ub) > 0 {
			ub = e.ub[a[2]]
		}
		return e.def("(ite "+a[0]+" "+a[1]+" "+a[2]+")", ub)
	case OTab:
		tb := t.tab
		var sb bytes.Buffer
		d := 0
		for i, r := range tb.runs {
			lin := fmt.Sprintf("(+ %s (- %d))", a[0], int64(r.lo)-int64(r.v))
			if r.v >= r.lo {
				lin = fmt.Sprintf("(+ %s %d)", a[0], r.v-r.lo)
			}
			if r.lo == r.hi || r.step == 0 {
				lin = fmt.Sprint(r.v)
			}
			last := i == len(tb.runs)-1
			if last {
				if r.lo < r.hi {
					fmt.Fprintf(&sb, "(ite (< %s %d) %s ", a[0], r.hi, lin)
					d++
				}
				fmt.Fprint(&sb, tb.v[len(tb.v)-1])
				break
			}
			fmt.Fprintf(&sb, "(ite (<= %s %d) %s ", a[0], r.hi, lin)
			d++
		}
		for ; d > 0; d-- {
			sb.WriteByte(')')
		}
		return e.def(sb.String(), new(big.Int).SetUint64(tb.max))
	case OAdd:
		return e.sum(a, w)
	case OMul:
		if len(a) == 2 {
			if k := e.constVal(t.args[0]); k != nil {
				return e.wrap(e.scale(a[1], k), w)
			}
			if k := e.constVal(t.args[1]); k != nil {
				return e.wrap(e.scale(a[0], k), w)
			}
		}
	case OUdiv, OUrem, OSdiv, OSrem:
		k := e.constVal(t.args[1])
		if k == nil || k.Sign() == 0 {
			break
		}
		if (t.op == OSdiv || t.op == OSrem) && (e.ub[a[0]].Cmp(pow2(w-1)) >= 0 || k.Cmp(pow2(w-1)) >= 0) {
			break
		}
		q, r := e.divmod(a[0], k)
		if t.op == OUdiv || t.op == OSdiv {
			return q
		}
		return r
	case OBnot:
		m := new(big.Int).Sub(pow2(w), one)
		return e.def(fmt.Sprintf("(- %v %s)", m, a[0]), m)
	case OConcat:
		sh := 0
		var parts []string
		for i := len(a) - 1; i >= 0; i-- {
			parts = append(parts, e.scale(a[i], pow2(sh)))
			sh += t.args[i].w
		}
		return e.sum(parts, w)
	case OExtract:
		return e.bits(a[0], int(t.val), w)
	case OSext:
		iw := t.args[0].w
		if e.ub[a[0]].Cmp(pow2(iw-1)) < 0 {
			return a[0]
		}
		d := new(big.Int).Sub(pow2(w), pow2(iw))
		return e.def(fmt.Sprintf("(ite (>= %s %v) (+ %s %v) %s)", a[0], pow2(iw-1), a[0], d, a[0]), new(big.Int).Sub(pow2(w), one))
	case OShl:
		if k := e.constVal(t.args[1]); k != nil {
			if k.Cmp(big.NewInt(int64(w))) >= 0 {
				return e.lit(new(big.Int))
			}
			return e.wrap(e.scale(a[0], pow2(int(k.Int64()))), w)
		}
	case OLshr:
		if k := e.constVal(t.args[1]); k != nil {
			if k.Cmp(big.NewInt(int64(w))) >= 0 {
				return e.lit(new(big.Int))
			}
			q, _ := e.divmod(a[0], pow2(int(k.Int64())))
			return q
		}
	case OBand:
		if len(a) != 2 {
			break
		}
		for i := 0; i < 2; i++ {
			k := e.constVal(t.args[i])
			if k == nil {
				continue
			}
			x := a[1-i]
			var parts []string
			for lo := 0; lo < k.BitLen(); {
				if k.Bit(lo) == 0 {
					lo++
					continue
				}
				hi := lo
				for hi < k.BitLen() && k.Bit(hi) == 1 {
					hi++
				}
				parts = append(parts, e.scale(e.bits(x, lo, hi-lo), pow2(lo)))
				lo = hi
			}
			if len(parts) == 0 {
				return e.lit(new(big.Int))
			}
			return e.sum(parts, w)
		}
	case OUlt:
		return e.boolDef("(< " + a[0] + " " + a[1] + ")")
	case OUle:
		return e.boolDef("(<= " + a[0] + " " + a[1] + ")")
	case OSlt:
		return e.boolDef("(< " + e.signed(a[0], t.args[0].w) + " " + e.signed(a[1], t.args[0].w) + ")")
	case OSle:
		return e.boolDef("(<= " + e.signed(a[0], t.args[0].w) + " " + e.signed(a[1], t.args[0].w) + ")")
	}
	panic(liaUnsupported{})
}

// liaScript returns nil when some operator has no integer translation.
func liaScript(ts []*Term, vs []*Term) (out []byte) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(liaUnsupported); ok {
				out = nil
				return
			}
			panic(r)
		}
	}()
	e := &liaEnc{defs: map[*Term]string{}, ub: map[string]*big.Int{}, dm: map[string][2]string{}}
	e.buf.WriteString("(set-option :produce-models true)\n(set-logic QF_LIA)\n")
	for _, v := range vs {
		e.enc(v)
	}
	for _, t := range ts {
		fmt.Fprintf(&e.buf, "(assert %s)\n", e.enc(t))
	}
	e.buf.WriteString("(check-sat)\n")
	if len(vs) > 0 {
		e.buf.WriteString("(get-value (")
		for _, v := range vs {
			e.buf.WriteString(ref(v) + " ")
		}
		e.buf.WriteString("))\n")
	}
	return e.buf.Bytes()
}

// hardArith says whether a query divides by a constant that is not a power of two, or multiplies by wide constants.
func hardArith(ts []*Term) bool {
	seen := map[*Term]bool{}
	st := append([]*Term(nil), ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		switch t.op {
		case OUdiv, OUrem, OSdiv, OSrem:
			if t.w >= 12 && !(t.w <= 40 && t.args[1].isConst() && t.args[1].w <= 64 && t.args[1].val < 128 && t.args[1].val%2 == 1) {
				return true
			}
		case OMul:
			if t.w >= 24 && !cheapMul(t) {
				return true
			}
		}
		st = append(st, t.args...)
	}
	return false
}

// cheapMul tells that t multiplies one term by plus or minus a sum of at most two powers of two.
func cheapMul(t *Term) bool {
	n := 0
	for _, a := range t.args {
		if !a.isConst() {
			n++
			continue
		}
		if a.w > 64 {
			return false
		}
		m := ^uint64(0) >> uint(64-a.w)
		if bits.OnesCount64(a.val) > 2 && bits.OnesCount64(-a.val&m) > 2 {
			return false
		}
	}
	return n <= 1
}
