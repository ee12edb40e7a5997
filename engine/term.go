package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar // BV or Bool
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // n-ary, sorted
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OConcat // n-ary, most significant first
	OExtract
	OSext
	OUlt
	OUle
	OSlt
	OSle
	OTab // constant table lookup: args[0] index, name table; beyond the end the last element
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term is a hash-consed term. w==0 means Bool.
type Term struct {
	op   Op
	w    int
	args []*Term
	val  uint64   // const (w<=64), extract lo
	big  *big.Int // const (w>64)
	name string
	id   int
	hash uint64

	ub     uint64 // cached upper bound (valid if ubOK)
	ubOK   bool
	one    []*Term
	oneSt  uint8
	oneN   int
	evGen  int
	evVal  uint64
	evBig  *big.Int
	emit   bool
	uf     uint64 // the hashes whose digests it mentions
	nuse   int
	vindex int
	tab    *table // OTab
}

// Ctx owns terms (one per worker).
type Ctx struct {
	tab    map[uint64][]*Term
	nextID int
	T, F   *Term
	evGen  int
	vars   []*Term
	scache [65][]*Term
	ubb    map[*Term]*big.Int
	zero   map[*Term]bool // quotients known to be zero on the current path
	noTele int
	facts  map[*Term]bool    // conditions decided on the current path
	tables map[string]*table // constant tables, by content
	lifted map[*Term]bool    // tables of numbers that arithmetic with constants is applied to
	truths map[*Term]bset    // conditions over one narrow input: the values that satisfy them
	dom    map[*Term]bset    // values still possible on the current path
	ent    map[*Term]bool    // terms under conditions over several inputs
}

func (c *Ctx) size() int { return c.nextID }

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}}
	c.T = c.mk(&Term{op: OTrue})
	c.F = c.mk(&Term{op: OFalse})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	h := uint64(t.op)*0x9E3779B97F4A7C15 + uint64(t.w)*0xC2B2AE3D27D4EB4F + t.val*0x165667B19E3779F9
	for _, a := range t.args {
		h = (h ^ uint64(a.id+1)) * 0x100000001b3
		h ^= h >> 29
	}
	for i := 0; i < len(t.name); i++ {
		h = (h ^ uint64(t.name[i])) * 0x100000001b3
	}
	if t.big != nil {
		for _, w := range t.big.Bits() {
			h = (h ^ uint64(w)) * 0x9E3779B97F4A7C15
			h ^= h >> 31
		}
	}
	h ^= h >> 32
	t.hash = h
outer:
	for _, o := range c.tab[h] {
		if o.op != t.op || o.w != t.w || o.val != t.val || len(o.args) != len(t.args) || o.name != t.name {
			continue
		}
		if (o.big == nil) != (t.big == nil) || (o.big != nil && o.big.Cmp(t.big) != 0) {
			continue
		}
		for i := range o.args {
			if o.args[i] != t.args[i] {
				continue outer
			}
		}
		return o
	}
	c.nextID++
	t.id = c.nextID
	t.uf = 0
	if t.op == OVar && strings.HasPrefix(t.name, "uf_") {
		t.uf = ufBit(t.name[3:strings.LastIndexByte(t.name, '.')])
	}
	for _, a := range t.args {
		t.uf |= a.uf
	}
	c.tab[h] = append(c.tab[h], t)
	if t.op == OVar {
		t.vindex = len(c.vars)
		c.vars = append(c.vars, t)
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// K makes a BV constant.
func (c *Ctx) K(w int, v uint64) *Term {
	if w <= 0 {
		panic("K: width")
	}
	if w > 64 {
		return c.KB(w, new(big.Int).SetUint64(v))
	}
	v &= mask(w)
	if v < 512 {
		if c.scache[w] == nil {
			c.scache[w] = make([]*Term, 512)
		}
		if t := c.scache[w][v]; t != nil {
			return t
		}
		t := c.mk(&Term{op: OConst, w: w, val: v})
		c.scache[w][v] = t
		return t
	}
	return c.mk(&Term{op: OConst, w: w, val: v})
}

// KB makes a BV constant from a big (taken mod 2^w).
func (c *Ctx) KB(w int, v *big.Int) *Term {
	if w <= 0 {
		panic("KB: width")
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.K(w, v.Uint64())
	}
	return c.mk(&Term{op: OConst, w: w, big: v})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) cbig() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.val)
}
func (t *Term) isZero() bool {
	return t.op == OConst && ((t.big == nil && t.val == 0) || (t.big != nil && t.big.Sign() == 0))
}
func (t *Term) isOnes() bool {
	if t.op != OConst {
		return false
	}
	if t.big == nil {
		return t.val == mask(t.w)
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
	m.Sub(m, big.NewInt(1))
	return m.Cmp(t.big) == 0
}
func (t *Term) isOne() bool {
	return t.op == OConst && ((t.big == nil && t.val == 1) || (t.big != nil && t.big.IsUint64() && t.big.Uint64() == 1))
}

func (c *Ctx) Var(name string, w int) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == c.T {
		return b
	}
	if b == c.T {
		return a
	}
	if a == c.F || b == c.F {
		return c.F
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if v, ok := c.facts[a]; ok {
		if v {
			return b
		}
		return c.F
	}
	if v, ok := c.facts[b]; ok {
		if v {
			return a
		}
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OAnd, args: []*Term{a, b}})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.F {
		return b
	}
	if b == c.F {
		return a
	}
	if a == c.T || b == c.T {
		return c.T
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if v, ok := c.facts[a]; ok {
		if !v {
			return b
		}
		return c.T
	}
	if v, ok := c.facts[b]; ok {
		if !v {
			return a
		}
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OOr, args: []*Term{a, b}})
}

// Ite builds if-then-else of same sorted terms.
func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.T {
		return a
	}
	if cond == c.F {
		return b
	}
	if a == b {
		return a
	}
	if v, ok := c.facts[cond]; ok {
		if v {
			return a
		}
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a == c.T {
			return c.Or(cond, b)
		}
		if a == c.F {
			return c.And(c.Not(cond), b)
		}
		if b == c.T {
			return c.Or(c.Not(cond), a)
		}
		if b == c.F {
			return c.And(cond, a)
		}
	}
	// nested same cond
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	if r := c.iteXor(cond, a, b); r != nil {
		return r
	}
	// split on common concat structure / constants
	if a.w > 1 && (a.op == OConcat || a.op == OConst) && (b.op == OConcat || b.op == OConst) {
		pa, pb := c.align(a, b)
		if len(pa) > 1 {
			same := false
			for i := range pa {
				if pa[i] == pb[i] {
					same = true
				}
			}
			if same {
				var out []*Term
				for i := range pa {
					if pa[i] == pb[i] {
						out = append(out, pa[i])
					} else {
						out = append(out, c.mkIte(cond, pa[i], pb[i]))
					}
				}
				return c.Concat(out...)
			}
		}
		if a.op == OConst && b.op == OConst {
			// peel equal bits
			return c.iteConst(cond, a, b)
		}
	}
	return c.mkIte(cond, a, b)
}

func xorLike(t *Term) bool { return t.op == OBxor || t.op == OBnot }

// iteXor: ite(c, x^k, x) = x ^ (c ? k : 0), piecewise, when the two sides are xor forms.
func (c *Ctx) iteXor(cond, a, b *Term) *Term {
	if a.w == 0 {
		return nil
	}
	has := false
	for _, t := range [2]*Term{a, b} {
		if xorLike(t) {
			has = true
		} else if t.op == OConcat {
			for _, p := range t.args {
				has = has || xorLike(p)
			}
		}
	}
	if !has {
		return nil
	}
	pa, pb := c.align(a, b)
	ds := make([]*Term, len(pa))
	useful := false
	for i := range pa {
		x, y := pa[i], pb[i]
		switch {
		case x == y:
			ds[i] = c.K(x.w, 0)
		case x.isConst() && y.isConst(), xorLike(x) || xorLike(y):
			d := c.bitop(OBxor, x, y)
			if !d.isConst() {
				continue
			}
			ds[i] = d
			if !x.isConst() {
				useful = true
			}
		}
	}
	if !useful {
		return nil
	}
	bit := c.rawIte(cond, c.K(1, 1), c.K(1, 0))
	out := make([]*Term, len(pa))
	for i := range pa {
		if ds[i] == nil {
			out[i] = c.mkIte(cond, pa[i], pb[i])
			continue
		}
		if ds[i].isZero() {
			out[i] = pb[i]
			continue
		}
		var m []*Term
		for j := ds[i].w - 1; j >= 0; j-- {
			if constBit(ds[i], j) == 1 {
				m = append(m, bit)
			} else {
				m = append(m, c.K(1, 0))
			}
		}
		out[i] = c.bitop(OBxor, pb[i], c.Concat(m...))
	}
	return c.Concat(out...)
}

func (c *Ctx) mkIte(cond, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst && b.op == OConst {
		return c.iteConst(cond, a, b)
	}
	return c.rawIte(cond, a, b)
}
func (c *Ctx) rawIte(cond, a, b *Term) *Term {
	if a.w == 1 && a.isConst() && b.isConst() && a != b {
		// bit of bool
		if cond.op == OEq && cond.args[0].w == 1 && cond.args[1].isConst() {
			// cond is (x = k)
			if (cond.args[1].val == 1) == (a.val == 1) {
				return cond.args[0]
			}
			return c.Bnot(cond.args[0])
		}
		if a.val == 0 {
			return c.Bnot(c.mk(&Term{op: OIte, w: 1, args: []*Term{cond, b, a}}))
		}
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

func constBit(t *Term, i int) uint {
	if t.big != nil {
		return t.big.Bit(i)
	}
	return uint(t.val>>uint(i)) & 1
}

func (c *Ctx) iteConst(cond, a, b *Term) *Term {
	if a.w > 64 || a.w == 1 {
		return c.rawIte(cond, a, b)
	}
	d := a.val ^ b.val
	if d == mask(a.w) && a.w > 8 {
		return c.rawIte(cond, a, b)
	}
	if bits.OnesCount64(d) > 12 {
		return c.rawIte(cond, a, b)
	}
	bit := c.rawIte(cond, c.K(1, 1), c.K(1, 0))
	nbit := c.Bnot(bit)
	var out []*Term
	i := a.w - 1
	for i >= 0 {
		if d>>uint(i)&1 == 1 {
			if a.val>>uint(i)&1 == 1 {
				out = append(out, bit)
			} else {
				out = append(out, nbit)
			}
			i--
			continue
		}
		j := i
		for j >= 0 && d>>uint(j)&1 == 0 {
			j--
		}
		out = append(out, c.K(i-j, a.val>>uint(j+1)))
		i = j
	}
	return c.Concat(out...)
}

// bool -> bv1
func (c *Ctx) B2V(b *Term) *Term { return c.Ite(b, c.K(1, 1), c.K(1, 0)) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w == 0 {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.F
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: OEq, args: []*Term{a, b}})
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.F
	}
	if !a.isConst() && !b.isConst() && tabOf(a) != nil {
		if r := c.tabCmp(a, b, func(x, y uint64) bool { return x == y }); r != nil {
			return r
		}
	}
	if a.op == OTab && b.op == OTab && a.name == b.name {
		x, y := a.args[0], b.args[0]
		tb := c.tables[a.name]
		n := uint64(len(tb.v))
		if tb.inj && x.w <= 64 && y.w <= 64 && c.Ub(x) < n && c.Ub(y) < n {
			w := max(x.w, y.w)
			return c.Eq(c.Zext(x, w), c.Zext(y, w))
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w <= 64 && c.Ub(a) < b.val {
			return c.F
		}
		if a.op == OTab {
			if r := c.tabEq(a, b.val); r != nil {
				return r
			}
		}
		if a.op == OIte {
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() || x.op == OIte || y.op == OIte {
				// push when at least one leaf is a constant (cheap)
				if x.isConst() && y.isConst() {
					if x == b {
						return a.args[0]
					}
					if y == b {
						return c.Not(a.args[0])
					}
					return c.F
				}
				if x.isConst() {
					if x == b {
						return c.Or(a.args[0], c.Eq(y, b))
					}
					return c.And(c.Not(a.args[0]), c.Eq(y, b))
				}
				if y.isConst() {
					if y == b {
						return c.Or(c.Not(a.args[0]), c.Eq(x, b))
					}
					return c.And(a.args[0], c.Eq(x, b))
				}
			}
		}
		switch a.op {
		case OBnot:
			return c.Eq(a.args[0], c.Bnot(b))
		case OBxor:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Bxor(a.args[1], b))
			}
		case OAdd:
			if k := a.args[len(a.args)-1]; k.isConst() {
				rest := c.addList(a.w, a.args[:len(a.args)-1])
				return c.Eq(rest, c.Sub(b, k))
			}
		case OSext:
			x := a.args[0]
			lo := c.Extract(b, x.w-1, 0)
			if c.Sext(lo, a.w) == b {
				return c.Eq(x, lo)
			}
			return c.F
		}
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := c.align(a, b)
		if len(pa) > 1 {
			// only split if it decides something or one is const or both are concats
			r := c.T
			for i := range pa {
				r = c.And(r, c.Eq(pa[i], pb[i]))
				if r == c.F {
					return c.F
				}
			}
			return r
		}
	}
	if a.op == OAdd && b.op == OAdd {
		// cancel common args
		na, nb := cancelCommon(a.args, b.args)
		if len(na) != len(a.args) {
			return c.Eq(c.addList(a.w, na), c.addList(a.w, nb))
		}
	}
	if a.op == OBxor && b.op == OBxor {
		na, nb := cancelCommon(a.args, b.args)
		if len(na) != len(a.args) {
			x, y := c.K(a.w, 0), c.K(a.w, 0)
			for _, t := range na {
				x = c.Bxor(x, t)
			}
			for _, t := range nb {
				y = c.Bxor(y, t)
			}
			return c.Eq(x, y)
		}
	}
	if a.w == 1 && !b.isConst() {
		// keep
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, args: []*Term{a, b}})
}

func cancelCommon(a, b []*Term) ([]*Term, []*Term) {
	used := make([]bool, len(b))
	var na []*Term
outer:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && x == y {
				used[j] = true
				continue outer
			}
		}
		na = append(na, x)
	}
	var nb []*Term
	for j, y := range b {
		if !used[j] {
			nb = append(nb, y)
		}
	}
	return na, nb
}

// ---- structure

func parts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// align splits a and b at common boundaries derived from concat pieces.
func (c *Ctx) align(a, b *Term) ([]*Term, []*Term) {
	pa := append([]*Term(nil), parts(a)...)
	pb := append([]*Term(nil), parts(b)...)
	var oa, ob []*Term
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		x, y := pa[i], pb[j]
		if x.w == y.w {
			oa = append(oa, x)
			ob = append(ob, y)
			i++
			j++
		} else if x.w > y.w {
			oa = append(oa, c.Extract(x, x.w-1, x.w-y.w))
			ob = append(ob, y)
			pa[i] = c.Extract(x, x.w-y.w-1, 0)
			j++
		} else {
			ob = append(ob, c.Extract(y, y.w-1, y.w-x.w))
			oa = append(oa, x)
			pb[j] = c.Extract(y, y.w-x.w-1, 0)
			i++
		}
	}
	return oa, ob
}

// Concat, most significant first.
func (c *Ctx) Concat(ts ...*Term) *Term {
	var out []*Term
	w := 0
	for _, t := range ts {
		if t.op == OConcat {
			for _, u := range t.args {
				out = c.catPush(out, u)
			}
		} else {
			out = c.catPush(out, t)
		}
		w += t.w
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OConcat, w: w, args: out})
}

func (c *Ctx) catPush(out []*Term, t *Term) []*Term {
	if len(out) == 0 {
		return append(out, t)
	}
	l := out[len(out)-1]
	if l.isConst() && t.isConst() {
		if l.w+t.w <= 64 {
			out[len(out)-1] = c.K(l.w+t.w, l.val<<uint(t.w)|t.val)
		} else {
			v := new(big.Int).Lsh(l.cbig(), uint(t.w))
			v.Or(v, t.cbig())
			out[len(out)-1] = c.KB(l.w+t.w, v)
		}
		return out
	}
	// adjacent extracts of same base
	if l.op == OExtract && t.op == OExtract && l.args[0] == t.args[0] && int(l.val) == int(t.val)+t.w {
		out[len(out)-1] = c.Extract(l.args[0], int(l.val)+l.w-1, int(t.val))
		return out
	}
	// ites with same condition merge: only when all leaves are const or extracts (keeps tables together)
	if l.op == OIte && t.op == OIte && l.args[0] == t.args[0] && l.w+t.w <= 64 {
		la, lb, ta, tb := l.args[1], l.args[2], t.args[1], t.args[2]
		if !(la.isConst() && lb.isConst() && ta.isConst() && tb.isConst()) {
			a, b := c.Concat(la, ta), c.Concat(lb, tb)
			if a.op != OConcat && b.op != OConcat {
				out[len(out)-1] = c.mk(&Term{op: OIte, w: a.w, args: []*Term{l.args[0], a, b}})
				return out
			}
		}
	}
	return append(out, t)
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	if w <= 0 || hi >= t.w || lo < 0 {
		panic(fmt.Sprintf("Extract %d %d of %d", hi, lo, t.w))
	}
	switch t.op {
	case OConst:
		if t.big == nil {
			return c.K(w, t.val>>uint(lo))
		}
		return c.KB(w, new(big.Int).Rsh(t.big, uint(lo)))
	case OExtract:
		return c.Extract(t.args[0], hi+int(t.val), lo+int(t.val))
	case OConcat:
		var out []*Term
		pos := t.w
		for _, p := range t.args {
			top := pos - 1
			bot := pos - p.w
			pos = bot
			h, l := hi, lo
			if h > top {
				h = top
			}
			if l < bot {
				l = bot
			}
			if h >= l {
				out = append(out, c.Extract(p, h-bot, l-bot))
			}
		}
		return c.Concat(out...)
	case OIte:
		if t.args[1].isConst() || t.args[2].isConst() || t.args[1].op == OConcat || t.args[2].op == OConcat {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OBand, OBor, OBxor:
		if len(t.args) == 2 && (t.args[0].isConst() || t.args[1].isConst()) || t.args[0].op == OConcat || t.args[1].op == OConcat || w == 1 {
			r := c.Extract(t.args[0], hi, lo)
			for _, a := range t.args[1:] {
				r = c.bitop(t.op, r, c.Extract(a, hi, lo))
			}
			return r
		}
	case OTab:
		tb := c.tables[t.name]
		vs := make([]uint64, len(tb.v))
		for i, v := range tb.v {
			vs[i] = v >> uint(lo) & mask(w)
		}
		return c.Tab(t.args[0], vs, w)
	case OBnot:
		return c.Bnot(c.Extract(t.args[0], hi, lo))
	case OAdd:
		if lo == 0 {
			var as []*Term
			for _, a := range t.args {
				as = append(as, c.Extract(a, hi, 0))
			}
			return c.addList(w, as)
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	case OSext:
		x := t.args[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
		if lo == 0 {
			return c.Sext(x, w)
		}
		if lo < x.w {
			return c.Sext(c.Extract(x, x.w-1, lo), w)
		}
		return c.Sext(c.Extract(x, x.w-1, x.w-1), w)
	}
	// extract of zero-bounded high part
	if t.w <= 64 {
		if ub := c.Ub(t); ub>>uint(lo) == 0 {
			return c.K(w, 0)
		}
	}
	return c.mk(&Term{op: OExtract, w: w, args: []*Term{t}, val: uint64(lo)})
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	return c.Concat(c.K(w-t.w, 0), t)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		v := t.cbig()
		if v.Bit(t.w-1) == 1 {
			v = new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return c.KB(w, v)
	}
	if t.op == OConcat && t.args[0].isConst() && constBit(t.args[0], t.args[0].w-1) == 0 {
		return c.Zext(t, w)
	}
	if t.op == OSext {
		return c.Sext(t.args[0], w)
	}
	if t.w <= 64 && t.w > 1 && c.Ub(t) < 1<<uint(t.w-1) {
		return c.Zext(t, w)
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.Sext(t.args[1], w), c.Sext(t.args[2], w))
	}
	return c.mk(&Term{op: OSext, w: w, args: []*Term{t}})
}

// Ub gives an upper bound (w<=64).
func (c *Ctx) Ub(t *Term) uint64 {
	if t.w > 64 || t.w == 0 {
		return ^uint64(0)
	}
	if t.ubOK {
		return t.ub
	}
	u := mask(t.w)
	switch t.op {
	case OConst:
		u = t.val
	case OIte:
		a, b := c.Ub(t.args[1]), c.Ub(t.args[2])
		u = max(a, b)
	case OConcat:
		u = 0
		for _, p := range t.args {
			u = u<<uint(p.w) | c.Ub(p)
		}
	case OUrem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			u = t.args[1].val - 1
		}
		if a := c.Ub(t.args[0]); a < u {
			u = a
		}
	case OUdiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			u = c.Ub(t.args[0]) / t.args[1].val
		}
	case OBand:
		for _, a := range t.args {
			u = min(u, c.Ub(a))
		}
	case OBor, OBxor:
		var o uint64
		for _, a := range t.args {
			o |= c.Ub(a)
		}
		u = 1<<uint(bits.Len64(o)) - 1
		if bits.Len64(o) == 64 {
			u = ^uint64(0)
		}
	case OAdd:
		var s uint64
		ok := true
		for _, a := range t.args {
			x := c.Ub(a)
			var cr uint64
			s, cr = bits.Add64(s, x, 0)
			if cr != 0 {
				ok = false
			}
		}
		if ok && s <= mask(t.w) {
			u = s
		}
	case OMul:
		hi, lo := bits.Mul64(c.Ub(t.args[0]), c.Ub(t.args[1]))
		if hi == 0 && lo <= mask(t.w) {
			u = lo
		}
	case OExtract:
		if int(t.val) == 0 {
			if a := c.Ub(t.args[0]); t.args[0].w <= 64 && a < u {
				u = a
			}
			if x := t.args[0]; x.w > 64 && x.op == OUrem && x.args[1].isConst() {
				if k := x.args[1].cbig(); k.IsUint64() && k.Sign() > 0 {
					u = min(u, k.Uint64()-1)
				}
			}
		} else if t.args[0].w <= 64 {
			if a := c.Ub(t.args[0]) >> t.val; a < u {
				u = a
			}
		}
	case OLshr:
		u = c.Ub(t.args[0])
	case OTab:
		u = c.tables[t.name].max
	}
	t.ub, t.ubOK = u, true
	return u
}

// ---- arithmetic

func (c *Ctx) Add(a, b *Term) *Term { return c.addList(a.w, []*Term{a, b}) }

func (c *Ctx) addList(w int, ts []*Term) *Term {
	var flat []*Term
	var k *big.Int
	var k64 uint64
	for _, t := range ts {
		if t.op == OAdd {
			for _, u := range t.args {
				if u.isConst() {
					if w <= 64 {
						k64 += u.val
					} else {
						if k == nil {
							k = new(big.Int)
						}
						k.Add(k, u.cbig())
					}
				} else {
					flat = append(flat, u)
				}
			}
		} else if t.isConst() {
			if w <= 64 {
				k64 += t.val
			} else {
				if k == nil {
					k = new(big.Int)
				}
				k.Add(k, t.cbig())
			}
		} else {
			flat = append(flat, t)
		}
	}
	// cancel x + -x  (neg is mul by all-ones const)
	if len(flat) > 1 {
		neg := map[*Term]int{}
		hasNeg := false
		for _, t := range flat {
			if t.op == OMul && t.args[1].isOnes() {
				neg[t.args[0]]++
				hasNeg = true
			}
		}
		if hasNeg {
			cancelled := map[*Term]int{}
			var f2 []*Term
			for _, t := range flat {
				if neg[t] > 0 {
					neg[t]--
					cancelled[t]++
					continue
				}
				f2 = append(f2, t)
			}
			if len(cancelled) > 0 {
				var f3 []*Term
				for _, t := range f2 {
					if t.op == OMul && t.args[1].isOnes() && cancelled[t.args[0]] > 0 {
						cancelled[t.args[0]]--
						continue
					}
					f3 = append(f3, t)
				}
				flat = f3
			}
		}
	}
	var kc *Term
	if w <= 64 {
		kc = c.K(w, k64)
	} else if k != nil {
		kc = c.KB(w, k)
	}
	if kc != nil && kc.isZero() {
		kc = nil
	}
	if len(flat) == 0 {
		if kc == nil {
			return c.K(w, 0)
		}
		return kc
	}
	if len(flat) == 1 && kc == nil {
		return flat[0]
	}
	if c.noTele == 0 {
		all := flat
		if kc != nil {
			all = append(append([]*Term(nil), flat...), kc)
		}
		if r := c.telescope(w, all); r != nil {
			return r
		}
	}
	// disjoint pieces => concat (bits do not overlap)
	if len(flat) == 2 && kc == nil || len(flat) == 1 {
		var a, b *Term
		a = flat[0]
		if kc != nil {
			b = kc
		} else {
			b = flat[1]
		}
		if r := c.disjointMerge(a, b); r != nil {
			return r
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	if kc != nil {
		flat = append(flat, kc)
	}
	return c.mk(&Term{op: OAdd, w: w, args: flat})
}

// disjointMerge returns a|b if the aligned pieces never overlap, else nil.
func (c *Ctx) disjointMerge(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	pa, pb := c.align(a, b)
	var out []*Term
	for i := range pa {
		if pa[i].isZero() {
			out = append(out, pb[i])
		} else if pb[i].isZero() {
			out = append(out, pa[i])
		} else {
			return nil
		}
	}
	return c.Concat(out...)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Mul(a, c.KB(a.w, big.NewInt(-1))) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.K(a.w, 0)
	}
	return c.Add(a, c.Neg(b))
}

func log2const(t *Term) int {
	if !t.isConst() {
		return -1
	}
	v := t.cbig()
	n := v.BitLen()
	if n == 0 {
		return -1
	}
	if new(big.Int).Lsh(big.NewInt(1), uint(n-1)).Cmp(v) == 0 {
		return n - 1
	}
	return -1
}

func (c *Ctx) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() { // both
		return c.KB(w, new(big.Int).Mul(a.cbig(), b.cbig()))
	}
	if b.isConst() {
		if b.isZero() {
			return b
		}
		if b.isOne() {
			return a
		}
		if k := log2const(b); k >= 0 {
			return c.shlK(a, k)
		}
		if b.isOnes() && w <= 64 && a.op == OConcat && len(a.args) == 2 && a.args[0].isZero() && a.args[1].w == 1 {
			ts := make([]*Term, w) // minus a bit is the bit everywhere
			for i := range ts {
				ts[i] = a.args[1]
			}
			return c.Concat(ts...)
		}
		if a.op == OMul && a.args[1].isConst() {
			return c.Mul(a.args[0], c.KB(w, new(big.Int).Mul(a.args[1].cbig(), b.cbig())))
		}
		if a.op == OAdd && (b.isOnes() || a.args[len(a.args)-1].isConst()) {
			var ts []*Term
			for _, t := range a.args {
				ts = append(ts, c.Mul(t, b))
			}
			return c.addList(w, ts)
		}
		return c.mk(&Term{op: OMul, w: w, args: []*Term{a, b}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: w, args: []*Term{a, b}})
}

func (c *Ctx) shlK(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return c.K(a.w, 0)
	}
	return c.Concat(c.Extract(a, a.w-1-k, 0), c.K(k, 0))
}
func (c *Ctx) lshrK(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return c.K(a.w, 0)
	}
	return c.Concat(c.K(k, 0), c.Extract(a, a.w-1, k))
}

func (c *Ctx) constShift(b *Term, w int) (int, bool) {
	if !b.isConst() {
		return 0, false
	}
	v := b.cbig()
	if !v.IsInt64() || v.Int64() >= int64(w) {
		return w, true
	}
	return int(v.Int64()), true
}

// Shl etc: shift amount has the same width as a.
func (c *Ctx) Shl(a, b *Term) *Term {
	if k, ok := c.constShift(b, a.w); ok {
		return c.shlK(a, k)
	}
	if a.isZero() {
		return a
	}
	return c.mk(&Term{op: OShl, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if k, ok := c.constShift(b, a.w); ok {
		return c.lshrK(a, k)
	}
	if a.isZero() {
		return a
	}
	return c.mk(&Term{op: OLshr, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if k, ok := c.constShift(b, a.w); ok {
		if k >= a.w {
			k = a.w - 1
		}
		return c.Sext(c.Extract(a, a.w-1, k), a.w)
	}
	return c.mk(&Term{op: OAshr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.isZero() {
		return c.mk(&Term{op: OUdiv, w: a.w, args: []*Term{a, b}})
	}
	if a.isConst() && b.isConst() {
		return c.KB(a.w, new(big.Int).Div(a.cbig(), b.cbig()))
	}
	if k := log2const(b); k >= 0 {
		return c.lshrK(a, k)
	}
	if a.w <= 64 && b.isConst() && c.Ub(a) < b.val {
		return c.K(a.w, 0)
	}
	// (x*k + r)/k with no overflow and r<k is not attempted.
	if n := c.narrow(a, b); n > 0 && n < a.w {
		return c.Zext(c.mk(&Term{op: OUdiv, w: n, args: []*Term{c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)}}), a.w)
	}
	return c.mk(&Term{op: OUdiv, w: a.w, args: []*Term{a, b}})
}

// narrow gives the number of low bits sufficient for both a and b (leading zero concat).
func (c *Ctx) narrow(a, b *Term) int { return max(c.sigbits(a), c.sigbits(b)) }
func (c *Ctx) sigbits(a *Term) int {
	if a.isConst() {
		return max(1, a.cbig().BitLen())
	}
	if a.w <= 64 {
		return max(1, bits.Len64(c.Ub(a)))
	}
	if a.op == OConcat && a.args[0].isZero() {
		return a.w - a.args[0].w
	}
	if a.op == OIte {
		return max(c.sigbits(a.args[1]), c.sigbits(a.args[2]))
	}
	if a.op == OUrem && a.args[1].isConst() && !a.args[1].isZero() {
		return max(1, new(big.Int).Sub(a.args[1].cbig(), big.NewInt(1)).BitLen())
	}
	return a.w
}

func (c *Ctx) Urem(a, b *Term) *Term {
	if b.isZero() {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.KB(a.w, new(big.Int).Mod(a.cbig(), b.cbig()))
	}
	if k := log2const(b); k >= 0 {
		if k == 0 {
			return c.K(a.w, 0)
		}
		return c.Zext(c.Extract(a, k-1, 0), a.w)
	}
	if a.w <= 64 && b.isConst() && c.Ub(a) < b.val {
		return a
	}
	if n := c.narrow(a, b); n > 0 && n < a.w {
		return c.Zext(c.Urem(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.w)
	}
	r := c.mk(&Term{op: OUrem, w: a.w, args: []*Term{a, b}})
	if b.isConst() {
		if nb := new(big.Int).Sub(b.cbig(), big.NewInt(1)).BitLen(); nb > 0 && nb < a.w {
			return c.Zext(c.mk(&Term{op: OExtract, w: nb, args: []*Term{r}}), a.w)
		}
	}
	return r
}

func (c *Ctx) isNonneg(a *Term) bool {
	if a.isConst() {
		return a.cbig().Bit(a.w-1) == 0
	}
	if a.w <= 64 {
		return c.Ub(a) < 1<<uint(a.w-1)
	}
	return a.op == OConcat && a.args[0].isConst() && constBit(a.args[0], a.args[0].w-1) == 0
}

func toSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func (c *Ctx) Sdiv(a, b *Term) *Term {
	if c.isNonneg(a) && c.isNonneg(b) {
		return c.Udiv(a, b)
	}
	if a.isConst() && b.isConst() && !b.isZero() {
		return c.KB(a.w, new(big.Int).Quo(toSigned(a.cbig(), a.w), toSigned(b.cbig(), b.w)))
	}
	return c.mk(&Term{op: OSdiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if c.isNonneg(a) && c.isNonneg(b) {
		return c.Urem(a, b)
	}
	if a.isConst() && b.isConst() && !b.isZero() {
		return c.KB(a.w, new(big.Int).Rem(toSigned(a.cbig(), a.w), toSigned(b.cbig(), b.w)))
	}
	return c.mk(&Term{op: OSrem, w: a.w, args: []*Term{a, b}})
}

// ---- bitwise

func (c *Ctx) Bnot(a *Term) *Term {
	switch a.op {
	case OConst:
		if a.big == nil {
			return c.K(a.w, ^a.val)
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(a.w))
		m.Sub(m, big.NewInt(1))
		return c.KB(a.w, m.Xor(m, a.big))
	case OBnot:
		return a.args[0]
	case OConcat:
		var out []*Term
		for _, p := range a.args {
			out = append(out, c.Bnot(p))
		}
		return c.Concat(out...)
	case OIte:
		if a.args[1].isConst() && a.args[2].isConst() && a.w > 1 {
			return c.Ite(a.args[0], c.Bnot(a.args[1]), c.Bnot(a.args[2]))
		}
	}
	return c.mk(&Term{op: OBnot, w: a.w, args: []*Term{a}})
}

func (c *Ctx) Band(a, b *Term) *Term { return c.bitop(OBand, a, b) }
func (c *Ctx) Bor(a, b *Term) *Term  { return c.bitop(OBor, a, b) }
func (c *Ctx) Bxor(a, b *Term) *Term { return c.bitop(OBxor, a, b) }

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bitop width %d %d", a.w, b.w))
	}
	if a == b {
		if op == OBxor {
			return c.K(a.w, 0)
		}
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.big == nil {
			switch op {
			case OBand:
				return c.K(a.w, a.val&b.val)
			case OBor:
				return c.K(a.w, a.val|b.val)
			default:
				return c.K(a.w, a.val^b.val)
			}
		}
		r := new(big.Int)
		switch op {
		case OBand:
			r.And(a.big, b.big)
		case OBor:
			r.Or(a.big, b.big)
		default:
			r.Xor(a.big, b.big)
		}
		return c.KB(a.w, r)
	}
	if b.isConst() {
		z, o := b.isZero(), b.isOnes()
		switch op {
		case OBand:
			if z {
				return b
			}
			if o {
				return a
			}
		case OBor:
			if z {
				return a
			}
			if o {
				return b
			}
		case OBxor:
			if z {
				return a
			}
			if o {
				return c.Bnot(a)
			}
		}
		// split on runs of the constant for and/or
		if op != OBxor || a.op == OConcat {
			var out []*Term
			i := a.w - 1
			runs := 0
			for i >= 0 {
				bit := constBit(b, i)
				j := i
				for j >= 0 && constBit(b, j) == bit {
					j--
				}
				runs++
				x := c.Extract(a, i, j+1)
				n := i - j
				switch {
				case op == OBand && bit == 1, op == OBor && bit == 0, op == OBxor && bit == 0:
					out = append(out, x)
				case op == OBand:
					out = append(out, c.K(n, 0))
				case op == OBor:
					out = append(out, c.Bnot(c.K(n, 0)))
				default:
					out = append(out, c.Bnot(x))
				}
				i = j
			}
			return c.Concat(out...)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := c.align(a, b)
		if len(pa) > 1 {
			useful := a.op == OConcat && b.op == OConcat
			for i := range pa {
				if pa[i].isConst() || pb[i].isConst() || pa[i] == pb[i] {
					useful = true
				}
			}
			if useful {
				var out []*Term
				for i := range pa {
					out = append(out, c.bitop(op, pa[i], pb[i]))
				}
				return c.Concat(out...)
			}
		}
	}
	if c.Bnot(a) == b {
		switch op {
		case OBand:
			return c.K(a.w, 0)
		default:
			return c.Bnot(c.K(a.w, 0))
		}
	}
	// n-ary flatten, sorted
	var flat []*Term
	var k *Term
	neg := false
	add := func(t *Term) {
		if op == OBxor && t.op == OBnot {
			neg = !neg
			t = t.args[0]
		}
		if t.isConst() {
			if k == nil {
				k = t
			} else {
				k = c.bitop(op, k, t)
			}
		} else {
			flat = append(flat, t)
		}
	}
	for _, t := range []*Term{a, b} {
		if op == OBxor && t.op == OBnot {
			neg = !neg
			t = t.args[0]
		}
		if t.op == op && len(t.args) < 64 {
			for _, u := range t.args {
				add(u)
			}
		} else {
			add(t)
		}
	}
	if neg {
		all1 := c.Bnot(c.K(a.w, 0))
		if k == nil {
			k = all1
		} else {
			k = c.bitop(op, k, all1)
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	var f2 []*Term
	for i := 0; i < len(flat); i++ {
		if i+1 < len(flat) && flat[i] == flat[i+1] {
			if op == OBxor {
				i++
				continue
			}
			continue
		}
		f2 = append(f2, flat[i])
	}
	flat = f2
	if k != nil && ((op == OBand && k.isOnes()) || (op != OBand && k.isZero())) {
		k = nil
	}
	if op == OBxor && k != nil && k.isOnes() {
		if len(flat) == 0 {
			return k
		}
		if len(flat) == 1 {
			return c.Bnot(flat[0])
		}
		return c.Bnot(c.mk(&Term{op: op, w: a.w, args: flat}))
	}
	if k != nil {
		flat = append(flat, k)
	}
	if len(flat) == 0 {
		if op == OBand {
			return c.Bnot(c.K(a.w, 0))
		}
		return c.K(a.w, 0)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return c.mk(&Term{op: op, w: a.w, args: flat})
}

// ---- comparisons

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b || b.isZero() {
		return c.F
	}
	if r := c.tabCmp(a, b, func(x, y uint64) bool { return x < y }); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cbig().Cmp(b.cbig()) < 0)
	}
	if a.w <= 64 {
		if b.isConst() && c.Ub(a) < b.val {
			return c.T
		}
		if a.isConst() && c.Ub(b) <= a.val {
			return c.F
		}
	}
	if a.isOnes() {
		return c.F
	}
	if b.isOne() {
		return c.Eq(a, c.K(a.w, 0))
	}
	if a.isZero() {
		return c.Not(c.Eq(b, a))
	}
	if n := c.cmpNarrow(a, b); n < a.w {
		return c.Ult(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0))
	}
	if r := c.cmpIte(a, b, c.Ult); r != nil {
		return r
	}
	return c.mk(&Term{op: OUlt, args: []*Term{a, b}})
}

// cmpIte pushes comparison with const into ite with const leaves.
func (c *Ctx) cmpIte(a, b *Term, f func(a, b *Term) *Term) *Term {
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

func (c *Ctx) cmpNarrow(a, b *Term) int {
	n := c.narrow(a, b)
	if a.isConst() && c.sigbits(a) > c.sigbits(b) || b.isConst() && c.sigbits(b) > c.sigbits(a) {
		return a.w
	}
	// only narrow when structural (concat) to keep things cheap
	if (a.op == OConcat || a.isConst()) && (b.op == OConcat || b.isConst()) && (a.isConst() || a.args[0].isZero()) && (b.isConst() || b.args[0].isZero()) {
		return n
	}
	return a.w
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b || a.isZero() || b.isOnes() {
		return c.T
	}
	if r := c.tabCmp(a, b, func(x, y uint64) bool { return x <= y }); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.cbig().Cmp(b.cbig()) <= 0)
	}
	if a.w <= 64 {
		if b.isConst() && c.Ub(a) <= b.val {
			return c.T
		}
		if a.isConst() && c.Ub(b) < a.val {
			return c.F
		}
	}
	if b.isZero() {
		return c.Eq(a, b)
	}
	if a.isOne() {
		return c.Not(c.Eq(b, c.K(b.w, 0)))
	}
	// a <= k  -> a < k+1 ; k <= b -> not(b<k): keep a canonical form with strict ops on constants
	if b.isConst() {
		return c.Ult(a, c.Add(b, c.K(b.w, 1)))
	}
	if a.isConst() {
		return c.Ult(c.Sub(a, c.K(a.w, 1)), b)
	}
	if n := c.cmpNarrow(a, b); n < a.w {
		return c.Ule(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0))
	}
	return c.mk(&Term{op: OUle, args: []*Term{a, b}})
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	na, nb := c.isNonneg(a), c.isNonneg(b)
	if na && nb {
		return c.Ult(a, b)
	}
	if r := c.tabCmp(a, b, func(x, y uint64) bool { return sx(x, a.w) < sx(y, a.w) }); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return c.Bool(toSigned(a.cbig(), a.w).Cmp(toSigned(b.cbig(), b.w)) < 0)
	}
	if na && b.isConst() { // b negative
		return c.F
	}
	if nb && a.isConst() {
		return c.T
	}
	if b.isZero() {
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.K(1, 1))
	}
	if r := c.cmpIte(a, b, c.Slt); r != nil {
		return r
	}
	return c.mk(&Term{op: OSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	na, nb := c.isNonneg(a), c.isNonneg(b)
	if na && nb {
		return c.Ule(a, b)
	}
	if r := c.tabCmp(a, b, func(x, y uint64) bool { return sx(x, a.w) <= sx(y, a.w) }); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return c.Bool(toSigned(a.cbig(), a.w).Cmp(toSigned(b.cbig(), b.w)) <= 0)
	}
	if na && b.isConst() {
		return c.F
	}
	if nb && a.isConst() {
		return c.T
	}
	if a.isZero() {
		return c.Eq(c.Extract(b, b.w-1, b.w-1), c.K(1, 0))
	}
	if r := c.cmpIte(a, b, c.Sle); r != nil {
		return r
	}
	return c.mk(&Term{op: OSle, args: []*Term{a, b}})
}

// ---- mux tree: table lookup by symbolic index.

type table struct {
	v    []uint64
	inj  bool
	max  uint64
	runs []tabRun
}

// tabRun: indices lo..hi map to v+step*(i-lo).
type tabRun struct{ lo, hi, v, step uint64 }

// Tab is the constant table lookup vs[idx] (the last element beyond the end), w bits wide.
func (c *Ctx) Tab(idx *Term, vs []uint64, w int) *Term {
	if idx.w < 16 && len(vs) > 1<<uint(idx.w) {
		vs = vs[:1<<uint(idx.w)]
	}
	n := len(vs)
	if idx.isConst() {
		v := idx.cbig()
		if v.IsInt64() && v.Int64() < int64(n) {
			return c.K(w, vs[v.Int64()])
		}
		return c.K(w, vs[n-1])
	}
	if idx.w <= 64 {
		if ub := c.Ub(idx); ub < uint64(n-1) {
			vs = vs[:ub+1]
			n = len(vs)
		}
	}
	same, ident := true, true
	mx := uint64(0)
	for i, v := range vs {
		same = same && v == vs[0]
		ident = ident && v == uint64(i)
		mx = max(mx, v)
	}
	if same {
		return c.K(w, vs[0])
	}
	inRange := idx.w <= 64 && c.Ub(idx) < uint64(n)
	if ident && inRange {
		if idx.w > w {
			return c.Extract(idx, w-1, 0)
		}
		return c.Zext(idx, w)
	}
	if nb := bits.Len64(mx); nb < w {
		return c.Zext(c.Tab(idx, vs, nb), w)
	}
	key := fmt.Sprint("tab", vs)
	if c.tables == nil {
		c.tables = map[string]*table{}
	}
	if c.tables[key] == nil {
		tb := &table{v: vs, inj: true, max: mx}
		seen := map[uint64]bool{}
		for i, v := range vs {
			if seen[v] {
				tb.inj = false
			}
			seen[v] = true
			if k := len(tb.runs) - 1; k >= 0 {
				r := &tb.runs[k]
				if r.lo == r.hi && (v == r.v || v == r.v+1) {
					r.step, r.hi = v-r.v, uint64(i)
					continue
				}
				if r.lo < r.hi && v == r.v+r.step*(uint64(i)-r.lo) {
					r.hi = uint64(i)
					continue
				}
			}
			tb.runs = append(tb.runs, tabRun{uint64(i), uint64(i), v, 0})
		}
		c.tables[key] = tb
	}
	return c.mk(&Term{op: OTab, w: w, args: []*Term{idx}, name: key, tab: c.tables[key]})
}

// tabOf sees through zero extension to a table lookup.
func tabOf(t *Term) *Term {
	for t.op == OConcat && len(t.args) == 2 && t.args[0].isZero() {
		t = t.args[1]
	}
	if t.op == OTab {
		return t
	}
	return nil
}

// tabCmp folds a comparison between lookups on the same index, or with a constant.
func (c *Ctx) tabCmp(a, b *Term, f func(x, y uint64) bool) *Term {
	if a.w > 64 {
		return nil
	}
	ta, tb := tabOf(a), tabOf(b)
	var idx *Term
	n := 0
	switch {
	case ta != nil && tb != nil && ta.args[0] == tb.args[0] && len(ta.tab.v) == len(tb.tab.v):
		idx, n = ta.args[0], len(ta.tab.v)
	case ta != nil && b.isConst():
		idx, n = ta.args[0], len(ta.tab.v)
	case tb != nil && a.isConst():
		idx, n = tb.args[0], len(tb.tab.v)
	default:
		return nil
	}
	at := func(t, tab *Term, i int) uint64 {
		if tab == nil {
			return t.val
		}
		return tab.tab.v[i]
	}
	vs := make([]uint64, n)
	for i := range vs {
		if f(at(a, ta, i), at(b, tb, i)) {
			vs[i] = 1
		}
	}
	return c.Eq(c.Tab(idx, vs, 1), c.K(1, 1))
}

// tabEq: lookup equals a constant.
func (c *Ctx) tabEq(t *Term, k uint64) *Term {
	tb := c.tables[t.name]
	idx := t.args[0]
	n := len(tb.v)
	ub := ^uint64(0)
	if idx.w <= 64 {
		ub = c.Ub(idx)
	}
	r := c.F
	cnt := 0
	for i := 0; i < n; {
		if tb.v[i] != k || uint64(i) > ub {
			i++
			continue
		}
		j := i
		for j+1 < n && tb.v[j+1] == k {
			j++
		}
		if cnt++; cnt > 12 {
			return nil
		}
		switch {
		case j == n-1 && ub >= uint64(n): // the last element also stands for everything beyond
			r = c.Or(r, c.Ule(c.K(idx.w, uint64(i)), idx))
		case i == j:
			r = c.Or(r, c.Eq(idx, c.K(idx.w, uint64(i))))
		default:
			r = c.Or(r, c.And(c.Ule(c.K(idx.w, uint64(i)), idx), c.Ule(idx, c.K(idx.w, uint64(j)))))
		}
		i = j + 1
	}
	return r
}

// Mux returns elems[idx]; indexes beyond len(elems) give an unspecified element.
func (c *Ctx) Mux(idx *Term, elems []*Term) *Term {
	n := len(elems)
	if n == 1 {
		return elems[0]
	}
	allK := true
	for _, e := range elems {
		if !e.isConst() {
			allK = false
			break
		}
	}
	// a lookup by the result of a constant lookup is one composed lookup
	base := idx
	for base.op == OConcat && len(base.args) == 2 && base.args[0].isZero() {
		base = base.args[1]
	}
	if base.op == OTab {
		tb := c.tables[base.name]
		comp := make([]*Term, len(tb.v))
		for i, v := range tb.v {
			if v < uint64(n) {
				comp[i] = elems[v]
			} else {
				comp[i] = elems[n-1] // excluded by the bounds check
			}
		}
		if allK && elems[0].w <= 64 {
			vs := make([]uint64, len(comp))
			for i, e := range comp {
				vs[i] = e.val
			}
			return c.Tab(base.args[0], vs, elems[0].w)
		}
		return c.Mux(base.args[0], comp)
	}
	if allK && n >= 32 && elems[0].w <= 64 && !base.isConst() && base.op != OIte {
		vs := make([]uint64, n)
		for i, e := range elems {
			vs[i] = e.val
		}
		if t := c.wires(base, vs, elems[0].w); t != nil {
			return t
		}
		return c.Tab(base, vs, elems[0].w)
	}
	return c.mux1(idx, elems)
}

// wires is vs[idx] where each bit of the table's values is constant or a copy of one bit of the index.
func (c *Ctx) wires(idx *Term, vs []uint64, w int) *Term {
	n := len(vs)
	k := bits.Len(uint(n)) - 1
	if n != 1<<uint(k) || n < 256 || idx.w < k {
		return nil
	}
	v0 := vs[0]
	from := make([]int, w)
	for b := range from {
		from[b] = -1
	}
	for j := 0; j < k; j++ {
		d := vs[1<<uint(j)] ^ v0
		if d&v0 != 0 {
			return nil
		}
		for b := 0; b < w; b++ {
			if d>>uint(b)&1 == 1 {
				if from[b] >= 0 {
					return nil
				}
				from[b] = j
			}
		}
	}
	for i, v := range vs {
		want := v0
		for b, j := range from {
			if j >= 0 && i>>uint(j)&1 == 1 {
				want |= 1 << uint(b)
			}
		}
		if v != want {
			return nil
		}
	}
	return c.wire(idx, v0, from)
}

// wire puts a word together from constant bits and bits of t.
func (c *Ctx) wire(t *Term, v0 uint64, from []int) *Term {
	var out *Term
	for b := 0; b < len(from); {
		e := b + 1
		var p *Term
		if j := from[b]; j < 0 {
			for e < len(from) && from[e] < 0 {
				e++
			}
			p = c.K(e-b, v0>>uint(b)&(1<<uint(e-b)-1))
		} else {
			for e < len(from) && from[e] == j+e-b {
				e++
			}
			p = c.Extract(t, j+e-b-1, j)
		}
		if out == nil {
			out = p
		} else {
			out = c.Concat(p, out)
		}
		b = e
	}
	return out
}

func (c *Ctx) mux1(idx *Term, elems []*Term) *Term {
	n := len(elems)
	// index that is an ite tree with constant leaves: apply to the leaves
	if r, ok := c.applyLeaves(idx, elems, map[*Term]*Term{}, 4096); ok {
		return r
	}
	nb := bits.Len(uint(n - 1))
	if idx.w > nb {
		idx = c.Extract(idx, nb-1, 0)
	}
	if nb > idx.w {
		nb = idx.w
	}
	return c.muxRec(idx, nb-1, elems)
}

func (c *Ctx) applyLeaves(idx *Term, elems []*Term, memo map[*Term]*Term, budget int) (*Term, bool) {
	if idx.isConst() {
		v := idx.cbig()
		if !v.IsInt64() || v.Int64() >= int64(len(elems)) {
			return elems[len(elems)-1], true // excluded by the bounds check
		}
		return elems[v.Int64()], true
	}
	if idx.op != OIte {
		return nil, false
	}
	if r, ok := memo[idx]; ok {
		return r, r != nil
	}
	if len(memo) > budget {
		return nil, false
	}
	a, ok := c.applyLeaves(idx.args[1], elems, memo, budget)
	if !ok {
		memo[idx] = nil
		return nil, false
	}
	b, ok := c.applyLeaves(idx.args[2], elems, memo, budget)
	if !ok {
		memo[idx] = nil
		return nil, false
	}
	r := c.Ite(idx.args[0], a, b)
	memo[idx] = r
	return r, true
}

func (c *Ctx) muxRec(idx *Term, bit int, elems []*Term) *Term {
	if len(elems) == 1 || bit < 0 {
		return elems[0]
	}
	half := 1 << uint(bit)
	if len(elems) <= half {
		return c.muxRec(idx, bit-1, elems)
	}
	lo := c.muxRec(idx, bit-1, elems[:half])
	hi := c.muxRec(idx, bit-1, elems[half:])
	return c.Ite(c.Eq(c.Extract(idx, bit, bit), c.K(1, 1)), hi, lo)
}

// ---- printing / evaluation

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.big != nil {
			fmt.Fprintf(sb, "0x%x:%d", t.big, t.w)
		} else {
			fmt.Fprintf(sb, "0x%x:%d", t.val, t.w)
		}
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OVar:
		sb.WriteString(t.name)
	case OExtract:
		t.args[0].str(sb, d+1)
		fmt.Fprintf(sb, "[%d:%d]", int(t.val)+t.w-1, t.val)
	default:
		if d > 8 {
			sb.WriteString("...")
			return
		}
		n := opNames[t.op]
		if t.op == OTab {
			n = "tab"
		}
		if t.op == OSext {
			n = fmt.Sprintf("sext%d", t.w)
		}
		sb.WriteString("(" + n)
		for _, a := range t.args {
			sb.WriteString(" ")
			a.str(sb, d+1)
		}
		sb.WriteString(")")
	}
}

// Model maps variables to values.
type Model struct {
	u   map[*Term]uint64
	b   map[*Term]*big.Int
	gen int
}

// EvalBool evaluates a boolean under a model (missing vars are 0).
func (c *Ctx) EvalBool(t *Term, m *Model) bool {
	v, _ := c.eval(t, m)
	return v != 0
}

// EvalBV evaluates to a big.
func (c *Ctx) EvalBV(t *Term, m *Model) *big.Int {
	v, b := c.eval(t, m)
	if b != nil {
		return b
	}
	return new(big.Int).SetUint64(v)
}

func (c *Ctx) eval(t *Term, m *Model) (uint64, *big.Int) {
	switch t.op {
	case OConst:
		return t.val, t.big
	case OTrue:
		return 1, nil
	case OFalse:
		return 0, nil
	}
	if t.evGen == m.gen {
		return t.evVal, t.evBig
	}
	v, b := c.eval1(t, m)
	if t.w > 64 {
		if b == nil {
			b = new(big.Int).SetUint64(v)
		}
		v = 0
	} else if t.w > 0 {
		if b != nil {
			v = new(big.Int).And(b, new(big.Int).SetUint64(mask(t.w))).Uint64()
			b = nil
		}
		v &= mask(t.w)
	}
	t.evGen, t.evVal, t.evBig = m.gen, v, b
	return v, b
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sx(v uint64, w int) int64 {
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

func (c *Ctx) eval1(t *Term, m *Model) (uint64, *big.Int) {
	switch t.op {
	case OVar:
		if t.w > 64 {
			if b := m.b[t]; b != nil {
				return 0, b
			}
			return 0, new(big.Int)
		}
		return m.u[t], nil
	case ONot:
		v, _ := c.eval(t.args[0], m)
		return 1 - v, nil
	case OAnd:
		for _, a := range t.args {
			if v, _ := c.eval(a, m); v == 0 {
				return 0, nil
			}
		}
		return 1, nil
	case OOr:
		for _, a := range t.args {
			if v, _ := c.eval(a, m); v != 0 {
				return 1, nil
			}
		}
		return 0, nil
	case OIte:
		if v, _ := c.eval(t.args[0], m); v != 0 {
			return c.eval(t.args[1], m)
		}
		return c.eval(t.args[2], m)
	case OTab:
		tb := c.tables[t.name]
		v, b := c.eval(t.args[0], m)
		if b != nil || t.args[0].w > 64 {
			v = ^uint64(0)
			if b != nil && b.IsUint64() {
				v = b.Uint64()
			}
		}
		if v >= uint64(len(tb.v)) {
			v = uint64(len(tb.v)) - 1
		}
		return tb.v[v], nil
	}
	wide := t.w > 64
	for _, a := range t.args {
		if a.w > 64 {
			wide = true
		}
	}
	if !wide {
		var vs [3]uint64
		var x []uint64
		if len(t.args) <= 3 {
			x = vs[:len(t.args)]
		} else {
			x = make([]uint64, len(t.args))
		}
		for i, a := range t.args {
			x[i], _ = c.eval(a, m)
		}
		aw := t.args[0].w
		switch t.op {
		case OEq:
			return b2u(x[0] == x[1]), nil
		case OAdd:
			var s uint64
			for _, v := range x {
				s += v
			}
			return s, nil
		case OMul:
			return x[0] * x[1], nil
		case OUdiv:
			if x[1] == 0 {
				return ^uint64(0), nil
			}
			return x[0] / x[1], nil
		case OUrem:
			if x[1] == 0 {
				return x[0], nil
			}
			return x[0] % x[1], nil
		case OSdiv, OSrem:
			a, b := sx(x[0], aw), sx(x[1], aw)
			if t.op == OSdiv {
				if b == 0 {
					if a >= 0 {
						return ^uint64(0), nil
					}
					return 1, nil
				}
				if b == -1 {
					return uint64(-a), nil
				}
				return uint64(a / b), nil
			}
			if b == 0 {
				return x[0], nil
			}
			if b == -1 {
				return 0, nil
			}
			return uint64(a % b), nil
		case OBand:
			r := x[0]
			for _, v := range x[1:] {
				r &= v
			}
			return r, nil
		case OBor:
			r := x[0]
			for _, v := range x[1:] {
				r |= v
			}
			return r, nil
		case OBxor:
			r := x[0]
			for _, v := range x[1:] {
				r ^= v
			}
			return r, nil
		case OBnot:
			return ^x[0], nil
		case OShl:
			if x[1] >= uint64(aw) {
				return 0, nil
			}
			return x[0] << x[1], nil
		case OLshr:
			if x[1] >= uint64(aw) {
				return 0, nil
			}
			return x[0] >> x[1], nil
		case OAshr:
			s := x[1]
			if s >= uint64(aw) {
				s = uint64(aw - 1)
			}
			return uint64(sx(x[0], aw) >> s), nil
		case OConcat:
			var r uint64
			for i, a := range t.args {
				r = r<<uint(a.w) | x[i]
			}
			return r, nil
		case OExtract:
			return x[0] >> t.val, nil
		case OSext:
			return uint64(sx(x[0], aw)), nil
		case OUlt:
			return b2u(x[0] < x[1]), nil
		case OUle:
			return b2u(x[0] <= x[1]), nil
		case OSlt:
			return b2u(sx(x[0], aw) < sx(x[1], aw)), nil
		case OSle:
			return b2u(sx(x[0], aw) <= sx(x[1], aw)), nil
		}
		panic("eval op")
	}
	x := make([]*big.Int, len(t.args))
	for i, a := range t.args {
		x[i] = c.EvalBV(a, m)
	}
	aw := t.args[0].w
	mod := func(v *big.Int) (uint64, *big.Int) {
		mm := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		return 0, v.Mod(v, mm)
	}
	r := new(big.Int)
	switch t.op {
	case OEq:
		return b2u(x[0].Cmp(x[1]) == 0), nil
	case OAdd:
		for _, v := range x {
			r.Add(r, v)
		}
		return mod(r)
	case OMul:
		return mod(r.Mul(x[0], x[1]))
	case OUdiv:
		if x[1].Sign() == 0 {
			return mod(big.NewInt(-1))
		}
		return 0, r.Div(x[0], x[1])
	case OUrem:
		if x[1].Sign() == 0 {
			return 0, x[0]
		}
		return 0, r.Mod(x[0], x[1])
	case OSdiv:
		if x[1].Sign() == 0 {
			if x[0].Bit(aw-1) == 0 {
				return mod(big.NewInt(-1))
			}
			return 0, big.NewInt(1)
		}
		return mod(r.Quo(toSigned(x[0], aw), toSigned(x[1], aw)))
	case OSrem:
		if x[1].Sign() == 0 {
			return 0, x[0]
		}
		return mod(r.Rem(toSigned(x[0], aw), toSigned(x[1], aw)))
	case OBand:
		r.Set(x[0])
		for _, v := range x[1:] {
			r.And(r, v)
		}
		return 0, r
	case OBor:
		for _, v := range x {
			r.Or(r, v)
		}
		return 0, r
	case OBxor:
		for _, v := range x {
			r.Xor(r, v)
		}
		return 0, r
	case OBnot:
		mm := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		mm.Sub(mm, big.NewInt(1))
		return 0, r.Xor(mm, x[0])
	case OShl:
		if !x[1].IsInt64() || x[1].Int64() >= int64(aw) {
			return 0, r
		}
		return mod(r.Lsh(x[0], uint(x[1].Int64())))
	case OLshr:
		if !x[1].IsInt64() || x[1].Int64() >= int64(aw) {
			return 0, r
		}
		return 0, r.Rsh(x[0], uint(x[1].Int64()))
	case OAshr:
		s := uint(aw - 1)
		if x[1].IsInt64() && x[1].Int64() < int64(aw) {
			s = uint(x[1].Int64())
		}
		return mod(r.Rsh(toSigned(x[0], aw), s))
	case OConcat:
		for i, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, x[i])
		}
		return 0, r
	case OExtract:
		r.Rsh(x[0], uint(t.val))
		mm := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		return 0, r.Mod(r, mm)
	case OSext:
		return mod(r.Set(toSigned(x[0], aw)))
	case OUlt:
		return b2u(x[0].Cmp(x[1]) < 0), nil
	case OUle:
		return b2u(x[0].Cmp(x[1]) <= 0), nil
	case OSlt:
		return b2u(toSigned(x[0], aw).Cmp(toSigned(x[1], aw)) < 0), nil
	case OSle:
		return b2u(toSigned(x[0], aw).Cmp(toSigned(x[1], aw)) <= 0), nil
	}
	panic("eval wide op")
}

func (t *Term) dbg() string { return t.dbgN(4) }
func (t *Term) dbgN(n int) string {
	s := fmt.Sprintf("(%d/%d %s", t.op, t.w, t.name)
	if t.op == OConst || t.op == OExtract {
		s += fmt.Sprintf(" %d", t.val)
	}
	if n > 0 {
		for _, a := range t.args {
			s += " " + a.dbgN(n-1)
		}
	}
	return s + ")"
}

var (
	ufMu   sync.Mutex
	ufBits = map[string]uint64{}
)

// ufBit is the mask of a hash function.
func ufBit(name string) uint64 {
	ufMu.Lock()
	defer ufMu.Unlock()
	b, ok := ufBits[name]
	if !ok {
		b = 1 << uint(min(len(ufBits), 63))
		ufBits[name] = b
	}
	return b
}
