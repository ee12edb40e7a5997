package main

import "math/big"

// Telescoping of positional numerals: c*(x mod k) + c*k*(x div k) is c*x, and x mod k is x once the path has
// established x div k = 0.

// UbBig is an upper bound of any width.
func (c *Ctx) UbBig(t *Term) *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(c.Ub(t))
	}
	if r, ok := c.ubb[t]; ok {
		return r
	}
	full := new(big.Int).Sub(pow2(t.w), one)
	u := full
	switch t.op {
	case OConst:
		u = t.cbig()
	case OIte:
		u = c.UbBig(t.args[1])
		if b := c.UbBig(t.args[2]); b.Cmp(u) > 0 {
			u = b
		}
	case OConcat:
		u = new(big.Int)
		for _, p := range t.args {
			u = new(big.Int).Lsh(u, uint(p.w))
			u.Add(u, c.UbBig(p))
		}
	case OAdd:
		s := new(big.Int)
		for _, a := range t.args {
			s.Add(s, c.UbBig(a))
		}
		if s.Cmp(full) <= 0 {
			u = s
		}
	case OMul:
		if t.args[1].isConst() {
			if p := new(big.Int).Mul(c.UbBig(t.args[0]), t.args[1].cbig()); p.Cmp(full) <= 0 {
				u = p
			}
		}
	case OUdiv:
		if k := t.args[1]; k.isConst() && !k.isZero() {
			u = new(big.Int).Div(c.UbBig(t.args[0]), k.cbig())
		}
	case OUrem:
		if k := t.args[1]; k.isConst() && !k.isZero() {
			u = new(big.Int).Sub(k.cbig(), one)
			if a := c.UbBig(t.args[0]); a.Cmp(u) < 0 {
				u = a
			}
		}
	case OExtract:
		if a := new(big.Int).Rsh(c.UbBig(t.args[0]), uint(t.val)); a.Cmp(full) < 0 {
			u = a
		}
	}
	if c.ubb == nil {
		c.ubb = map[*Term]*big.Int{}
	}
	c.ubb[t] = u
	return u
}

// baseOf strips zero extension and value-preserving truncation.
func (c *Ctx) baseOf(t *Term) *Term {
	for {
		switch {
		case t.op == OConcat && t.args[0].isZero() && len(t.args) == 2:
			t = t.args[1]
		case t.op == OExtract && t.val == 0 && c.UbBig(t.args[0]).BitLen() <= t.w:
			t = t.args[0]
		default:
			return t
		}
	}
}

type linForm struct {
	ord  []*Term
	coef map[*Term]*big.Int
	k    *big.Int
	ok   bool
}

// lin adds cf*t to the form; exact says that no wrap-around may be introduced at this level.
func (c *Ctx) lin(f *linForm, t *Term, cf *big.Int, exact bool, depth int) {
	t = c.baseOf(t)
	if t.isConst() {
		f.k.Add(f.k, new(big.Int).Mul(cf, t.cbig()))
		return
	}
	if depth < 400 {
		full := pow2(t.w)
		switch t.op {
		case OAdd:
			s := new(big.Int)
			for _, a := range t.args {
				s.Add(s, c.UbBig(a))
			}
			if !exact || s.Cmp(full) < 0 {
				for _, a := range t.args {
					c.lin(f, a, cf, true, depth+1)
				}
				return
			}
		case OMul:
			if k := t.args[1]; k.isConst() {
				if p := new(big.Int).Mul(c.UbBig(t.args[0]), k.cbig()); !exact || p.Cmp(full) < 0 {
					c.lin(f, t.args[0], new(big.Int).Mul(cf, k.cbig()), true, depth+1)
					return
				}
			}
		}
	}
	if old, ok := f.coef[t]; ok {
		f.coef[t] = new(big.Int).Add(old, cf)
		return
	}
	f.coef[t] = cf
	f.ord = append(f.ord, t)
}

// telescope simplifies a sum of width w, or returns nil.
func (c *Ctx) telescope(w int, ts []*Term) *Term {
	any := false
	for _, t := range ts {
		if c.hasUrem(t) {
			any = true
			break
		}
	}
	if !any {
		return nil
	}
	f := &linForm{coef: map[*Term]*big.Int{}, k: new(big.Int)}
	for _, t := range ts {
		c.lin(f, t, one, true, 0)
	}
	changed := false
	for again := true; again; {
		again = false
		for i, t := range f.ord {
			cf := f.coef[t]
			if t.op != OUrem || cf == nil || !t.args[1].isConst() || t.args[1].isZero() {
				continue
			}
			k := t.args[1].cbig()
			q := c.baseOf(c.Udiv(t.args[0], t.args[1]))
			ck := new(big.Int).Mul(cf, k)
			zero := q.isZero() || c.zero[q]
			if !zero {
				// the quotient may itself have been replaced by what it is made of
				g := f.coef[q]
				if g == nil || g.Cmp(ck) != 0 {
					continue
				}
				delete(f.coef, q)
			}
			delete(f.coef, t)
			f.ord = append(f.ord[:i:i], f.ord[i+1:]...)
			c.lin(f, t.args[0], cf, true, 0)
			changed, again = true, true
			break
		}
	}
	if !changed {
		return nil
	}
	var out []*Term
	for _, t := range f.ord {
		cf := f.coef[t]
		if cf == nil {
			continue
		}
		x := t
		if x.w < w {
			x = c.Zext(x, w)
		} else if x.w > w {
			x = c.Extract(x, w-1, 0)
		}
		out = append(out, c.Mul(x, c.KB(w, new(big.Int).Mod(cf, pow2(w)))))
	}
	out = append(out, c.KB(w, new(big.Int).Mod(f.k, pow2(w))))
	c.noTele++
	r := c.addList(w, out)
	c.noTele--
	return r
}

func (c *Ctx) hasUrem(t *Term) bool {
	for d := 0; d < 6; d++ {
		switch t.op {
		case OUrem:
			return t.args[1].isConst()
		case OConcat:
			if len(t.args) != 2 || !t.args[0].isZero() {
				return false
			}
			t = t.args[1]
		case OExtract, OMul, OAdd:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// noteZero records quotients the path has shown to be zero.
func (c *Ctx) noteZero(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			c.noteZero(a)
		}
		return
	}
	var x *Term
	switch {
	case t.op == OEq && t.args[0].w > 0 && t.args[1].isZero():
		x = t.args[0]
	case t.op == OEq && t.args[0].w > 0 && t.args[0].isZero():
		x = t.args[1]
	default:
		return
	}
	if x = c.baseOf(x); x.op == OUdiv {
		if c.zero == nil {
			c.zero = map[*Term]bool{}
		}
		c.zero[x] = true
	}
}

// noteFact records a condition the path has decided (and what follows for its parts).
func (c *Ctx) noteFact(t *Term, v bool) {
	if c.facts == nil {
		c.facts = map[*Term]bool{}
	}
	st := []*Term{t}
	val := []bool{v}
	for len(st) > 0 {
		x, v := st[len(st)-1], val[len(val)-1]
		st, val = st[:len(st)-1], val[:len(val)-1]
		if x == c.T || x == c.F {
			continue
		}
		if old, ok := c.facts[x]; ok && old == v {
			continue
		}
		c.facts[x] = v
		c.facts[c.Not(x)] = !v
		c.noteDom(x, v)
		if v {
			c.noteZero(x)
		}
		switch {
		case x.op == ONot:
			st, val = append(st, x.args[0]), append(val, !v)
		case x.op == OAnd && v, x.op == OOr && !v:
			for _, a := range x.args {
				st, val = append(st, a), append(val, v)
			}
		}
	}
}
