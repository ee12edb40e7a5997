package main

import "math/bits"

// Small domains: the values (of up to 256) a narrow input can still take on the current path,
// and whether anything but one-input conditions constrains it.

type bset [4]uint64

func fullSet(w int) bset {
	if w == 0 {
		w = 1
	}
	n := 1 << uint(w)
	var s bset
	for i := 0; i < n; i++ {
		s[i>>6] |= 1 << uint(i&63)
	}
	return s
}

const (
	maxOneNodes = 600
	maxOneVars  = 8
)

// oneVar is the only input t depends on, if it is at most 8 bits wide.
func (c *Ctx) oneVar(t *Term) *Term {
	c.oneScan(t)
	if t.oneSt == 1 && len(t.one) == 1 {
		return t.one[0]
	}
	return nil
}

// oneScan sets oneSt: 1 if t depends on few inputs, all at most 8 bits wide (t.one), 2 otherwise.
func (c *Ctx) oneScan(t *Term) {
	if t.oneSt != 0 {
		return
	}
	t.oneSt, t.oneN = 1, 1
	if t.op == OVar {
		t.one = []*Term{t}
		if t.w > 8 {
			t.oneSt, t.one = 2, nil
		}
		return
	}
	own := false
	for _, a := range t.args {
		c.oneScan(a)
		t.oneN += a.oneN
		if a.oneSt == 2 || t.oneN > maxOneNodes {
			t.oneSt, t.oneN, t.one = 2, 1, nil
			return
		}
		if len(t.one) == 0 {
			t.one = a.one
			continue
		}
	next:
		for _, x := range a.one {
			for _, y := range t.one {
				if x == y {
					continue next
				}
			}
			if !own {
				t.one, own = append([]*Term(nil), t.one...), true
			}
			t.one = append(t.one, x)
		}
		if len(t.one) > maxOneVars {
			t.oneSt, t.oneN, t.one = 2, 1, nil
			return
		}
	}
}

func (s bset) single() (uint64, bool) {
	n, v := 0, 0
	for i, x := range s {
		if x != 0 {
			n += bits.OnesCount64(x)
			v = i<<6 + bits.TrailingZeros64(x)
		}
	}
	return uint64(v), n == 1
}

// truth is the set of values of x that make t (over x alone) true.
func (c *Ctx) truth(t, x *Term) bset {
	if s, ok := c.truths[t]; ok {
		return s
	}
	s := c.truthIn(t, x, &Model{u: map[*Term]uint64{}})
	if c.truths == nil {
		c.truths = map[*Term]bset{}
	}
	c.truths[t] = s
	return s
}

func (c *Ctx) truthIn(t, x *Term, m *Model) (s bset) {
	w := x.w
	if w == 0 {
		w = 1
	}
	for v := 0; v < 1<<uint(w); v++ {
		m.u[x] = uint64(v)
		c.evGen++
		m.gen = c.evGen
		if c.EvalBool(t, m) {
			s[v>>6] |= 1 << uint(v&63)
		}
	}
	return s
}

func (c *Ctx) domOf(x *Term) bset {
	if d, ok := c.dom[x]; ok {
		return d
	}
	return fullSet(x.w)
}

// noteDom narrows the domain of the input of t.
func (c *Ctx) noteDom(t *Term, v bool) {
	x := c.oneVar(t)
	if x == nil {
		// an equation of several inputs with a constant is split into one per input by Eq
		return
	}
	s := c.truth(t, x)
	d := c.domOf(x)
	for i := range d {
		if v {
			d[i] &= s[i]
		} else {
			d[i] &^= s[i]
		}
	}
	if c.dom == nil {
		c.dom = map[*Term]bset{}
	}
	c.dom[x] = d
}

// entangle marks the inputs under t as constrained by more than their domain.
func (c *Ctx) entangle(t *Term) {
	if c.ent == nil {
		c.ent = map[*Term]bool{}
	}
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if c.ent[x] {
			continue
		}
		c.ent[x] = true
		st = append(st, x.args...)
	}
}

// decide evaluates a condition over one narrow input on its domain: known tells that the condition has
// the value val on the whole path, free that both values are feasible.
func (c *Ctx) decide(t *Term) (val, known, free bool) {
	c.oneScan(t)
	if t.oneSt != 1 || len(t.one) == 0 {
		return
	}
	var x *Term
	var s bset
	if len(t.one) == 1 {
		x = t.one[0]
		s = c.truth(t, x)
	} else {
		// all inputs but one may be known
		m := &Model{u: map[*Term]uint64{}}
		for _, y := range t.one {
			if v, ok := c.domOf(y).single(); ok {
				m.u[y] = v
			} else if x != nil {
				return
			} else {
				x = y
			}
		}
		if x == nil {
			x = t.one[0]
		}
		s = c.truthIn(t, x, m)
	}
	d := c.domOf(x)
	var in, out uint64
	for i := range d {
		in |= d[i] & s[i]
		out |= d[i] &^ s[i]
	}
	switch {
	case in == 0 && out == 0:
		return
	case in == 0:
		return false, true, false
	case out == 0:
		return true, true, false
	}
	return false, false, !c.ent[x]
}

// pinned is the value of t if the path leaves each of its inputs only one.
func (c *Ctx) pinned(t *Term) (uint64, bool) {
	if len(c.dom) == 0 || t.w > 64 {
		return 0, false
	}
	c.oneScan(t)
	if t.oneSt != 1 || len(t.one) == 0 {
		return 0, false
	}
	m := &Model{u: map[*Term]uint64{}}
	for _, y := range t.one {
		v, ok := c.domOf(y).single()
		if !ok {
			return 0, false
		}
		m.u[y] = v
	}
	c.evGen++
	m.gen = c.evGen
	return c.EvalBV(t, m).Uint64(), true
}
