package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"hash"
	"math"
	"math/big"
	"math/bits"
	"os"

	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

func (w *Worker) freshVar(name string, width int) *Term {
	w.nvar++
	return w.c.Var(fmt.Sprintf("%s.%d", name, w.nvar), width)
}

func (w *Worker) nd(name string, width int) Value {
	if w.mergeD > 0 {
		panic(abortMerge{"nondet"})
	}
	v := Value{P: w.freshVar(name, width)}
	w.nondet = append(w.nondet, NondetRec{name, width, []Value{v}})
	return v
}

func (w *Worker) ndBytes(name string, n int) []Value {
	if w.mergeD > 0 {
		panic(abortMerge{"nondet"})
	}
	vs := make([]Value, n)
	for i := range vs {
		vs[i] = Value{P: w.freshVar(name, 8)}
	}
	w.nondet = append(w.nondet, NondetRec{name, 8, append([]Value(nil), vs...)})
	return vs
}

// argBytes reads a byte slice or string argument.
func argBytes(v Value) []Value {
	switch v.P.(type) {
	case string, *SymStr:
		return strBytes(v)
	}
	return sliceOf(v)
}

func cs(v Value) string {
	s, _ := concStr(v)
	return s
}

// assume restricts the path.
func (w *Worker) assume(t *Term) {
	if t == w.c.T {
		return
	}
	if w.mergeD > 0 {
		panic(abortMerge{"assume"})
	}
	if t == w.c.F {
		panic(pathEnd{"assume", ""})
	}
	w.needUF(t)
	w.pushPC(t)
	if !w.replaying() && w.model == nil {
		r, m := w.s.Check(w.pc, w.c.T, true)
		if r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		w.model = m
	}
}

// assert checks a property on the current path.
func (w *Worker) assert(cond *Term, label string) {
	w.needUF(cond)
	if cond == w.c.T {
		if !w.replaying() {
			w.h.mu.Lock()
			w.h.asserts++
			w.h.labels[label]++
			w.h.mu.Unlock()
		}
		return
	}
	if w.replaying() {
		d := w.prefix[len(w.log)]
		if d.k != 'A' {
			panic("decision log mismatch: assert " + label)
		}
		w.log = append(w.log, d)
		if d.v == 1 {
			w.assumeQuiet(cond)
		}
		return
	}
	h := w.h
	h.mu.Lock()
	h.asserts++
	h.labels[label]++
	dead := h.vioSeen[label]
	h.mu.Unlock()
	if dead {
		w.assumeAfter(cond)
		return
	}
	w.checkTime()
	neg := w.c.Not(cond)
	for round := 0; ; round++ {
		r, m := w.s.Check(w.pc, neg, true)
		if r == Unsat {
			if w.e.st.Queries%97 == 0 || h.asserts <= 2 {
				w.s.CrossCheck(w.pc, neg, Unsat)
			}
			if os.Getenv("ZZ_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "proved %s (%s)\n", label, h.name)
			}
			w.log = append(w.log, Dec{k: 'A'})
			return
		}
		if r == Unknown {
			h.mu.Lock()
			h.assertU++
			h.reasons["solver unknown: "+label]++
			h.mu.Unlock()
			w.assumeAfter(cond)
			return
		}
		if w.report(label, m) {
			w.assumeAfter(cond)
			return
		}
		if round < 12 && w.refine(m) {
			continue
		}
		h.mu.Lock()
		h.inconc++
		h.reasons["counterexample did not replay: "+label]++
		h.mu.Unlock()
		w.assumeAfter(cond)
		return
	}
}

// assumeAfter is assumeQuiet, and so in every later run of the path.
func (w *Worker) assumeAfter(t *Term) {
	w.log = append(w.log, Dec{k: 'A', v: 1})
	w.assumeQuiet(t)
}

// assumeQuiet continues under cond (after a reported or undecided assertion).
func (w *Worker) assumeQuiet(t *Term) {
	if t == w.c.T {
		return
	}
	if w.mergeD > 0 {
		panic(abortMerge{"assert"})
	}
	if t == w.c.F {
		panic(pathEnd{"violation", ""})
	}
	w.pushPC(t)
	if w.model == nil {
		r, m := w.s.Check(w.pc, w.c.T, true)
		if r == Unsat {
			panic(pathEnd{"violation", ""})
		}
		w.model = m
	}
}

// violation reports that the current path itself is a violation and ends it.
func (w *Worker) violation(label string) {
	if w.mergeD > 0 {
		panic(abortMerge{"violation"})
	}
	h := w.h
	h.mu.Lock()
	dead := h.vioSeen[label]
	h.mu.Unlock()
	if dead {
		panic(pathEnd{"violation", label})
	}
	for round := 0; ; round++ {
		r, m := w.s.Check(w.pc, w.c.T, true)
		if r == Unsat {
			panic(pathEnd{"infeasible", ""})
		}
		if r == Unknown {
			h.mu.Lock()
			h.assertU++
			h.reasons["solver unknown: "+label]++
			h.mu.Unlock()
			panic(pathEnd{"inconclusive", label})
		}
		if w.report(label, m) {
			panic(pathEnd{"violation", label})
		}
		if round < 12 && w.refine(m) {
			continue
		}
		h.mu.Lock()
		h.inconc++
		h.reasons["counterexample did not replay: "+label]++
		h.mu.Unlock()
		panic(pathEnd{"inconclusive", label})
	}
}

// report replays a counterexample on the real code. True when confirmed (or known).
func (w *Worker) report(label string, m *Model) bool {
	h := w.h
	vals := w.inputVals(m)
	hang := strings.HasPrefix(label, "panic: deadlock")
	limit := 60 * time.Second
	if hang {
		limit = 10 * time.Second
	}
	res := w.e.replay(h, vals, limit)
	if hang && res.Status == "timeout" {
		res = replayResp{Status: "crash", Msg: "the real code makes no progress in 10 s"}
	}
	if w.e.verbose {
		b, _ := json.Marshal(vals)
		fmt.Fprintf(os.Stderr, "candidate %s %q -> %+v %.1500s\n", h.name, label, res, b)
	}
	if res.Status == "ok" || res.Status == "assume" || res.Status == "desync" {
		n := 0
		for _, v := range vals {
			if strings.HasPrefix(v.N, "~") {
				n++
			}
		}
		h.mu.Lock()
		try := n > 0 && h.searches[label] < 4
		if try {
			if h.searches == nil {
				h.searches = map[string]int{}
			}
			h.searches[label]++
		}
		h.mu.Unlock()
		if try {
			if r := w.e.search(h, vals); len(r.Vals) > 0 {
				res, vals = r, r.Vals
			}
		}
	}
	ok := false
	detail := res.Msg
	switch {
	case strings.HasPrefix(label, "panic: "):
		ok = res.Status == "panic" || res.Status == "crash"
	case label == "disproportionate allocation":
		ok = res.Status == "alloc" || res.Status == "crash" || res.Status == "panic"
	default:
		ok = res.Status == "assert"
		if ok && res.Msg != label {
			// the real run fails an assertion, though another one first
			label = res.Msg
		}
		if !ok && (res.Status == "panic" || res.Status == "crash" || res.Status == "alloc") {
			label = res.Status + ": " + res.Msg
			ok = true
		}
	}
	if !ok {
		return false
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if k := w.e.isKnown(h.name, label); k != nil {
		h.knownHit[k.text] = true
		h.vioSeen[label] = true
		return true
	}
	if h.vioSeen[label] {
		return true
	}
	h.vioSeen[label] = true
	v := &Violation{Harness: h.name, Label: label, Vals: vals, Detail: detail}
	w.e.vioMu.Lock()
	w.e.vios = append(w.e.vios, v)
	n := len(w.e.vios)
	w.e.vioMu.Unlock()
	dir := filepath.Join(w.e.harnessDir, "..", "replays")
	os.MkdirAll(dir, 0o755)
	v.File = filepath.Join(dir, fmt.Sprintf("%s-%d.json", w.e.prop, n))
	b, _ := json.MarshalIndent(map[string]any{"property": w.e.prop, "harness": h.name, "pkg": h.pkg, "label": label, "detail": detail, "thorough": w.e.thorough, "values": vals}, "", " ")
	os.WriteFile(v.File, b, 0o644)
	if !w.e.keepGoing {
		w.e.stopAll.Store(true)
		w.e.deadline = w.e.start
		panic(pathEnd{"violation", label})
	}
	return true
}

// refine adds the true digests of the hash inputs of a model. False when nothing was added.
func (w *Worker) refine(m *Model) bool {
	if w.mergeD > 0 {
		return false
	}
	added := false
	// inputs of outer hashes depend on inner digests: go in order and recompute
	for _, u := range w.ufs {
		if u.real == nil {
			continue
		}
		if _, ok := concBytes(u.in); ok {
			continue
		}
		in := make([]byte, len(u.in))
		cond := w.c.T
		for i, v := range u.in {
			t := w.term(v, 8)
			x := w.c.EvalBV(t, m).Uint64()
			in[i] = byte(x)
			cond = w.c.And(cond, w.c.Eq(t, w.c.K(8, x)))
		}
		d := u.real(in)
		got := w.c.EvalBV(u.res, m)
		want := new(big.Int).SetBytes(d)
		if got.Cmp(want) == 0 {
			continue
		}
		ax := w.c.Or(w.c.Not(cond), w.c.Eq(u.res, w.c.KB(u.res.w, want)))
		w.pushPC(ax)
		added = true
	}
	return added
}

func digestFn(name string) (func([]byte) []byte, int) {
	h := func(f func() hash.Hash) func([]byte) []byte {
		return func(b []byte) []byte { x := f(); x.Write(b); return x.Sum(nil) }
	}
	switch name {
	case "sha256":
		return h(sha256.New), 32
	case "sha512":
		return h(sha512.New), 64
	case "sha1":
		return h(sha1.New), 20
	case "ripemd160":
		return ripemd160Sum, 20
	case "base58", "base58raw": // ideal codec
		return nil, 31
	case "pointx", "pointy": // ideal group
		return nil, 31
	case "signature", "nonce": // ideal signature scheme: only equality means anything
		return nil, 32
	}
	return nil, 0
}

// ufHash applies a hash as an uninterpreted function: equal inputs give equal outputs,
// different inputs different outputs (collision freedom, a stated assumption).
func (w *Worker) ufHash(name string, in []Value, outLen int, inj bool, real func([]byte) []byte) []Value {
	in = append([]Value(nil), in...)
	cb, conc := concBytes(in)
	if conc && real != nil {
		d := real(cb)
		out := make([]Value, len(d))
		for i := range d {
			out[i] = Value{N: uint64(d[i])}
		}
		if w.trailOn {
			res := w.c.KB(8*len(d), new(big.Int).SetBytes(d))
			for _, u := range w.ufs {
				if u.name == name && u.res == res {
					return out
				}
			}
			w.addUF(&UFApp{name: name, in: in, res: res, real: real}, inj)
		}
		return out
	}
	if len(in) > 1<<14 {
		w.unsupported("hash of a very long symbolic input")
	}
	ts := make([]*Term, len(in))
	for i := range in {
		ts[i] = w.term(in[i], 8)
	}
	var inT *Term
	if len(ts) > 0 {
		inT = w.c.Concat(ts...)
	}
	for _, u := range w.ufs {
		if u.name == name && u.inT == inT && len(u.in) == len(in) {
			return w.splitBytes(u.res)
		}
	}
	w.nvar++
	res := w.c.Var(fmt.Sprintf("uf_%s.%d", name, w.nvar), outLen*8)
	w.addUF(&UFApp{name: name, in: in, inT: inT, res: res, real: real}, inj)
	return w.splitBytes(res)
}

func (w *Worker) addUF(u *UFApp, inj bool) {
	u.inj = inj
	if w.ufEager&ufBit(u.name) == 0 {
		w.ufs = append(w.ufs, u) // its axioms come when they are needed
		return
	}
	for _, o := range w.ufs {
		if o.name != u.name || (o.res.isConst() && u.res.isConst()) {
			continue
		}
		w.ufAxiom(o, u)
	}
	w.ufs = append(w.ufs, u)
}

// ufAxiom relates two applications of the same hash.
func (w *Worker) ufAxiom(o, u *UFApp) {
	same := w.ufSame(o, u)
	eq := w.c.Eq(o.res, u.res)
	if u.inj {
		w.pushPC(w.c.Eq(same, eq))
	} else {
		w.pushPC(w.c.Or(w.c.Not(same), eq))
	}
}

// needUF adds the axioms held back when a constraint mentions a digest other than by comparing it with another.
func (w *Worker) needUF(t *Term) {
	if t.uf&^w.ufEager != 0 {
		w.ufFlush(t.uf)
	}
}

// ufSame is the condition that two applications have the same input.
func (w *Worker) ufSame(o, u *UFApp) *Term {
	return w.bytesEq(o.in, u.in)
}

// ufAt finds the digest whose bytes are all of v[i:i+n].
func (w *Worker) ufAt(v []Value, i int) *UFApp {
	t, ok := v[i].P.(*Term)
	if !ok || t.op != OExtract {
		return nil
	}
	res := t.args[0]
	n := res.w / 8
	if n*8 != res.w || i+n > len(v) || w.c.Extract(res, res.w-1, res.w-8) != t {
		return nil
	}
	for _, u := range w.ufs {
		if u.res == res {
			for k := 1; k < n; k++ {
				if x, ok := v[i+k].P.(*Term); !ok || x != w.c.Extract(res, res.w-8*k-1, res.w-8*k-8) {
					return nil
				}
			}
			return u
		}
	}
	return nil
}

// ufConst finds the digest of a concrete input with the value v[i:].
func (w *Worker) ufConst(name string, v []Value, i, n int) *UFApp {
	b, ok := concBytes(v[i : i+n])
	if !ok {
		return nil
	}
	res := w.c.KB(8*n, new(big.Int).SetBytes(b))
	for _, u := range w.ufs {
		if u.name == name && u.res == res {
			return u
		}
	}
	return nil
}

func (w *Worker) isUFByte(v Value) bool {
	t, ok := v.P.(*Term)
	if !ok || t.op != OExtract {
		return false
	}
	for _, u := range w.ufs {
		if u.res == t.args[0] {
			return true
		}
	}
	return false
}

// bytesEq compares byte sequences of the same length; whole digests are compared by their inputs.
func (w *Worker) bytesEq(x, y []Value) *Term {
	if len(x) != len(y) {
		return w.c.F
	}
	r := w.c.T
	for i := 0; i < len(x); {
		if x[i].P == nil && y[i].P == nil {
			if x[i].N != y[i].N {
				return w.c.F
			}
			i++
			continue
		}
		u, v := w.ufAt(x, i), w.ufAt(y, i)
		if u != nil && v == nil {
			v = w.ufConst(u.name, y, i, u.res.w/8)
		} else if v != nil && u == nil {
			u = w.ufConst(v.name, x, i, v.res.w/8)
		}
		if u != nil && v != nil && u.name == v.name && u.inj && v.inj && u.res.w == v.res.w {
			if u != v {
				r = w.c.And(r, w.ufSame(u, v))
			}
			i += u.res.w / 8
		} else {
			a, b := w.term(x[i], 8), w.term(y[i], 8)
			if a != b && (w.isUFByte(x[i]) || w.isUFByte(y[i])) {
				if os.Getenv("ZZ_FLUSH") != "" {
					fmt.Fprintf(os.Stderr, "CMP %d/%d: %v || %v %v %v\n", i, len(x), a.dbg(), b.dbg(), u, v)
				}
				w.ufFlush(a.uf | b.uf)
			}
			r = w.c.And(r, w.c.Eq(a, b))
			i++
		}
		if r == w.c.F {
			return r
		}
	}
	return r
}

// ufFlush adds the axioms held back by addUF.
func (w *Worker) ufFlush(mask uint64) {
	mask &^= w.ufEager
	if mask == 0 {
		return
	}
	w.ufEager |= mask
	if os.Getenv("ZZ_FLUSH") != "" {
		fmt.Fprintf(os.Stderr, "digest axioms in %s\n", w.lastFn)
	}
	for j, u := range w.ufs {
		if mask&ufBit(u.name) == 0 {
			continue
		}
		for _, o := range w.ufs[:j] {
			if o.name == u.name && !(o.res.isConst() && u.res.isConst()) {
				w.ufAxiom(o, u)
			}
		}
	}
}

func (w *Worker) splitBytes(t *Term) []Value {
	n := t.w / 8
	out := make([]Value, n)
	for i := range out {
		hi := t.w - 8*i - 1
		out[i] = tval(w.c.Extract(t, hi, hi-7))
	}
	return out
}

func mkArr(vs []Value) Value { return Value{P: ArrV(append([]Value(nil), vs...))} }
func mkSlice(vs []Value) Value {
	return Value{P: SliceV(append([]Value(nil), vs...))}
}

func (w *Worker) mkError(msg string) Value {
	p := w.e.prog.ImportedPackage("errors")
	if p == nil {
		w.unsupported("errors not loaded")
	}
	return w.callSSA(p.Func("New"), []Value{sval(msg)}, nil, nil)
}

func lowerUpper(w *Worker, s Value, lo, hi byte, delta uint64) Value {
	if c, ok := concStr(s); ok {
		if lo == 'a' {
			return sval(strings.ToUpper(c))
		}
		return sval(strings.ToLower(c))
	}
	bs := strBytes(s)
	ascii := w.c.T
	for _, b := range bs {
		ascii = w.c.And(ascii, w.c.Ult(w.term(b, 8), w.c.K(8, 0x80)))
	}
	if !w.branch(ascii) {
		w.unsupported("case mapping of a non-ASCII symbolic string")
	}
	out := make([]Value, len(bs))
	for i, b := range bs {
		t := w.term(b, 8)
		if tabOf(t) != nil {
			el := make([]*Term, 256)
			for k := range el {
				v := byte(k)
				if v >= lo && v <= hi {
					v += byte(delta)
				}
				el[k] = w.c.K(8, uint64(v))
			}
			out[i] = tval(w.c.Mux(t, el))
			continue
		}
		in := w.c.And(w.c.Ule(w.c.K(8, uint64(lo)), t), w.c.Ule(t, w.c.K(8, uint64(hi))))
		out[i] = tval(w.c.Ite(in, w.c.Add(t, w.c.K(8, delta&0xff)), t))
	}
	return mkStr(out)
}

// fmtArg renders a concrete value for opaque formatting.
func (w *Worker) native(v Value, t types.Type) (any, bool) {
	if i, ok := v.P.(*Iface); ok && t == nil {
		return w.native(i.v, i.t)
	}
	if v.P == nil && t == nil {
		return nil, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := v.P.(*Term); ok {
			return nil, false
		}
		if _, ok := v.P.(*SymStr); ok {
			return nil, false
		}
		if n, ok := t.(*types.Named); ok && n.NumMethods() > 0 {
			return nil, false
		}
		switch {
		case u.Info()&types.IsString != 0:
			return cs(v), true
		case u.Info()&types.IsBoolean != 0:
			return v.N != 0, true
		case u.Info()&types.IsFloat != 0:
			return v.f(), true
		case u.Kind() == types.Int32:
			return int32(v.N), true
		case u.Kind() == types.Uint8:
			return uint8(v.N), true
		case u.Kind() == types.Uint16:
			return uint16(v.N), true
		case u.Kind() == types.Uint32:
			return uint32(v.N), true
		case u.Info()&types.IsUnsigned != 0:
			return v.N, true
		default:
			return sx(v.N, basicWidth(u)), true
		}
	case *types.Slice:
		if typeWidth(u.Elem()) == 8 {
			b, ok := concBytes(sliceOf(v))
			return b, ok
		}
	case *types.Array:
		if typeWidth(u.Elem()) == 8 {
			b, ok := concBytes([]Value(v.P.(ArrV)))
			return b, ok
		}
	}
	return nil, false
}

// sprintf formats when everything is concrete; hex of symbolic bytes is exact too.
func (w *Worker) sprintf(f string, args []Value) Value {
	if (f == "%x" || f == "%X" || f == "%s" || f == "%02x") && len(args) == 1 {
		if i, ok := args[0].P.(*Iface); ok {
			var bs []Value
			ok := false
			switch u := i.t.Underlying().(type) {
			case *types.Slice:
				if typeWidth(u.Elem()) == 8 {
					bs, ok = sliceOf(i.v), true
				}
			case *types.Array:
				if typeWidth(u.Elem()) == 8 {
					bs, ok = []Value(i.v.P.(ArrV)), true
				}
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					bs, ok = strBytes(i.v), true
				}
			}
			if ok {
				if f == "%s" {
					return mkStr(bs)
				}
				return mkStr(w.hexBytes(bs, f == "%X"))
			}
		}
	}
	nat := make([]any, len(args))
	for i, a := range args {
		x, ok := w.native(a, nil)
		if !ok {
			return sval("<fmt>")
		}
		nat[i] = x
	}
	return sval(fmt.Sprintf(f, nat...))
}

func (w *Worker) hexBytes(bs []Value, upper bool) []Value {
	dig := "0123456789abcdef"
	if upper {
		dig = "0123456789ABCDEF"
	}
	el := make([]*Term, 16)
	for i := range el {
		el[i] = w.c.K(8, uint64(dig[i]))
	}
	var out []Value
	for _, b := range bs {
		t := w.term(b, 8)
		out = append(out, tval(w.c.Mux(w.c.Extract(t, 7, 4), el)), tval(w.c.Mux(w.c.Extract(t, 3, 0), el)))
	}
	return out
}

// indexByte is the first (or last) index of c, without forking.
func (w *Worker) indexByte(bs []Value, c Value) Value { return w.idxByte(bs, c, false) }

func (w *Worker) lastIndexByte(bs []Value, c Value) Value { return w.idxByte(bs, c, true) }

func (w *Worker) idxByte(bs []Value, c Value, last bool) Value {
	minus := uint64(1<<64 - 1)
	if cb, ok := concBytes(bs); ok && c.P != nil {
		el := make([]*Term, 256)
		for i := range el {
			el[i] = w.c.K(64, minus)
		}
		for k := range cb {
			i := k
			if !last {
				i = len(cb) - 1 - k
			}
			el[cb[i]] = w.c.K(64, uint64(i))
		}
		return tval(w.c.Mux(w.term(c, 8), el))
	}
	r := w.c.K(64, minus)
	for k := range bs {
		i := k
		if !last {
			i = len(bs) - 1 - k
		}
		r = w.c.Ite(w.c.Eq(w.term(bs[i], 8), w.term(c, 8)), w.c.K(64, uint64(i)), r)
	}
	return tval(r)
}

func (w *Worker) indexSub(a, b []Value) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		eq := w.c.T
		for j := range b {
			eq = w.c.And(eq, w.c.Eq(w.term(a[i+j], 8), w.term(b[j], 8)))
		}
		if w.branch(eq) {
			return ival(int64(i))
		}
	}
	return ival(-1)
}

func (w *Worker) compareBytes(a, b []Value) Value {
	lt := w.bytesLess(a, b, false)
	eq := w.c.F
	if len(a) == len(b) {
		eq = w.c.T
		for i := range a {
			eq = w.c.And(eq, w.c.Eq(w.term(a[i], 8), w.term(b[i], 8)))
		}
	}
	return w.cmpVal(lt, eq)
}

// deref returns the struct fields a pointer points to.
func (w *Worker) fields(p Value) StructV {
	c, ok := p.P.(*Value)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	s, ok := c.P.(StructV)
	if !ok {
		w.unsupported("struct expected")
	}
	return s
}

func (e *Engine) buildIntrinsics() {
	m := map[string]bigFn{}
	e.intrTab = m
	bigIntrinsics(m)
	zz := zzPath + "."
	nop := func(w *Worker, fr *Frame, a []Value) Value { return Value{} }

	// ---- harness vocabulary
	m[zz+"Symbolic"] = func(w *Worker, fr *Frame, a []Value) Value { return bval(true) }
	m[zz+"Thorough"] = func(w *Worker, fr *Frame, a []Value) Value { return bval(w.e.thorough) }
	sc := func(name string, width int) {
		m[zz+name] = func(w *Worker, fr *Frame, a []Value) Value { return w.nd(cs(a[0]), width) }
	}
	sc("U8", 8)
	sc("U16", 16)
	sc("U32", 32)
	sc("U64", 64)
	sc("I64", 64)
	sc("I32", 32)
	sc("Int", 64)
	sc("Bool", 0)
	m[zz+"IntIn"] = func(w *Worker, fr *Frame, a []Value) Value {
		v := w.nd(cs(a[0]), 64)
		t := v.sym()
		w.assume(w.c.And(w.c.Sle(w.term(a[1], 64), t), w.c.Sle(t, w.term(a[2], 64))))
		return v
	}
	m[zz+"Bytes"] = func(w *Worker, fr *Frame, a []Value) Value {
		return Value{P: SliceV(w.ndBytes(cs(a[0]), w.concInt(a[1], "Bytes length")))}
	}
	m[zz+"Str"] = func(w *Worker, fr *Frame, a []Value) Value {
		return mkStr(w.ndBytes(cs(a[0]), w.concInt(a[1], "Str length")))
	}
	m[zz+"Choose"] = func(w *Worker, fr *Frame, a []Value) Value {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if hi < lo {
			panic(pathEnd{"assume", ""})
		}
		if w.mergeD > 0 {
			panic(abortMerge{"choose"})
		}
		v := ival(lo + int64(w.choose(int(hi-lo+1))))
		w.nondet = append(w.nondet, NondetRec{cs(a[0]), 64, []Value{v}})
		return v
	}
	// Concrete forces a value to be enumerated.
	m[zz+"Concrete"] = func(w *Worker, fr *Frame, a []Value) Value {
		return ival(int64(w.concInt(a[0], "Concrete")))
	}
	m[zz+"Assume"] = func(w *Worker, fr *Frame, a []Value) Value { w.assume(w.term(a[0], 0)); return Value{} }
	m[zz+"Assert"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.assert(w.term(a[0], 0), cs(a[1]))
		return Value{}
	}
	m[zz+"Reach"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"reach"})
		}
		l := cs(a[0])
		h := w.h
		h.mu.Lock()
		seen := h.reach[l]
		h.mu.Unlock()
		if !seen && !w.replaying() && w.ensureModel() {
			h.mu.Lock()
			h.reach[l] = true
			h.mu.Unlock()
		}
		return Value{}
	}
	m[zz+"Bound"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.h.mu.Lock()
		w.h.bounds[cs(a[0])] = true
		w.h.mu.Unlock()
		return Value{}
	}
	m[zz+"Assumption"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.h.mu.Lock()
		w.h.assumes[cs(a[0])] = true
		w.h.mu.Unlock()
		return Value{}
	}
	m[zz+"AllocLimit"] = func(w *Worker, fr *Frame, a []Value) Value { w.allocMax = int64(a[0].N); return Value{} }
	m[zz+"MaxSteps"] = func(w *Worker, fr *Frame, a []Value) Value { w.maxStep = int64(a[0].N); return Value{} }
	m[zz+"Abstract"] = func(w *Worker, fr *Frame, a []Value) Value {
		l := cs(a[0])
		w.abs[l] = true
		if l == "group" || l == "paillier" {
			for n, s := range w.e.stubTab {
				if strings.HasPrefix(s, l) {
					w.abs[n] = true
				}
			}
		}
		if l == "!ripemd160" {
			w.abs["!"+repoMod+"/xcrypto.Ripemd160"] = true
			w.abs["!"+repoMod+"/xcrypto/ripemd160.New"] = true
		}
		if l == "base58" {
			w.abs[repoMod+"/xbase.Base58Encode"] = true
			w.abs[repoMod+"/xbase.Base58Decode"] = true
		}
		return Value{}
	}
	m[zz+"Observe"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"observe"})
		}
		w.obs = append(w.obs, ObsRec{cs(a[0]), []Value{a[1]}, 64})
		return Value{}
	}
	m[zz+"ObserveBytes"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"observe"})
		}
		w.obs = append(w.obs, ObsRec{cs(a[0]), append([]Value(nil), argBytes(a[1])...), 8})
		return Value{}
	}
	// condition helpers that do not fork
	m[zz+"Eq"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := argBytes(a[0]), argBytes(a[1])
		if len(x) != len(y) {
			return bval(false)
		}
		return tval(w.bytesEq(x, y))
	}
	m[zz+"EqStr"] = func(w *Worker, fr *Frame, a []Value) Value { return tval(w.strEq(a[0], a[1])) }
	m[zz+"And"] = func(w *Worker, fr *Frame, a []Value) Value {
		return tval(w.c.And(w.term(a[0], 0), w.term(a[1], 0)))
	}
	m[zz+"Or"] = func(w *Worker, fr *Frame, a []Value) Value {
		return tval(w.c.Or(w.term(a[0], 0), w.term(a[1], 0)))
	}
	m[zz+"IteU64"] = func(w *Worker, fr *Frame, a []Value) Value {
		return tval(w.c.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64)))
	}
	m[zz+"ufSha256"] = func(w *Worker, fr *Frame, a []Value) Value {
		f, n := digestFn("sha256")
		return mkSlice(w.ufHash("sha256", sliceOf(a[0]), n, true, f))
	}
	m[zz+"ufDigest"] = func(w *Worker, fr *Frame, a []Value) Value {
		name := cs(a[0])
		f, n := digestFn(name)
		if n == 0 {
			w.unsupported("digest %s", name)
		}
		return mkSlice(w.ufHash(name, sliceOf(a[1]), n, true, f))
	}
	m[zz+"ufInput"] = func(w *Worker, fr *Frame, a []Value) Value {
		v := sliceOf(a[1])
		if u := w.ufAt(v, 0); u != nil && u.name == cs(a[0]) && u.res.w == 8*len(v) {
			return mkSlice(u.in)
		}
		return Value{}
	}
	m[zz+"ufHmac"] = func(w *Worker, fr *Frame, a []Value) Value {
		name := cs(a[0])
		key, data := sliceOf(a[1]), sliceOf(a[2])
		_, n := digestFn(name)
		nk := len(key)
		var nf func() hash.Hash
		switch name {
		case "sha256":
			nf = sha256.New
		case "sha512":
			nf = sha512.New
		case "sha1":
			nf = sha1.New
		default:
			w.unsupported("hmac %s", name)
		}
		real := func(b []byte) []byte {
			x := hmac.New(nf, b[:nk])
			x.Write(b[nk:])
			return x.Sum(nil)
		}
		return mkSlice(w.ufHash(fmt.Sprintf("hmac_%s_%d", name, nk), append(append([]Value(nil), key...), data...), n, false, real))
	}
	// UF(name, n, in): n output bytes, functional only, no native meaning
	m[zz+"randBytes"] = func(w *Worker, fr *Frame, a []Value) Value {
		return Value{P: SliceV(w.ndBytes("rand", w.concInt(a[0], "rand length")))}
	}

	// ---- hashes
	for _, n := range []struct{ f, k string }{{"crypto/sha256.Sum256", "sha256"}, {"crypto/sha512.Sum512", "sha512"}, {"crypto/sha1.Sum", "sha1"}} {
		n := n
		m[n.f] = func(w *Worker, fr *Frame, a []Value) Value {
			f, l := digestFn(n.k)
			return mkArr(w.ufHash(n.k, sliceOf(a[0]), l, true, f))
		}
	}
	e.stubTab = map[string]string{
		"crypto/sha256.New":                     "newSha256",
		"crypto/sha512.New":                     "newSha512",
		"crypto/sha1.New":                       "newSha1",
		"crypto/hmac.New":                       "newHmac",
		"crypto/rand.Read":                      "cryptoRandRead",
		"crypto/rand.Int":                       "randInt",
		"crypto/rand.Prime":                     "randPrime",
		"(*sync.Once).Do":                       "onceDo",
		"encoding/asn1.Marshal":                 "asn1Marshal",
		"encoding/asn1.Unmarshal":               "asn1Unmarshal",
		"crypto/ecdsa.Verify":                   "ecdsaVerify",
		"crypto/hmac.Equal":                     "bytesEqual",
		"math/rand.Read":                        "randRead",
		"io/ioutil.ReadAll":                     "",
		"encoding/json.NewDecoder":              "@jsonNewDecoder",
		"(*encoding/json.Decoder).Decode":       "@jsonDecode",
		"encoding/json.NewEncoder":              "@jsonNewEncoder",
		"(*encoding/json.Encoder).Encode":       "@jsonEncode",
		"net/http.NewRequest":                   "@httpNewRequest",
		"net/http.NewRequestWithContext":        "@httpNewRequestWithContext",
		"(*net/http.Client).Do":                 "@httpDo",
		"context.WithTimeout":                   "@contextWithTimeout",
		"context.WithDeadline":                  "@contextWithDeadline",
		"(*crypto/elliptic.CurveParams).Params": "curveParamsParams",
		repoMod + "/xcrypto/ripemd160.New":      "newRipemd160",
		repoMod + "/xcrypto.EcdsaSign":          "ecdsaSignIdeal",
		repoMod + "/xbase.Base58CheckEncode":    "base58CheckEncodeIdeal",
		repoMod + "/xbase.Base58CheckDecode":    "base58CheckDecodeIdeal",
		repoMod + "/xcrypto.EcdsaVerify":        "ecdsaVerifyIdeal",
		repoMod + "/xbase.Base58Encode":         "base58EncodeIdeal",
		repoMod + "/xbase.Base58Decode":         "base58DecodeIdeal",
		"(*" + repoMod + "/xcrypto/secp256k1.secp256k1Curve).ScalarBaseMult": "groupBaseMult",
		"(*" + repoMod + "/xcrypto/secp256k1.secp256k1Curve).ScalarMult":     "groupMult",
		"(*" + repoMod + "/xcrypto/secp256k1.secp256k1Curve).Add":            "groupAdd",
		"(*" + repoMod + "/xcrypto/secp256k1.secp256k1Curve).IsOnCurve":      "groupOn",
		repoMod + "/xcrypto/secp256k1.SecUnmarshal":                          "groupUnmarshal",
		repoMod + "/xcrypto.Ripemd160":                                       "ripemd160Sum",
		repoMod + "/xcrypto/ecdsa.NonceRFC6979":                              "nonceIdeal",
		repoMod + "/xcrypto/paillier.GenerateKeyPair":                        "paillierKeys",
		"(*" + repoMod + "/xcrypto/paillier.PubKey).Encrypt":                 "paillierEncrypt",
		"(*" + repoMod + "/xcrypto/paillier.PrvKey).Decrypt":                 "paillierDecrypt",
		"(*" + repoMod + "/xcrypto/paillier.PubKey).MultPlaintext":           "paillierMul",
		"(*" + repoMod + "/xcrypto/paillier.PubKey).AddPlaintext":            "paillierAddPlain",
		"(*" + repoMod + "/xcrypto/paillier.PubKey).Add":                     "paillierAdd",
	}
	m["crypto/subtle.ConstantTimeCompare"] = func(w *Worker, fr *Frame, a []Value) Value {
		x, y := sliceOf(a[0]), sliceOf(a[1])
		if len(x) != len(y) {
			return ival(0)
		}
		r := w.c.T
		for i := range x {
			r = w.c.And(r, w.c.Eq(w.term(x[i], 8), w.term(y[i], 8)))
		}
		return tval(w.c.Ite(r, w.c.K(64, 1), w.c.K(64, 0)))
	}

	// ---- bytes and strings
	m["internal/bytealg.IndexByte"] = func(w *Worker, fr *Frame, a []Value) Value { return w.indexByte(sliceOf(a[0]), a[1]) }
	m["internal/bytealg.IndexByteString"] = func(w *Worker, fr *Frame, a []Value) Value { return w.indexByte(strBytes(a[0]), a[1]) }
	m["strings.IndexByte"] = m["internal/bytealg.IndexByteString"]
	m["internal/stringslite.IndexByte"] = m["internal/bytealg.IndexByteString"]
	m["bytes.IndexByte"] = m["internal/bytealg.IndexByte"]
	m["internal/bytealg.LastIndexByte"] = func(w *Worker, fr *Frame, a []Value) Value { return w.lastIndexByte(sliceOf(a[0]), a[1]) }
	m["internal/bytealg.LastIndexByteString"] = func(w *Worker, fr *Frame, a []Value) Value {
		return w.lastIndexByte(strBytes(a[0]), a[1])
	}
	m["strings.Index"] = func(w *Worker, fr *Frame, a []Value) Value { return w.indexSub(strBytes(a[0]), strBytes(a[1])) }
	m["internal/stringslite.Index"] = m["strings.Index"]
	m["bytes.Index"] = func(w *Worker, fr *Frame, a []Value) Value { return w.indexSub(sliceOf(a[0]), sliceOf(a[1])) }
	count := func(w *Worker, bs []Value, c Value) Value {
		n := int64(0)
		for _, b := range bs {
			if w.branch(w.c.Eq(w.term(b, 8), w.term(c, 8))) {
				n++
			}
		}
		return ival(n)
	}
	m["internal/bytealg.Count"] = func(w *Worker, fr *Frame, a []Value) Value { return count(w, sliceOf(a[0]), a[1]) }
	m["internal/bytealg.CountString"] = func(w *Worker, fr *Frame, a []Value) Value { return count(w, strBytes(a[0]), a[1]) }
	m["bytes.Equal"] = m[zz+"Eq"]
	m["bytes.Compare"] = func(w *Worker, fr *Frame, a []Value) Value { return w.compareBytes(sliceOf(a[0]), sliceOf(a[1])) }
	m["internal/bytealg.Compare"] = m["bytes.Compare"]
	m["strings.Compare"] = func(w *Worker, fr *Frame, a []Value) Value { return w.compareBytes(strBytes(a[0]), strBytes(a[1])) }
	m["internal/bytealg.CompareString"] = m["strings.Compare"]
	m["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *Frame, a []Value) Value {
		n := w.concInt(a[0], "MakeNoZero")
		return Value{P: make(SliceV, n)}
	}
	m["internal/stringslite.Clone"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	m["strings.Clone"] = m["internal/stringslite.Clone"]
	m["strings.ToLower"] = func(w *Worker, fr *Frame, a []Value) Value { return lowerUpper(w, a[0], 'A', 'Z', 32) }
	m["strings.ToUpper"] = func(w *Worker, fr *Frame, a []Value) Value {
		return lowerUpper(w, a[0], 'a', 'z', uint64(0x100-32))
	}
	m["(*strings.Builder).String"] = func(w *Worker, fr *Frame, a []Value) Value {
		return mkStr(sliceOf(w.fields(a[0])[1]))
	}
	m["(*strings.Builder).copyCheck"] = nop
	m["(*strings.Builder).Grow"] = nop
	m["(*strings.Builder).grow"] = nop
	m["(*bytes.Buffer).String"] = func(w *Worker, fr *Frame, a []Value) Value {
		if a[0].P == nil {
			return sval("<nil>")
		}
		f := w.fields(a[0])
		bs := sliceOf(f[0])
		return mkStr(bs[w.concInt(f[1], "buffer offset"):])
	}
	m["encoding/hex.EncodeToString"] = func(w *Worker, fr *Frame, a []Value) Value {
		return mkStr(w.hexBytes(sliceOf(a[0]), false))
	}
	m["encoding/hex.DecodeString"] = func(w *Worker, fr *Frame, a []Value) Value {
		if s, ok := concStr(a[0]); ok {
			b, err := hex.DecodeString(s)
			ev := Value{}
			if err != nil {
				ev = w.mkError(err.Error())
			}
			return Value{P: TupleV{byteSlice(b), ev}}
		}
		bs := strBytes(a[0])
		var valids []*Term
		dec := make([]*Term, 256)
		okT := make([]*Term, 256)
		for i := 0; i < 256; i++ {
			x := strings.IndexByte("0123456789abcdef", byte(i))
			if x < 0 {
				x = strings.IndexByte("0123456789ABCDEF", byte(i))
			}
			okT[i] = w.c.K(1, b2u(x >= 0))
			if x < 0 {
				x = 0
			}
			dec[i] = w.c.K(4, uint64(x))
		}
		var out SliceV
		valid := w.c.T
		for i := 0; i+1 < len(bs); i += 2 {
			x, y := w.term(bs[i], 8), w.term(bs[i+1], 8)
			v := w.c.And(w.c.Eq(w.c.Mux(x, okT), w.c.K(1, 1)), w.c.Eq(w.c.Mux(y, okT), w.c.K(1, 1)))
			valids = append(valids, v)
			valid = w.c.And(valid, v)
			out = append(out, tval(w.c.Concat(w.c.Mux(x, dec), w.c.Mux(y, dec))))
		}
		if !w.branch(valid) {
			// what precedes the first bad byte is returned with the error
			k := 0
			for k < len(valids)-1 && w.branch(valids[k]) {
				k++
			}
			return Value{P: TupleV{Value{P: out[:k:k]}, w.mkError("encoding/hex: invalid byte")}}
		}
		if len(bs)%2 == 1 {
			return Value{P: TupleV{Value{P: out}, w.mkError("encoding/hex: odd length hex string")}}
		}
		return Value{P: TupleV{Value{P: out}, Value{}}}
	}

	// ---- fmt / errors / runtime
	m["fmt.Sprintf"] = func(w *Worker, fr *Frame, a []Value) Value {
		f, ok := concStr(a[0])
		if !ok {
			return sval("<fmt>")
		}
		return w.sprintf(f, sliceOf(a[1]))
	}
	m["fmt.Errorf"] = func(w *Worker, fr *Frame, a []Value) Value {
		f, _ := concStr(a[0])
		s, ok := concStr(w.sprintf(f, sliceOf(a[1])))
		if !ok {
			s = "<fmt>"
		}
		return w.mkError(s)
	}
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		m[n] = func(w *Worker, fr *Frame, a []Value) Value { return sval("<fmt>") }
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		m[n] = func(w *Worker, fr *Frame, a []Value) Value { return Value{P: TupleV{ival(0), Value{}}} }
	}
	m["runtime.Callers"] = func(w *Worker, fr *Frame, a []Value) Value { return ival(0) }
	m["runtime.Caller"] = func(w *Worker, fr *Frame, a []Value) Value {
		return Value{P: TupleV{ival(0), sval(""), ival(0), bval(false)}}
	}
	m["runtime.KeepAlive"] = nop
	m["runtime.GC"] = nop
	m["internal/abi.NoEscape"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	m["internal/abi.Escape"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	m["internal/race.ReadRange"] = nop
	m["internal/race.WriteRange"] = nop

	// ---- sync
	// A harness is one goroutine: a lock that is taken again before it is released is a deadlock.
	lock := func(take, release int) func(w *Worker, fr *Frame, a []Value) Value {
		return func(w *Worker, fr *Frame, a []Value) Value {
			if w.mergeD > 0 {
				panic(abortMerge{"mutex"})
			}
			// -1: held for writing, n: held by n readers
			s := w.locks[a[0].P]
			msg := ""
			switch {
			case take < 0 && s != 0 || take > 0 && s < 0:
				msg = "deadlock: a lock is taken that is already held"
			case release < 0 && s != -1 || release > 0 && s <= 0:
				msg = "unlock of a lock that is not held"
			}
			if msg != "" && take != 0 && w.task > 0 {
				if w.taskLocks > 0 {
					panic(pathEnd{"unsupported", "a task waits for its second lock"})
				}
				v := sval("zz: would block")
				panic(targetPanic{v: Value{P: &Iface{t: types.Typ[types.String], v: v}}, msg: "zz: would block"})
			}
			if msg != "" {
				w.violation("panic: " + msg)
				panic(pathEnd{"infeasible", ""})
			}
			if w.task > 0 && take != 0 {
				w.taskLocks++
			}
			w.locks[a[0].P] = s + take - release
			return Value{}
		}
	}
	m["(*sync.Mutex).Lock"], m["(*sync.Mutex).Unlock"] = lock(-1, 0), lock(0, -1)
	m["(*sync.RWMutex).Lock"], m["(*sync.RWMutex).Unlock"] = lock(-1, 0), lock(0, -1)
	m["(*sync.RWMutex).RLock"], m["(*sync.RWMutex).RUnlock"] = lock(1, 0), lock(0, 1)
	m[zz+"enterTask"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.task > 0 {
			panic(pathEnd{"unsupported", "a task within a task"})
		}
		w.task, w.taskLocks = 1, 0
		return Value{}
	}
	m[zz+"leaveTask"] = func(w *Worker, fr *Frame, a []Value) Value {
		w.task = 0
		return Value{}
	}
	m[zz+"onceDone"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"once"})
		}
		p := a[0].P.(*Value)
		if w.onces[p] {
			return bval(true)
		}
		w.onces[p] = true
		return bval(false)
	}

	// ---- math/bits
	b2 := func(n string, f func(w *Worker, a []Value) Value) {
		m["math/bits."+n] = func(w *Worker, fr *Frame, a []Value) Value { return f(w, a) }
	}
	rot := func(width int) func(w *Worker, a []Value) Value {
		return func(w *Worker, a []Value) Value {
			k := w.concInt(a[1], "rotate amount")
			s := k & (width - 1)
			t := w.term(a[0], width)
			if s == 0 {
				return a[0]
			}
			return tval(w.c.Concat(w.c.Extract(t, width-1-s, 0), w.c.Extract(t, width-1, width-s)))
		}
	}
	b2("RotateLeft8", rot(8))
	b2("RotateLeft16", rot(16))
	b2("RotateLeft32", rot(32))
	b2("RotateLeft64", rot(64))
	lenN := func(width int) func(w *Worker, a []Value) Value {
		return func(w *Worker, a []Value) Value {
			if a[0].P == nil {
				return ival(int64(bits.Len64(a[0].N)))
			}
			return w.bigBitLen(&BigV{t: a[0].sym()})
		}
	}
	b2("Len", lenN(64))
	b2("Len64", lenN(64))
	b2("Len32", lenN(32))
	b2("Len16", lenN(16))
	b2("Len8", lenN(8))

	// ---- math
	m["math.Float64bits"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	m["math.Float64frombits"] = func(w *Worker, fr *Frame, a []Value) Value { return a[0] }
	mf := func(n string, f func(float64) float64) {
		m["math."+n] = func(w *Worker, fr *Frame, a []Value) Value {
			if a[0].P != nil {
				w.unsupported("symbolic float")
			}
			return fval(f(a[0].f()))
		}
	}
	mf("Floor", math.Floor)
	mf("Ceil", math.Ceil)
	mf("Log", math.Log)
	mf("Log2", math.Log2)
	mf("Sqrt", math.Sqrt)
	mf("Trunc", math.Trunc)
	mf("Round", math.Round)
	mf("Abs", math.Abs)

	// ---- time and randomness
	m["time.Now"] = func(w *Worker, fr *Frame, a []Value) Value {
		return Value{P: StructV{Value{}, Value{}, Value{}}}
	}
	m["(time.Time).Unix"] = func(w *Worker, fr *Frame, a []Value) Value { return w.nd("clock", 64) }
	m["(time.Time).UnixNano"] = m["(time.Time).Unix"]
	m["math/rand.Seed"] = nop

	// ---- asn1 helper: fields of an interface holding a struct of big.Int pointers
	m[zz+"structBigs"] = func(w *Worker, fr *Frame, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			w.unsupported("asn1 of nil")
		}
		v := i.v
		if p, ok := v.P.(*Value); ok {
			v = *p
		}
		s, ok := v.P.(StructV)
		if !ok {
			w.unsupported("asn1 of %v", i.t)
		}
		var out SliceV
		for _, f := range s {
			if _, ok := f.P.(*Value); !ok {
				w.unsupported("asn1 field of %v", i.t)
			}
			out = append(out, f)
		}
		return Value{P: out}
	}
	m[zz+"setStructBigs"] = func(w *Worker, fr *Frame, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			w.unsupported("asn1 into nil")
		}
		p, ok := i.v.P.(*Value)
		if !ok {
			w.unsupported("asn1 into %v", i.t)
		}
		s, ok := p.P.(StructV)
		if !ok {
			w.unsupported("asn1 into %v", i.t)
		}
		for k, f := range sliceOf(a[1]) {
			if k < len(s) {
				w.set(&s[k], f, -1)
			}
		}
		return Value{}
	}
	m[zz+"structLen"] = func(w *Worker, fr *Frame, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return ival(0)
		}
		v := i.v
		if p, ok := v.P.(*Value); ok {
			v = *p
		}
		s, _ := v.P.(StructV)
		return ival(int64(len(s)))
	}
	atomicIntrinsics(m)
	jsonIntrinsics(m)
}

func atomicIntrinsics(m map[string]bigFn) {
	type k struct {
		n string
		w int
	}
	for _, t := range []k{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}} {
		t := t
		ld := func(w *Worker, fr *Frame, a []Value) Value { return w.load(a[0], t.w) }
		st := func(w *Worker, fr *Frame, a []Value) Value { w.store(a[0], a[1], t.w); return Value{} }
		ad := func(w *Worker, fr *Frame, a []Value) Value {
			v := tval(w.c.Add(w.term(w.load(a[0], t.w), t.w), w.term(a[1], t.w)))
			w.store(a[0], v, t.w)
			return v
		}
		m["sync/atomic.Load"+t.n] = ld
		m["sync/atomic.Store"+t.n] = st
		m["sync/atomic.Add"+t.n] = ad
	}
}

var _ = atomic.AddInt64
