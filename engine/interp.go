package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func fval(f float64) Value { return Value{N: math.Float64bits(f)} }
func (v Value) f() float64 { return math.Float64frombits(v.N) }

// Dec is a logged decision.
type Dec struct {
	k byte // 'B' forked branch, 'I' implied, 'M' merged, 'V' concretise, 'C' choose
	v int64
	n int64
}

type trailEnt struct {
	p   *Value
	old Value
	w   int
}

type pathEnd struct {
	kind string // done, assume, violation, unsupported, bound, infeasible
	msg  string
}
type abortMerge struct{ why string }
type targetPanic struct {
	v   Value // interface value
	msg string
}

// NondetRec is one nondeterministic input in program order.
type NondetRec struct {
	Name string
	W    int
	V    []Value
}

// UFApp is one application of an uninterpreted function on the current path.
type UFApp struct {
	name string
	in   []Value
	res  *Term
	inT  *Term
	real func([]byte) []byte
	inj  bool
}

// Worker executes paths.
type Worker struct {
	e       *Engine
	c       *Ctx
	s       *Solver
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	trail   []trailEnt
	undo    []func()
	trailOn bool

	h       *Harness
	pc      []*Term
	log     []Dec
	prefix  []Dec
	model   *Model
	mergeD  int
	steps   int64
	maxStep int64
	msteps  int
	mbudget int
	depth   int

	nondet   []NondetRec
	nvar     int
	ufs      []*UFApp
	ufEager  uint64 // the hashes for which none are
	obs      []ObsRec
	asserts  []string
	reached  map[string]bool
	allocMax int64

	mergeFail map[int]int
	mergeOK   map[int]int
	funcs     map[*FnInfo]bool
	deadline  time.Time
	lastFn    string
	pts       map[*Term]*PointTag
	onces     map[*Value]bool
	locks     map[any]int
	task      int // within zz.Go
	taskLocks int // locks taken there
	abs       map[string]bool
}

// ObsRec is an observation (for translator validation).
type ObsRec struct {
	Label string
	V     []Value
	W     int
}

func (w *Worker) set(p *Value, v Value, width int) {
	if w.trailOn {
		w.trail = append(w.trail, trailEnt{p, *p, width})
	}
	*p = v
}

func (w *Worker) addUndo(f func()) {
	if w.trailOn {
		if w.mergeD > 0 {
			panic(abortMerge{"map mutation"})
		}
		w.undo = append(w.undo, f)
	}
}

func (w *Worker) rollback(n int) {
	for i := len(w.trail) - 1; i >= n; i-- {
		*w.trail[i].p = w.trail[i].old
	}
	w.trail = w.trail[:n]
}

func (w *Worker) term(v Value, width int) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if width == 0 {
		return w.c.Bool(v.N != 0)
	}
	if width < 0 {
		panic(pathEnd{"unsupported", "term of non-scalar"})
	}
	return w.c.K(width, v.N)
}

func (w *Worker) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if w.mergeD > 0 {
		panic(abortMerge{msg})
	}
	panic(pathEnd{"unsupported", msg})
}

func (w *Worker) replaying() bool { return len(w.log) < len(w.prefix) }

func (w *Worker) pushPC(t *Term) {
	if t == w.c.T {
		return
	}
	w.pc = append(w.pc, t)
	if w.mergeD > 0 || w.c.oneVar(t) == nil {
		w.c.entangle(t)
	}
	if w.mergeD == 0 {
		w.c.noteZero(t)
		w.c.noteFact(t, true)
	}
	if w.model != nil && !w.c.EvalBool(t, w.model) {
		w.model = nil
	}
}

func (w *Worker) ensureModel() bool {
	if w.model != nil {
		return true
	}
	r, m := w.s.Check(w.pc, w.c.T, true)
	switch r {
	case Sat:
		w.model = m
		return true
	case Unsat:
		if w.mergeD > 0 {
			panic(abortMerge{"infeasible side"})
		}
		panic(pathEnd{"infeasible", ""})
	}
	return false
}

// branch decides a condition, forking if both sides are feasible.
func (w *Worker) branch(cond *Term) bool {
	if cond == w.c.T {
		return true
	}
	if cond == w.c.F {
		return false
	}
	w.needUF(cond)
	if v, ok := w.c.facts[cond]; ok {
		return v
	}
	val, known, free := w.c.decide(cond)
	if known {
		return val
	}
	if w.replaying() {
		d := w.prefix[len(w.log)]
		w.log = append(w.log, d)
		switch d.k {
		case 'B':
			t := cond
			if d.v == 0 {
				t = w.c.Not(cond)
			}
			w.pushPC(t)
		case 'I':
			if w.mergeD == 0 {
				w.c.noteFact(cond, d.v != 0)
			}
		default:
			panic(fmt.Sprintf("decision log mismatch: %c at branch in %s (log %d)", d.k, w.lastFn, len(w.log)))
		}
		return d.v != 0
	}
	w.checkTime()
	have := w.ensureModel()
	side := true
	if have {
		side = w.c.EvalBool(cond, w.model)
	}
	other := cond
	if side {
		other = w.c.Not(cond)
	}
	r := Sat
	if !free || w.mergeD > 0 {
		r, _ = w.s.Check(w.pc, other, false)
	}
	if r == Unsat {
		w.log = append(w.log, Dec{k: 'I', v: int64(b2u(side))})
		if w.mergeD == 0 {
			w.c.noteFact(cond, side)
		}
		return side
	}
	if w.mergeD > 0 {
		panic(abortMerge{"fork inside"})
	}
	w.pushSibling(Dec{k: 'B', v: int64(b2u(!side))})
	w.log = append(w.log, Dec{k: 'B', v: int64(b2u(side))})
	t := cond
	if !side {
		t = w.c.Not(cond)
	}
	w.pushPC(t)
	return side
}

var (
	forkProf = os.Getenv("ZZ_FORKS") != ""
	forkMu   sync.Mutex
	forkN    = map[string]int{}
)

func (w *Worker) pushSibling(d Dec) {
	if forkProf {
		forkMu.Lock()
		forkN[string(d.k)+" "+w.lastFn]++
		forkMu.Unlock()
	}
	p := make([]Dec, len(w.log)+1)
	copy(p, w.log)
	p[len(w.log)] = d
	w.h.push(p)
}

// choose picks one of n alternatives (all feasible by construction).
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.replaying() {
		d := w.prefix[len(w.log)]
		w.log = append(w.log, d)
		if d.k != 'C' {
			panic("decision log mismatch: choose")
		}
		return int(d.v)
	}
	if w.mergeD > 0 {
		panic(abortMerge{"choose"})
	}
	for i := n - 1; i >= 1; i-- {
		w.pushSibling(Dec{k: 'C', v: int64(i)})
	}
	w.log = append(w.log, Dec{k: 'C', v: 0})
	return 0
}

// concretize enumerates the values of a term by forking.
func (w *Worker) concretize(t *Term, limit int, why string) uint64 {
	if t.isConst() {
		return t.val
	}
	w.needUF(t)
	if k, ok := w.c.pinned(t); ok && t.w <= 64 {
		return k
	}
	if t.w > 64 {
		w.unsupported("concretize wide")
	}
	for n := 0; ; n++ {
		if w.replaying() {
			d := w.prefix[len(w.log)]
			w.log = append(w.log, d)
			if d.k == 'I' {
				return uint64(d.n)
			}
			if d.k != 'V' {
				panic("decision log mismatch: concretize")
			}
			eq := w.c.Eq(t, w.c.K(t.w, uint64(d.n)))
			if d.v == 1 {
				w.pushPC(eq)
				return uint64(d.n)
			}
			w.pushPC(w.c.Not(eq))
			continue
		}
		w.checkTime()
		if n > limit {
			panic(pathEnd{"bound", fmt.Sprintf("more than %d values for %s", limit, why)})
		}
		if !w.ensureModel() {
			w.unsupported("concretize: solver unknown")
		}
		v := w.c.EvalBV(t, w.model).Uint64()
		eq := w.c.Eq(t, w.c.K(t.w, v))
		r, _ := w.s.Check(w.pc, w.c.Not(eq), false)
		if r == Unsat {
			w.log = append(w.log, Dec{k: 'I', v: 1, n: int64(v)})
			return v
		}
		if w.mergeD > 0 {
			panic(abortMerge{"concretize"})
		}
		w.pushSibling(Dec{k: 'V', v: 0, n: int64(v)})
		w.log = append(w.log, Dec{k: 'V', v: 1, n: int64(v)})
		w.pushPC(eq)
		return v
	}
}

func (w *Worker) checkTime() {
	if time.Now().After(w.deadline) {
		panic(pathEnd{"bound", "time budget"})
	}
}

func (w *Worker) rtPanic(msg string) {
	if w.mergeD > 0 {
		panic(abortMerge{"panic"})
	}
	panic(targetPanic{v: Value{P: &Iface{t: w.e.rtErrType, v: sval(msg)}}, msg: "runtime error: " + msg})
}

// must raises a runtime panic on the paths where cond is false.
func (w *Worker) must(cond *Term, msg string) {
	if !w.branch(cond) {
		w.rtPanic(msg)
	}
}

type deferred struct {
	fn   Value
	args []Value
	b    *ssa.Builtin
}

// Frame is an activation.
type Frame struct {
	fi     *FnInfo
	env    []Value
	result Value
	defers []deferred
	pan    *targetPanic
	recov  bool
	caller *Frame
}

func (w *Worker) get(fr *Frame, o *opnd) Value {
	switch o.k {
	case okReg:
		return fr.env[o.i]
	case okConst:
		switch o.v.P.(type) {
		case ArrV, StructV:
			return copyVal(o.v)
		}
		return o.v
	}
	return Value{P: w.global(o.g)}
}

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	w.initPkg(g.Pkg)
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	return p
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "reflect": true, "net": true, "internal/godebug": true, "time": true, "crypto/internal/fips140": true, "math/rand": true, "unsafe": true, "fmt": true, "crypto/rand": true, "internal/bytealg": true, "sync": true, "math/big": true, "net/http": true, "encoding/json": true, "encoding/asn1": true}

func (w *Worker) initPkg(p *ssa.Package) {
	if p == nil || w.inited[p] != 0 {
		return
	}
	w.inited[p] = 1
	path := p.Pkg.Path()
	if skipInit[path] || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") {
		w.inited[p] = 2
		if path == "crypto/sha256" || path == "crypto/ecdsa" || path == "crypto/elliptic" {
			// nothing needed
		}
		return
	}
	initFn := p.Func("init")
	if initFn == nil {
		return
	}
	// Run outside any path: no trail, no pc.
	so, sp, sm, sl, spx, smd, snd := w.trailOn, w.pc, w.model, w.log, w.prefix, w.mergeD, w.steps
	w.trailOn = false
	w.mergeD = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.e.note(fmt.Sprintf("init of %s incomplete: %v", path, r))
			}
		}()
		w.callSSA(initFn, nil, nil, nil)
	}()
	w.trailOn, w.pc, w.model, w.log, w.prefix, w.mergeD, w.steps = so, sp, sm, sl, spx, smd, snd
	w.inited[p] = 2
}

func (w *Worker) callValue(fv Value, args []Value, caller *Frame) Value {
	switch f := fv.P.(type) {
	case *Closure:
		return w.callSSA(f.fn, args, f.env, caller)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *ssa.Builtin:
		w.unsupported("builtin value call")
	}
	w.unsupported("call of %T", fv.P)
	return Value{}
}

func (w *Worker) callSSA(fn *ssa.Function, args []Value, env []Value, caller *Frame) Value {
	fi := w.e.fnInfo(fn)
	if fi.intr != nil {
		return fi.intr(w, caller, args)
	}
	if fi.stub != nil && fi.stub != fn && (!fi.optStub || w.abs[fi.name]) && (len(w.abs) == 0 || !w.abs["!"+fi.name]) {
		return w.callSSA(fi.stub, args, nil, caller)
	}
	if len(fi.blocks) == 0 {
		w.unsupported("no body: %s", fi.name)
	}
	if fn.Synthetic == "package initializer" && caller != nil {
		// dependencies are initialised lazily
		return Value{}
	}
	w.depth++
	if w.depth > 3000 {
		w.depth = 0
		if w.mergeD > 0 {
			panic(abortMerge{"depth"})
		}
		panic(pathEnd{"bound", "call depth"})
	}
	if fi.repo && w.trailOn {
		w.funcs[fi] = true
	}
	fr := &Frame{fi: fi, env: make([]Value, fi.nreg), caller: caller}
	for i, p := range fi.params {
		fr.env[p] = args[i]
	}
	for i, p := range fi.free {
		fr.env[p] = env[i]
	}
	d := w.depth
	if !fi.defers {
		w.run(fr, fi.blocks[0].b, nil, nil)
	} else {
		w.runWithDefers(fr)
	}
	w.depth = d - 1
	return fr.result
}

func (w *Worker) runWithDefers(fr *Frame) {
	depth := w.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				w.depth = depth
				fr.pan = &tp
				w.runDefers(fr)
				if fr.pan != nil {
					panic(*fr.pan)
				}
				// recovered
				if fr.fi.fn.Recover != nil {
					w.run(fr, fr.fi.fn.Recover, nil, nil)
				} else {
					fr.result = zeroResults(fr.fi.fn)
				}
			}
		}()
		w.run(fr, fr.fi.blocks[0].b, nil, nil)
	}()
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (w *Worker) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.pan = &tp
				}
			}()
			if d.b != nil {
				w.builtin(fr, d.b, d.args, nil)
				return
			}
			w.callDeferred(fr, d)
		}()
	}
}

func (w *Worker) callDeferred(fr *Frame, d deferred) {
	w.callValue(d.fn, d.args, fr)
}

// region exit of run.
type exitInfo struct {
	returned bool
	phis     []Value
}

// run executes from block b (entered from prev) until return or stop is reached.
// When phis is non-nil they are the values of b's phis (already merged).
func (w *Worker) run(fr *Frame, b *ssa.BasicBlock, prev *ssa.BasicBlock, stop *ssa.BasicBlock) exitInfo {
	return w.run2(fr, b, prev, stop, nil)
}

func (w *Worker) phiVals(fr *Frame, b, prev *ssa.BasicBlock) []Value {
	bi := fr.fi.blocks[b.Index]
	if len(bi.phis) == 0 {
		return nil
	}
	ei := -1
	for i, p := range b.Preds {
		if p == prev {
			ei = i
			break
		}
	}
	out := make([]Value, len(bi.phis))
	for i, ci := range bi.phis {
		out[i] = w.get(fr, &ci.ops[ei])
	}
	return out
}

func (w *Worker) run2(fr *Frame, b *ssa.BasicBlock, prev *ssa.BasicBlock, stop *ssa.BasicBlock, phis []Value) exitInfo {
	for {
		// arrive at b
		if phis == nil {
			phis = w.phiVals(fr, b, prev)
		}
		if b == stop {
			return exitInfo{phis: phis}
		}
		bi := fr.fi.blocks[b.Index]
		for i, ci := range bi.phis {
			fr.env[ci.dst] = phis[i]
		}
		phis = nil
		w.steps += int64(len(bi.ins))
		if w.steps > w.maxStep && w.trailOn {
			if w.mergeD > 0 {
				panic(abortMerge{"steps"})
			}
			panic(pathEnd{"bound", "step budget"})
		}
		if w.mergeD > 0 {
			w.msteps += len(bi.ins)
			if w.msteps > w.mbudget {
				panic(abortMerge{"budget"})
			}
		}
		var next *ssa.BasicBlock
		for _, ci := range bi.ins {
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				cv := w.get(fr, &ci.ops[0])
				t := cv.sym()
				if t == nil {
					if cv.N != 0 {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
					break
				}
				w.lastFn = fr.fi.name
				if bi.merge.ok {
					if done, ph, ret := w.tryMerge(fr, ci, bi, t); done {
						if ret {
							return exitInfo{returned: true}
						}
						next = bi.merge.join
						phis = ph
						if phis == nil {
							phis = []Value{}
						}
						break
					}
				}
				if w.branch(t) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = Value{}
				case 1:
					fr.result = w.get(fr, &ci.ops[0])
				default:
					tv := make(TupleV, len(ci.ops))
					for i := range ci.ops {
						tv[i] = w.get(fr, &ci.ops[i])
					}
					fr.result = Value{P: tv}
				}
				return exitInfo{returned: true}
			case *ssa.Panic:
				v := w.get(fr, &ci.ops[0])
				if w.mergeD > 0 {
					panic(abortMerge{"panic"})
				}
				panic(targetPanic{v: v, msg: w.panicText(v)})
			default:
				_ = in
				w.exec(fr, ci)
			}
		}
		prev, b = b, next
		if b == nil {
			panic("fell off block in " + fr.fi.name)
		}
	}
}

func (w *Worker) panicText(v Value) string {
	if i, ok := v.P.(*Iface); ok {
		if s, ok := i.v.P.(string); ok {
			return s
		}
		return types.TypeString(i.t, nil)
	}
	return "panic"
}

// tryMerge executes both sides of a conditional up to the join and merges the states.
func (w *Worker) tryMerge(fr *Frame, ci *CI, bi *BI, cond *Term) (done bool, phis []Value, returned bool) {
	// branch decides these without a log entry
	if _, ok := w.c.facts[cond]; ok {
		return false, nil, false
	}
	if _, known, _ := w.c.decide(cond); known {
		return false, nil, false
	}
	if w.replaying() {
		if w.prefix[len(w.log)].k != 'M' {
			return false, nil, false
		}
		w.log = append(w.log, Dec{k: 'M'})
	} else {
		if w.mergeD >= 14 {
			return false, nil, false
		}
		if w.mergeFail[ci.iid] > 4 && w.mergeFail[ci.iid] > 3*w.mergeOK[ci.iid] {
			return false, nil, false
		}
		if !w.trailOn {
			return false, nil, false
		}
		w.log = append(w.log, Dec{k: 'M'})
	}
	logMark := len(w.log) - 1
	trMark := len(w.trail)
	pcMark := len(w.pc)
	ufMark, ufEager := len(w.ufs), w.ufEager
	depth := w.depth
	saveModel := w.model
	savedN := w.msteps
	if w.mergeD == 0 {
		w.msteps = 0
		w.mbudget = 6000
	}
	w.mergeD++
	md := w.mergeD
	savePC := append([]*Term(nil), w.pc...)
	var reason string
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				am, is := r.(abortMerge)
				if !is {
					panic(r)
				}
				if w.mergeD < md {
					panic(r)
				}
				reason = am.why
				ok = false
			}
		}()
		var ex [2]exitInfo
		var res [2]Value
		type wr struct {
			v Value
			w int
		}
		var writes [2]map[*Value]wr
		var order []*Value
		stop := bi.merge.join
		if bi.merge.exit {
			stop = nil
		}
		var axioms []*Term
		for side := 0; side < 2; side++ {
			t := cond
			if side == 1 {
				t = w.c.Not(cond)
			}
			w.pc = append(append([]*Term(nil), savePC...), axioms...)
			base := len(w.pc)
			w.pc = append(w.pc, t)
			w.model = nil
			if saveModel != nil && w.c.EvalBool(t, saveModel) {
				w.model = saveModel
			}
			fr.result = Value{}
			ex[side] = w.run(fr, bi.b.Succs[side], bi.b, stop)
			w.depth = depth
			res[side] = fr.result
			// anything pushed beyond the side condition are axioms (UF consistency): keep them
			axioms = append(axioms, w.pc[base+1:]...)
			writes[side] = map[*Value]wr{}
			for i := len(w.trail) - 1; i >= trMark; i-- {
				te := w.trail[i]
				if _, seen := writes[side][te.p]; !seen {
					writes[side][te.p] = wr{*te.p, te.w}
				}
			}
			for i := trMark; i < len(w.trail); i++ {
				order = append(order, w.trail[i].p)
			}
			w.rollback(trMark)
		}
		if ex[0].returned != ex[1].returned {
			panic(abortMerge{"return mismatch"})
		}
		w.pc = append(append([]*Term(nil), savePC...), axioms...)
		w.mergeD-- // merging writes may not abort half way: compute first
		type mw struct {
			p *Value
			v Value
			w int
		}
		var out []mw
		seen := map[*Value]bool{}
		fail := func(why string) {
			w.mergeD++
			panic(abortMerge{why})
		}
		for _, p := range order {
			if seen[p] {
				continue
			}
			seen[p] = true
			a, inA := writes[0][p]
			b, inB := writes[1][p]
			wd := -1
			av, bv := *p, *p
			if inA {
				av, wd = a.v, a.w
			}
			if inB {
				bv = b.v
				if wd < 0 {
					wd = b.w
				}
			}
			v, mok := w.mergeVal(cond, av, bv, wd, nil)
			if !mok {
				fail("write merge")
			}
			out = append(out, mw{p, v, wd})
		}
		if ex[0].returned {
			rt := fr.fi.fn.Signature.Results()
			var v Value
			mok := true
			switch rt.Len() {
			case 0:
			case 1:
				v, mok = w.mergeVal(cond, res[0], res[1], typeWidth(rt.At(0).Type()), rt.At(0).Type())
			default:
				v, mok = w.mergeVal(cond, res[0], res[1], -1, rt)
			}
			if !mok {
				fail("result merge")
			}
			fr.result = v
			returned = true
		} else {
			jb := fr.fi.blocks[bi.merge.join.Index]
			phis = make([]Value, len(jb.phis))
			for i, pci := range jb.phis {
				v, mok := w.mergeVal(cond, ex[0].phis[i], ex[1].phis[i], pci.w, pci.typ)
				if !mok {
					fail("phi merge")
				}
				phis[i] = v
			}
		}
		for _, m := range out {
			w.set(m.p, m.v, m.w)
		}
		return true
	}()
	if ok {
		w.model = saveModel
		if w.model != nil {
			for _, a := range w.pc[pcMark:] {
				if !w.c.EvalBool(a, w.model) {
					w.model = nil
					break
				}
			}
		}
		w.mergeOK[ci.iid]++
		return true, phis, returned
	}
	// abort
	w.mergeD = md - 1
	w.rollback(trMark)
	w.pc = savePC
	w.ufs = w.ufs[:ufMark]
	w.ufEager = ufEager
	w.depth = depth
	w.model = saveModel
	w.msteps = savedN
	if w.replaying() || logMark < len(w.prefix) {
		panic("merge aborted during replay: " + reason)
	}
	w.log = w.log[:logMark]
	w.mergeFail[ci.iid]++
	return false, nil, false
}

// mergeVal merges two values under a condition.
func (w *Worker) mergeVal(cond *Term, a, b Value, width int, t types.Type) (Value, bool) {
	ta, sa := a.P.(*Term)
	tb, sb := b.P.(*Term)
	if sa || sb {
		if width < 0 {
			if sa {
				width = ta.w
			} else {
				width = tb.w
			}
		}
		return tval(w.c.Ite(cond, w.term(a, width), w.term(b, width))), true
	}
	if a.P == nil && b.P == nil {
		if a.N == b.N {
			return a, true
		}
		if width < 0 {
			return a, false
		}
		return tval(w.c.Ite(cond, w.term(a, width), w.term(b, width))), true
	}
	if a.P == nil || b.P == nil {
		return a, false
	}
	switch x := a.P.(type) {
	case string, *SymStr:
		if _, ok := b.P.(string); !ok {
			if _, ok := b.P.(*SymStr); !ok {
				return a, false
			}
		}
		if strLen(a) != strLen(b) {
			return a, false
		}
		if xs, ok := a.P.(string); ok {
			if ys, ok := b.P.(string); ok && xs == ys {
				return a, true
			}
		}
		n := strLen(a)
		bs := make([]Value, n)
		for i := 0; i < n; i++ {
			v, _ := w.mergeVal(cond, strAt(a, i), strAt(b, i), 8, nil)
			bs[i] = v
		}
		return mkStr(bs), true
	case *Value:
		y, ok := b.P.(*Value)
		return a, ok && x == y
	case SliceV:
		y, ok := b.P.(SliceV)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return a, false
		}
		if len(x) == 0 || &x[0] == &y[0] {
			return a, true
		}
		return a, false
	case *Iface:
		y, ok := b.P.(*Iface)
		if !ok {
			return a, false
		}
		if x == y {
			return a, true
		}
		if types.Identical(x.t, y.t) {
			v, ok := w.mergeVal(cond, x.v, y.v, typeWidth(x.t), x.t)
			if ok {
				return Value{P: &Iface{t: x.t, v: v}}, true
			}
		}
		return a, false
	case *MapV:
		y, ok := b.P.(*MapV)
		return a, ok && x == y
	case *Closure:
		y, ok := b.P.(*Closure)
		return a, ok && (x == y || x.fn == y.fn && len(x.env) == 0)
	case *BigV:
		y, ok := b.P.(*BigV)
		if !ok {
			return a, false
		}
		return w.bigIte(cond, x, y)
	case TupleV:
		y, ok := b.P.(TupleV)
		if !ok || len(x) != len(y) {
			return a, false
		}
		out := make(TupleV, len(x))
		for i := range x {
			var et types.Type
			wd := -1
			if tt, ok := t.(*types.Tuple); ok {
				et = tt.At(i).Type()
				wd = typeWidth(et)
			}
			v, ok := w.mergeVal(cond, x[i], y[i], wd, et)
			if !ok {
				return a, false
			}
			out[i] = v
		}
		return Value{P: out}, true
	case StructV:
		y, ok := b.P.(StructV)
		if !ok || len(x) != len(y) {
			return a, false
		}
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		out := make(StructV, len(x))
		for i := range x {
			var et types.Type
			wd := -1
			if st != nil {
				et = st.Field(i).Type()
				wd = typeWidth(et)
			}
			v, ok := w.mergeVal(cond, x[i], y[i], wd, et)
			if !ok {
				return a, false
			}
			out[i] = v
		}
		return Value{P: out}, true
	case ArrV:
		y, ok := b.P.(ArrV)
		if !ok || len(x) != len(y) {
			return a, false
		}
		var et types.Type
		wd := -1
		if t != nil {
			if at, ok := t.Underlying().(*types.Array); ok {
				et = at.Elem()
				wd = typeWidth(et)
			}
		}
		out := make(ArrV, len(x))
		for i := range x {
			v, ok := w.mergeVal(cond, x[i], y[i], wd, et)
			if !ok {
				return a, false
			}
			out[i] = v
		}
		return Value{P: out}, true
	}
	return a, false
}

// ---- memory

func (w *Worker) load(pv Value, width int) Value {
	switch p := pv.P.(type) {
	case *Value:
		return copyVal(*p)
	case *SymPtr:
		return w.loadSym(p, width)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.unsupported("load %T", pv.P)
	return Value{}
}

func follow(v *Value, path []int) *Value {
	for _, i := range path {
		switch s := v.P.(type) {
		case StructV:
			v = &s[i]
		case ArrV:
			v = &s[i]
		default:
			return nil
		}
	}
	return v
}

func (w *Worker) loadSym(p *SymPtr, width int) Value {
	n := len(p.elems)
	if width >= 0 {
		ts := make([]*Term, n)
		for i := range p.elems {
			v := follow(&p.elems[i], p.path)
			ts[i] = w.term(*v, width)
		}
		return tval(w.c.Mux(p.idx, ts))
	}
	if s, ok := w.loadText(p); ok {
		return s
	}
	k := w.concretize(p.idx, 4096, "index")
	return copyVal(*follow(&p.elems[k], p.path))
}

// loadText loads from a large table of constant strings of one length.
func (w *Worker) loadText(p *SymPtr) (Value, bool) {
	if len(p.elems) < 256 {
		return Value{}, false
	}
	tab := make([]string, len(p.elems))
	for i := range p.elems {
		s, ok := follow(&p.elems[i], p.path).P.(string)
		if !ok || len(s) != len(tab[0]) && i > 0 || len(s) == 0 {
			return Value{}, false
		}
		tab[i] = s
	}
	out := &SymStr{b: make([]Value, len(tab[0]))}
	ts := make([]*Term, len(tab))
	for j := range out.b {
		for i, s := range tab {
			ts[i] = w.c.K(8, uint64(s[j]))
		}
		out.b[j] = tval(w.c.Mux(p.idx, ts))
	}
	return Value{P: out}, true
}

// lookupCube looks up a symbolic string in a large map whose keys are all strings with some bits fixed and whose
// values are made of the other bits.
func (w *Worker) lookupCube(mv *MapV, k *SymStr, width int) (val *Term, found *Term) {
	n := mv.n
	if n < 256 || n&(n-1) != 0 || len(mv.keys) != n || len(mv.idx) != n || width < 1 || width > 64 {
		return nil, nil
	}
	l := -1
	var and, or []byte
	for i, kv := range mv.keys {
		s, ok := kv.P.(string)
		if !ok || mv.vals[i].P != nil {
			return nil, nil
		}
		if l < 0 {
			l = len(s)
			and, or = []byte(s), []byte(s)
		}
		if len(s) != l {
			return nil, nil
		}
		for j := 0; j < l; j++ {
			and[j] &= s[j]
			or[j] |= s[j]
		}
	}
	if len(k.b) != l {
		return w.c.K(width, 0), w.c.F
	}
	var free []int // bits of the key, most significant byte first
	for j := l - 1; j >= 0; j-- {
		for b := 0; b < 8; b++ {
			if (and[j]^or[j])>>uint(b)&1 == 1 {
				free = append(free, (l-1-j)*8+b)
			}
		}
	}
	if 1<<uint(len(free)) != n {
		return nil, nil
	}
	vs := make([]uint64, n)
	for i, kv := range mv.keys {
		s := kv.P.(string)
		x := 0
		for p, f := range free {
			if s[l-1-f/8]>>uint(f%8)&1 == 1 {
				x |= 1 << uint(p)
			}
		}
		vs[x] = mv.vals[i].N
	}
	ok := w.c.T
	var key *Term
	for j := 0; j < l; j++ {
		b := w.term(k.b[j], 8)
		fix := ^(and[j] ^ or[j])
		if fix != 0 {
			ok = w.c.And(ok, w.c.Eq(w.c.Band(b, w.c.K(8, uint64(fix))), w.c.K(8, uint64(and[j]&fix))))
		}
		if key == nil {
			key = b
		} else {
			key = w.c.Concat(key, b)
		}
	}
	x := w.c.wire(key, 0, free)
	v := w.c.wires(x, vs, width)
	if v == nil {
		return nil, nil
	}
	return v, ok
}

func (w *Worker) store(pv Value, v Value, width int) {
	switch p := pv.P.(type) {
	case *Value:
		w.storeCell(p, v, width)
		return
	case *SymPtr:
		if width >= 0 {
			for i := range p.elems {
				c := follow(&p.elems[i], p.path)
				cond := w.c.Eq(p.idx, w.c.K(p.idx.w, uint64(i)))
				if cond == w.c.F {
					continue
				}
				w.set(c, tval(w.c.Ite(cond, w.term(v, width), w.term(*c, width))), width)
			}
			return
		}
		k := w.concretize(p.idx, 4096, "store index")
		w.storeCell(follow(&p.elems[k], p.path), v, width)
		return
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.unsupported("store %T", pv.P)
}

func (w *Worker) storeCell(p *Value, v Value, width int) {
	switch nv := v.P.(type) {
	case StructV:
		if old, ok := p.P.(StructV); ok && len(old) == len(nv) {
			for i := range nv {
				w.storeCell(&old[i], nv[i], -1)
			}
			return
		}
		w.set(p, copyVal(v), width)
	case ArrV:
		if old, ok := p.P.(ArrV); ok && len(old) == len(nv) {
			for i := range nv {
				w.storeCell(&old[i], nv[i], -1)
			}
			return
		}
		w.set(p, copyVal(v), width)
	default:
		w.set(p, v, width)
	}
}

// idx64 widens an index to 64 bits.
func (w *Worker) idx64(v Value, width int, signed bool) *Term {
	t := w.term(v, width)
	if width < 64 {
		if signed {
			return w.c.Sext(t, 64)
		}
		return w.c.Zext(t, 64)
	}
	return t
}

func sidx(v Value, width int, signed bool) int64 {
	if signed {
		return sx(v.N, width)
	}
	if width == 64 && v.N > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(v.N)
}

func (w *Worker) index(elems []Value, iv Value, width int, signed bool) Value {
	if iv.P == nil {
		i := sidx(iv, width, signed)
		if i < 0 || i >= int64(len(elems)) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(elems)))
		}
		return Value{P: &elems[i]}
	}
	t := w.idx64(iv, width, signed)
	if k, ok := w.c.pinned(t); ok {
		if k >= uint64(len(elems)) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(k), len(elems)))
		}
		return Value{P: &elems[k]}
	}
	w.must(w.c.Ult(t, w.c.K(64, uint64(len(elems)))), "index out of range")
	if len(elems) == 1 {
		return Value{P: &elems[0]}
	}
	// the condition may have pinned the index
	return Value{P: &SymPtr{elems: elems, idx: t}}
}

// ---- instructions

func (w *Worker) exec(fr *Frame, ci *CI) {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		fr.env[ci.dst] = w.binop(ci, w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1]), in.X.Type())
	case *ssa.UnOp:
		x := w.get(fr, &ci.ops[0])
		switch ci.tok {
		case token.MUL:
			fr.env[ci.dst] = w.load(x, ci.w)
		case token.NOT:
			if t := x.sym(); t != nil {
				fr.env[ci.dst] = tval(w.c.Not(t))
			} else {
				fr.env[ci.dst] = bval(x.N == 0)
			}
		case token.SUB:
			if ci.cls == 'f' {
				fr.env[ci.dst] = fval(-x.f())
			} else if t := x.sym(); t != nil {
				fr.env[ci.dst] = tval(w.c.Neg(t))
			} else {
				fr.env[ci.dst] = Value{N: -x.N & mask(ci.w)}
			}
		case token.XOR:
			if t := x.sym(); t != nil {
				fr.env[ci.dst] = tval(w.c.Bnot(t))
			} else {
				fr.env[ci.dst] = Value{N: ^x.N & mask(ci.w)}
			}
		default:
			w.unsupported("unop %v", ci.tok)
		}
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(ci.typ)
		fr.env[ci.dst] = Value{P: p}
	case *ssa.Store:
		w.store(w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1]), ci.w)
	case *ssa.FieldAddr:
		x := w.get(fr, &ci.ops[0])
		switch p := x.P.(type) {
		case *Value:
			s, ok := p.P.(StructV)
			if !ok {
				w.unsupported("fieldaddr on %T in %s", p.P, fr.fi.name)
			}
			fr.env[ci.dst] = Value{P: &s[ci.field]}
		case *SymPtr:
			fr.env[ci.dst] = Value{P: &SymPtr{elems: p.elems, idx: p.idx, path: append(append([]int(nil), p.path...), ci.field)}}
		case nil:
			w.rtPanic("invalid memory address or nil pointer dereference")
		default:
			w.unsupported("fieldaddr %T in %s", x.P, fr.fi.name)
		}
	case *ssa.Field:
		s, ok := w.get(fr, &ci.ops[0]).P.(StructV)
		if !ok {
			w.unsupported("field in %s", fr.fi.name)
		}
		fr.env[ci.dst] = copyVal(s[ci.field])
	case *ssa.IndexAddr:
		x := w.get(fr, &ci.ops[0])
		iv := w.get(fr, &ci.ops[1])
		var elems []Value
		switch p := x.P.(type) {
		case SliceV:
			elems = p
		case *Value:
			a, ok := p.P.(ArrV)
			if !ok {
				w.unsupported("indexaddr on %T", p.P)
			}
			elems = a
		case nil:
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
		case *SymPtr:
			k := w.concretize(p.idx, 4096, "index of array")
			a := follow(&p.elems[k], p.path).P.(ArrV)
			elems = a
		default:
			w.unsupported("indexaddr %T in %s", x.P, fr.fi.name)
		}
		fr.env[ci.dst] = w.index(elems, iv, ci.w2, ci.sg2)
	case *ssa.Index:
		x := w.get(fr, &ci.ops[0])
		iv := w.get(fr, &ci.ops[1])
		switch p := x.P.(type) {
		case ArrV:
			fr.env[ci.dst] = w.load(w.index([]Value(p), iv, ci.w2, ci.sg2), ci.w)
		case string, *SymStr:
			fr.env[ci.dst] = w.strIndex(x, iv, ci.w2, ci.sg2)
		default:
			w.unsupported("index %T", x.P)
		}
	case *ssa.Lookup:
		x := w.get(fr, &ci.ops[0])
		iv := w.get(fr, &ci.ops[1])
		if isString(in.X.Type()) {
			fr.env[ci.dst] = w.strIndex(x, iv, ci.w2, ci.sg2)
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		if ks, ok := iv.P.(*SymStr); ok {
			if mv, _ := x.P.(*MapV); mv != nil {
				if val, found := w.lookupCube(mv, ks, typeWidth(mt.Elem())); found != nil {
					ok := w.branch(found)
					v := zero(mt.Elem())
					if ok {
						v = tval(val)
					}
					if in.CommaOk {
						v = Value{P: TupleV{v, bval(ok)}}
					}
					fr.env[ci.dst] = v
					return
				}
			}
		}
		pv, found := w.mapLookup(x, iv, mt)
		var v Value
		if found {
			v = copyVal(*pv)
		} else {
			v = zero(mt.Elem())
		}
		if in.CommaOk {
			fr.env[ci.dst] = Value{P: TupleV{v, bval(found)}}
		} else {
			fr.env[ci.dst] = v
		}
	case *ssa.MapUpdate:
		w.mapUpdate(w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1]), w.get(fr, &ci.ops[2]), in.Map.Type().Underlying().(*types.Map))
	case *ssa.MakeMap:
		fr.env[ci.dst] = Value{P: &MapV{idx: map[any]int{}}}
	case *ssa.MakeSlice:
		fr.env[ci.dst] = w.makeSlice(ci, w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1]), in)
	case *ssa.Slice:
		fr.env[ci.dst] = w.slice(fr, ci, in)
	case *ssa.Convert:
		fr.env[ci.dst] = w.convert(ci, w.get(fr, &ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		fr.env[ci.dst] = w.get(fr, &ci.ops[0])
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = w.get(fr, &ci.ops[0])
	case *ssa.SliceToArrayPointer:
		x := w.get(fr, &ci.ops[0])
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		s := sliceOf(x)
		if len(s) < n {
			w.rtPanic("cannot convert slice to array pointer: length too short")
		}
		p := new(Value)
		p.P = ArrV(s[:n:n])
		fr.env[ci.dst] = Value{P: p}
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Value{P: &Iface{t: in.X.Type(), v: copyVal(w.get(fr, &ci.ops[0]))}}
	case *ssa.MakeClosure:
		var env []Value
		for i := 1; i < len(ci.ops); i++ {
			env = append(env, w.get(fr, &ci.ops[i]))
		}
		fr.env[ci.dst] = Value{P: &Closure{fn: in.Fn.(*ssa.Function), env: env}}
	case *ssa.Extract:
		tv, ok := w.get(fr, &ci.ops[0]).P.(TupleV)
		if !ok {
			w.unsupported("extract of %T in %s", w.get(fr, &ci.ops[0]).P, fr.fi.name)
		}
		fr.env[ci.dst] = tv[in.Index]
	case *ssa.TypeAssert:
		fr.env[ci.dst] = w.typeAssert(in, w.get(fr, &ci.ops[0]))
	case *ssa.Call:
		fr.env[ci.dst] = w.call(fr, &in.Call, ci)
	case *ssa.Defer:
		if w.mergeD > 0 {
			panic(abortMerge{"defer"})
		}
		fr.defers = append(fr.defers, w.prepCall(fr, &in.Call, ci))
	case *ssa.RunDefers:
		w.runDefers(fr)
		if fr.pan != nil {
			p := *fr.pan
			panic(p)
		}
	case *ssa.Range:
		x := w.get(fr, &ci.ops[0])
		if isString(in.X.Type()) {
			fr.env[ci.dst] = Value{P: &strIter{s: x}}
		} else {
			m, _ := x.P.(*MapV)
			fr.env[ci.dst] = Value{P: &mapIter{m: m}}
		}
	case *ssa.Next:
		fr.env[ci.dst] = w.next(fr, in, w.get(fr, &ci.ops[0]))
	case *ssa.MultiConvert:
		w.unsupported("multiconvert")
	case *ssa.Go:
		w.unsupported("go statement in %s", fr.fi.name)
	default:
		w.unsupported("instruction %T in %s", in, fr.fi.name)
	}
}

func (w *Worker) next(fr *Frame, in *ssa.Next, x Value) Value {
	switch it := x.P.(type) {
	case *strIter:
		n := strLen(it.s)
		if it.pos.P != nil {
			w.unsupported("symbolic iterator")
		}
		pos := int(it.pos.N)
		if pos >= n {
			return Value{P: TupleV{bval(false), ival(0), ival(0)}}
		}
		b := strAt(it.s, pos)
		if b.P == nil && b.N < 0x80 {
			w.set(&it.pos, ival(int64(pos+1)), 64)
			return Value{P: TupleV{bval(true), ival(int64(pos)), uval(b.N)}}
		}
		if t := b.sym(); t != nil {
			if w.branch(w.c.Ult(t, w.c.K(8, 0x80))) {
				w.set(&it.pos, ival(int64(pos+1)), 64)
				return Value{P: TupleV{bval(true), ival(int64(pos)), tval(w.c.Zext(t, 32))}}
			}
		}
		r := w.callNamed("unicode/utf8", "DecodeRuneInString", []Value{strSlice(it.s, pos, n)}, fr)
		tv := r.P.(TupleV)
		sz := tv[1]
		if t := sz.sym(); t != nil {
			sz = uval(w.concretize(t, 8, "rune size"))
		}
		w.set(&it.pos, ival(int64(pos+int(sz.N))), 64)
		return Value{P: TupleV{bval(true), ival(int64(pos)), tv[0]}}
	case *mapIter:
		if it.m != nil {
			if w.mergeD > 0 {
				panic(abortMerge{"map range"})
			}
			for it.pos < len(it.m.keys) {
				i := it.pos
				it.pos++
				if it.m.dead[i] {
					continue
				}
				return Value{P: TupleV{bval(true), it.m.keys[i], copyVal(*it.m.vals[i])}}
			}
		}
		tt := in.Type().(*types.Tuple)
		kz, vz := Value{}, Value{}
		if _, bad := tt.At(1).Type().(*types.Basic); !bad || tt.At(1).Type().(*types.Basic).Kind() != types.Invalid {
			kz = zero(tt.At(1).Type())
		}
		if b, isb := tt.At(2).Type().(*types.Basic); !isb || b.Kind() != types.Invalid {
			vz = zero(tt.At(2).Type())
		}
		return Value{P: TupleV{bval(false), kz, vz}}
	}
	w.unsupported("next")
	return Value{}
}

func (w *Worker) callNamed(pkg, name string, args []Value, fr *Frame) Value {
	p := w.e.prog.ImportedPackage(pkg)
	if p == nil || p.Func(name) == nil {
		w.unsupported("missing %s.%s", pkg, name)
	}
	return w.callSSA(p.Func(name), args, nil, fr)
}

func (w *Worker) strIndex(x, iv Value, width int, signed bool) Value {
	n := strLen(x)
	if iv.P == nil {
		i := sidx(iv, width, signed)
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return strAt(x, int(i))
	}
	t := w.idx64(iv, width, signed)
	w.must(w.c.Ult(t, w.c.K(64, uint64(n))), "index out of range")
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = w.term(strAt(x, i), 8)
	}
	return tval(w.c.Mux(t, ts))
}

func (w *Worker) mapLookup(m, k Value, mt *types.Map) (*Value, bool) {
	mv, _ := m.P.(*MapV)
	if mv == nil {
		return nil, false
	}
	if key, ok := mapKey(k); ok {
		if i, ok := mv.idx[key]; ok {
			return mv.vals[i], true
		}
		if !mv.hasSym() {
			return nil, false
		}
	}
	for i := range mv.keys {
		if mv.dead[i] {
			continue
		}
		eq := w.equal(mv.keys[i], k, mt.Key())
		if eq == w.c.F {
			continue
		}
		if w.branch(eq) {
			return mv.vals[i], true
		}
	}
	return nil, false
}

func (m *MapV) hasSym() bool { return len(m.idx) != m.n }

func (w *Worker) mapUpdate(m, k, v Value, mt *types.Map) {
	mv, _ := m.P.(*MapV)
	if mv == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	if p, ok := w.mapLookup(m, k, mt); ok {
		w.storeCell(p, v, typeWidth(mt.Elem()))
		return
	}
	if w.trailOn && w.mergeD > 0 {
		panic(abortMerge{"map insert"})
	}
	nv := new(Value)
	*nv = copyVal(v)
	mv.keys = append(mv.keys, copyVal(k))
	mv.vals = append(mv.vals, nv)
	mv.dead = append(mv.dead, false)
	mv.n++
	i := len(mv.keys) - 1
	key, ok := mapKey(k)
	if ok {
		mv.idx[key] = i
	}
	w.addUndo(func() {
		mv.keys, mv.vals, mv.dead = mv.keys[:i], mv.vals[:i], mv.dead[:i]
		mv.n--
		if ok {
			delete(mv.idx, key)
		}
	})
}

func (w *Worker) mapDelete(m, k Value, mt *types.Map) {
	mv, _ := m.P.(*MapV)
	if mv == nil {
		return
	}
	for i := range mv.keys {
		if mv.dead[i] {
			continue
		}
		eq := w.equal(mv.keys[i], k, mt.Key())
		if eq == w.c.F || !w.branch(eq) {
			continue
		}
		if w.trailOn && w.mergeD > 0 {
			panic(abortMerge{"map delete"})
		}
		mv.dead[i] = true
		mv.n--
		key, ok := mapKey(mv.keys[i])
		if ok {
			delete(mv.idx, key)
		}
		w.addUndo(func() {
			mv.dead[i] = false
			mv.n++
			if ok {
				mv.idx[key] = i
			}
		})
		return
	}
}

const maxMake = 1 << 22

func (w *Worker) makeSlice(ci *CI, lv, cv Value, in *ssa.MakeSlice) Value {
	esz := w.e.sizeof(ci.typ)
	lim := uint64(math.MaxInt64)
	if esz > 0 {
		lim = (1 << 47) / uint64(esz)
	}
	chk := func(v Value, t types.Type, what string) uint64 {
		width, sg := typeWidth(t), isSigned(t)
		allowed := uint64(maxMake)
		if w.allocMax > 0 && esz > 0 {
			allowed = uint64(w.allocMax) / uint64(esz)
		}
		if v.P == nil {
			n := sidx(v, width, sg)
			if n < 0 || uint64(n) > lim {
				w.rtPanic("makeslice: " + what + " out of range")
			}
			if uint64(n) > allowed {
				w.allocViolation(n)
			}
			return uint64(n)
		}
		t64 := w.idx64(v, width, sg)
		w.must(w.c.Ule(t64, w.c.K(64, lim)), "makeslice: "+what+" out of range")
		if !w.branch(w.c.Ule(t64, w.c.K(64, allowed))) {
			w.allocViolation(-1)
		}
		return w.concretize(t64, 600, "make size in "+w.lastFn)
	}
	n := chk(lv, in.Len.Type(), "len")
	var c uint64
	if in.Len == in.Cap {
		c = n
	} else {
		c = chk(cv, in.Cap.Type(), "cap")
	}
	if c < n {
		w.rtPanic("makeslice: cap out of range")
	}
	s := make(SliceV, n, c)
	full := s[:c]
	switch ci.typ.Underlying().(type) {
	case *types.Basic, *types.Struct, *types.Array:
		if ci.w < 0 {
			for i := range full {
				full[i] = zero(ci.typ)
			}
		}
	}
	return Value{P: s}
}

func (w *Worker) allocViolation(n int64) {
	if w.mergeD > 0 {
		panic(abortMerge{"alloc"})
	}
	if w.allocMax > 0 {
		w.violation("disproportionate allocation")
	}
	panic(pathEnd{"bound", fmt.Sprintf("allocation above %d elements", maxMake)})
}

func (w *Worker) slice(fr *Frame, ci *CI, in *ssa.Slice) Value {
	x := w.get(fr, &ci.ops[0])
	var lo, hi, mx Value
	has := [3]bool{in.Low != nil, in.High != nil, in.Max != nil}
	k := 1
	if has[0] {
		lo = w.get(fr, &ci.ops[1])
	}
	if has[1] {
		hi = w.get(fr, &ci.ops[2])
	}
	if has[2] {
		mx = w.get(fr, &ci.ops[3])
	}
	_ = k
	var ln, cp int
	isStr := false
	var elems []Value
	nilSlice := false
	switch p := x.P.(type) {
	case string, *SymStr:
		isStr = true
		ln = strLen(x)
		cp = ln
	case SliceV:
		ln, cp = len(p), cap(p)
		elems = p[:cp]
	case *Value:
		a, ok := p.P.(ArrV)
		if !ok {
			w.unsupported("slice of %T", p.P)
		}
		ln, cp = len(a), len(a)
		elems = a
	case nil:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			w.rtPanic("nil pointer dereference")
		}
		nilSlice = true
	default:
		w.unsupported("slice %T", x.P)
	}
	tyOf := func(v ssa.Value) (int, bool) { return typeWidth(v.Type()), isSigned(v.Type()) }
	// evaluate as terms
	h64 := w.c.K(64, uint64(ln))
	m64 := w.c.K(64, uint64(cp))
	l64 := w.c.K(64, 0)
	if has[2] {
		a, b := tyOf(in.Max)
		m64 = w.idx64(mx, a, b)
		w.must(w.c.Ule(m64, w.c.K(64, uint64(cp))), "slice bounds out of range [::cap]")
	}
	if has[1] {
		a, b := tyOf(in.High)
		h64 = w.idx64(hi, a, b)
		w.must(w.c.Ule(h64, m64), "slice bounds out of range [:high]")
	}
	if has[0] {
		a, b := tyOf(in.Low)
		l64 = w.idx64(lo, a, b)
		w.must(w.c.Ule(l64, h64), "slice bounds out of range [low:]")
	}
	l := int(w.concretize(l64, 600, "slice low"))
	h := int(w.concretize(h64, 600, "slice high"))
	m := int(w.concretize(m64, 600, "slice max"))
	if isStr {
		return strSlice(x, l, h)
	}
	if nilSlice {
		return Value{}
	}
	return Value{P: SliceV(elems[l:h:m])}
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Value) Value {
	i, _ := x.P.(*Iface)
	ok := false
	var v Value
	if i != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(i.t, it) || w.nativeImpl(i, it)
			v = x
		} else {
			ok = types.Identical(i.t, in.AssertedType)
			v = copyVal(i.v)
		}
	}
	if !ok {
		if !in.CommaOk {
			w.rtPanic("interface conversion")
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Value{P: TupleV{v, bval(ok)}}
	}
	return v
}

func (w *Worker) nativeImpl(i *Iface, it *types.Interface) bool { return false }

func (w *Worker) prepCall(fr *Frame, c *ssa.CallCommon, ci *CI) deferred {
	if c.IsInvoke() {
		recv := w.get(fr, &ci.ops[0])
		i, _ := recv.P.(*Iface)
		if i == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := w.e.lookupMethod(i.t, c.Method)
		if fn == nil {
			w.unsupported("method %s of %s", c.Method.Name(), i.t)
		}
		args := []Value{copyVal(i.v)}
		for k := range c.Args {
			args = append(args, w.get(fr, &ci.ops[k+1]))
		}
		return deferred{fn: Value{P: &Closure{fn: fn}}, args: args}
	}
	args := make([]Value, len(c.Args))
	for k := range c.Args {
		args[k] = w.get(fr, &ci.ops[k+1])
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return deferred{b: b, args: args}
	}
	return deferred{fn: w.get(fr, &ci.ops[0]), args: args}
}

func (w *Worker) call(fr *Frame, c *ssa.CallCommon, ci *CI) Value {
	d := w.prepCall(fr, c, ci)
	if d.b != nil {
		return w.builtin(fr, d.b, d.args, c)
	}
	return w.callValue(d.fn, d.args, fr)
}

func growCap(oldLen, oldCap, newLen, esz int) int {
	if newLen <= oldCap {
		return oldCap
	}
	if esz <= 0 {
		return newLen
	}
	switch esz {
	case 1:
		s := append(make([]byte, oldLen, oldCap), make([]byte, newLen-oldLen)...)
		return cap(s)
	case 8:
		s := append(make([]uint64, oldLen, oldCap), make([]uint64, newLen-oldLen)...)
		return cap(s)
	}
	t := reflect.SliceOf(reflect.ArrayOf(esz, reflect.TypeOf(byte(0))))
	s := reflect.AppendSlice(reflect.MakeSlice(t, oldLen, oldCap), reflect.MakeSlice(t, newLen-oldLen, newLen-oldLen))
	return s.Cap()
}

func (w *Worker) appendVals(s Value, add []Value, elem types.Type) Value {
	old := sliceOf(s)
	if len(add) == 0 {
		return s
	}
	width := typeWidth(elem)
	n := len(old) + len(add)
	if n <= cap(old) {
		ns := old[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			w.storeCell(&ns[len(old)+i], tmp[i], width)
		}
		return Value{P: SliceV(ns)}
	}
	nc := growCap(len(old), cap(old), n, w.e.sizeof(elem))
	if nc < n {
		nc = n
	}
	ns := make(SliceV, n, nc)
	for i := range old {
		ns[i] = copyVal(old[i])
	}
	for i := range add {
		ns[len(old)+i] = copyVal(add[i])
	}
	full := ns[:nc]
	if width < 0 {
		for i := n; i < nc; i++ {
			full[i] = zero(elem)
		}
	}
	return Value{P: ns}
}

func (w *Worker) builtin(fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch p := args[0].P.(type) {
		case string, *SymStr:
			return ival(int64(strLen(args[0])))
		case SliceV:
			return ival(int64(len(p)))
		case *MapV:
			return ival(int64(p.n))
		case ArrV:
			return ival(int64(len(p)))
		case *Value:
			return ival(int64(len(p.P.(ArrV))))
		case nil:
			return ival(0)
		}
	case "cap":
		switch p := args[0].P.(type) {
		case SliceV:
			return ival(int64(cap(p)))
		case ArrV:
			return ival(int64(len(p)))
		case *Value:
			return ival(int64(len(p.P.(ArrV))))
		case nil:
			return ival(0)
		}
	case "append":
		elem := c.Signature().Results().At(0).Type().Underlying().(*types.Slice).Elem()
		var add []Value
		switch args[1].P.(type) {
		case string, *SymStr:
			add = strBytes(args[1])
		default:
			add = sliceOf(args[1])
		}
		return w.appendVals(args[0], add, elem)
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		width := 8
		switch args[1].P.(type) {
		case string, *SymStr:
			src = strBytes(args[1])
		default:
			src = sliceOf(args[1])
			if c != nil {
				if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					width = typeWidth(st.Elem())
				}
			}
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.storeCell(&dst[i], tmp[i], width)
		}
		return ival(int64(n))
	case "delete":
		w.mapDelete(args[0], args[1], c.Args[0].Type().Underlying().(*types.Map))
		return Value{}
	case "clear":
		switch p := args[0].P.(type) {
		case SliceV:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range p {
				w.storeCell(&p[i], zero(el), typeWidth(el))
			}
			return Value{}
		case nil:
			return Value{}
		}
		w.unsupported("clear")
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		wd, sg := typeWidth(t), isSigned(t)
		if wd <= 0 {
			w.unsupported("min/max")
		}
		for _, a := range args[1:] {
			x, y := w.term(r, wd), w.term(a, wd)
			var lt *Term
			if sg {
				lt = w.c.Slt(x, y)
			} else {
				lt = w.c.Ult(x, y)
			}
			if b.Name() == "max" {
				lt = w.c.Not(lt)
			}
			r = tval(w.c.Ite(lt, x, y))
		}
		return r
	case "print", "println":
		return Value{}
	case "recover":
		// the frame whose defers are running is our caller
		f := fr.caller
		if f != nil && f.pan != nil {
			v := f.pan.v
			f.pan = nil
			return v
		}
		return Value{}
	case "panic":
		panic(targetPanic{v: args[0], msg: w.panicText(args[0])})
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			w.rtPanic("nil pointer dereference")
		}
		return args[0]
	case "String", "Slice", "StringData", "SliceData":
		return w.unsafeBuiltin(b.Name(), args)
	}
	w.unsupported("builtin %s", b.Name())
	return Value{}
}

func (w *Worker) unsafeBuiltin(name string, args []Value) Value {
	w.unsupported("unsafe.%s", name)
	return Value{}
}

// ---- operators

func (w *Worker) binop(ci *CI, x, y Value, t types.Type) Value {
	switch ci.cls {
	case 'i':
		return w.intop(ci.tok, x, y, ci.w, ci.signed, ci.w2, ci.sg2)
	case 'f':
		if x.P != nil || y.P != nil {
			w.unsupported("symbolic float")
		}
		a, b := x.f(), y.f()
		f32 := false
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rd := func(f float64) Value {
			if f32 {
				f = float64(float32(f))
			}
			return fval(f)
		}
		switch ci.tok {
		case token.ADD:
			return rd(a + b)
		case token.SUB:
			return rd(a - b)
		case token.MUL:
			return rd(a * b)
		case token.QUO:
			return rd(a / b)
		case token.LSS:
			return bval(a < b)
		case token.LEQ:
			return bval(a <= b)
		case token.GTR:
			return bval(a > b)
		case token.GEQ:
			return bval(a >= b)
		case token.EQL:
			return bval(a == b)
		case token.NEQ:
			return bval(a != b)
		}
	case 's':
		switch ci.tok {
		case token.ADD:
			if a, ok := x.P.(string); ok {
				if b, ok := y.P.(string); ok {
					return sval(a + b)
				}
			}
			return mkStr(append(append([]Value(nil), strBytes(x)...), strBytes(y)...))
		case token.EQL:
			return tval(w.strEq(x, y))
		case token.NEQ:
			return tval(w.c.Not(w.strEq(x, y)))
		case token.LSS:
			return tval(w.strLess(x, y, false))
		case token.LEQ:
			return tval(w.strLess(x, y, true))
		case token.GTR:
			return tval(w.strLess(y, x, false))
		case token.GEQ:
			return tval(w.strLess(y, x, true))
		}
	case 'b':
		a, b := w.term(x, 0), w.term(y, 0)
		switch ci.tok {
		case token.EQL:
			return tval(w.c.Eq(a, b))
		case token.NEQ:
			return tval(w.c.Not(w.c.Eq(a, b)))
		case token.AND, token.LAND:
			return tval(w.c.And(a, b))
		case token.OR, token.LOR:
			return tval(w.c.Or(a, b))
		}
	default:
		switch ci.tok {
		case token.EQL:
			return tval(w.equal(x, y, t))
		case token.NEQ:
			return tval(w.c.Not(w.equal(x, y, t)))
		}
	}
	w.unsupported("binop %v on %v", ci.tok, t)
	return Value{}
}

func (w *Worker) strEq(x, y Value) *Term {
	if strLen(x) != strLen(y) {
		return w.c.F
	}
	if a, ok := concStr(x); ok {
		if b, ok := concStr(y); ok {
			return w.c.Bool(a == b)
		}
	}
	return w.bytesEq(strBytes(x), strBytes(y))
}

// bytesLess is lexicographic x<y (or <= when eq).
func (w *Worker) bytesLess(x, y []Value, eq bool) *Term {
	n := min(len(x), len(y))
	var r *Term
	if eq {
		r = w.c.Bool(len(x) <= len(y))
	} else {
		r = w.c.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		a, b := w.term(x[i], 8), w.term(y[i], 8)
		r = w.c.Or(w.c.Ult(a, b), w.c.And(w.c.Eq(a, b), r))
	}
	return r
}

func (w *Worker) strLess(x, y Value, eq bool) *Term {
	return w.bytesLess(strBytes(x), strBytes(y), eq)
}

// equal is Go's == on a type.
func (w *Worker) equal(x, y Value, t types.Type) *Term {
	if wd := typeWidth(t); wd >= 0 {
		if x.P == nil && y.P == nil {
			return w.c.Bool(x.N == y.N)
		}
		return w.c.Eq(w.term(x, wd), w.term(y, wd))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.strEq(x, y)
		}
		if u.Info()&types.IsFloat != 0 {
			return w.c.Bool(x.f() == y.f())
		}
		if u.Kind() == types.UntypedNil {
			return w.c.Bool(x.P == nil && y.P == nil)
		}
		return w.c.Bool(x == y)
	case *types.Pointer:
		a, ok1 := x.P.(*Value)
		b, ok2 := y.P.(*Value)
		if ok1 && ok2 {
			return w.c.Bool(a == b)
		}
		if x.P == nil || y.P == nil {
			return w.c.Bool(x.P == nil && y.P == nil)
		}
		w.unsupported("pointer compare")
	case *types.Slice, *types.Map, *types.Signature:
		return w.c.Bool(x.P == nil && y.P == nil)
	case *types.Struct:
		a, b := x.P.(StructV), y.P.(StructV)
		r := w.c.T
		for i := 0; i < u.NumFields(); i++ {
			r = w.c.And(r, w.equal(a[i], b[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a, b := x.P.(ArrV), y.P.(ArrV)
		if typeWidth(u.Elem()) == 8 {
			return w.bytesEq(a, b)
		}
		r := w.c.T
		for i := range a {
			r = w.c.And(r, w.equal(a[i], b[i], u.Elem()))
			if r == w.c.F {
				return r
			}
		}
		return r
	case *types.Interface:
		a, _ := x.P.(*Iface)
		b, _ := y.P.(*Iface)
		if x.P != nil && a == nil || y.P != nil && b == nil {
			w.unsupported("iface compare %T %T", x.P, y.P)
		}
		if a == nil || b == nil {
			return w.c.Bool(a == nil && b == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.c.F
		}
		return w.equal(a.v, b.v, a.t)
	}
	w.unsupported("equal on %v", t)
	return nil
}

func (w *Worker) intop(op token.Token, x, y Value, width int, signed bool, w2 int, sg2 bool) Value {
	if x.P == nil && y.P == nil {
		a, b := x.N, y.N
		m := mask(width)
		switch op {
		case token.ADD:
			return Value{N: (a + b) & m}
		case token.SUB:
			return Value{N: (a - b) & m}
		case token.MUL:
			return Value{N: (a * b) & m}
		case token.AND:
			return Value{N: a & b}
		case token.OR:
			return Value{N: a | b}
		case token.XOR:
			return Value{N: a ^ b}
		case token.AND_NOT:
			return Value{N: a &^ b}
		case token.EQL:
			return bval(a == b)
		case token.NEQ:
			return bval(a != b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var lt, eq bool
			if signed {
				p, q := sx(a, width), sx(b, width)
				lt, eq = p < q, p == q
			} else {
				lt, eq = a < b, a == b
			}
			switch op {
			case token.LSS:
				return bval(lt)
			case token.LEQ:
				return bval(lt || eq)
			case token.GTR:
				return bval(!lt && !eq)
			default:
				return bval(!lt)
			}
		case token.QUO, token.REM:
			if b == 0 {
				w.rtPanic("integer divide by zero")
			}
			if signed {
				p, q := sx(a, width), sx(b, width)
				if q == -1 {
					if op == token.QUO {
						return Value{N: uint64(-p) & m}
					}
					return Value{}
				}
				if op == token.QUO {
					return Value{N: uint64(p/q) & m}
				}
				return Value{N: uint64(p%q) & m}
			}
			if op == token.QUO {
				return Value{N: a / b}
			}
			return Value{N: a % b}
		case token.SHL, token.SHR:
			if sg2 && sx(b, w2) < 0 {
				w.rtPanic("negative shift amount")
			}
			if op == token.SHL {
				if b >= uint64(width) {
					return Value{}
				}
				return Value{N: (a << b) & m}
			}
			if signed {
				s := b
				if s >= uint64(width) {
					s = uint64(width - 1)
				}
				return Value{N: uint64(sx(a, width)>>s) & m}
			}
			if b >= uint64(width) {
				return Value{}
			}
			return Value{N: a >> b}
		}
		w.unsupported("intop %v", op)
	}
	c := w.c
	if op == token.SHL || op == token.SHR {
		a := w.term(x, width)
		if y.P == nil {
			if sg2 && sx(y.N, w2) < 0 {
				w.rtPanic("negative shift amount")
			}
			n := y.N
			if n > uint64(width) {
				n = uint64(width)
			}
			if n == uint64(width) {
				if op == token.SHR && signed {
					return tval(c.Ashr(a, c.K(width, uint64(width-1))))
				}
				return Value{}
			}
			b := c.K(width, n)
			switch {
			case op == token.SHL:
				return tval(c.Shl(a, b))
			case signed:
				return tval(c.Ashr(a, b))
			default:
				return tval(c.Lshr(a, b))
			}
		}
		b := y.sym()
		if sg2 {
			w.must(c.Sle(c.K(w2, 0), b), "negative shift amount")
		}
		// saturate the amount to width
		var amt *Term
		if b.w >= width {
			big := c.Not(c.Ult(b, c.K(b.w, uint64(width))))
			amt = c.Ite(big, c.K(width, uint64(width)), c.Extract(b, width-1, 0))
			if uint64(width) > mask(width) {
				w.unsupported("narrow shift")
			}
		} else {
			amt = c.Zext(b, width)
		}
		switch {
		case op == token.SHL:
			return tval(c.Shl(a, amt))
		case signed:
			return tval(c.Ashr(a, amt))
		default:
			return tval(c.Lshr(a, amt))
		}
	}
	a, b := w.term(x, width), w.term(y, width)
	switch op {
	case token.ADD:
		return tval(c.Add(a, b))
	case token.SUB:
		return tval(c.Sub(a, b))
	case token.MUL:
		return tval(c.Mul(a, b))
	case token.AND:
		return tval(c.Band(a, b))
	case token.OR:
		return tval(c.Bor(a, b))
	case token.XOR:
		return tval(c.Bxor(a, b))
	case token.AND_NOT:
		return tval(c.Band(a, c.Bnot(b)))
	case token.EQL:
		return tval(c.Eq(a, b))
	case token.NEQ:
		return tval(c.Not(c.Eq(a, b)))
	case token.LSS:
		if signed {
			return tval(c.Slt(a, b))
		}
		return tval(c.Ult(a, b))
	case token.LEQ:
		if signed {
			return tval(c.Sle(a, b))
		}
		return tval(c.Ule(a, b))
	case token.GTR:
		if signed {
			return tval(c.Slt(b, a))
		}
		return tval(c.Ult(b, a))
	case token.GEQ:
		if signed {
			return tval(c.Sle(b, a))
		}
		return tval(c.Ule(b, a))
	case token.QUO, token.REM:
		w.must(c.Not(c.Eq(b, c.K(width, 0))), "integer divide by zero")
		switch {
		case op == token.QUO && signed:
			return tval(c.Sdiv(a, b))
		case op == token.QUO:
			return tval(c.Udiv(a, b))
		case signed:
			return tval(c.Srem(a, b))
		default:
			return tval(c.Urem(a, b))
		}
	}
	w.unsupported("intop %v", op)
	return Value{}
}

func (w *Worker) convert(ci *CI, x Value, from, to types.Type) Value {
	ft, tt := from.Underlying(), to.Underlying()
	// int <-> int
	if ci.cls == 'i' && ci.w2 > 0 {
		if x.P == nil {
			v := x.N
			if ci.signed && ci.w2 > ci.w {
				v = uint64(sx(v, ci.w))
			}
			return Value{N: v & mask(ci.w2)}
		}
		t, ok := x.P.(*Term)
		if !ok {
			w.unsupported("convert %T", x.P)
		}
		switch {
		case ci.w2 < ci.w:
			return tval(w.c.Extract(t, ci.w2-1, 0))
		case ci.w2 == ci.w:
			return x
		case ci.signed:
			return tval(w.c.Sext(t, ci.w2))
		default:
			return tval(w.c.Zext(t, ci.w2))
		}
	}
	if ci.cls == 's' {
		if s, ok := tt.(*types.Slice); ok {
			if typeWidth(s.Elem()) == 8 {
				b := strBytes(x)
				ns := make(SliceV, len(b))
				copy(ns, b)
				// capacity rounding as the runtime does is not observable for conversions we care about
				return Value{P: ns}
			}
			if cs, ok := concStr(x); ok {
				var ns SliceV = SliceV{}
				for _, r := range cs {
					ns = append(ns, Value{N: uint64(uint32(r))})
				}
				return Value{P: ns}
			}
			// symbolic []rune: ascii only
			var ns SliceV = SliceV{}
			for _, b := range strBytes(x) {
				t := w.term(b, 8)
				if !w.branch(w.c.Ult(t, w.c.K(8, 0x80))) {
					w.unsupported("[]rune of non-ascii symbolic string")
				}
				ns = append(ns, tval(w.c.Zext(t, 32)))
			}
			return Value{P: ns}
		}
		if isString(to) {
			return x
		}
	}
	if s, ok := ft.(*types.Slice); ok && isString(to) {
		if typeWidth(s.Elem()) == 8 {
			return mkStr(sliceOf(x))
		}
		var sb strings.Builder
		for _, r := range sliceOf(x) {
			if r.P != nil {
				w.unsupported("string of symbolic runes")
			}
			sb.WriteRune(rune(int32(r.N)))
		}
		return sval(sb.String())
	}
	if ci.cls == 'i' && isString(to) {
		if x.P != nil {
			t := x.sym()
			if w.branch(w.c.Ult(t, w.c.K(t.w, 0x80))) {
				return mkStr([]Value{tval(w.c.Extract(t, 7, 0))})
			}
			w.unsupported("string(rune) of symbolic non-ascii rune")
		}
		return sval(string(rune(sx(x.N, ci.w))))
	}
	if ci.cls == 'i' && isFloat(to) {
		if x.P != nil {
			return w.symFloat(x, ci)
		}
		f := float64(0)
		if ci.signed {
			f = float64(sx(x.N, ci.w))
		} else {
			f = float64(x.N)
		}
		return fval(f)
	}
	if ci.cls == 'f' && ci.w2 > 0 {
		if x.P != nil {
			w.unsupported("symbolic float")
		}
		f := x.f()
		if ci.sg2 {
			return Value{N: uint64(int64(f)) & mask(ci.w2)}
		}
		return Value{N: uint64(f) & mask(ci.w2)}
	}
	if ci.cls == 'f' && isFloat(to) {
		return x
	}
	if ci.cls == 'o' {
		// unsafe.Pointer and friends
		return x
	}
	w.unsupported("convert %v -> %v", from, to)
	return Value{}
}

func (w *Worker) symFloat(x Value, ci *CI) Value {
	// enumerating the integer is the only supported way
	v := w.concretize(x.sym(), 300, "float conversion")
	if ci.signed {
		return fval(float64(sx(v, ci.w)))
	}
	return fval(float64(v))
}

var _ = big.NewInt
