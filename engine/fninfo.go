package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
)

type opnd struct {
	k opKind
	i int
	v Value
	g *ssa.Global
}

// CI is a compiled instruction.
type CI struct {
	in  ssa.Instruction
	dst int // register or -1
	ops []opnd
	// type info
	w      int // width class of the main operand (0 bool, >0 int, -1 other)
	signed bool
	w2     int
	sg2    bool
	cls    byte // 's' string, 'f' float, 'i' int, 'b' bool, 'o' other
	field  int
	tok    token.Token
	typ    types.Type
	iid    int // unique instruction id (for merge statistics)
	zero   Value
}

// BI is a compiled block.
type BI struct {
	b     *ssa.BasicBlock
	phis  []*CI
	ins   []*CI
	merge mergeInfo
}

type mergeInfo struct {
	ok     bool
	exit   bool            // join is function exit
	join   *ssa.BasicBlock // when !exit
	mutate bool
}

// FnInfo is a compiled function (shared by workers).
type FnInfo struct {
	fn      *ssa.Function
	name    string
	nreg    int
	blocks  []*BI
	params  []int
	free    []int
	defers  bool
	repo    bool
	scalar  bool // all results scalar
	intr    bigFn
	stub    *ssa.Function
	optStub bool
}

var instrID int
var fnMu sync.Mutex
var fnTab sync.Map // *ssa.Function -> *FnInfo

func (e *Engine) fnInfo(fn *ssa.Function) *FnInfo {
	if v, ok := fnTab.Load(fn); ok {
		return v.(*FnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if v, ok := fnTab.Load(fn); ok {
		return v.(*FnInfo)
	}
	if fn.Blocks == nil {
		p := fn.Pkg
		if p == nil && fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		if p != nil && !e.built[p] {
			p.Build()
			e.built[p] = true
		}
	}
	fi := e.compile(fn)
	fnTab.Store(fn, fi)
	return fi
}

func (e *Engine) compile(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, name: fn.String()}
	if fn.Pkg != nil && fn.Pkg.Pkg != nil {
		fi.repo = e.isRepo(fn.Pkg.Pkg.Path())
	}
	fi.intr = e.intr(fi.name)
	fi.stub = e.stub(fi.name)
	fi.optStub = fi.repo
	reg := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		if i, ok := reg[v]; ok {
			return i
		}
		i := len(reg)
		reg[v] = i
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{k: okConst, v: constVal(x)}
		case *ssa.Global:
			return opnd{k: okGlobal, g: x}
		case *ssa.Function:
			return opnd{k: okConst, v: Value{P: &Closure{fn: x}}}
		case *ssa.Builtin:
			return opnd{k: okConst, v: Value{P: x}}
		case nil:
			return opnd{k: okConst}
		}
		return opnd{k: okReg, i: alloc(v)}
	}
	fi.scalar = true
	if r := fn.Signature.Results(); r != nil {
		for i := 0; i < r.Len(); i++ {
			if typeWidth(r.At(i).Type()) < 0 {
				fi.scalar = false
			}
		}
	}
	for _, b := range fn.Blocks {
		bi := &BI{b: b}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := &CI{in: in, dst: -1, w: -1, w2: -1}
			instrID++
			ci.iid = instrID
			if v, ok := in.(ssa.Value); ok {
				ci.dst = alloc(v)
				ci.typ = v.Type()
			}
			var rands [10]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, opnd{k: okConst})
					continue
				}
				ci.ops = append(ci.ops, mk(*r))
			}
			cls := func(t types.Type) {
				ci.w = typeWidth(t)
				ci.signed = isSigned(t)
				switch {
				case ci.w == 0:
					ci.cls = 'b'
				case ci.w > 0:
					ci.cls = 'i'
				case isString(t):
					ci.cls = 's'
				case isFloat(t):
					ci.cls = 'f'
				default:
					ci.cls = 'o'
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				ci.tok = x.Op
				cls(x.X.Type())
				ci.w2 = typeWidth(x.Y.Type())
				ci.sg2 = isSigned(x.Y.Type())
			case *ssa.UnOp:
				ci.tok = x.Op
				cls(x.X.Type())
				if x.Op == token.MUL {
					ci.w = typeWidth(x.Type())
				}
			case *ssa.Convert:
				cls(x.X.Type())
				ci.w2 = typeWidth(x.Type())
				ci.sg2 = isSigned(x.Type())
			case *ssa.Store:
				ci.w = typeWidth(x.Val.Type())
			case *ssa.FieldAddr:
				ci.field = x.Field
			case *ssa.Field:
				ci.field = x.Field
				ci.w = typeWidth(x.Type())
			case *ssa.IndexAddr:
				ci.w2 = typeWidth(x.Index.Type())
				ci.sg2 = isSigned(x.Index.Type())
				switch u := x.Type().Underlying().(type) {
				case *types.Pointer:
					ci.w = typeWidth(u.Elem())
				}
			case *ssa.Index:
				ci.w = typeWidth(x.Type())
				ci.w2 = typeWidth(x.Index.Type())
				ci.sg2 = isSigned(x.Index.Type())
			case *ssa.Lookup:
				ci.w = typeWidth(x.Type())
				ci.w2 = typeWidth(x.Index.Type())
				ci.sg2 = isSigned(x.Index.Type())
			case *ssa.Phi:
				ci.w = typeWidth(x.Type())
			case *ssa.Alloc:
				ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Defer, *ssa.RunDefers:
				fi.defers = true
			case *ssa.MakeSlice:
				ci.typ = x.Type().Underlying().(*types.Slice).Elem()
				ci.w = typeWidth(ci.typ)
				ci.w2 = typeWidth(x.Len.Type())
				ci.sg2 = isSigned(x.Len.Type())
			}
			if p, ok := in.(*ssa.Phi); ok {
				_ = p
				bi.phis = append(bi.phis, ci)
			} else {
				bi.ins = append(bi.ins, ci)
			}
		}
		fi.blocks = append(fi.blocks, bi)
	}
	if fn.Recover != nil {
		fi.defers = true
	}
	fi.nreg = len(reg)
	computeMerge(fi)
	return fi
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter constants etc.
		return zero(c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return bval(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return sval(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(max(1, basicWidth(b)))}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(max(1, basicWidth(b)))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return fval(f)
	}
	return Value{P: fmt.Sprintf("const %v", c)}
}

// computeMerge finds immediate post-dominators and marks mergeable Ifs.
func computeMerge(fi *FnInfo) {
	n := len(fi.blocks)
	if n == 0 || n > 400 {
		return
	}
	// post-dominator sets via bitsets; virtual exit = n
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n/64] |= 1 << uint(n%64)
	succs := func(i int) []int {
		var out []int
		for _, s := range fi.blocks[i].b.Succs {
			out = append(out, s.Index)
		}
		if len(out) == 0 {
			out = append(out, n)
		}
		return out
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			for _, s := range succs(i) {
				for k := range nw {
					nw[k] &= pd[s][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					changed = true
					pd[i] = nw
					break
				}
			}
		}
	}
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>uint(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	// reachability for cycle test
	reach := func(from, to, avoid int) bool {
		seen := make([]bool, n+1)
		st := []int{from}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == to {
				return true
			}
			if x == n || seen[x] || x == avoid {
				continue
			}
			seen[x] = true
			st = append(st, succs(x)...)
		}
		return false
	}
	for i := 0; i < n; i++ {
		b := fi.blocks[i]
		if len(b.b.Succs) != 2 {
			continue
		}
		// ipdom: the strict post-dominator with the largest pd set
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j == i || pd[i][j/64]>>uint(j%64)&1 == 0 {
				continue
			}
			if c := count(pd[j]); c > bc {
				best, bc = j, c
			}
		}
		if best < 0 {
			continue
		}
		// no cycle through i that avoids the join
		cyc := false
		for _, s := range succs(i) {
			if s != best && reach(s, i, best) {
				cyc = true
			}
		}
		if cyc {
			continue
		}
		m := mergeInfo{ok: true}
		if best == n {
			m.exit = true
			if !fi.scalar || fi.defers {
				continue
			}
		} else {
			m.join = fi.blocks[best].b
		}
		b.merge = m
	}
}
