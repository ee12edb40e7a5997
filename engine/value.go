package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a target value.
//
//	bool/ints/floats: N when P==nil, symbolic *Term otherwise
//	string: string or *SymStr
//	pointer: *Value, *SymPtr or nil
//	slice: SliceV or nil; array: ArrV; struct: StructV; tuple: TupleV
//	map: *MapV; func: *Closure or *ssa.Builtin; interface: *Iface
type Value struct {
	N uint64
	P any
}

type (
	SliceV  []Value
	ArrV    []Value
	StructV []Value
	TupleV  []Value
)

// SymStr is a string with symbolic bytes (concrete length).
type SymStr struct{ b []Value }

// SymPtr is &elems[idx].path with symbolic idx.
type SymPtr struct {
	elems []Value
	idx   *Term
	path  []int
}

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type
	v Value
}

// Closure is a function value.
type Closure struct {
	fn  *ssa.Function
	env []Value
}

// MapV is a map with insertion order.
type MapV struct {
	keys []Value
	vals []*Value
	dead []bool
	n    int
	idx  map[any]int
	kt   types.Type
}

// BigV is the content of a math/big.Int (kept in its abs field). Immutable.
// Symbolic value: t is the magnitude/value BV of width w; signed tells two's complement.
type BigV struct {
	k      *big.Int
	t      *Term
	signed bool
	pt     *PointTag
}

// PointTag marks an abstract curve coordinate (group abstraction).
type PointTag struct {
	d   *Term // discrete log, 256 bit
	isY bool
}

type mapIter struct {
	m   *MapV
	pos int
}
type strIter struct {
	s   Value
	pos Value
}

func ival(n int64) Value  { return Value{N: uint64(n)} }
func uval(n uint64) Value { return Value{N: n} }
func bval(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}
func sval(s string) Value { return Value{P: s} }

func tval(t *Term) Value {
	switch t.op {
	case OTrue:
		return Value{N: 1}
	case OFalse:
		return Value{}
	case OConst:
		if t.w <= 64 {
			return Value{N: t.val}
		}
	}
	return Value{P: t}
}

func (v Value) sym() *Term {
	t, _ := v.P.(*Term)
	return t
}

// typeWidth: 0 bool, >0 integer width, -1 otherwise.
func typeWidth(t types.Type) int {
	switch u := t.(type) {
	case *types.Basic:
		return basicWidth(u)
	case *types.Named, *types.Alias:
		if b, ok := t.Underlying().(*types.Basic); ok {
			return basicWidth(b)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicWidth(b)
	}
	return -1
}

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// zero makes the zero value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{P: ""}
		}
		return Value{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return Value{P: s}
	case *types.Array:
		a := make(ArrV, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return Value{P: a}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = zero(u.At(i).Type())
		}
		return Value{P: tv}
	}
	return Value{}
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch p := v.P.(type) {
	case StructV:
		n := make(StructV, len(p))
		for i := range p {
			n[i] = copyVal(p[i])
		}
		return Value{P: n}
	case ArrV:
		n := make(ArrV, len(p))
		for i := range p {
			n[i] = copyVal(p[i])
		}
		return Value{P: n}
	}
	return v
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("strLen of %T", v.P))
}

func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Value{N: uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.b
	case nil:
		return nil
	}
	panic(fmt.Sprintf("strBytes of %T", v.P))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

// mkStr makes a string value from bytes (takes no ownership).
func mkStr(b []Value) Value {
	conc := true
	for i := range b {
		if b[i].P != nil {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		for i := range b {
			sb.WriteByte(byte(b[i].N))
		}
		return Value{P: sb.String()}
	}
	return Value{P: &SymStr{b: append([]Value(nil), b...)}}
}

func concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}

func concBytes(b []Value) ([]byte, bool) {
	out := make([]byte, len(b))
	for i := range b {
		if b[i].P != nil {
			return nil, false
		}
		out[i] = byte(b[i].N)
	}
	return out, true
}

func sliceOf(v Value) []Value {
	switch s := v.P.(type) {
	case SliceV:
		return []Value(s)
	case nil:
		return nil
	}
	panic(fmt.Sprintf("sliceOf %T", v.P))
}

func byteSlice(b []byte) Value {
	s := make(SliceV, len(b))
	for i, x := range b {
		s[i] = Value{N: uint64(x)}
	}
	return Value{P: s}
}

// mapKey gives a Go-comparable key for concrete values.
func mapKey(v Value) (any, bool) {
	switch p := v.P.(type) {
	case nil:
		return v.N, true
	case string:
		return p, true
	case *Term, *SymStr:
		return nil, false
	case *Value:
		return p, true
	case *Iface:
		k, ok := mapKey(p.v)
		return [2]any{types.TypeString(p.t, nil), k}, ok
	case ArrV:
		return aggKey([]Value(p))
	case StructV:
		return aggKey([]Value(p))
	}
	return nil, false
}
func aggKey(vs []Value) (any, bool) {
	var sb strings.Builder
	for _, x := range vs {
		k, ok := mapKey(x)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return sb.String(), true
}
