package main

import (
	"encoding/base64"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A model of encoding/json for documents whose structure is concrete. The contents of strings (plain characters) and
// the digits of integers may be symbolic.

type jsonErr struct{ msg string }

type jsonNode struct {
	kind byte // o a s n t f 0
	raw  []Value
	keys []string
	subs []*jsonNode
	str  []Value // contents of a string, digits of a number
	num  string  // concrete number
}

type jsonParser struct {
	w    *Worker
	b    []Value
	i    int
	more bool // the text ended early
}

func (p *jsonParser) fail(msg string) { panic(jsonErr{msg}) }

// peek gives the concrete byte at the position; symbolic ones are reported by ok=false.
func (p *jsonParser) peek() (byte, bool) {
	if p.i >= len(p.b) {
		p.more = true
		p.fail("unexpected end of JSON input")
	}
	if p.b[p.i].P == nil {
		return byte(p.b[p.i].N), true
	}
	return 0, false
}

func (p *jsonParser) space() {
	for p.i < len(p.b) && p.b[p.i].P == nil {
		switch byte(p.b[p.i].N) {
		case ' ', '\t', '\n', '\r':
			p.i++
			continue
		}
		return
	}
}

func (p *jsonParser) in(lo, hi byte) bool {
	if p.i >= len(p.b) {
		return false
	}
	w := p.w
	t := w.term(p.b[p.i], 8)
	return w.branch(w.c.And(w.c.Ule(w.c.K(8, uint64(lo)), t), w.c.Ule(t, w.c.K(8, uint64(hi)))))
}

func (p *jsonParser) value() *jsonNode {
	p.space()
	start := p.i
	n := &jsonNode{}
	c, conc := p.peek()
	switch {
	case !conc || c == '-' || c >= '0' && c <= '9':
		if !conc && !p.in('0', '9') {
			p.w.unsupported("JSON with symbolic structure")
		}
		n.kind = 'n'
		if c == '-' {
			p.i++
			if p.i >= len(p.b) {
				p.peek()
			}
		}
		d := p.i
		for p.in('0', '9') {
			p.i++
		}
		if p.i == d {
			p.fail("invalid character in numeric literal")
		}
		if p.i-d > 1 && p.w.branch(p.w.c.Eq(p.w.term(p.b[d], 8), p.w.c.K(8, '0'))) {
			p.fail("invalid character after top-level value")
		}
		for p.i < len(p.b) {
			if c, ok := p.peek(); !ok || strings.IndexByte("0123456789+-.eE", c) < 0 {
				break
			}
			p.i++
		}
		n.str = p.b[start:p.i]
		if b, ok := concBytes(n.str); ok {
			n.num = string(b)
			if _, err := strconv.ParseFloat(n.num, 64); err != nil && !strings.Contains(err.Error(), "range") {
				p.fail("invalid number")
			}
		}
	case c == '"':
		n.kind = 's'
		n.str = p.text()
	case c == '{':
		n.kind = 'o'
		p.i++
		p.space()
		if c, ok := p.peek(); ok && c == '}' {
			p.i++
			break
		}
		for {
			p.space()
			if c, ok := p.peek(); !ok || c != '"' {
				p.fail("invalid character looking for beginning of object key string")
			}
			k, ok := concBytes(p.text())
			if !ok {
				p.w.unsupported("JSON with symbolic keys")
			}
			p.space()
			if c, ok := p.peek(); !ok || c != ':' {
				p.fail("invalid character after object key")
			}
			p.i++
			n.keys = append(n.keys, string(k))
			n.subs = append(n.subs, p.value())
			p.space()
			c, ok := p.peek()
			p.i++
			if ok && c == ',' {
				continue
			}
			if !ok || c != '}' {
				p.fail("invalid character after object key:value pair")
			}
			break
		}
	case c == '[':
		n.kind = 'a'
		p.i++
		p.space()
		if c, ok := p.peek(); ok && c == ']' {
			p.i++
			break
		}
		for {
			n.subs = append(n.subs, p.value())
			p.space()
			c, ok := p.peek()
			p.i++
			if ok && c == ',' {
				continue
			}
			if !ok || c != ']' {
				p.fail("invalid character after array element")
			}
			break
		}
	default:
		for _, lit := range []string{"true", "false", "null"} {
			if c == lit[0] {
				for j := 0; j < len(lit); j++ {
					if x, ok := p.peek(); !ok || x != lit[j] {
						p.fail("invalid character in literal")
					}
					p.i++
				}
				n.kind = lit[0]
			}
		}
		if n.kind == 0 {
			p.fail("invalid character looking for beginning of value")
		}
		if n.kind == 'n' {
			n.kind = '0'
		}
	}
	n.raw = p.b[start:p.i]
	return n
}

// text reads a string literal.
func (p *jsonParser) text() []Value {
	p.i++
	var out []Value
	for {
		c, ok := p.peek()
		if !ok {
			w := p.w
			t := w.term(p.b[p.i], 8)
			plain := w.c.And(w.c.And(w.c.Ule(w.c.K(8, 32), t), w.c.Ule(t, w.c.K(8, 126))),
				w.c.And(w.c.Not(w.c.Eq(t, w.c.K(8, '"'))), w.c.Not(w.c.Eq(t, w.c.K(8, '\\')))))
			if !w.branch(plain) {
				w.unsupported("JSON string with special characters")
			}
			out = append(out, p.b[p.i])
			p.i++
			continue
		}
		switch {
		case c == '"':
			p.i++
			return out
		case c < 32:
			p.fail("invalid character in string literal")
		case c == '\\':
			p.i++
			e, ok := p.peek()
			k := strings.IndexByte(`"\/bfnrt`, e)
			switch {
			case !ok:
				p.w.unsupported("JSON string with a symbolic escape")
			case k >= 0:
				out = append(out, uval(uint64("\"\\/\b\f\n\r\t"[k])))
				p.i++
			case e == 'u' && p.i+4 < len(p.b):
				h, ok := concBytes(p.b[p.i+1 : p.i+5])
				x, err := strconv.ParseUint(string(h), 16, 16)
				if !ok || err != nil || x >= 0xd800 && x < 0xe000 {
					p.w.unsupported("JSON escape")
				}
				for _, r := range []byte(string(rune(x))) {
					out = append(out, uval(uint64(r)))
				}
				p.i += 5
			default:
				p.w.unsupported("JSON escape")
			}
		case c >= utf8.RuneSelf:
			p.w.unsupported("JSON beyond ASCII")
		default:
			out = append(out, p.b[p.i])
			p.i++
		}
	}
}

// jsonParse parses one value; n is how much of the text it takes.
func (w *Worker) jsonParse(b []Value, whole bool) (n *jsonNode, used int, more bool, msg string) {
	p := &jsonParser{w: w, b: b}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			n, more, msg = nil, p.more, e.msg
		}
	}()
	n = p.value()
	used = p.i
	if whole {
		p.space()
		if p.i < len(b) {
			p.fail("invalid character after top-level value")
		}
	}
	return
}

type jsonField struct {
	name string
	i    int
	omit bool
}

func (w *Worker) jsonFields(s *types.Struct) (fs []jsonField) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			w.unsupported("JSON of embedded fields")
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		x := jsonField{name: f.Name(), i: i}
		if parts[0] != "" {
			x.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				x.omit = true
			default:
				w.unsupported("JSON option " + o)
			}
		}
		fs = append(fs, x)
	}
	return
}

func isRaw(t types.Type) bool { return t.String() == "encoding/json.RawMessage" }

// jsonInto converts a parsed value; err collects the first conversion error.
func (w *Worker) jsonInto(n *jsonNode, t types.Type, old Value, err *string) Value {
	bad := func() Value {
		if *err == "" {
			*err = "json: cannot unmarshal into Go value of type " + t.String()
		}
		return old
	}
	if isRaw(t) {
		return mkSlice(append([]Value(nil), n.raw...))
	}
	u := t.Underlying()
	if ms := types.NewMethodSet(types.NewPointer(t)); ms.Lookup(nil, "UnmarshalJSON") != nil || ms.Lookup(nil, "UnmarshalText") != nil {
		w.unsupported("JSON with methods: %v", t)
	}
	if p, ok := u.(*types.Pointer); ok {
		if n.kind == '0' {
			return Value{}
		}
		var cur Value
		if q, ok := old.P.(*Value); ok && q != nil {
			cur = *q
		} else {
			cur = zero(p.Elem())
		}
		q := new(Value)
		*q = w.jsonInto(n, p.Elem(), cur, err)
		return Value{P: q}
	}
	if n.kind == '0' {
		switch u.(type) {
		case *types.Interface, *types.Map, *types.Slice:
			return zero(t)
		}
		return old
	}
	switch u := u.(type) {
	case *types.Struct:
		if n.kind != 'o' {
			return bad()
		}
		s := copyVal(old).P.(StructV)
		fs := w.jsonFields(u)
		for k, key := range n.keys {
			f := -1
			for _, x := range fs {
				if x.name == key {
					f = x.i
				}
			}
			for _, x := range fs {
				if f < 0 && strings.EqualFold(x.name, key) {
					f = x.i
				}
			}
			if f >= 0 {
				s[f] = w.jsonInto(n.subs[k], u.Field(f).Type(), s[f], err)
			}
		}
		return Value{P: s}
	case *types.Slice:
		if n.kind == 's' && basicWidth2(u.Elem()) == 8 {
			b, ok := concBytes(n.str)
			if !ok {
				// base64 of arbitrary characters: any bytes
				if len(n.str)%4 != 0 {
					w.unsupported("JSON bytes")
				}
				return mkSlice(w.ndBytes("base64", len(n.str)/4*3))
			}
			d, e := base64.StdEncoding.DecodeString(string(b))
			if e != nil {
				if *err == "" {
					*err = e.Error()
				}
				return old
			}
			return byteSlice(d)
		}
		if n.kind != 'a' {
			return bad()
		}
		out := SliceV{}
		for _, x := range n.subs {
			out = append(out, w.jsonInto(x, u.Elem(), zero(u.Elem()), err))
		}
		return Value{P: out}
	case *types.Interface:
		if u.NumMethods() > 0 {
			return bad()
		}
		switch n.kind {
		case 's':
			return Value{P: &Iface{t: types.Typ[types.String], v: mkStr(n.str)}}
		case 'n':
			if n.num == "" {
				w.unsupported("JSON number into an interface")
			}
			f, _ := strconv.ParseFloat(n.num, 64)
			return Value{P: &Iface{t: types.Typ[types.Float64], v: Value{N: math.Float64bits(f)}}}
		case 't', 'f':
			return Value{P: &Iface{t: types.Typ[types.Bool], v: bval(n.kind == 't')}}
		case 'a':
			any := types.NewInterfaceType(nil, nil)
			return Value{P: &Iface{t: types.NewSlice(any), v: w.jsonInto(n, types.NewSlice(any), Value{}, err)}}
		}
		w.unsupported("JSON object into an interface")
	case *types.Basic:
		switch {
		case isString(t):
			if n.kind != 's' {
				return bad()
			}
			return mkStr(n.str)
		case u.Kind() == types.Bool:
			if n.kind != 't' && n.kind != 'f' {
				return bad()
			}
			return bval(n.kind == 't')
		case isFloat(t):
			if n.kind != 'n' {
				return bad()
			}
			if n.num == "" {
				w.unsupported("JSON float with symbolic digits")
			}
			f, e := strconv.ParseFloat(n.num, 64)
			if e != nil {
				return bad()
			}
			return Value{N: math.Float64bits(f)}
		}
		if n.kind != 'n' {
			return bad()
		}
		width, signed := basicWidth(u), isSigned(t)
		if n.num != "" {
			x, ok := new(big.Int).SetString(n.num, 10)
			lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(width))
			if signed {
				hi.Rsh(hi, 1)
				lo.Neg(hi)
			}
			if !ok || x.Cmp(lo) < 0 || x.Cmp(hi) >= 0 || !signed && n.num[0] == '-' {
				return bad()
			}
			return tval(w.c.KB(width, new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(width)), big.NewInt(1)))))
		}
		digits, neg := n.str, false
		if digits[0].P == nil && digits[0].N == '-' {
			digits, neg = digits[1:], true
		}
		for _, d := range digits {
			if d.P == nil && (d.N < '0' || d.N > '9') {
				return bad()
			}
		}
		if len(digits) > 37 || neg && !signed {
			return bad()
		}
		acc := w.c.K(128, 0)
		for _, d := range digits {
			acc = w.c.Add(w.c.Mul(acc, w.c.K(128, 10)), w.c.Zext(w.c.Sub(w.term(d, 8), w.c.K(8, '0')), 128))
		}
		top := new(big.Int).Lsh(big.NewInt(1), uint(width))
		if signed {
			top.Rsh(top, 1)
		}
		if !neg {
			top.Sub(top, big.NewInt(1))
		}
		if !w.branch(w.c.Ule(acc, w.c.KB(128, top))) {
			return bad()
		}
		v := w.c.Extract(acc, width-1, 0)
		if neg {
			v = w.c.Neg(v)
		}
		return tval(v)
	}
	w.unsupported("JSON into %v", t)
	return Value{}
}

func basicWidth2(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicWidth(b)
	}
	return -1
}

// jsonOut encodes a value.
func (w *Worker) jsonOut(v Value, t types.Type) []Value {
	lit := func(s string) []Value {
		var out []Value
		for i := 0; i < len(s); i++ {
			out = append(out, uval(uint64(s[i])))
		}
		return out
	}
	if isRaw(t) {
		if v.P == nil {
			return lit("null")
		}
		return append([]Value(nil), sliceOf(v)...)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.P.(*Value)
		if !ok || p == nil {
			return lit("null")
		}
		return w.jsonOut(*p, u.Elem())
	case *types.Interface:
		i, ok := v.P.(*Iface)
		if !ok || i == nil {
			return lit("null")
		}
		return w.jsonOut(i.v, i.t)
	case *types.Struct:
		out := lit("{")
		s := v.P.(StructV)
		for _, f := range w.jsonFields(u) {
			ft := u.Field(f.i).Type()
			if f.omit {
				if p, ok := s[f.i].P.(string); ok && p == "" || s[f.i].P == nil && s[f.i].N == 0 {
					continue
				}
				if x, ok := s[f.i].P.(SliceV); ok && len(x) == 0 {
					continue
				}
			}
			if len(out) > 1 {
				out = append(out, lit(",")...)
			}
			out = append(append(out, lit(strconv.Quote(f.name)+":")...), w.jsonOut(s[f.i], ft)...)
		}
		return append(out, lit("}")...)
	case *types.Slice:
		if v.P == nil {
			return lit("null")
		}
		if basicWidth2(u.Elem()) == 8 {
			b, ok := concBytes(sliceOf(v))
			if !ok {
				w.unsupported("JSON of symbolic bytes")
			}
			return lit(strconv.Quote(base64.StdEncoding.EncodeToString(b)))
		}
		out := lit("[")
		for k, x := range sliceOf(v) {
			if k > 0 {
				out = append(out, lit(",")...)
			}
			out = append(out, w.jsonOut(x, u.Elem())...)
		}
		return append(out, lit("]")...)
	case *types.Basic:
		switch {
		case isString(t):
			out := lit("\"")
			for _, b := range strBytes(v) {
				x := w.term(b, 8)
				plain := w.c.And(w.c.Ule(w.c.K(8, 32), x), w.c.Ule(x, w.c.K(8, 126)))
				for _, c := range "\"\\<>&" {
					plain = w.c.And(plain, w.c.Not(w.c.Eq(x, w.c.K(8, uint64(c)))))
				}
				if !w.branch(plain) {
					w.unsupported("JSON of special characters")
				}
				out = append(out, b)
			}
			return append(out, lit("\"")...)
		case u.Kind() == types.Bool:
			if w.branch(w.term(v, 0)) {
				return lit("true")
			}
			return lit("false")
		case isFloat(t):
			f := math.Float64frombits(v.N)
			if v.P != nil || f != math.Trunc(f) || math.Abs(f) >= 1<<53 {
				w.unsupported("JSON of a float")
			}
			return lit(strconv.FormatInt(int64(f), 10))
		}
		if v.P != nil {
			w.unsupported("JSON of a symbolic number")
		}
		if isSigned(t) {
			return lit(strconv.FormatInt(int64(v.N)<<(64-basicWidth(u))>>(64-basicWidth(u)), 10))
		}
		return lit(strconv.FormatUint(v.N, 10))
	}
	w.unsupported("JSON of %v", t)
	return nil
}

func jsonIntrinsics(m map[string]bigFn) {
	m["encoding/json.Marshal"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"json"})
		}
		return Value{P: TupleV{mkSlice(w.jsonOut(a[0], types.NewInterfaceType(nil, nil))), Value{}}}
	}
	m["encoding/json.Unmarshal"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"json"})
		}
		n, _, _, msg := w.jsonParse(sliceOf(a[0]), true)
		if msg != "" {
			return w.mkError(msg)
		}
		return w.jsonStore(n, a[1])
	}
	// JSONFirst(data) (used int, more bool): the length of the first value; 0 if there is none
	m[zzPath+".JSONFirst"] = func(w *Worker, fr *Frame, a []Value) Value {
		if w.mergeD > 0 {
			panic(abortMerge{"json"})
		}
		_, used, more, msg := w.jsonParse(sliceOf(a[0]), false)
		if msg != "" {
			used = 0
		}
		return Value{P: TupleV{ival(int64(used)), bval(more)}}
	}
}

func (w *Worker) jsonStore(n *jsonNode, dst Value) Value {
	i, _ := dst.P.(*Iface)
	if i == nil {
		return w.mkError("json: Unmarshal(nil)")
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	p, ok2 := i.v.P.(*Value)
	if !ok || !ok2 || p == nil {
		return w.mkError("json: Unmarshal(non-pointer or nil)")
	}
	err := ""
	v := w.jsonInto(n, pt.Elem(), copyVal(*p), &err)
	w.storeCell(p, v, -1)
	if err != "" {
		return w.mkError(err)
	}
	return Value{}
}
