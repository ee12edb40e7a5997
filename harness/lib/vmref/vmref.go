// Package vmref is a reference model of the script stack and helpers to probe the real one.
package vmref

import (
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// Push is the shortest push of b by its length.
func Push(s, b []byte) []byte {
	if len(b) == 0 {
		return append(s, 0)
	}
	if len(b) > 255 {
		return append(append(s, 0x4d, byte(len(b)), byte(len(b)>>8)), b...)
	}
	if len(b) > 75 {
		return append(append(s, 0x4c, byte(len(b))), b...)
	}
	return append(append(s, byte(len(b))), b...)
}

// Truth is the boolean value of a stack item.
func Truth(b []byte) bool {
	t := false
	for i := range b {
		if i == len(b)-1 {
			t = zz.Or(t, zz.And(b[i] != 0, b[i] != 0x80))
		} else {
			t = zz.Or(t, b[i] != 0)
		}
	}
	return t
}

// Number is the value of a number of at most 4 bytes, and whether it is one.
func Number(b []byte) (int64, bool) {
	n := len(b)
	if n == 0 {
		return 0, true
	}
	if n > 4 {
		return 0, false
	}
	if n == 1 && (b[0] == 0 || b[0] == 0x80) {
		return 0, false
	}
	if n > 1 && (b[n-1] == 0 || b[n-1] == 0x80) && b[n-2] < 0x80 {
		return 0, false
	}
	var m int64
	for i := range b {
		x := b[i]
		if i == n-1 {
			x &= 0x7f
		}
		m |= int64(x) << uint(8*i)
	}
	if b[n-1] >= 0x80 {
		m = -m
	}
	return m, true
}

// Encode is the minimal encoding of v.
func Encode(v int64) []byte {
	if v == 0 {
		return nil
	}
	m := v
	if v < 0 {
		m = -v
	}
	n := 1
	for lim := int64(0x80); n < 8 && m >= lim; n++ {
		lim <<= 8
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(m >> uint(8*i))
	}
	if v < 0 {
		b[n-1] |= 0x80
	}
	return b
}

// Check runs prog on a new machine from mk and asserts that it leaves exactly the stack want,
// or fails if ok is false.
func Check(mk func() *xvm.Engine, prog []byte, want [][]byte, ok bool) {
	keep := append([]byte{}, prog...)
	err := mk().Execute(prog)
	zz.Assert(zz.Eq(keep, prog), "script untouched")
	if !ok {
		zz.Assert(err != nil, "must fail")
		return
	}
	if len(want) == 0 {
		zz.Assert(err == nil, "empty stack")
	} else {
		zz.Assert((err == nil) == Truth(want[len(want)-1]), "truth of the top")
	}
	// every item, from the top
	p := append([]byte{}, prog...)
	for i := len(want) - 1; i >= 0; i-- {
		p = Push(p, want[i])
		p = append(p, xvm.OP_EQUALVERIFY)
	}
	zz.Assert(mk().Execute(append(append([]byte{}, p...), xvm.OP_1)) == nil, "the stack is as expected")
	zz.Assert(mk().Execute(append(p, xvm.OP_DROP)) != nil, "nothing more on the stack")
}
