// Package c08 checks the script number codec.
package c08

import (
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// value is the sign-magnitude little-endian value of b (at most 8 bytes): magnitude and sign.
func value(b []byte) (uint64, bool) {
	var m uint64
	neg := false
	for i := range b {
		x := b[i]
		if i == len(b)-1 {
			neg = x >= 0x80
			x &= 0x7f
		}
		m |= uint64(x) << uint(8*i)
	}
	return m, neg
}

// minimal tells whether no shorter string has the same value.
func minimal(b []byte) bool {
	n := len(b)
	if n == 0 {
		return true
	}
	if n == 1 {
		return b[0] != 0 && b[0] != 0x80
	}
	return zz.Or(b[n-1] != 0 && b[n-1] != 0x80, b[n-2] >= 0x80)
}

// ZZ_Encode: every number has its minimal encoding, which decodes to it.
func ZZ_Encode() {
	zz.Bound("every 64-bit number")
	v := zz.I64("v")
	b := xvm.ScriptNum(v).Bytes()
	mag := uint64(v)
	if v < 0 {
		mag = -mag
	}
	if v == 0 {
		zz.Assert(len(b) == 0, "zero is empty")
	} else if mag >= 1<<63 {
		zz.Assert(zz.Eq(b, []byte{0, 0, 0, 0, 0, 0, 0, 0x80, 0x80}), "minimum")
	} else {
		zz.Assert(len(b) >= 1 && len(b) <= 8, "length")
		m, neg := value(b)
		zz.Assert(zz.And(m == mag, neg == (v < 0)), "value")
		zz.Assert(minimal(b), "minimal")
	}
	n, err := xvm.MakeScriptNum(b, 9)
	zz.Assert(err == nil, "decodes")
	zz.Assert(int64(n) == v, "round trip")
	zz.ObserveBytes("b", b)
	zz.Reach("end")
}

// ZZ_Decode: a string is accepted exactly when it is short enough and minimal, with its value.
func ZZ_Decode() {
	top := 6
	if zz.Thorough() {
		top = 8
	}
	zz.Bound("strings up to 6 bytes (8 thorough), every size limit from -1 to 9")
	n := zz.Choose("n", 0, top)
	b := zz.Bytes("b", n)
	keep := append([]byte{}, b...)
	max := zz.Choose("max", -1, 9)
	v, err := xvm.MakeScriptNum(b, max)
	zz.Assert(zz.Eq(b, keep), "argument untouched")
	zz.Assert((err == nil) == zz.And(n <= max, minimal(b)), "accepts exactly the short minimal strings")
	if err != nil {
		zz.Assert(v == 0, "no value with an error")
		zz.Reach("refused")
		return
	}
	m, neg := value(b)
	want := int64(m)
	if neg {
		want = -want
	}
	zz.Assert(int64(v) == want, "value")
	zz.Assert(zz.Eq(v.Bytes(), b), "encoding is the inverse")
	zz.Reach("accepted")
}

// ZZ_Int32 checks the clamped conversion.
func ZZ_Int32() {
	zz.Bound("every 64-bit number")
	v := zz.I64("v")
	w := int64(xvm.ScriptNum(v).Int32())
	if v > 1<<31-1 {
		zz.Assert(w == 1<<31-1, "above")
	} else if v < -1<<31 {
		zz.Assert(w == -1<<31, "below")
	} else {
		zz.Assert(w == v, "within")
	}
	zz.Reach("end")
}
