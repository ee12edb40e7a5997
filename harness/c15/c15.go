// Package c15 checks Bech32.
package c15

import (
	"github.com/keyfuse/tokucore/xbase"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/b32"
)

func legalHrp(hrp string) bool {
	ok := true
	for i := 0; i < len(hrp); i++ {
		c := hrp[i]
		ok = zz.And(ok, zz.And(c >= 33, c <= 126))
		ok = zz.And(ok, !zz.And(c >= 'A', c <= 'Z'))
	}
	return ok
}

// ZZ_Encode: the exact string, or an error; the caller's bytes are left alone; decoding gives the parts back.
func ZZ_Encode() {
	mh, md := 3, 4
	if zz.Thorough() {
		mh, md = 5, 8
	}
	zz.Bound("human-readable part up to 3 (thorough 5) bytes, data up to 4 (thorough 8) bytes, all values")
	hrp := zz.Str("hrp", zz.Choose("nh", 0, mh))
	buf := zz.Bytes("data", zz.Choose("nd", 0, md)+7)
	data := buf[:len(buf)-7]
	keep := append([]byte{}, buf...)
	s, err := xbase.Bech32Encode(hrp, data)
	zz.Assert(zz.Eq(buf, keep), "caller's array untouched")
	ok := zz.And(len(hrp) > 0, legalHrp(hrp))
	for _, d := range data {
		ok = zz.And(ok, d < 32)
	}
	zz.Assert((err == nil) == ok, "encodes exactly the legal inputs")
	if err != nil {
		zz.Assert(s == "", "nothing returned with an error")
		zz.Reach("refused")
		return
	}
	want := []byte(hrp + "1")
	for _, d := range append(append([]byte{}, data...), b32.Checksum([]byte(hrp), data)...) {
		want = append(want, b32.Charset[d&31])
	}
	zz.Assert(zz.EqStr(s, string(want)), "BIP173 string")
	h, d, err := xbase.Bech32Decode(s)
	if len(hrp)+len(data) >= 1 {
		zz.Assert(err == nil, "own encoding decodes")
		zz.Assert(zz.EqStr(h, hrp) && zz.Eq(d, data), "decode inverts encode")
	}
	zz.ObserveBytes("s", []byte(s))
	zz.Reach("end")
}

// ZZ_Lengths: the 90-character limit, on data whose content does not matter.
func ZZ_Lengths() {
	nh := zz.Choose("nh", 1, 84)
	over := zz.Choose("over", -2, 2)
	nd := 83 - nh + over
	if nd < 0 {
		zz.Reach("skipped")
		return
	}
	zz.Bound("total lengths 88..92 for every human-readable length, one symbolic symbol")
	hb := make([]byte, nh)
	for i := range hb {
		hb[i] = 'a' + byte(i%3)
	}
	data := make([]byte, nd)
	if nd > 0 {
		data[nd/2] = zz.U8("x") & 31
	}
	s, err := xbase.Bech32Encode(string(hb), data)
	zz.Assert((err == nil) == (over <= 0), "at most 90 characters are produced")
	want := append([]byte{}, hb...)
	want = append(want, '1')
	for _, v := range append(append([]byte{}, data...), b32.Checksum(hb, data)...) {
		want = append(want, b32.Charset[v&31])
	}
	_, _, derr := xbase.Bech32Decode(string(want))
	zz.Assert((derr == nil) == (over <= 0), "at most 90 characters are read")
	if err == nil {
		zz.Assert(len(s) == nh+nd+7, "length")
		h, d, err := xbase.Bech32Decode(s)
		zz.Assert(err == nil, "own encoding decodes")
		zz.Assert(zz.And(zz.EqStr(h, string(hb)), zz.Eq(d, data)), "decode inverts encode")
	}
	zz.Reach("end")
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// ZZ_Decode: an arbitrary string is accepted exactly when BIP173 accepts it, with the right parts.
func ZZ_Decode() {
	mx := 10
	if zz.Thorough() {
		mx = 13
	}
	n := zz.Choose("n", 0, mx)
	zz.Bound("all strings up to 10 (thorough 13) bytes")
	s := zz.Str("s", n)
	h, d, err := xbase.Bech32Decode(s)
	// reference, per separator position
	legal, hasUp, hasLo := true, false, false
	low := make([]byte, n)
	for i := 0; i < n; i++ {
		c := s[i]
		legal = zz.And(legal, zz.And(c >= 33, c <= 126))
		hasUp = zz.Or(hasUp, zz.And(c >= 'A', c <= 'Z'))
		hasLo = zz.Or(hasLo, zz.And(c >= 'a', c <= 'z'))
		low[i] = lower(c)
	}
	legal = zz.And(legal, !zz.And(hasUp, hasLo))
	ok := false
	hl := -1
	for p := 1; p+7 <= n && n >= 8; p++ {
		m := low[p] == '1'
		vs := make([]byte, 0, n)
		for i := p + 1; i < n; i++ {
			m = zz.And(m, b32.Rev[low[i]] != 0xff)
			vs = append(vs, b32.Rev[low[i]]&31)
		}
		if zz.Concrete(b2i(zz.And(m, legal))) == 1 {
			hl = p
			if b32.Good(low[:p], vs) {
				ok = true
			}
		}
	}
	zz.Assert((err == nil) == ok, "accepted exactly when valid")
	if err != nil {
		zz.Assert(h == "" && d == nil, "nothing returned with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.EqStr(h, string(low[:hl])), "human-readable part")
	good := len(d) == n-hl-7
	zz.Assert(good, "data length")
	for i := range d {
		zz.Assert(d[i] == b32.Rev[low[hl+1+i]], "data symbols")
	}
	zz.Reach("accepted")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ZZ_Corrupt: up to two substituted characters of a valid string are always noticed.
func ZZ_Corrupt() {
	nd := 4
	if zz.Thorough() {
		nd = 10
	}
	zz.Bound("human-readable part bc, 4 (thorough 10) arbitrary data symbols, any one or two characters after the separator replaced by other alphabet characters")
	data := zz.Bytes("data", nd)
	for i := range data {
		data[i] &= 31
	}
	s, err := xbase.Bech32Encode("bc", data)
	zz.Assume(err == nil)
	i := zz.Choose("i", 3, len(s)-1)
	j := zz.Choose("j", i, len(s)-1)
	b := []byte(s)
	x, y := zz.U8("x")&31, zz.U8("y")&31
	zz.Assume(b32.Charset[x] != b[i])
	b[i] = b32.Charset[x]
	if j != i {
		zz.Assume(b32.Charset[y] != b[j])
		b[j] = b32.Charset[y]
	}
	_, _, err = xbase.Bech32Decode(string(b))
	zz.Assert(err != nil, "corruption is noticed")
	zz.Reach("end")
}

// ZZ_Case: the uppercase form means the same; mixed case is refused.
func ZZ_Case() {
	zz.Bound("human-readable part tb, 3 arbitrary data symbols, or 33, 53 or 81 symbols of which one is arbitrary")
	data := zz.Bytes("data", 3)
	if n := zz.Choose("long", 0, 3); n > 0 {
		data = make([]byte, []int{33, 53, 81}[n-1])
		for i := range data {
			data[i] = byte(i)
		}
		data[5] = zz.U8("symbol")
	}
	for i := range data {
		data[i] &= 31
	}
	s, err := xbase.Bech32Encode("tb", data)
	zz.Assume(err == nil)
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	h, d, err := xbase.Bech32Decode(string(b))
	zz.Assert(err == nil && zz.EqStr(h, "tb") && zz.Eq(d, data), "uppercase means the same")
	i := zz.Choose("i", 0, len(b)-1)
	if s[i] >= 'a' && s[i] <= 'z' {
		b[i] += 32
		_, _, err = xbase.Bech32Decode(string(b))
		zz.Assert(err != nil, "mixed case is refused")
		zz.Reach("mixed")
	}
	zz.Reach("end")
}
