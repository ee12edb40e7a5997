// Package c16 checks the conversion between witness programs and segwit address strings.
package c16

import (
	"github.com/keyfuse/tokucore/xbase"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/b32"
)

func legal(v byte, n int) bool {
	if n < 2 || n > 40 {
		return false
	}
	return zz.And(v <= 16, zz.Or(v != 0, n == 20 || n == 32))
}

// bitAt is bit i (0 = most significant) of the program.
func group(p []byte, k int) byte {
	var g byte
	for i := 5 * k; i < 5*k+5; i++ {
		g <<= 1
		if i/8 < len(p) {
			g |= p[i/8] >> uint(7-i%8) & 1
		}
	}
	return g
}

// ZZ_Encode: every program has its BIP173 address, which decodes to the same version and program.
func ZZ_Encode() {
	zz.Bound("program lengths 0..42, every byte and version symbolic, human-readable parts bc and tb")
	hrp := "bc"
	if zz.Choose("net", 0, 1) == 1 {
		hrp = "tb"
	}
	n := zz.Choose("n", 0, 42)
	v := zz.U8("v")
	buf := zz.Bytes("p", n+4)
	p := buf[:n]
	keep := append([]byte{}, buf...)
	s, err := xbase.WitnessEncode(hrp, v, p)
	zz.Assert(zz.Eq(buf, keep), "caller's array untouched")
	zz.Assert((err == nil) == legal(v, n), "encodes exactly the legal programs")
	if err != nil {
		zz.Reach("refused")
		return
	}
	data := []byte{v}
	for k := 0; 5*k < 8*n; k++ {
		data = append(data, group(p, k))
	}
	zz.Assert(len(s) == 3+len(data)+6, "length")
	same := zz.EqStr(s[:3], hrp+"1")
	for i, d := range append(append([]byte{}, data...), b32.Checksum([]byte(hrp), data)...) {
		same = zz.And(same, s[3+i] == b32.Charset[d&31])
	}
	zz.Assert(same, "BIP173 address")
	h, w, q, err := xbase.WitnessDecode(s)
	zz.Assert(err == nil, "own address decodes")
	zz.Assert(zz.And(zz.EqStr(h, hrp), zz.And(w == v, zz.Eq(q, p))), "decode inverts encode")
	zz.ObserveBytes("s", []byte(s))
	zz.Reach("end")
}

// ZZ_Decode: from any data part with a right checksum, exactly the legal ones are accepted, and they re-encode.
func ZZ_Decode() {
	zz.Bound("data parts of 0..12, 32..34, 52..54 and 64..67 arbitrary 5-bit symbols under bc")
	n := zz.Choose("k", 0, 22)
	switch {
	case n > 18:
		n += 45
	case n > 15:
		n += 36
	case n > 12:
		n += 19
	}
	d := zz.Bytes("d", n)
	for i := range d {
		d[i] &= 31
	}
	s, err := xbase.Bech32Encode("bc", d)
	zz.Assume(err == nil)
	h, v, p, err := xbase.WitnessDecode(s)
	ok := n > 0
	np := 0
	if ok {
		np = 5 * (n - 1) / 8
		pad := 5*(n-1) - 8*np
		ok = zz.And(pad < 5, d[n-1]&(1<<uint(pad%5)-1) == 0)
		ok = zz.And(ok, legal(d[0], np))
	}
	zz.Assert((err == nil) == ok, "accepted exactly when legal")
	if err != nil {
		zz.Assert(p == nil && h == "", "nothing returned with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(h == "bc" && v == d[0] && len(p) == np, "version and length")
	same := true
	for k := 0; k+1 < n; k++ {
		same = zz.And(same, group(p, k) == d[1+k])
	}
	zz.Assert(same, "program bits")
	t, err := xbase.WitnessEncode(h, v, p)
	zz.Assert(err == nil && zz.EqStr(t, s), "encode inverts decode")
	zz.Reach("end")
}
