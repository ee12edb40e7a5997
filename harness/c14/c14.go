// Package c14 checks Base58 and Base58Check.
package c14

import (
	"crypto/sha256"

	"github.com/keyfuse/tokucore/xbase"
	zz "github.com/keyfuse/tokucore/zzverif"
)

const alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var inAlpha = func() (t [256]bool) {
	for i := 0; i < len(alpha); i++ {
		t[alpha[i]] = true
	}
	return
}()

// refEncode is schoolbook long division on bytes.
func refEncode(in []byte) string {
	num := append([]byte{}, in...)
	var digits []byte
	zeros := 0
	for zeros < len(num) && num[zeros] == 0 {
		zeros++
	}
	start := zeros
	for start < len(num) {
		rem := uint32(0)
		for i := start; i < len(num); i++ {
			acc := rem<<8 | uint32(num[i])
			num[i] = byte(acc / 58)
			rem = acc % 58
		}
		digits = append(digits, alpha[rem])
		for start < len(num) && num[start] == 0 {
			start++
		}
	}
	out := make([]byte, 0, zeros+len(digits))
	for i := 0; i < zeros; i++ {
		out = append(out, '1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		out = append(out, digits[i])
	}
	return string(out)
}

// ZZ_Encode: encoding of any bytes is the base-58 numeral with one '1' per leading zero byte, and decodes back.
func ZZ_Encode() {
	mx := 5
	if zz.Thorough() {
		mx = 8
	}
	zz.Bound("inputs up to 5 (thorough 8) bytes")
	b := zz.Bytes("b", zz.Choose("n", 0, mx))
	s := xbase.Base58Encode(b)
	zz.Assert(zz.EqStr(s, refEncode(b)), "base58 numeral")
	d := xbase.Base58Decode(s)
	zz.Assert(zz.Eq(d, b), "decode inverts encode")
	zz.ObserveBytes("s", []byte(s))
	zz.Reach("end")
}

// ZZ_LeadingZeros: long zero prefixes, as in version-0 payloads.
func ZZ_LeadingZeros() {
	z := zz.Choose("zeros", 0, 25)
	t := zz.Choose("tail", 0, 2)
	zz.Bound("0..25 zero bytes followed by 0..2 arbitrary bytes")
	b := append(make([]byte, z), zz.Bytes("b", t)...)
	s := xbase.Base58Encode(b)
	zz.Assert(zz.Eq(xbase.Base58Decode(s), b), "leading zeros survive")
	zz.Reach("end")
}

// ZZ_Decode: a string outside the alphabet decodes to nothing; a valid one re-encodes to itself (canonical).
func ZZ_Decode() {
	mx := 3
	if zz.Thorough() {
		mx = 5
	}
	zz.Bound("strings up to 3 (thorough 5) arbitrary bytes")
	s := zz.Str("s", zz.Choose("n", 0, mx))
	d := xbase.Base58Decode(s)
	valid := true
	for i := 0; i < len(s); i++ {
		valid = zz.And(valid, inAlpha[s[i]])
	}
	if !valid {
		zz.Assert(len(d) == 0, "invalid characters decode to nothing")
		zz.Reach("invalid")
		return
	}
	zz.Assert(zz.EqStr(xbase.Base58Encode(d), s), "encode inverts decode")
	zz.ObserveBytes("d", d)
	zz.Reach("valid")
}

// ZZ_Check: Base58Check round trip, and the checksum is the head of the double digest.
func ZZ_Check() {
	mx := 3
	if zz.Thorough() {
		mx = 5
	}
	zz.Bound("payloads up to 3 (thorough 5) bytes, any version byte")
	zz.Assumption("SHA-256 is an uninterpreted collision-free function; counterexamples are replayed with the real one")
	p := zz.Bytes("p", zz.Choose("n", 0, mx))
	v := zz.U8("v")
	s := xbase.Base58CheckEncode(p, v)
	full := append([]byte{v}, p...)
	h := sha256.Sum256(full)
	h = sha256.Sum256(h[:])
	want := append(append([]byte{}, full...), h[:4]...)
	zz.Assert(zz.Eq(xbase.Base58Decode(s), want), "version, payload and checksum layout")
	q, w, err := xbase.Base58CheckDecode(s)
	zz.Assert(err == nil, "own encoding accepted")
	zz.Assert(w == v && zz.Eq(p, q), "Base58Check round trip")
	zz.Reach("end")
}

// ZZ_CheckDecode: whatever is accepted carries the right checksum; everything else is refused.
func ZZ_CheckDecode() {
	mx := 7
	if zz.Thorough() {
		mx = 9
	}
	zz.Bound("decoded forms up to 7 (thorough 9) bytes, presented through their Base58 encoding")
	zz.Assumption("SHA-256 is an uninterpreted collision-free function; counterexamples are replayed with the real one")
	b := zz.Bytes("b", zz.Choose("n", 0, mx))
	s := xbase.Base58Encode(b) // the right numeral, by ZZ_Encode
	p, v, err := xbase.Base58CheckDecode(s)
	if len(b) < 5 {
		zz.Assert(err != nil, "too short is refused")
		zz.Reach("short")
		return
	}
	body := b[:len(b)-4]
	h := sha256.Sum256(body)
	h = sha256.Sum256(h[:])
	good := zz.Eq(h[:4], b[len(b)-4:])
	zz.Assert((err == nil) == good, "accepted exactly when the checksum matches")
	if err == nil {
		zz.Assert(v == b[0] && zz.Eq(p, body[1:]), "version and payload returned")
		zz.Reach("accepted")
	} else {
		zz.Assert(len(p) == 0, "nothing returned on refusal")
		zz.Reach("refused")
	}
}

// ZZ_CheckError: every byte of the checksum counts, for data of the usual lengths.
func ZZ_CheckError() {
	zz.Abstract("base58")
	zz.Bound("payloads of 0, 1, 4, 20, 32, 33 and 77 bytes, every version and every difference from the right checksum")
	zz.Assumption("the numerals of byte strings are what ZZ_Encode and ZZ_Decode say")
	body := zz.Bytes("body", 1+[]int{0, 1, 4, 20, 32, 33, 77}[zz.Choose("n", 0, 6)])
	h := sha256.Sum256(body)
	h = sha256.Sum256(h[:])
	wrong := zz.Bytes("error", 4)
	b := append([]byte{}, body...)
	for i, e := range wrong {
		b = append(b, h[i]^e)
	}
	p, v, err := xbase.Base58CheckDecode(xbase.Base58Encode(b))
	zz.Assert((err == nil) == zz.Eq(wrong, make([]byte, 4)), "accepted exactly when the checksum matches")
	if err == nil {
		zz.Assert(v == body[0] && zz.Eq(p, body[1:]), "version and payload returned")
		zz.Reach("accepted")
	} else {
		zz.Reach("refused")
	}
}

// ZZ_Foreign: a character outside the alphabet is noticed wherever it stands.
func ZZ_Foreign() {
	zz.Bound("a string of 34 or 111 characters, one of them replaced by any byte outside the alphabet")
	s := "1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa"
	if zz.Choose("long", 0, 1) == 1 {
		s = "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi"
	}
	i := zz.Choose("position", 0, len(s)-1)
	c := zz.U8("character")
	bad := true
	for _, a := range []byte(alpha) {
		bad = zz.And(bad, c != a)
	}
	zz.Assume(bad)
	zz.Assert(len(xbase.Base58Decode(s[:i]+string([]byte{c})+s[i+1:])) == 0, "invalid characters decode to nothing")
	zz.Assert(xbase.Base58Encode(xbase.Base58Decode(s)) == s, "encode inverts decode")
	zz.Reach("invalid")
}

// ZZ_LongData: long data, as in extended keys and beyond.
func ZZ_LongData() {
	zz.Bound("78, 82, 128, 129, 200 and 300 bytes after 0-2 zero bytes, the last byte arbitrary among two")
	n := []int{78, 82, 128, 129, 200, 300}[zz.Choose("n", 0, 5)]
	z := zz.Choose("zeros", 0, 2)
	b := make([]byte, z+n)
	for i := z; i < len(b); i++ {
		b[i] = byte(i*37 + 1)
	}
	b[len(b)-1] = byte(zz.Choose("last", 0, 1) * 255)
	s := xbase.Base58Encode(b)
	zz.Assert(zz.EqStr(s, refEncode(b)), "base-58 numeral")
	zz.Assert(zz.Eq(xbase.Base58Decode(s), b), "decode inverts encode")
	zz.Reach("end")
}
