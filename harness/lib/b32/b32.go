// Package b32 is a reference for Bech32 (BIP173), written over GF(32) instead of the packed shift register.
package b32

import zz "github.com/keyfuse/tokucore/zzverif"

// Charset is the BIP173 alphabet.
const Charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// Rev maps a byte to its value, or 0xff.
var Rev = func() (t [256]byte) {
	for i := range t {
		t[i] = 0xff
	}
	for i := 0; i < len(Charset); i++ {
		t[Charset[i]] = byte(i)
	}
	return
}()

func gf(a, b byte) byte {
	r := 0
	for i := 0; i < 5; i++ {
		if b>>uint(i)&1 == 1 {
			r ^= int(a) << uint(i)
		}
	}
	for i := 9; i >= 5; i-- {
		if r>>uint(i)&1 == 1 {
			r ^= 0x29 << uint(i-5)
		}
	}
	return byte(r)
}

// generator x^6 + 29x^5 + 22x^4 + 20x^3 + 21x^2 + 29x + 18, coefficients from x^5 down.
var gen = [6]byte{29, 22, 20, 21, 29, 18}

var mulTab = func() (t [6][32]byte) {
	for i := range t {
		for x := 0; x < 32; x++ {
			t[i][x] = gf(gen[i], byte(x))
		}
	}
	return
}()

// lin computes t[x] for a GF(2)-linear table bit by bit.
func lin(t *[32]byte, x byte) byte {
	var r byte
	for i := uint(0); i < 5; i++ {
		if x>>i&1 == 1 {
			r ^= t[1<<i]
		}
	}
	return r
}

// Rem is the remainder (6 symbols) of the polynomial with leading 1 followed by vs.
func Rem(vs []byte) [6]byte {
	s := [6]byte{0, 0, 0, 0, 0, 1}
	for _, v := range vs {
		top := s[0]
		for i := 0; i < 5; i++ {
			s[i] = s[i+1] ^ lin(&mulTab[i], top)
		}
		s[5] = v ^ lin(&mulTab[5], top)
	}
	return s
}

// Expand is the HRP expansion.
func Expand(hrp []byte) []byte {
	out := make([]byte, 0, 2*len(hrp)+1)
	for _, c := range hrp {
		out = append(out, c>>5)
	}
	out = append(out, 0)
	for _, c := range hrp {
		out = append(out, c&31)
	}
	return out
}

// Checksum of hrp and 5-bit data.
func Checksum(hrp, data []byte) []byte {
	vs := append(append(Expand(hrp), data...), 0, 0, 0, 0, 0, 0)
	r := Rem(vs)
	r[5] ^= 1
	return r[:]
}

// Good says whether the checksum verifies.
func Good(hrp, data []byte) bool {
	r := Rem(append(Expand(hrp), data...))
	return zz.Eq(r[:], []byte{0, 0, 0, 0, 0, 1})
}
