package main

// Reference RIPEMD-160 (from the 1996 specification), used to give concrete digests.

var rmdR = [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
	3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
	1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
	4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
var rmdRp = [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
	6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
	15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
	8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
	12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
var rmdS = [80]uint{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
	7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
	11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
	11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
	9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
var rmdSp = [80]uint{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
	9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
	9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
	15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
	8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func ripemd160Sum(b []byte) []byte {
	k := [5]uint32{0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}
	kp := [5]uint32{0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0}
	h := [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}
	n := uint64(len(b)) * 8
	p := append(append([]byte(nil), b...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	for i := 0; i < 8; i++ {
		p = append(p, byte(n>>(8*uint(i))))
	}
	rol := func(x uint32, s uint) uint32 { return x<<s | x>>(32-s) }
	for o := 0; o < len(p); o += 64 {
		var x [16]uint32
		for i := range x {
			q := p[o+4*i:]
			x[i] = uint32(q[0]) | uint32(q[1])<<8 | uint32(q[2])<<16 | uint32(q[3])<<24
		}
		a, bb, c, d, e := h[0], h[1], h[2], h[3], h[4]
		a2, b2, c2, d2, e2 := a, bb, c, d, e
		for j := 0; j < 80; j++ {
			t := rol(a+rmdF(j, bb, c, d)+x[rmdR[j]]+k[j/16], rmdS[j]) + e
			a, e, d, c, bb = e, d, rol(c, 10), bb, t
			t = rol(a2+rmdF(79-j, b2, c2, d2)+x[rmdRp[j]]+kp[j/16], rmdSp[j]) + e2
			a2, e2, d2, c2, b2 = e2, d2, rol(c2, 10), b2, t
		}
		t := h[1] + c + d2
		h[1] = h[2] + d + e2
		h[2] = h[3] + e + a2
		h[3] = h[4] + a + b2
		h[4] = h[0] + bb + c2
		h[0] = t
	}
	out := make([]byte, 20)
	for i, v := range h {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	}
	return out
}
