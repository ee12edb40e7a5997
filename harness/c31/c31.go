// Package c31 checks the hash and key derivation functions: RIPEMD-160 and PBKDF2.
package c31

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"hash"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// The tables of the specification (Dobbertin, Bosselaers, Preneel 1996).
var (
	r1 = [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	r2 = [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	s1 = [80]uint{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	s2 = [80]uint{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	k1 = [5]uint32{0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}
	k2 = [5]uint32{0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0}
)

func f(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func rol(x uint32, s uint) uint32 { return x<<s | x>>(32-s) }

// reference is the RIPEMD-160 digest by the specification.
func reference(b []byte) []byte {
	h := [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}
	n := uint64(len(b)) * 8
	p := append(append([]byte(nil), b...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	for i := 0; i < 8; i++ {
		p = append(p, byte(n>>(8*uint(i))))
	}
	for o := 0; o < len(p); o += 64 {
		var x [16]uint32
		for i := range x {
			q := p[o+4*i:]
			x[i] = uint32(q[0]) | uint32(q[1])<<8 | uint32(q[2])<<16 | uint32(q[3])<<24
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		a2, b2, c2, d2, e2 := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := rol(a+f(j, b, c, d)+x[r1[j]]+k1[j/16], s1[j]) + e
			a, e, d, c, b = e, d, rol(c, 10), b, t
			t = rol(a2+f(79-j, b2, c2, d2)+x[r2[j]]+k2[j/16], s2[j]) + e2
			a2, e2, d2, c2, b2 = e2, d2, rol(c2, 10), b2, t
		}
		t := h[1] + c + d2
		h[1] = h[2] + d + e2
		h[2] = h[3] + e + a2
		h[3] = h[4] + a + b2
		h[4] = h[0] + b + c2
		h[0] = t
	}
	out := make([]byte, 20)
	for i, v := range h {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	}
	return out
}

// ZZ_Digest: the digest of every message is the one of the specification.
func ZZ_Digest() {
	zz.Abstract("!ripemd160")
	zz.Bound("messages of 0-5, 54-66, 118-130 and 200 bytes (0-200 thorough), every message")
	var n int
	if zz.Thorough() {
		n = zz.Choose("length", 0, 200)
	} else {
		n = []int{0, 1, 2, 3, 4, 5, 54, 55, 56, 57, 63, 64, 65, 66, 118, 119, 120, 121, 127, 128, 129, 130, 200}[zz.Choose("length", 0, 22)]
	}
	m := zz.Bytes("message", n)
	want := reference(m)
	zz.Assert(zz.Eq(xcrypto.Ripemd160(m), want), "the RIPEMD-160 digest")
	h := ripemd160.New()
	zz.Assert(h.Size() == 20 && h.BlockSize() == 64 && xcrypto.Ripemd160Size() == 20, "20 bytes, blocks of 64")
	zz.Assert(zz.Eq(xcrypto.Hash160(m), func() []byte { s := sha256.Sum256(m); return reference(s[:]) }()), "the RIPEMD-160 digest of the SHA-256 digest")
	s := sha256.Sum256(m)
	zz.Assert(zz.Eq(xcrypto.Sha256(m), s[:]), "the SHA-256 digest")
	s2 := sha256.Sum256(s[:])
	zz.Assert(zz.Eq(xcrypto.DoubleSha256(m), s2[:]), "the SHA-256 digest of the SHA-256 digest")
	zz.Reach("hashed")
}

// ZZ_Chunks: the digest does not depend on how the message arrives, on digests taken in between, or on earlier messages.
func ZZ_Chunks() {
	zz.Abstract("!ripemd160")
	zz.Bound("2 (3 thorough) chunks of 0, 1, 55, 63, 64, 65 or 130 bytes, every message; a digest taken in between, and an earlier message of 63 bytes, or not")
	sizes := []int{0, 1, 55, 63, 64, 65, 130}
	h := ripemd160.New()
	if zz.Choose("earlier", 0, 1) == 1 {
		h.Write(make([]byte, 63))
		if zz.Choose("earlier sum", 0, 1) == 1 {
			h.Sum(nil)
		}
		h.Reset()
	}
	k := 2
	if zz.Thorough() {
		k = 3
	}
	var all []byte
	for i := 0; i < k; i++ {
		c := zz.Bytes("chunk", sizes[zz.Choose("size", 0, len(sizes)-1)])
		all = append(all, c...)
		buf := append([]byte(nil), c...)
		n, err := h.Write(buf)
		zz.Assert(n == len(c) && err == nil, "the whole chunk is written")
		zz.Assert(zz.Eq(buf, c), "the chunk is not changed")
		for j := range buf {
			buf[j] = 0xee
		}
		if i == 0 && zz.Choose("between", 0, 1) == 1 {
			zz.Assert(zz.Eq(h.Sum(nil), reference(all)), "the digest so far")
		}
	}
	room := make([]byte, 2, 40)
	room[0], room[1] = 7, 9
	got := h.Sum(room)
	zz.Assert(len(got) == 22 && got[0] == 7 && got[1] == 9 && zz.Eq(got[2:], reference(all)), "the digest of the whole message, appended")
	zz.Reach("chunks")
}

// derive is PBKDF2 by RFC 8018.
func derive(password, salt []byte, iter, n int, h func() hash.Hash) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		in := append(append([]byte(nil), salt...), byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
		var t []byte
		for j := 0; j < iter; j++ {
			m := hmac.New(h, password)
			m.Write(in)
			in = m.Sum(nil)
			if t == nil {
				t = append([]byte(nil), in...)
			} else {
				for x := range t {
					t[x] ^= in[x]
				}
			}
		}
		out = append(out, t...)
	}
	return out[:n]
}

// ZZ_Derive: keys are derived from passwords as RFC 8018 says.
func ZZ_Derive() {
	zz.Bound("passwords and salts of 0-3 bytes, 1-3 iterations (8 thorough), keys of 0-3, 31-33, 63-66 and 129 bytes, SHA-256 and SHA-512; every password and salt")
	h := sha256.New
	if zz.Choose("hash", 0, 1) == 1 {
		h = sha512.New
	}
	top := 3
	if zz.Thorough() {
		top = 8
	}
	iter := zz.Choose("iterations", 1, top)
	n := []int{0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 66, 129}[zz.Choose("length", 0, 11)]
	p := zz.Bytes("password", zz.Choose("password length", 0, 3))
	s := zz.Bytes("salt", zz.Choose("salt length", 0, 3))
	pk, sk := append([]byte(nil), p...), append(make([]byte, 0, 16), s...)
	got := pbkdf2.Key(pk, sk, iter, n, h)
	zz.Assert(len(got) == n && zz.Eq(got, derive(p, s, iter, n, h)), "the derived key")
	zz.Assert(zz.Eq(pk, p) && zz.Eq(sk, s), "password and salt are not changed")
	zz.Reach("derived")
}

// ZZ_ManyBlocks: the number of a block does not wrap.
func ZZ_ManyBlocks() {
	zz.MaxSteps(100000000)
	zz.Bound("a key of 259 SHA-256 blocks (65538 thorough), passwords of one byte")
	blocks := 259
	if zz.Thorough() {
		blocks = 65538
	}
	p := zz.Bytes("password", 1)
	got := pbkdf2.Key(p, nil, 1, 32*blocks, sha256.New)
	zz.Assert(len(got) == 32*blocks, "a key of the length asked for")
	for i := 1; i <= blocks; i++ {
		if i > 3 && i < 254 || i > 259 && i < 65534 {
			continue
		}
		m := hmac.New(sha256.New, p)
		m.Write([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
		zz.Assert(zz.Eq(got[32*(i-1):32*i], m.Sum(nil)), "every block is derived from its own number")
	}
	zz.Reach("blocks")
}

// ZZ_Seed: the seed of a mnemonic is BIP39's.
func ZZ_Seed() {
	zz.MaxSteps(100000000)
	zz.Bound("mnemonics of 0-2 bytes and passwords of 0-2 bytes, every one")
	m := zz.Str("mnemonic", zz.Choose("length", 0, 2))
	p := zz.Str("password", zz.Choose("password length", 0, 2))
	zz.Assert(zz.Eq(bip39.NewSeed(m, p), derive([]byte(m), []byte("mnemonic"+p), 2048, 64, sha512.New)), "the seed of a mnemonic is PBKDF2 with its words and the salted password")
	zz.Reach("seed")
}
