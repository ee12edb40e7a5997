// Package c22 checks mnemonics: BIP39.
package c22

import (
	"crypto/rand"
	"crypto/sha256"
	"errors"
	"strings"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// word is the i-th word of a list of 2048 words of two characters.
func word(i uint16) string { return string([]byte{0x40 | byte(i>>6), 0x40 | byte(i&63)}) }

func list() {
	l := make([]string, 2048)
	for i := range l {
		l[i] = word(uint16(i))
	}
	bip39.SetWordList(l)
	zz.Bound("a list of 2048 words of two characters in place of the natural language ones")
}

// indexes are the numbers of the words of entropy, by BIP39.
func indexes(entropy []byte) []uint16 {
	sum := sha256.Sum256(entropy)
	data := append(append([]byte(nil), entropy...), sum[0])
	n := (len(entropy)*8 + len(entropy)/4) / 11
	out := make([]uint16, n)
	for i := range out {
		// 11 bits at bit 11*i
		at := 11 * i
		v := uint32(0)
		for j := 0; j < 3; j++ {
			v <<= 8
			if at/8+j < len(data) {
				v |= uint32(data[at/8+j])
			}
		}
		out[i] = uint16(v>>(24-11-uint(at%8))) & 2047
	}
	return out
}

// entropy with at most one leading zero byte.
func entropy(n int) []byte {
	e := zz.Bytes("~entropy", n)
	zz.Bound("at most 1 leading zero byte")
	switch zz.Choose("zeros", 0, 1) {
	case 0:
		zz.Assume(e[0] != 0)
	case 1:
		zz.Assume(zz.And(e[0] == 0, e[1] != 0))
	}
	return e
}

// ZZ_Encode: the mnemonic of entropy is the words of its bits and checksum.
func ZZ_Encode() {
	list()
	n := 16 + 4*zz.Choose("size", 0, 4)
	e := zz.Bytes("~entropy", n)
	idx := indexes(e)
	small := zz.Choose("small", 0, len(idx)-1)
	zz.Bound("at most one word (two thorough) with a number below 256")
	small2 := small
	if zz.Thorough() {
		small2 = zz.Choose("small2", 0, small)
	}
	for i, v := range idx {
		if i != small && i != small2 {
			zz.Assume(v >= 256)
		}
	}
	keep := append([]byte(nil), e...)
	m, err := bip39.NewMnemonic(e)
	zz.Assert(err == nil, "entropy has a mnemonic")
	var want []string
	for _, i := range idx {
		want = append(want, word(i))
	}
	zz.Assert(zz.EqStr(m, strings.Join(want, " ")), "the words of the bits")
	zz.Assert(zz.Eq(e, keep), "the entropy is unchanged")
	zz.Reach("encoded")
}

// ZZ_Decode: a sentence of words of the list has an entropy exactly if the checksum is right.
func ZZ_Decode() {
	list()
	n := 16 + 4*zz.Choose("size", 0, 4)
	e := entropy(n)
	idx := indexes(e)
	bad := zz.Choose("wrong", 0, 1) == 1
	if bad {
		// any other checksum
		cs := uint(n / 4)
		sum := zz.U8("~checksum")
		last := idx[len(idx)-1]
		other := last>>cs<<cs | uint16(sum)&(1<<cs-1)
		zz.Assume(other != last)
		idx[len(idx)-1] = other
	}
	var ws []string
	for _, i := range idx {
		ws = append(ws, word(i))
	}
	sep := " "
	switch zz.Choose("separator", 0, 2) {
	case 1:
		sep = "  "
	case 2:
		sep = "\t"
	}
	m := strings.Join(ws, sep)
	zz.Assert(bip39.IsMnemonicValid(m), "the words are in the list")
	got, err := bip39.EntropyFromMnemonic(m)
	zz.Assert((err == nil) == !bad, "a mnemonic is accepted exactly if its checksum is right")
	raw, err2 := bip39.MnemonicToByteArray(m, true)
	zz.Assert((err2 == nil) == !bad, "a mnemonic is accepted exactly if its checksum is right, as bytes too")
	full, err3 := bip39.MnemonicToByteArray(m)
	zz.Assert((err3 == nil) == !bad, "a mnemonic is accepted exactly if its checksum is right, as checksummed bytes too")
	if bad {
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.Eq(got, e), "the entropy comes back")
	zz.Assert(zz.Eq(raw, e), "the entropy comes back as bytes")
	zz.Assert(zz.Eq(full, whole(e)), "entropy and checksum come back")
	zz.Reach("decoded")
}

// whole is entropy and checksum as one big-endian number, padded.
func whole(e []byte) []byte {
	cs := uint(len(e) / 4)
	sum := sha256.Sum256(e)
	out := make([]byte, len(e)+1)
	c := uint16(sum[0] >> (8 - cs))
	for i := len(e); i >= 0; i-- {
		if i > 0 {
			c |= uint16(e[i-1]) << cs
		}
		out[i] = byte(c)
		c >>= 8
	}
	return out
}

// ZZ_Text: a text that is not 12, 15, 18, 21 or 24 words of the list is refused by every reader.
func ZZ_Text() {
	list()
	zz.Bound("0-31 words, one of them any three bytes or any foreign two, the others one word")
	n := zz.Choose("words", 0, 31)
	ws := make([]string, n)
	for i := range ws {
		ws[i] = word(77)
	}
	foreign := false
	if n > 0 {
		switch zz.Choose("foreign", 0, 3) {
		case 1:
			b := zz.Bytes("odd", 2)
			for _, c := range b {
				zz.Assume(zz.And(c > ' ', c < 0x80))
			}
			zz.Assume(zz.Or(b[0] < 0x40, zz.Or(b[0] >= 0x60, b[1] < 0x40)))
			ws[n/2] = string(b)
			foreign = true
		case 2:
			b := zz.Bytes("long", 3)
			for _, c := range b {
				zz.Assume(zz.And(c > ' ', c < 0x80))
			}
			ws[n-1] = string(b)
			foreign = true
		case 3:
			ws[0] = word(77) + word(77)
			foreign = true
		}
	}
	m := strings.Join(ws, " ")
	if zz.Choose("padding", 0, 1) == 1 {
		m = " \n" + m + " "
	}
	ok := !foreign && n >= 12 && n <= 24 && n%3 == 0
	zz.Assert(bip39.IsMnemonicValid(m) == ok, "a mnemonic is 12, 15, 18, 21 or 24 words of the list")
	e1, err1 := bip39.EntropyFromMnemonic(m)
	e2, err2 := bip39.MnemonicToByteArray(m, true)
	_, err3 := bip39.MnemonicToByteArray(m)
	if !ok {
		zz.Assert(err1 != nil && err2 != nil && err3 != nil, "refused by every reader")
		zz.Reach("refused")
		return
	}
	zz.Assert((err1 == nil) == (err2 == nil) && (err2 == nil) == (err3 == nil), "the readers agree")
	zz.Assert(err1 != nil || zz.Eq(e1, e2), "the readers agree on the entropy")
	zz.Reach("read")
}

// ZZ_Lengths: entropy of other lengths has no mnemonic.
func ZZ_Lengths() {
	zz.Bound("entropy of 0-40 bytes, every number of bits up to 2^31 for new entropy that is not valid")
	n := zz.Choose("bytes", 0, 40)
	_, err := bip39.NewMnemonic(make([]byte, n))
	zz.Assert((err == nil) == (n >= 16 && n <= 32 && n%4 == 0), "entropy has 128 to 256 bits in steps of 32")
	bits := zz.IntIn("bits", -1<<31, 1<<31)
	if bits >= 128 && bits <= 256 {
		zz.Assume(bits%32 != 0)
	}
	e, err := bip39.NewEntropy(bits)
	zz.Assert(err != nil && len(e) == 0, "no entropy of another size")
	zz.Reach("lengths")
}

// source is a source of random bytes.
type source struct {
	data []byte
	fail bool
}

func (s *source) Read(p []byte) (int, error) {
	if s.fail {
		return 0, errors.New("no randomness")
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	if n == 0 && len(p) > 0 {
		return 0, errors.New("exhausted")
	}
	return n, nil
}

// ZZ_Entropy: new entropy is what the secure random source of the system delivers.
func ZZ_Entropy() {
	zz.Bound("every delivery of the random source")
	old := rand.Reader
	defer func() { rand.Reader = old }()
	n := 16 + 4*zz.Choose("size", 0, 4)
	data := zz.Bytes("random", n)
	rand.Reader = &source{data: append([]byte(nil), data...)}
	e, err := bip39.NewEntropy(n * 8)
	zz.Assert(err == nil, "entropy of the random source")
	zz.Assert(zz.Eq(e, data), "entropy is the secure random source's")
	zz.Reach("entropy")
}

// ZZ_Lists: the lists have 2048 different words without white space, each found at its place.
func ZZ_Lists() {
	zz.MaxSteps(200000000)
	lists := [][]string{words.English, words.Chinese, words.Japanese}
	l := lists[zz.Choose("list", 0, 2)]
	zz.Assert(len(l) == 2048, "2048 words")
	bip39.SetWordList(l)
	for i, w := range l {
		at, ok := bip39.GetWordIndex(w)
		zz.Assert(ok && at == i, "each word is found at its place")
		zz.Assert(len(w) > 0 && len(strings.Fields(w)) == 1 && strings.TrimSpace(w) == w, "words have no white space")
	}
	zz.Assert(&bip39.GetWordList()[0] == &l[0] || bip39.GetWordList()[7] == l[7], "the list in use")
	zz.Reach("list")
}

// ZZ_Checked: the seed of a mnemonic is only given, when asked to check, if it is one.
func ZZ_Checked() {
	list()
	zz.Bound("12 words of entropy of zeros but for one arbitrary byte above 7, the right or any wrong checksum, or a foreign word; passwords of one byte")
	e := make([]byte, 16)
	e[7] = zz.U8("byte")
	zz.Assume(e[7] > 7)
	idx := indexes(e)
	bad := zz.Choose("wrong", 0, 2)
	if bad == 1 {
		sum := zz.U8("~checksum")
		last := idx[len(idx)-1]
		other := last>>4<<4 | uint16(sum)&15
		zz.Assume(other != last)
		idx[len(idx)-1] = other
	}
	var ws []string
	for _, i := range idx {
		ws = append(ws, word(i))
	}
	if bad == 2 {
		ws[3] = "~~~"
	}
	m := strings.Join(ws, " ")
	pw := zz.Str("password", 1)
	seed, err := bip39.NewSeedWithErrorChecking(m, pw)
	zz.Assert((err == nil) == (bad == 0), "only a mnemonic has a checked seed")
	if err != nil {
		zz.Assert(seed == nil, "nothing is returned with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.Eq(seed, bip39.NewSeed(m, pw)), "the checked seed is the seed")
	zz.Reach("seed")
}
