// Package c38 checks the textual form of scripts.
package c38

import (
	"strconv"
	"strings"

	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
)

type op struct {
	b    byte
	name string
}

// table: the opcodes that carry no data, by value.
var table = []op{
	{0x00, "OP_0"}, {0x4f, "OP_1NEGATE"},
	{0x51, "OP_1"}, {0x52, "OP_2"}, {0x53, "OP_3"}, {0x54, "OP_4"}, {0x55, "OP_5"}, {0x56, "OP_6"}, {0x57, "OP_7"}, {0x58, "OP_8"},
	{0x59, "OP_9"}, {0x5a, "OP_10"}, {0x5b, "OP_11"}, {0x5c, "OP_12"}, {0x5d, "OP_13"}, {0x5e, "OP_14"}, {0x5f, "OP_15"}, {0x60, "OP_16"},
	{0x63, "OP_IF"}, {0x64, "OP_NOTIF"}, {0x67, "OP_ELSE"}, {0x68, "OP_ENDIF"}, {0x6a, "OP_RETURN"},
	{0x6e, "OP_2DUP"}, {0x6f, "OP_3DUP"}, {0x75, "OP_DROP"}, {0x76, "OP_DUP"}, {0x7c, "OP_SWAP"}, {0x82, "OP_SIZE"},
	{0x87, "OP_EQUAL"}, {0x88, "OP_EQUALVERIFY"}, {0x93, "OP_ADD"}, {0xa9, "OP_HASH160"},
	{0xac, "OP_CHECKSIG"}, {0xad, "OP_CHECKSIGVERIFY"}, {0xae, "OP_CHECKMULTISIG"}, {0xaf, "OP_CHECKMULTISIGVERIFY"},
}

func cat(parts ...[]byte) []byte {
	var s []byte
	for _, p := range parts {
		s = append(s, p...)
	}
	return s
}

func digit(v byte) byte {
	if v < 10 {
		return '0' + v
	}
	return 'a' - 10 + v
}

func hexOf(d []byte) string {
	var s []byte
	for _, b := range d {
		s = append(s, digit(b>>4), digit(b&15))
	}
	return string(s)
}

func separator() string {
	return []string{" ", "\n", "\t"}[zz.Choose("separator", 0, 2)]
}

// ZZ_Names: the name of an opcode stands for its byte, and its byte is shown as its name.
func ZZ_Names() {
	zz.Bound("scripts of up to two opcodes of the table without data, every pair, three separators")
	x := table[zz.Choose("first", 0, len(table)-1)]
	y := table[zz.Choose("second", 0, len(table)-1)]
	s, err := xvm.NewScriptBuilder().Load(x.name + separator() + y.name).Script()
	zz.Assert(err == nil && zz.Eq(s, []byte{x.b, y.b}), "the opcodes named, in order")
	zz.Assert(xvm.DisasmString([]byte{x.b, y.b}) == x.name+" "+y.name, "the names of the opcodes, in order")
	one, err := xvm.NewScriptBuilder().Load(x.name).Script()
	zz.Assert(err == nil && zz.Eq(one, []byte{x.b}), "one opcode")
	zz.Assert(xvm.DisasmString([]byte{x.b}) == x.name, "one name")
	zz.Reach("names")
}

func header(n int) ([]byte, string) {
	switch {
	case n <= 75:
		return []byte{byte(n)}, "OP_DATA_" + strconv.Itoa(n)
	case n <= 255:
		return []byte{76, byte(n)}, "OP_PUSHDATA1"
	}
	return []byte{77, byte(n), byte(n >> 8)}, "OP_PUSHDATA2"
}

// ZZ_Data: data pushed is shown in hexadecimal after the name of the push, and quoted hexadecimal stands for the shortest push of it.
func ZZ_Data() {
	zz.Bound("data of 1 to 76, 255 and 256 bytes, of which up to four are free, before and after an opcode")
	n := zz.Choose("length", 1, 78)
	if n > 76 {
		n = n - 77 + 255
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*37) | 0x20
	}
	for i, b := range zz.Bytes("data", 4) {
		if i < n {
			d[i*(n-1)/3] = b
		}
	}
	h, name := header(n)
	raw := cat([]byte{0x76}, h, d, []byte{0x87})
	zz.Assert(zz.EqStr(xvm.DisasmString(raw), "OP_DUP "+name+" "+hexOf(d)+" OP_EQUAL"), "the data is shown after the name of its push")
	r := xvm.NewScriptReader(raw)
	_, err := r.NextInstruction()
	zz.Assert(err == nil && zz.EqStr(r.DisasmRemaining(), name+" "+hexOf(d)+" OP_EQUAL"), "what remains to be read is shown")
	_, err = r.NextInstruction()
	zz.Assert(err == nil && zz.EqStr(r.DisasmRemaining(), "OP_EQUAL"), "what remains to be read is shown")
	_, err = r.NextInstruction()
	zz.Assert(err == nil && r.DisasmRemaining() == "", "nothing remains")
	if n >= 2 {
		s, err := xvm.NewScriptBuilder().Load("OP_DUP '" + hexOf(d) + "' OP_EQUAL").Script()
		zz.Assert(err == nil && zz.Eq(s, raw), "quoted hexadecimal is pushed")
	}
	t, err := xvm.NewScriptBuilder().Load("OP_DUP 0x" + hexOf(raw[1:1+len(h)]) + separator() + "0x" + hexOf(d) + " OP_EQUAL").Script()
	zz.Assert(err == nil && zz.Eq(t, raw), "plain hexadecimal is the bytes of the script")
	zz.Reach("data")
}

// ZZ_Hex: two characters after 0x are a byte exactly if both are hexadecimal digits; anything else is refused, up to the token that is not understood.
func ZZ_Hex() {
	zz.Bound("every two characters other than white space after 0x")
	c := zz.Bytes("characters", 2)
	v := 0
	ok := true
	for _, x := range c {
		zz.Assume(zz.And(x != ' ', zz.And(x != '\n', x != '\t')))
		switch {
		case x >= '0' && x <= '9':
			v = v<<4 | int(x-'0')
		case x >= 'a' && x <= 'f':
			v = v<<4 | int(x-'a'+10)
		case x >= 'A' && x <= 'F':
			v = v<<4 | int(x-'A'+10)
		default:
			ok = false
		}
	}
	s, err := xvm.NewScriptBuilder().Load("OP_DUP 0x" + string(c) + " OP_EQUAL").Script()
	if !ok {
		zz.Assert(err != nil, "what is not hexadecimal is refused")
		zz.Reach("refused")
		return
	}
	zz.Assert(err == nil && zz.Eq(s, []byte{0x76, byte(v), 0x87}), "the byte of the digits")
	zz.Reach("byte")
}

// ZZ_Unknown: a word that is no opcode, number, or hexadecimal is refused, and stays refused until the builder is reset.
func ZZ_Unknown() {
	zz.Bound("every word of 1-3 characters other than white space, digits and signs in front, quotes at both ends")
	w := zz.Bytes("word", zz.Choose("length", 1, 3))
	for _, x := range w {
		zz.Assume(zz.And(x != ' ', zz.And(x != '\n', x != '\t')))
	}
	x := w[0]
	zz.Assume(zz.And(zz.Or(x < '0', x > '9'), zz.And(x != '-', zz.And(x != '+', x != '\''))))
	b := xvm.NewScriptBuilder()
	_, err := b.Load("OP_DUP " + string(w) + " OP_EQUAL").Script()
	zz.Assert(err != nil, "an unknown word is refused")
	_, err = b.AddOp(0x87).Script()
	zz.Assert(err != nil, "and the script stays unusable")
	s, err := b.Reset().Load("OP_DUP").Script()
	zz.Assert(err == nil && zz.Eq(s, []byte{0x76}), "a reset builder starts again")
	zz.Reach("refused")
}

// number: the shortest push of a number.
func number(v int64) []byte {
	if v == 0 {
		return []byte{0}
	}
	if v == -1 {
		return []byte{0x4f}
	}
	if v >= 1 && v <= 16 {
		return []byte{byte(0x50 + v)}
	}
	m := uint64(v)
	if v < 0 {
		m = -m
	}
	var d []byte
	for m > 0 {
		d = append(d, byte(m))
		m >>= 8
	}
	if d[len(d)-1]&0x80 != 0 {
		d = append(d, 0)
	}
	if v < 0 {
		d[len(d)-1] |= 0x80
	}
	return append([]byte{byte(len(d))}, d...)
}

// ZZ_Number: a decimal number stands for its push.
func ZZ_Number() {
	zz.Bound("every number of one to five digits with or without a sign, and the powers of two minus one, zero and plus one up to 2^62")
	var v int64
	var text string
	if zz.Choose("large", 0, 1) == 1 {
		v = int64(1)<<uint(zz.Choose("power", 7, 62)) + int64(zz.Choose("offset", -1, 1))
		if zz.Choose("negative", 0, 1) == 1 {
			v = -v
		}
		text = strconv.FormatInt(v, 10)
	} else {
		n := zz.Choose("digits", 1, 5)
		sign := zz.Choose("sign", 0, 2)
		d := make([]byte, 0, 4)
		if sign > 0 {
			d = append(d, "+-"[sign-1])
		}
		for _, x := range zz.Bytes("digits", n) {
			zz.Assume(x < 10)
			v = v*10 + int64(x)
			d = append(d, '0'+x)
		}
		if sign == 2 {
			v = -v
		}
		text = string(d)
	}
	s, err := xvm.NewScriptBuilder().Load(strings.Join([]string{"OP_DUP", text}, separator())).Script()
	zz.Assert(err == nil && zz.Eq(s, cat([]byte{0x76}, number(v))), "the number is pushed in its shortest form")
	zz.Reach("number")
}

// ZZ_Reset: a script handed out stays as it is when the builder goes on or starts again.
func ZZ_Reset() {
	zz.Bound("every two opcode bytes and data of 3 bytes, before and after")
	o := zz.Bytes("opcodes", 2)
	d := zz.Bytes("data", 3)
	b := xvm.NewScriptBuilder()
	s, err := b.AddOp(o[0]).AddData(d[:2]).Script()
	want := []byte{o[0], 2, d[0], d[1]}
	zz.Assert(err == nil && zz.Eq(s, want), "the script")
	if zz.Choose("reset", 0, 1) == 1 {
		b.Reset()
		t, err := b.AddData(d).AddOp(o[1]).Script()
		zz.Assert(err == nil && zz.Eq(t, []byte{3, d[0], d[1], d[2], o[1]}), "the next script")
		zz.Reach("reset")
	} else {
		t, err := b.AddOp(o[1]).Script()
		zz.Assert(err == nil && zz.Eq(t, append(append([]byte{}, want...), o[1])), "the longer script")
		zz.Reach("longer")
	}
	zz.Assert(zz.Eq(s, want), "the script handed out is left alone")
}
