// Package c09 checks that scripts built are read back as built.
package c09

import (
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// opLen classifies an opcode: instruction length, or -1, -2, -4 for PUSHDATA, or 0 if it is not implemented.
func opLen(op byte) int {
	switch {
	case op >= 1 && op <= 75:
		return 1 + int(op)
	case op == 0x4c:
		return -1
	case op == 0x4d:
		return -2
	case op == 0x4e:
		return -4
	case op == 0 || op == 0x4f || op >= 0x51 && op <= 0x60:
		return 1
	}
	switch op {
	case 0x63, 0x64, 0x67, 0x68, 0x6a, 0x6e, 0x6f, 0x75, 0x76, 0x7c, 0x82, 0x87, 0x88, 0x93, 0xa9, 0xac, 0xad, 0xae, 0xaf:
		return 1
	}
	return 0
}

// header is the shortest push of n bytes.
func header(d []byte) []byte {
	n := len(d)
	switch {
	case n <= 75:
		return []byte{byte(n)}
	case n <= 255:
		return []byte{0x4c, byte(n)}
	case n <= 65535:
		return []byte{0x4d, byte(n), byte(n >> 8)}
	}
	return []byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

var lengths = []int{0, 1, 2, 20, 33, 74, 75, 76, 77, 255, 256, 257, 520, 65535, 65536}

// data is n bytes: symbolic if short, else symbolic at both ends.
func data(name string, n int) []byte {
	if n <= 80 {
		return zz.Bytes(name, n)
	}
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	copy(d, zz.Bytes(name+"a", 2))
	copy(d[n-2:], zz.Bytes(name+"b", 2))
	return d
}

// pushed is what the instruction pushes (nil if it is not a push).
func pushed(in *xvm.Instruction) ([]byte, bool) {
	op := in.OpCode()
	switch {
	case op == 0:
		return nil, true
	case op <= 0x4e:
		return in.Data(), true
	case op == 0x4f:
		return []byte{0x81}, true
	case op >= 0x51 && op <= 0x60:
		return []byte{op - 0x50}, true
	}
	return nil, false
}

// ZZ_Data: a data push is the shortest one and reads back, wherever it stands.
func ZZ_Data() {
	zz.Bound("data of length 0, 1, 2, 20, 33, 74..77, 255..257, 520, 65535, 65536 (symbolic to 80 bytes, symbolic at the ends beyond), between two opcodes")
	k := zz.Choose("len", 0, len(lengths)-1)
	if !zz.Thorough() && lengths[k] > 60000 && lengths[k] != 65536 {
		return
	}
	d := data("d", lengths[k])
	keep := append([]byte{}, d...)
	s, err := xvm.NewScriptBuilder().AddOp(xvm.OP_DUP).AddData(d).AddOp(xvm.OP_EQUAL).Script()
	zz.Assert(err == nil, "no error")
	zz.Assert(zz.Eq(d, keep), "data untouched")
	r := xvm.NewScriptReader(s)
	a, err := r.NextInstruction()
	zz.Assert(err == nil && a != nil && a.OpCode() == xvm.OP_DUP && len(a.Data()) == 0, "before")
	in, err := r.NextInstruction()
	zz.Assert(err == nil && in != nil, "instruction")
	p, ok := pushed(in)
	zz.Assert(ok, "is a push")
	if len(d) == 1 && d[0] == 0 {
		zz.Assert(len(p) == 0, "a zero byte is the number zero")
	} else {
		zz.Assert(zz.Eq(p, d), "pushes the data")
	}
	b, err := r.NextInstruction()
	zz.Assert(err == nil && b != nil && b.OpCode() == xvm.OP_EQUAL && len(b.Data()) == 0, "after")
	e, err := r.NextInstruction()
	zz.Assert(err == nil && e == nil, "end")
	small := len(d) == 0 || len(d) == 1 && (d[0] <= 16 || d[0] == 0x81)
	if small {
		zz.Assert(len(s) == 3, "one-byte push")
	} else {
		want := append(append([]byte{xvm.OP_DUP}, header(d)...), d...)
		zz.Assert(zz.Eq(s, append(want, xvm.OP_EQUAL)), "shortest push")
	}
	zz.Reach("end")
}

// ZZ_Int: a number push pushes the number's minimal encoding.
func ZZ_Int() {
	zz.Bound("every 64-bit number")
	v := zz.I64("v")
	s, err := xvm.NewScriptBuilder().AddInt64(v).Script()
	zz.Assert(err == nil, "no error")
	ins, err := xvm.NewScriptReader(s).AllInstructions()
	zz.Assert(err == nil && len(ins) == 1, "one instruction")
	p, ok := pushed(&ins[0])
	zz.Assert(ok, "is a push")
	zz.Assert(zz.Eq(p, xvm.ScriptNum(v).Bytes()), "pushes the number")
	if v >= -1 && v <= 16 {
		zz.Assert(len(s) == 1, "one byte")
	} else {
		zz.Assert(len(s) == len(p)+1, "direct push")
	}
	zz.Reach("end")
}

// ZZ_Read: an instruction is read exactly when it is implemented and complete.
func ZZ_Read() {
	tails := []int{0, 1, 2, 3, 4, 5, 6, 19, 20, 21, 76}
	zz.Bound("every first opcode, followed by 0..6, 19..21 or 76 arbitrary bytes (length bytes of PUSHDATA2 and PUSHDATA4 symbolic)")
	op := zz.U8("op")
	n := tails[zz.Choose("tail", 0, len(tails)-1)]
	t := zz.Bytes("t", n)
	s := append([]byte{op}, t...)
	keep := append([]byte{}, s...)
	r := xvm.NewScriptReader(s)
	in, err := r.NextInstruction()
	zz.Assert(zz.Eq(s, keep), "script untouched")
	l := opLen(op)
	if l == 0 {
		zz.Assert(err != nil, "unknown opcode refused")
		zz.Reach("unknown")
		return
	}
	head, size := 0, uint64(0)
	if l > 0 {
		size = uint64(l - 1)
	} else {
		head = -l
		if n < head {
			zz.Assert(err != nil, "no length")
			return
		}
		for i := 0; i < head; i++ {
			size |= uint64(t[i]) << uint(8*i)
		}
	}
	zz.Assert((err == nil) == (size <= uint64(n-head)), "complete exactly when the data are there")
	if err != nil {
		zz.Reach("short")
		return
	}
	k := zz.Concrete(int(size))
	zz.Assert(in != nil && in.OpCode() == op, "opcode")
	zz.Assert(zz.Eq(in.Data(), t[head:head+k]), "data")
	if head+k == n {
		next, err := r.NextInstruction()
		zz.Assert(next == nil && err == nil, "end")
	} else {
		zz.Assume(t[head+k] == xvm.OP_DUP)
		next, err := r.NextInstruction()
		zz.Assert(err == nil && next != nil, "not at the end")
		zz.Assert(next.OpCode() == xvm.OP_DUP && len(next.Data()) == 0, "next instruction follows")
	}
	zz.Reach("read")
}

// piece is one instruction and its bytes.
func piece(i int) (byte, []byte) {
	switch zz.Choose("kind", 0, 5) {
	case 0:
		return xvm.OP_DUP, []byte{xvm.OP_DUP}
	case 1:
		return xvm.OP_EQUAL, []byte{xvm.OP_EQUAL}
	case 2:
		d := zz.Bytes("d", 2)
		return 2, append([]byte{2}, d...)
	case 3:
		n := zz.Choose("n", 0, 2)
		return xvm.OP_PUSHDATA1, append([]byte{xvm.OP_PUSHDATA1, byte(n)}, zz.Bytes("d", n)...)
	case 4:
		n := zz.Choose("n", 0, 1)
		return xvm.OP_PUSHDATA2, append([]byte{xvm.OP_PUSHDATA2, byte(n), 0}, zz.Bytes("d", n)...)
	}
	n := zz.Choose("n", 0, 1)
	return xvm.OP_PUSHDATA4, append([]byte{xvm.OP_PUSHDATA4, byte(n), 0, 0, 0}, zz.Bytes("d", n)...)
}

// ZZ_Remove: removing an opcode leaves exactly the other instructions.
func ZZ_Remove() {
	top := 2
	if zz.Thorough() {
		top = 3
	}
	zz.Bound("scripts of up to 2 instructions (3 thorough): DUP, EQUAL and every kind of push, data symbolic; every opcode removed")
	n := zz.Choose("n", 0, top)
	var ops []byte
	var raw [][]byte
	var s []byte
	for i := 0; i < n; i++ {
		op, b := piece(i)
		ops = append(ops, op)
		raw = append(raw, b)
		s = append(s, b...)
	}
	x := zz.U8("x")
	keep := append([]byte{}, s...)
	got := xvm.RemoveOpcode(s, x)
	zz.Assert(zz.Eq(s, keep), "script untouched")
	var want []byte
	for i := range ops {
		if ops[i] != x {
			want = append(want, raw[i]...)
		}
	}
	zz.Assert(zz.Eq(got, want), "the other instructions, byte for byte")
	zz.Reach("end")
}
