// Package c10 checks the meaning of the instructions.
package c10

import (
	"errors"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/vmref"
)

func mk() *xvm.Engine { return xvm.NewEngine() }

var stackOps = []byte{xvm.OP_0, xvm.OP_1NEGATE, xvm.OP_1, xvm.OP_16, xvm.OP_DUP, xvm.OP_2DUP, xvm.OP_3DUP, xvm.OP_DROP, xvm.OP_SIZE,
	xvm.OP_SWAP, xvm.OP_EQUAL, xvm.OP_EQUALVERIFY, xvm.OP_HASH160}

// step is the reference.
func step(op byte, s [][]byte) ([][]byte, bool) {
	n := len(s)
	s = append([][]byte{}, s...)
	switch {
	case op == xvm.OP_0:
		return append(s, nil), true
	case op == xvm.OP_1NEGATE:
		return append(s, []byte{0x81}), true
	case op >= 0x51 && op <= 0x60:
		return append(s, []byte{op - 0x50}), true
	}
	need := map[byte]int{xvm.OP_DUP: 1, xvm.OP_2DUP: 2, xvm.OP_3DUP: 3, xvm.OP_DROP: 1, xvm.OP_SIZE: 1, xvm.OP_SWAP: 2, xvm.OP_EQUAL: 2,
		xvm.OP_EQUALVERIFY: 2, xvm.OP_HASH160: 1, xvm.OP_ADD: 2}[op]
	if n < need {
		return nil, false
	}
	switch op {
	case xvm.OP_DUP:
		return append(s, s[n-1]), true
	case xvm.OP_2DUP:
		return append(s, s[n-2], s[n-1]), true
	case xvm.OP_3DUP:
		return append(s, s[n-3], s[n-2], s[n-1]), true
	case xvm.OP_DROP:
		return s[:n-1], true
	case xvm.OP_SIZE:
		return append(s, vmref.Encode(int64(len(s[n-1])))), true
	case xvm.OP_SWAP:
		return append(s[:n-2], s[n-1], s[n-2]), true
	case xvm.OP_EQUAL, xvm.OP_EQUALVERIFY:
		e := len(s[n-1]) == len(s[n-2]) && zz.Eq(s[n-1], s[n-2])
		s = s[:n-2]
		if op == xvm.OP_EQUALVERIFY {
			return s, e
		}
		if e {
			return append(s, []byte{1}), true
		}
		return append(s, nil), true
	case xvm.OP_HASH160:
		return append(s[:n-1], xcrypto.Hash160(s[n-1])), true
	case xvm.OP_ADD:
		a, oka := vmref.Number(s[n-1])
		b, okb := vmref.Number(s[n-2])
		if !oka || !okb {
			return nil, false
		}
		return append(s[:n-2], vmref.Encode(a+b)), true
	}
	panic("reference")
}

// ZZ_Sequence: every short sequence of stack instructions, from every short stack.
func ZZ_Sequence() {
	top, items := 2, 3
	if zz.Thorough() {
		top, items = 3, 4
	}
	zz.Bound("every sequence of up to 2 (3 thorough) of OP_0, 1NEGATE, 1, 16, DUP, 2DUP, 3DUP, DROP, SIZE, SWAP, EQUAL, EQUALVERIFY, HASH160 after pushes of 0..3 (4 thorough) items of lengths 0, 1, 2 with arbitrary bytes")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	var s [][]byte
	var prog []byte
	d := zz.Choose("depth", 0, items)
	lens := []int{2, 1, 2, 0}
	if zz.Choose("lens", 0, 1) == 1 {
		lens = []int{0, 1, 1, 1}
	}
	for i := 0; i < d; i++ {
		b := zz.Bytes("item", lens[i])
		s = append(s, b)
		prog = vmref.Push(prog, b)
	}
	ok := true
	n := zz.Choose("n", 1, top)
	for i := 0; i < n && ok; i++ {
		op := stackOps[zz.Choose("op", 0, len(stackOps)-1)]
		prog = append(prog, op)
		s, ok = step(op, s)
	}
	vmref.Check(mk, prog, s, ok)
	zz.Reach("end")
}

// ZZ_Push: every push instruction pushes what it should.
func ZZ_Push() {
	zz.Bound("every data push of 1..75 bytes, PUSHDATA1/2/4 with 0..3, 75, 76, 255 or 520 bytes (where they fit), OP_0, OP_1NEGATE, OP_1..OP_16; data symbolic to 80 bytes")
	var prog, want []byte
	switch kind := zz.Choose("kind", 0, 4); kind {
	case 0:
		want = zz.Bytes("d", zz.Choose("n", 1, 75))
		prog = append([]byte{byte(len(want))}, want...)
	case 1, 2, 3:
		l := []int{0, 1, 3, 75, 76, 255, 520}[zz.Choose("n", 0, 6)]
		if kind == 1 && l > 255 {
			return
		}
		if l <= 80 {
			want = zz.Bytes("d", l)
		} else {
			want = make([]byte, l)
			copy(want[l-4:], zz.Bytes("d", 4))
		}
		prog = append([]byte{byte(0x4b + kind), byte(l), byte(l >> 8), 0, 0}[:1+1<<uint(kind-1)], want...)
	case 4:
		k := zz.Choose("k", -1, 16)
		switch {
		case k == -1:
			prog, want = []byte{0x4f}, []byte{0x81}
		case k == 0:
			prog = []byte{0}
		default:
			prog, want = []byte{byte(0x50 + k)}, []byte{byte(k)}
		}
	}
	// compared through SIZE, EQUAL and the truth of the top
	err := mk().Execute(prog)
	zz.Assert((err == nil) == vmref.Truth(want), "truth")
	p := append(append([]byte{}, prog...), xvm.OP_SIZE)
	p = vmref.Push(p, vmref.Encode(int64(len(want))))
	p = append(p, xvm.OP_EQUALVERIFY)
	if len(want) <= 75 {
		p = vmref.Push(p, want)
	} else {
		p = append(p, 0x4d, byte(len(want)), byte(len(want)>>8))
		p = append(p, want...)
	}
	zz.Assert(mk().Execute(append(append([]byte{}, p...), xvm.OP_EQUAL)) == nil, "pushes the data")
	zz.Assert(mk().Execute(append(p, xvm.OP_EQUALVERIFY, xvm.OP_DROP)) != nil, "pushes nothing else")
	zz.Reach("end")
}

// ZZ_Add: addition of two script numbers.
func ZZ_Add() {
	top := 3
	if zz.Thorough() {
		top = 5
	}
	zz.Bound("operands of 0..3 (5 thorough) arbitrary bytes, and of 4 and 5 with 0 and 1")
	la := zz.Choose("la", 0, 5)
	lb := zz.Choose("lb", 0, 5)
	if (la > top || lb > top) && la+lb > 6 && la+lb != 8 {
		return
	}
	a, b := zz.Bytes("a", la), zz.Bytes("b", lb)
	prog := vmref.Push(vmref.Push(vmref.Push(nil, []byte{7}), a), b)
	s, ok := step(xvm.OP_ADD, [][]byte{{7}, a, b})
	vmref.Check(mk, append(prog, xvm.OP_ADD), s, ok)
	zz.Reach("end")
}

// ZZ_Short: instructions on a stack too short for them fail.
func ZZ_Short() {
	zz.Bound("ADD and the signature checks on stacks of 0..2 items of one arbitrary byte")
	d := zz.Choose("depth", 0, 1)
	var prog []byte
	for i := 0; i < d; i++ {
		prog = vmref.Push(prog, zz.Bytes("item", 1))
	}
	ops := []byte{xvm.OP_ADD, xvm.OP_CHECKSIG, xvm.OP_CHECKSIGVERIFY, xvm.OP_CHECKMULTISIG, xvm.OP_CHECKMULTISIGVERIFY}
	op := ops[zz.Choose("op", 0, len(ops)-1)]
	vm := func() *xvm.Engine {
		e := xvm.NewEngine()
		e.SetSigHashFn(func(byte) ([]byte, error) { return []byte{1}, nil })
		e.SetSigVerifyFn(func(_, _, _ []byte) error { return nil })
		return e
	}
	vmref.Check(vm, append(prog, op), nil, false)
	zz.Reach("end")
}

// ZZ_CheckSig: one signature check.
func ZZ_CheckSig() {
	zz.Bound("signatures of 0..3 bytes, public keys of 0..2 bytes, every verdict of the signature functions, a missing signature function")
	sig := zz.Bytes("sig", zz.Choose("ns", 0, 3))
	pk := zz.Bytes("pk", zz.Choose("np", 0, 2))
	low := zz.Bytes("low", 1)
	valid := zz.Bool("valid")
	hashFails := zz.Bool("hashfails")
	none := zz.Choose("missing", 0, 2)
	verify := zz.Choose("verify", 0, 1) == 1
	calls := 0
	vm := func() *xvm.Engine {
		e := xvm.NewEngine()
		if none != 1 {
			e.SetSigHashFn(func(t byte) ([]byte, error) {
				if hashFails {
					return nil, errors.New("no")
				}
				return []byte{0xaa, t}, nil
			})
		}
		if none != 2 {
			e.SetSigVerifyFn(func(h, s, p []byte) error {
				calls++
				zz.Assert(len(sig) > 0, "an empty signature is not verified")
				zz.Assert(zz.Eq(h, []byte{0xaa, sig[len(sig)-1]}), "hash of the signature's hash type")
				zz.Assert(zz.Eq(s, sig[:len(sig)-1]), "signature without the hash type")
				zz.Assert(zz.Eq(p, pk), "public key")
				if valid {
					return nil
				}
				return errors.New("bad")
			})
		}
		return e
	}
	prog := vmref.Push(vmref.Push(vmref.Push(nil, low), sig), pk)
	if verify {
		prog = append(prog, xvm.OP_CHECKSIGVERIFY)
	} else {
		prog = append(prog, xvm.OP_CHECKSIG)
	}
	ok := none == 0 && (len(sig) == 0 || !hashFails)
	good := len(sig) > 0 && valid
	want := [][]byte{low}
	if verify {
		ok = ok && good
	} else if good {
		want = append(want, []byte{1})
	} else {
		want = append(want, nil)
	}
	vmref.Check(vm, prog, want, ok)
	zz.Reach("end")
}

// ZZ_Return: OP_RETURN makes the script fail.
func ZZ_Return() {
	zz.Bound("OP_RETURN after a push of one arbitrary byte")
	b := zz.Bytes("b", 1)
	zz.Assert(mk().Execute(append(vmref.Push(nil, b), xvm.OP_RETURN)) != nil, "OP_RETURN fails")
	zz.Reach("end")
}

// ZZ_Long: the stack instructions on long items.
func ZZ_Long() {
	zz.Bound("one or two items of 3, 4, 20, 32, 75, 76, 127, 128, 129, 255, 256, 257 or 520 bytes, the two end bytes and one in the middle arbitrary, the others zero; each instruction")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	lens := []int{3, 4, 20, 32, 75, 76, 127, 128, 129, 255, 256, 257, 520}
	l := lens[zz.Choose("length", 0, len(lens)-1)]
	item := func(l int) []byte {
		b := make([]byte, l)
		b[0], b[l/2], b[l-1] = zz.U8("first"), zz.U8("middle"), zz.U8("last")
		return b
	}
	s := [][]byte{item(l)}
	prog := vmref.Push(nil, s[0])
	switch zz.Choose("second", 0, 2) {
	case 1:
		b := item(l)
		s, prog = append(s, b), vmref.Push(prog, b)
	case 2:
		b := append(append([]byte{}, s[0]...), 0)
		s, prog = append(s, b), vmref.Push(prog, b)
	}
	ok := true
	if op := zz.Choose("op", -1, len(stackOps)-1); op >= 0 {
		prog = append(prog, stackOps[op])
		s, ok = step(stackOps[op], s)
	}
	vmref.Check(mk, prog, s, ok)
	zz.Reach("end")
}
