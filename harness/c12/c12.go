// Package c12 checks OP_CHECKMULTISIG.
package c12

import (
	"errors"

	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/vmref"
)

// ZZ_Match: m signatures pass exactly if they can be matched, in order, with m of the n keys.
func ZZ_Match() {
	top := 6
	if zz.Thorough() {
		top = 10
	}
	zz.Bound("n up to 6 keys (10 thorough), every m up to n+2, every relation of signatures and keys, every hash type, both forms of the instruction")
	n := zz.Choose("n", 0, top)
	m := zz.Choose("m", 0, n+2)
	verify := zz.Choose("verify", 0, 1) == 1
	valid := make([]bool, m*n)
	for i := range valid {
		valid[i] = zz.Bool("v")
	}
	ht := zz.Bytes("ht", m)
	vm := func() *xvm.Engine {
		e := xvm.NewEngine()
		e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{0xaa, t}, nil })
		e.SetSigVerifyFn(func(h, s, p []byte) error {
			zz.Assert(len(s) == 2 && len(p) == 2 && len(h) == 2, "whole items")
			i, j := int(s[1]), int(p[1])
			zz.Assert(i < m && j < n && s[0] == 0x30 && p[0] == 0x02, "a signature and a key of the script")
			zz.Assert(h[0] == 0xaa && h[1] == ht[i], "hash of the signature's hash type")
			if valid[i*n+j] {
				return nil
			}
			return errors.New("bad")
		})
		return e
	}
	prog := []byte{1, 0x77, xvm.OP_0}
	for i := 0; i < m; i++ {
		prog = vmref.Push(prog, []byte{0x30, byte(i), ht[i]})
	}
	prog = vmref.Push(prog, vmref.Encode(int64(m)))
	for j := 0; j < n; j++ {
		prog = vmref.Push(prog, []byte{0x02, byte(j)})
	}
	prog = vmref.Push(prog, vmref.Encode(int64(n)))
	if m > n {
		op := byte(xvm.OP_CHECKMULTISIG)
		if verify {
			op = xvm.OP_CHECKMULTISIGVERIFY
		}
		vmref.Check(vm, append(prog, op), nil, false)
		zz.Reach("more signatures than keys")
		return
	}
	// can[i][j]: the first i signatures can be matched with the first j keys
	can := make([][]bool, m+1)
	for i := range can {
		can[i] = make([]bool, n+1)
		for j := range can[i] {
			if i == 0 {
				can[i][j] = true
			} else if j > 0 {
				can[i][j] = zz.Or(can[i][j-1], zz.And(valid[(i-1)*n+j-1], can[i-1][j-1]))
			}
		}
	}
	good := can[m][n]
	if verify {
		prog = append(prog, xvm.OP_CHECKMULTISIGVERIFY)
		if good {
			vmref.Check(vm, prog, [][]byte{{0x77}}, true)
			zz.Reach("verified")
		} else {
			vmref.Check(vm, prog, nil, false)
			zz.Reach("not verified")
		}
		return
	}
	prog = append(prog, xvm.OP_CHECKMULTISIG)
	if good {
		vmref.Check(vm, prog, [][]byte{{0x77}, {1}}, true)
		zz.Reach("true")
	} else {
		vmref.Check(vm, prog, [][]byte{{0x77}, nil}, true)
		zz.Reach("false")
	}
}

// ZZ_Counts: counts out of range, items missing and missing signature functions are errors, never panics.
func ZZ_Counts() {
	top := 2
	if zz.Thorough() {
		top = 5
	}
	zz.Bound("every pair of counts of up to 2 bytes (5 thorough) over a stack of 4 items, empty signatures, missing signature functions")
	zz.AllocLimit(1 << 20)
	cm := zz.Bytes("m", zz.Choose("lm", 0, top))
	cn := zz.Bytes("n", zz.Choose("ln", 0, top))
	missing := zz.Choose("missing", 0, 2)
	empty := zz.Choose("empty", 0, 1) == 1
	var sig []byte
	if !empty {
		sig = []byte{0x30, 1}
	}
	e := xvm.NewEngine()
	if missing != 1 {
		e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{t}, nil })
	}
	if missing != 2 {
		e.SetSigVerifyFn(func(h, s, p []byte) error { return nil })
	}
	var prog []byte
	prog = append(prog, xvm.OP_0)
	prog = vmref.Push(prog, sig)
	prog = vmref.Push(prog, cm)
	prog = vmref.Push(prog, []byte{2, 2})
	prog = vmref.Push(prog, cn)
	prog = append(prog, xvm.OP_CHECKMULTISIG)
	err := e.Execute(prog)
	vn, okn := vmref.Number(cn)
	if missing != 0 || !okn || vn != 0 && vn != 1 && vn != 2 && vn != 3 {
		zz.Assert(err != nil, "bad key count or missing function")
		zz.Reach("refused")
		return
	}
	// vn counts keys down from {2,2}; what is below is taken for the signature count
	items := [][]byte{nil, sig, cm, {2, 2}}
	items = items[:len(items)-int(vn)]
	vm, okm := vmref.Number(items[len(items)-1])
	items = items[:len(items)-1]
	if !okm || vm < 0 || vm > vn || int(vm)+1 > len(items) {
		zz.Assert(err != nil, "bad signature count or too few items")
		zz.Reach("bad m")
		return
	}
	good := true
	for i := 0; i < int(vm); i++ {
		if len(items[len(items)-1-i]) == 0 {
			good = false
		}
	}
	zz.Assert((err == nil) == good, "verdict")
	zz.Reach("verdict")
}

// ZZ_Limits: up to twenty keys can be named, and not one more.
func ZZ_Limits() {
	zz.Bound("7-22 keys with 0, 1, or as many signatures as keys, each signature valid for one key or none")
	n := zz.Choose("n", 7, 22)
	m := []int{0, 1, n}[zz.Choose("m", 0, 2)]
	key := zz.Choose("key", 0, 1) * (n - 1) // the one key of a single signature
	bad := zz.U8("bad")                     // the signature that is valid for no key
	vm := func() *xvm.Engine {
		e := xvm.NewEngine()
		e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{0xaa, t}, nil })
		e.SetSigVerifyFn(func(h, s, p []byte) error {
			zz.Assert(len(s) == 2 && len(p) == 2, "whole items")
			zz.Assert(zz.And(h[0] == 0xaa, h[1] == 5), "hash of the signature's hash type")
			k := s[1]
			if m == 1 {
				k = byte(key)
			}
			if zz.And(k == p[1], s[1] != bad) {
				return nil
			}
			return errors.New("bad")
		})
		return e
	}
	prog := []byte{1, 0x77, xvm.OP_0}
	for i := 0; i < m; i++ {
		prog = vmref.Push(prog, []byte{0x30, byte(i), 5})
	}
	prog = vmref.Push(prog, vmref.Encode(int64(m)))
	for j := 0; j < n; j++ {
		prog = vmref.Push(prog, []byte{0x02, byte(j)})
	}
	prog = append(vmref.Push(prog, vmref.Encode(int64(n))), xvm.OP_CHECKMULTISIG)
	if n > 20 {
		vmref.Check(vm, prog, nil, false)
		zz.Reach("too many")
	} else if int(bad) >= m {
		vmref.Check(vm, prog, [][]byte{{0x77}, {1}}, true)
		zz.Reach("true")
	} else {
		vmref.Check(vm, prog, [][]byte{{0x77}, nil}, true)
		zz.Reach("false")
	}
}
