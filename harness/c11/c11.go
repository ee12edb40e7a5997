// Package c11 checks conditional execution.
package c11

import (
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/vmref"
)

func mk() *xvm.Engine { return xvm.NewEngine() }

// cond is the value of a condition: minimal, as empty or one.
func cond(b []byte) (v, ok bool) {
	if len(b) == 0 {
		return false, true
	}
	if len(b) > 1 || b[0] != 1 {
		return false, false
	}
	return true, true
}

// eval is the reference: it runs prog[i:] up to the end of the block, recursively.
type eval struct {
	ops   []byte
	marks []byte
	s     [][]byte
	i     int
}

// block runs instructions until ELSE, ENDIF or the end; live tells whether they are executed.
func (e *eval) block(live bool, nested bool) bool {
	for e.i < len(e.ops) {
		op := e.ops[e.i]
		switch op {
		case xvm.OP_ELSE, xvm.OP_ENDIF:
			return nested
		case xvm.OP_IF, xvm.OP_NOTIF:
			e.i++
			take := false
			if live {
				if len(e.s) == 0 {
					return false
				}
				v, ok := cond(e.s[len(e.s)-1])
				e.s = e.s[:len(e.s)-1]
				if !ok {
					return false
				}
				take = v == (op == xvm.OP_IF)
			}
			for {
				if !e.block(live && take, true) {
					return false
				}
				if e.i >= len(e.ops) {
					return false
				}
				end := e.ops[e.i] == xvm.OP_ENDIF
				e.i++
				if end {
					break
				}
				take = !take
			}
		default:
			if live {
				e.s = append(e.s, []byte{e.marks[e.i]})
			}
			e.i++
		}
	}
	return !nested
}

func run(n int, conds [][]byte, mark func(i int) byte) {
	toks := []byte{xvm.OP_IF, xvm.OP_NOTIF, xvm.OP_ELSE, xvm.OP_ENDIF, 0}
	var prog []byte
	e := &eval{}
	for _, c := range conds {
		prog = vmref.Push(prog, c)
		e.s = append(e.s, c)
	}
	for i := 0; i < n; i++ {
		op := toks[zz.Choose("tok", 0, 4)]
		e.ops = append(e.ops, op)
		e.marks = append(e.marks, mark(i))
		if op == 0 {
			prog = append(prog, 1, mark(i))
		} else {
			prog = append(prog, op)
		}
	}
	ok := e.block(true, false)
	vmref.Check(mk, prog, e.s, ok)
	zz.Reach("end")
}

// ZZ_Blocks: every arrangement of conditionals.
func ZZ_Blocks() {
	n := 6
	if zz.Thorough() {
		n = 8
	}
	zz.Bound("every sequence of 6 (8 thorough) of IF, NOTIF, ELSE, ENDIF and a push, over 3 symbolic one-byte conditions")
	b := zz.Bytes("c", 3)
	run(n, [][]byte{b[:1], b[1:2], b[2:]}, func(i int) byte { return byte(0x10 + i) })
}

// ZZ_Flags: conditions of every kind, pushed values used as conditions.
func ZZ_Flags() {
	n := 5
	if zz.Thorough() {
		n = 7
	}
	zz.Bound("every sequence of 5 (7 thorough) of IF, NOTIF, ELSE, ENDIF and a push of one, over one condition of 0..2 arbitrary bytes")
	run(n, [][]byte{zz.Bytes("c", zz.Choose("len", 0, 2))}, func(i int) byte { return 1 })
}

// ZZ_Across: a conditional does not reach from the unlocking script into the locking script.
func ZZ_Across() {
	zz.Bound("unlocking scripts of 2 pushes and up to 3 (4 thorough) of IF, NOTIF, ELSE, ENDIF, and a locking script that fails")
	toks := []byte{xvm.OP_IF, xvm.OP_NOTIF, xvm.OP_ELSE, xvm.OP_ENDIF}
	top := 3
	if zz.Thorough() {
		top = 4
	}
	b := zz.Bytes("c", 2)
	u := vmref.Push(vmref.Push(nil, b[:1]), b[1:])
	n := zz.Choose("n", 0, top)
	for i := 0; i < n; i++ {
		u = append(u, toks[zz.Choose("tok", 0, 3)])
	}
	zz.Assert(mk().Verify(u, []byte{xvm.OP_0}) != nil, "the locking script runs")
	zz.Assert(mk().Verify(u, []byte{xvm.OP_ENDIF, xvm.OP_1}) != nil, "the locking script can not close the block")
	zz.Reach("end")
}
