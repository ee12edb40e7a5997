// Package c02 checks that verifying what others supply always ends in a verdict.
package c02

import (
	"errors"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

// ops are the instructions: pushes of every form and length class, and everything else that is implemented.
var ops = []byte{0x00, 0x01, 0x02, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x52,
	0x63, 0x64, 0x67, 0x68, 0x6a, 0x6e, 0x6f, 0x76, 0x75, 0x82, 0x7c, 0x87, 0x88, 0x93, 0xa9,
	0xac, 0xad, 0xae, 0xaf, 0xff}

// instr is any instruction; the data of a push may be cut off by the end of the script.
func instr(name string) []byte {
	op := ops[zz.Choose(name, 0, len(ops)-1)]
	switch op {
	case 0x01:
		return append([]byte{op}, zz.Bytes(name+" data", 1)...)
	case 0x02:
		return append([]byte{op}, zz.Bytes(name+" data", 2)...)
	case 0x4c:
		return append([]byte{op, 1}, zz.Bytes(name+" data", 1)...)
	case 0x4d:
		return []byte{op, 1}
	case 0x4e:
		return []byte{op, 1, 0, 0}
	}
	return []byte{op}
}

func ideal() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	zz.Assumption("RIPEMD-160 is a function without collisions (C31)")
	zz.AllocLimit(1 << 20)
}

func items(n int, name string) []byte {
	var s []byte
	for ; n > 0; n-- {
		s = append(append(s, 1), zz.Bytes(name, 1)...)
	}
	return s
}

func some(a ...int) int { return a[zz.Choose("items", 0, len(a)-1)] }

func vm(pass bool) *xvm.Engine {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(ht byte) ([]byte, error) {
		if ht == 0xff {
			return nil, errors.New("no such type")
		}
		return []byte{ht}, nil
	})
	e.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if pass {
			return nil
		}
		return errors.New("bad signature")
	})
	return e
}

// ZZ_Program: any two scripts get a verdict, the same one each time, on a used engine as on a new one and traced as untraced.
func ZZ_Program() {
	ideal()
	zz.Bound("unlocking scripts of 3 (0-4 thorough) arbitrary one-byte items, locking scripts of 0-2 instructions of 29 kinds with arbitrary data, either verdict on signatures")
	top := 2
	var unlock []byte
	if zz.Thorough() {
		unlock = items(some(0, 1, 2, 3, 4), "item")
	} else {
		unlock = items(3, "item")
	}
	var lock []byte
	for n := zz.Choose("instructions", 0, top); n > 0; n-- {
		lock = append(lock, instr("op")...)
	}
	u, l := append([]byte{}, unlock...), append([]byte{}, lock...)
	pass := zz.Bool("signatures pass")
	e := vm(pass)
	err := e.Verify(unlock, lock)
	zz.Assert((e.Verify(unlock, lock) == nil) == (err == nil), "the same verdict again")
	d := vm(pass)
	d.EnableDebug()
	zz.Assert((d.Verify(unlock, lock) == nil) == (err == nil), "the same verdict when traced")
	zz.Assert(zz.And(zz.Eq(unlock, u), zz.Eq(lock, l)), "the scripts are left alone")
	zz.Reach("verdict")
}

// ZZ_Early: what was left behind by an aborted script, items or open conditionals, does not reach the next verdict.
func ZZ_Early() {
	ideal()
	zz.Bound("every one of 29 instructions after 0 or 2 items and an optional open conditional, then a script of 0-1 items and one of 9 instructions")
	first := items(some(0, 2), "item")
	if zz.Choose("open", 0, 1) == 1 {
		first = append(first, 0x51, 0x63)
	}
	first = append(first, instr("op")...)
	second := items(zz.Choose("items2", 0, 1), "item2")
	lock := []byte{[]byte{0x51, 0x63, 0x67, 0x68, 0x75, 0x76, 0x82, 0x87, 0xae}[zz.Choose("op2", 0, 8)]}
	e := vm(true)
	e.Verify(first, nil)
	err := vm(true).Verify(second, lock)
	zz.Assert((e.Verify(second, lock) == nil) == (err == nil), "the verdict of a new engine")
	zz.Reach("verdict")
}

func p2pkh(h []byte) []byte { return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac) }

// locks of each kind, with a hash of something nobody knows.
func lock(kind int) []byte {
	h := make([]byte, 32)
	for i := range h {
		h[i] = byte(i + 1)
	}
	switch kind {
	case 0:
		return p2pkh(h[:20])
	case 1:
		return append(append([]byte{0xa9, 20}, h[:20]...), 0x87)
	case 2:
		return append([]byte{0, 20}, h[:20]...)
	case 3:
		return append([]byte{0, 32}, h...)
	}
	return zz.Bytes("lock", kind-4)
}

// ZZ_Transaction: whatever a received transaction carries, and whatever it is said to spend, it gets a verdict and can be
// shown and measured.
func ZZ_Transaction() {
	ideal()
	zz.Bound("one or two inputs, the last with an unlocking script (one of 29 instructions with arbitrary data, perhaps cut off, or 0-2 (3 thorough) arbitrary items of 0, 2 or 32 (0 or 1 where the last may be a script) bytes) or a witness of such items (for outputs of programs), spending each kind of output or an unknown one (0-1 bytes), with one of four redeem scripts (none, empty, true, broken)")
	kind := zz.Choose("kind", 0, 5)
	program := kind == 2 || kind == 3
	sizes := []int{0, 2, 32}
	if kind%2 == 1 {
		sizes = []int{0, 1} // the last of them is run as a script if it has the right hash
	}
	at := 0
	if kind == 0 || kind == 2 {
		at = zz.Choose("input", 0, 1)
	}
	var d []byte
	d = append(d, 1, 0, 0, 0, 0, 1, byte(at+1))
	for k := 0; k <= at; k++ {
		d = append(d, make([]byte, 36)...)
		var s []byte
		if k == at && kind < 2 {
			s = script(sizes)
		} else if k == at {
			s = make([]byte, zz.Choose("script length", 0, 1))
		}
		d = append(append(d, byte(len(s))), s...)
		d = append(d, 0xff, 0xff, 0xff, 0xff)
	}
	d = append(d, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0x51)
	for k := 0; k <= at; k++ {
		var w [][]byte
		if k == at && program {
			w = stack("witness", sizes...)
		} else if k == at {
			w = make([][]byte, zz.Choose("witness items", 0, 1))
		}
		d = append(d, byte(len(w)))
		for _, b := range w {
			d = append(append(d, byte(len(b))), b...)
		}
	}
	d = append(d, 0, 0, 0, 0)
	tx := xcore.NewTransaction()
	zz.Assert(tx.Deserialize(d) == nil, "a transaction with any scripts is read")
	zz.Assert(tx.Verify() != nil, "what spends an unknown output does not verify")
	var redeem []byte
	if kind%2 == 1 {
		redeem = [][]byte{nil, {}, {0x51}, {0x02, 0xac}}[zz.Choose("redeem", 0, 3)]
	}
	err := tx.SetTxIn(at, 7, lock(kind), redeem)
	ok := tx.Verify() == nil
	zz.Assert((tx.Verify() == nil) == ok, "the same verdict again")
	if err != nil || at > 0 {
		zz.Assert(!ok, "what spends an unknown output does not verify")
	}
	zz.Assert(tx.SetTxIn(at+1, 0, lock(0), nil) != nil, "there is no such input")
	zz.Assert(tx.SetTxIn(-1, 0, lock(0), nil) != nil, "there is no such input")
	tx.ToString()
	if n := len(tx.Serialize()); n > 2*len(d)+100 {
		zz.Assert(false, "what is sent on is no larger than what came")
	}
	tx.Vsize()
	tx.Fees()
	zz.Reach("verdict")
}

// stack is a few items of any content.
func stack(name string, sizes ...int) [][]byte {
	top := 2
	if zz.Thorough() {
		top = 3
	}
	var s [][]byte
	for n := zz.Choose(name+" items", 0, top); n > 0; n-- {
		s = append(s, zz.Bytes(name, sizes[zz.Choose(name+" size", 0, len(sizes)-1)]))
	}
	return s
}

func script(sizes []int) []byte {
	if zz.Choose("script", 0, 1) == 1 {
		s := instr("op")
		if len(sizes) < 3 && s[0] == 2 {
			return s[:2]
		}
		return s
	}
	var s []byte
	for _, b := range stack("item", sizes...) {
		s = append(append(s, byte(len(b))), b...)
	}
	return s
}

// ZZ_Show: a transaction that was decoded can be shown whatever it holds, and is not changed by that.
func ZZ_Show() {
	zz.Bound("0-2 inputs and outputs, one script of one of 29 instructions with arbitrary data, 0-2 witness items of 0-2 bytes")
	t := &txref.Tx{Version: zz.U32("version"), LockTime: zz.U32("locktime")}
	place := zz.Choose("place", 0, 3)
	script := func(here bool) []byte {
		if here {
			return instr("op")
		}
		return nil
	}
	ni, no := zz.Choose("inputs", 0, 2), zz.Choose("outputs", 0, 2)
	for i := 0; i < ni; i++ {
		in := txref.In{Hash: make([]byte, 32), Index: 7, Sequence: zz.U32("sequence"), Script: script(place == 1 && i == ni-1)}
		if i == ni-1 {
			for n := zz.Choose("witness", 0, 2); n > 0; n-- {
				in.Witness = append(in.Witness, zz.Bytes("item", n))
			}
		}
		t.In = append(t.In, in)
	}
	for i := 0; i < no; i++ {
		t.Out = append(t.Out, txref.Out{Value: uint64(1) << uint(40*i), Script: script(place == 2 && i == no-1)})
	}
	tx := xcore.NewTransaction()
	if tx.Deserialize(t.Wire()) != nil {
		zz.Reach("not decoded")
		return
	}
	before := tx.Serialize()
	zz.Assert(len(tx.ToString()) > 0, "shown")
	zz.Assert(zz.Eq(tx.Serialize(), before), "not changed")
	// with an input whose coin is known
	lock := script(place == 3)
	tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32), RawLockingScript: lock, FinalLockingScript: lock, RedeemScript: []byte{0x76, 1}})
	zz.Assert(len(tx.ToString()) > 0, "shown with its coins")
	zz.Reach("shown")
}
