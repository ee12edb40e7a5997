// Package c13 checks who can spend an output.
package c13

import (
	"errors"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
)

func ideal() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.EcdsaSign")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.EcdsaVerify")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	zz.Assumption("hashes are collision-free; a signature verifies exactly for the key and the hash it was made with")
}

type machine struct {
	accepted [][]byte // keys for which the verifier accepted
	verdict  bool
}

func (m *machine) engine() *xvm.Engine {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{t}, nil })
	e.SetSigVerifyFn(func(h, s, p []byte) error {
		if m.verdict {
			m.accepted = append(m.accepted, append([]byte{}, p...))
			return nil
		}
		return errors.New("bad")
	})
	return e
}

func (m *machine) by(f func(p []byte) bool) bool {
	r := false
	for _, p := range m.accepted {
		r = zz.Or(r, f(p))
	}
	return r
}

// items is an unlocking script of up to n instructions, each a push of one byte or any one-byte instruction.
func items(n int) []byte {
	var r []byte
	for k := zz.Choose("items", 0, n); k > 0; k-- {
		b := zz.U8("byte")
		if zz.Choose("push", 0, 1) == 1 {
			r = append(r, 1, b)
		} else {
			zz.Assume(zz.Or(b == 0, b >= 0x4f))
			r = append(r, b)
		}
	}
	return r
}

func pkh1(u []byte) {
	m := &machine{verdict: zz.Bool("verdict")}
	hash := zz.Bytes("hash", 20)
	lock := append(append([]byte{0x76, 0xa9, 20}, hash...), 0x88, 0xac)
	unlock := append([]byte{}, u...)
	l := append([]byte{}, lock...)
	err := m.engine().Verify(unlock, lock)
	zz.Assert(zz.And(zz.Eq(u, unlock), zz.Eq(l, lock)), "the scripts are not changed")
	if err != nil {
		zz.Reach("refused")
		return
	}
	zz.Assert(m.verdict, "unlocked without an accepted signature")
	zz.Assert(m.by(func(p []byte) bool { return zz.Eq(xcrypto.Hash160(p), hash) }), "unlocked by a signature of another key")
	zz.Reach("unlocked")
}

// ZZ_ScriptPKH: whatever the unlocking script, a pay-to-pubkey-hash output is only unlocked by a signature that
// the verifier accepts for a key with that hash.
func ZZ_ScriptPKH() {
	ideal()
	top := 2
	if zz.Thorough() {
		top = 3
	}
	zz.Bound("every unlocking script of up to 2 bytes (3 thorough), every verdict of the verifier")
	pkh1(zz.Bytes("unlock", zz.Choose("n", 0, top)))
}

// ZZ_ScriptPKHItems: as ZZ_ScriptPKH, for longer scripts.
func ZZ_ScriptPKHItems() {
	ideal()
	top := 3
	if zz.Thorough() {
		top = 4
	}
	zz.Bound("every unlocking script of up to 3 instructions (4 thorough), each a push of any byte or any one-byte instruction")
	pkh1(items(top))
}

func shash(u []byte) {
	m := &machine{verdict: zz.Bool("verdict")}
	redeem := []byte{1, 0x42, 0xac}
	lock := append(append([]byte{0xa9, 20}, xcrypto.Hash160(redeem)...), 0x87)
	unlock := append([]byte{}, u...)
	if m.engine().Verify(unlock, lock) != nil {
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.Eq(u, unlock), "the script is not changed")
	zz.Assert(m.verdict, "unlocked without an accepted signature")
	zz.Assert(m.by(func(p []byte) bool { return zz.Eq(p, []byte{0x42}) }), "unlocked by a signature of another key")
	zz.Reach("unlocked")
}

// ZZ_ScriptSH: whatever the unlocking script, an output that pays to the hash of <key> OP_CHECKSIG is only unlocked by a
// signature the verifier accepts for that key.
func ZZ_ScriptSH() {
	ideal()
	top := 1
	if zz.Thorough() {
		top = 2
	}
	zz.Bound("unlocking scripts of up to 1 instruction (2 thorough), a push of any 3 bytes by any push form, and up to 1 instruction; redeem script <1-byte key> OP_CHECKSIG, every verdict of the verifier")
	u := items(top)
	switch zz.Choose("form", 0, 2) {
	case 0:
		u = append(u, 3)
	case 1:
		u = append(u, 0x4c, 3)
	case 2:
		u = append(u, 0x4d, 3, 0)
	}
	u = append(u, zz.Bytes("redeem", 3)...)
	shash(append(u, items(1)...))
}

// ZZ_ScriptSHAny: as ZZ_ScriptSH, for arbitrary bytes.
func ZZ_ScriptSHAny() {
	ideal()
	top := 2
	if zz.Thorough() {
		top = 3
	}
	zz.Bound("every unlocking script of up to 2 bytes (3 thorough), and any byte before a push of the redeem script")
	u := zz.Bytes("unlock", zz.Choose("n", 0, top))
	if len(u) > 0 && zz.Choose("redeem", 0, 1) == 1 {
		u = append(u[:len(u)-1], 3, 1, 0x42, 0xac)
	}
	shash(u)
}

// ZZ_ScriptSHRest: an output that pays to the hash of a script runs that script on what the unlocking script left under it.
func ZZ_ScriptSHRest() {
	ideal()
	zz.Bound("0-2 pushes of any byte before the redeem script, which is one or two small numbers, a number after OP_DROP, OP_DUP, or OP_2DUP OP_EQUAL")
	var u []byte
	n := zz.Choose("items", 0, 2)
	var items []byte
	for k := 0; k < n; k++ {
		b := zz.U8("byte")
		items = append(items, b)
		u = append(u, 1, b)
	}
	small := func() byte {
		b := zz.U8("number")
		zz.Assume(zz.Or(b == 0, zz.And(b >= 0x51, b <= 0x60)))
		return b
	}
	var redeem []byte
	good := true
	switch zz.Choose("redeem", 0, 4) {
	case 0:
		b := small()
		redeem, good = []byte{b}, b != 0
	case 1:
		b := small()
		redeem, good = []byte{0x51, b}, b != 0
	case 2:
		redeem, good = []byte{0x76}, n > 0
		if n > 0 {
			good = zz.And(items[n-1] != 0, items[n-1] != 0x80)
		}
	case 3:
		b := small()
		redeem, good = []byte{0x75, b}, zz.And(n > 0, b != 0)
	case 4:
		redeem, good = []byte{0x6e, 0x87}, n == 2
		if n == 2 {
			good = items[0] == items[1]
		}
	}
	lock := append(append([]byte{0xa9, 20}, xcrypto.Hash160(redeem)...), 0x87)
	u = append(append(u, byte(len(redeem))), redeem...)
	m := &machine{}
	zz.Assert((m.engine().Verify(u, lock) == nil) == good, "the redeem script is run on what is under it")
	zz.Reach("run")
}
