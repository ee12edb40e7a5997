// Package c06 checks the original (pre-segwit) signature hash.
package c06

import (
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

func hash(t *txref.Tx, n int, ht uint32) []byte {
	p := t.Legacy(n, ht)
	if p == nil {
		one := make([]byte, 32)
		one[0] = 1
		return one
	}
	return xcrypto.DoubleSha256(p)
}

func make_(code, top int) (*txref.Tx, int) {
	if zz.Thorough() {
		top++
	}
	ni, no := zz.Choose("inputs", 1, top), zz.Choose("outputs", 0, top)
	n := zz.Choose("input", 0, ni-1)
	in, out := make([]int, ni), make([]int, no)
	for k := range in {
		in[k] = k
	}
	for k := range out {
		out[k] = (k + 1) % 3
	}
	t := txref.Make(in, out)
	for k := range t.In {
		t.In[k].Value = zz.U64("amount")
		t.In[k].Code = p2pkh(zz.Bytes("code", 20))
		if code > 0 && k == n {
			t.In[k].Code = zz.Bytes("redeem", code-1+k)
		}
	}
	return t, n
}

func p2pkh(h []byte) []byte {
	b := append([]byte{0x76, 0xa9, 20}, h...)
	return append(b, 0x88, 0xac)
}

func build(t *txref.Tx, n int, redeem bool) *xcore.Transaction {
	tx := xcore.NewTransaction()
	tx.SetVersion(t.Version)
	tx.SetLockTime(t.LockTime)
	for k, i := range t.In {
		in := &xcore.TxIn{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence, Value: i.Value, RawUnlockingScript: i.Script}
		if redeem && k == n {
			in.RedeemScript = i.Code
			in.FinalLockingScript = append(append([]byte{0xa9, 20}, i.Hash[:20]...), 0x87)
		} else {
			in.FinalLockingScript = i.Code
		}
		tx.AddInput(in)
	}
	for _, o := range t.Out {
		tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return tx
}

// ZZ_Preimage: the hash is the double SHA-256 of the modified transaction copy, for every hash type.
func ZZ_Preimage() {
	zz.Bound("1-3 inputs (4 thorough), 0-3 outputs (4), every input signed, pay-to-pubkey-hash scripts and redeem scripts of 0-2 and 252-254 bytes, all fields and the 32-bit hash type symbolic")
	zz.Assumption("SHA-256 is uninterpreted and collision-free")
	c := []int{0, 1, 253}[zz.Choose("code", 0, 2)]
	t, n := make_(c, 3)
	ht := zz.U32("hashtype")
	real := build(t, n, c > 0)
	before := real.Serialize()
	want := hash(t, n, ht)
	zz.Assert(zz.Eq(real.RawSignatureHash(n, xcore.SigHashType(ht)), want), "signature hash")
	zz.Assert(zz.Eq(real.RawSignatureHash(n, xcore.SigHashType(ht)), want), "same hash again")
	zz.Assert(zz.Eq(real.Serialize(), before), "transaction unchanged")
	zz.Reach("hashed")
}

// ZZ_Sequence: requests do not influence each other.
func ZZ_Sequence() {
	zz.Bound("1-2 inputs and 0-2 outputs (3 thorough); two requests, any two inputs and hash types, an input or an output added between them")
	t, n := make_(0, 2)
	real := build(t, n, false)
	h1, h2 := zz.U8("hashtype1"), zz.U8("hashtype2")
	real.RawSignatureHash(n, xcore.SigHashType(h1))
	switch zz.Choose("change", 0, 2) {
	case 1:
		o := txref.Out{Value: zz.U64("newvalue"), Script: zz.Bytes("newscript", 2)}
		t.Out = append(t.Out, o)
		real.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	case 2:
		i := txref.In{Hash: zz.Bytes("newhash", 32), Index: zz.U32("newindex"), Sequence: zz.U32("newsequence"), Code: p2pkh(zz.Bytes("newcode", 20))}
		t.In = append(t.In, i)
		real.AddInput(&xcore.TxIn{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence, FinalLockingScript: i.Code})
	}
	m := zz.Choose("input2", 0, len(t.In)-1)
	zz.Assert(zz.Eq(real.RawSignatureHash(m, xcore.SigHashType(h2)), hash(t, m, uint32(h2))), "signature hash after another request")
	zz.Reach("hashed")
}

// ZZ_ScriptCode: no instruction is left out of the script code, even if its data looks like OP_CODESEPARATOR.
// (Scripts with OP_CODESEPARATOR itself are not implemented by the script engine: nothing can be signed for them.)
func ZZ_ScriptCode() {
	zz.Bound("scripts of up to 3 instructions (4 thorough), each a push of any byte, OP_PUSHDATA1 of any byte, or OP_1")
	top := 3
	if zz.Thorough() {
		top = 4
	}
	t := txref.Make([]int{0}, []int{1})
	var script, code []byte
	for i := zz.Choose("n", 0, top); i > 0; i-- {
		switch zz.Choose("kind", 0, 2) {
		case 0:
			d := zz.U8("data")
			script = append(script, 0x4c, 1, d)
			code = append(code, 0x4c, 1, d)
		case 1:
			d := zz.U8("data")
			script = append(script, 1, d)
			code = append(code, 1, d)
		case 2:
			script = append(script, 0x51)
			code = append(code, 0x51)
		}
	}
	t.In[0].Code = script
	real := build(t, 0, false)
	kept := append([]byte{}, script...)
	t.In[0].Code = code
	zz.Assert(zz.Eq(real.RawSignatureHash(0, xcore.SigHashAll), hash(t, 0, 1)), "signature hash of the whole script")
	zz.Assert(zz.Eq(script, kept), "script unchanged")
	zz.Reach("hashed")
}
