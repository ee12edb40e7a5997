// Package c05 checks the BIP143 signature hash.
package c05

import (
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

func tx(code, top int) (*txref.Tx, int) {
	if zz.Thorough() {
		top++
	}
	ni, no := zz.Choose("inputs", 1, top), zz.Choose("outputs", 0, top)
	n := zz.Choose("input", 0, ni-1)
	in, out := make([]int, ni), make([]int, no)
	for k := range in {
		in[k] = k
	}
	for k := range out {
		out[k] = (k + 1) % 3
	}
	t := txref.Make(in, out)
	for k := range t.In {
		t.In[k].Segwit = true
		t.In[k].Value = zz.U64("amount")
		t.In[k].Code = zz.Bytes("code", code+k)
	}
	return t, n
}

// ZZ_Preimage: the hash is the double SHA-256 of the BIP143 preimage, for every hash type, and nothing in the transaction changes.
func ZZ_Preimage() {
	zz.Bound("1-3 inputs (4 thorough), 0-3 outputs (4), every input signed, script codes of 0-3, 25-28 and 252-255 bytes, all fields and the 32-bit hash type symbolic")
	zz.Assumption("SHA-256 is uninterpreted and collision-free")
	t, n := tx([]int{0, 25, 252}[zz.Choose("code", 0, 2)], 3)
	ht := zz.U32("hashtype")
	real := t.Build()
	before := real.Serialize()
	want := xcrypto.DoubleSha256(t.BIP143(n, ht, xcrypto.DoubleSha256))
	zz.Assert(zz.Eq(real.WitnessV0SignatureHash(n, xcore.SigHashType(ht)), want), "BIP143 hash")
	zz.Assert(zz.Eq(real.WitnessV0SignatureHash(n, xcore.SigHashType(ht)), want), "same hash again")
	zz.Assert(zz.Eq(real.Serialize(), before), "transaction unchanged")
	zz.Reach("hashed")
}

// ZZ_Sequence: hashes asked for one after the other, with different inputs and hash types and changes to the
// transaction between them, do not influence each other.
func ZZ_Sequence() {
	zz.Bound("1-2 inputs and 0-2 outputs (3 thorough); two requests, any two inputs and hash types, an input or an output added between them")
	t, n := tx(1, 2)
	real := t.Build()
	h1, h2 := zz.U8("hashtype1"), zz.U8("hashtype2")
	real.WitnessV0SignatureHash(n, xcore.SigHashType(h1))
	switch zz.Choose("change", 0, 3) {
	case 1:
		o := txref.Out{Value: zz.U64("newvalue"), Script: zz.Bytes("newscript", 2)}
		t.Out = append(t.Out, o)
		real.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	case 2:
		i := txref.In{Hash: zz.Bytes("newhash", 32), Index: zz.U32("newindex"), Sequence: zz.U32("newsequence"), Code: []byte{1}, Segwit: true}
		t.In = append(t.In, i)
		real.AddInput(&xcore.TxIn{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence, WitnessScriptCode: i.Code})
	case 3:
		t.LockTime, t.Version = zz.U32("newlock"), zz.U32("newversion")
		real.SetLockTime(t.LockTime)
		real.SetVersion(t.Version)
	}
	m := zz.Choose("input2", 0, len(t.In)-1)
	want := xcrypto.DoubleSha256(t.BIP143(m, uint32(h2), xcrypto.DoubleSha256))
	zz.Assert(zz.Eq(real.WitnessV0SignatureHash(m, xcore.SigHashType(h2)), want), "BIP143 hash after another request")
	zz.Reach("hashed")
}

// ZZ_Shared: hashes of two transactions that share their inputs are those of each transaction.
func ZZ_Shared() {
	zz.Bound("two transactions sharing two input objects, with different outputs, locktimes and hash types")
	t := txref.Make([]int{0, 0}, []int{1})
	for k := range t.In {
		t.In[k].Segwit, t.In[k].Value, t.In[k].Code = true, zz.U64("amount"), zz.Bytes("code", 2)
	}
	u := *t
	u.Out = []txref.Out{{Value: zz.U64("value2"), Script: zz.Bytes("oscript2", 2)}}
	u.LockTime = zz.U32("locktime2")
	a, b := xcore.NewTransaction(), xcore.NewTransaction()
	a.SetVersion(t.Version)
	b.SetVersion(t.Version)
	a.SetLockTime(t.LockTime)
	b.SetLockTime(u.LockTime)
	for _, i := range t.In {
		in := &xcore.TxIn{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence, Value: i.Value, WitnessScriptCode: i.Code}
		a.AddInput(in)
		b.AddInput(in)
	}
	a.AddOutput(xcore.NewTxOut(t.Out[0].Value, t.Out[0].Script))
	b.AddOutput(xcore.NewTxOut(u.Out[0].Value, u.Out[0].Script))
	h1, h2 := zz.U8("hashtype1"), zz.U8("hashtype2")
	n, m := zz.Choose("input", 0, 1), zz.Choose("input2", 0, 1)
	w1 := xcrypto.DoubleSha256(t.BIP143(n, uint32(h1), xcrypto.DoubleSha256))
	w2 := xcrypto.DoubleSha256(u.BIP143(m, uint32(h2), xcrypto.DoubleSha256))
	zz.Assert(zz.Eq(a.WitnessV0SignatureHash(n, xcore.SigHashType(h1)), w1), "first transaction")
	zz.Assert(zz.Eq(b.WitnessV0SignatureHash(m, xcore.SigHashType(h2)), w2), "second transaction")
	zz.Assert(zz.Eq(a.WitnessV0SignatureHash(n, xcore.SigHashType(h1)), w1), "first transaction again")
	zz.Reach("hashed")
}
