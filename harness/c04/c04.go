// Package c04 checks transaction sizes and estimates.
package c04

import (
	"github.com/keyfuse/tokucore/xcore"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

func check(t *txref.Tx) {
	tx := t.Build()
	base, total := len(t.Base()), len(t.Wire())
	zz.Assert(tx.BaseSize() == base, "base size is the length without witnesses")
	zz.Assert(tx.Size() == total, "size is the length with witnesses")
	zz.Assert(tx.WitnessSize() == total-base, "witness size is the difference")
	w := 3*base + total
	zz.Assert(tx.Weight() == w, "weight is 3 base + total")
	zz.Assert(tx.Vsize() == (w+3)/4, "virtual size is a quarter of the weight, rounded up")
	zz.Assert(len(tx.Serialize()) == tx.Size(), "size is the serialized length")
	zz.Assert(len(tx.SerializeNoWitness()) == tx.BaseSize(), "base size is the serialized length")
}

// ZZ_Sizes: sizes, weight and virtual size are those of the serializations (BIP141).
func ZZ_Sizes() {
	zz.Bound("0-3 inputs (4 thorough) and 0-3 outputs (4), signed, unsigned or witness inputs with 0-3 witness items, script and item lengths around every length-field form")
	top := 3
	if zz.Thorough() {
		top = 4
	}
	lens := []int{0, 1, 25, 107, 252, 253, 65535, 65536}
	n := lens[zz.Choose("n", 0, len(lens)-1)]
	ni, no := zz.Choose("inputs", 0, top), zz.Choose("outputs", 0, top)
	in, out := make([]int, ni), make([]int, no)
	if no > 0 {
		out[no-1] = n
	}
	t := txref.Make(in, out)
	for k := range t.In {
		switch zz.Choose("kind", 0, 3) {
		case 0: // unsigned
		case 1:
			t.In[k].Script = make([]byte, n+k)
		case 2: // unsigned witness
			t.In[k].Segwit, t.In[k].Code = true, []byte{1}
		case 3:
			t.In[k].Segwit, t.In[k].Code = true, []byte{1}
			t.In[k].Witness = [][]byte{make([]byte, n), {}, zz.Bytes("item", k)}
		}
	}
	check(t)
	zz.Reach("measured")
}

// ZZ_Many: numbers of inputs, outputs and witness items around 252.
func ZZ_Many() {
	zz.Bound("252-254 inputs, outputs or witness items, in every combination")
	many := func(name string) int { return []int{1, 252, 253, 254}[zz.Choose(name, 0, 3)] }
	t := txref.Make([]int{0}, []int{2})
	for n := many("inputs"); len(t.In) < n; {
		t.In = append(t.In, t.In[0])
	}
	for n := many("outputs"); len(t.Out) < n; {
		t.Out = append(t.Out, t.Out[0])
	}
	if zz.Choose("witness", 0, 1) == 1 {
		t.In[len(t.In)-1].Segwit, t.In[len(t.In)-1].Code = true, []byte{1}
		t.In[len(t.In)-1].Witness = make([][]byte, many("items"))
	}
	check(t)
	zz.Reach("measured")
}

// ZZ_Decoded: a decoded transaction measures as the data it came from.
func ZZ_Decoded() {
	zz.Bound("1-2 inputs with 0-2 witness items, 0-2 outputs, decoded from the witness form")
	ni, no := zz.Choose("inputs", 1, 2), zz.Choose("outputs", 0, 2)
	t := txref.Make(make([]int, ni), make([]int, no))
	for k := range t.In {
		t.In[k].Script = zz.Bytes("script", zz.Choose("script", 0, 2))
		for j := zz.Choose("items", 0, 2); j > 0; j-- {
			t.In[k].Witness = append(t.In[k].Witness, zz.Bytes("item", j))
		}
	}
	var tx xcore.Transaction
	zz.Assert(tx.Deserialize(t.Full()) == nil, "decodes")
	zz.Assert(tx.BaseSize() == len(t.Base()), "base size of a decoded transaction")
	zz.Assert(tx.Size() == len(t.Wire()), "size of a decoded transaction")
	zz.Assert(tx.Vsize() == (3*len(t.Base())+len(t.Wire())+3)/4, "virtual size of a decoded transaction")
	zz.Reach("measured")
}

// ZZ_Fees: Fees is what the inputs carry more than the outputs.
func ZZ_Fees() {
	zz.Bound("0-3 inputs and outputs, every amount up to 21 million bitcoins")
	ni, no := zz.Choose("inputs", 0, 3), zz.Choose("outputs", 0, 3)
	t := txref.Make(make([]int, ni), make([]int, no))
	var sum int64
	for k := range t.In {
		t.In[k].Value = zz.U64("amount")
		zz.Assume(t.In[k].Value <= 21e14)
		sum += int64(t.In[k].Value)
	}
	for k := range t.Out {
		zz.Assume(t.Out[k].Value <= 21e14)
		sum -= int64(t.Out[k].Value)
	}
	zz.Assert(t.Build().Fees() == int(sum), "inputs minus outputs")
	zz.Reach("measured")
}

// ZZ_EstimateFees: the fee is the size at the rate, rounded down, never negative and never less for a larger size.
func ZZ_EstimateFees() {
	zz.Bound("12 sizes from 0 to 2^62 and every rate (64-bit)")
	sizes := []int64{0, 1, 2, 192, 374, 999, 1000, 1001, 100000, 1 << 20, 1 << 40, 1 << 62}
	size := sizes[zz.Choose("size", 0, len(sizes)-1)]
	rate := zz.I64("rate")
	fee := xcore.EstimateFees(size, rate)
	zz.Assert(fee >= 0, "a fee is not negative")
	if rate <= 0 || size == 0 {
		zz.Assert(fee == 0, "no rate, no fee")
		zz.Reach("none")
		return
	}
	if size > 1<<20 || rate > 1<<40 {
		zz.Assert(fee >= rate/1000 || fee >= 1<<30*size, "a huge rate or size does not give a small fee")
		zz.Reach("huge")
		return
	}
	zz.Assert(fee == rate*size/1000, "size times rate, rounded down")
	zz.Reach("fee")
}

// ZZ_Estimate: the estimated size is not below the size of the signed transaction when all inputs are
// pay-to-pubkey-hash and there are no more outputs than inputs.
func ZZ_Estimate() {
	zz.Bound("1-4 pay-to-pubkey-hash inputs with the longest signatures, 1-4 outputs of up to 34 script bytes, not more outputs than inputs")
	ni := zz.Choose("inputs", 1, 4)
	no := zz.Choose("outputs", 1, ni)
	n := []int{22, 23, 25, 34}[zz.Choose("script", 0, 3)]
	t := txref.Make(make([]int, ni), make([]int, no))
	for k := range t.In {
		t.In[k].Script = make([]byte, 1+72+1+33)
	}
	for k := range t.Out {
		t.Out[k].Script = make([]byte, n)
	}
	estimate(t)
	zz.Assert(xcore.EstimateNormalSize(ni, no) >= int64(148*ni+34*no+10), "normal estimate covers the transaction")
	zz.Reach("estimated")
}

func estimate(t *txref.Tx) {
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	for _, i := range t.In {
		in := &xcore.TxIn{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence}
		if i.Segwit {
			in.WitnessScriptCode = []byte{1}
		}
		ins = append(ins, in)
	}
	for _, o := range t.Out {
		outs = append(outs, xcore.NewTxOut(o.Value, o.Script))
	}
	real := (3*len(t.Base()) + len(t.Wire()) + 3) / 4
	zz.Assert(xcore.EstimateSize(ins, outs) >= int64(real), "the estimate covers the signed transaction")
}

// ZZ_EstimateOutputs: as ZZ_Estimate, with more outputs than inputs.
func ZZ_EstimateOutputs() {
	zz.Bound("1-2 pay-to-pubkey-hash inputs with the longest signatures, one output more than inputs")
	ni := zz.Choose("inputs", 1, 2)
	t := txref.Make(make([]int, ni), make([]int, ni+1))
	for k := range t.In {
		t.In[k].Script = make([]byte, 1+72+1+33)
	}
	for k := range t.Out {
		t.Out[k].Script = make([]byte, 25)
	}
	zz.Reach("estimating")
	estimate(t)
}

// ZZ_EstimateWitness: as ZZ_Estimate, for pay-to-witness-pubkey-hash inputs.
func ZZ_EstimateWitness() {
	zz.Bound("1-2 pay-to-witness-pubkey-hash inputs with the longest signatures, one output")
	ni := zz.Choose("inputs", 1, 2)
	t := txref.Make(make([]int, ni), []int{25})
	for k := range t.In {
		t.In[k].Segwit = true
		t.In[k].Witness = [][]byte{make([]byte, 72), make([]byte, 33)}
	}
	zz.Reach("estimating")
	estimate(t)
}
