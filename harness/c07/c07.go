// Package c07 checks the transaction builder.
package c07

import (
	"github.com/keyfuse/tokucore/xcore"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

const hexd = "0123456789abcdef"

func hex(b []byte) string {
	var s []byte
	for _, c := range b {
		s = append(s, hexd[c>>4], hexd[c&15])
	}
	return string(s)
}

func fill(n int, c byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c + byte(i)
	}
	return b
}

func reverse(b []byte) []byte {
	var r []byte
	for i := len(b) - 1; i >= 0; i-- {
		r = append(r, b[i])
	}
	return r
}

func p2pkh(h []byte) []byte { return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac) }

// lock is a locking script of the given kind and the address for it.
func lock(kind int, h []byte) ([]byte, xcore.Address) {
	switch kind {
	case 0:
		return p2pkh(h[:20]), xcore.NewPayToPubKeyHashAddress(h[:20])
	case 1:
		return append(append([]byte{0xa9, 20}, h[:20]...), 0x87), xcore.NewPayToScriptHashAddress(h[:20])
	case 2:
		return append([]byte{0, 20}, h[:20]...), xcore.NewPayToWitnessV0PubKeyHashAddress(h[:20])
	}
	return append([]byte{0, 32}, h...), xcore.NewPayToWitnessV0ScriptHashAddress(h)
}

type plan struct {
	t            *txref.Tx
	b            *xcore.TransactionBuilder
	in, out      []uint64
	change       bool
	changeScript []byte
}

// start adds coins and destinations, in groups of one coin and one destination each.
func start(ni, no, kind int) *plan {
	p := &plan{t: &txref.Tx{Version: 1, LockTime: zz.U32("locktime")}, b: xcore.NewTransactionBuilder()}
	p.b.SetLockTime(p.t.LockTime)
	for k := 0; k < ni || k < no; k++ {
		if k > 0 {
			p.b.Then()
		}
		if k < ni {
			i := txref.In{Hash: fill(32, byte(k)), Index: zz.U32("n"), Sequence: 0xffffffff, Value: zz.U64("coin")}
			s, _ := lock([]int{0, 2}[(k+kind)%2], fill(32, byte(50+k)))
			i.Segwit = (k+kind)%2 == 1
			p.t.In = append(p.t.In, i)
			p.in = append(p.in, i.Value)
			p.b.AddCoin(xcore.NewCoinBuilder().AddOutput(hex(reverse(i.Hash)), i.Index, i.Value, hex(s)).ToCoins()[0])
		}
		if k < no {
			h := zz.Bytes("to", 32)
			s, a := lock((k+kind)%4, h)
			o := txref.Out{Value: zz.U64("value"), Script: s}
			p.t.Out = append(p.t.Out, o)
			p.out = append(p.out, o.Value)
			p.b.To(a, o.Value)
		}
	}
	if p.change = zz.Choose("change", 0, 1) == 1; p.change {
		var a xcore.Address
		p.changeScript, a = lock((kind+1)%4, zz.Bytes("changeto", 32))
		p.b.SetChange(a)
	}
	return p
}

func sum(v []uint64) int64 {
	var s int64
	for _, x := range v {
		s += int64(x)
	}
	return s
}

const most = 21e14

func sane(v []uint64) bool {
	r := true
	for _, x := range v {
		r = zz.And(r, x <= most)
	}
	return r
}

// judge compares the result with the plan, for the given fee.
func (p *plan) judge(tx *xcore.Transaction, err error, fee uint64, max int64, data [][]byte) {
	ok := zz.And(zz.And(sane(p.in), sane(p.out)), fee <= most)
	in, out := sum(p.in), sum(p.out)
	rest := in - out - int64(fee)
	if err != nil {
		ok = zz.And(ok, zz.And(in <= most, out <= most))
		ok = zz.And(ok, zz.And(int64(fee) <= max, rest >= 0))
		ok = zz.And(ok, zz.Or(p.change, rest == 0))
		zz.Assert(!ok, "a transaction that can be funded is built")
		zz.Reach("refused")
		return
	}
	zz.Assert(ok, "amounts and fee are possible amounts")
	zz.Assert(rest >= 0, "the coins cover the outputs and the fee")
	zz.Assert(int64(fee) <= max, "the fee is within the maximum")
	if rest > 0 {
		zz.Assert(p.change, "no change without a change address")
		p.t.Out = append(p.t.Out, txref.Out{Value: uint64(rest), Script: p.changeScript})
		zz.Reach("change")
	} else {
		zz.Reach("no change")
	}
	for _, d := range data {
		s := []byte{0x6a}
		if len(d) < 76 {
			s = append(s, byte(len(d)))
		} else {
			s = append(s, 0x4c, byte(len(d)))
		}
		p.t.Out = append(p.t.Out, txref.Out{Script: append(s, d...)})
	}
	zz.Assert(zz.Eq(tx.SerializeNoWitness(), p.t.Base()), "spends the coins, pays every destination, the change and the data, and nothing else")
	zz.Assert(tx.Fees() == int(fee), "what is not paid out is the fee")
}

// ZZ_SendFees: with a fixed fee.
func ZZ_SendFees() {
	top := 2
	if zz.Thorough() {
		top = 3
	}
	zz.Bound("1-2 coins (3 thorough) and 1-2 destinations (3) of all address types, every 64-bit amount and fee, with and without change address, default or any maximum fee")
	ni, no := zz.Choose("coins", 1, top), zz.Choose("destinations", 1, top)
	kinds := 0
	if ni == 1 && no == 1 {
		kinds = 3
	}
	p := start(ni, no, zz.Choose("kind", 0, kinds))
	fee := uint64(1000)
	max := int64(1e8)
	if zz.Choose("fee", 0, 1) == 1 {
		fee = zz.U64("fee")
		p.b.SendFees(fee)
	}
	if zz.Choose("max", 0, 1) == 1 {
		max = zz.I64("max")
		p.b.SetMaxFees(max)
	}
	tx, err := p.b.BuildTransaction()
	p.judge(tx, err, fee, max, nil)
}

// ZZ_RelayFee: with a fee rate; the fee is the rate times the estimated size.
func ZZ_RelayFee() {
	zz.Bound("1-2 coins, 1-2 destinations, every positive rate up to 2^40 satoshi per kB, every amount, 0-2 data pushes of 2 and 80 bytes")
	ni, no := zz.Choose("coins", 1, 2), zz.Choose("destinations", 1, 2)
	extra := 0
	if ni == 1 && no == 1 {
		extra = 1
	}
	p := start(ni, no, zz.Choose("kind", 0, extra))
	rate := zz.I64("rate")
	zz.Assume(rate > 0 && rate <= 1<<40)
	p.b.SetRelayFeePerKb(rate)
	max := int64(1e8)
	if zz.Choose("max", 0, 1) == 1 {
		max = zz.I64("max")
		p.b.SetMaxFees(max)
	}
	var data [][]byte
	size := int64(0)
	for _, l := range [][]int{nil, {2}, {80}, {2, 80}}[zz.Choose("data", 0, 3*extra)] {
		d := zz.Bytes("data", l)
		size += int64(len(d))
		data = append(data, d)
		p.b.AddPushData(d)
	}
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	for _, i := range p.t.In {
		in := &xcore.TxIn{Hash: i.Hash}
		if i.Segwit {
			in.WitnessScriptCode = []byte{1}
		}
		ins = append(ins, in)
	}
	for _, o := range p.t.Out {
		outs = append(outs, xcore.NewTxOut(o.Value, o.Script))
	}
	fee := xcore.EstimateFees(xcore.EstimateSize(ins, outs)+size, rate)
	zz.Assert(fee >= 0, "fee not negative")
	tx, err := p.b.BuildTransaction()
	p.judge(tx, err, uint64(fee), max, data)
}

// ZZ_Data: data pushes become zero-valued OP_RETURN outputs after the others.
func ZZ_Data() {
	zz.Bound("one coin, one destination, 1-2 pushes of 2-80 bytes")
	p := start(1, 1, 0)
	var data [][]byte
	for n := zz.Choose("pushes", 1, 2); n > 0; n-- {
		d := zz.Bytes("data", []int{2, 40, 75, 76, 80}[zz.Choose("len", 0, 4/n)])
		data = append(data, d)
		p.b.AddPushData(d)
	}
	tx, err := p.b.BuildTransaction()
	p.judge(tx, err, 1000, 1e8, data)
}

// ZZ_Missing: without a coin, without a destination, with an impossible address, or with a malformed coin
// there is an error, not a panic or a transaction.
func ZZ_Missing() {
	zz.Bound("each of the parts missing or malformed")
	good := hex(p2pkh(fill(20, 1)))
	txid := hex(fill(32, 7))
	_, to := lock(0, fill(32, 2))
	b := xcore.NewTransactionBuilder()
	coin := xcore.NewCoinBuilder().AddOutput(txid, 0, zz.U64("coin"), good).ToCoins()[0]
	v := zz.U64("value")
	b.SetChange(to)
	switch zz.Choose("case", 0, 9) {
	case 0:
	case 1:
		b.AddCoin(coin)
	case 2:
		b.To(to, v)
	case 3:
		b.AddCoin(coin).To(xcore.NewPayToPubKeyHashAddress(fill(19, 0)), v)
	case 4:
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(txid, 0, 5, "00").ToCoins()[0]).To(to, v)
	case 5:
		b.AddCoin(xcore.NewCoinBuilder().AddOutput("zz", 0, 5, good).ToCoins()[0]).To(to, v)
	case 6:
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(txid, 0, 5, good[1:]).ToCoins()[0]).To(to, v)
	case 7:
		zz.Assume(v <= most)
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(txid, 0, v+2000, good).ToCoins()[0]).To(to, v)
		b.SetChange(xcore.NewPayToPubKeyHashAddress(nil))
	case 8:
		zz.Assume(v <= most)
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(txid, 0, v+2000, good).ToCoins()[0]).To(to, v).Sign()
	case 9:
		ws, _ := lock(3, fill(32, 2))
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(txid, 0, 1<<40, hex(ws)).ToCoins()[0]).To(to, 5)
	}
	tx, err := b.BuildTransaction()
	zz.Assert(err != nil && tx == nil, "incomplete request refused")
	zz.Reach("refused")
}
