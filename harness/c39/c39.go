package c39

import (
	"github.com/keyfuse/tokucore/xcore"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

func fill(n int, c byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c + byte(i)
	}
	return b
}

var types = []byte{0x82, 0x03, 0x00}

// order is the way the groups are written down.
const (
	together = iota // every group has its coin and its destination
	coinsFirst
	destinationsFirst
	orders
)

type group struct {
	c    *coin
	ht   byte
	set  bool // the hash type is given
	keys []int
}

// plan is a transaction to build, and the transaction it should be but for signatures.
type plan struct {
	t      *txref.Tx
	groups []*group
}

func newPlan(second bool) *plan {
	p := &plan{t: &txref.Tx{Version: 1, LockTime: zz.U32("locktime")}}
	for k := 0; k < 2; k++ {
		lo := 0
		if k == 1 {
			if !second {
				break
			}
			lo = -1
		}
		kind := zz.Choose("kind", lo, kinds-1)
		if kind < 0 {
			break
		}
		c := newCoin(kind, 1+3*k)
		g := &group{c: c, keys: c.keys, ht: 1}
		if g.keys = c.keys[:c.need]; c.need == 2 && second {
			drop := zz.Choose("drop", 0, 2)
			g.keys = append(append([]int{}, c.keys[:drop]...), c.keys[drop+1:]...)
		}
		p.groups = append(p.groups, g)
		v := zz.U64("amount")
		zz.Assume(zz.And(v > 100000, v <= 1e14))
		p.t.In = append(p.t.In, txref.In{Hash: fill(32, byte(k)), Index: zz.U32("n"), Sequence: 0xffffffff, Value: v, Segwit: c.segwit})
	}
	return p
}

func (p *plan) chooseTypes() {
	for _, g := range p.groups {
		if n := zz.Choose("hashtype", -1, len(types)-1); n >= 0 {
			g.set, g.ht = true, types[n]
		}
	}
}

func (p *plan) coin(b *xcore.TransactionBuilder, k int, keys bool) {
	g, i := p.groups[k], p.t.In[k]
	b.AddCoin(xcore.NewCoinBuilder().AddOutput(hex(reverse(i.Hash)), i.Index, i.Value, hex(g.c.lock)).ToCoins()[0])
	if keys {
		b.AddKeys(prvs(g.keys)...)
	}
	if g.c.redeem != nil {
		b.SetRedeemScript(g.c.redeem)
	}
	if g.c.uncompressed {
		b.SetPubKeyUncompressed()
	}
	if g.set {
		b.SetSigHashType(xcore.SigHashType(g.ht))
	}
}

// builder is the plan written down; the group without has no keys. The destinations and the change are added to the model.
func (p *plan) builder(order, without int) *xcore.TransactionBuilder {
	b := xcore.NewTransactionBuilder()
	var rest uint64
	dest := func() {
		h := zz.Bytes("to", 20)
		v := zz.U64("value")
		zz.Assume(v <= 40000)
		rest -= v
		p.t.Out = append(p.t.Out, txref.Out{Value: v, Script: p2pkh(h)})
		b.To(xcore.NewPayToPubKeyHashAddress(h), v)
	}
	for _, i := range p.t.In {
		rest += i.Value
	}
	if order == destinationsFirst {
		dest()
		b.Then()
	}
	for k := range p.groups {
		if k > 0 {
			b.Then()
		}
		p.coin(b, k, k != without)
		if order == together {
			dest()
		}
	}
	if order == coinsFirst {
		b.Then()
		dest()
	}
	h := zz.Bytes("change", 20)
	p.t.Out = append(p.t.Out, txref.Out{Value: rest - 1000, Script: p2pkh(h)})
	b.SetChange(xcore.NewPayToPubKeyHashAddress(h))
	return b.SetLockTime(p.t.LockTime)
}

// byHand is the same transaction, its inputs signed one by one.
func (p *plan) byHand() *xcore.Transaction {
	tx := xcore.NewTransaction()
	tx.SetVersion(1)
	tx.SetLockTime(p.t.LockTime)
	for k, g := range p.groups {
		i := p.t.In[k]
		in, err := xcore.NewTxIn(i.Hash, i.Index, i.Value, g.c.lock, g.c.redeem)
		zz.Assert(err == nil, "a standard output can be spent")
		tx.AddInput(in)
	}
	for _, o := range p.t.Out {
		tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	for k, g := range p.groups {
		zz.Assert(tx.SignIndex(k, !g.c.uncompressed, xcore.SigHashType(g.ht), prvs(g.keys)...) == nil, "signing succeeds")
	}
	return tx
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k := range a {
		r = zz.And(r, zz.Eq(a[k], b[k]))
	}
	return r
}

func (p *plan) judge(b *xcore.TransactionBuilder) {
	tx, err := b.Sign().BuildTransaction()
	zz.Assert(err == nil, "a transaction with all its keys is signed")
	zz.Assert(tx.Verify() == nil, "the signed transaction verifies")
	zz.Assert(zz.Eq(tx.Serialize(), p.byHand().Serialize()), "every input is signed with its keys, key form and hash type")
	zz.Reach("signed")
}

// ZZ_Kinds: the builder signs coins of every kind, in one transaction.
func ZZ_Kinds() {
	ideal()
	zz.Bound("1-2 coins of every pair of kinds (P2PKH with either key form, P2SH and P2WSH 2-of-3 with any two keys, P2WPKH), coins with their destinations, before, or after; every lock time, index, destination, values up to 1e14")
	p := newPlan(true)
	p.judge(p.builder(zz.Choose("order", 0, orders-1), -1))
}

// ZZ_HashTypes: every group has its own hash type, by default all.
func ZZ_HashTypes() {
	ideal()
	zz.Bound("1-2 coins, every pair of kinds, each with the default hash type, or one of 0x82, 3, 0 given")
	p := newPlan(false)
	if k := zz.Choose("kind2", -1, kinds-1); k >= 0 {
		c := newCoin(k, 4)
		v := zz.U64("amount")
		zz.Assume(zz.And(v > 100000, v <= 1e14))
		p.groups = append(p.groups, &group{c: c, ht: 1, keys: c.keys[:c.need]})
		p.t.In = append(p.t.In, txref.In{Hash: fill(32, 1), Index: zz.U32("n"), Sequence: 0xffffffff, Value: v, Segwit: c.segwit})
	}
	p.chooseTypes()
	p.judge(p.builder(together, -1))
}

// ZZ_Unsigned: the transaction signed is the transaction shown without signing; a coin without keys is not signed for.
func ZZ_Unsigned() {
	ideal()
	zz.Bound("as ZZ_Kinds; the keys of one coin or none left out, built unsigned, then signed by the same builder")
	p := newPlan(true)
	without := zz.Choose("without", -1, len(p.groups)-1)
	b := p.builder(together, without)
	tx, err := b.BuildTransaction()
	zz.Assert(err == nil, "an unsigned transaction needs no keys")
	zz.Assert(zz.Eq(tx.SerializeNoWitness(), p.t.Base()), "the unsigned transaction is the one asked for")
	zz.Assert(tx.Verify() != nil, "an unsigned transaction does not verify")
	if without < 0 {
		p.judge(b)
		return
	}
	_, err = b.Sign().BuildTransaction()
	zz.Assert(err != nil, "a coin without keys is refused")
	zz.Reach("refused")
}
