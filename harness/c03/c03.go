// Package c03 checks the serialization of transactions.
package c03

import (
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

const hexd = "0123456789abcdef"

func id(h []byte) string {
	var s []byte
	for i := len(h) - 1; i >= 0; i-- {
		s = append(s, hexd[h[i]>>4], hexd[h[i]&15])
	}
	return string(s)
}

func make_(top int) *txref.Tx {
	ni, no := zz.Choose("inputs", 0, top), zz.Choose("outputs", 0, top)
	in, out := make([]int, ni), make([]int, no)
	for k := range in {
		in[k] = zz.Choose("scriptlen", 0, 1) * (k + 1)
	}
	for k := range out {
		out[k] = zz.Choose("oscriptlen", 0, 1) * (k + 1)
	}
	t := txref.Make(in, out)
	for k := range t.In {
		if zz.Choose("segwit", 0, 1) == 1 {
			t.In[k].Segwit = true
			t.In[k].Code = []byte{0x51}
			t.In[k].Script = nil
		}
		for j := zz.Choose("items", 0, 2); j > 0; j-- {
			t.In[k].Witness = append(t.In[k].Witness, zz.Bytes("item", 2-j))
		}
	}
	return t
}

// ZZ_Layout: the two serializations have the BIP144 layout and the ids are the reversed double hashes of them;
// the transaction id does not depend on the witnesses.
func ZZ_Layout() {
	top := 2
	if zz.Thorough() {
		top = 3
	}
	zz.Bound("0-2 inputs (3 thorough) with scripts of 0-3 bytes and 0-2 witness items of 0-1 bytes, 0-2 outputs (3) with scripts of 0-3 bytes, all fields symbolic")
	zz.Assumption("SHA-256 is uninterpreted and collision-free")
	t := make_(top)
	tx := t.Build()
	zz.Assert(zz.Eq(tx.SerializeNoWitness(), t.Base()), "serialization without witnesses")
	zz.Assert(zz.Eq(tx.Serialize(), t.Wire()), "serialization with witnesses")
	h := xcrypto.DoubleSha256(t.Base())
	zz.Assert(zz.Eq(tx.Hash(), h), "transaction hash is that of the serialization without witnesses")
	zz.Assert(zz.Eq(tx.WitnessHash(), xcrypto.DoubleSha256(t.Wire())), "witness hash")
	zz.Assert(tx.HasWitness() == t.HasWitness(), "HasWitness")
	zz.Reach("written")
}

// ZZ_ID: ids are the reversed lower case hexadecimal of the hashes.
func ZZ_ID() {
	zz.Bound("one input, one output, with and without a witness item")
	t := txref.Make([]int{1}, []int{1})
	if zz.Choose("witness", 0, 1) == 1 {
		t.In[0].Witness = [][]byte{zz.Bytes("item", 1)}
	}
	tx := t.Build()
	zz.Assert(zz.EqStr(tx.ID(), id(tx.Hash())), "transaction id")
	zz.Assert(zz.EqStr(tx.WitnessID(), id(tx.WitnessHash())), "witness id")
	zz.Reach("id")
}

// ZZ_Lengths: scripts and witness items of lengths around the forms of the length field.
func ZZ_Lengths() {
	zz.Bound("an input script, an output script or a witness item of 252, 253, 254, 255, 256, 257 or (thorough) 65535 and 65536 bytes; 253 inputs or outputs")
	top := 5
	if zz.Thorough() {
		top = 7
	}
	n := []int{252, 253, 254, 255, 256, 257, 65535, 65536}[zz.Choose("n", 0, top)]
	var t *txref.Tx
	switch zz.Choose("where", 0, 4) {
	case 0:
		t = txref.Make([]int{n}, []int{1})
	case 1:
		t = txref.Make([]int{0}, []int{n})
	case 2:
		t = txref.Make([]int{0}, []int{0})
		t.In[0].Witness = [][]byte{{}, zz.Bytes("item", n)}
	case 3:
		t = txref.Make([]int{0}, make([]int, 252+n%2))
	case 4:
		t = txref.Make([]int{0}, nil)
		for len(t.In) < 252+n%2 {
			t.In = append(t.In, t.In[0])
		}
		t.In[1].Witness = make([][]byte, 253)
	}
	tx := t.Build()
	zz.Assert(zz.Eq(tx.SerializeNoWitness(), t.Base()), "serialization without witnesses")
	zz.Assert(zz.Eq(tx.Serialize(), t.Wire()), "serialization with witnesses")
	var u, v xcore.Transaction
	zz.Assert(u.DeserializeNoWitness(t.Base()) == nil, "reads back without witnesses")
	zz.Assert(zz.Eq(u.SerializeNoWitness(), t.Base()), "same transaction without witnesses")
	if t.HasWitness() {
		zz.Assert(v.Deserialize(t.Wire()) == nil, "reads back with witnesses")
		zz.Assert(zz.Eq(v.Serialize(), t.Wire()), "same transaction with witnesses")
	}
	zz.Reach("written")
}

// ZZ_RoundTrip: both serializations read back, also into a transaction that held another one, and give the same
// transaction; every strict prefix is refused.
func ZZ_RoundTrip() {
	top := 2
	if zz.Thorough() {
		top = 3
	}
	zz.Bound("as ZZ_Layout; decoded into a fresh transaction or one that held two inputs and two outputs; every truncation")
	t := make_(top)
	tx := t.Build()
	re := xcore.NewTransaction()
	if zz.Choose("used", 0, 1) == 1 {
		o := txref.Make([]int{1, 0}, []int{0, 1})
		o.In[1].Witness = [][]byte{{1}, {2}}
		if zz.Choose("how", 0, 1) == 0 {
			re = o.Build()
		} else {
			re.Deserialize(o.Wire())
		}
	}
	if zz.Choose("form", 0, 1) == 0 {
		d := tx.SerializeNoWitness()
		zz.Assert(re.DeserializeNoWitness(d) == nil, "reads back without witnesses")
		zz.Assert(zz.Eq(re.SerializeNoWitness(), d), "same transaction without witnesses")
		zz.Assert(zz.Eq(re.Hash(), tx.Hash()), "same id")
		zz.Reach("plain")
		return
	}
	d := tx.Serialize()
	if !t.HasWitness() {
		return
	}
	zz.Assert(re.Deserialize(d) == nil, "reads back with witnesses")
	some := false
	for _, i := range t.In {
		some = some || len(i.Witness) > 0
	}
	if some {
		zz.Assert(zz.Eq(re.Serialize(), d), "same transaction with witnesses")
		zz.Assert(zz.Eq(re.WitnessHash(), tx.WitnessHash()), "same witness id")
	}
	zz.Assert(zz.Eq(re.SerializeNoWitness(), tx.SerializeNoWitness()), "same transaction without witnesses, from the witness form")
	zz.Assert(zz.Eq(re.Hash(), tx.Hash()), "same id from the witness form")
	zz.Reach("witness")
}

// ZZ_Truncated: every strict prefix of a serialization is refused.
func ZZ_Truncated() {
	zz.Bound("transactions of 0-1 inputs and 0-1 outputs, every truncation of both forms")
	t := make_(1)
	var re xcore.Transaction
	if zz.Choose("form", 0, 1) == 0 {
		d := t.Base()
		n := zz.Choose("cut", 0, len(d)-1)
		zz.Assert(re.DeserializeNoWitness(d[:n]) != nil, "truncated transaction refused")
		zz.Reach("plain")
		return
	}
	d := t.Full()
	n := zz.Choose("cut", 0, len(d)-1)
	zz.Assert(re.Deserialize(d[:n]) != nil, "truncated witness transaction refused")
	zz.Reach("witness")
}

type rd struct {
	b  []byte
	ok bool
}

func (r *rd) take(n int) []byte {
	if n < 0 || n > len(r.b) {
		r.ok = false
	}
	if !r.ok {
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func le(b []byte) uint64 {
	var v uint64
	for i, x := range b {
		v |= uint64(x) << uint(8*i)
	}
	return v
}

// count reads a number of things of at least min bytes each.
func (r *rd) count(min int) int {
	x := r.take(1)
	if !r.ok {
		return 0
	}
	v := uint64(x[0])
	switch {
	case x[0] == 0xfd:
		v = le(r.take(2))
	case x[0] == 0xfe:
		v = le(r.take(4))
	case x[0] == 0xff:
		v = le(r.take(8))
	}
	if !r.ok || v > uint64(len(r.b)/min) {
		r.ok = false
		return 0
	}
	return zz.Concrete(int(v))
}

func (r *rd) bytes() []byte { return r.take(r.count(1)) }

// parse is the reference parser; a count that the data cannot hold makes it fail.
func parse(d []byte, witness bool) (*txref.Tx, bool) {
	r := &rd{d, true}
	t := &txref.Tx{Version: uint32(le(r.take(4)))}
	if witness {
		m := r.take(2)
		if !r.ok || m[0] != 0 || m[1] != 1 {
			return nil, false
		}
	}
	for n := r.count(41); n > 0 && r.ok; n-- {
		t.In = append(t.In, txref.In{Hash: r.take(32), Index: uint32(le(r.take(4))), Script: r.bytes(), Sequence: uint32(le(r.take(4)))})
	}
	for n := r.count(9); n > 0 && r.ok; n-- {
		t.Out = append(t.Out, txref.Out{Value: le(r.take(8)), Script: r.bytes()})
	}
	if witness {
		for k := range t.In {
			for n := r.count(1); n > 0 && r.ok; n-- {
				t.In[k].Witness = append(t.In[k].Witness, r.bytes())
			}
		}
	}
	t.LockTime = uint32(le(r.take(4)))
	return t, r.ok
}

// ZZ_Decode: arbitrary bytes are accepted exactly if they hold a transaction, which is then the one decoded;
// nothing panics and the memory used is in proportion to the data.
func ZZ_Decode() {
	zz.Bound("every byte string of 0-12 bytes, of 20 bytes without inputs, and (with one input and one-byte counts) of 51 and 53 bytes, and (with one input without script and one output) of 64 bytes, in both forms; thorough: 0-13, 19-22 and 51-57 and 60-66 bytes")
	zz.AllocLimit(1 << 20)
	ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 51, 53, 64}
	if zz.Thorough() {
		ns = append(ns, 13, 19, 21, 22, 52, 54, 55, 56, 57, 60, 61, 62, 63, 65, 66)
	}
	n := ns[zz.Choose("n", 0, len(ns)-1)]
	d := zz.Bytes("d", n)
	witness := zz.Choose("form", 0, 1) == 1
	at := 4
	if witness {
		at = 6
	}
	if n > 59 {
		zz.Assume(d[at] == 1 && d[at+37] == 0 && d[at+42] == 1)
	} else if n > 50 {
		zz.Assume(d[at] == 1 && d[at+37] < 0xfd)
	} else if n > 13 {
		zz.Assume(d[at] == 0 && d[at+10] < 0xfd)
	}
	in := append([]byte{}, d...)
	var tx xcore.Transaction
	var err error
	if witness {
		err = tx.Deserialize(d)
	} else {
		err = tx.DeserializeNoWitness(d)
	}
	t, ok := parse(d, witness)
	zz.Assert((err == nil) == ok, "accepted exactly if it is a transaction")
	if !ok {
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.Eq(tx.SerializeNoWitness(), t.Base()), "the transaction in the data")
	zz.Assert(zz.Eq(tx.Serialize(), t.Wire()), "the transaction in the data, with witnesses")
	zz.Assert(zz.Eq(d, in), "data unchanged")
	zz.Reach("decoded")
}
