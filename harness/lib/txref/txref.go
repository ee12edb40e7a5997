// Package txref is a reference model of transactions: layout and signature hash preimages.
package txref

import (
	"github.com/keyfuse/tokucore/xcore"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// In is an input.
type In struct {
	Hash     []byte
	Index    uint32
	Sequence uint32
	Script   []byte // scriptSig on the wire
	Witness  [][]byte

	Value  uint64 // of the output spent
	Code   []byte // script code of the signature hash
	Segwit bool
}

// Out is an output.
type Out struct {
	Value  uint64
	Script []byte
}

// Tx is a transaction.
type Tx struct {
	Version, LockTime uint32
	In                []In
	Out               []Out
}

func LE32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func LE64(b []byte, v uint64) []byte {
	return LE32(LE32(b, uint32(v)), uint32(v>>32))
}

// Var is a variable-length integer.
func Var(b []byte, n int) []byte {
	switch {
	case n < 0xfd:
		return append(b, byte(n))
	case n <= 0xffff:
		return append(b, 0xfd, byte(n), byte(n>>8))
	}
	return LE32(append(b, 0xfe), uint32(n))
}

// VarBytes is a length followed by the bytes.
func VarBytes(b, s []byte) []byte { return append(Var(b, len(s)), s...) }

// HasWitness tells whether the transaction is written with its witnesses.
func (t *Tx) HasWitness() bool {
	for _, i := range t.In {
		if i.Segwit || len(i.Witness) > 0 {
			return true
		}
	}
	return false
}

func (t *Tx) body(b []byte) []byte {
	b = Var(b, len(t.In))
	for _, i := range t.In {
		b = append(b, i.Hash...)
		b = LE32(b, i.Index)
		b = VarBytes(b, i.Script)
		b = LE32(b, i.Sequence)
	}
	b = Var(b, len(t.Out))
	for _, o := range t.Out {
		b = LE64(b, o.Value)
		b = VarBytes(b, o.Script)
	}
	return b
}

// Base is the serialization without witnesses.
func (t *Tx) Base() []byte {
	return LE32(t.body(LE32(nil, t.Version)), t.LockTime)
}

// Wire is the BIP144 serialization.
func (t *Tx) Wire() []byte {
	if !t.HasWitness() {
		return t.Base()
	}
	return t.Full()
}

// Full is the serialization with marker, flag and witnesses, whether or not there is one.
func (t *Tx) Full() []byte {
	b := append(LE32(nil, t.Version), 0, 1)
	b = t.body(b)
	for _, i := range t.In {
		b = Var(b, len(i.Witness))
		for _, w := range i.Witness {
			b = VarBytes(b, w)
		}
	}
	return LE32(b, t.LockTime)
}

// Build is the real transaction.
func (t *Tx) Build() *xcore.Transaction {
	tx := xcore.NewTransaction()
	tx.SetVersion(t.Version)
	tx.SetLockTime(t.LockTime)
	for _, i := range t.In {
		in := &xcore.TxIn{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence, Value: i.Value,
			RawUnlockingScript: i.Script, Witness: i.Witness}
		if i.Segwit {
			in.WitnessScriptCode = i.Code
		} else {
			in.FinalLockingScript = i.Code
		}
		tx.AddInput(in)
	}
	for _, o := range t.Out {
		tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return tx
}

// Make is a transaction with symbolic fields and scripts of the given lengths.
func Make(in, out []int) *Tx {
	t := &Tx{Version: zz.U32("version"), LockTime: zz.U32("locktime")}
	for _, n := range in {
		t.In = append(t.In, In{Hash: zz.Bytes("hash", 32), Index: zz.U32("index"), Sequence: zz.U32("sequence"), Script: zz.Bytes("script", n)})
	}
	for _, n := range out {
		t.Out = append(t.Out, Out{Value: zz.U64("value"), Script: zz.Bytes("oscript", n)})
	}
	return t
}

var zero = make([]byte, 32)

// Single and None classify a hash type; the low five bits say which outputs are signed.
func Single(ht uint32) bool { return ht&0x1f == 3 }
func None(ht uint32) bool   { return ht&0x1f == 2 }
func Anyone(ht uint32) bool { return ht&0x80 != 0 }

// BIP143 is the preimage of the signature hash of input n of a version 0 witness program.
func (t *Tx) BIP143(n int, ht uint32, dsha func([]byte) []byte) []byte {
	prev, seq, outs := zero, zero, zero
	if !Anyone(ht) {
		var b []byte
		for _, i := range t.In {
			b = LE32(append(b, i.Hash...), i.Index)
		}
		prev = dsha(b)
		if !Single(ht) && !None(ht) {
			var b []byte
			for _, i := range t.In {
				b = LE32(b, i.Sequence)
			}
			seq = dsha(b)
		}
	}
	if Single(ht) {
		if n < len(t.Out) {
			outs = dsha(VarBytes(LE64(nil, t.Out[n].Value), t.Out[n].Script))
		}
	} else if !None(ht) {
		var b []byte
		for _, o := range t.Out {
			b = VarBytes(LE64(b, o.Value), o.Script)
		}
		outs = dsha(b)
	}
	i := t.In[n]
	b := LE32(nil, t.Version)
	b = append(b, prev...)
	b = append(b, seq...)
	b = append(b, i.Hash...)
	b = LE32(b, i.Index)
	b = VarBytes(b, i.Code)
	b = LE64(b, i.Value)
	b = LE32(b, i.Sequence)
	b = append(b, outs...)
	b = LE32(b, t.LockTime)
	return LE32(b, ht)
}

// Legacy is the preimage of the original signature hash of input n; nil if the hash is the number one.
func (t *Tx) Legacy(n int, ht uint32) []byte {
	if Single(ht) && n >= len(t.Out) {
		return nil
	}
	c := &Tx{Version: t.Version, LockTime: t.LockTime}
	for k, i := range t.In {
		if k != n && Anyone(ht) {
			continue
		}
		x := In{Hash: i.Hash, Index: i.Index, Sequence: i.Sequence}
		if k == n {
			x.Script = i.Code
		} else if Single(ht) || None(ht) {
			x.Sequence = 0
		}
		c.In = append(c.In, x)
	}
	for k, o := range t.Out {
		if None(ht) || Single(ht) && k > n {
			break
		}
		if Single(ht) && k < n {
			o = Out{Value: 1<<64 - 1}
		}
		c.Out = append(c.Out, o)
	}
	return LE32(c.Base(), ht)
}
