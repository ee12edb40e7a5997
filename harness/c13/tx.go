package c13

import (
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/txref"
)

func key(n int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes([]byte{byte(n)}) }
func pub(n int) []byte          { return key(n).PubKey().SerializeCompressed() }
func upub(n int) []byte         { return key(n).PubKey().SerializeUncompressed() }

// coin is an output to spend, of one of the kinds.
type coin struct {
	kind         int
	lock, redeem []byte
	code         []byte // script code for the signature hash
	segwit       bool
	keys         []int // keys that may sign, in order
	need         int
	uncompressed bool
}

const (
	pkh = iota
	pkhUncompressed
	sh
	wpkh
	wsh
	kinds
)

func p2pkh(h []byte) []byte { return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac) }

// multi is the 2-of-3 script of the keys.
func multi(keys []int) []byte {
	s := []byte{0x52}
	for _, k := range keys {
		s = append(append(s, 33), pub(k)...)
	}
	return append(s, 0x53, 0xae)
}

func newCoin(kind, k int) *coin {
	c := &coin{kind: kind, keys: []int{k}, need: 1}
	h := xcrypto.Hash160(pub(k))
	switch kind {
	case pkh:
		c.lock = p2pkh(h)
		c.code = c.lock
	case pkhUncompressed:
		c.lock = p2pkh(xcrypto.Hash160(upub(k)))
		c.code = c.lock
		c.uncompressed = true
	case wpkh:
		c.lock = append([]byte{0, 20}, h...)
		c.code = p2pkh(h)
		c.segwit = true
	case sh, wsh:
		c.keys, c.need = []int{k, k + 1, k + 2}, 2
		c.redeem = multi(c.keys)
		c.code = c.redeem
		if kind == sh {
			c.lock = append(append([]byte{0xa9, 20}, xcrypto.Hash160(c.redeem)...), 0x87)
		} else {
			c.lock = append([]byte{0, 32}, xcrypto.Sha256(c.redeem)...)
			c.segwit = true
		}
	}
	return c
}

// build is a transaction spending the coins; the model gets the script codes.
func build(coins []*coin, out []int) (*txref.Tx, *xcore.Transaction, []*xcore.TxIn) {
	t := txref.Make(make([]int, len(coins)), out)
	tx := xcore.NewTransaction()
	tx.SetVersion(t.Version)
	tx.SetLockTime(t.LockTime)
	var ins []*xcore.TxIn
	for k, c := range coins {
		i := &t.In[k]
		i.Value, i.Code, i.Segwit = zz.U64("amount"), c.code, c.segwit
		in, err := xcore.NewTxIn(i.Hash, i.Index, i.Value, c.lock, c.redeem)
		zz.Assert(err == nil, "a standard output can be spent")
		in.Sequence = i.Sequence
		tx.AddInput(in)
		ins = append(ins, in)
	}
	for _, o := range t.Out {
		tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return t, tx, ins
}

func hash(t *txref.Tx, n int, ht byte) []byte {
	if t.In[n].Segwit {
		return xcrypto.DoubleSha256(t.BIP143(n, uint32(ht), xcrypto.DoubleSha256))
	}
	p := t.Legacy(n, uint32(ht))
	if p == nil {
		return append([]byte{1}, make([]byte, 31)...)
	}
	return xcrypto.DoubleSha256(p)
}

func prvs(ks []int) []*xcrypto.PrvKey {
	var r []*xcrypto.PrvKey
	for _, k := range ks {
		r = append(r, key(k))
	}
	return r
}

// hashType is any hash type; the classes that the rules distinguish are explored one by one.
func hashType(name string) byte {
	ht := zz.U8(name)
	switch zz.Choose(name+" outputs", 0, 2) {
	case 0:
		zz.Assume(zz.And(ht&0x1f != 2, ht&0x1f != 3))
	case 1:
		zz.Assume(ht&0x1f == 2)
	case 2:
		zz.Assume(ht&0x1f == 3)
	}
	zz.Assume((ht&0x80 != 0) == (zz.Choose(name+" inputs", 0, 1) == 1))
	return ht
}

// receive is the transaction as another party sees it: from the wire, with the outputs it spends.
func receive(t *txref.Tx, coins []*coin) (*xcore.Transaction, error) {
	tx := xcore.NewTransaction()
	if err := tx.Deserialize(t.Full()); err != nil {
		return nil, err
	}
	for k, c := range coins {
		if err := tx.SetTxIn(k, t.In[k].Value, c.lock, c.redeem); err != nil {
			return nil, err
		}
	}
	return tx, nil
}

func take(t *txref.Tx, ins []*xcore.TxIn) {
	for k, in := range ins {
		t.In[k].Witness = in.Witness
		if !t.In[k].Segwit {
			t.In[k].Script = in.RawUnlockingScript
		}
	}
}

// ZZ_Signed: an input signed with the right keys verifies, for the signer and for whoever receives the transaction.
func ZZ_Signed() {
	ideal()
	zz.Bound("1-2 inputs of every pair of kinds (P2PKH with either key form, P2SH and P2WSH 2-of-3, P2WPKH), 0-2 outputs, every hash type byte, every choice of signing keys")
	coins := []*coin{newCoin(zz.Choose("kind", 0, kinds-1), 1)}
	if k := zz.Choose("kind2", -1, kinds-1); k >= 0 {
		coins = append(coins, newCoin(k, 4))
	}
	t, tx, ins := build(coins, make([]int, zz.Choose("outputs", 0, 2)))
	ht := hashType("hashtype")
	for k, c := range coins {
		ks := c.keys
		if c.need == 2 && k == 0 {
			drop := zz.Choose("drop", 0, 2)
			ks = append(append([]int{}, c.keys[:drop]...), c.keys[drop+1:]...)
		} else if c.need == 2 {
			ks = c.keys[:2]
		}
		zz.Assert(tx.SignIndex(k, !c.uncompressed, xcore.SigHashType(ht), prvs(ks)...) == nil, "signing succeeds")
	}
	zz.Assert(tx.Verify() == nil, "the signed transaction verifies")
	zz.Assert(tx.Verify() == nil, "it verifies again")
	take(t, ins)
	rx, err := receive(t, coins)
	zz.Assert(err == nil, "the signed transaction is received")
	zz.Assert(rx.Verify() == nil, "the received transaction verifies")
	if t.HasWitness() {
		zz.Assert(zz.Eq(tx.Serialize(), t.Full()), "what is sent is what was signed")
	}
	zz.Reach("verified")
}

// ZZ_Tampered: a signed transaction in which anything changed verifies exactly if what its signatures commit to did not change.
func ZZ_Tampered() {
	ideal()
	zz.Bound("1-2 inputs, 1-2 outputs, every kind, every hash type byte, one change of any field to any value, or an input or output added, removed or swapped")
	kind := zz.Choose("kind", 0, kinds-1)
	coins := []*coin{newCoin(kind, 1)}
	two := zz.Choose("inputs", 1, 2) == 2
	if two {
		coins = append(coins, newCoin(kind, 4))
	}
	t, tx, ins := build(coins, make([]int, zz.Choose("outputs", 1, 2)))
	ht := hashType("hashtype")
	for k, c := range coins {
		zz.Assert(tx.SignIndex(k, !c.uncompressed, xcore.SigHashType(ht), prvs(c.keys[:c.need])...) == nil, "signing succeeds")
	}
	take(t, ins)
	u := *t
	u.In = append([]txref.In{}, t.In...)
	u.Out = append([]txref.Out{}, t.Out...)
	last := len(u.Out) - 1
	ni := len(u.In) - 1
	change := zz.Choose("change", 0, 9)
	switch change {
	case 0:
		u.Version = zz.U32("version2")
	case 1:
		u.LockTime = zz.U32("locktime2")
	case 2:
		u.In[ni].Hash = zz.Bytes("hash2", 32)
	case 3:
		u.In[ni].Index = zz.U32("index2")
	case 4:
		u.In[ni].Sequence = zz.U32("sequence2")
	case 5:
		u.In[ni].Value = zz.U64("amount2")
	case 6:
		u.Out[last].Value = zz.U64("value2")
	case 7:
		u.Out[last].Script = zz.Bytes("script2", zz.Choose("len", 0, 1))
	case 8:
		u.Out = append(u.Out, txref.Out{Value: zz.U64("value2")})
	case 9:
		u.Out = u.Out[:last]
	}
	good := true
	for k := range u.In {
		good = zz.And(good, zz.Eq(hash(&u, k, ht), hash(t, k, ht)))
	}
	rx, err := receive(&u, coins)
	zz.Assert(err == nil, "the changed transaction is received")
	if good {
		zz.Assert(rx.Verify() == nil, "a change the signatures leave open is accepted")
		zz.Reach("accepted")
	} else {
		zz.Assert(rx.Verify() != nil, "a change of what is signed is refused")
		zz.Reach("refused")
	}
}

// ZZ_Unauthorised: signatures of other keys, too few signatures, the same signature twice, signatures in the wrong order,
// for another hash type or another input do not unlock.
func ZZ_Unauthorised() {
	ideal()
	zz.Bound("every kind, every pair of signing keys out of four (three in the script), in every order, with either key shown; the last signature made for any hash type, for another hash type than it says, or for another input")
	c := newCoin(zz.Choose("kind", 0, kinds-1), 1)
	other := newCoin(pkh, 7)
	t, tx, ins := build([]*coin{c, other}, []int{1})
	forge := zz.Choose("forge", 0, 2)
	ht := byte(1)
	if forge != 1 {
		ht = hashType("hashtype")
	}
	sign := func(n, k int, ht byte) []byte {
		var s []byte
		var err error
		if c.segwit {
			s, err = tx.WitnessSignature(n, xcore.SigHashType(ht), key(k))
		} else {
			s, err = tx.RawSignature(n, xcore.SigHashType(ht), key(k))
		}
		zz.Assert(err == nil, "signing succeeds")
		return s
	}
	zz.Assert(tx.SignIndex(1, true, xcore.SigHashAll, key(7)) == nil, "signing succeeds")
	var signs []xcore.PubKeySign
	good := true
	n := 1
	if c.need == 2 {
		n = zz.Choose("signatures", 1, 2)
		good = n == 2
	}
	prev := 0
	show := 1
	if c.need == 1 {
		show = zz.Choose("show", 1, 2)
	}
	for i := 0; i < n; i++ {
		k := zz.Choose("key", 1, 4)
		s := sign(0, k, ht)
		what := 0
		if i == n-1 {
			what = forge
		}
		switch what {
		case 1: // a signature made for another hash type
			h2 := hashType("hashtype2")
			s = append(append([]byte{}, s[:len(s)-1]...), h2)
			if !zz.Eq(hash(t, 0, ht), hash(t, 0, h2)) {
				good = false
			}
		case 2: // a signature made for the other input
			h := hash(t, 1, ht)
			if c.segwit {
				break
			}
			s = sign(1, k, ht)
			if !zz.Eq(hash(t, 0, ht), h) {
				good = false
			}
		}
		if c.need == 1 {
			good = good && k == 1 && show == 1
		} else {
			good = good && k > prev && k <= 3
			prev = k
		}
		p := pub(show)
		if c.uncompressed {
			p = upub(show)
		}
		signs = append(signs, xcore.PubKeySign{PubKey: p, Signature: s})
	}
	zz.Assert(tx.EmbedIdxSignature(0, signs) == nil, "signatures are embedded")
	if good {
		zz.Assert(tx.Verify() == nil, "authorised spend verifies")
		zz.Reach("authorised")
	} else {
		zz.Assert(tx.Verify() != nil, "unauthorised spend refused")
		zz.Reach("unauthorised")
	}
	take(t, ins)
	rx, err := receive(t, []*coin{c, other})
	zz.Assert(err == nil, "received")
	zz.Assert((rx.Verify() == nil) == good, "the receiver sees the same")
}

// ZZ_MixedTypes: every signer chooses the hash type of his own signature; the others' do not change what his commits to.
func ZZ_MixedTypes() {
	ideal()
	zz.Bound("P2SH and P2WSH 2-of-3, 1-2 inputs, 1 output, every pair of hash type bytes, signatures as made or with their types exchanged")
	c := newCoin(zz.Choose("kind", 0, 1)*(wsh-sh)+sh, 1)
	coins := []*coin{c}
	if zz.Choose("inputs", 1, 2) == 2 {
		coins = append(coins, newCoin(pkh, 7))
	}
	t, tx, ins := build(coins, []int{0})
	if len(coins) == 2 {
		zz.Assert(tx.SignIndex(1, true, xcore.SigHashAll, key(7)) == nil, "signing succeeds")
	}
	hts := [2]byte{hashType("hashtype"), hashType("hashtype2")}
	swap := zz.Choose("exchanged", 0, 1) == 1
	var signs []xcore.PubKeySign
	for i, ht := range hts {
		var s []byte
		var err error
		if c.segwit {
			s, err = tx.WitnessSignature(0, xcore.SigHashType(ht), key(i+1))
		} else {
			s, err = tx.RawSignature(0, xcore.SigHashType(ht), key(i+1))
		}
		zz.Assert(err == nil, "signing succeeds")
		if swap {
			s = append(append([]byte{}, s[:len(s)-1]...), hts[1-i])
		}
		signs = append(signs, xcore.PubKeySign{PubKey: pub(i + 1), Signature: s})
	}
	zz.Assert(tx.EmbedIdxSignature(0, signs) == nil, "signatures are embedded")
	good := !swap || zz.Eq(hash(t, 0, hts[0]), hash(t, 0, hts[1]))
	if good {
		zz.Assert(tx.Verify() == nil, "every signature is checked for its own hash type")
		zz.Reach("verified")
	} else {
		zz.Assert(tx.Verify() != nil, "a signature is not checked for another's hash type")
		zz.Reach("refused")
	}
	take(t, ins)
	rx, err := receive(t, coins)
	zz.Assert(err == nil, "received")
	zz.Assert((rx.Verify() == nil) == good, "the receiver sees the same")
}

// pushes are the data that a script of pushes pushes.
func pushes(s []byte) [][]byte {
	var r [][]byte
	for len(s) > 0 {
		n := int(s[0])
		s = s[1:]
		if n == 0x4c {
			n = int(s[0])
			s = s[1:]
		}
		r = append(r, append([]byte{}, s[:n]...))
		s = s[n:]
	}
	return r
}

// ZZ_WrongPlace: a witness output is not unlocked by a script, another output is not unlocked by a witness.
func ZZ_WrongPlace() {
	ideal()
	zz.Bound("every kind, 0-1 outputs; what unlocks moved from the script to the witness or back")
	c := newCoin(zz.Choose("kind", 0, kinds-1), 1)
	coins := []*coin{c}
	t, tx, ins := build(coins, make([]int, zz.Choose("outputs", 0, 1)))
	zz.Assert(tx.SignIndex(0, !c.uncompressed, xcore.SigHashAll, prvs(c.keys[:c.need])...) == nil, "signing succeeds")
	take(t, ins)
	script := ins[0].RawUnlockingScript
	zz.Assert(len(pushes(script)) > 0, "there is something to unlock with")
	if c.segwit {
		t.In[0].Script, t.In[0].Witness = script, nil
	} else {
		t.In[0].Script, t.In[0].Witness = nil, pushes(script)
	}
	rx, err := receive(t, coins)
	if err != nil {
		zz.Reach("refused")
		return
	}
	zz.Assert(rx.Verify() != nil, "unlocked from the wrong place")
	zz.Reach("refused")
}

// ZZ_Embed: a signature made elsewhere (by two parties, say) unlocks as one made here, and is left alone.
func ZZ_Embed() {
	ideal()
	zz.Bound("P2PKH and P2WPKH, 0-1 outputs, every hash type; the signature in an array with room behind it or without")
	c := newCoin(zz.Choose("kind", 0, 1)*wpkh, 1)
	coins := []*coin{c}
	t, tx, ins := build(coins, make([]int, zz.Choose("outputs", 0, 1)))
	ht := hashType("hashtype")
	var s []byte
	var err error
	if c.segwit {
		s, err = tx.WitnessSignature(0, xcore.SigHashType(ht), key(1))
	} else {
		s, err = tx.RawSignature(0, xcore.SigHashType(ht), key(1))
	}
	zz.Assert(err == nil, "signing succeeds")
	room := zz.Choose("room", 0, 3)
	buf := append(append([]byte{}, s[:len(s)-1]...), make([]byte, room)...)
	for i := len(s) - 1; i < len(buf); i++ {
		buf[i] = 0x5a
	}
	keep := append([]byte{}, buf...)
	zz.Assert(tx.EmbedIdxEcdsaSignature(0, key(1).PubKey(), buf[:len(s)-1], xcore.SigHashType(ht)) == nil, "the signature is embedded")
	zz.Assert(zz.Eq(buf, keep), "it is left alone")
	for i := range buf {
		buf[i] = 0
	}
	zz.Assert(tx.Verify() == nil, "the transaction verifies")
	take(t, ins)
	rx, err := receive(t, coins)
	zz.Assert(err == nil, "the signed transaction is received")
	zz.Assert(rx.Verify() == nil, "the received transaction verifies")
	zz.Reach("verified")
}
