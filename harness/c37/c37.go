// Package c37 checks the unlocking side of the four output kinds.
package c37

import (
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
)

const (
	pkh = iota
	sh
	wpkh
	wsh
)

func hashLen(kind int) int {
	if kind == wsh {
		return 32
	}
	return 20
}

// script: the script object of a kind, made directly or from the bytes of its locking script.
func script(kind int, h []byte) xcore.Script {
	parsed := zz.Choose("parsed", 0, 1) == 1
	if parsed {
		s, err := xcore.ParseLockingScript(lock(kind, h))
		zz.Assert(err == nil, "the locking script is recognised")
		return s
	}
	switch kind {
	case pkh:
		return xcore.NewPayToPubKeyHashScript(h)
	case sh:
		return xcore.NewPayToScriptHashScript(h)
	case wpkh:
		return xcore.NewPayToWitnessV0PubKeyHashScript(h)
	}
	return xcore.NewPayToWitnessV0ScriptHashScript(h)
}

func cat(parts ...[]byte) []byte {
	var s []byte
	for _, p := range parts {
		s = append(s, p...)
	}
	return s
}

func lock(kind int, h []byte) []byte {
	switch kind {
	case pkh:
		return cat([]byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac})
	case sh:
		return cat([]byte{0xa9, 20}, h, []byte{0x87})
	case wpkh:
		return cat([]byte{0, 20}, h)
	}
	return cat([]byte{0, 32}, h)
}

// push: the shortest push of data that is empty or longer than one byte.
func push(d []byte) []byte {
	n := len(d)
	switch {
	case n <= 75:
		return cat([]byte{byte(n)}, d)
	case n <= 255:
		return cat([]byte{76, byte(n)}, d)
	}
	return cat([]byte{77, byte(n), byte(n >> 8)}, d)
}

func data(name string, lens []int) []byte {
	return zz.Bytes(name, lens[zz.Choose(name+" length", 0, len(lens)-1)])
}

// few: data of n bytes, of which the ends are free.
func few(name string, n int) []byte {
	d := make([]byte, n)
	for i, b := range zz.Bytes(name, 2) {
		d[i*(n-1)] = b
	}
	return d
}

var redeems = []int{2, 35, 75, 76, 105, 255, 256, 520}

func signs(n int) []xcore.PubKeySign {
	var ss []xcore.PubKeySign
	for i := 0; i < n; i++ {
		s := xcore.PubKeySign{PubKey: data("key", []int{33, 65})}
		if i == 0 {
			s.Signature = few("signature", []int{9, 71, 75, 76}[zz.Choose("signature length", 0, 3)])
		} else {
			s.Signature = few("signature", 72)
		}
		ss = append(ss, s)
	}
	return ss
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = zz.And(ok, zz.Eq(a[i], b[i]))
	}
	return ok
}

// ZZ_Key: outputs paying to a key are unlocked by the signature and the key, in the script or in the witness; without a signature there is nothing to unlock them with.
func ZZ_Key() {
	zz.Bound("both kinds, every hash, 0-2 signatures of 9, 71, 75 and 76 bytes with both ends free, keys of 33 and 65 bytes, objects made directly or parsed")
	kind := pkh
	if zz.Choose("witness", 0, 1) == 1 {
		kind = wpkh
	}
	h := zz.Bytes("hash", 20)
	s := script(kind, h)
	ss := signs(zz.Choose("signatures", 0, 2))
	raw, err := s.GetRawUnlockingScriptBytes(ss, nil)
	wit, werr := s.GetWitnessUnlockingScriptBytes(ss, nil)
	code, cerr := s.GetWitnessScriptCode(nil)
	fin, ferr := s.GetFinalLockingScriptBytes(nil)
	base := lock(pkh, h)
	zz.Assert(cerr == nil && ferr == nil, "script code and final locking script")
	zz.Assert(zz.Eq(fin, base), "the script executed is the one paying to the key")
	if kind == wpkh {
		zz.Assert(s.GetScriptVersion() == xcore.WITNESS_V0, "version 0 witness")
		zz.Assert(zz.Eq(code, base), "the script code is that of a payment to the key")
	} else {
		zz.Assert(s.GetScriptVersion() == xcore.BASE, "no witness")
		zz.Assert(len(code) == 0 && len(wit) == 0 && werr == nil, "nothing goes into the witness")
	}
	if len(ss) == 0 {
		zz.Assert(err != nil && raw == nil, "no signature, no unlocking script")
		if kind == wpkh {
			zz.Assert(werr != nil && wit == nil, "no signature, no witness")
		}
		zz.Reach("none")
		return
	}
	zz.Assert(err == nil && zz.Eq(raw, cat(push(ss[0].Signature), push(ss[0].PubKey))), "the unlocking script is the signature and the key")
	if kind == wpkh {
		zz.Assert(werr == nil && same(wit, [][]byte{ss[0].Signature, ss[0].PubKey}), "the witness is the signature and the key")
		back, err := s.WitnessToUnlockingScriptBytes(wit)
		zz.Assert(err == nil && zz.Eq(back, raw), "the witness stands for the unlocking script")
	}
	zz.Reach("signed")
}

// ZZ_Hash: outputs paying to a script are unlocked by the signatures in order after the dummy item, and the redeem script; a witness only by the script it names.
func ZZ_Hash() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	zz.Bound("both kinds, every hash or the right one, 0-3 signatures, redeem scripts of 0 and 2 to 520 bytes with both ends free, objects made directly or parsed")
	kind := sh
	if zz.Choose("witness", 0, 1) == 1 {
		kind = wsh
	}
	var redeem []byte
	if n := zz.Choose("redeem length", -1, len(redeems)-1); n >= 0 {
		redeem = few("redeem", redeems[n])
	}
	var h []byte
	right := xcrypto.Hash160(redeem)
	if kind == wsh {
		right = xcrypto.Sha256(redeem)
	}
	match := zz.Choose("right", 0, 1) == 1
	if match {
		h = right
	} else {
		h = zz.Bytes("hash", hashLen(kind))
		zz.Assume(!zz.Eq(h, right))
	}
	s := script(kind, h)
	ss := signs(zz.Choose("signatures", 0, 3))
	raw, err := s.GetRawUnlockingScriptBytes(ss, redeem)
	wit, werr := s.GetWitnessUnlockingScriptBytes(ss, redeem)
	fin, ferr := s.GetFinalLockingScriptBytes(redeem)
	code, cerr := s.GetWitnessScriptCode(redeem)
	zz.Assert(cerr == nil, "script code")
	var want []byte
	var items [][]byte
	if len(ss) > 0 {
		want = []byte{0}
		items = append(items, []byte{})
	}
	for _, x := range ss {
		want = cat(want, push(x.Signature))
		items = append(items, x.Signature)
	}
	want = cat(want, push(redeem))
	items = append(items, redeem)
	if kind == sh {
		zz.Assert(s.GetScriptVersion() == xcore.BASE, "no witness")
		zz.Assert(len(code) == 0 && len(wit) == 0 && werr == nil, "nothing goes into the witness")
		zz.Assert(err == nil && zz.Eq(raw, want), "the unlocking script is the dummy, the signatures in order and the redeem script")
		zz.Assert(ferr == nil && zz.Eq(fin, lock(sh, h)), "the script executed is the locking script")
		zz.Reach("script hash")
		return
	}
	zz.Assert(s.GetScriptVersion() == xcore.WITNESS_V0, "version 0 witness")
	zz.Assert(zz.Eq(code, redeem), "the script code is the redeem script")
	if !match {
		zz.Assert(err != nil && werr != nil && ferr != nil, "another redeem script is refused")
		zz.Assert(raw == nil && wit == nil && fin == nil, "and nothing is returned")
		zz.Reach("wrong")
		return
	}
	zz.Assert(err == nil && zz.Eq(raw, want), "the unlocking script is the dummy, the signatures in order and the redeem script")
	zz.Assert(werr == nil && same(wit, items), "the witness is the dummy, the signatures in order and the redeem script")
	zz.Assert(ferr == nil && zz.Eq(fin, lock(sh, xcrypto.Hash160(redeem))), "the script executed demands the redeem script")
	back, err := s.WitnessToUnlockingScriptBytes(wit)
	zz.Assert(err == nil && zz.Eq(back, raw), "the witness stands for the unlocking script")
	zz.Reach("witness script hash")
}

// ZZ_Witness: a witness of any items stands for the script pushing them, where the kind allows their number.
func ZZ_Witness() {
	zz.Bound("every kind, witnesses of 0-4 items of 0, 2, 33, 75, 76 and 256 bytes with both ends free")
	kind := zz.Choose("kind", pkh, wsh)
	s := script(kind, zz.Bytes("hash", hashLen(kind)))
	n := zz.Choose("items", 0, 4)
	var wit [][]byte
	var want []byte
	lens := []int{0, 2, 33, 75, 76, 256}
	for i := 0; i < n; i++ {
		l := lens[(i+1)%6]
		if i < 2 {
			l = lens[zz.Choose("length", 0, 5)]
		}
		var d []byte
		if l > 0 {
			d = few("item", l)
		}
		wit = append(wit, d)
		want = cat(want, push(d))
	}
	got, err := s.WitnessToUnlockingScriptBytes(wit)
	switch {
	case kind == pkh || kind == sh || n == 0:
		zz.Assert(err == nil && len(got) == 0, "no witness, no unlocking script")
		zz.Reach("none")
	case kind == wpkh && n != 2:
		zz.Assert(err != nil && got == nil, "other than a signature and a key is refused")
		zz.Reach("refused")
	default:
		zz.Assert(err == nil && zz.Eq(got, want), "the items are pushed in order")
		zz.Reach("pushed")
	}
}

// ZZ_Address: a script gives back the address it pays to.
func ZZ_Address() {
	zz.Bound("every kind, every hash")
	kind := zz.Choose("kind", pkh, wsh)
	h := zz.Bytes("hash", hashLen(kind))
	s := script(kind, h)
	raw, err := s.GetRawLockingScriptBytes()
	zz.Assert(err == nil && zz.Eq(raw, lock(kind, h)), "the locking script is the standard one")
	a := s.GetAddress()
	l, err := a.LockingScript()
	zz.Assert(err == nil && zz.Eq(l, raw), "the address pays to the script")
	zz.Assert(zz.Eq(a.Hash160(), h), "the address has the hash")
	zz.Reach("address")
}
