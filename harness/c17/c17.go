// Package c17 checks addresses and the locking scripts they stand for.
package c17

import (
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	zz "github.com/keyfuse/tokucore/zzverif"
)

const (
	pkh = iota
	sh
	wpkh
	wsh
)

func ideal() {
	zz.Abstract("github.com/keyfuse/tokucore/xbase.Base58CheckEncode")
	zz.Abstract("github.com/keyfuse/tokucore/xbase.Base58CheckDecode")
	zz.Assumption("Base58Check is an exact code (C14) and no string of it starts with a human-readable part and 1")
}

func nets() (*network.Network, *network.Network) {
	if zz.Choose("network", 0, 1) == 0 {
		return network.MainNet, network.TestNet
	}
	return network.TestNet, network.MainNet
}

func newAddress(kind int, h []byte) xcore.Address {
	switch kind {
	case pkh:
		return xcore.NewPayToPubKeyHashAddress(h)
	case sh:
		return xcore.NewPayToScriptHashAddress(h)
	case wpkh:
		return xcore.NewPayToWitnessV0PubKeyHashAddress(h)
	}
	return xcore.NewPayToWitnessV0ScriptHashAddress(h)
}

func kindOf(a xcore.Address) int {
	switch a.(type) {
	case *xcore.PayToPubKeyHashAddress:
		return pkh
	case *xcore.PayToScriptHashAddress:
		return sh
	case *xcore.PayToWitnessV0PubKeyHashAddress:
		return wpkh
	case *xcore.PayToWitnessV0ScriptHashAddress:
		return wsh
	}
	return -1
}

func hashLen(kind int) int {
	if kind == wsh {
		return 32
	}
	return 20
}

// lock is the locking script of the kind, by the specification.
func lock(kind int, h []byte) []byte {
	var s []byte
	switch kind {
	case pkh:
		s = append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac)
	case sh:
		s = append(append([]byte{0xa9, 20}, h...), 0x87)
	default:
		s = append([]byte{0, byte(len(h))}, h...)
	}
	return s
}

func version(kind int, net *network.Network) byte {
	if kind == pkh {
		return map[*network.Network]byte{network.MainNet: 0, network.TestNet: 111}[net]
	}
	return map[*network.Network]byte{network.MainNet: 5, network.TestNet: 196}[net]
}

func hrp(net *network.Network) string {
	if net == network.MainNet {
		return "bc"
	}
	return "tb"
}

// ZZ_Script: an address pays to the script of its kind, which is recognised as what it is.
func ZZ_Script() {
	zz.Bound("every kind, every hash")
	kind := zz.Choose("kind", 0, 3)
	h := zz.Bytes("hash", hashLen(kind))
	a := newAddress(kind, h)
	zz.Assert(zz.Eq(a.Hash160(), h), "the address keeps the hash")
	s, err := a.LockingScript()
	zz.Assert(err == nil && zz.Eq(s, lock(kind, h)), "the address pays to the script of its kind")
	p, err := xcore.ParseLockingScript(s)
	zz.Assert(err == nil, "the locking script is recognised")
	b := p.GetAddress()
	zz.Assert(kindOf(b) == kind && zz.Eq(b.Hash160(), h), "the script has the address it was made for")
	raw, err := p.GetRawLockingScriptBytes()
	zz.Assert(err == nil && zz.Eq(raw, s), "the script is rebuilt as it was")
	zz.Reach("paid")
}

// ZZ_Segwit: a segwit address is the BIP173 string of its network, in either case decodes to itself, and is refused by the other network.
func ZZ_Segwit() {
	ideal()
	zz.Bound("both kinds, both networks, every hash, lower and upper case")
	kind := zz.Choose("kind", wpkh, wsh)
	net, other := nets()
	h := zz.Bytes("hash", hashLen(kind))
	a := newAddress(kind, h)
	s := a.ToString(net)
	want, err := xbase.WitnessEncode(hrp(net), 0, h)
	zz.Assert(err == nil && zz.EqStr(s, want), "the address is the BIP173 string")
	if zz.Choose("case", 0, 1) == 1 {
		s = strings.ToUpper(s)
	}
	b, err := xcore.DecodeAddress(s, net)
	zz.Assert(err == nil, "the address decodes")
	zz.Assert(kindOf(b) == kind && zz.Eq(b.Hash160(), h), "to what it was made from")
	b, err = xcore.DecodeAddress(s, other)
	zz.Assert(err != nil && b == nil, "the other network refuses it")
	zz.Reach("decoded")
}

// ZZ_Base58: a legacy address is the Base58Check string of its network's version byte and decodes to itself.
func ZZ_Base58() {
	ideal()
	zz.Bound("both kinds, both networks, every hash")
	kind := zz.Choose("kind", pkh, sh)
	net, other := nets()
	h := zz.Bytes("hash", 20)
	a := newAddress(kind, h)
	s := a.ToString(net)
	zz.Assert(zz.EqStr(s, xbase.Base58CheckEncode(h, version(kind, net))), "the address has the version byte and the hash")
	b, err := xcore.DecodeAddress(s, net)
	zz.Assert(err == nil, "the address decodes")
	zz.Assert(kindOf(b) == kind && zz.Eq(b.Hash160(), h), "to what it was made from")
	b, err = xcore.DecodeAddress(s, other)
	zz.Assert(err != nil && b == nil, "the other network refuses it")
	zz.Reach("decoded")
}

// ZZ_Base58Ends: the same with the real code, for the ends of the range of strings of each version.
func ZZ_Base58Ends() {
	zz.Bound("both kinds, both networks, hashes of zeros, of 255s and of zeros and a one")
	kind := zz.Choose("kind", pkh, sh)
	net, other := nets()
	h := make([]byte, 20)
	switch zz.Choose("fill", 0, 2) {
	case 1:
		for i := range h {
			h[i] = 255
		}
	case 2:
		h[19] = 1
	}
	s := newAddress(kind, h).ToString(net)
	b, err := xcore.DecodeAddress(s, net)
	zz.Assert(err == nil && kindOf(b) == kind && zz.Eq(b.Hash160(), h), "the address decodes to what it was made from")
	b, err = xcore.DecodeAddress(s, other)
	zz.Assert(err != nil && b == nil, "the other network refuses it")
	zz.Reach("decoded")
}

// ZZ_Version: a Base58Check string is an address exactly if it has a version byte of the network and 20 bytes.
func ZZ_Version() {
	ideal()
	zz.Bound("every version byte, every payload of 0-40 bytes")
	net, _ := nets()
	v := zz.U8("version")
	n := zz.Choose("length", 0, 40)
	p := zz.Bytes("payload", n)
	a, err := xcore.DecodeAddress(xbase.Base58CheckEncode(p, v), net)
	switch {
	case n == 20 && v == version(pkh, net):
		zz.Assert(err == nil && kindOf(a) == pkh && zz.Eq(a.Hash160(), p), "a pay-to-pubkey-hash address")
		zz.Reach("pkh")
	case n == 20 && v == version(sh, net):
		zz.Assert(err == nil && kindOf(a) == sh && zz.Eq(a.Hash160(), p), "a pay-to-script-hash address")
		zz.Reach("sh")
	default:
		zz.Assert(err != nil && a == nil, "not an address of the network")
		zz.Reach("refused")
	}
}

// ZZ_Program: a segwit string is an address exactly if it has version 0 and 20 or 32 bytes, under the network's human-readable part.
func ZZ_Program() {
	zz.Bound("every witness version, programs of 2, 20, 32 and 40 fixed bytes, human-readable parts bc, tb, bc1, t and tbb")
	net, _ := nets()
	v := byte(zz.Choose("version", 0, 16))
	n := []int{2, 20, 32, 40}[zz.Choose("length", 0, 3)]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i*7 + 1)
	}
	part := []string{"bc", "tb", "bc1", "t", "tbb"}[zz.Choose("hrp", 0, 4)]
	s, err := xbase.WitnessEncode(part, v, p)
	if err != nil {
		zz.Assert(v == 0 && (n == 2 || n == 40), "a program has an address")
		return
	}
	a, err := xcore.DecodeAddress(s, net)
	if part == hrp(net) && v == 0 {
		zz.Assert(err == nil && kindOf(a) == map[int]int{20: wpkh, 32: wsh}[n] && zz.Eq(a.Hash160(), p), "a segwit address")
		zz.Reach("address")
	} else {
		zz.Assert(err != nil && a == nil, "not an address of the network")
		zz.Reach("refused")
	}
}

// ZZ_Length: a hash of the wrong length has no address.
func ZZ_Length() {
	zz.Bound("hashes of 0-40 bytes")
	kind := zz.Choose("kind", 0, 3)
	n := zz.Choose("length", 0, 40)
	a := newAddress(kind, zz.Bytes("hash", n))
	zz.Assert((a != nil) == (n == hashLen(kind)), "an address exactly for a hash of the right length")
	zz.Reach("tried")
}

// ZZ_Strings: no string makes decoding panic, and short ones are no addresses.
func ZZ_Strings() {
	top := 3
	if zz.Thorough() {
		top = 4
	}
	zz.Bound("every string of up to 3 (4 thorough) bytes, also after bc1 and tb1")
	net, _ := nets()
	s := []string{"", "bc1", "tb1", "BC1"}[zz.Choose("prefix", 0, 3)] + zz.Str("s", zz.Choose("n", 0, top))
	a, err := xcore.DecodeAddress(s, net)
	zz.Assert(err != nil && a == nil, "not an address")
	zz.Reach("refused")
}

// ZZ_Recognise: a script is recognised exactly if it is the template of a kind.
func ZZ_Recognise() {
	zz.Bound("the four templates with one byte replaced by any byte, with one byte left out, or with any byte before or after, hashes of the OP_1, OP_NOP, OP_0 or OP_PUSHDATA1 byte")
	kind := zz.Choose("kind", 0, 3)
	h := make([]byte, hashLen(kind))
	class := zz.Choose("class", 0, 3)
	for i := range h {
		h[i] = []byte{0x51, 0x61, 0x00, 0x4c}[class]
	}
	s := lock(kind, h)
	i := zz.Choose("at", 0, len(s)-1)
	b := zz.U8("byte")
	switch zz.Choose("change", 0, 3) {
	case 0:
		s[i] = b
	case 1:
		s = append(s[:i], s[i+1:]...)
	case 2:
		s = append([]byte{b}, s...)
		i = 0
	case 3:
		s = append(s, b)
	}
	got := -1
	if p, err := xcore.ParseLockingScript(s); err == nil {
		got = kindOf(p.GetAddress())
		zz.Assert(zz.Eq(s, lock(got, p.GetAddress().Hash160())), "recognised as what it is")
		zz.Reach("recognised")
	}
	is := false
	switch len(s) {
	case 25:
		is = zz.Eq(s, lock(pkh, s[3:23]))
	case 23:
		is = zz.Eq(s, lock(sh, s[2:22]))
	case 22:
		is = zz.Eq(s, lock(wpkh, s[2:]))
	case 34:
		is = zz.Eq(s, lock(wsh, s[2:]))
	}
	zz.Assert((got >= 0) == is, "recognised exactly if it is a template")
	zz.Reach("tried")
}
