// Package c39 checks the signing transaction builder.
package c39

import (
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
)

func key(n int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes([]byte{byte(n)}) }
func pub(n int) []byte          { return key(n).PubKey().SerializeCompressed() }
func upub(n int) []byte         { return key(n).PubKey().SerializeUncompressed() }

// coin is an output to spend, of one of the kinds.
type coin struct {
	kind         int
	lock, redeem []byte
	code         []byte // script code for the signature hash
	segwit       bool
	keys         []int // keys that may sign, in order
	need         int
	uncompressed bool
}

const (
	pkh = iota
	pkhUncompressed
	sh
	wpkh
	wsh
	kinds
)

func p2pkh(h []byte) []byte { return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac) }

// multi is the 2-of-3 script of the keys.
func multi(keys []int) []byte {
	s := []byte{0x52}
	for _, k := range keys {
		s = append(append(s, 33), pub(k)...)
	}
	return append(s, 0x53, 0xae)
}

func newCoin(kind, k int) *coin {
	c := &coin{kind: kind, keys: []int{k}, need: 1}
	h := xcrypto.Hash160(pub(k))
	switch kind {
	case pkh:
		c.lock = p2pkh(h)
		c.code = c.lock
	case pkhUncompressed:
		c.lock = p2pkh(xcrypto.Hash160(upub(k)))
		c.code = c.lock
		c.uncompressed = true
	case wpkh:
		c.lock = append([]byte{0, 20}, h...)
		c.code = p2pkh(h)
		c.segwit = true
	case sh, wsh:
		c.keys, c.need = []int{k, k + 1, k + 2}, 2
		c.redeem = multi(c.keys)
		c.code = c.redeem
		if kind == sh {
			c.lock = append(append([]byte{0xa9, 20}, xcrypto.Hash160(c.redeem)...), 0x87)
		} else {
			c.lock = append([]byte{0, 32}, xcrypto.Sha256(c.redeem)...)
			c.segwit = true
		}
	}
	return c
}

func ideal() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.EcdsaSign")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.EcdsaVerify")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	zz.Assumption("hashes are collision-free; a signature verifies exactly for the key and the hash it was made with")
}

func prvs(ks []int) []*xcrypto.PrvKey {
	var r []*xcrypto.PrvKey
	for _, k := range ks {
		r = append(r, key(k))
	}
	return r
}

const hexd = "0123456789abcdef"

func hex(b []byte) string {
	var s []byte
	for _, c := range b {
		s = append(s, hexd[c>>4], hexd[c&15])
	}
	return string(s)
}

func reverse(b []byte) []byte {
	var r []byte
	for i := len(b) - 1; i >= 0; i-- {
		r = append(r, b[i])
	}
	return r
}
