// Package hd is BIP32 written from its text.
package hd

import (
	"crypto/hmac"
	"crypto/sha512"
	"math/big"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// Node is an extended private key.
type Node struct {
	K     []byte // 32 bytes
	Chain []byte
	Depth byte
	FP    []byte
	Num   []byte
}

// Ideal switches the engine to the ideal group and the ideal Base58 code.
func Ideal() {
	zz.Abstract("group")
	zz.Abstract("base58")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	zz.Assumption("the points of secp256k1 are an ideal group (C23), Base58 an exact code (C14), HMAC-SHA512 and Hash160 uninterpreted")
}

func N() *big.Int { return secp256k1.SECP256K1().Params().N }

// InRange: 0 < k < N.
func InRange(k []byte) bool {
	n := new(big.Int).SetBytes(k)
	return zz.And(n.Sign() != 0, n.Cmp(N()) < 0)
}

// Pub is the compressed public key of a scalar.
func Pub(k []byte) []byte { return xcrypto.PrvKeyFromBytes(k).PubKey().SerializeCompressed() }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func mac(key, data []byte) ([]byte, []byte) {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	s := h.Sum(nil)
	return s[:32], s[32:]
}

// Master is the master node of a seed.
func Master(seed []byte) Node {
	k, c := mac([]byte("Bitcoin seed"), seed)
	zz.Assume(zz.And(InRange(k), Long(k, Zeros())))
	return Node{K: k, Chain: c, FP: make([]byte, 4), Num: make([]byte, 4)}
}

// Num4 is the number as 4 bytes.
func Num4(i uint32) []byte { return []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)} }

// Child is the private child.
func (n Node) Child(i uint32, hardened bool) Node {
	data := cat([]byte{0}, n.K)
	if !hardened {
		data = Pub(n.K)
	}
	il, ir := mac(n.Chain, cat(data, Num4(i)))
	s := new(big.Int).Add(new(big.Int).SetBytes(n.K), new(big.Int).SetBytes(il))
	s.Mod(s, N())
	k := s.FillBytes(make([]byte, 32))
	zz.Assume(zz.And(InRange(il), zz.And(s.Sign() != 0, Long(k, Zeros()))))
	return Node{K: k, Chain: ir, Depth: n.Depth + 1, FP: xcrypto.Hash160(Pub(n.K))[:4], Num: Num4(i)}
}

// Prv and Pub are the 78 bytes of the extended private and public key.
func (n Node) Prv(net *network.Network) []byte {
	return cat(net.HDPrivateKeyID, []byte{n.Depth}, n.FP, n.Num, n.Chain, []byte{0}, n.K)
}

func (n Node) Pub(net *network.Network) []byte {
	return cat(net.HDPublicKeyID, []byte{n.Depth}, n.FP, n.Num, n.Chain, Pub(n.K))
}

// String is the Base58 string of 78 bytes with their checksum.
func String(b []byte) string { return xbase.Base58Encode(cat(b, xcrypto.DoubleSha256(b)[:4])) }

// Long: at most z leading bytes are zero.
func Long(k []byte, z int) bool {
	r := false
	for _, b := range k[:z+1] {
		r = zz.Or(r, b != 0)
	}
	return r
}

// Zeros is how many leading zero bytes of a key are allowed.
func Zeros() int {
	if zz.Thorough() {
		return 3
	}
	return 1
}

// Sym is a node with symbolic fields, and the key made from its string.
func Sym(net *network.Network) (Node, *bip32.HDKey) {
	n := Node{K: zz.Bytes("~key", 32), Chain: zz.Bytes("~chain", 32), Depth: zz.U8("depth"), FP: zz.Bytes("parent", 4), Num: zz.Bytes("child", 4)}
	zz.Assume(zz.And(InRange(n.K), Long(n.K, Zeros())))
	zz.Assume(n.Depth > 0)
	k, err := bip32.NewHDKeyFromString(String(n.Prv(net)))
	zz.Assert(err == nil, "a valid extended key is read")
	return n, k
}
