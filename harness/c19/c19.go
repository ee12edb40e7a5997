// Package c19 checks BIP32 derivation.
package c19

import (
	"crypto/rand"
	"errors"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/hd"
)

var net = network.MainNet

func is(k *bip32.HDKey, n hd.Node) bool { return zz.EqStr(k.ToString(net), hd.String(n.Prv(net))) }

func isPub(k *bip32.HDKey, n hd.Node) bool { return zz.EqStr(k.ToString(net), hd.String(n.Pub(net))) }

// ZZ_Master: the master key of a seed is BIP32's.
func ZZ_Master() {
	hd.Ideal()
	zz.Bound("keys with at most 1 leading zero byte (3 thorough)")
	zz.Bound("seeds of 0, 1, 16, 32, 64 and 65 bytes, every seed")
	seed := zz.Bytes("~seed", []int{0, 1, 16, 32, 64, 65}[zz.Choose("length", 0, 5)])
	n := hd.Master(seed)
	k := bip32.NewHDKey(seed)
	zz.Assert(is(k, n), "the master key")
	zz.Assert(isPub(k.HDPublicKey(), n), "and its public part")
	zz.Assert(is(k, n), "unchanged by that")
	zz.Reach("master")
}

// ZZ_Private: the private child of every key and index is BIP32's, and neutering it is deriving from the neutered parent.
func ZZ_Private() {
	hd.Ideal()
	zz.Bound("keys with at most 1 leading zero byte (3 thorough)")
	zz.Bound("every private key, chain code, depth, fingerprint and child number, every index")
	n, k := hd.Sym(net)
	i := zz.U32("~index")
	hard := zz.Choose("hardened", 0, 1) == 1
	zz.Assume((i >= 1<<31) == hard)
	if n.Depth == 255 {
		_, err := k.Derive(i)
		zz.Assert(err != nil, "no child beyond depth 255")
		zz.Reach("too deep")
		return
	}
	want := n.Child(i, hard)
	c, err := k.Derive(i)
	zz.Assert(err == nil, "a child is derived")
	zz.Assert(is(c, want), "the child")
	zz.Assert(zz.Eq(c.PrivateKey().Serialize(), want.K), "its private key")
	zz.Assert(zz.Eq(c.PublicKey().Serialize(), hd.Pub(want.K)), "its public key")
	zz.Assert(isPub(c.HDPublicKey(), want), "its public part")
	zz.Assert(is(k, n), "the parent is unchanged")
	p, err := k.HDPublicKey().Derive(i)
	if hard {
		zz.Assert(err != nil && p == nil, "no hardened child of a public key")
		zz.Reach("hardened")
		return
	}
	zz.Assert(err == nil, "a public child is derived")
	zz.Assert(isPub(p, want), "the public child is the child's public part")
	zz.Assert(p.PrivateKey() == nil, "without its private key")
	zz.Assert(zz.Eq(p.PublicKey().Serialize(), hd.Pub(want.K)), "its public key")
	zz.Reach("normal")
}

type source struct{ data []byte }

func (s *source) Read(p []byte) (int, error) {
	n := copy(p, s.data)
	s.data = s.data[n:]
	if n == 0 && len(p) > 0 {
		return 0, errors.New("exhausted")
	}
	return n, nil
}

// ZZ_Rand: a random key is the master key of what the secure random source of the system delivers.
func ZZ_Rand() {
	hd.Ideal()
	zz.Bound("keys with at most 1 leading zero byte (3 thorough)")
	zz.Bound("every delivery of the random source, of at least 16 bytes")
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := &source{zz.Bytes("~random", 512)}
	data := src.data
	rand.Reader = src
	k, err := bip32.NewHDKeyRand()
	zz.Assert(err == nil && k != nil, "a key")
	used := len(data) - len(src.data)
	zz.Assert(used >= 16, "enough randomness")
	zz.Assert(is(k, hd.Master(data[:used])), "the master key of the random seed")
	zz.Reach("random")
}
