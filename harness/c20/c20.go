// Package c20 checks the strings of extended keys.
package c20

import (
	"math/big"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/hd"
)

func nets() (*network.Network, *network.Network) {
	if zz.Choose("network", 0, 1) == 0 {
		return network.MainNet, network.TestNet
	}
	return network.TestNet, network.MainNet
}

// ZZ_RoundTrip: an extended key is the Base58Check string of its 78 bytes and is read back from it, on either network.
func ZZ_RoundTrip() {
	hd.Ideal()
	zz.Bound("every private and public key with at most 1 leading zero byte (3 thorough), chain code, depth, fingerprint and child number, both networks")
	net, other := nets()
	n, k := hd.Sym(net)
	pub := zz.Choose("public", 0, 1) == 1
	if pub {
		k = k.HDPublicKey()
		zz.Assert(k.PrivateKey() == nil, "a public key has no private key")
		zz.Assert(zz.EqStr(k.ToString(net), hd.String(n.Pub(net))), "the string of the public key")
		var err error
		k, err = bip32.NewHDKeyFromString(k.ToString(other))
		zz.Assert(err == nil, "the public key is read")
		zz.Assert(zz.EqStr(k.ToString(other), hd.String(n.Pub(other))), "and is the same key")
		zz.Assert(zz.EqStr(k.HDPublicKey().ToString(net), hd.String(n.Pub(net))), "its public part is itself")
		zz.Assert(k.PrivateKey() == nil, "it has no private key")
		zz.Assert(zz.Eq(k.PublicKey().Serialize(), hd.Pub(n.K)), "its public key")
		zz.Reach("public")
		return
	}
	zz.Assert(zz.EqStr(k.ToString(net), hd.String(n.Prv(net))), "the string of the private key")
	k, err := bip32.NewHDKeyFromString(k.ToString(other))
	zz.Assert(err == nil, "the private key is read")
	zz.Assert(zz.EqStr(k.ToString(other), hd.String(n.Prv(other))), "and is the same key")
	zz.Assert(zz.Eq(k.PrivateKey().Serialize(), n.K), "its private key")
	zz.Assert(zz.Eq(k.PublicKey().Serialize(), hd.Pub(n.K)), "its public key")
	zz.Reach("private")
}

// ZZ_Private: 78 bytes with a private key are an extended key exactly if the key is in range, the version is not one of
// public keys, a master key has no parent, and the checksum is right.
func ZZ_Private() {
	hd.Ideal()
	zz.Bound("every 78 bytes with key prefix 0, every checksum")
	b := zz.Bytes("data", 78)
	zz.Assume(b[45] == 0)
	sum := xcrypto.DoubleSha256(b)[:4]
	good := true
	if zz.Choose("checksum", 0, 1) == 1 {
		// the error in the checksum: a counterexample then does not depend on the hash
		wrong := zz.Bytes("error", 4)
		good = zz.Eq(wrong, make([]byte, 4))
		bad := make([]byte, 4)
		for i := range bad {
			bad[i] = sum[i] ^ wrong[i]
		}
		sum = bad
	}
	k, err := bip32.NewHDKeyFromString(xbase.Base58Encode(append(append([]byte{}, b...), sum...)))
	pubVersion := zz.Or(zz.Eq(b[:4], network.MainNet.HDPublicKeyID), zz.Eq(b[:4], network.TestNet.HDPublicKeyID))
	orphan := zz.Or(b[4] != 0, zz.Eq(b[5:13], make([]byte, 8)))
	want := zz.And(zz.And(good, hd.InRange(b[46:])), zz.And(!pubVersion, orphan))
	zz.Assert((err == nil) == want, "read exactly if valid")
	if err != nil {
		zz.Assert(k == nil, "no key with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(new(big.Int).SetBytes(b[46:]).Cmp(k.PrivateKey().D) == 0, "the key that was written")
	zz.Reach("read")
}

// ZZ_Public: 78 bytes with the public key of a scalar are an extended key exactly if the prefix is that of the key or
// of its negative, the version is not one of private keys, and a master key has no parent.
func ZZ_Public() {
	hd.Ideal()
	zz.Bound("public keys of scalars with at most 1 leading zero byte (3 thorough), every other byte and key prefix")
	s := zz.Bytes("~key", 32)
	zz.Assume(zz.And(hd.InRange(s), hd.Long(s, hd.Zeros())))
	b := append(zz.Bytes("data", 45), hd.Pub(s)...)
	p := zz.U8("prefix")
	zz.Assume(p != 0)
	real := b[45]
	b[45] = p
	k, err := bip32.NewHDKeyFromString(hd.String(b))
	prvVersion := zz.Or(zz.Eq(b[:4], network.MainNet.HDPrivateKeyID), zz.Eq(b[:4], network.TestNet.HDPrivateKeyID))
	orphan := zz.Or(b[4] != 0, zz.Eq(b[5:13], make([]byte, 8)))
	if p == real || p != 2 && p != 3 {
		want := zz.And(zz.Or(p == 2, p == 3), zz.And(!prvVersion, orphan))
		zz.Assert((err == nil) == want, "read exactly if valid")
	}
	if err != nil {
		zz.Assert(k == nil, "no key with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(k.PrivateKey() == nil, "without a private key")
	if p == real {
		zz.Assert(zz.Eq(k.PublicKey().Serialize(), b[45:]), "the key that was written")
	}
	zz.Reach("read")
}

// ZZ_Length: anything but 82 bytes is no extended key.
func ZZ_Length() {
	hd.Ideal()
	zz.Bound("0-100 bytes")
	n := zz.Choose("length", 0, 100)
	if n == 82 {
		n = 101
	}
	k, err := bip32.NewHDKeyFromString(xbase.Base58Encode(zz.Bytes("data", n)))
	zz.Assert(err != nil && k == nil, "refused")
	zz.Reach("refused")
}

// ZZ_Text: no text that is not Base58 is an extended key.
func ZZ_Text() {
	zz.Bound("every string of up to 3 (4 thorough) characters, and an extended key with one character replaced by any other")
	s := ""
	if zz.Choose("kind", 0, 1) == 0 {
		n := 3
		if zz.Thorough() {
			n = 4
		}
		s = zz.Str("text", zz.Choose("length", 0, n))
	} else {
		good := "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi"
		i := zz.Choose("position", 0, len(good)-1)
		c := zz.U8("character")
		zz.Assume(c != good[i])
		bad := true
		for _, a := range []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz") {
			bad = zz.And(bad, c != a)
		}
		zz.Assume(bad)
		s = good[:i] + string([]byte{c}) + good[i+1:]
	}
	k, err := bip32.NewHDKeyFromString(s)
	zz.Assert(err != nil && k == nil, "refused")
	zz.Reach("refused")
}
