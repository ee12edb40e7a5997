// Package c21 checks derivation paths.
package c21

import (
	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	zz "github.com/keyfuse/tokucore/zzverif"
	"github.com/keyfuse/tokucore/zzverif/lib/hd"
)

var net = network.TestNet

func root() (hd.Node, *bip32.HDKey) {
	n := hd.Node{K: make([]byte, 32), Chain: make([]byte, 32), Depth: 1, FP: []byte{1, 2, 3, 4}, Num: []byte{0, 0, 0, 5}}
	n.K[0], n.Chain[3] = 7, 9
	k, err := bip32.NewHDKeyFromString(hd.String(n.Prv(net)))
	zz.Assert(err == nil, "a valid extended key is read")
	return n, k
}

// number is the value of 1-10 decimal digits (an optional ' at the end makes it hardened) of an index.
func number(s []byte) (i uint64, hard, ok bool) {
	if len(s) > 0 && s[len(s)-1] == '\'' {
		hard = true
		s = s[:len(s)-1]
	}
	ok = len(s) > 0
	for _, c := range s {
		ok = zz.And(ok, zz.And(c >= '0', c <= '9'))
	}
	if !ok {
		return 0, hard, false
	}
	for _, c := range s {
		i = i*10 + uint64(c-'0')
	}
	if hard {
		return i + 1<<31, true, i < 1<<31
	}
	return i, i >= 1<<31, i < 1<<32
}

func follow(k *bip32.HDKey, path string, n hd.Node, ok bool) {
	before := k.ToString(net)
	c, err := k.DeriveByPath(path)
	zz.Assert((err == nil) == ok, "a path is followed exactly if it is one")
	if err != nil {
		zz.Assert(c == nil, "no key with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.EqStr(c.ToString(net), hd.String(n.Prv(net))), "the key at the path")
	zz.Assert(zz.EqStr(k.ToString(net), before), "the key itself is unchanged")
	zz.Reach("followed")
}

// ZZ_Element: one element names the index of its number, hardened exactly if it says so.
func ZZ_Element() {
	hd.Ideal()
	n := 3
	if zz.Thorough() {
		n = 4
	}
	zz.Bound("every element of 0-3 (4 thorough) bytes")
	node, k := root()
	l := zz.Choose("length", 0, n)
	s := zz.Bytes("~element", l)
	for _, c := range s {
		zz.Assume(c != '/')
	}
	i, hard, ok := number(s)
	if ok {
		if hard {
			zz.Assume(i >= 1<<31)
		}
		node = node.Child(uint32(i), hard)
	}
	follow(k, "m/"+string(s), node, ok)
}

// ZZ_Long: the same for numbers around the largest ones.
func ZZ_Long() {
	hd.Ideal()
	zz.Bound("every number of 9-11 digits, with or without '")
	node, k := root()
	s := zz.Bytes("~digits", zz.Choose("digits", 9, 11))
	for _, c := range s {
		zz.Assume(zz.And(c >= '0', c <= '9'))
	}
	if zz.Choose("hardened", 0, 1) == 1 {
		s = append(s, '\'')
	}
	i, hard, ok := number(s)
	if ok {
		if hard {
			zz.Assume(i >= 1<<31)
		} else {
			zz.Assume(i < 1<<31)
		}
		node = node.Child(uint32(i), hard)
	}
	follow(k, "m/"+string(s), node, ok)
}

// ZZ_Steps: elements are followed in order.
func ZZ_Steps() {
	zz.Bound("0-2 elements (3 thorough) out of 0, 2, 1', 0', 2147483647, 2147483647', an empty one and a foreign one; one key")
	_, k := root()
	public := zz.Choose("neutered", 0, 1) == 1
	if public {
		k = k.HDPublicKey()
	}
	top := 2
	if zz.Thorough() {
		top = 3
	}
	path, ok := "m", true
	before := k.ToString(net)
	want := k
	n := zz.Choose("elements", 0, top)
	for j := 0; j < n && ok; j++ {
		e := zz.Choose("element", 0, len(steps)-1)
		path += "/" + steps[e].text
		if steps[e].bad || steps[e].index >= 1<<31 && public {
			ok = false
			break
		}
		c, err := want.Derive(steps[e].index)
		zz.Assert(err == nil, "a child is derived")
		want = c
	}
	c, err := k.DeriveByPath(path)
	zz.Assert((err == nil) == ok, "a path is followed exactly if it is one")
	zz.Assert(zz.EqStr(k.ToString(net), before), "the key itself is unchanged")
	if err != nil {
		zz.Reach("refused")
		return
	}
	zz.Assert(zz.EqStr(c.ToString(net), want.ToString(net)), "elements are followed in order")
	zz.Reach("followed")
}

var steps = []struct {
	text  string
	index uint32
	bad   bool
}{{"0", 0, false}, {"2", 2, false}, {"1'", 1<<31 + 1, false}, {"0'", 1 << 31, false}, {"2147483647", 1<<31 - 1, false}, {"2147483647'", 1<<32 - 1, false}, {"", 0, true}, {"x", 0, true}}

// ZZ_Start: a path starts with m; the empty path is the key itself. A public key has no hardened children.
func ZZ_Start() {
	hd.Ideal()
	zz.Bound("every path of up to 3 bytes")
	node, k := root()
	s := zz.Bytes("path", zz.Choose("length", 0, 3))
	if len(s) > 0 && s[0] == 'm' {
		zz.Assume(len(s) == 1 || s[1] != '/')
	}
	ok := len(s) == 0 || len(s) == 1 && s[0] == 'm'
	follow(k, string(s), node, ok)
	_, err := k.HDPublicKey().DeriveByPath("m/1/2'")
	zz.Assert(err != nil, "a public key has no hardened children")
}
