// Package c30 checks Merkle trees and proofs.
package c30

import (
	"github.com/keyfuse/tokucore/xcrypto"
	zz "github.com/keyfuse/tokucore/zzverif"
)

func top() int {
	if zz.Thorough() {
		return 20
	}
	return 10
}

func leaves(n int) [][]byte {
	var l [][]byte
	for i := 0; i < n; i++ {
		l = append(l, zz.Bytes("leaf", 32))
	}
	return l
}

func pair(a, b []byte) []byte { return xcrypto.DoubleSha256(append(append([]byte{}, a...), b...)) }

// root is Bitcoin's: an odd row repeats its last hash.
func root(row [][]byte) []byte {
	for len(row) > 1 {
		var next [][]byte
		for i := 0; i < len(row); i += 2 {
			if i+1 == len(row) {
				next = append(next, pair(row[i], row[i]))
			} else {
				next = append(next, pair(row[i], row[i+1]))
			}
		}
		row = next
	}
	return row[0]
}

func depth(n int) int {
	d := 0
	for 1<<uint(d) < n {
		d++
	}
	return d
}

// ZZ_Root: the root is Bitcoin's for every number of hashes, and the hashes are left alone.
func ZZ_Root() {
	zz.Bound("0-10 hashes (20 thorough), every hash")
	n := zz.Choose("hashes", 0, top())
	if n == 0 {
		m := xcrypto.NewMerkle(nil)
		zz.Assert(len(m.Root()) == 0, "no hashes, no root")
		zz.Assert(len(m.Proofs(zz.Bytes("leaf", 32))) == 0, "no hashes, no proof")
		zz.Reach("empty")
		return
	}
	l := leaves(n)
	old := append([][]byte{}, l...)
	want := root(append([][]byte{}, l...))
	m := xcrypto.NewMerkle(l)
	zz.Assert(zz.Eq(m.Root(), want), "Bitcoin's root")
	for i := range l {
		zz.Assert(zz.Eq(l[i], old[i]), "hashes unchanged")
	}
	zz.Reach("root")
}

// ZZ_Proof: every hash of the tree has a proof that verifies, for it and its root alone; other hashes have none.
func ZZ_Proof() {
	zz.Bound("1-10 hashes (20 thorough), every hash, every position")
	n := zz.Choose("hashes", 1, top())
	l := leaves(n)
	m := xcrypto.NewMerkle(l)
	i := zz.Choose("index", 0, n)
	if i == n {
		x := zz.Bytes("other", 32)
		for _, y := range l {
			zz.Assume(!zz.Eq(x, y))
		}
		zz.Assert(len(m.Proofs(x)) == 0, "a hash outside the tree has no proof")
		zz.Reach("none")
		return
	}
	p := m.Proofs(l[i])
	zz.Assert(len(p) == depth(n), "one step a row")
	zz.Assert(m.Verify(l[i], root(append([][]byte{}, l...)), p), "the proof verifies")
	x := zz.Bytes("other", 32)
	zz.Assume(!zz.Eq(x, l[i]))
	zz.Assert(!m.Verify(x, m.Root(), p), "not for another hash")
	zz.Assert(m.Verify(l[i], m.Root(), p), "and still verifies afterwards")
	zz.Reach("proved")
}

// ZZ_ProofRoot: a proof does not verify for any other root.
func ZZ_ProofRoot() {
	zz.Bound("1-3 hashes, every hash, every position, every root of 0-33 bytes")
	n := zz.Choose("hashes", 1, 3)
	l := leaves(n)
	m := xcrypto.NewMerkle(l)
	i := zz.Choose("index", 0, n-1)
	p := m.Proofs(l[i])
	r := zz.Bytes("root", 31+zz.Choose("length", -31, 2))
	zz.Assume(!zz.Eq(r, m.Root()))
	zz.Assert(!m.Verify(l[i], r, p), "a proof is for one root")
	zz.Reach("refused")
}

// ZZ_Sound: whatever proof of the tree's depth is presented, it only verifies for the hash that is at the position it describes.
func ZZ_Sound() {
	zz.Bound("1-5 hashes (9 thorough), every hash, every proof of the tree's depth")
	t := 5
	if zz.Thorough() {
		t = 9
	}
	n := zz.Choose("hashes", 1, t)
	l := leaves(n)
	m := xcrypto.NewMerkle(l)
	d := depth(n)
	var p []xcrypto.Node
	index := 0
	for i := 0; i < d; i++ {
		nd := xcrypto.Node{Hash: zz.Bytes("sibling", 32), Parent: zz.Bytes("parent", 32)}
		switch zz.Choose("position", 0, 2) {
		case 0:
			nd.Position = "right"
		case 1:
			nd.Position = "left"
			index |= 1 << uint(i)
		case 2:
			nd.Position = zz.Str("word", 4)
			zz.Assume(!zz.EqStr(nd.Position, "left"))
			index = -1 << 20
		}
		p = append(p, nd)
	}
	x := zz.Bytes("hash", 32)
	got := m.Verify(x, m.Root(), p)
	if !got {
		zz.Reach("refused")
		return
	}
	zz.Assert(index >= 0, "positions are left or right")
	// positions past the end of a row repeat its last hash
	k := index
	for i := d - 1; i >= 0; i-- {
		if k>>uint(i) >= (n+1<<uint(i)-1)>>uint(i) {
			k -= 1 << uint(i)
		}
	}
	zz.Assert(k >= 0 && k < n, "a position in the tree")
	zz.Assert(zz.Eq(x, l[k]), "only a hash of the tree verifies")
	zz.Reach("accepted")
}
