// Package c18 checks multisig scripts.
package c18

import (
	"errors"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xvm"
	zz "github.com/keyfuse/tokucore/zzverif"
)

func number(n int) []byte {
	if n == 0 {
		return []byte{0}
	}
	if n <= 16 {
		return []byte{byte(0x50 + n)}
	}
	return []byte{1, byte(n)}
}

func want(m int, ks [][]byte) []byte {
	s := number(m)
	for _, k := range ks {
		s = append(append(s, byte(len(k))), k...)
	}
	return append(append(s, number(len(ks))...), 0xae)
}

// ZZ_Script: the script is m <keys> n OP_CHECKMULTISIG, for every m and n it can work with; anything else is refused.
func ZZ_Script() {
	zz.Bound("0-22 keys, -1 to 23 required signatures, every key of 33 or 65 bytes")
	n := zz.Choose("keys", 0, 22)
	m := zz.Choose("required", -1, 23)
	var ks [][]byte
	for i := 0; i < n; i++ {
		l := 33
		if i == 1 && zz.Choose("form", 0, 1) == 1 {
			l = 65
		}
		ks = append(ks, zz.Bytes("key", l))
	}
	good := m >= 1 && m <= n && n <= 20
	s, err := xcore.GenMultiSigScript(m, ks...)
	p := xcore.NewPayToMultiSigScript(m, ks...)
	s2, err2 := p.GetLockingScriptBytes()
	h, err3 := p.Hash160()
	d, err4 := p.Sha256()
	if !good {
		zz.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil, "a script that nobody or anybody could satisfy is refused")
		zz.Assert(s == nil && s2 == nil && h == nil && d == nil, "and not returned")
		zz.Reach("refused")
		return
	}
	zz.Assert(err == nil && err2 == nil && err3 == nil && err4 == nil, "the script is generated")
	zz.Assert(zz.And(zz.Eq(s, want(m, ks)), zz.Eq(s2, s)), "m, the keys in order, n, OP_CHECKMULTISIG")
	zz.Assert(zz.And(zz.Eq(h, xcrypto.Hash160(s)), zz.Eq(d, xcrypto.Sha256(s))), "the hashes are those of the script")
	zz.Reach("generated")
}

// ZZ_Spend: the generated script is satisfied by exactly m valid signatures in the order of their keys.
func ZZ_Spend() {
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto/ripemd160.New")
	zz.Abstract("github.com/keyfuse/tokucore/xcrypto.Ripemd160")
	top := 3
	if zz.Thorough() {
		top = 5
	}
	zz.Bound("1-3 keys (5 thorough), every required number, 0 to n+1 signatures, every relation of which signature is valid for which key")
	n := zz.Choose("keys", 1, top)
	m := zz.Choose("required", 1, n)
	k := zz.Choose("signatures", 0, n+1)
	var ks [][]byte
	for i := 0; i < n; i++ {
		ks = append(ks, append([]byte{2, byte(i)}, make([]byte, 31)...))
	}
	redeem, err := xcore.GenMultiSigScript(m, ks...)
	zz.Assert(err == nil, "the script is generated")
	valid := make([][]bool, k)
	var signs []xcore.PubKeySign
	for j := range valid {
		valid[j] = make([]bool, n)
		for i := range valid[j] {
			valid[j][i] = zz.Bool("valid")
		}
		signs = append(signs, xcore.PubKeySign{Signature: []byte{0x30, byte(j), 1}})
	}
	e := xvm.NewEngine()
	e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{t}, nil })
	e.SetSigVerifyFn(func(h, s, p []byte) error {
		if valid[s[1]][p[1]] {
			return nil
		}
		return errors.New("invalid")
	})
	sh := xcore.NewPayToScriptHashScript(xcrypto.Hash160(redeem))
	lock, err := sh.GetRawLockingScriptBytes()
	zz.Assert(err == nil, "locking script")
	unlock, err := sh.GetRawUnlockingScriptBytes(signs, redeem)
	zz.Assert(err == nil, "unlocking script")
	got := e.Verify(unlock, lock) == nil
	// the last m signatures count; fewer are too few
	if k < m {
		zz.Assert(!got, "too few signatures are refused")
		zz.Reach("too few")
		return
	}
	use := valid[k-m:]
	// ok[j]: some choice of keys in order serves the first j signatures, over the keys seen so far
	ok := make([]bool, m+1)
	ok[0] = true
	for i := 0; i < n; i++ {
		for j := m; j >= 1; j-- {
			ok[j] = zz.Or(ok[j], zz.And(ok[j-1], use[j-1][i]))
		}
	}
	zz.Assert(got == ok[m], "unlocked exactly by m signatures matching keys in order")
	zz.Reach("decided")
}
