// Package c36 checks transaction and block identifiers.
package c36

import (
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	zz "github.com/keyfuse/tokucore/zzverif"
)

const hexd = "0123456789abcdef"

// refHex is the lower case hexadecimal of b, last byte first.
func refHex(b []byte) []byte {
	var s []byte
	for i := len(b) - 1; i >= 0; i-- {
		s = append(s, hexd[b[i]>>4], hexd[b[i]&15])
	}
	return s
}

func digit(c byte) (bool, byte) {
	dec := zz.And(c >= '0', c <= '9')
	low := zz.And(c >= 'a', c <= 'f')
	up := zz.And(c >= 'A', c <= 'F')
	v := byte(zz.IteU64(dec, uint64(c-'0'), zz.IteU64(low, uint64(c-'a'+10), uint64(c-'A'+10))))
	return zz.Or(dec, zz.Or(low, up)), v
}

// ZZ_Names: a hash is named by its reversed hexadecimal, the name gives the hash back, and neither the hash nor a copy
// of it handed out earlier changes.
func ZZ_Names() {
	n := zz.Choose("n", 0, 34)
	h := zz.Bytes("h", n)
	keep := append([]byte{}, h...)
	id := xbase.NewIDToString(h)
	zz.Assert(zz.EqStr(id, string(refHex(keep))), "the name is the reversed hexadecimal")
	zz.Assert(zz.Eq(h, keep), "naming leaves the hash alone")
	got, err := xbase.NewIDFromString(id)
	zz.Assert(err == nil, "a name is read")
	zz.Assert(zz.Eq(got, keep), "a name gives its hash")
	zz.Assert(zz.EqStr(xbase.NewIDToString(got), id), "and the hash its name")
	if n > 0 {
		got[0] ^= 1
		zz.Assert(zz.Eq(h, keep), "the hash read is the caller's own")
	}
	zz.Reach("end")
	zz.Bound("hashes of 0 to 34 arbitrary bytes")
}

// ZZ_Read: exactly the even strings of hexadecimal digits name something.
func ZZ_Read() {
	max := 8
	if zz.Thorough() {
		max = 12
	}
	n := zz.Choose("n", 0, max)
	s := zz.Bytes("s", n)
	got, err := xbase.NewIDFromString(string(s))
	ok := n%2 == 0
	var want []byte
	for i := n - 2; ok && i >= 0; i -= 2 {
		want = append(want, 0)
	}
	for i := 0; i < n; i++ {
		d, v := digit(s[i])
		ok = zz.And(ok, d)
		if n%2 == 0 {
			k := n/2 - 1 - i/2
			want[k] = want[k]<<4 | v
		}
	}
	zz.Assert((err == nil) == ok, "read exactly when made of whole hexadecimal bytes")
	if err == nil {
		zz.Assert(zz.Eq(got, want), "the bytes last first")
	}
	zz.Reach("end")
	zz.Bound("strings of 0 to 8 (12 thorough) arbitrary bytes")
}

const lockHex = "76a914000102030405060708090a0b0c0d0e0f1011121388ac"

// ZZ_Spend: a coin is spent by the transaction its identifier names; what does not name one is refused.
func ZZ_Spend() {
	n := []int{0, 2, 38, 40, 62, 63, 64, 65, 66, 128}[zz.Choose("n", 0, 9)]
	h := zz.Bytes("h", (n+1)/2)
	id := string(refHex(h))[:n]
	to := xcore.NewPayToPubKeyHashAddress(make([]byte, 20))
	index := zz.U32("index")
	coins := xcore.NewCoinBuilder().AddOutput(id, index, 6000, lockHex).ToCoins()
	tx, err := xcore.NewTransactionBuilder().AddCoin(coins[0]).To(to, 5000).BuildTransaction()
	zz.Assert((err == nil) == (n == 64), "a coin is spent exactly when its transaction is named")
	if err == nil {
		raw := tx.Serialize()
		zz.Assert(zz.Eq(raw[5:37], h), "the input spends the named transaction")
		zz.Assert(uint32(raw[37])|uint32(raw[38])<<8|uint32(raw[39])<<16|uint32(raw[40])<<24 == index, "at the given index")
	}
	zz.Reach("end")
	zz.Bound("identifiers of 10 lengths from 0 to 128 digits, the digits arbitrary")
}
