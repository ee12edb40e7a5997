// Package c01 checks the wire buffer and variable-length integers.
package c01

import (
	"github.com/keyfuse/tokucore/xbase"
	zz "github.com/keyfuse/tokucore/zzverif"
)

func le(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v >> (8 * uint(i)))
	}
	return out
}

func refVarInt(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v <= 0xffff:
		return append([]byte{0xfd}, le(v, 2)...)
	case v <= 0xffffffff:
		return append([]byte{0xfe}, le(v, 4)...)
	}
	return append([]byte{0xff}, le(v, 8)...)
}

// ZZ_VarInt: layout, size and round trip for every 64-bit value.
func ZZ_VarInt() {
	v := zz.U64("v")
	b := xbase.NewBuffer()
	b.WriteVarInt(v)
	want := refVarInt(v)
	zz.Assert(zz.Eq(b.Bytes(), want), "varint layout")
	zz.Assert(xbase.VarIntSerializeSize(v) == len(want), "varint size")
	zz.Assert(b.Len() == len(want), "buffer length after varint")
	r := xbase.NewBufferReader(b.Bytes())
	got, err := r.ReadVarInt()
	zz.Assert(err == nil, "varint reads back")
	zz.Assert(got == v, "varint round trip")
	zz.Assert(r.End(), "varint consumes everything")
	zz.ObserveBytes("enc", b.Bytes())
	zz.Reach("end")
	zz.Bound("all 2^64 values")
}

const kinds = 6

type item struct {
	kind int
	v    uint64
	b    []byte
}

func write(b *xbase.Buffer, it item) []byte {
	switch it.kind {
	case 0:
		b.WriteU8(uint8(it.v))
		return le(it.v, 1)
	case 1:
		b.WriteU16(uint32(it.v))
		return le(it.v, 2)
	case 2:
		b.WriteU32(uint32(it.v))
		return le(it.v, 4)
	case 3:
		b.WriteU64(it.v)
		return le(it.v, 8)
	case 4:
		b.WriteVarBytes(it.b)
		return append(refVarInt(uint64(len(it.b))), it.b...)
	}
	b.WriteVarString(string(it.b))
	return append(refVarInt(uint64(len(it.b))), it.b...)
}

func arb(i int, maxBytes int) item {
	k := zz.Choose("kind", 0, kinds-1)
	it := item{kind: k}
	switch k {
	case 0:
		it.v = uint64(zz.U8("u8"))
	case 1:
		it.v = uint64(zz.U16("u16"))
	case 2:
		it.v = uint64(zz.U32("u32"))
	case 3:
		it.v = zz.U64("u64")
	default:
		it.b = zz.Bytes("bytes", zz.Choose("len", 0, maxBytes))
	}
	return it
}

// ZZ_Sequence: any sequence of writes reads back as written, in order, and consumes exactly the bytes.
func ZZ_Sequence() {
	n, mx := 2, 3
	if zz.Thorough() {
		n, mx = 3, 5
	}
	zz.Bound("2 (thorough 3) writes of any kind and value, byte strings up to 3 (thorough 5) bytes")
	b := xbase.NewBuffer()
	var items []item
	var want []byte
	for i := 0; i < n; i++ {
		it := arb(i, mx)
		items = append(items, it)
		want = append(want, write(b, it)...)
		zz.Assert(b.Len() == len(want), "length tracks the writes")
	}
	zz.Assert(zz.Eq(b.Bytes(), want), "little-endian layout")
	r := xbase.NewBufferReader(b.Bytes())
	for _, it := range items {
		zz.Assert(!r.End(), "not at the end before the last item")
		switch it.kind {
		case 0:
			v, err := r.ReadU8()
			zz.Assert(err == nil && uint64(v) == it.v, "u8")
		case 1:
			v, err := r.ReadU16()
			zz.Assert(err == nil && uint64(v) == it.v, "u16")
		case 2:
			v, err := r.ReadU32()
			zz.Assert(err == nil && uint64(v) == it.v, "u32")
		case 3:
			v, err := r.ReadU64()
			zz.Assert(err == nil && v == it.v, "u64")
		case 4:
			v, err := r.ReadVarBytes()
			zz.Assert(err == nil && zz.Eq(v, it.b), "varbytes")
		case 5:
			v, err := r.ReadVarString()
			zz.Assert(err == nil && zz.EqStr(v, string(it.b)), "varstring")
		}
	}
	zz.Assert(r.End(), "everything consumed")
	zz.Assert(r.Seek() == len(want), "seek at the end")
	zz.Assert(len(r.Remaining()) == 0, "nothing remains")
	zz.ObserveBytes("enc", want)
	zz.Reach("end")
}

// ZZ_LongString: the length prefix switches form at 253 bytes.
func ZZ_LongString() {
	n := zz.Choose("len", 250, 258)
	zz.Bound("lengths 250..258")
	p := zz.Bytes("p", n)
	b := xbase.NewBuffer()
	b.WriteVarBytes(p)
	zz.Assert(zz.Eq(b.Bytes(), append(refVarInt(uint64(n)), p...)), "long varbytes layout")
	r := xbase.NewBufferReader(b.Bytes())
	q, err := r.ReadVarBytes()
	zz.Assert(err == nil && zz.Eq(p, q) && r.End(), "long varbytes round trip")
	zz.Reach("end")
}

// ZZ_ReadArbitrary: on arbitrary data every read either fails leaving the position alone,
// or returns exactly the next bytes and advances by them. It never panics.
func ZZ_ReadArbitrary() {
	mx := 4
	if zz.Thorough() {
		mx = 10
	}
	zz.Bound("data up to 4 (thorough 10) bytes, any start position, any requested length")
	d := zz.Bytes("data", zz.Choose("n", 0, mx))
	r := xbase.NewBufferReader(d)
	skip := zz.Choose("skip", 0, len(d))
	if skip > 0 {
		_, err := r.ReadBytes(skip)
		zz.Assert(err == nil, "skip within the data")
	}
	left := len(d) - skip
	zz.AllocLimit(1 << 20)
	switch zz.Choose("op", 0, 6) {
	case 0:
		v, err := r.ReadU8()
		zz.Assert((err == nil) == (left >= 1), "u8 fails iff short")
		if err == nil {
			zz.Assert(uint64(v) == uint64(d[skip]) && r.Seek() == skip+1, "u8 value")
		} else {
			zz.Assert(r.Seek() == skip, "u8 failure does not move")
		}
	case 1:
		v, err := r.ReadU16()
		zz.Assert((err == nil) == (left >= 2), "u16 fails iff short")
		if err == nil {
			zz.Assert(v == uint32(d[skip])|uint32(d[skip+1])<<8 && r.Seek() == skip+2, "u16 value")
		} else {
			zz.Assert(r.Seek() == skip, "u16 failure does not move")
		}
	case 2:
		v, err := r.ReadU32()
		zz.Assert((err == nil) == (left >= 4), "u32 fails iff short")
		if err == nil {
			zz.Assert(zz.Eq(le(uint64(v), 4), d[skip:skip+4]) && r.Seek() == skip+4, "u32 value")
		} else {
			zz.Assert(r.Seek() == skip, "u32 failure does not move")
		}
	case 3:
		v, err := r.ReadU64()
		zz.Assert((err == nil) == (left >= 8), "u64 fails iff short")
		if err == nil {
			zz.Assert(zz.Eq(le(v, 8), d[skip:skip+8]) && r.Seek() == skip+8, "u64 value")
		} else {
			zz.Assert(r.Seek() == skip, "u64 failure does not move")
		}
	case 4:
		l := zz.Int("l")
		v, err := r.ReadBytes(l)
		zz.Assert((err == nil) == (l >= 0 && l <= left), "raw bytes fail iff the length is not available")
		if err == nil {
			zz.Assert(len(v) == l && zz.Eq(v, d[skip:skip+l]) && r.Seek() == skip+l, "raw bytes value")
		} else {
			zz.Assert(r.Seek() == skip, "raw bytes failure does not move")
		}
	case 5:
		v, err := r.ReadVarBytes()
		if err == nil {
			l := len(v)
			zz.Assert(r.Seek() <= len(d) && l < r.Seek()-skip, "varbytes stays inside the data")
			zz.Assert(zz.Eq(v, d[r.Seek()-l:r.Seek()]), "varbytes are the bytes before the position")
		}
	case 6:
		v, err := r.ReadVarInt()
		if err == nil {
			k := r.Seek() - skip
			switch {
			case k == 1:
				zz.Assert(v == uint64(d[skip]) && v < 0xfd, "one-byte varint")
			case k == 3:
				zz.Assert(d[skip] == 0xfd && zz.Eq(le(v, 8), append(append([]byte{}, d[skip+1:skip+3]...), 0, 0, 0, 0, 0, 0)), "three-byte varint")
			case k == 5:
				zz.Assert(d[skip] == 0xfe && zz.Eq(le(v, 8), append(append([]byte{}, d[skip+1:skip+5]...), 0, 0, 0, 0)), "five-byte varint")
			default:
				zz.Assert(k == 9 && d[skip] == 0xff && zz.Eq(le(v, 8), d[skip+1:skip+9]), "nine-byte varint")
			}
		} else if left > 0 {
			need := 1
			switch d[skip] {
			case 0xfd:
				need = 3
			case 0xfe:
				need = 5
			case 0xff:
				need = 9
			}
			zz.Assert(left < need, "varint fails only when short")
		}
	}
	zz.Assert(r.Seek() <= len(d), "the position never passes the end")
	zz.Observe("seek", r.Seek())
	zz.Reach("end")
}

// ZZ_Own: what was read belongs to the reader: neither changes with the other.
func ZZ_Own() {
	zz.Bound("every buffer of 4 bytes, every two pieces read from it")
	src := zz.Bytes("src", 4)
	keep := append([]byte{}, src...)
	b := xbase.NewBufferReader(src)
	i := zz.Choose("first", 0, 4)
	j := zz.Choose("second", 0, 4-i)
	x, err := b.ReadBytes(i)
	y, err2 := b.ReadBytes(j)
	rest := b.Remaining()
	zz.Assert(err == nil && err2 == nil, "reads")
	want := append([]byte{}, rest...)
	for k := range x {
		x[k] ^= 0xff
	}
	x = append(x, 1, 2, 3)
	for k := range y {
		y[k] ^= 0xff
	}
	y = append(y, 1, 2, 3)
	zz.Assert(zz.And(zz.Eq(src, keep), zz.Eq(b.Remaining(), keep[i+j:])), "the source is not changed by changing what was read")
	zz.Assert(zz.And(zz.Eq(rest, want), zz.Eq(rest, keep[i+j:])), "nor is what remained")
	for k := range rest {
		rest[k] ^= 0xff
	}
	zz.Assert(zz.And(zz.Eq(src, keep), zz.Eq(b.Remaining(), keep[i+j:])), "the source is not changed by changing what remained")
	r := xbase.NewBuffer()
	r.WriteVarBytes(keep)
	p := xbase.NewBufferReader(r.Bytes())
	v, err := p.ReadVarBytes()
	zz.Assert(err == nil && zz.Eq(v, keep), "variable bytes")
	for k := range v {
		v[k] ^= 0xff
	}
	q := xbase.NewBufferReader(r.Bytes())
	v, err = q.ReadVarBytes()
	zz.Assert(err == nil && zz.Eq(v, keep), "read again")
	in := zz.Bytes("written", 3)
	was := append([]byte{}, in...)
	w := xbase.NewBuffer()
	w.WriteBytes(in)
	w.WriteVarBytes(in)
	in[0] ^= 0xff
	zz.Assert(zz.Eq(w.Bytes(), append(append(append([]byte{}, was...), 3), was...)), "what was written does not change with its source")
	zz.Reach("end")
}

// ZZ_Reset: a reset buffer is as good as new, and what it handed out before stays as it was.
func ZZ_Reset() {
	zz.Bound("0-5 bytes written, some read, then 0-5 other bytes")
	first := zz.Bytes("first", zz.Choose("first length", 0, 5))
	second := zz.Bytes("second", zz.Choose("second length", 0, 5))
	b := xbase.NewBuffer()
	if zz.Choose("reader", 0, 1) == 1 {
		b = xbase.NewBufferReader(append([]byte{}, first...))
	} else {
		b.WriteBytes(first)
	}
	out := b.Bytes()
	_, err := b.ReadBytes(zz.Choose("read", 0, len(first)))
	zz.Assert(err == nil, "reads")
	b.Reset()
	zz.Assert(b.Len() == 0 && b.Seek() == 0 && b.End() && len(b.Bytes()) == 0 && len(b.Remaining()) == 0, "nothing is left")
	_, err = b.ReadU8()
	zz.Assert(err != nil, "nothing can be read")
	b.WriteBytes(second)
	zz.Assert(b.Len() == len(second) && b.Seek() == 0 && b.End() == (len(second) == 0), "only what is written now is there")
	zz.Assert(zz.And(zz.Eq(b.Bytes(), second), zz.Eq(b.Remaining(), second)), "and it is all there")
	got, err := b.ReadBytes(len(second))
	zz.Assert(err == nil && zz.Eq(got, second) && b.End(), "and can be read")
	zz.Assert(zz.Eq(out, first), "what was handed out before is left alone")
	zz.Reach("end")
}
