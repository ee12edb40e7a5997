// Package c32 checks the messages of the peer-to-peer protocol.
package c32

import (
	"crypto/sha256"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
	zz "github.com/keyfuse/tokucore/zzverif"
)

func le16(v uint32) []byte { return []byte{byte(v), byte(v >> 8)} }
func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func le64(v uint64) []byte { return append(le32(uint32(v)), le32(uint32(v>>32))...) }
func be16(v uint32) []byte { return []byte{byte(v >> 8), byte(v)} }

func varint(n int) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n < 1<<16:
		return append([]byte{0xfd}, le16(uint32(n))...)
	}
	return append([]byte{0xfe}, le32(uint32(n))...)
}

func cat(parts ...[]byte) (out []byte) {
	for _, p := range parts {
		out = append(out, p...)
	}
	return
}

// codec checks encoding against the wire format, and every truncation of it.
func codec(m xprotocol.Message, fresh func() xprotocol.Message, wire []byte, command string) xprotocol.Message {
	zz.Assert(m.Command() == command, "the command of the message")
	zz.Assert(m.Size() == len(wire), "the size is that of the encoding")
	zz.Assert(zz.Eq(m.Encode(), wire), "the encoding is the protocol's")
	zz.Assert(zz.Eq(m.Encode(), wire) && m.Size() == len(wire), "encoding does not change the message")
	got := fresh()
	zz.Assert(got.Decode(append([]byte(nil), wire...)) == nil, "an encoded message is decoded")
	zz.Assert(zz.Eq(got.Encode(), wire), "the decoded message has the same encoding")
	zz.Assert(got.Size() == len(wire), "the decoded message has the same size")
	if len(wire) > 0 && command != "tx" {
		cut := zz.Choose("cut", 1, len(wire))
		if cut > 40 {
			cut = len(wire)
		}
		zz.Assert(fresh().Decode(append([]byte(nil), wire[:len(wire)-cut]...)) != nil, "a truncated message is refused")
	}
	zz.Reach("codec")
	return got
}

// ZZ_Version: the version message.
func ZZ_Version() {
	zz.Bound("every field value, user agents of 0-3 and 252-254 bytes")
	m := xprotocol.NewMsgVersion(network.TestNet)
	m.Version, m.Services, m.Timestamp, m.ServicesYou = zz.U32("version"), zz.U64("services"), zz.U64("time"), zz.U64("services you")
	m.AddressYou, m.PortYou, m.ServicesMe = zz.Bytes("address you", 16), uint32(zz.U16("port you")), zz.U64("services me")
	m.AddressMe, m.PortMe, m.Nonce = zz.Bytes("address me", 16), uint32(zz.U16("port me")), zz.U64("nonce")
	n := []int{0, 1, 2, 3, 252, 253, 254}[zz.Choose("user agent", 0, 6)]
	m.UserAgent, m.LastBlock, m.Relay = zz.Str("agent", n), zz.U32("last block"), zz.U8("relay")
	wire := cat(le32(m.Version), le64(m.Services), le64(m.Timestamp), le64(m.ServicesYou), m.AddressYou, be16(m.PortYou), le64(m.ServicesMe), m.AddressMe, be16(m.PortMe), le64(m.Nonce),
		varint(n), []byte(m.UserAgent), le32(m.LastBlock), []byte{m.Relay})
	g := codec(m, func() xprotocol.Message { return &xprotocol.MsgVersion{} }, wire, "version").(*xprotocol.MsgVersion)
	zz.Assert(g.Version == m.Version && g.Services == m.Services && g.Timestamp == m.Timestamp && g.ServicesYou == m.ServicesYou && g.ServicesMe == m.ServicesMe, "the fields come back (1)")
	zz.Assert(g.PortYou == m.PortYou && g.PortMe == m.PortMe && g.Nonce == m.Nonce && g.LastBlock == m.LastBlock && g.Relay == m.Relay, "the fields come back (2)")
	zz.Assert(zz.Eq(g.AddressYou, m.AddressYou) && zz.Eq(g.AddressMe, m.AddressMe) && zz.EqStr(g.UserAgent, m.UserAgent), "the fields come back (3)")
}

// ZZ_Own: the version message a node sends.
func ZZ_Own() {
	net := network.MainNet
	if zz.Choose("net", 0, 1) == 1 {
		net = network.TestNet
	}
	m := xprotocol.NewMsgVersion(net)
	zz.Assert(m.Version == net.ProtocolVersion && m.UserAgent == net.UserAgent && m.PortMe == net.Port && m.PortYou == net.Port, "the network's parameters")
	zz.Assert(len(m.AddressMe) == 16 && len(m.AddressYou) == 16, "addresses of 16 bytes")
	zz.Assert(m.Size() == len(m.Encode()), "the size is that of the encoding")
	zz.Reach("own")
}

// ZZ_Inventories: inv and getdata.
func ZZ_Inventories() {
	zz.Bound("0-2 inventory vectors (4 thorough), every type and hash; a message used for an earlier decoding or not")
	top := 2
	if zz.Thorough() {
		top = 4
	}
	n := zz.Choose("vectors", 0, top)
	kind := zz.Choose("kind", 0, 1)
	var vs []*xprotocol.InvVect
	wire := varint(n)
	for i := 0; i < n; i++ {
		v := xprotocol.NewInvVect(xprotocol.InvType(zz.U32("type")), zz.Bytes("hash", 32))
		zz.Assert(v.Size() == 36, "36 bytes")
		vs = append(vs, v)
		wire = cat(wire, le32(uint32(v.Type)), v.Hash)
	}
	used := zz.Choose("used", 0, 1) == 1
	old := cat(varint(1), le32(2), make([]byte, 32))
	var back []*xprotocol.InvVect
	if kind == 0 {
		m := xprotocol.NewMsgInv()
		zz.Assert(m.AddInvVect(vs...) == nil, "vectors are added")
		back = codec(m, func() xprotocol.Message {
			m := xprotocol.NewMsgInv()
			if used {
				zz.Assert(m.Decode(old) == nil, "an earlier message")
			}
			return m
		}, wire, "inv").(*xprotocol.MsgInv).Invs
	} else {
		m := xprotocol.NewMsgGetData()
		zz.Assert(m.AddInvVect(vs...) == nil, "vectors are added")
		back = codec(m, func() xprotocol.Message {
			m := xprotocol.NewMsgGetData()
			if used {
				zz.Assert(m.Decode(old) == nil, "an earlier message")
			}
			return m
		}, wire, "getdata").(*xprotocol.MsgGetData).InvList
	}
	zz.Assert(len(back) == n, "as many vectors")
	for i, v := range back {
		zz.Assert(v.Type == vs[i].Type && zz.Eq(v.Hash, vs[i].Hash), "the vectors come back")
	}
}

// ZZ_Headers: headers.
func ZZ_Headers() {
	zz.Bound("0-2 headers (4 thorough), every field; a message used for an earlier decoding or not")
	top := 2
	if zz.Thorough() {
		top = 4
	}
	n := zz.Choose("headers", 0, top)
	m := xprotocol.NewMsgHeaders()
	wire := varint(n)
	for i := 0; i < n; i++ {
		h := &xprotocol.BlockHeader{Version: zz.U32("version"), PrevBlock: zz.Bytes("previous", 32), MerkleRoot: zz.Bytes("root", 32), Timestamp: zz.U32("time"), Bits: zz.U32("bits"), Nonce: zz.U32("nonce")}
		raw := cat(le32(h.Version), h.PrevBlock, h.MerkleRoot, le32(h.Timestamp), le32(h.Bits), le32(h.Nonce))
		zz.Assert(h.Size() == 80, "80 bytes")
		zz.Assert(zz.Eq(h.BlockHash(), double(raw)), "the hash of the header")
		zz.Assert(m.AddBlockHeader(h) == nil, "headers are added")
		wire = cat(wire, raw, []byte{0})
	}
	used := zz.Choose("used", 0, 1) == 1
	g := codec(m, func() xprotocol.Message {
		m := xprotocol.NewMsgHeaders()
		if used {
			zz.Assert(m.Decode(cat([]byte{1}, make([]byte, 81))) == nil, "an earlier message")
		}
		return m
	}, wire, "headers").(*xprotocol.MsgHeaders)
	zz.Assert(len(g.Headers) == n, "as many headers")
	for i, h := range g.Headers {
		w := m.Headers[i]
		zz.Assert(h.Version == w.Version && zz.Eq(h.PrevBlock, w.PrevBlock) && zz.Eq(h.MerkleRoot, w.MerkleRoot) && h.Timestamp == w.Timestamp && h.Bits == w.Bits && h.Nonce == w.Nonce, "the headers come back")
	}
}

// ZZ_GetHeaders: getheaders.
func ZZ_GetHeaders() {
	zz.Bound("0-2 locators (4 thorough), every hash, version and stop hash")
	top := 2
	if zz.Thorough() {
		top = 4
	}
	n := zz.Choose("locators", 0, top)
	m := xprotocol.NewMsgGetHeaders(network.TestNet)
	var hashes []byte
	for i := 0; i < n; i++ {
		h := zz.Bytes("locator", 32)
		hashes = append(hashes, h...)
		zz.Assert(m.AddBlockLocatorHash(h) == nil, "locators are added")
	}
	c := n
	if n == 0 {
		c, hashes = 1, make([]byte, 32)
	}
	wire := cat(le32(network.TestNet.ProtocolVersion), varint(c), hashes, make([]byte, 32))
	fresh := func() xprotocol.Message {
		m := xprotocol.NewMsgGetHeaders(network.MainNet)
		m.AddBlockLocatorHash(make([]byte, 32))
		return m
	}
	codec(m, fresh, wire, "getheaders")
	// as it comes from a peer
	wire = cat(le32(zz.U32("version")), varint(c), hashes, zz.Bytes("stop", 32))
	g := fresh()
	zz.Assert(g.Decode(wire) == nil, "a message is decoded")
	zz.Assert(zz.Eq(g.Encode(), wire) && g.Size() == len(wire), "and has the same encoding")
}

// ZZ_Reject: reject.
func ZZ_Reject() {
	zz.Bound("commands block and tx and any of 0-3 bytes, reasons of 0-2 and 252-254 bytes, every code and hash")
	var cmd string
	switch k := zz.Choose("command", 0, 5); k {
	case 0:
		cmd = "block"
	case 1:
		cmd = "tx"
	default:
		cmd = zz.Str("other", k-2)
		if len(cmd) == 2 {
			zz.Assume(!zz.EqStr(cmd, "tx"))
		}
	}
	n := []int{0, 1, 2, 252, 253, 254}[zz.Choose("reason", 0, 5)]
	m := xprotocol.NewMsgReject(cmd, xprotocol.RejectCode(zz.U8("code")), zz.Str("text", n))
	m.Hash = zz.Bytes("hash", 32)
	wire := cat(varint(len(cmd)), []byte(cmd), []byte{m.Code}, varint(n), []byte(m.Reason))
	if cmd == "block" || cmd == "tx" {
		wire = append(wire, m.Hash...)
	}
	g := codec(m, func() xprotocol.Message { return &xprotocol.MsgReject{} }, wire, "reject").(*xprotocol.MsgReject)
	zz.Assert(zz.EqStr(g.Cmd, cmd) && g.Code == m.Code && zz.EqStr(g.Reason, m.Reason), "the fields come back")
	if cmd == "block" || cmd == "tx" {
		zz.Assert(zz.Eq(g.Hash, m.Hash), "the hash comes back")
	}
}

// ZZ_Small: ping, pong, verack, tx.
func ZZ_Small() {
	zz.Bound("every nonce, transactions of 0-4 bytes")
	n := zz.U64("nonce")
	switch zz.Choose("kind", 0, 3) {
	case 0:
		g := codec(xprotocol.NewMsgPing(n), func() xprotocol.Message { return &xprotocol.MsgPing{} }, le64(n), "ping").(*xprotocol.MsgPing)
		zz.Assert(g.Nonce == n, "the nonce comes back")
	case 1:
		g := codec(xprotocol.NewMsgPong(n), func() xprotocol.Message { return &xprotocol.MsgPong{} }, le64(n), "pong").(*xprotocol.MsgPong)
		zz.Assert(g.Nonce == n, "the nonce comes back")
	case 2:
		codec(xprotocol.NewMsgVerAck(), func() xprotocol.Message { return xprotocol.NewMsgVerAck() }, nil, "verack")
	case 3:
		d := zz.Bytes("data", zz.Choose("length", 0, 4))
		codec(xprotocol.NewMsgTx(d), func() xprotocol.Message { return xprotocol.NewMsgTx(nil) }, d, "tx")
	}
	u := xprotocol.NewMsgUnhandle("addr")
	zz.Assert(u.Command() == "addr" && u.Size() == len(u.Encode()) && u.Decode([]byte{1, 2}) == nil, "other messages")
}

// ZZ_Hostile: whatever a peer sends is decoded or refused, without a panic and without taking much memory.
func ZZ_Hostile() {
	top := 6
	if zz.Thorough() {
		top = 12
	}
	zz.Bound("every payload of 0-6 bytes (12 thorough) and selected longer ones with every count")
	zz.AllocLimit(1 << 16)
	ms := []xprotocol.Message{&xprotocol.MsgVersion{}, xprotocol.NewMsgInv(), xprotocol.NewMsgGetData(), xprotocol.NewMsgGetHeaders(network.TestNet), xprotocol.NewMsgHeaders(), &xprotocol.MsgReject{}, &xprotocol.MsgPing{}, &xprotocol.MsgPong{}, xprotocol.NewMsgVerAck(), xprotocol.NewMsgTx(nil), xprotocol.NewMsgUnhandle("x")}
	k := zz.Choose("message", 0, len(ms)-1)
	m := ms[k]
	n := zz.Choose("length", 0, top+1)
	if n == top+1 {
		n = []int{90, 75, 75, 105, 84, 40, 9, 9, 9, 9, 9}[k]
	}
	data := zz.Bytes("data", n)
	if m.Decode(data) != nil {
		zz.Reach("refused")
		return
	}
	m.Encode()
	zz.Assert(m.Size() == len(m.Encode()), "a decoded message has the size of its encoding")
	zz.Reach("decoded")
}

// ZZ_Count: a message that claims more entries than it carries, or than are allowed, is refused.
func ZZ_Count() {
	zz.Bound("every count of up to 64 bits in its 9-byte form with 0-2 entries present")
	zz.AllocLimit(1 << 16)
	c := zz.U64("count")
	n := zz.Choose("present", 0, 2)
	zz.Assume(c > uint64(n))
	head := append([]byte{0xff}, le64(c)...)
	kind := zz.Choose("kind", 0, 3)
	var err error
	switch kind {
	case 0:
		err = xprotocol.NewMsgInv().Decode(cat(head, make([]byte, 36*n)))
	case 1:
		err = xprotocol.NewMsgGetData().Decode(cat(head, make([]byte, 36*n)))
	case 2:
		err = xprotocol.NewMsgHeaders().Decode(cat(head, make([]byte, 81*n)))
	case 3:
		err = xprotocol.NewMsgGetHeaders(network.TestNet).Decode(cat(le32(1), head, make([]byte, 32*n)))
	}
	zz.Assert(err != nil, "a message with fewer entries than it claims is refused")
	zz.Reach("counted")
}

// ZZ_Limits: a message takes up to the largest number of entries of the protocol and not one more.
func ZZ_Limits() {
	zz.MaxSteps(100000000)
	zz.Bound("entries added at once and then one by one around the limits")
	over := zz.Choose("over", 0, 3)
	iv := xprotocol.NewInvVect(xprotocol.InvTypeTx, make([]byte, 32))
	kind := zz.Choose("kind", 0, 2)
	limit := xprotocol.MaxInvPerMsg
	if kind == 2 {
		limit = xprotocol.MaxBlockHeadersPerMsg
	}
	zz.Assert(xprotocol.MaxInvPerMsg == 50000 && xprotocol.MaxBlockHeadersPerMsg == 2000, "the limits of the protocol")
	first, second := limit, over
	if over == 3 {
		first, second = 3, limit-2
	}
	add := func(k int) (err error, n int) { return nil, 0 }
	switch kind {
	case 0:
		m := xprotocol.NewMsgInv()
		add = func(k int) (error, int) {
			l := make([]*xprotocol.InvVect, k)
			for i := range l {
				l[i] = iv
			}
			return m.AddInvVect(l...), len(m.Invs)
		}
	case 1:
		m := xprotocol.NewMsgGetData()
		add = func(k int) (error, int) {
			l := make([]*xprotocol.InvVect, k)
			for i := range l {
				l[i] = iv
			}
			return m.AddInvVect(l...), len(m.InvList)
		}
	case 2:
		m := xprotocol.NewMsgHeaders()
		h := &xprotocol.BlockHeader{}
		add = func(k int) (error, int) {
			l := make([]*xprotocol.BlockHeader, k)
			for i := range l {
				l[i] = h
			}
			return m.AddBlockHeader(l...), len(m.Headers)
		}
	}
	err, n := add(first)
	zz.Assert(err == nil && n == first, "entries up to the limit are added")
	if second > 0 {
		err, n = add(second)
		zz.Assert(err != nil && n == first, "entries beyond the limit are refused")
	}
	zz.Reach("limits")
}

func double(b []byte) []byte {
	s := sha256.Sum256(b)
	s = sha256.Sum256(s[:])
	return s[:]
}

// ZZ_Full: a message with as many entries as allowed is decoded, one with one more is refused.
func ZZ_Full() {
	zz.MaxSteps(400000000)
	zz.Bound("inv and getdata of 49999-50001 entries, headers of 1999-2001, getheaders of 101 locators; the last entry of any value")
	size, limit := 36, 50000
	kind := zz.Choose("kind", 0, 3)
	if kind == 2 {
		size, limit = 81, 2000
	}
	n := limit + zz.Choose("entries", -1, 1)
	if kind == 3 {
		size, n = 32, 101
	}
	last := zz.Bytes("last", 32)
	body := make([]byte, n*size)
	copy(body[(n-1)*size+4:], last)
	if kind == 3 {
		copy(body[(n-1)*size:], last)
	}
	wire := cat(varint(n), body)
	var err error
	var got []byte
	switch kind {
	case 0:
		m := xprotocol.NewMsgInv()
		if err = m.Decode(wire); err == nil {
			zz.Assert(len(m.Invs) == n, "every entry")
			got = m.Invs[n-1].Hash
		}
	case 1:
		m := xprotocol.NewMsgGetData()
		if err = m.Decode(wire); err == nil {
			zz.Assert(len(m.InvList) == n, "every entry")
			got = m.InvList[n-1].Hash
		}
	case 2:
		m := xprotocol.NewMsgHeaders()
		if err = m.Decode(wire); err == nil {
			zz.Assert(len(m.Headers) == n, "every entry")
			got = m.Headers[n-1].PrevBlock
		}
	case 3:
		m := xprotocol.NewMsgGetHeaders(network.MainNet)
		wire = cat(le32(70015), wire, make([]byte, 32))
		if err = m.Decode(wire); err == nil {
			got = m.Encode()
			zz.Assert(len(got) == len(wire), "every entry")
			got = got[len(got)-64 : len(got)-32]
		}
	}
	zz.Assert((err == nil) == (n <= limit), "as many entries as allowed")
	if err == nil {
		zz.Assert(zz.Eq(got, last), "the last entry")
		zz.Reach("full")
	} else {
		zz.Reach("too many")
	}
}
