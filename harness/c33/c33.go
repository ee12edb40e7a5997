// Package c33 checks the framing of protocol messages on a connection.
package c33

import (
	"crypto/sha256"
	"io"
	"net"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
	zz "github.com/keyfuse/tokucore/zzverif"
)

// wire is a connection that delivers given bytes in pieces and records what is written.
type wire struct {
	in, out []byte
	step    int
	during  func()
}

func (c *wire) Read(p []byte) (int, error) {
	if c.during != nil {
		f := c.during
		c.during = nil
		f()
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := c.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}
func (c *wire) Write(p []byte) (int, error)      { c.out = append(c.out, p...); return len(p), nil }
func (c *wire) Close() error                     { return nil }
func (c *wire) LocalAddr() net.Addr              { return nil }
func (c *wire) RemoteAddr() net.Addr             { return nil }
func (c *wire) SetDeadline(time.Time) error      { return nil }
func (c *wire) SetReadDeadline(time.Time) error  { return nil }
func (c *wire) SetWriteDeadline(time.Time) error { return nil }

func sum(b []byte) []byte {
	s := sha256.Sum256(b)
	s = sha256.Sum256(s[:])
	return s[:4]
}

var magic = network.MainNet.Magic

// frame is a message by the protocol.
func frame(command string, payload []byte) []byte {
	out := append([]byte(nil), magic...)
	cmd := make([]byte, 12)
	copy(cmd, command)
	out = append(out, cmd...)
	n := len(payload)
	out = append(out, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
	out = append(out, sum(payload)...)
	return append(out, payload...)
}

func step() int { return []int{1, 3, 24, 25, 1 << 20}[zz.Choose("pieces", 0, 4)] }

// message is some message and its payload.
func message(k int) (xprotocol.Message, []byte) {
	switch k {
	case 0:
		return xprotocol.NewMsgVerAck(), nil
	case 1:
		m := xprotocol.NewMsgPing(zz.U64("nonce"))
		return m, m.Encode()
	case 2:
		m := xprotocol.NewMsgPong(zz.U64("nonce"))
		return m, m.Encode()
	case 3:
		d := zz.Bytes("transaction", zz.Choose("length", 0, 3))
		return xprotocol.NewMsgTx(d), d
	case 4:
		m := xprotocol.NewMsgInv()
		m.AddInvVect(xprotocol.NewInvVect(xprotocol.InvType(zz.U32("type")), zz.Bytes("hash", 32)))
		return m, m.Encode()
	case 5:
		m := xprotocol.NewMsgGetData()
		m.AddInvVect(xprotocol.NewInvVect(xprotocol.InvType(zz.U32("type")), zz.Bytes("hash", 32)))
		return m, m.Encode()
	case 6:
		m := xprotocol.NewMsgHeaders()
		m.AddBlockHeader(&xprotocol.BlockHeader{PrevBlock: zz.Bytes("previous", 32), MerkleRoot: make([]byte, 32), Nonce: zz.U32("header nonce")})
		return m, m.Encode()
	case 7:
		m := xprotocol.NewMsgGetHeaders(network.MainNet)
		m.AddBlockLocatorHash(zz.Bytes("locator", 32))
		return m, m.Encode()
	case 8:
		m := xprotocol.NewMsgReject("tx", xprotocol.RejectDust, "because")
		m.Hash = zz.Bytes("hash", 32)
		return m, m.Encode()
	case 9:
		m := xprotocol.NewMsgVersion(network.MainNet)
		m.Timestamp, m.Nonce = zz.U64("time"), zz.U64("nonce")
		return m, m.Encode()
	}
	d := make([]byte, 40000)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	return xprotocol.NewMsgTx(d), d
}

// ZZ_Write: a message is written as one frame.
func ZZ_Write() {
	zz.MaxSteps(50000000)
	zz.Bound("two messages of all kinds")
	c := &wire{step: 1}
	s := xprotocol.NewStream(c, magic)
	var want []byte
	for i := 0; i < 2; i++ {
		m, p := message(zz.Choose("kind", 0, 9))
		zz.Assert(s.WriteMessage(m) == nil, "a message is written")
		want = append(want, frame(m.Command(), p)...)
		zz.Assert(zz.Eq(c.out, want), "one frame for each message")
	}
	zz.Assert(s.WriteMessage(xprotocol.NewMsgUnhandle("getaddr")) == nil, "any command is written")
	zz.Assert(zz.Eq(c.out, append(want, frame("getaddr", nil)...)), "one frame for each command")
	zz.Reach("written")
}

// ZZ_Read: the messages of a stream are read one after the other, however the bytes arrive.
func ZZ_Read() {
	zz.MaxSteps(50000000)
	zz.Bound("two messages of all kinds, delivered in pieces of 1, 3, 24, 25 bytes or at once")
	c := &wire{step: step()}
	var want [2][]byte
	var cmd [2]string
	for i := range want {
		m, p := message(zz.Choose("kind", 0, 9))
		want[i], cmd[i] = p, m.Command()
		c.in = append(c.in, frame(m.Command(), p)...)
	}
	c.in = append(c.in, frame("feefilter", []byte{1, 2, 3})...)
	s := xprotocol.NewStream(c, magic)
	for i := range want {
		m, err := s.ReadMessage()
		zz.Assert(err == nil, "a message is read")
		zz.Assert(m.Command() == cmd[i], "of its kind")
		zz.Assert(zz.Eq(m.Encode(), want[i]), "with its content")
		kind(m, cmd[i])
	}
	m, err := s.ReadMessage()
	zz.Assert(err == nil && m.Command() == "feefilter", "an unknown message is passed on by its name")
	_, err = s.ReadMessage()
	zz.Assert(err != nil, "the end of the stream is an error")
	zz.Reach("read")
}

// kind checks the type of a message.
func kind(m xprotocol.Message, cmd string) {
	ok := false
	switch cmd {
	case "verack":
		_, ok = m.(*xprotocol.MsgVerAck)
	case "ping":
		_, ok = m.(*xprotocol.MsgPing)
	case "pong":
		_, ok = m.(*xprotocol.MsgPong)
	case "tx":
		_, ok = m.(*xprotocol.MsgTx)
	case "inv":
		_, ok = m.(*xprotocol.MsgInv)
	case "getdata":
		_, ok = m.(*xprotocol.MsgGetData)
	case "headers":
		_, ok = m.(*xprotocol.MsgHeaders)
	case "getheaders":
		_, ok = m.(*xprotocol.MsgGetHeaders)
	case "reject":
		_, ok = m.(*xprotocol.MsgReject)
	case "version":
		_, ok = m.(*xprotocol.MsgVersion)
	}
	zz.Assert(ok, "of its type")
}

// ZZ_Large: a message larger than the buffers.
func ZZ_Large() {
	zz.MaxSteps(50000000)
	zz.Bound("one transaction of 40000 bytes, delivered in pieces")
	m, p := message(10)
	c := &wire{step: []int{1000, 32768, 40024, 1 << 20}[zz.Choose("pieces", 0, 3)]}
	w := xprotocol.NewStream(c, magic)
	zz.Assert(w.WriteMessage(m) == nil, "a large message is written")
	zz.Assert(len(c.out) == 24+len(p), "completely")
	c.in, c.out = c.out, nil
	g, err := xprotocol.NewStream(c, magic).ReadMessage()
	zz.Assert(err == nil && zz.Eq(g.Encode(), p), "and read")
	zz.Reach("large")
}

// ZZ_Refuse: a frame of another network, with a wrong checksum, or that ends early is an error.
func ZZ_Refuse() {
	zz.Bound("a frame of a ping message, an unknown one of 0-3 bytes or a verack message, with any other magic or checksum, or cut anywhere")
	var p, f []byte
	switch zz.Choose("message", 0, 2) {
	case 0:
		p = zz.Bytes("nonce", 8)
		f = frame("ping", p)
	case 1:
		p = zz.Bytes("data", zz.Choose("length", 0, 3))
		f = frame("zzunknown", p)
	case 2:
		f = frame("verack", p)
	}
	switch zz.Choose("fault", 0, 3) {
	case 0:
		b := zz.Bytes("magic", 4)
		zz.Assume(!zz.Eq(b, magic))
		copy(f, b)
	case 1:
		// the error: a counterexample then does not depend on the hash
		b := zz.Bytes("error", 4)
		zz.Assume(!zz.Eq(b, make([]byte, 4)))
		for i := range b {
			f[20+i] ^= b[i]
		}
	case 2:
		f = f[:zz.Choose("cut", 0, len(f)-1)]
	case 3:
		// a checksum of other data
		q := zz.Bytes("other", len(p)+1)
		zz.Assume(!zz.Eq(sum(q), sum(p)))
		copy(f[20:], sum(q))
	}
	c := &wire{step: step(), in: f}
	m, err := xprotocol.NewStream(c, magic).ReadMessage()
	zz.Assert(err != nil, "a wrong frame is an error")
	zz.Assert(m == nil, "and no message")
	zz.Reach("refused")
}

// ZZ_Claim: a frame does not take more memory than the largest message of the protocol.
func ZZ_Claim() {
	zz.AllocLimit(40 << 20)
	zz.Bound("every claimed length, with 4 bytes present")
	f := append([]byte(nil), magic...)
	f = append(f, "tx\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"...)
	f = append(f, zz.Bytes("claimed length", 4)...)
	n := uint32(f[16]) | uint32(f[17])<<8 | uint32(f[18])<<16 | uint32(f[19])<<24
	zz.Assume(n > 4)
	if n <= 64<<20 {
		zz.Assume(n < 16) // lengths that may be accepted
	}
	f = append(f, zz.Bytes("rest", 8)...)
	c := &wire{step: 1 << 20, in: f}
	_, err := xprotocol.NewStream(c, magic).ReadMessage()
	zz.Assert(err != nil, "a frame with less data than it claims is an error")
	zz.Reach("claimed")
}

// ZZ_Any: whatever arrives is read as a message or is an error.
func ZZ_Any() {
	zz.AllocLimit(1 << 20)
	zz.Bound("every command with 0-3 bytes of data and the right checksum; every data")
	cmd := zz.Bytes("command", 12)
	p := zz.Bytes("data", zz.Choose("length", 0, 3))
	f := frame("", p)
	copy(f[4:], cmd)
	c := &wire{step: 1 << 20, in: f}
	m, err := xprotocol.NewStream(c, magic).ReadMessage()
	if err == nil {
		zz.Assert(m != nil, "a message or an error")
		zz.Reach("message")
		return
	}
	zz.Reach("error")
}

// ZZ_Both: a message can be sent while the stream waits for one to arrive.
func ZZ_Both() {
	zz.Bound("one message sent during the first read of another")
	m, p := message(zz.Choose("kind", 0, 9))
	c := &wire{step: step(), in: frame(m.Command(), p)}
	s := xprotocol.NewStream(c, magic)
	n := zz.U64("own nonce")
	ping := xprotocol.NewMsgPing(n)
	c.during = func() {
		zz.Assert(s.WriteMessage(ping) == nil, "a message is sent while another is awaited")
		zz.Assert(zz.Eq(c.out, frame("ping", ping.Encode())), "completely")
	}
	g, err := s.ReadMessage()
	zz.Assert(err == nil && zz.Eq(g.Encode(), p), "and the other is read")
	zz.Reach("both")
}
