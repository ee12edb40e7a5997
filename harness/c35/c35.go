// Package c35 checks the connection to a peer.
package c35

import (
	"crypto/sha256"
	"errors"
	"io"
	"net"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
	zz "github.com/keyfuse/tokucore/zzverif"
)

var broken = errors.New("broken")

// wire is a connection that delivers given bytes in pieces, may fail, and records what is done to it.
type wire struct {
	in, out  []byte
	step     int
	readErr  error // at the end of the bytes
	writeMax int   // bytes that can be written before an error, or -1
	noRead   bool  // no read deadline can be set
	noWrite  bool  // no write deadline can be set
	closed   int
	armed    bool // the read deadline is set since the last message
	unarmed  bool // something was read without a deadline
	warmed   bool
	unwarmed bool
	writes   int
	during   func(write int)
	waits    func()
	limit    func()
	failed   int // reads that failed
}

// late is the error of a read that took too long.
type late struct{}

func (late) Error() string   { return "i/o timeout" }
func (late) Timeout() bool   { return true }
func (late) Temporary() bool { return true }

func (c *wire) Read(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, broken
	}
	if !c.armed {
		c.unarmed = true
	}
	if c.waits != nil && len(c.in) == 0 {
		f := c.waits
		c.waits = nil
		f()
	}
	if len(c.in) == 0 {
		c.failed++
		if c.failed > 20 {
			panic("a connection that has failed is read again and again")
		}
		return 0, c.readErr
	}
	n := c.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}
func (c *wire) Write(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, broken
	}
	if !c.warmed {
		c.unwarmed = true
	}
	k := c.writes
	c.writes++
	if c.during != nil {
		c.during(k)
	}
	if c.writeMax >= 0 && len(p) > c.writeMax {
		n := c.writeMax
		c.out = append(c.out, p[:n]...)
		c.writeMax = 0
		return n, broken
	}
	if c.writeMax >= 0 {
		c.writeMax -= len(p)
	}
	c.out = append(c.out, p...)
	return len(p), nil
}
func (c *wire) Close() error                { c.closed++; return nil }
func (c *wire) LocalAddr() net.Addr         { return addr("here") }
func (c *wire) RemoteAddr() net.Addr        { return addr("there") }
func (c *wire) SetDeadline(time.Time) error { c.armed, c.warmed = true, true; return nil }
func (c *wire) SetReadDeadline(time.Time) error {
	if c.noRead || c.closed > 0 {
		return broken
	}
	c.armed = true
	return nil
}
func (c *wire) SetWriteDeadline(time.Time) error {
	if c.noWrite || c.closed > 0 {
		return broken
	}
	c.warmed = true
	if c.limit != nil {
		c.limit()
	}
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func sum(b []byte) []byte {
	s := sha256.Sum256(b)
	s = sha256.Sum256(s[:])
	return s[:4]
}

// frame is a message by the protocol.
func frame(command string, payload []byte) []byte {
	out := append([]byte(nil), network.MainNet.Magic...)
	cmd := make([]byte, 12)
	copy(cmd, command)
	out = append(out, cmd...)
	n := len(payload)
	out = append(out, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
	out = append(out, sum(payload)...)
	return append(out, payload...)
}

func step() int { return []int{1, 5, 24, 1 << 20}[zz.Choose("pieces", 0, 3)] }

// message is some message, its command and its payload.
func message() (xprotocol.Message, string, []byte) {
	switch zz.Choose("kind", 0, 3) {
	case 0:
		return xprotocol.NewMsgVerAck(), "verack", nil
	case 1:
		m := xprotocol.NewMsgPing(zz.U64("nonce"))
		return m, "ping", m.Encode()
	case 2:
		d := zz.Bytes("transaction", zz.Choose("length", 1, 2))
		return xprotocol.NewMsgTx(d), "tx", d
	}
	m := xprotocol.NewMsgInv()
	m.AddInvVect(xprotocol.NewInvVect(xprotocol.InvType(zz.U32("type")), zz.Bytes("hash", 32)))
	return m, "inv", m.Encode()
}

// ZZ_Deliver: every message that arrives whole before the first error is handed over once, in order, and is
// not changed by what arrives later; the end is reported once, after that.
func ZZ_Deliver() {
	zz.MaxSteps(50000000)
	zz.Bound("0-3 messages (4 thorough) of four kinds, in pieces of 1, 5, 24 bytes or at once, followed by nothing, a cut frame, a frame of another network, one with a wrong checksum or one with a wrong payload and whole messages behind it; ended by EOF, another error or a timeout")
	n := zz.Choose("messages", 0, 3)
	if zz.Thorough() {
		n = zz.Choose("number", 0, 4)
	}
	c := &wire{step: step(), readErr: io.EOF, writeMax: -1}
	var want [][]byte
	var cmds []string
	for i := 0; i < n; i++ {
		_, cmd, p := message()
		cmds, want = append(cmds, cmd), append(want, p)
		c.in = append(c.in, frame(cmd, p)...)
	}
	switch zz.Choose("end", 0, 6) {
	case 6:
		c.readErr = late{}
	case 1:
		f := frame("tx", []byte{1, 2, 3})
		c.in = append(c.in, f[:[]int{1, 4, 17, 23, 24, 26}[zz.Choose("cut", 0, 5)]]...)
	case 2:
		f := frame("verack", nil)
		f[zz.Choose("place", 0, 3)] ^= 1 << zz.Choose("bit", 0, 1)
		c.in = append(append(c.in, f...), frame("verack", nil)...)
	case 3:
		f := frame("tx", []byte{9})
		x := zz.U8("~difference")
		zz.Assume(x != 0)
		f[20+zz.Choose("place", 0, 3)] ^= x
		c.in = append(append(c.in, f...), frame("verack", nil)...)
	case 4:
		c.in = append(append(c.in, frame("ping", []byte{1, 2, 3})...), frame("verack", nil)...)
	case 5:
		c.readErr = broken
	}
	var got []xprotocol.Message
	ends, after, other := 0, 0, 0
	var conn *xprotocol.Connection
	conn = xprotocol.NewConnection(network.MainNet, c, func(from *xprotocol.Connection, m xprotocol.Message) {
		if from != conn {
			other++
		}
		if ends > 0 {
			after++
		}
		got = append(got, m)
		zz.Assert(!c.unarmed, "a message is awaited for a limited time")
		c.armed = false
	}, func(from *xprotocol.Connection) {
		if from != conn {
			other++
		}
		ends++
	})
	conn.ReadLoop()
	zz.Assert(ends == 1, "the end of the connection is reported once")
	zz.Assert(after == 0, "after the last message")
	zz.Assert(other == 0, "for the connection itself")
	zz.Assert(len(got) == n, "every whole message is handed over")
	for i := range got {
		zz.Assert(got[i].Command() == cmds[i], "in order")
		zz.Assert(zz.Eq(got[i].Encode(), want[i]), "with its content")
	}
	zz.Reach("delivered")
}

// ZZ_Stop: what can not be awaited is not waited for; a connection closed by the receiver delivers nothing more.
func ZZ_Stop() {
	zz.MaxSteps(50000000)
	zz.Bound("three messages, the connection closed after 0-2 of them, or no deadline can be set")
	c := &wire{step: []int{1, 1 << 20}[zz.Choose("pieces", 0, 1)], readErr: io.EOF, writeMax: -1}
	for i := byte(0); i < 3; i++ {
		c.in = append(c.in, frame("tx", []byte{i})...)
	}
	k := zz.Choose("closed after", 0, 3)
	n, ends := 0, 0
	conn := xprotocol.NewConnection(network.MainNet, c, func(from *xprotocol.Connection, m xprotocol.Message) {
		n++
		if n == k {
			from.Close()
		}
	}, func(from *xprotocol.Connection) { ends++ })
	if k == 0 {
		if zz.Choose("before", 0, 1) == 0 {
			c.noRead = true
		} else {
			conn.Close()
		}
	}
	conn.ReadLoop()
	zz.Assert(n == k, "nothing is delivered after the end")
	zz.Assert(ends == 1, "the end is reported once")
	zz.Assert(conn.RemoteAddress() == "there" && conn.LocalAddress() == "here", "the addresses are those of the connection")
	zz.Reach("stopped")
}

// ZZ_Reply: a message can be sent from within the receiver, and comes out as one frame.
func ZZ_Reply() {
	zz.MaxSteps(50000000)
	zz.Bound("one or two messages, each answered by one of four kinds")
	n := zz.Choose("messages", 1, 2)
	c := &wire{step: step(), readErr: io.EOF, writeMax: -1}
	for i := 0; i < n; i++ {
		c.in = append(c.in, frame("verack", nil)...)
	}
	var want []byte
	ends := 0
	conn := xprotocol.NewConnection(network.MainNet, c, func(from *xprotocol.Connection, m xprotocol.Message) {
		a, cmd, p := message()
		zz.Assert(from.Send(a) == nil, "an answer is sent")
		want = append(want, frame(cmd, p)...)
		zz.Assert(zz.Eq(c.out, want), "at once")
		zz.Assert(!c.unwarmed, "for a limited time")
	}, func(*xprotocol.Connection) { ends++ })
	conn.ReadLoop()
	zz.Assert(ends == 1, "the end is reported once")
	zz.Assert(zz.Eq(c.out, want), "nothing else is sent")
	zz.Reach("answered")
}

// ZZ_SendFault: a message that is not sent completely is an error, and nothing is sent after it.
func ZZ_SendFault() {
	zz.MaxSteps(50000000)
	zz.Bound("two messages of four kinds; the connection fails after any number of bytes, can not be given a deadline, or is closed")
	c := &wire{step: 1, readErr: io.EOF, writeMax: -1}
	conn := xprotocol.NewConnection(network.MainNet, c, func(*xprotocol.Connection, xprotocol.Message) {}, func(*xprotocol.Connection) {})
	var all []byte
	var ms [2]xprotocol.Message
	for i := range ms {
		m, cmd, p := message()
		ms[i] = m
		all = append(all, frame(cmd, p)...)
		if i == 0 {
			zz.Concrete(len(all))
		}
	}
	switch zz.Choose("fault", 0, 2) {
	case 0:
		c.noWrite = true
		zz.Assert(conn.Send(ms[0]) != nil, "a message that can not be sent in time is an error")
		zz.Assert(len(c.out) == 0, "and is not sent")
	case 1:
		conn.Close()
		zz.Assert(c.closed == 1, "the connection is closed")
		zz.Assert(conn.Send(ms[0]) != nil, "nothing is sent on a closed connection")
		zz.Assert(len(c.out) == 0, "nothing at all")
	case 2:
		k := zz.Choose("bytes", 0, len(all))
		c.writeMax = k
		e1 := conn.Send(ms[0])
		e2 := conn.Send(ms[1])
		first := len(frame("", ms[0].Encode()))
		zz.Assert((e1 == nil) == (k >= first), "the first message is sent, or is an error")
		zz.Assert((e2 == nil) == (k >= len(all)), "the second message is sent, or is an error")
		zz.Assert(zz.Eq(c.out, all[:k]), "what is sent is the beginning of the two")
	}
	zz.Reach("fault")
}

// ZZ_Together: messages sent at the same time come out one after the other.
func ZZ_Together() {
	zz.MaxSteps(50000000)
	zz.Bound("two messages of four kinds, the second one sent when any write of the first one begins or when its deadline is set, or while the connection waits for a message")
	c := &wire{step: 1, readErr: io.EOF, writeMax: -1}
	conn := xprotocol.NewConnection(network.MainNet, c, func(*xprotocol.Connection, xprotocol.Message) {}, func(*xprotocol.Connection) {})
	a, ca, pa := message()
	b, cb, pb := message()
	fa, fb := frame(ca, pa), frame(cb, pb)
	var task *zz.Task
	var err error
	begun := false
	start := func() {
		if !begun {
			begun = true
			task = zz.Go(func() { err = conn.Send(b) })
		}
	}
	if when := zz.Choose("when", 0, 2); when < 2 {
		if when == 0 {
			c.during = func(k int) { start() }
		} else {
			c.limit = start
		}
		zz.Assert(conn.Send(a) == nil, "a message is sent")
		task.Wait()
		zz.Assert(err == nil, "and the other one")
		ab := append(append([]byte(nil), fa...), fb...)
		ba := append(append([]byte(nil), fb...), fa...)
		zz.Assert(zz.Or(zz.Eq(c.out, ab), zz.Eq(c.out, ba)), "one after the other")
	} else {
		c.in = fa
		c.waits = start
		conn.ReadLoop()
		if task != nil {
			task.Wait()
		}
		zz.Assert(err == nil && zz.Eq(c.out, fb), "a message is sent while another is awaited")
	}
	zz.Reach("together")
}

// ZZ_Readers: two readers of one stream each get whole messages.
func ZZ_Readers() {
	zz.MaxSteps(50000000)
	zz.Bound("two messages of four kinds in pieces, read by two readers, the second starting at any read of the first")
	c := &wire{step: []int{1, 7, 24}[zz.Choose("pieces", 0, 2)], readErr: io.EOF, writeMax: -1}
	_, ca, pa := message()
	_, cb, pb := message()
	c.in = append(frame(ca, pa), frame(cb, pb)...)
	s := xprotocol.NewStream(&hook{wire: c, at: zz.Choose("read", 0, 5)}, network.MainNet.Magic)
	var m2 xprotocol.Message
	var e2 error
	var task *zz.Task
	started = func() { task = zz.Go(func() { m2, e2 = s.ReadMessage() }) }
	m1, e1 := s.ReadMessage()
	if f := started; f != nil {
		started = nil
		f()
	}
	task.Wait()
	zz.Assert(e1 == nil && e2 == nil, "two messages are read")
	zz.Assert(zz.Eq(m1.Encode(), pa) && m1.Command() == ca || zz.Eq(m1.Encode(), pb) && m1.Command() == cb, "whole messages")
	zz.Assert(zz.Eq(m2.Encode(), pa) && m2.Command() == ca || zz.Eq(m2.Encode(), pb) && m2.Command() == cb, "both")
	zz.Reach("readers")
}

var started func()

// hook starts the second reader at one of the reads.
type hook struct {
	*wire
	at, n int
}

func (h *hook) Read(p []byte) (int, error) {
	k := h.n
	h.n++
	if k == h.at && started != nil {
		f := started
		started = nil
		f()
		started = nil
	}
	return h.wire.Read(p)
}
