package main

import (
	"context"
	"errors"
	"io"
	"net"
	"syscall"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HSend": HSend, "HLong": HLong, "HPipeline": HPipeline, "HConcurrent": HConcurrent})
}

var cause = errors.New("cause")

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

var causes = []error{cause, io.ErrClosedPipe, net.ErrClosed, syscall.EPIPE, io.EOF, timeout{}, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EAGAIN}, io.ErrShortWrite}

// faulty makes a connection that takes a part of each write and may fail.
func faulty(maxWrites int, failed *bool, bad error) *lib.Conn {
	c := &lib.Conn{Name: "x"}
	c.WriteFn = func(n int, p []byte) (int, error) {
		v.Assert(!*failed, "write-after-failure")
		k := len(p)
		if n <= maxWrites {
			k = v.Pick("taken", len(p)+1)
		}
		if n <= maxWrites && v.Pick("fail", 2) == 1 {
			*failed = true
			return k, bad
		}
		if k == 0 && len(p) > 0 { // a Writer may not return 0, nil
			k = len(p)
		}
		return k, nil
	}
	return c
}

// HSend: any pattern of short writes and a failure at any point.
// bound: frames of 0..6 (thorough 0..9) symbolic bytes, every split over at most 4 (thorough 6) short writes, failure at any write with any part taken, 8 causes (timeouts and temporary errors among them)
func HSend() {
	b := v.Bytes("b", v.Pick("n", v.Bound(7, 10)))
	failed := false
	bad := causes[0]
	if v.Thorough() {
		bad = causes[v.Pick("cause", len(causes))]
	}
	c := faulty(v.Bound(4, 6), &failed, bad)
	err := protocol.NewJT808FrameHandler(c).Send(protocol.FramePayload(lib.Cat(b)))
	out := c.Sent()
	if failed {
		v.Assert(err != nil, "failure-not-reported")
		v.Assert(errors.Is(err, bad), "cause-lost")
		v.Assert(len(out) <= len(b), "too-much")
		v.Assert(v.EqBytes(out, b[:len(out)]), "prefix")
		v.Reach("failed")
	} else {
		v.Assert(err == nil, "spurious-error")
		v.Assert(v.EqBytes(out, b), "bytes")
		v.Reach("sent")
	}
	v.Observe("out", out)
}

// HLong: long frames go out in one write when the connection takes them, and survive short writes of any size.
// bound: frames of 100, 1023, 1500, 2100, 4097, 9000 bytes; connection taking everything, or at most 1..3, 500, 1024, 4096 bytes per write
func HLong() {
	n := []int{100, 1023, 1500, 2100, 4097, 9000}[v.Pick("n", 6)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	b[0], b[n-1] = v.U8("first"), v.U8("last")
	m := []int{0, 1, 2, 3, 500, 1024, 4096}[v.Pick("max", 7)]
	c := &lib.Conn{Name: "x"}
	if m > 0 {
		c.WriteFn = func(_ int, p []byte) (int, error) {
			if len(p) > m {
				return m, nil
			}
			return len(p), nil
		}
	}
	err := protocol.NewJT808FrameHandler(c).Send(protocol.FramePayload(b))
	v.Assert(err == nil, "spurious-error")
	out := c.Sent()
	v.Assert(v.EqBytes(out, b), "bytes")
	if m == 0 {
		v.Assert(c.Writes == 1, "one-write")
	}
	v.Reach("done")
}

// HPipeline: the write pipeline reports what the connection reports.
// bound: a platform reply over a connection with up to 2 short writes and a failure at any of them; 8 causes
func HPipeline() {
	failed := false
	bad := causes[v.Pick("cause", len(causes))]
	c := faulty(2, &failed, bad)
	h := &model.MsgHeader{MsgID: 0x8001, PhoneNumber: "123456789012", SerialNumber: v.U16("serial"), Attr: &model.MsgBodyAttr{VersionDesc: model.Version2013}}
	m := &model.Msg8001{Header: h, AnswerSerialNumber: 5}
	raw, err := m.Encode()
	v.Assert(err == nil, "encode-error")
	want := lib.Frame(raw)
	ctx := context.WithValue(context.Background(), model.ProcessDataCtxKey{}, &model.ProcessData{Outgoing: m})
	err = protocol.NewPipeline(c).ProcessConnWrite(ctx)
	out := c.Sent()
	if failed {
		v.Assert(errors.Is(err, bad), "cause-lost")
		v.Assert(len(out) <= len(want) && v.EqBytes(out, want[:len(out)]), "prefix")
	} else {
		v.Assert(err == nil, "spurious-error")
		v.Assert(v.EqBytes(out, want), "bytes")
	}
	v.Reach("done")
}

// HConcurrent: frames of concurrent senders do not interleave.
// bound: 3 senders on one connection, two frames each, every interleaving with up to 3 (thorough 4) preemptions
func HConcurrent() {
	c := &lib.Conn{Name: "x"}
	send := func(k byte) func() {
		return func() {
			for j := 0; j < 2; j++ {
				f := []byte{0x7e, k, k + byte(j), k, 0x7e}
				v.Assert(protocol.NewJT808FrameHandler(c).Send(protocol.FramePayload(f)) == nil, "error")
			}
		}
	}
	v.Concurrent(v.Bound(3, 4), false, send(1), send(3), send(5))
	out := c.Sent()
	v.Assert(len(out) == 30, "length")
	var seen [6]int
	for i := 0; i < 30; i += 5 {
		a, b := out[i+1], out[i+2]
		v.Assert(out[i] == 0x7e && out[i+3] == a && out[i+4] == 0x7e && (b == a || b == a+1), "torn-frame")
		seen[a-1+(b-a)]++
	}
	for _, n := range seen {
		v.Assert(n == 1, "frame-count")
	}
	v.Reach("done")
}
