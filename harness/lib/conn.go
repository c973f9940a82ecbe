package lib

import (
	"context"
	"io"
	"net"
	"os"
	"time"

	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

// Conn is a scripted connection. Reads are served from Chunks (one chunk per
// call at most), then EndErr (default io.EOF); with Hold set, reads block after
// the script until Close. Writes are recorded.
type Conn struct {
	Name     string
	Chunks   [][]byte
	EndErr   error
	EndWith  bool // deliver EndErr together with the last bytes
	OnEmpty  func()
	Hold     bool // reads wait for more chunks, Close or End
	End      bool
	Out      [][]byte // one entry per Write call
	WriteFn  func(n int, p []byte) (int, error)
	Writes   int
	Closed   int
	ReadErrs int
	CloseErr error
	Read1    func(context.Context) error // the pipeline of Push
	rd, wd   time.Time                   // deadlines
}

type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

func (c *Conn) Read(p []byte) (int, error) {
	if c.Closed > 0 {
		return 0, net.ErrClosed
	}
	if c.Hold && len(c.Chunks) == 0 {
		v.WaitFor(func() bool { return len(c.Chunks) > 0 || c.Closed > 0 || c.End || past(c.rd) })
		if c.Closed > 0 {
			return 0, net.ErrClosed
		}
	}
	if past(c.rd) {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if len(c.Chunks) == 0 {
		if c.OnEmpty != nil {
			c.OnEmpty()
		}
		if len(c.Chunks) == 0 {
			if c.Closed > 0 {
				return 0, net.ErrClosed
			}
			c.ReadErrs++
			v.Assert(c.ReadErrs < 50, "reading-forever-after-end")
			if c.EndErr != nil {
				return 0, c.EndErr
			}
			return 0, io.EOF
		}
	}
	n := copy(p, c.Chunks[0])
	if n == len(c.Chunks[0]) {
		c.Chunks = c.Chunks[1:]
	} else {
		c.Chunks[0] = c.Chunks[0][n:]
	}
	if c.EndWith && len(c.Chunks) == 0 {
		return n, c.EndErr
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	c.Writes++
	v.Touch()
	if c.WriteFn != nil {
		n, err := c.WriteFn(c.Writes, p)
		if n > 0 {
			c.Out = append(c.Out, append([]byte(nil), p[:n]...))
		}
		return n, err
	}
	if c.Closed > 0 {
		return 0, net.ErrClosed
	}
	if past(c.wd) {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	c.Out = append(c.Out, append([]byte(nil), p...))
	return len(p), nil
}

// Sent is everything written.
func (c *Conn) Sent() []byte { return Cat(c.Out...) }

func (c *Conn) Close() error                     { c.Closed++; v.Touch(); return c.CloseErr }
func (c *Conn) LocalAddr() net.Addr              { return Addr("local") }
func (c *Conn) RemoteAddr() net.Addr             { return Addr(c.Name) }

func (c *Conn) SetDeadline(t time.Time) error      { c.rd, c.wd = t, t; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rd = t; return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wd = t; return nil }

func past(t time.Time) bool { return !t.IsZero() && v.Now().After(t) }

// Listener is a scripted listener: Accept hands out what is queued, blocking when there is nothing.
type Listener struct {
	Q       []any // net.Conn or error
	Closed  bool
	Accepts int
	After   int
}

func (l *Listener) Accept() (net.Conn, error) {
	l.Accepts++
	v.WaitFor(func() bool { return len(l.Q) > 0 || l.Closed })
	if l.Closed {
		l.After++
		v.Assert(l.After < 20, "accepting-forever-on-closed-listener")
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	x := l.Q[0]
	l.Q = l.Q[1:]
	if e, ok := x.(error); ok {
		return nil, e
	}
	return x.(net.Conn), nil
}

func (l *Listener) Close() error   { l.Closed = true; return nil }
func (l *Listener) Addr() net.Addr { return Addr("listen") }
