property = 'C20'
pkg = 'internal/server'
edits = [
  ('internal/server/tcp_server.go',
   '\t\t\tlog.Error().Err(err).Msg("Fail to do listener accept")\n',
   '\t\t\tlog.Error().Err(err).Msg("Fail to do listener accept")\n\t\t\tif ne, ok := err.(net.Error); ok && !ne.Timeout() {\n\t\t\t\treturn // 不可恢复的错误\n\t\t\t}\n'),
]
needs = 'accept fails once because the process is out of file descriptors'
breaks = 'the accept loop ends for good: no device can connect any more'
demo = r'''
package server

import (
	"net"
	"sync"
	"syscall"
	"testing"
	"time"
)

type flaky struct {
	mu sync.Mutex
	q  []any
}

func (l *flaky) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if len(l.q) > 0 {
			x := l.q[0]
			l.q = l.q[1:]
			l.mu.Unlock()
			if c, ok := x.(net.Conn); ok {
				return c, nil
			}
			return nil, x.(error)
		}
		l.mu.Unlock()
		time.Sleep(10 * time.Millisecond)
	}
}
func (l *flaky) Close() error   { return nil }
func (l *flaky) Addr() net.Addr { return &net.TCPAddr{} }

type seen struct {
	net.Conn
	read chan bool
}

func (s *seen) Read(b []byte) (int, error) {
	select {
	case s.read <- true:
	default:
	}
	return s.Conn.Read(b)
}

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	defer b.Close()
	c := &seen{a, make(chan bool, 1)}
	s := NewTCPServer()
	s.listener = &flaky{q: []any{&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}, c}}
	go s.Start()
	select {
	case <-c.read:
	case <-time.After(3 * time.Second):
		t.Fatal("connection after a failed accept is not served")
	}
}
'''
