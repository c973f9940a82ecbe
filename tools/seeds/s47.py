property = 'C20'
pkg = 'internal/server'
edits = [('internal/server/tcp_server.go', """	for {
		conn, err := serv.listener.Accept()
		if err != nil {
""", """	failed := 0
	for {
		conn, err := serv.listener.Accept()
		if err != nil {
			if failed++; failed > 5 {
				return
			}
""")]
needs = 'six failed accepts over the lifetime of the server, however far apart'
breaks = 'the accept loop ends although the listener is open; new terminals cannot connect'
demo = r'''
package server

import (
	"errors"
	"net"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type lst struct {
	n    int
	conn chan net.Conn
}

func (l *lst) Accept() (net.Conn, error) {
	if l.n++; l.n <= 9 {
		return nil, errors.New("try again")
	}
	return <-l.conn, nil
}
func (l *lst) Close() error   { return nil }
func (l *lst) Addr() net.Addr { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	l := &lst{conn: make(chan net.Conn, 1)}
	serv := NewTCPServer()
	serv.listener = l
	go serv.Start()
	here, there := net.Pipe()
	defer there.Close()
	l.conn <- here
	for i := 0; i < 50; i++ {
		time.Sleep(200 * time.Millisecond)
		if _, err := storage.GetSession(here.RemoteAddr().String()); err == nil {
			return
		}
	}
	t.Fatal("nobody accepts")
}
'''
