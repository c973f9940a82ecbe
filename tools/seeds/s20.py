property = 'C20'
pkg = 'internal/server'
edits = [
  ('internal/server/tcp_server.go',
   '\tdefer serv.mutex.Unlock()\n\n\tsession.Conn.Close()\n',
   '\tif _, err := storage.GetSession(session.ID); err != nil {\n\t\treturn // 已经移除过\n\t}\n\n\tsession.Conn.Close()\n'),
  ('internal/server/tcp_server.go',
   '\t// delete(serv.sessions, session.ID)\n\n\tlog',
   '\tserv.mutex.Unlock()\n\n\tlog'),
]
needs = 'a send to a closed connection removes the session, then the session goroutine ends and removes it again'
breaks = 'the second removal returns with the server mutex held: no connection is accepted any more'
demo = r'''
package server

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := NewTCPServer()
	a, b := net.Pipe()
	defer b.Close()
	sess := s.accept(a)
	s.remove(sess)
	s.remove(sess)
	done := make(chan bool)
	go func() {
		c, _ := net.Pipe()
		s.accept(c)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("accept blocked")
	}
}
'''
