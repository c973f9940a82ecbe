property = 'C23'
pkg = 'internal/server'
edits = [
  ('internal/server/tcp_server.go',
   '\tif errors.Is(err, io.ErrClosedPipe) || errors.Is(err, net.ErrClosed) {\n\t\tserv.remove(session)',
   '\tif err == io.ErrClosedPipe || errors.Is(err, net.ErrClosed) {\n\t\tserv.remove(session)'),
]
needs = 'a command to a session whose connection reports a closed pipe (wrapped by the frame handler)'
breaks = 'the wrapped error is no longer recognised, so the dead session stays obtainable and the connection open'
demo = r'''
package server

import (
	"net"
	"testing"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

func TestDemo(t *testing.T) {
	s := NewTCPServer()
	a, b := net.Pipe()
	sess := s.accept(a)
	b.Close()
	d := &model.Device{Phone: "013800138000", VersionDesc: model.Version2013}
	s.Send(sess.ID, &model.Msg8104{Header: model.GenMsgHeader(d, 0x8104, 1)})
	if _, err := storage.GetSession(sess.ID); err == nil {
		t.Fatal("session of a closed connection still obtainable")
	}
}
'''
