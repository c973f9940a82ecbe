property = 'C32'
pkg = 'internal/client'
edits = [('internal/client/tcp_client.go', '''	pg := protocol.NewPipeline(cli.Session.Conn)

	// 记录value ctx
	ctx := context.WithValue(context.Background(), model.ProcessDataCtxKey{}, &model.ProcessData{Outgoing: msg})
''', '''	pg := protocol.NewPipeline(cli.Session.Conn)

	// 记录value ctx
	outgoing.Outgoing = msg
	ctx := context.WithValue(context.Background(), model.ProcessDataCtxKey{}, outgoing)
'''), ('internal/client/tcp_client.go', '''type TCPClient struct {''', '''// reused between sends
var outgoing = &model.ProcessData{}

type TCPClient struct {''')]
needs = 'two sends at the same time (keepalive and location report, or two terminals)'
breaks = 'a message is sent twice or on the wrong connection and another is lost'
demo = r'''
package client

import (
	"bytes"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

type dconn struct {
	net.Conn
	mu  sync.Mutex
	out bytes.Buffer
}

func (c *dconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out.Write(b)
}

type dmsg struct {
	b     []byte
	start chan struct{}
}

func (m *dmsg) Decode(*model.PacketData) error     { return nil }
func (m *dmsg) GetHeader() *model.MsgHeader        { return &model.MsgHeader{Attr: &model.MsgBodyAttr{}} }
func (m *dmsg) GenOutgoing(_ model.JT808Msg) error { return nil }
func (m *dmsg) Encode() ([]byte, error)            { return m.b, nil }

func TestDemo(t *testing.T) {
	cs := make([]*dconn, 2)
	var wg sync.WaitGroup
	for i := range cs {
		i := i
		cs[i] = &dconn{}
		cli := &TCPClient{Session: &model.Session{Conn: cs[i], ID: "x"}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			end := time.Now().Add(4 * time.Second)
			for k := 0; k < 200000 && time.Now().Before(end); k++ {
				cli.Send(&dmsg{b: []byte{0, 2, byte(i + 1)}})
			}
		}()
	}
	wg.Wait()
	for i := range cs {
		if bytes.Contains(cs[i].out.Bytes(), []byte{0x7e, 0, 2, byte(2 - i)}) {
			t.Fatal("a message of the other terminal")
		}
	}
}
'''
