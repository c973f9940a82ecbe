property = 'C31'
pkg = 'internal/server'
edits = [('internal/server/tcp_server.go', 'ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, session)', 'ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: session.ID, Conn: session.Conn})')]
needs = 'a terminal connected through the server sending the platform\'s general reply 0x8001'
breaks = 'the pipeline no longer knows the connection is a terminal\'s: the message is acted on and puts the device online without authentication'
demo = r'''
package server

import (
	"net"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

func TestDemo(t *testing.T) {
	serv := NewTCPServer()
	here, there := net.Pipe()
	defer there.Close()
	s := serv.accept(here)
	go serv.serve(s)
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], "ID1")
	there.SetDeadline(time.Now().Add(5 * time.Second))
	there.Write(mk(0x0100, "013800138001", 0, 1, append(b, "A1"...)))
	buf := make([]byte, 256)
	if _, err := there.Read(buf); err != nil {
		t.Fatal(err)
	}
	there.Write(mk(0x8001, "013800138001", 0, 2, []byte{0, 2, 1, 2, 0}))
	time.Sleep(300 * time.Millisecond)
	d, err := storage.GetDeviceCache().GetDeviceByPhone("013800138001")
	if err != nil {
		t.Fatal(err)
	}
	if d.Status == model.DeviceStatusOnline {
		t.Fatal("online by a platform message")
	}
}
'''
