property = 'C08'
pkg = 'internal/server'
edits = [('internal/server/tcp_server.go', """	pg := protocol.NewPipeline(session.Conn)
	for {
		// 记录value ctx
""", """	for {
		pg := protocol.NewPipeline(session.Conn)
		// 记录value ctx
""")]
needs = 'two requests arriving in one read of the connection'
breaks = 'the requests buffered behind the first one are lost with its pipeline and never answered'
demo = r'''
package server

import (
	"net"
	"testing"
	"time"
)

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

func TestDemo(t *testing.T) {
	serv := NewTCPServer()
	here, there := net.Pipe()
	defer there.Close()
	s := serv.accept(here)
	go serv.serve(s)
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], "ID1")
	there.SetDeadline(time.Now().Add(5 * time.Second))
	all := mk(0x0100, "013800138001", 0, 1, append(b, "A1"...))
	all = append(all, mk(0x0002, "013800138001", 0, 2, nil)...)
	go there.Write(all)
	buf := make([]byte, 256)
	for i := 0; i < 2; i++ {
		if _, err := there.Read(buf); err != nil {
			t.Fatal(i, err)
		}
	}
}
'''
