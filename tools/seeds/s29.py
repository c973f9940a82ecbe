property = 'C18'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/model/segment.go',
   '\tData     []byte `json:"data"`\n}',
   '\tData     []byte `json:"data"`\n\n\tat time.Time\n}'),
  ('internal/protocol/model/segment.go',
   '\ts.SegNo = ns.SegNo\n',
   '\ts.SegNo = ns.SegNo\n\tif ns.at.Sub(s.at) > segmentTimeout {\n\t\ts.Data = nil // 分包超时，丢弃之前的数据\n\t}\n\ts.at = ns.at\n'),
  ('internal/protocol/model/segment.go',
   '\t\tData:     pd.Body,\n',
   '\t\tData:     pd.Body,\n\t\tat:       time.Now(),\n'),
  ('internal/protocol/model/segment.go',
   'package model\n',
   'package model\n\nimport "time"\n\nconst segmentTimeout = 2 * time.Second\n'),
]
needs = 'fragments of one message more than two seconds apart'
breaks = 'the first part of a slowly sent message is dropped, and the rest is processed as if it were whole'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	pc := NewJT808PacketCodec()
	ph := "013800138002"
	if pd, err := pc.Decode(mk(0x0704, ph, 0x2000, 1, append([]byte{0, 2, 0, 1}, "abc"...))); err != nil || pd.SegCompleted {
		t.Fatal(err)
	}
	time.Sleep(2500 * time.Millisecond)
	pd, err := pc.Decode(mk(0x0704, ph, 0x2000, 2, append([]byte{0, 2, 0, 2}, "def"...)))
	if err != nil || !pd.SegCompleted || string(pd.Body) != "abcdef" {
		t.Fatalf("%v %q", err, pd.Body)
	}
}
'''
