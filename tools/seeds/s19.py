property = 'C18'
pkg = 'internal/protocol'
edits = [('internal/protocol/model/segment.go','pd.Header.MsgID,','pd.Header.MsgID & 0x00ff,')]
needs = 'two fragmented messages of one device whose ids agree in the low byte (0x0100 and 0x0200), interleaved'
breaks = 'the fragments of the two messages mix in one assembly'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func frag(id uint16, total, no byte, body []byte) []byte {
	f := mk(id, "013800138001", 0x2000, uint16(no), append([]byte{0, total, 0, no}, body...))
	f[4] -= 4 // body length does not count the packet item
	f[len(f)-2] ^= f[4] ^ (f[4] + 4)
	return f
}

func TestDemo(t *testing.T) {
	pc := NewJT808PacketCodec()
	if pd, err := pc.Decode(frag(0x0100, 2, 1, []byte("aa"))); err != nil || pd.SegCompleted {
		t.Fatal(err)
	}
	if pd, err := pc.Decode(frag(0x0200, 2, 1, []byte("bb"))); err != nil || pd.SegCompleted {
		t.Fatal(err)
	}
	pd, err := pc.Decode(frag(0x0100, 2, 2, []byte("cc")))
	if err != nil || !pd.SegCompleted || string(pd.Body) != "aacc" {
		t.Fatalf("%q %v", pd.Body, err)
	}
}
'''
