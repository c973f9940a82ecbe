property = 'C15'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/msg_processor.go',
   '\trb.Write(dg)\n',
   '\tif last, ok := rb.Latest().(*model.DeviceGeo); !ok || !dg.Time.Before(last.Time) { // 忽略乱序上报\n\t\trb.Write(dg)\n\t}\n'),
]
needs = 'a location report whose time is earlier than that of the previous report of the device'
breaks = 'the report is acknowledged but the latest location served stays the previous one'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func loc(lat byte, min byte) []byte {
	b := make([]byte, 28)
	b[7] = 1
	b[11] = lat
	copy(b[22:], []byte{0x22, 0x10, 0x10, 0x10, min, 0x00})
	return b
}

func TestDemo(t *testing.T) {
	feed(mk(0x0100, "013800138001", 0, 1, reg("ID1", "A1")))
	feed(mk(0x0200, "013800138001", 0, 2, loc(5, 0x20)))
	if out, err := feed(mk(0x0200, "013800138001", 0, 3, loc(9, 0x10))); err != nil || out[17] != 0 {
		t.Fatal(err)
	}
	g, err := storage.GetGeoCache().GetGeoLatestByPhone("013800138001")
	if err != nil || g.Location.Latitude != 9.0/1000000 {
		t.Fatalf("%+v %v", g.Location, err)
	}
}
'''
