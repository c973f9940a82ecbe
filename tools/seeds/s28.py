property = 'C28'
pkg = 'internal/protocol'
edits = [
  ('internal/codec/hex/hex.go',
   '\tans := bcd2NumberStr(pkt[*idx : *idx+n])\n\t*idx += n\n\treturn ans',
   '\tend := *idx + n\n\tif end > len(pkt) { // 时间等字段缺失时按已有内容解析\n\t\tend = len(pkt)\n\t}\n\tans := bcd2NumberStr(pkt[*idx:end])\n\t*idx += n\n\treturn ans'),
]
needs = 'a location report that lacks only its last one to six bytes'
breaks = 'the truncated report is acknowledged and replaces the latest location'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	ph := "013800138001"
	feed(mk(0x0100, ph, 0, 1, reg("ID1", "A1")))
	body := make([]byte, 28)
	copy(body[22:], []byte{0x23, 1, 2, 3, 4, 5})
	body[7], body[11] = 1, 9
	if out, _ := feed(mk(0x0200, ph, 0, 2, body)); len(out) == 0 {
		t.Fatal("whole report not acknowledged")
	}
	for n := 22; n < 28; n++ {
		func() {
			defer func() { recover() }()
			body[11] = 50
			if out, _ := feed(mk(0x0200, ph, 0, 3, body[:n])); len(out) > 0 {
				t.Errorf("report of %d bytes acknowledged", n)
			}
		}()
	}
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(ph)
	if err != nil || g.Location.Latitude != 9e-6 {
		t.Fatal("location replaced by a truncated report")
	}
}
'''
