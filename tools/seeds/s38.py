property = 'C13'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/keepalive.go',
   '\t\tgisCache.DelGeoByPhone(devicePhone)\n',
   '\t\tif _, err = gisCache.GetGeoLatestByPhone(devicePhone); err != nil {\n\t\t\tgisCache.DelGeoByPhone(devicePhone)\n\t\t}\n'),
]
needs = 'an offline device with location history expires'
breaks = 'its location history is kept and shows up when the phone registers again'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	ph := "013800138007"
	feed(mk(0x0100, ph, 0, 1, reg("ID7", "A7")))
	body := make([]byte, 28)
	copy(body[22:], []byte{0x23, 1, 2, 3, 4, 5})
	body[7] = 1
	feed(mk(0x0200, ph, 0, 2, body))
	d, _ := storage.GetDeviceCache().GetDeviceByPhone(ph)
	d.Status = model.DeviceStatusOffline
	d.LastestComTime = time.Now().Add(-time.Hour)
	storage.GetDeviceCache().UpdateDevice(d)
	checkDeviceKeepalive(NewKeepaliveTimer(), ph)
	if storage.GetDeviceCache().HasPhone(ph) {
		t.Fatal("not removed")
	}
	if _, err := storage.GetGeoCache().GetGeoLatestByPhone(ph); err == nil {
		t.Fatal("location history left")
	}
}
'''
