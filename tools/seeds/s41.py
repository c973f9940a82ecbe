property = 'C30'
pkg = 'internal/protocol'
edits = [('internal/protocol/msg_processor.go', 'if dg.Geo.ACCStatus == 0 {', 'if dg.Geo.ACCStatus == 0 || dg.Drive.Speed == 0 && dg.Geo.LocationStatus == 0 {')]
needs = 'a report with ACC on, no fix and speed 0'
breaks = 'a device that is awake is shown sleeping'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache


func status() model.DeviceStatus {
	d, err := storage.GetDeviceCache().GetDeviceByPhone("013800138001")
	if err != nil {
		panic(err)
	}
	return d.Status
}

func report(acc, speed byte) []byte {
	b := make([]byte, 28)
	b[7] = acc
	b[19] = speed
	copy(b[22:], []byte{0x23, 1, 2, 3, 4, 5})
	return b
}

func online(t *testing.T) {
	out, _ := feed(mk(0x0100, "013800138001", 0, 1, reg("ID1", "A1")))
	feed(mk(0x0102, "013800138001", 0, 2, out[16:len(out)-2]))
	if status() != model.DeviceStatusOnline {
		t.Fatal("not online")
	}
}

func TestDemo(t *testing.T) {
	online(t)
	feed(mk(0x0200, "013800138001", 0, 3, report(1, 0)))
	if status() != model.DeviceStatusOnline {
		t.Fatal("ACC on but not online")
	}
}
'''
