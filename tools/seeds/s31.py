property = 'C14'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/keepalive.go',
   '\tt.cron.Cancel(devicePhone)\n}',
   '\tfor _, e := range t.Jobs() {\n\t\tif j, ok := e.Job.(*CheckDeviceJob); ok && strings.HasSuffix(j.JobID(), devicePhone) { // 2019版手机号有前导0\n\t\t\tt.cron.Cancel(j.JobID())\n\t\t}\n\t}\n}'),
  ('internal/protocol/keepalive.go',
   'import (\n',
   'import (\n\t"strings"\n\n'),
]
needs = 'a 2013 device leaves while a 2019 device whose padded phone ends in the same digits is registered'
breaks = 'the keepalive job of the other device is cancelled too, it never expires'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	a, b := "013800138003", "00000000013800138003"
	for i, p := range []string{a, b} {
		storage.GetDeviceCache().CacheDevice(&model.Device{Phone: p, Plate: "P" + string(rune('0'+i)), Keepalive: time.Minute})
		NewKeepaliveTimer().Register(p)
	}
	time.Sleep(300 * time.Millisecond)
	NewKeepaliveTimer().Cancel(a)
	time.Sleep(300 * time.Millisecond)
	n := 0
	for _, e := range NewKeepaliveTimer().Jobs() {
		if e.Job.(interface{ JobID() string }).JobID() == b {
			n++
		}
	}
	if n != 1 {
		t.Fatal("jobs of the other device:", n)
	}
}
'''
