property = 'C11'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/msg_processor.go',
   '\tin := data.Incoming.(*model.Msg0200)\n\n\tcache := storage.GetDeviceCache()\n',
   '\tin := data.Incoming.(*model.Msg0200)\n\n\tcache := storage.GetDeviceCache()\n\trb := storage.GetGeoCache().GetGeoRingByPhone(in.Header.PhoneNumber)\n'),
  ('internal/protocol/msg_processor.go',
   '\tgeoCache := storage.GetGeoCache()\n\trb := geoCache.GetGeoRingByPhone(device.Phone)\n\trb.Write(dg)',
   '\trb.Write(dg)'),
]
needs = 'a location report from a phone that is not registered'
breaks = 'the refused report leaves a 100-slot location record for the unknown phone in the location cache: unregistered senders grow the cache without bound'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	_, err := feed(mk(0x0200, "013800138001", 0, 1, make([]byte, 28)))
	if err == nil {
		t.Fatal("accepted")
	}
	n := 0
	v := reflect.ValueOf(storage.GetGeoCache()).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Map {
			n += v.Field(i).Len()
		}
	}
	if n != 0 {
		t.Fatalf("%d location records left by a refused report", n)
	}
}
'''
