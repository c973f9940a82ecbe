property = 'C03'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/packet_codec.go',
   '\tfor _, v := range pkt[:n-1] {\n\t\tactual ^= v\n\t}\n\tif',
   '\tfor i, body := 0, pkt[:n-1]; i < len(body); i++ {\n\t\tif i < maxVerifyLen {\n\t\t\tactual ^= body[i]\n\t\t}\n\t}\n\tif'),
  ('internal/protocol/packet_codec.go',
   '\tescapeTwo    = 0x02\n',
   '\tescapeTwo    = 0x02\n\n\tmaxVerifyLen = 0x3ff // 校验范围不超过最大消息体长度\n'),
]
needs = 'a message longer than 1023 bytes with header (body of 1012 bytes and more)'
breaks = 'the checksum ignores the header length: for the longest messages the last bytes are not covered, wrong frames are accepted and right ones rejected'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	pc := NewJT808PacketCodec()
	p := make([]byte, 12+1020)
	for i := range p {
		p[i] = byte(i)
	}
	if _, err := pc.verify(pc.genVerifier(append([]byte{}, p...))); err != nil {
		t.Fatal("right checksum rejected")
	}
	q := pc.genVerifier(append([]byte{}, p...))
	q[len(q)-3] ^= 1
	if _, err := pc.verify(q); err == nil {
		t.Fatal("wrong checksum accepted")
	}
}
'''
