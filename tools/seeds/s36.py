property = 'C02'
pkg = 'internal/protocol'
edits = [
  ('internal/protocol/packet_codec.go',
   'type JT808PacketCodec struct {\n}',
   'type JT808PacketCodec struct {\n\twbuf []byte // 复用的编码缓冲\n}'),
  ('internal/protocol/packet_codec.go',
   '\tdst := make([]byte, 0)\n\tdst = append(dst, boundaryMark)\n\tfor',
   '\tdst := append(pc.wbuf[:0], boundaryMark)\n\tfor'),
  ('internal/protocol/packet_codec.go',
   '\tdst = append(dst, boundaryMark)\n\treturn dst',
   '\tdst = append(dst, boundaryMark)\n\tpc.wbuf = dst\n\treturn dst'),
]
needs = 'two messages encoded before the first is written out (the codec is shared by all connections)'
breaks = 'the frame of one message is overwritten by another one'
demo = r'''
package protocol

import (
	"bytes"
	"context"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

type dconn struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *dconn) Read(b []byte) (int, error)       { return c.in.Read(b) }
func (c *dconn) Write(b []byte) (int, error)      { return c.out.Write(b) }
func (c *dconn) Close() error                     { return nil }
func (c *dconn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *dconn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *dconn) SetDeadline(time.Time) error      { return nil }
func (c *dconn) SetReadDeadline(time.Time) error  { return nil }
func (c *dconn) SetWriteDeadline(time.Time) error { return nil }

// mk builds a 2013 frame
func mk(id uint16, phone string, attr, serial uint16, body []byte) []byte {
	p := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr) + byte(len(body))}
	for i := 0; i < 12; i += 2 {
		p = append(p, (phone[i]-'0')<<4|(phone[i+1]-'0'))
	}
	p = append(p, byte(serial>>8), byte(serial))
	p = append(p, body...)
	var c byte
	for _, v := range p {
		c ^= v
	}
	p = append(p, c)
	o := []byte{0x7e}
	for _, v := range p {
		switch v {
		case 0x7e:
			o = append(o, 0x7d, 2)
		case 0x7d:
			o = append(o, 0x7d, 1)
		default:
			o = append(o, v)
		}
	}
	return append(o, 0x7e)
}

var sess = &model.Session{ID: "demo:1"}

// feed runs one frame through the real pipeline and returns what was written
func feed(frame []byte) ([]byte, error) {
	c := &dconn{in: bytes.NewReader(frame)}
	sess.Conn = c
	storage.StoreSession(sess)
	err := NewPipeline(c).ProcessConnRead(context.WithValue(context.Background(), model.SessionCtxKey{}, sess))
	return c.out.Bytes(), err
}

// reg is a 2013 registration body
func reg(id, plate string) []byte {
	b := make([]byte, 4+5+20+7+1)
	copy(b[4+5+20:], id)
	return append(b, plate...)
}

var _ = strings.Contains
var _ = storage.GetDeviceCache

func TestDemo(t *testing.T) {
	enc := func(n uint16) []byte {
		b, err := NewJT808PacketCodec().Encode(&model.Msg8001{Header: &model.MsgHeader{MsgID: 0x8001, Attr: &model.MsgBodyAttr{VersionDesc: model.Version2013}, PhoneNumber: "013800138001", SerialNumber: n}, AnswerSerialNumber: n})
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	a := enc(1)
	keep := string(a)
	enc(2)
	if string(a) != keep {
		t.Fatal("frame changed")
	}
}
'''
