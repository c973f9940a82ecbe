property = 'C06'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/msg_0102.go',
   'm.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen))',
   'm.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen&0x7f))'),
]
needs = 'an authentication code of 128 bytes or more (2019)'
breaks = 'the code is cut short and the fields after it are read from the wrong place'
demo = r'''
package model

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 127, 128, 200, 255} {
		code := strings.Repeat("c", n)
		body := append([]byte{byte(n)}, code...)
		body = append(body, "860000000000001"...)
		body = append(body, make([]byte, 20)...)
		m := &Msg0102{}
		err := m.Decode(&PacketData{Header: &MsgHeader{Attr: &MsgBodyAttr{BodyLength: uint16(len(body)), VersionDesc: Version2019}}, Body: body})
		if err != nil || m.AuthCode != code || m.IMEI != "860000000000001" {
			t.Fatal(n, err, len(m.AuthCode), m.IMEI)
		}
	}
}
'''
