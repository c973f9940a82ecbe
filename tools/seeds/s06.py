property = 'C06'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/msg_0100.go',
   '\tm.DeviceID = strings.TrimRight(hex.ReadString(pkt, &idx, idLen), cutset)',
   '\tm.DeviceID = strings.Trim(hex.ReadString(pkt, &idx, idLen), cutset+" ")'),
]
needs = 'a terminal id with a leading NUL or blank at either end'
breaks = 'the id the terminal sent is not the id that is decoded, two different terminals can get the same id'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	for _, id := range []string{"AB12345", "AB 12 ", " B12345"} {
		m := &Msg0100{Header: &MsgHeader{MsgID: 0x0100, PhoneNumber: "013800138000", Attr: &MsgBodyAttr{VersionDesc: Version2013}}, DeviceID: id, PlateNumber: "A12345"}
		pkt, err := m.Encode()
		if err != nil {
			t.Fatal(err)
		}
		h := &MsgHeader{}
		if err := h.Decode(pkt); err != nil {
			t.Fatal(err)
		}
		d := &Msg0100{}
		if err := d.Decode(&PacketData{Header: h, Body: pkt[h.Idx:]}); err != nil || d.DeviceID != id {
			t.Fatalf("%q became %q %v", id, d.DeviceID, err)
		}
	}
}
'''
