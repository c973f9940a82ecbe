property = 'C04'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/header.go',
   '\tattr.VersionSign = uint8(bitNum & versionSignBit >> 14) // 版本标识 14位',
   '\tattr.VersionSign = uint8(bitNum >> 14) // 版本标识 14位'),
]
needs = 'a 2019 header with the reserved attribute bit 15 set'
breaks = 'the reserved bit leaks into the version sign: the header is read as a 2013 header and every later field is shifted'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	pkt := []byte{0x02, 0x00, 0xc0, 0x05, 0x01, 0, 0, 0, 0, 1, 0x38, 0, 0x13, 0x80, 0, 0x12, 0x34}
	h := &MsgHeader{}
	if err := h.Decode(pkt); err != nil {
		t.Fatal(err)
	}
	if h.Attr.VersionSign != 1 || h.Attr.VersionDesc != Version2019 || h.SerialNumber != 0x1234 || h.Idx != 17 {
		t.Fatalf("%+v %+v", h, h.Attr)
	}
}
'''
