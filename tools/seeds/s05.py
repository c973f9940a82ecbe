property = 'C23'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/header.go',
   '\t\t\tVersionSign:      versionDecode(d.VersionDesc),',
   '\t\t\tVersionSign:      d.ProtocolVersion,'),
]
needs = 'a device whose 2019 protocol version field is 2 or more (a later revision)'
breaks = 'the emitted command has the version flag cleared and the reserved bit set, so the terminal cannot read the command'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	d := &Device{Phone: "00000000013800138000", VersionDesc: Version2019, ProtocolVersion: 2}
	m := &Msg8104{Header: GenMsgHeader(d, 0x8104, 7)}
	pkt, err := m.Encode()
	if err != nil || pkt[2] != 0x40 || pkt[3] != 0 || pkt[4] != 2 {
		t.Fatalf("% x %v", pkt, err)
	}
	if versionDecode(Version2019) != 1 {
		t.Fatal()
	}
}
'''
