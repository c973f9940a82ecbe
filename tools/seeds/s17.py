property = 'C16'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/device.go',
   '\tg.DrivingStatus = uint8((status & drivingStatusBit) >> 22)',
   '\tg.DrivingStatus = uint8(status >> 22)'),
]
needs = 'a status word with a reserved bit above 22 set'
breaks = 'reserved bits leak into the driving flag'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	for b := 0; b < 32; b++ {
		g := &GeoMeta{}
		g.Decode(1 << b)
		if (g.DrivingStatus != 0) != (b == 22) {
			t.Fatal(b, g.DrivingStatus)
		}
	}
}
'''
