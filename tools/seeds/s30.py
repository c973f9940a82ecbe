property = 'C13'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/device.go',
   '\tnow := time.Now().UnixMilli()\n\treturn d.Status != DeviceStatusOffline && now > d.Keepalive.Milliseconds()+d.LastestComTime.UnixMilli()',
   '\tnow := time.Now().Unix()\n\treturn d.Status != DeviceStatusOffline && now > int64(d.Keepalive.Seconds())+d.LastestComTime.Unix()'),
]
needs = 'a check less than a second after the keepalive time ran out'
breaks = 'the device is still reported online although more than its keepalive time has passed'
demo = r'''
package model

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for ms := 1; ms < 1000; ms += 50 {
		d := &Device{Status: DeviceStatusOnline, Keepalive: time.Minute, LastestComTime: time.Now().Add(-time.Minute - time.Duration(ms)*time.Millisecond - time.Millisecond)}
		if !d.ShouleTurnOffline() {
			t.Fatal("not offline", ms)
		}
	}
}
'''
