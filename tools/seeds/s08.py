property = 'C07'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/device_params.go',
   '\t\treturn uint32(b)\n',
   '\t\treturn uint32(float32(b))\n'),
]
needs = 'a DWORD parameter above 2^24 set through the HTTP call (JSON numbers arrive as float64)'
breaks = 'the low bits of the value are rounded away before it is sent to the terminal'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []float64{1, 60, 16777217, 4294967295} {
		b, err := (&ParamData{ParamID: 0x46, ParamLen: 4, ParamValue: v}).Encode()
		if err != nil {
			t.Fatal(err)
		}
		idx := 0
		d := &ParamData{}
		if err := d.Decode(b, &idx); err != nil || d.ParamValue != uint32(v) {
			t.Fatalf("%v became %v", v, d.ParamValue)
		}
	}
}
'''
