property = 'C07'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/device_params.go',
   '\t0x0103: {decode: decodeWord, encode: encodeWord},',
   '\t0x0103: {decode: decodeDoubleWord, encode: encodeDoubleWord},'),
]
needs = 'a parameter list with parameter 0x0103 (CAN channel 2 upload interval)'
breaks = 'the WORD parameter is read and written as a DWORD, shifting the parameters after it'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	p := &DeviceParams{}
	if err := p.Decode("1", 2, []byte{0, 0, 1, 3, 2, 0x12, 0x34, 0, 0, 1, 1, 2, 0x56, 0x78}); err != nil {
		t.Fatal(err)
	}
	if len(p.Params) != 2 || p.Params[0].ParamValue != uint16(0x1234) || p.Params[1].ParamValue != uint16(0x5678) {
		t.Fatalf("%+v", p.Params)
	}
}
'''
