property = 'C24'
pkg = 'internal/protocol/model'
edits = [
  ('internal/protocol/model/device_params.go',
   '\t\tif _, ok := paramMap[id]; ok {\n\t\t\tparamMap[id] = newParam',
   '\t\tif old, ok := paramMap[id]; ok && old.ParamLen == newParam.ParamLen {\n\t\t\tparamMap[id] = newParam'),
]
needs = 'setting a text parameter to a value of another length'
breaks = 'the acknowledged new value is not stored; the next query still returns the old one'
demo = r'''
package model

import "testing"

func TestDemo(t *testing.T) {
	p := &DeviceParams{ParamCnt: 1, Params: []*ParamData{{ParamID: 0x10, ParamLen: 2, ParamValue: "ab"}}}
	p.Update(&DeviceParams{ParamCnt: 1, Params: []*ParamData{{ParamID: 0x10, ParamLen: 3, ParamValue: "xyz"}}})
	if p.Params[0].ParamValue != "xyz" {
		t.Fatal(p.Params[0])
	}
}
'''
