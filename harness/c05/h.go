package main

import (
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HLength": HLength, "HKinds": HKinds, "HCodec": HCodec})
}

// header makes a header with arbitrary attribute bits and a stale length.
func header(id uint16) (*model.MsgHeader, uint16, int) {
	h := &model.MsgHeader{MsgID: id, SerialNumber: v.U16("serial"), PhoneNumber: "123456789012",
		Attr: &model.MsgBodyAttr{BodyLength: v.U16("stale"), Encryption: v.R8("enc", 0, 7), Extra: v.R8("extra", 0, 1), VersionDesc: model.Version2013}}
	bits := uint16(h.Attr.Encryption)<<10 | uint16(h.Attr.Extra)<<15
	hl := 12
	if v.Pick("v19", 2) == 1 {
		h.PhoneNumber, h.ProtocolVersion = "00000000123456789012", v.U8("pv")
		h.Attr.VersionSign, h.Attr.VersionDesc = 1, model.Version2019
		bits |= 1 << 14
		hl = 17
	}
	if v.Pick("frag", 2) == 1 {
		h.Attr.PacketFragmented, h.Attr.PacketFragmentedDesc = 1, true
		h.Frag = &model.MsgFragmentation{Total: v.U16("total"), Index: v.U16("index")}
		bits |= 1 << 13
		hl += 4
	}
	return h, bits, hl
}

func verify(out []byte, err error, bits uint16, hl, bodyLen int) {
	if bodyLen > 1023 {
		v.Assert(err != nil, "oversize-accepted")
		v.Reach("oversize")
		return
	}
	v.Assert(err == nil, "error")
	v.Assert(len(out) == hl+bodyLen, "length")
	attr := uint16(out[2])<<8 | uint16(out[3])
	v.Assert(attr&0x3ff == uint16(bodyLen), "length-field")
	v.Assert(attr&^uint16(0x3ff) == bits, "attribute-bits")
	v.Observe("attr", attr)
	v.Reach("fits")
}

// HLength: bodies of every interesting length.
// bound: body lengths 3,4,255,256,511,512,767,768,1000,1021..1030,1280,2047..2049,4096,16387,32768,65535,65536,65539 and (thorough) all of 3..1100; all attribute bits, stale lengths and serial numbers
func HLength() {
	ls := []int{3, 4, 255, 256, 511, 512, 767, 768, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1280, 2047, 2048, 2049, 4096, 16387, 32768, 65535, 65536, 65539}
	if v.Thorough() {
		for i := 5; i <= 1100; i++ {
			ls = append(ls, i)
		}
	}
	l := ls[v.Pick("len", len(ls))]
	h, bits, hl := header(0x8100)
	code := make([]byte, l-3)
	for i := range code {
		code[i] = byte(i)
	}
	m := &model.Msg8100{Header: h, AuthCode: string(code)}
	out, err := m.Encode()
	verify(out, err, bits, hl, l)
}

// HKinds: every message type.
// bound: one instance of each of the 17 encodable message types with arbitrary attribute bits and stale length; variable parts of 0..3 bytes
func HKinds() {
	k := v.Pick("kind", 17)
	h, bits, hl := header(v.U16("id"))
	t := time.Unix(1700000000, 0).UTC()
	s := "abc"[:v.Pick("s", 4)]
	var m model.JT808Msg
	n := 0
	v19 := h.Attr.VersionDesc == model.Version2019
	switch k {
	case 0:
		m, n = &model.Msg0001{Header: h, AnswerSerialNumber: v.U16("a")}, 5
	case 1:
		m = &model.Msg0002{Header: h}
	case 2:
		m = &model.Msg0003{Header: h}
	case 3:
		m = &model.Msg0004{Header: h}
	case 4:
		m, n = &model.Msg0100{Header: h, PlateNumber: s, DeviceID: s}, 37+len(s)
		if v19 {
			n = 76 + len(s)
		}
	case 5:
		m, n = &model.Msg0102{Header: h, AuthCode: s, IMEI: s}, len(s)
		if v19 {
			n = 36 + len(s)
		}
	case 6:
		m = &model.Msg0104{Header: h, Parameters: &model.DeviceParams{Params: []*model.ParamData{{ParamID: 0x13, ParamValue: s}}}}
		n = 3 + 5 + len(s)
	case 7:
		m, n = &model.Msg0200{Header: h, Time: "230102030405", Latitude: v.U32("lat")}, 28
	case 8:
		m = &model.Msg0800{Header: h}
	case 9:
		m = &model.Msg0801{Header: h}
	case 10:
		m, n = &model.Msg1205{Header: h, MediaCount: 1, DeviceMedia: model.DeviceMedia{DeviceMediaQuery: model.DeviceMediaQuery{StartTime: &t, EndTime: &t}}}, 34
	case 11:
		m, n = &model.Msg8001{Header: h, Result: 1}, 5
	case 12:
		m, n = &model.Msg8004{Header: h, ServerTime: &t}, 6
	case 13:
		m, n = &model.Msg8100{Header: h, AuthCode: s}, 3+len(s)
	case 14:
		m = &model.Msg8103{Header: h, Parameters: &model.DeviceParams{Params: []*model.ParamData{{ParamID: 0x13, ParamValue: s}}}}
		n = 1 + 5 + len(s)
	case 15:
		m = &model.Msg8104{Header: h}
	case 16:
		m, n = &model.Msg9205{Header: h, DeviceMediaQuery: model.DeviceMediaQuery{StartTime: &t, EndTime: &t}}, 24
	}
	out, err := m.Encode()
	verify(out, err, bits, hl, n)
}

// HCodec: the packet codec passes the error on and emits nothing.
// bound: body lengths 1023, 1024, 1500
func HCodec() {
	l := []int{1023, 1024, 1500}[v.Pick("l", 3)]
	h, _, _ := header(0x8100)
	out, err := protocol.NewJT808PacketCodec().Encode(&model.Msg8100{Header: h, AuthCode: string(make([]byte, l-3))})
	if l > 1023 {
		v.Assert(v.And(err != nil, len(out) == 0), "oversize-frame")
	} else {
		v.Assert(err == nil, "error")
		v.Observe("out", out[:8])
	}
	_ = lib.BE16
	v.Reach("done")
}
