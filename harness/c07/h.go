package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HWire": HWire, "HValues": HValues, "HUnsupported": HUnsupported, "HLong": HLong, "HNumbers": HNumbers})
}

// The parameter table of JT/T 808 and JT/T 1078, written down independently.
const (
	kB = iota // byte
	kW        // word
	kD        // double word
	kT        // text
	kX        // raw bytes, shown as hex digits
	kS        // raw bytes kept as a string
	kN        // number of kinds
)

var spec = []struct {
	kind int
	ids  []uint32
}{
	{kD, []uint32{1, 2, 3, 4, 5, 6, 7, 0x18, 0x19, 0x1b, 0x1c, 0x20, 0x21, 0x22, 0x27, 0x28, 0x29, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x45, 0x46, 0x47,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x64, 0x65, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x93, 0x95, 0x100, 0x102}},
	{kW, []uint32{0x31, 0x5b, 0x5c, 0x5d, 0x5e, 0x81, 0x82, 0x101, 0x103}},
	{kB, []uint32{0x84, 0x90, 0x91, 0x92, 0x94}},
	{kT, []uint32{0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1d, 0x23, 0x24, 0x25, 0x26, 0x40, 0x41, 0x42, 0x43, 0x44, 0x48, 0x49, 0x83}},
	{kX, []uint32{0x32, 0x75, 0x76, 0x77, 0x79, 0x7a, 0x7b, 0x7c}},
	{kS, []uint32{0x110}},
}

// rep is a representative id of each kind.
var rep = [kN]uint32{0x84, 0x31, 1, 0x13, 0x32, 0x110}

type par struct {
	id   uint32
	kind int
	wire []byte // value bytes
	val  any    // decoded value as documented: uint8/16/32, string
}

const hexDigits = "0123456789ABCDEF"

func mk(id uint32, kind, n int) par {
	p := par{id: id, kind: kind}
	switch kind {
	case kB:
		x := v.U8("v")
		p.wire, p.val = []byte{x}, x
	case kW:
		x := v.U16("v")
		p.wire, p.val = lib.BE16(x), x
	case kD:
		x := v.U32("v")
		p.wire, p.val = lib.BE32(x), x
	case kT:
		s := v.Ascii("v", n, 0, 0x7f)
		p.wire, p.val = []byte(s), s
	case kS:
		b := v.Bytes("v", n)
		p.wire, p.val = b, string(b)
	case kX:
		b := v.Bytes("v", n)
		var h []byte
		for _, x := range b {
			h = append(h, hexDigits[x>>4], hexDigits[x&15])
		}
		p.wire, p.val = b, string(h)
	}
	return p
}

func one(p par) []byte {
	return lib.Cat(lib.BE32(p.id), []byte{byte(len(p.wire))}, p.wire)
}

func wire(ps []par) []byte {
	b := []byte{byte(len(ps))}
	for _, p := range ps {
		b = append(b, one(p)...)
	}
	return b
}

func sameVal(a, b any) bool {
	switch x := a.(type) {
	case uint8:
		y, ok := b.(uint8)
		return v.And(ok, x == y)
	case uint16:
		y, ok := b.(uint16)
		return v.And(ok, x == y)
	case uint32:
		y, ok := b.(uint32)
		return v.And(ok, x == y)
	case string:
		y, ok := b.(string)
		return v.And(ok, v.EqStr(x, y))
	}
	return false
}

func check(d *model.DeviceParams, ps []par) {
	v.Assert(len(d.Params) == len(ps), "number-of-params")
	ok := true
	for i, p := range ps {
		g := d.Params[i]
		ok = v.And(ok, g.ParamID == p.id, int(g.ParamLen) == len(p.wire), sameVal(p.val, g.ParamValue))
	}
	v.Assert(ok, "params")
}

func header(id uint16) *model.MsgHeader {
	return &model.MsgHeader{MsgID: id, PhoneNumber: "123456789012", SerialNumber: 7, Attr: &model.MsgBodyAttr{VersionDesc: model.Version2013}}
}

// roundtrip decodes the wire form, compares values, and encodes it back, through one of the two messages or the list itself.
func roundtrip(ps []par) {
	w := wire(ps)
	switch v.Pick("via", 3) {
	case 0:
		d := &model.DeviceParams{}
		v.Assert(d.Decode("123456789012", w[0], lib.Cat(w[1:])) == nil, "decode-error")
		check(d, ps)
		out, err := d.Encode()
		v.Assert(err == nil, "encode-error")
		v.Assert(v.EqBytes(out, w), "reencode")
		v.Observe("out", out)
	case 1:
		m := &model.Msg8103{}
		v.Assert(m.Decode(&model.PacketData{Header: header(0x8103), Body: lib.Cat(w)}) == nil, "decode-error")
		check(m.Parameters, ps)
		out, err := m.Encode()
		v.Assert(err == nil, "encode-error")
		v.Assert(v.EqBytes(out[12:], w), "8103-reencode")
		v.Observe("out", out)
	case 2:
		s := v.U16("serial")
		m := &model.Msg0104{}
		v.Assert(m.Decode(&model.PacketData{Header: header(0x0104), Body: lib.Cat(lib.BE16(s), w)}) == nil, "decode-error")
		v.Assert(m.AnswerSerialNumber == s, "0104-serial")
		check(m.Parameters, ps)
		out, err := m.Encode()
		v.Assert(err == nil, "encode-error")
		v.Assert(v.EqBytes(out[12:], lib.Cat(lib.BE16(s), w)), "0104-reencode")
		v.Observe("out", out)
	}
	v.Reach("done")
}

// HWire: every parameter id, with any value, between two others.
// bound: each of the 93 ids of the protocol's table (all numeric values; texts of 0..4 symbolic bytes, thorough also 8 and 17; byte strings of 1, thorough 4 bytes), alone and followed by a double word, through DeviceParams, 0x8103 and 0x0104
func HWire() {
	k := v.Pick("kind", kN)
	var id uint32
	for _, s := range spec {
		if s.kind == k {
			id = s.ids[v.Pick("id", len(s.ids))]
		}
	}
	n := 0
	if k >= kT {
		ns := []int{0, 1, 2, 4, 8, 17}
		if k == kX {
			n = []int{1, 4}[v.Pick("n", v.Bound(1, 2))]
		} else {
			n = ns[v.Pick("n", v.Bound(4, 6))]
		}
	}
	ps := []par{mk(id, k, n)}
	if v.Pick("more", 2) == 1 {
		ps = append(ps, mk(2, kD, 0))
	}
	roundtrip(ps)
}

// HValues: lists of several parameters built in memory, encoded and decoded.
// bound: 0..2 (thorough 0..3) parameters of every combination of kinds, any values
func HValues() {
	n := v.Pick("n", v.Bound(3, 4))
	d := &model.DeviceParams{DevicePhone: "123456789012"}
	var ps []par
	for i := 0; i < n; i++ {
		k := v.Pick("kind", kN)
		p := mk(rep[k], k, 2)
		ps = append(ps, p)
		d.Params = append(d.Params, &model.ParamData{ParamID: p.id, ParamLen: byte(len(p.wire)), ParamValue: p.val})
	}
	d.ParamCnt = byte(n)
	out, err := d.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, wire(ps)), "layout")
	e := &model.DeviceParams{}
	v.Assert(e.Decode("123456789012", out[0], out[1:]) == nil, "decode-error")
	check(e, ps)
	v.Observe("out", out)
	v.Reach("done")
}

// HUnsupported: ids the protocol does not define are skipped, on both sides.
// bound: lists of 1..3 (thorough 4), at each position a supported (any kind) or unsupported id (0, 0x78, 0xfe, 0xf123, 0xffffffff) of 0, 1, 4 (first one: also 127, 128, 200, 255) value bytes
func HUnsupported() {
	n := 1 + v.Pick("n", v.Bound(3, 4))
	bad := []uint32{0, 0x78, 0xfe, 0xf123, 0xffffffff}
	var all, good []par
	d := &model.DeviceParams{}
	for i := 0; i < n; i++ {
		var p par
		k := v.Pick("kind", 4)
		if k == 3 {
			id := bad[0]
			if i == 0 {
				id = bad[v.Pick("bad", len(bad))]
			}
			ln := 3
			if i == 0 {
				ln = 7
			}
			p = par{id: id, wire: v.Bytes("junk", []int{0, 1, 4, 127, 128, 200, 255}[v.Pick("jn", ln)])}
			p.val = string(p.wire)
		} else {
			k = []int{kB, kD, kT}[k]
			p = mk(rep[k], k, 2)
			good = append(good, p)
		}
		all = append(all, p)
		d.Params = append(d.Params, &model.ParamData{ParamID: p.id, ParamLen: byte(len(p.wire)), ParamValue: p.val})
	}
	d.ParamCnt = byte(n)
	e := &model.DeviceParams{}
	w := wire(all)
	v.Assert(e.Decode("123456789012", w[0], w[1:]) == nil, "decode-error")
	check(e, good)
	out, err := d.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, wire(good)), "skip-on-encode")
	out, err = e.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, wire(good)), "reencode-count")
	v.Observe("out", out)
	v.Reach("done")
}

// HLong: long lists and long values.
// bound: 40, 127, 128, 200, 255 double words; texts of 60, 127, 128, 200, 255 bytes
func HLong() {
	var ps []par
	if v.Pick("what", 2) == 0 {
		n := []int{40, 127, 128, 200, 255}[v.Pick("n", 5)]
		for i := 0; i < n; i++ {
			ps = append(ps, par{id: 1, kind: kD, wire: lib.BE32(uint32(i)), val: uint32(i)})
		}
		ps[n-1] = mk(2, kD, 0)
	} else {
		n := []int{60, 127, 128, 200, 255}[v.Pick("n", 5)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		ps = []par{{id: 0x13, kind: kT, wire: b, val: string(b)}, mk(2, kD, 0)}
	}
	w := wire(ps)
	d := &model.DeviceParams{}
	v.Assert(d.Decode("123456789012", w[0], lib.Cat(w[1:])) == nil, "decode-error")
	check(d, ps)
	out, err := d.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, w), "reencode")
	v.Reach("done")
}

// HNumbers: values that come from JSON (float64) encode like the integers they are.
// bound: every byte, word and double word value given as float64
func HNumbers() {
	k := v.Pick("kind", 3)
	var w []byte
	var f float64
	switch k {
	case kB:
		x := v.U8("v")
		w, f = []byte{x}, float64(x)
	case kW:
		x := v.U16("v")
		w, f = lib.BE16(x), float64(x)
	case kD:
		x := v.U32("v")
		w, f = lib.BE32(x), float64(x)
	}
	d := &model.DeviceParams{Params: []*model.ParamData{{ParamID: rep[k], ParamValue: f}}}
	out, err := d.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, wire([]par{{id: rep[k], wire: w}})), "layout")
	v.Observe("out", out)
	v.Reach("done")
}
