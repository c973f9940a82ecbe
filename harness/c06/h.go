package main

import (
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HReplies": HReplies, "HEmptyBodies": HEmptyBodies, "HRegister": HRegister, "HRegisterCut": HRegisterCut, "HAuth": HAuth, "HAuthCut": HAuthCut,
		"HRegReply": HRegReply, "HLocation": HLocation, "HTime": HTime, "HMediaQuery": HMediaQuery, "HMediaList": HMediaList, "HRegisterText": HRegisterText})
}

func packet(id uint16, v19 bool, body []byte) (*model.PacketData, []byte) {
	p := "123456789012"
	if v19 {
		p = lib.V19(p)
	}
	raw := lib.Msg(id, v19, p, 77, body)
	return lib.Packet(lib.Cat(raw)), raw
}

// same re-encodes and compares with the original bytes.
func same(m model.JT808Msg, raw []byte) {
	out, err := m.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(len(out) == len(raw), "reencode-length")
	v.Assert(v.EqBytes(out, raw), "reencode")
	v.Observe("out", out)
	v.Reach("done")
}

func ver() bool { return v.Pick("v19", 2) == 1 }

// HReplies: general replies.
// bound: all serial numbers, ids and results of 0x0001 and 0x8001, both versions
func HReplies() {
	v19 := ver()
	s, id, r := v.U16("s"), v.U16("id"), v.U8("r")
	body := lib.Cat(lib.BE16(s), lib.BE16(id), []byte{r})
	if v.Pick("m", 2) == 0 {
		pd, raw := packet(0x0001, v19, body)
		m := &model.Msg0001{}
		v.Assert(m.Decode(pd) == nil, "decode-error")
		v.Assert(v.And(m.AnswerSerialNumber == s, m.AnswerMessageID == id, m.Result == r), "0001-fields")
		same(m, raw)
		return
	}
	pd, raw := packet(0x8001, v19, body)
	m := &model.Msg8001{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.And(m.AnswerSerialNumber == s, m.AnswerMessageID == id, uint8(m.Result) == r), "8001-fields")
	same(m, raw)
}

// HEmptyBodies: messages without body.
// bound: 0x0002, 0x0003, 0x0004, 0x8104 in both versions
func HEmptyBodies() {
	v19 := ver()
	ms := []model.JT808Msg{&model.Msg0002{}, &model.Msg0003{}, &model.Msg0004{}, &model.Msg8104{}}
	ids := []uint16{2, 3, 4, 0x8104}
	k := v.Pick("k", 4)
	pd, raw := packet(ids[k], v19, nil)
	v.Assert(ms[k].Decode(pd) == nil, "decode-error")
	v.Assert(ms[k].GetHeader().MsgID == ids[k], "id")
	same(ms[k], raw)
}

// text is a fixed-width field with l symbolic bytes (the last not zero) and zero padding.
func text(name string, l, width int) (string, []byte) {
	b := v.Bytes(name, l)
	if l > 0 {
		v.Assume(b[l-1] != 0)
	}
	f := make([]byte, width)
	copy(f, b)
	return string(b), f
}

func length(name string, width int) int {
	return []int{width, 0, 1, width / 2, width - 1}[v.Pick(name, v.Bound(3, 5))]
}

var provinces = [][2]uint16{{31, 115}, {11, 0}, {0, 0}, {65, 4301}, {65535, 65535}}

func widths() (ver int, manu, mode, id int, v19 bool) {
	switch v.Pick("ver", 3) {
	case 0:
		return 2011, 5, 8, 7, false
	case 1:
		return 2013, 5, 20, 7, false
	}
	return 2019, 11, 30, 30, true
}

// HRegister: registration in its three forms.
// bound: 2011/2013/2019 forms; maker, model and id fields of every byte value at lengths full, 0, 1 (thorough: also half and width-1); 5 province/city pairs; all colours; plates of 1..8 (2011: ..12) arbitrary ASCII characters
func HRegister() {
	ver, wm, wd, wi, v19 := widths()
	manu, fm := text("manu", length("lm", wm), wm)
	mode, fd := text("mode", length("ld", wd), wd)
	id, fi := text("id", length("li", wi), wi)
	color := v.U8("color")
	pl := []int{1, 7, 8, 12}[v.Pick("pl", v.Bound(2, 4))]
	plate := v.Ascii("plate", pl, 0, 127)
	pc := provinces[v.Pick("prov", v.Bound(1, 5))]
	body := lib.Cat(lib.BE16(pc[0]), lib.BE16(pc[1]), fm, fd, fi, []byte{color}, []byte(plate))
	pd, raw := packet(0x0100, v19, body)
	m := &model.Msg0100{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.And(m.ProvinceID == pc[0], m.CityID == pc[1]), "region")
	v.Assert(v.EqStr(m.ManufacturerID, manu), "manufacturer")
	v.Assert(v.EqStr(m.DeviceMode, mode), "model")
	v.Assert(v.EqStr(m.DeviceID, id), "id")
	v.Assert(m.PlateColor == color, "color")
	v.Assert(v.EqStr(m.PlateNumber, plate), "plate")
	_ = ver
	same(m, raw)
}

// HRegisterText: plates with Chinese characters.
// bound: five plates with GBK double-byte characters in the three forms
func HRegisterText() {
	_, wm, wd, wi, v19 := widths()
	_, fm := text("manu", 1, wm)
	_, fd := text("mode", 1, wd)
	id, fi := text("id", 1, wi)
	gbk := [][]byte{{0xbe, 0xa9, 'A', '1', '2', '3', '4', '5'}, {0xbb, 0xa6, 'B'}, {0xd4, 0xc1}, {0xbe, 0xa9, 'A', 0xbe, 0xaf}, {'W', 'J', 0xbe, 0xa9, '0', '1'}}
	utf := []string{"京A12345", "沪B", "粤", "京A警", "WJ京01"}
	k := v.Pick("k", 5)
	color := v.U8("color")
	body := lib.Cat(lib.BE16(31), lib.BE16(115), fm, fd, fi, []byte{color}, gbk[k])
	pd, raw := packet(0x0100, v19, body)
	m := &model.Msg0100{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.EqStr(m.DeviceID, id), "id")
	v.Assert(v.EqStr(m.PlateNumber, utf[k]), "plate")
	same(m, raw)
}

// HRegisterCut: overlong texts are cut, never shift what follows.
// bound: maker, model and id of 0, width or width+1..width+3 symbolic bytes in the three forms
func HRegisterCut() {
	ver, wm, wd, wi, v19 := widths()
	l := func(n string, w int) int { return []int{0, w, w + 1, w + 3}[v.Pick(n, 4)] }
	manu := string(v.Bytes("manu", l("lm", wm)))
	mode := string(v.Bytes("mode", l("ld", wd)))
	id := string(v.Bytes("id", l("li", wi)))
	h := &model.MsgHeader{MsgID: 0x0100, PhoneNumber: "123456789012", Attr: &model.MsgBodyAttr{VersionDesc: model.Version2013}}
	switch {
	case v19:
		h.PhoneNumber = lib.V19(h.PhoneNumber)
		h.Attr.VersionDesc, h.Attr.VersionSign = model.Version2019, 1
	case ver == 2011:
		h.Attr.VersionDesc = model.Version2011
	}
	color := v.U8("color")
	m := &model.Msg0100{Header: h, ProvinceID: v.U16("p"), CityID: v.U16("c"), ManufacturerID: manu, DeviceMode: mode, DeviceID: id, PlateColor: color, PlateNumber: "A1"}
	out, err := m.Encode()
	v.Assert(err == nil, "encode-error")
	hl := 12
	if v19 {
		hl = 17
	}
	fit := func(s string, w int) []byte {
		b := make([]byte, w)
		copy(b, s)
		return b
	}
	want := lib.Cat(lib.BE16(m.ProvinceID), lib.BE16(m.CityID), fit(manu, wm), fit(mode, wd), fit(id, wi), []byte{color, 'A', '1'})
	v.Assert(len(out) == hl+len(want), "length")
	v.Assert(v.EqBytes(out[hl:], want), "layout")
	v.Observe("out", out)
	v.Reach("done")
}

// long is an arbitrary byte string, above 100 bytes with four arbitrary bytes in a fixed text.
func long(n string, l int) []byte {
	if l < 100 {
		return v.Bytes(n, l)
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	b[0], b[l/2], b[l-2], b[l-1] = v.U8(n), v.U8(n), v.U8(n), v.U8(n)
	return b
}

// HAuth: authentication.
// bound: codes of 0, 1, 8, 12 (thorough 20, 40) arbitrary bytes and of 127, 128, 200, 255 bytes with 4 arbitrary ones, IMEI and version at lengths full, 0, 1 (thorough: half, width-1), both versions
func HAuth() {
	v19 := ver()
	code := string(long("code", []int{0, 1, 8, 12, 127, 128, 200, 255, 20, 40}[v.Pick("lc", v.Bound(8, 10))]))
	var body []byte
	imei, sw := "", ""
	if v19 {
		var fi, fs []byte
		imei, fi = text("imei", length("li", 15), 15)
		sw, fs = text("sw", length("ls", 20), 20)
		body = lib.Cat([]byte{byte(len(code))}, []byte(code), fi, fs)
	} else {
		body = []byte(code)
	}
	pd, raw := packet(0x0102, v19, body)
	m := &model.Msg0102{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.EqStr(m.AuthCode, code), "code")
	v.Assert(v.EqStr(m.IMEI, imei), "imei")
	v.Assert(v.EqStr(m.SoftwareVersion, sw), "software")
	same(m, raw)
}

// HAuthCut: overlong IMEI and version are cut.
// bound: IMEI and software version of 0, width, width+1, width+4 bytes, any values
func HAuthCut() {
	h := &model.MsgHeader{MsgID: 0x0102, PhoneNumber: lib.V19("123456789012"), Attr: &model.MsgBodyAttr{VersionDesc: model.Version2019, VersionSign: 1}}
	imei := v.Bytes("imei", []int{0, 15, 16, 19}[v.Pick("li", 4)])
	sw := v.Bytes("sw", []int{0, 20, 21, 24}[v.Pick("ls", 4)])
	m := &model.Msg0102{Header: h, AuthCode: "xyz", AuthCodeLen: v.U8("stale"), IMEI: string(imei), SoftwareVersion: string(sw)}
	out, err := m.Encode()
	v.Assert(err == nil, "encode-error")
	fi, fs := make([]byte, 15), make([]byte, 20)
	copy(fi, imei)
	copy(fs, sw)
	want := lib.Cat([]byte{3, 'x', 'y', 'z'}, fi, fs)
	v.Assert(len(out) == 17+len(want), "length")
	v.Assert(v.EqBytes(out[17:], want), "layout")
	v.Observe("out", out)
	v.Reach("done")
}

// HRegReply: registration reply.
// bound: all serial numbers and results, codes of 0, 1, 8, 12 (thorough 40) arbitrary bytes and of 127, 128, 255, 256, 1020 bytes with 4 arbitrary ones, both versions
func HRegReply() {
	s, r := v.U16("s"), v.U8("r")
	code := long("code", []int{0, 1, 8, 12, 127, 128, 255, 256, 1020, 40}[v.Pick("l", v.Bound(9, 10))])
	pd, raw := packet(0x8100, ver(), lib.Cat(lib.BE16(s), []byte{r}, code))
	m := &model.Msg8100{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.And(m.AnswerSerialNumber == s, uint8(m.Result) == r), "fields")
	v.Assert(v.EqStr(m.AuthCode, string(code)), "code")
	same(m, raw)
}

// HLocation: location report.
// bound: all values of all eight fields (time: any 12 digits); 0, 1 or 6 bytes of additional items follow (2 (quick) / 3)
func HLocation() {
	al, st, lat, lon := v.U32("al"), v.U32("st"), v.U32("lat"), v.U32("lon")
	alt, sp, dir := v.U16("alt"), v.U16("sp"), v.U16("dir")
	t := v.Digits("t", 12)
	extra := v.Bytes("extra", []int{0, 6, 1}[v.Pick("extra", v.Bound(2, 3))])
	pd, raw := packet(0x0200, ver(), lib.Cat(lib.LocBody(al, st, lat, lon, alt, sp, dir, t), extra))
	m := &model.Msg0200{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.And(m.AlarmSign == al, m.StatusSign == st, m.Latitude == lat, m.Longitude == lon), "dwords")
	v.Assert(v.And(m.Altitude == alt, m.Speed == sp, m.Direction == dir), "words")
	v.Assert(v.EqStr(m.Time, t), "time")
	if len(extra) == 0 {
		same(m, raw)
	}
}

// stamp is a valid time in digits.
func stamp(n string) (string, time.Time) {
	ts := []string{"230301123456", "991231235959", "000101000000", "240229000001", "680615120000"}
	k := v.Pick(n, v.Bound(3, 5))
	t, err := time.Parse("060102150405", ts[k])
	v.Assert(err == nil, "spec-time")
	return ts[k], t
}

// HTime: server time.
// bound: five moments (first and last second of a century, leap day, ...)
func HTime() {
	ds, t := stamp("t")
	pd, raw := packet(0x8004, ver(), lib.BCD(ds))
	m := &model.Msg8004{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(m.ServerTime.Equal(t), "time")
	same(m, raw)
}

// HMediaQuery: media query.
// bound: all channel, alarm, type, stream and storage values; 3 (quick) / 5 start and end moments
func HMediaQuery() {
	ch, a, e := v.U8("ch"), v.U32("a"), v.U32("e")
	mt, st, sg := v.U8("mt"), v.U8("st"), v.U8("sg")
	d1, t1 := stamp("t1")
	d2, t2 := stamp("t2")
	pd, raw := packet(0x9205, ver(), lib.Cat([]byte{ch}, lib.BCD(d1), lib.BCD(d2), lib.BE32(a), lib.BE32(e), []byte{mt, st, sg}))
	m := &model.Msg9205{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.And(m.LogicChannelID == ch, m.AlarmSign == a, m.AlarmSignExt == e, m.MediaType == mt, m.StreamType == st, m.StorageType == sg), "fields")
	v.Assert(v.And(m.StartTime.Equal(t1), m.EndTime.Equal(t2)), "times")
	same(m, raw)
}

// HMediaList: media list with one entry or none.
// bound: all field values; 3 (quick) / 5 start and end moments; 0..3 entries, of which the first is read
func HMediaList() {
	s := v.U16("s")
	if v.Pick("n", 2) == 0 {
		pd, raw := packet(0x1205, ver(), lib.Cat(lib.BE16(s), lib.BE32(0)))
		m := &model.Msg1205{}
		v.Assert(m.Decode(pd) == nil, "decode-error")
		v.Assert(v.And(m.AnswerSerialNumber == s, m.MediaCount == 0), "empty-list")
		same(m, raw)
		return
	}
	ch, a, e, sz := v.U8("ch"), v.U32("a"), v.U32("e"), v.U32("sz")
	mt, st, sg := v.U8("mt"), v.U8("st"), v.U8("sg")
	d1, t1 := stamp("t1")
	d2, t2 := stamp("t2")
	n := uint32(1 + v.Pick("count", 3))
	var more []byte
	for i := uint32(1); i < n; i++ {
		more = lib.Cat(more, []byte{byte(i)}, lib.BCD("230102030405"), lib.BCD("230102040506"), lib.BE32(0), lib.BE32(0), []byte{1, 1, 1}, lib.BE32(i))
	}
	pd, raw := packet(0x1205, ver(), lib.Cat(lib.BE16(s), lib.BE32(n), []byte{ch}, lib.BCD(d1), lib.BCD(d2), lib.BE32(a), lib.BE32(e), []byte{mt, st, sg}, lib.BE32(sz), more))
	m := &model.Msg1205{}
	v.Assert(m.Decode(pd) == nil, "decode-error")
	v.Assert(v.And(m.AnswerSerialNumber == s, m.MediaCount == n, m.Size == sz), "list-fields")
	v.Assert(v.And(m.LogicChannelID == ch, m.AlarmSign == a, m.AlarmSignExt == e, m.MediaType == mt, m.StreamType == st, m.StorageType == sg), "fields")
	v.Assert(v.And(m.StartTime.Equal(t1), m.EndTime.Equal(t2)), "times")
	if n == 1 {
		same(m, raw)
	}
}
