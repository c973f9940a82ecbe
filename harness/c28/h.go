package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HReport": HReport, "HRegister": HRegister, "HAuth": HAuth, "HReply": HReply, "HHeader": HHeader, "HFragments": HFragments, "HDeclared": HDeclared, "HTerminal": HTerminal})
}

// push sends a message that must not be acted on: it may fail or panic (the server then closes the connection), but nothing is answered.
func push(s *model.Session, c *lib.Conn, raw []byte) {
	n := len(c.Out)
	v.Catch(func() { lib.Push(s, c, raw) })
	v.Assert(len(c.Out) == n && c.Writes == n, "answered")
}

// sized is Msg with the declared length given.
func sized(id uint16, v19 bool, ph string, serial uint16, declared int, body []byte) []byte {
	attr := uint16(declared)
	if v19 {
		attr |= 0x4000
	}
	return lib.Cat(lib.HeaderBytes(id, attr, 1, ph, serial), body)
}

func plain(b ...byte) {
	for _, x := range b {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
}

// world has a device A in a state with a location, and a device B.
func world(v19 bool, state int) (*model.Session, *lib.Conn, string, string) {
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	code := lib.Ready(s, v19, a, lib.PlateA, state)
	v.Assert(lib.Loc(s, v19, a, 1, 1234) == nil, "setup-loc")
	if state == 0 {
		d, err := storage.GetDeviceCache().GetDeviceByPhone(a)
		v.Assert(err == nil, "setup-device")
		v.Assume(d.Status == model.DeviceStatusOffline)
	}
	if v.Pick("warm", 2) == 1 { // an earlier long message went through the same connection
		out, err := lib.Push(s, c, lib.Msg(0x0200, v19, a, 0x4142, lib.Cat(lib.LocBody(0, 1, 39000000, 116000000, 50, 600, 90, "230102030405"), make([]byte, 40))))
		v.Assert(err == nil && len(out) == 1, "setup-warm")
	}
	v.Advance(7)
	return s, c, a, code
}

// HReport: a location report cut short.
// bound: every length 0..27 of a report body, last two bytes present symbolic, both versions, online device; with or without an earlier long message on the connection; log level debug, info or error
func HReport() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	s, c, a, _ := world(v19, 1)
	body := lib.LocBody(0, 2, 40000000, 117000000, 51, 601, 91, "230203040506")[:v.Pick("n", 28)]
	for i := len(body) - 2; i < len(body); i++ {
		if i >= 0 {
			body[i] = v.U8("x")
			plain(body[i])
		}
	}
	before := lib.Of(a)
	push(s, c, lib.Msg(0x0200, v19, a, 0x0301, body))
	v.Assert(lib.Of(a) == before, "acted-on")
	v.Reach("refused")
}

// HRegister: a registration cut short before its plate.
// bound: every length below the fixed part (76 bytes of 2019, 25 bytes else), last byte symbolic; the phone unknown or registered
func HRegister() {
	v19 := v.Pick("v19", 2) == 1
	s, c, a, _ := world(v19, 1)
	ph, plate := a, lib.PlateA
	if v.Pick("who", 2) == 1 {
		ph, plate = lib.Phone(v19, lib.PhoneC), lib.PlateC
	}
	full := lib.RegBody(v19, "DEV3", plate)
	need := 25
	if v19 {
		need = 76
	}
	body := full[:v.Pick("n", need)]
	if len(body) > 0 {
		body[len(body)-1] = v.U8("x")
		plain(body[len(body)-1])
	}
	before, n := lib.Of(ph), lib.Devices()
	push(s, c, lib.Msg(0x0100, v19, ph, 0x0302, body))
	v.Assert(lib.Of(ph) == before && lib.Devices() == n && lib.AllJobs() == n, "acted-on")
	v.Reach("refused")
}

// HAuth: a 2019 authentication cut short.
// bound: right or wrong code, every length below 1+code+35, device offline or online; the last byte present symbolic when it lies behind the code
func HAuth() {
	s, c, a, code := world(true, v.Pick("state", 2))
	if v.Pick("wrong", 2) == 1 {
		code = "1234"
	}
	full := lib.AuthBody(true, code, "860000000000009", "v9.99999999999999999")
	body := full[:v.Pick("n", len(full))]
	if len(body) > 1+len(code) {
		body[len(body)-1] = v.U8("x")
		plain(body[len(body)-1])
	}
	before := lib.Of(a)
	push(s, c, lib.Msg(0x0102, true, a, 0x0303, body))
	v.Assert(lib.Of(a) == before, "acted-on")
	v.Reach("refused")
}

// HReply: general replies, parameter replies and media lists cut short.
// bound: every length below the fixed part (5, 3, 6 bytes), symbolic bytes; both versions
func HReply() {
	v19 := v.Pick("v19", 2) == 1
	s, c, a, _ := world(v19, 1)
	k := v.Pick("kind", 3)
	id, need := []uint16{0x0001, 0x0104, 0x1205}[k], []int{5, 3, 6}[k]
	body := v.Bytes("b", v.Pick("n", need))
	plain(body...)
	before := lib.Of(a)
	push(s, c, lib.Msg(id, v19, a, 0x0304, body))
	v.Assert(lib.Of(a) == before, "acted-on")
	v.Reach("refused")
}

// HHeader: frames that end inside the header.
// bound: every length 1..11 (2013), 1..16 (2019), 12..15 and 17..20 with the fragment flag; heartbeat, deregistration, time query and location of a registered phone; symbolic last byte
func HHeader() {
	v19, frag := v.Pick("v19", 2) == 1, v.Pick("frag", 2) == 1
	s, c, a, _ := world(v19, 1)
	id := []uint16{0x0002, 0x0003, 0x0004, 0x0200}[v.Pick("id", 4)]
	raw := lib.Msg(id, v19, a, 0x0305, nil)
	lo := 1
	if frag {
		lo = len(raw)
		raw = lib.Frag(id, v19, a, 0x0305, 2, 1, nil)
	}
	raw = raw[:lo+v.Pick("n", len(raw)-lo)]
	if len(raw) > 5 {
		raw[len(raw)-1] = v.U8("x")
		plain(raw[len(raw)-1])
	}
	before, n := lib.Of(a), lib.Devices()
	push(s, c, raw)
	v.Assert(lib.Of(a) == before && lib.Devices() == n, "acted-on")
	v.Reach("refused")
}

// HFragments: a location report that is too short after reassembly.
// bound: 2 or 3 fragments with every total length 0..27 and cut, both versions
func HFragments() {
	v19 := v.Pick("v19", 2) == 1
	s, c, a, _ := world(v19, 1)
	body := lib.LocBody(0, 2, 40000000, 117000000, 51, 601, 91, "230203040506")[:v.Pick("n", 28)]
	n := 2 + v.Pick("three", 2)
	cut := v.Pick("cut", len(body)/3+1) * 3
	parts := [][]byte{body[:cut], body[cut:]}
	if n == 3 {
		parts = append(parts, nil)
	}
	before := lib.Of(a)
	for i, p := range parts {
		raw := lib.Frag(0x0200, v19, a, uint16(0x0311+i), uint16(n), uint16(i+1), p)
		if i < n-1 {
			out, err := lib.Push(s, c, raw)
			v.Assert(err == nil && len(out) == 1, "fragment-not-acknowledged")
		} else {
			push(s, c, raw)
		}
	}
	v.Assert(lib.Of(a) == before, "acted-on")
	v.Reach("refused")
}

// HDeclared: fields whose length follows from the declared body length do not reach beyond the end.
// bound: 2013 authentication and registration (both versions) declaring 1..8, 100 or all the remaining bytes to 1023 more than there are
func HDeclared() {
	v19 := v.Pick("v19", 2) == 1
	more := v.Pick("more", 10) + 1
	s, c, a, code := world(v19, 1)
	var raw []byte
	ph := a
	decl := func(n int) int {
		switch more {
		case 9:
			return n + 100
		case 10:
			return 1023
		}
		return n + more
	}
	if !v19 && v.Pick("kind", 2) == 1 {
		raw = sized(0x0102, false, a, 0x0306, decl(len(code)), []byte(code))
	} else {
		ph = lib.Phone(v19, lib.PhoneC)
		b := lib.RegBody(v19, "DEV3", lib.PlateC)
		raw = sized(0x0100, v19, ph, 0x0306, decl(len(b)), b)
	}
	before, n := lib.Of(ph), lib.Devices()
	push(s, c, raw)
	v.Assert(lib.Of(ph) == before && lib.Devices() == n, "acted-on")
	v.Reach("refused")
}

// HTerminal: platform messages cut short do nothing on the simulated terminal.
// bound: general reply, registration reply, parameter setting (1..2 parameters) and media query, every length below the fixed part, both versions; symbolic last byte
func HTerminal() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	d := &model.Device{ID: "DEV1", Plate: lib.PlateA, Phone: a, SessionID: "s1", Status: model.DeviceStatusOffline, VersionDesc: model.Version2013, LastestComTime: v.Now()}
	if v19 {
		d.VersionDesc, d.ProtocolVersion = model.Version2019, 1
	}
	storage.GetDeviceCache().CacheDevice(d)
	ps := &model.DeviceParams{DevicePhone: a, ParamCnt: 2, Params: []*model.ParamData{
		{ParamID: 0x01, ParamLen: 4, ParamValue: uint32(30)}, {ParamID: 0x13, ParamLen: 5, ParamValue: "cmnet"}}}
	storage.GetDeviceParamsCache().CacheDeviceParams(ps)
	s, c := lib.NewSession("s1")
	k := v.Pick("kind", 4)
	id := []uint16{0x8001, 0x8100, 0x8103, 0x9205}[k]
	full := [][]byte{
		{0, 1, 1, 2, 0},
		{0, 1, 0},
		{2, 0, 0, 0, 1, 4, 0, 0, 0, 60, 0, 0, 0, 0x13, 5, 'o', 't', 'h', 'e', 'r'},
		lib.Cat([]byte{1}, lib.BCD("230102030405"), lib.BCD("230102040405"), make([]byte, 8), []byte{0, 0, 0}),
	}[k]
	body := full[:v.Pick("n", len(full))]
	if len(body) > 5 && v.Pick("sym", 2) == 1 && k == 3 {
		body[len(body)-1] = v.U8("x")
		plain(body[len(body)-1])
	}
	before := lib.Of(a)
	push(s, c, lib.Msg(id, v19, a, 0x0307, body))
	v.Assert(lib.Of(a) == before, "acted-on")
	p, err := storage.GetDeviceParamsCache().GetDeviceParamsByPhone(a)
	v.Assert(err == nil && len(p.Params) == 2, "parameters-lost")
	v.Assert(p.Params[0].ParamValue == any(uint32(30)) && p.Params[1].ParamValue == any("cmnet"), "parameters-changed")
	v.Reach("refused")
}
