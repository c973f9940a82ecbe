package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HIssued": HIssued, "HOther": HOther, "HOnlyAuth": HOnlyAuth, "HRefused": HRefused, "HSame": HSame, "HWrongLength": HWrongLength, "HAgain": HAgain, "HAnew": HAnew})
}

func phone(v19 bool, p string) string {
	if v19 {
		return lib.V19(p)
	}
	return p
}

func status(ph string) model.DeviceStatus {
	d, err := storage.GetDeviceCache().GetDeviceByPhone(ph)
	v.Assert(err == nil, "device-missing")
	return d.Status
}

// auth sends an authentication frame and returns the result byte of its answer.
func auth(s *model.Session, c *lib.Conn, v19 bool, ph, code, imei, sw string) byte {
	out, err := lib.Push(s, c, lib.Msg(0x0102, v19, ph, 2, lib.AuthBody(v19, code, imei, sw)))
	v.Assert(err == nil && len(out) == 1, "auth-unanswered")
	r := lib.Parse(out[0])
	v.Assert(r.ID == 0x8001 && len(r.Body) == 5, "auth-answer")
	return r.Body[4]
}

// register sends a registration frame and returns result and code.
func register(s *model.Session, c *lib.Conn, v19 bool, ph, dev, plate string) (byte, string) {
	out, err := lib.Push(s, c, lib.Msg(0x0100, v19, ph, 1, lib.RegBody(v19, dev, plate)))
	v.Assert(err == nil && len(out) == 1, "register-unanswered")
	r := lib.Parse(out[0])
	v.Assert(r.ID == 0x8100 && len(r.Body) >= 3, "register-answer")
	return r.Body[2], string(r.Body[3:])
}

// HIssued: the issued code is accepted and the reported identity recorded.
// bound: both versions, device id of 0, 1, 3 and full width bytes, 3 plates (one GBK), IMEI with its first or last character symbolic, software version of 0..2 symbolic characters, time between registration and authentication 0..50 s, other sessions in between
func HIssued() {
	v19 := v.Pick("v19", 2) == 1
	ph := phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	dev := []string{"", "D", "DEV", "DEV4567"}[v.Pick("dev", 4)]
	plate := []string{lib.PlateA, "B1", "\xbe\xa9A12345"}[v.Pick("plate", 3)]
	res, code := register(s, c, v19, ph, dev, plate)
	v.Assert(res == 0, "register")
	v.Assert(len(code) > 0, "no-code")
	v.Assert(status(ph) == model.DeviceStatusOffline, "online-after-register")
	if v.Pick("between", 2) == 1 {
		v.Advance(50)
		s2, _ := lib.NewSession("s2")
		lib.Register(s2, v19, phone(v19, lib.PhoneB), lib.PlateB)
	}
	imei, sw := "", ""
	if v19 {
		x := v.Ascii("imei", 1, '0', 'Z')
		imei = []string{"86000000000000" + x, x + "60000000000001"}[v.Pick("at", 2)]
		sw = v.Ascii("sw", v.Pick("swn", 3), '.', 'z')
	}
	v.Assert(auth(s, c, v19, ph, code, imei, sw) == 0, "issued-code-refused")
	d, err := storage.GetDeviceCache().GetDeviceByPhone(ph)
	v.Assert(err == nil, "device-gone")
	v.Assert(d.Status == model.DeviceStatusOnline, "not-online")
	v.Assert(v.EqStr(d.AuthCode, code), "code-recorded")
	v.Assert(v.And(v.EqStr(d.IMEI, imei), v.EqStr(d.SoftwareVersion, sw)), "identity-recorded")
	v.Assert(d.LastestComTime.Unix() == v.Clock(), "contact-time")
	v.Observe("code", code)
	v.Reach("online")
}

// HOther: any other code is refused and removes the registration.
// bound: codes of the issued length with one or (thorough) two symbolic bytes at every position, arbitrary codes of 0..4 (thorough 0..8) symbolic bytes; both versions; device offline, online or sleeping before
func HOther() {
	v19 := v.Pick("v19", 2) == 1
	ph := phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	code := lib.Ready(s, v19, ph, lib.PlateA, v.Pick("state", 3))
	var bad string
	if v.Pick("how", 2) == 0 {
		b := []byte(code)
		i := v.Pick("pos", len(b))
		b[i] = v.U8("x")
		if v.Thorough() {
			b[v.Pick("pos2", len(b))] = v.U8("y")
		}
		bad = string(b)
	} else {
		bad = string(v.Bytes("code", v.Pick("n", v.Bound(5, 9))))
	}
	right := v.Split(v.EqStr(bad, code))
	r, err := lib.Auth(s, v19, ph, bad)
	v.Assert(err == nil, "unanswered")
	if right {
		v.Assert(r == model.ResultSuccess && status(ph) == model.DeviceStatusOnline, "issued-code-refused")
		v.Reach("right")
		return
	}
	v.Assert(r == model.ResultFail, "other-code-accepted")
	st := lib.Of(ph)
	v.Assert(!st.Has && st.Listed == 0 && st.Jobs == 0, "registration-left")
	v.Assert(!storage.GetDeviceCache().HasPlate(lib.PlateA), "plate-left")
	v.Reach("wrong")
}

// HWrongLength: codes longer or shorter than the issued one.
// bound: every proper prefix, and the code with 1..2 (thorough 3) more symbolic bytes in front or behind, both versions, device offline, online or sleeping before
func HWrongLength() {
	v19 := v.Pick("v19", 2) == 1
	ph := phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	code := lib.Ready(s, v19, ph, lib.PlateA, v.Pick("state", 3))
	var bad string
	switch v.Pick("how", 3) {
	case 0:
		bad = code[:v.Pick("cut", len(code))]
	case 1:
		bad = code + string(v.Bytes("more", 1+v.Pick("n", v.Bound(2, 3))))
	case 2:
		bad = string(v.Bytes("more", 1+v.Pick("n", v.Bound(2, 3)))) + code
	}
	r, err := lib.Auth(s, v19, ph, bad)
	v.Assert(err == nil && r == model.ResultFail, "other-code-accepted")
	v.Assert(!lib.Of(ph).Has, "registration-left")
	v.Reach("wrong")
}

// HOnlyAuth: nothing but a successful authentication puts a device online.
// bound: every sequence of 3 (thorough 4) of heartbeat, location (ACC on/off), time query, second registration, keepalive check, authentication of another device; 2013 and 2019
func HOnlyAuth() {
	v19 := v.Pick("v19", 2) == 1
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	v.Assert(first(lib.Register(s, v19, a, lib.PlateA)) == 0, "setup")
	v.Assert(status(a) == model.DeviceStatusOffline, "online-after-register")
	_, codeB := lib.Register(s2, v19, b, lib.PlateB)
	for i := 0; i < v.Bound(3, 4); i++ {
		switch v.Pick("op", 7) {
		case 0:
			lib.Beat(s, v19, a)
		case 1:
			lib.Loc(s, v19, a, 1, 5)
		case 2:
			lib.Loc(s, v19, a, 0, 5)
		case 3:
			lib.Do(s, lib.Msg(0x0004, v19, a, 9, nil))
		case 4:
			lib.Register(s, v19, a, lib.PlateA)
		case 5:
			lib.RunJob(a)
		case 6:
			lib.Auth(s2, v19, b, codeB)
		}
		v.Assert(status(a) != model.DeviceStatusOnline, "online-without-auth")
	}
	v.Reach("done")
}

func first(r model.ResultCodeType, _ string) model.ResultCodeType { return r }

// HRefused: a refused registration does not tell the code.
// bound: refusal by plate, phone or both, both versions, device id equal to or different from the registered one
func HRefused() {
	v19 := v.Pick("v19", 2) == 1
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	s, c := lib.NewSession("s1")
	s2, c2 := lib.NewSession("s2")
	_, code := register(s, c, v19, a, "DEV1", lib.PlateA)
	k := v.Pick("share", 3)
	res, other := register(s2, c2, v19, []string{b, a, a}[k], []string{"DEV1", "DEV2"}[v.Pick("dev", 2)], []string{lib.PlateA, lib.PlateB, lib.PlateA}[k])
	v.Assert(res != 0, "not-refused")
	v.Assert(other != code, "code-leaked")
	v.Assert(auth(s, c, v19, a, code, "", "") == 0, "issued-code-refused")
	v.Reach("done")
}

// HSame: devices that differ only in id, plate or phone do not share a code by construction of their texts.
// bound: pairs differing in one symbolic character of the device id, plate or one digit of the phone, 2013; the code of one is refused for the other
func HSame() {
	s, _ := lib.NewSession("s1")
	which := v.Pick("which", 3)
	id2, plate2, ph2 := "DEV1", lib.PlateB, lib.PhoneB
	_, code := lib.Register(s, false, lib.PhoneA, lib.PlateA)
	switch which {
	case 0:
		id2 = "DEV2"
	case 1:
		plate2 = "B2000" + []string{"1", "3", "_"}[v.Pick("c", 3)]
	case 2:
		ph2 = lib.PhoneC
	}
	pd, err := lib.Do(s, lib.Msg(0x0100, false, ph2, 1, lib.RegBody(false, id2, plate2)))
	v.Assert(err == nil, "setup")
	code2 := pd.Outgoing.(*model.Msg8100).AuthCode
	v.Assert(code2 != code, "same-code")
	r, err := lib.Auth(s, false, ph2, code)
	v.Assert(err == nil && r == model.ResultFail, "other-device-code-accepted")
	v.Reach("done")
}

// HAgain: every accepted authentication reports the identity anew.
// bound: both versions; two authentications with the issued code, IMEI and software version each empty, one value or another (one symbolic character); asleep, offline or online in between
func HAgain() {
	v19 := v.Pick("v19", 2) == 1
	ph := phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	_, code := register(s, c, v19, ph, "DEV1", lib.PlateA)
	imeis := []string{"", "860000000000001", "86000000000000" + v.Ascii("imei", 1, '0', 'Z')}
	sws := []string{"", "v1.0", "v2" + v.Ascii("sw", 1, '.', 'z')}
	for i := 0; i < 2; i++ {
		imei, sw := "", ""
		if v19 {
			imei, sw = imeis[v.Pick("i", 3)], sws[v.Pick("s", 3)]
		}
		v.Advance(5)
		v.Assert(auth(s, c, v19, ph, code, imei, sw) == 0, "issued-code-refused")
		d, err := storage.GetDeviceCache().GetDeviceByPhone(ph)
		v.Assert(err == nil, "device-gone")
		v.Assert(d.Status == model.DeviceStatusOnline, "not-online")
		v.Assert(v.And(v.EqStr(d.AuthCode, code), v.EqStr(d.IMEI, imei), v.EqStr(d.SoftwareVersion, sw)), "identity-recorded")
		v.Assert(d.LastestComTime.Unix() == v.Clock(), "contact-time")
		switch v.Pick("between", 3) {
		case 1:
			v.Assert(lib.Loc(s, v19, ph, 0, 5) == nil, "sleep")
		case 2:
			v.Advance(100)
			v.Assert(lib.RunJob(ph), "check")
		}
	}
	v.Reach("done")
}

// HAnew: a registration made anew has its own code; the one of an earlier registration counts no more unless it is the same.
// bound: both versions; the first registration ends by unregistering or a wrong code, before or after an authentication; the second differs in device id, plate, both or nothing; the old code and the new one are presented
func HAnew() {
	v19 := v.Pick("v19", 2) == 1
	ph := phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	res, old := register(s, c, v19, ph, "DEV1", lib.PlateA)
	v.Assert(res == 0, "register")
	if v.Pick("auth", 2) == 1 {
		v.Assert(auth(s, c, v19, ph, old, "", "") == 0, "issued-code-refused")
	}
	if v.Pick("end", 2) == 0 {
		_, err := lib.Push(s, c, lib.Msg(0x0003, v19, ph, 3, nil))
		v.Assert(err == nil, "unregister")
	} else {
		v.Assert(auth(s, c, v19, ph, "wrong", "", "") != 0, "other-code-accepted")
	}
	v.Assert(!lib.Of(ph).Has, "registration-left")
	k := v.Pick("differs", 4)
	dev, plate := "DEV1", lib.PlateA
	if k&1 != 0 {
		dev = "DEV2"
	}
	if k&2 != 0 {
		plate = lib.PlateB
	}
	res, code := register(s, c, v19, ph, dev, plate)
	v.Assert(res == 0, "register")
	if v.Pick("present", 2) == 0 {
		v.Assert(auth(s, c, v19, ph, code, "", "") == 0, "issued-code-refused")
		v.Reach("new")
		return
	}
	r := auth(s, c, v19, ph, old, "", "")
	v.Assert((r == 0) == (old == code), "other-code-accepted")
	v.Assert(lib.Of(ph).Has == (old == code), "registration-left")
	v.Reach("old")
}
