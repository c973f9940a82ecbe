package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HHistory": HHistory, "HStatusWord": HStatusWord, "HFields": HFields, "HAgain": HAgain})
}

const (
	off   = model.DeviceStatusOffline
	on    = model.DeviceStatusOnline
	sleep = model.DeviceStatusSleeping
)

// step does operation k of device A (status want before) and returns the statuses allowed after it; gone: removed.
func step(k int, s *model.Session, v19 bool, a, b, code string, want model.DeviceStatus, silent *int64) (allowed []model.DeviceStatus, gone bool) {
	msg := func(id uint16, body []byte) { lib.Do(s, lib.Msg(id, v19, a, 0x0700, body)) }
	switch k {
	case 0:
		msg(0x0002, nil)
		*silent = 0
		return []model.DeviceStatus{want}, false
	case 1:
		r, err := lib.Auth(s, v19, a, code)
		v.Assert(err == nil && r == 0, "auth-refused")
		*silent = 0
		return []model.DeviceStatus{on}, false
	case 2:
		v.Assert(lib.Loc(s, v19, a, 1, 5) == nil, "report")
		*silent = 0
		if want == sleep {
			return []model.DeviceStatus{sleep, on}, false
		}
		return []model.DeviceStatus{want}, false
	case 3:
		v.Assert(lib.Loc(s, v19, a, 2, 5) == nil, "report")
		*silent = 0
		if want == off { // not authenticated, or expired
			return []model.DeviceStatus{off, sleep}, false
		}
		return []model.DeviceStatus{sleep}, false
	case 4:
		msg(0x0004, nil)
		return []model.DeviceStatus{want}, false
	case 5:
		msg(0x0001, []byte{0, 1, 0x81, 0x03, 0})
		return []model.DeviceStatus{want}, false
	case 6:
		msg(0x0100, lib.RegBody(v19, "DEV9", lib.PlateA))
		return []model.DeviceStatus{want}, false
	case 7:
		v.Assert(lib.Loc(s, v19, b, 0, 5) == nil, "report-b")
		return []model.DeviceStatus{want}, false
	case 8:
		msg(0x0104, []byte{0, 1, 1, 0, 0, 0, 1, 4, 0, 0, 0, 1})
		return []model.DeviceStatus{want}, false
	}
	d := int64(v.Int("pause", 0, 100))
	v.Advance(d)
	*silent += d
	v.Assert(lib.RunJob(a), "no-check")
	if v.Split(*silent > 60) {
		return []model.DeviceStatus{off}, want == off
	}
	return []model.DeviceStatus{want}, false
}

// HHistory: the status after any history.
// bound: registration, then every sequence of 3 (thorough 4) of heartbeat, authentication, report ACC on, report ACC off, time query, terminal reply, refused second registration, another device's report, parameter reply, keepalive check after any pause of 0..100 s; both versions (quick 2013)
func HHistory() {
	v19 := v.Pick("v19", v.Bound(1, 2)) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, b, lib.PlateB, 1)
	code := lib.Ready(s, v19, a, lib.PlateA, 0)
	want := off
	v.Assert(lib.Of(a).Status == off, "not-offline-after-registration")
	var silent int64
	for i := 0; i < v.Bound(3, 4); i++ {
		allowed, gone := step(v.Pick("op", 10), s, v19, a, b, code, want, &silent)
		st := lib.Of(a)
		if gone {
			v.Assert(!st.Has, "not-removed")
			v.Reach("removed")
			return
		}
		v.Assert(st.Has, "lost")
		ok := false
		for _, x := range allowed {
			ok = ok || st.Status == x
		}
		v.Assert(ok, "status")
		want = st.Status
	}
	v.Reach("end")
}

// HStatusWord: only the ACC bit of a report matters for the status.
// bound: every value of each byte of the status word and of the alarm word in turn, with a symbolic low speed, latitude or direction byte (others 0) or ordinary values, online or sleeping device; both versions
func HStatusWord() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1+v.Pick("state", 2))
	before := lib.Of(a).Status
	x := uint32(v.U8("x")) << (8 * v.Pick("byte", 4))
	alarm, word := uint32(0), x
	if v.Pick("alarm", 2) == 1 {
		alarm, word = x, uint32(v.R8("acc", 0, 1))
	}
	lat, lon, alt, speed, dir := uint32(39000000), uint32(116000000), uint16(50), uint16(600), uint16(90)
	switch v.Pick("free", 4) {
	case 1:
		speed = uint16(v.U8("speed"))
	case 2:
		lat, lon = uint32(v.U8("lat")), 0
	case 3:
		alt, dir = 0, uint16(v.U8("dir"))
	}
	_, err := lib.Do(s, lib.Msg(0x0200, v19, a, 5, lib.LocBody(alarm, word, lat, lon, alt, speed, dir, "230102030405")))
	v.Assert(err == nil, "refused")
	st := lib.Of(a).Status
	if v.Split(word&1 == 0) {
		v.Assert(st == sleep, "not-sleeping")
		v.Reach("acc-off")
	} else {
		v.Assert(st == before || before == sleep && st == on, "acc-on-changed-status")
		v.Reach("acc-on")
	}
}

// HFields: what is served about a device are its own words.
// bound: registration with 5 device ids and 5 plates (case, blanks, Chinese), every protocol version byte (2019); authentication with IMEI and software version of symbolic characters or empty (2019), the first or after another; later messages, a refused registration on the same or another connection leave them alone
func HFields() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	id := []string{"D", "dev 1", "DEVICE7", "0", "-_/"}[v.Pick("id", 5)]
	pk := v.Pick("plate", 5)
	plate := []string{"A1", "a1 b2", "京A12345", "测A·D1234挂", "0"}[pk]
	gbk := []string{"A1", "a1 b2", "\xbe\xa9A12345", "\xb2\xe2A\xa1\xa4D1234\xb9\xd2", "0"}[pk]
	raw := lib.Msg(0x0100, v19, a, 1, lib.RegBody(v19, id, gbk))
	var pv uint8
	if v19 {
		pv = v.U8("pv")
		raw[4] = pv
	}
	pd, err := lib.Do(s, raw)
	v.Assert(err == nil, "register")
	code := pd.Outgoing.(*model.Msg8100).AuthCode
	x := v.Digits("imei", 1)
	imei, sw := []string{"86000000000000" + x, x + "60000000000001", ""}[v.Pick("imei at", 3)], []string{"v" + v.Digits("sw", 2), ""}[v.Pick("sw", 2)]
	authed := v.Pick("auth", 2) == 1
	if authed {
		if v.Pick("before", 2) == 1 { // an earlier authentication told something else
			_, err = lib.Do(s, lib.Msg(0x0102, v19, a, 2, lib.AuthBody(v19, code, "990000000000009", "old")))
			v.Assert(err == nil, "auth")
		}
		_, err = lib.Do(s, lib.Msg(0x0102, v19, a, 2, lib.AuthBody(v19, code, imei, sw)))
		v.Assert(err == nil, "auth")
	}
	switch v.Pick("then", 6) {
	case 1:
		v.Assert(lib.Beat(s, v19, a) == nil, "beat")
	case 2:
		v.Assert(lib.Loc(s, v19, a, 1, 5) == nil, "report")
	case 3:
		lib.Do(s, lib.Msg(0x0100, v19, a, 3, lib.RegBody(v19, "OTHER", "OTHER")))
	case 4: // refused, from another connection
		s2, _ := lib.NewSession("s2")
		lib.Do(s2, lib.Msg(0x0100, v19, a, 3, lib.RegBody(v19, id, []string{gbk, "OTHER"}[v.Pick("other plate", 2)])))
	case 5:
		s2, _ := lib.NewSession("s2")
		v.Assert(lib.Beat(s2, v19, a) == nil, "beat")
	}
	st := lib.Of(a)
	v.Assert(st.Has && st.Listed == 1 && st.ByPlate, "not-found")
	v.Assert(v.And(v.EqStr(st.ID, id), v.EqStr(st.Plate, plate)), "identity")
	v.Assert(st.Phone == a && st.SessionID == "s1" && st.Conn == c, "connection")
	v.Assert((st.Ver == model.Version2019) == v19, "version")
	if v19 {
		v.Assert(st.PV == pv, "protocol-version")
	}
	if authed {
		v.Assert(v.EqStr(st.AuthCode, code), "auth-code")
		if v19 {
			v.Assert(v.And(v.EqStr(st.IMEI, imei), v.EqStr(st.SW, sw)), "auth-fields")
		}
	}
	v.Reach("end")
}

// HAgain: after removal and a new registration nothing of the earlier status, identity or location is left.
// bound: device online, sleeping or expired before, removed by deregistration, wrong code or keepalive; registered again with another plate; both versions
func HAgain() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1+v.Pick("state", 2))
	switch v.Pick("how", 3) {
	case 0:
		v.Assert(lib.Dereg(s, v19, a) == nil, "dereg")
	case 1:
		lib.Auth(s, v19, a, "wrong")
	case 2:
		v.Advance(61)
		v.Assert(lib.RunJob(a) && lib.RunJob(a), "checks")
	}
	v.Assert(!lib.Of(a).Has, "not-removed")
	v.Advance(int64(v.Int("later", 0, 1000)))
	s2, c2 := lib.NewSession("s2")
	lib.Ready(s2, v19, a, lib.PlateC, 0)
	st := lib.Of(a)
	v.Assert(st.Status == off && st.AuthCode == "" && st.IMEI == "" && st.SW == "", "earlier-status-left")
	v.Assert(!st.HasGeo, "earlier-location-left")
	v.Assert(st.SessionID == "s2" && st.Conn == c2 && st.Plate == lib.PlateC && st.Last == v.Clock()*1000, "earlier-fields-left")
	v.Reach("end")
}
