package main

import (
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HExtra": HExtra, "HCrowd": HCrowd, "HConcurrent": HConcurrent, "HFields": HFields, "HHistory": HHistory, "HStays": HStays, "HTwo": HTwo, "HState": HState, "HTime": HTime, "HOrder": HOrder, "HAccept": HAccept, "HNone": HNone, "HAgain": HAgain, "HDecode": HDecode})
}

func near(got, want float64) bool {
	if got == want {
		return true
	}
	return got-want < 1e-7 && want-got < 1e-7
}

func bit(st uint32, n uint) uint8 { return uint8(st>>n) & 1 }

func meta(st uint32) model.GeoMeta {
	return model.GeoMeta{
		ACCStatus: bit(st, 0), LocationStatus: bit(st, 1), LatitudeType: bit(st, 2), LongitudeType: bit(st, 3), OperatingStatus: bit(st, 4), GeoEncryptionStatus: bit(st, 5),
		LoadStatus: uint8(st>>8) & 3, FuelSystemStatus: bit(st, 10), AlternatorSystemStatus: bit(st, 11), DoorLockedStatus: bit(st, 12), FrontDoorStatus: bit(st, 13),
		MidDoorStatus: bit(st, 14), BackDoorStatus: bit(st, 15), DriverDoorStatus: bit(st, 16), CustomDoorStatus: bit(st, 17), GPSLocationStatus: bit(st, 18),
		BeidouLocationStatus: bit(st, 19), GLONASSLocationStatus: bit(st, 20), GalileoLocationStatus: bit(st, 21), DrivingStatus: bit(st, 22),
	}
}

type report struct {
	status, lat, lon uint32
	alt, speed, dir  uint16
	time             string
}

func (r report) body() []byte {
	return lib.LocBody(0, r.status, r.lat, r.lon, r.alt, r.speed, r.dir, r.time)
}

func send(s *model.Session, v19 bool, ph string, serial uint16, r report) {
	pd, err := lib.Do(s, lib.Msg(0x0200, v19, ph, serial, r.body()))
	v.Assert(err == nil, "report-refused")
	m, ok := pd.Outgoing.(*model.Msg8001)
	v.Assert(ok && m.Result == model.ResultSuccess, "report-not-acknowledged")
}

func served(ph string, r report) {
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(ph)
	v.Assert(err == nil, "no-latest")
	v.Assert(g.Phone == ph, "phone")
	v.Assert(near(g.Location.Latitude, float64(r.lat)/1e6), "latitude")
	v.Assert(near(g.Location.Longitude, float64(r.lon)/1e6), "longitude")
	v.Assert(g.Location.Altitude == r.alt, "altitude")
	v.Assert(near(g.Drive.Speed, float64(r.speed)/10), "speed")
	v.Assert(g.Drive.Direction == r.dir, "direction")
	v.Assert(*g.Geo == meta(r.status), "status-flags")
	v.Assert(g.Time.Format("060102150405") == r.time, "time")
}

// HFields: every value of the numeric fields.
// bound: all 2^32 latitudes, longitudes and status words, all 2^16 altitudes, speeds and directions; both versions; 0 or 1 earlier report
func HFields() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	if v.Pick("earlier", 2) == 1 {
		send(s, v19, a, 7, report{1, 2, 3, 4, 5, 6, "210203040506"})
	}
	r := report{v.U32("status"), v.U32("lat"), v.U32("lon"), v.U16("alt"), v.U16("speed"), v.U16("dir"), "230102030405"}
	send(s, v19, a, 8, r)
	served(a, r)
	v.Reach("served")
}

// HDecode: the conversion alone, one field symbolic in its low byte around interesting values (cheap for the solver also when it is wrong).
// bound: latitude and longitude k*2^8+[0..255] for 8 values of k, speed likewise for 4
func HDecode() {
	ks := []uint32{0, 1, 0x0fff, 0x1000, 0xffff, 0x0055d4, 0x2aea54, 0xffffff}
	k := v.Pick("k", 8)
	m := &model.Msg0200{StatusSign: 1, Time: "230102030405"}
	f := v.Pick("field", 3)
	x := ks[k]<<8 | uint32(v.U8("low"))
	switch f {
	case 0:
		m.Latitude = x
	case 1:
		m.Longitude = x
	case 2:
		m.Speed = uint16(x)
	}
	g := &model.DeviceGeo{}
	v.Assert(g.Decode(lib.PhoneA, m) == nil, "decode-error")
	v.Assert(near(g.Location.Latitude, float64(m.Latitude)/1e6), "latitude")
	v.Assert(near(g.Location.Longitude, float64(m.Longitude)/1e6), "longitude")
	v.Assert(near(g.Drive.Speed, float64(m.Speed)/10), "speed")
	v.Reach("decoded")
}

// HHistory: the ring of earlier reports in any interesting fill state.
// bound: 0..3, 98..102 and 198..201 earlier reports (quick), every count 0..201 (thorough); the last report has a symbolic low byte of latitude, the ones before it are concrete
func HHistory() {
	ns := []int{0, 1, 2, 3, 98, 99, 100, 101, 102, 198, 199, 200, 201}
	n := 0
	if v.Thorough() {
		n = v.Pick("n", 202)
	} else {
		n = ns[v.Pick("n", len(ns))]
	}
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	for i := 0; i < n; i++ {
		r := report{1, uint32(1000 + i), 3, 4, 5, 6, "210203040506"}
		send(s, false, a, uint16(i), r)
		if i == n-1 {
			served(a, r)
		}
	}
	r := report{1, 0x1400 | uint32(v.U8("low")), 3, 4, 5, uint16(v.U8("dir")), "230102030405"}
	send(s, false, a, 999, r)
	served(a, r)
	served(a, r)
	v.Reach("served")
}

// HStays: nothing but the next report changes what is served.
// bound: 2 of heartbeat, authentication, refused registration, the other device's report, keepalive check, parameter reply, repeated reading; symbolic latitude and longitude bytes
func HStays() {
	a, b := lib.PhoneA, lib.PhoneB
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	code := lib.Ready(s, false, a, lib.PlateA, 1)
	lib.Ready(s2, false, b, lib.PlateB, 1)
	r := report{uint32(v.U8("st")), uint32(v.U16("lat")), uint32(v.U16("lon")), 4, 5, 6, "230102030405"}
	send(s, false, a, 8, r)
	for i := 0; i < 2; i++ {
		switch v.Pick("op", 7) {
		case 0:
			v.Assert(lib.Beat(s, false, a) == nil, "beat")
		case 1:
			_, err := lib.Auth(s, false, a, code)
			v.Assert(err == nil, "auth")
		case 2:
			lib.Register(s, false, a, lib.PlateC)
		case 3:
			send(s2, false, b, 9, report{0, 77, 78, 7, 8, 9, "220102030405"})
		case 4:
			v.Advance(int64(v.Pick("t", 2) * 100))
			lib.RunJob(a)
			if !lib.Of(a).Has {
				return
			}
		case 5:
			lib.Do(s, lib.Msg(0x0001, false, a, 10, []byte{0, 1, 0x81, 0x04, 0}))
		case 6:
			lib.Do(s, lib.Msg(0x0004, false, a, 10, nil))
		}
		served(a, r)
	}
	v.Reach("stays")
}

// HTwo: reports of two devices interleave.
// bound: every order of 4 reports of 2 devices, symbolic low latitude bytes
func HTwo() {
	ph := []string{lib.PhoneA, lib.PhoneB}
	pl := []string{lib.PlateA, lib.PlateB}
	var ss []*model.Session
	for i := range ph {
		s, _ := lib.NewSession("s" + pl[i])
		ss = append(ss, s)
		lib.Ready(s, false, ph[i], pl[i], 1)
	}
	last := make([]*report, 2)
	for i := 0; i < 4; i++ {
		d := v.Pick("dev", 2)
		r := report{1, uint32(v.U8("lat")), uint32(i), 4, 5, 6, "230102030405"}
		send(ss[d], false, ph[d], uint16(i), r)
		last[d] = &r
		for k := range ph {
			if last[k] != nil {
				served(ph[k], *last[k])
			} else {
				_, err := storage.GetGeoCache().GetGeoLatestByPhone(ph[k])
				v.Assert(err != nil, "location-of-nobody")
			}
		}
	}
	v.Reach("served")
}

// HState: status and contact time after a report.
// bound: any status word, offline, online or sleeping before, 0..70000 s since the last contact; both versions
func HState() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, v.Pick("state", 3))
	before := lib.Of(a)
	t := v.Int("silent", 0, 70000)
	v.Advance(int64(t))
	st := v.U32("status")
	off := v.Split(st&1 == 0)
	send(s, v19, a, 8, report{st, 2, 3, 4, 5, 6, "230102030405"})
	after := lib.Of(a)
	v.Assert(after.Last == before.Last+int64(t)*1000, "contact-time")
	if off {
		v.Assert(after.Status == model.DeviceStatusSleeping, "not-sleeping")
		v.Reach("off")
	} else {
		if before.Status == model.DeviceStatusOnline {
			v.Assert(after.Status == model.DeviceStatusOnline, "not-online")
		}
		v.Reach("on")
	}
	v.Assert(after.ID == before.ID && after.Plate == before.Plate && after.SessionID == before.SessionID && after.AuthCode == before.AuthCode && after.IMEI == before.IMEI && after.Keepalive == before.Keepalive && after.Jobs == 1, "identity-changed")
}

// HTime: the reported time is served as sent.
// bound: 10 times incl. both ends of the year, month lengths, leap day and the end of the day
func HTime() {
	ts := []string{"000101000000", "230102030405", "231231235959", "240229120000", "240301000000", "991231235959", "680228235959", "201031010203", "210430100000", "220902093000"}
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	x := ts[v.Pick("t", len(ts))]
	r := report{1, 2, 3, 4, 5, 6, x}
	send(s, false, a, 8, r)
	served(a, r)
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(a)
	v.Assert(err == nil, "no-latest")
	want, _ := time.ParseInLocation("060102150405", x, g.Time.Location())
	v.Assert(g.Time.Equal(want), "time")
	v.Reach("time")
}

// HOrder: the last report counts, whatever times the reports carry and however they compare.
// bound: 2 reports (thorough 3) with any minute and second of one hour, or years apart either way; same or different position
func HOrder() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	days := []string{"23010203", "21010203", "24063000"}
	for i := 0; i < v.Bound(2, 3); i++ {
		x := days[v.Pick("day", 3)] + string([]byte{v.R8("m", '0', '5'), v.R8("m", '0', '9'), '3', v.R8("s", '0', '9')})
		body := lib.Cat(lib.BE32(0), lib.BE32(1), lib.BE32(2+uint32(i)*uint32(v.Pick("moved", 2))), lib.BE32(3), lib.BE16(4), lib.BE16(5), lib.BE16(6), lib.BCD(x))
		pd, err := lib.Do(s, lib.Msg(0x0200, false, a, uint16(i), body))
		v.Assert(err == nil, "report-refused")
		m, ok := pd.Outgoing.(*model.Msg8001)
		v.Assert(ok && m.Result == model.ResultSuccess, "report-not-acknowledged")
		g, err := storage.GetGeoCache().GetGeoLatestByPhone(a)
		v.Assert(err == nil, "no-latest")
		mi, sec := int(x[8]-'0')*10+int(x[9]-'0'), 30+int(x[11]-'0')
		y, mo, d, h := 2023, 1, 2, 3
		switch x[:8] {
		case days[1]:
			y = 2021
		case days[2]:
			y, mo, d, h = 2024, 6, 30, 0
		}
		v.Assert(g.Time.Equal(time.Date(y, time.Month(mo), d, h, mi, sec, 0, g.Time.Location())), "time")
		v.Assert(near(g.Location.Latitude, float64(uint32(body[8])<<24|uint32(body[9])<<16|uint32(body[10])<<8|uint32(body[11]))/1e6), "latitude")
	}
	v.Reach("served")
}

// HAccept: a report with any content is accepted and the device state follows; through the read pipeline.
// bound: 4 symbolic bytes (status low, latitude low, speed low, direction low); both versions
func HAccept() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	r := report{uint32(v.U8("st")), 39000064&^0xff | uint32(v.U8("lat")), 116000000, 50, uint16(v.U8("speed")), uint16(v.U8("dir")), "230102030405"}
	out, err := lib.Push(s, c, lib.Msg(0x0200, v19, a, 0x0102, r.body()))
	v.Assert(err == nil && len(out) == 1, "not-answered")
	rep := lib.Parse(out[0])
	v.Assert(rep.ID == 0x8001 && v.EqBytes(rep.Body, []byte{1, 2, 2, 0, 0}), "acknowledgement")
	served(a, r)
	v.Reach("served")
}

// HNone: no report, no location; a refused report leaves none.
// bound: registered without a report, unknown phone, unknown phone that tried to report
func HNone() {
	a, b := lib.PhoneA, lib.PhoneB
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, v.Pick("state", 2))
	ph := a
	if k := v.Pick("who", 3); k > 0 {
		ph = b
		if k == 2 {
			v.Assert(lib.Loc(s, false, b, 1, 5) != nil, "unknown-accepted")
		}
	}
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(ph)
	v.Assert(err != nil && g == nil, "location-invented")
	v.Reach("none")
}

// HAgain: a second report counts also when it repeats any part of the first, or all of it.
// bound: latitude, longitude, altitude, speed, direction and status of the second report (thorough 2 further ones) any byte value, of the first fixed within that range; same or later time
func HAgain() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	r := report{3, 20, 30, 40, 50, 60, "230102030405"}
	send(s, false, a, 7, r)
	before := lib.Of(a)
	for i := 0; i < v.Bound(1, 2); i++ {
		r = report{uint32(v.U8("st")), uint32(v.U8("lat")), uint32(v.U8("lon")), uint16(v.U8("alt")), uint16(v.U8("speed")), uint16(v.U8("dir")), []string{"230102030405", "230102030406"}[v.Pick("t", 2)]}
		v.Advance(7)
		send(s, false, a, 8, r)
		served(a, r)
	}
	v.Assert(lib.Of(a).Last > before.Last, "contact-time")
	v.Reach("served")
}

// HConcurrent: whoever asks while a report is being handled gets the report before it or that report.
// bound: 0, 1, 2, 99 or 100 reports before, one report and one or two readings at the same time, every interleaving of memory accesses with at most 2 (thorough 3) preemptions
func HConcurrent() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	n := []int{0, 1, 2, 99, 100}[v.Pick("before", 5)]
	for i := 0; i < n; i++ {
		send(s, false, a, uint16(i), report{1, uint32(1000 + i), 3, 4, 5, 6, "210203040506"})
	}
	r := report{1, 0x1400, 3, 4, 5, 7, "230102030405"}
	var got []float64
	var errs []error
	v.Concurrent(v.Bound(2, 3), true, func() {
		send(s, false, a, 999, r)
	}, func() {
		for k := 0; k < 2; k++ {
			g, err := storage.GetGeoCache().GetGeoLatestByPhone(a)
			errs = append(errs, err)
			if err == nil {
				got = append(got, g.Location.Latitude)
			} else {
				got = append(got, 0)
			}
		}
	})
	saw := false
	for k := range got {
		if errs[k] != nil {
			v.Assert(n == 0 && !saw, "location-missing")
			continue
		}
		isNew := near(got[k], 0x1400/1e6)
		v.Assert(isNew || !saw && n > 0 && near(got[k], float64(1000+n-1)/1e6), "neither-old-nor-new")
		saw = saw || isNew
	}
	served(a, r)
	v.Reach("both")
}

// HCrowd: the location of every device is kept, however many there are.
// bound: 1100 devices, 1..2 reports each
func HCrowd() {
	n := 1100
	s, _ := lib.NewSession("s1")
	of := func(i int) report { return report{1, uint32(1000 + i), uint32(i), 4, 5, 6, "210203040506"} }
	for i := 0; i < n; i++ {
		lib.Ready(s, false, "01390000"+lib.Num(i), "P"+lib.Num(i), 1)
		if i%3 == 0 {
			send(s, false, "01390000"+lib.Num(i), 1, of(i+1))
		}
		send(s, false, "01390000"+lib.Num(i), 2, of(i))
	}
	for i := 0; i < n; i++ {
		served("01390000"+lib.Num(i), of(i))
	}
	v.Reach("all")
}

// HExtra: additional information after the basic report does not change what is served.
// bound: 1..2 additional items with ids 0x01..0x06, 0x11..0x14, 0x25, 0x2a, 0x2b, 0x30, 0x31, 0xe0 of 1, 2, 4 or 6 bytes, first value byte symbolic; or 1..3 stray bytes; both versions
func HExtra() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	r := report{3, 39000000, 116000000, 50, 600, 90, "230102030405"}
	body := r.body()
	item := func() {
		ids := []byte{1, 2, 3, 4, 5, 6, 0x11, 0x12, 0x13, 0x14, 0x25, 0x2a, 0x2b, 0x30, 0x31, 0xe0}
		id := ids[v.Pick("id", len(ids))]
		n := []int{1, 2, 4, 6}[v.Pick("len", 4)]
		val := make([]byte, n)
		val[0] = v.U8("val")
		body = lib.Cat(body, []byte{id, byte(n)}, val)
	}
	switch v.Pick("what", 3) {
	case 0:
		item()
	case 1:
		body = lib.Cat(body, []byte{1, 4, 0, 0, 0, 9})
		item()
	case 2:
		body = lib.Cat(body, make([]byte, 1+v.Pick("stray", 3)))
	}
	_, err := lib.Do(s, lib.Msg(0x0200, v19, a, 8, body))
	v.Assert(err == nil, "report-refused")
	served(a, r)
	v.Reach("served")
}
