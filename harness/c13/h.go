package main

import (
	"errors"
	"net"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HDue": HDue, "HExpiry": HExpiry, "HMillis": HMillis, "HContact": HContact, "HRemoved": HRemoved, "HRacing": HRacing, "HCycle": HCycle, "HBack": HBack, "HNewer": HNewer})
}

func dev(ph string) *model.Device {
	d, err := storage.GetDeviceCache().GetDeviceByPhone(ph)
	v.Assert(err == nil, "device-missing")
	return d
}

// HExpiry: one check at any time after the last contact.
// bound: device offline, online or sleeping, with or without location history; any keepalive time of 1..255 s, any silence of 0..510 s; closing succeeds or fails; both versions
func HExpiry() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	s2, c2 := lib.NewSession("s2")
	c.CloseErr = []error{nil, net.ErrClosed, errors.New("close")}[v.Pick("close", 3)]
	b := lib.Phone(v19, lib.PhoneB)
	lib.Ready(s2, v19, b, lib.PlateB, 1)
	st := v.Pick("state", 3)
	lib.Ready(s, v19, a, lib.PlateA, st)
	if st < 2 && v.Pick("geo", 2) == 1 {
		v.Assert(lib.Loc(s, v19, a, 1, 5) == nil, "setup-loc")
	}
	ka := v.Int("keepalive", 1, 255)
	dev(a).Keepalive = time.Duration(ka) * time.Second
	silent := v.Int("silent", 0, 510)
	before, other := lib.Of(a), lib.Of(b)
	v.Advance(int64(silent))
	late := v.Split(silent > ka)
	v.Assert(lib.RunJob(a), "no-check")
	after := lib.Of(a)
	switch {
	case !late:
		v.Assert(after == before, "changed-too-early")
		v.Assert(c.Closed == 0, "closed-too-early")
		v.Reach("fresh")
	case before.Status != model.DeviceStatusOffline:
		v.Assert(after.Status == model.DeviceStatusOffline, "not-offline")
		before.Status = after.Status
		v.Assert(after == before, "more-changed")
		v.Assert(c.Closed == 0, "closed-too-early")
		v.Reach("offline")
	default:
		v.Assert(lib.Gone(a, lib.PlateA), "not-removed")
		v.Assert(!after.HasGeo, "location-left")
		v.Assert(c.Closed > 0, "not-closed")
		v.Reach("removed")
	}
	v.Assert(lib.Of(b) == other && c2.Closed == 0, "other-changed")
}

// HMillis: the period is exact, not rounded to whole seconds.
// bound: offline, online or sleeping device, last contact 0, 1, 500 or 999 ms past a second, silence of 59..61 s plus any 0..999 ms, keepalive 60 s
func HMillis() {
	a := lib.PhoneA
	s, c := lib.NewSession("s1")
	v.AdvanceMs([]int64{0, 1, 500, 999}[v.Pick("at", 4)])
	st := v.Pick("state", 3)
	lib.Ready(s, false, a, lib.PlateA, st)
	dev(a).Keepalive = time.Minute
	sec, ms := v.Pick("sec", 3), v.Int("ms", 0, 999)
	v.Advance(int64(59 + sec))
	v.AdvanceMs(int64(ms))
	late := v.Split(sec*1000+ms > 1000)
	v.Assert(lib.RunJob(a), "no-check")
	switch {
	case !late:
		v.Assert((dev(a).Status == model.DeviceStatusOffline) == (st == 0), "changed-too-early")
		v.Assert(c.Closed == 0, "closed-too-early")
		v.Reach("fresh")
	case st > 0:
		v.Assert(dev(a).Status == model.DeviceStatusOffline, "not-offline")
		v.Reach("offline")
	default:
		v.Assert(lib.Gone(a, lib.PlateA), "not-removed")
		v.Reach("removed")
	}
}

// HContact: heartbeat, location report and authentication each restart the period; nothing else does.
// bound: online or sleeping device, first silence 0..59 s, one of heartbeat, location ACC on/off, authentication (restart) or refused registration, registration of another, terminal reply, parameter reply, time query, a check in between (no restart), second silence 0..120 s
func HContact() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	code := lib.Ready(s, false, a, lib.PlateA, 1+v.Pick("state", 2))
	d1 := v.Int("first", 0, 59)
	v.Advance(int64(d1))
	k := v.Pick("what", 10)
	restart := k < 4
	switch k {
	case 0:
		v.Assert(lib.Beat(s, false, a) == nil, "beat")
	case 1:
		v.Assert(lib.Loc(s, false, a, 1, 5) == nil, "loc")
	case 2:
		v.Assert(lib.Loc(s, false, a, 0, 5) == nil, "loc")
	case 3:
		r, err := lib.Auth(s, false, a, code)
		v.Assert(err == nil && r == 0, "auth")
	case 4:
		lib.Register(s2, false, a, lib.PlateA)
	case 5:
		lib.Register(s2, false, lib.PhoneB, lib.PlateB)
	case 6:
		lib.Do(s, lib.Msg(0x0001, false, a, 9, []byte{0, 1, 0x81, 0x03, 0}))
	case 7:
		lib.Do(s, lib.Msg(0x0104, false, a, 9, []byte{0, 1, 1, 0, 0, 0, 1, 4, 0, 0, 0, 1}))
	case 8:
		lib.Do(s, lib.Msg(0x0004, false, a, 9, nil))
	case 9:
		v.Assert(lib.RunJob(a), "no-check")
	}
	d2 := v.Int("second", 0, 120)
	v.Advance(int64(d2))
	silent := d2
	if !restart {
		silent = d1 + d2
	}
	late := v.Split(silent > 60)
	v.Assert(lib.RunJob(a), "no-check")
	if late {
		v.Assert(dev(a).Status == model.DeviceStatusOffline, "not-offline")
		v.Reach("late")
	} else {
		v.Assert(dev(a).Status != model.DeviceStatusOffline, "offline-too-early")
		v.Reach("fresh")
	}
}

// HRemoved: a check whose device is gone does nothing and does not panic.
// bound: device removed by deregistration, failed authentication or an earlier check, re-registered or not, run 1..2 times
func HRemoved() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, v.Pick("state", 3))
	job := lib.JobOf(a)
	switch v.Pick("how", 3) {
	case 0:
		lib.Dereg(s, false, a)
	case 1:
		lib.Auth(s, false, a, "wrong")
	case 2:
		v.Advance(100)
		job()
		job()
	}
	v.Assert(lib.Gone(a, lib.PlateA), "setup-gone")
	n := 1 + v.Pick("n", 2)
	for i := 0; i < n; i++ {
		v.Assert(!v.Catch(job), "panic")
		v.Assert(lib.Gone(a, lib.PlateA), "came-back")
	}
	v.Reach("done")
}

// HCycle: a silent online device goes offline at one check and is removed at a later one; contact in between keeps it registered.
// bound: checks after every 20..100 s (4 checks, symbolic gaps), contact before any of them or none
func HCycle() {
	a := lib.PhoneA
	s, c := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	silent, off, gone := 0, false, false
	for i := 0; i < v.Bound(3, 4); i++ {
		g := v.Int("gap", 20, 100)
		v.Advance(int64(g))
		silent += g
		if v.Pick("contact", 2) == 1 && !gone {
			v.Assert(lib.Beat(s, false, a) == nil, "beat")
			silent = 0
		}
		late := v.Split(silent > 60)
		ran := lib.RunJob(a)
		v.Assert(ran == !gone, "check-scheduled")
		if late && !gone {
			if off {
				gone = true
			} else {
				off = true
			}
		}
		if gone {
			v.Assert(lib.Gone(a, lib.PlateA), "not-removed")
			v.Assert(c.Closed > 0, "not-closed")
		} else {
			v.Assert((dev(a).Status == model.DeviceStatusOffline) == off, "status")
			v.Assert(c.Closed == 0, "closed-too-early")
		}
	}
	v.Reach("done")
}

// HRacing: a check running with messages or another check of the device never panics and keeps the indexes consistent.
// bound: expired or fresh, offline or online device; check against heartbeat, location, authentication, deregistration, failed authentication, the same check, registration of another device; up to 4 (thorough 6) preemptions
func HRacing() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	code := lib.Ready(s, false, a, lib.PlateA, v.Pick("state", 2))
	job := lib.JobOf(a)
	if v.Pick("late", 2) == 1 {
		v.Advance(100)
	}
	k := v.Pick("what", 7)
	panicked := false
	v.Concurrent(v.Bound(4, 6), false, func() {
		if v.Catch(job) {
			panicked = true
		}
	}, func() {
		switch k {
		case 0:
			lib.Beat(s, false, a)
		case 1:
			lib.Loc(s, false, a, 1, 5)
		case 2:
			lib.Auth(s, false, a, code)
		case 3:
			lib.Dereg(s, false, a)
		case 4:
			lib.Auth(s, false, a, "wrong")
		case 5:
			if v.Catch(job) {
				panicked = true
			}
		case 6:
			lib.Register(s2, false, lib.PhoneB, lib.PlateB)
		}
	})
	v.Assert(!panicked, "panic")
	cache := storage.GetDeviceCache()
	v.Assert(cache.HasPhone(a) == cache.HasPlate(lib.PlateA), "indexes-differ")
	if k == 6 {
		v.Assert(cache.HasPhone(lib.PhoneB) && cache.HasPlate(lib.PlateB), "other-lost")
	}
	if !cache.HasPhone(a) {
		r, _ := lib.Register(s2, false, a, lib.PlateA)
		v.Assert(r == 0 && !lib.Of(a).HasGeo, "history-left")
	}
	v.Reach("done")
}

// HBack: a clock set back since the last contact expires nobody, and the period counts from the last contact by the clock.
// bound: offline, online or sleeping device; the clock goes back any 0..3600 s, then forward any 0..3700 s; a check after each
func HBack() {
	a := lib.PhoneA
	s, c := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, v.Pick("state", 3))
	before := lib.Of(a)
	back, fwd := v.Int("back", 0, 3600), v.Int("forward", 0, 3700)
	v.Advance(-int64(back))
	v.Assert(lib.RunJob(a), "no-check")
	v.Assert(lib.Of(a) == before && c.Closed == 0, "changed-too-early")
	v.Advance(int64(fwd))
	late := v.Split(fwd-back > 60)
	v.Assert(lib.RunJob(a), "no-check")
	if !late {
		v.Assert(lib.Of(a) == before && c.Closed == 0, "changed-too-early")
		v.Reach("fresh")
		return
	}
	if before.Status == model.DeviceStatusOffline {
		v.Assert(lib.Gone(a, lib.PlateA) && c.Closed > 0, "not-removed")
		v.Reach("removed")
	} else {
		v.Assert(dev(a).Status == model.DeviceStatusOffline && c.Closed == 0, "not-offline")
		v.Reach("offline")
	}
}

// HNewer: removal closes the connection the device came by, not another that has taken its session id since.
// bound: the session replaced by a newer connection of the same id, with nobody or another device on it, or deleted, or still there
func HNewer() {
	a := lib.PhoneA
	s, c := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 0)
	var c2 *lib.Conn
	switch v.Pick("how", 4) {
	case 1:
		_, c2 = lib.NewSession("s1")
	case 2:
		var s2 *model.Session
		s2, c2 = lib.NewSession("s1")
		lib.Ready(s2, false, lib.PhoneB, lib.PlateB, 1)
	case 3:
		storage.ClearSession("s1")
	}
	v.Advance(61)
	v.Assert(lib.RunJob(a), "no-check")
	v.Assert(lib.Gone(a, lib.PlateA) && c.Closed > 0, "not-closed")
	v.Assert(c2 == nil || c2.Closed == 0, "other-changed")
	v.Reach("removed")
}

// HDue: the scheduler runs, and the check of a device comes round within its keepalive time, again and again.
// bound: registered as the first, second or third device, at 0, 1, 500 or 999 ms past a second, the first time or again after deregistration or a wrong code, both versions
func HDue() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	v.AdvanceMs([]int64{0, 1, 500, 999}[v.Pick("at", 4)])
	n := v.Pick("others", 3)
	if n > 0 {
		lib.Ready(s, v19, lib.Phone(v19, lib.PhoneB), lib.PlateB, 1)
	}
	if n > 1 {
		lib.Ready(s, v19, lib.Phone(v19, lib.PhoneC), lib.PlateC, 0)
	}
	switch v.Pick("again", 3) {
	case 1:
		lib.Ready(s, v19, a, lib.PlateA, 1)
		v.Assert(lib.Dereg(s, v19, a) == nil, "dereg")
		v.Advance(7)
	case 2:
		lib.Ready(s, v19, a, lib.PlateA, 0)
		lib.Auth(s, v19, a, "wrong")
	}
	lib.Ready(s, v19, a, lib.PlateA, 0)
	first, every, ok := lib.Due(a)
	v.Assert(ok, "never-checked")
	keep := lib.Of(a).Keepalive
	v.Assert(first.Sub(v.Now()) <= keep, "checked-late")
	v.Assert(every > 0 && every <= keep, "checked-rarely")
	v.Reach("due")
}
