package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HGone": HGone, "HRacing": HRacing, "HRacingTwo": HRacingTwo, "HAgain": HAgain, "HListed": HListed})
}

// end removes the device in one of the two ways a message can.
func end(how int, s *model.Session, v19 bool, ph string) {
	if how == 0 {
		v.Assert(lib.Dereg(s, v19, ph) == nil, "dereg-refused")
		return
	}
	r, err := lib.Auth(s, v19, ph, "wrong")
	v.Assert(err == nil && r == model.ResultFail, "wrong-code")
}

// HGone: after the end nothing is left, and plate and phone are free.
// bound: deregistration or failed authentication, 3 device states, both versions, up to 1 other device, then registration of the plate, the phone, or both, by the same or another device
func HGone() {
	v19 := v.Pick("v19", 2) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	other := v.Pick("other", 2) == 1
	if other {
		lib.Ready(s2, v19, lib.Phone(v19, lib.PhoneC), lib.PlateC, 1)
	}
	lib.Ready(s, v19, a, lib.PlateA, v.Pick("state", 3))
	end(v.Pick("how", 2), s, v19, a)
	v.Assert(lib.Gone(a, lib.PlateA), "still-there")
	k := v.Pick("again", 3)
	ph := []string{a, b, a}[k]
	pl := []string{lib.PlateA, lib.PlateA, lib.PlateB}[k]
	r, code := lib.Register(s2, v19, ph, pl)
	v.Assert(r == model.ResSuccess, "not-free")
	st := lib.Of(ph)
	v.Assert(st.Has && st.ByPlate && st.Listed == 1 && st.Jobs == 1 && st.SessionID == "s2", "new-registration")
	ar, err := lib.Auth(s2, v19, ph, code)
	v.Assert(err == nil && ar == model.ResultSuccess, "new-auth")
	v.Reach("done")
}

// HAgain: repeated cycles leave nothing behind.
// bound: every sequence of 3 (thorough 4) cycles of register + end, the plate switching between two
func HAgain() {
	s, _ := lib.NewSession("s1")
	for i := 0; i < v.Bound(3, 4); i++ {
		pl := []string{lib.PlateA, lib.PlateB}[v.Pick("plate", 2)]
		lib.Ready(s, false, lib.PhoneA, pl, v.Pick("state", 3))
		end(v.Pick("how", 2), s, false, lib.PhoneA)
		v.Assert(lib.Gone(lib.PhoneA, pl), "still-there")
		v.Assert(lib.Devices() == 0 && lib.AllJobs() == 0, "leftovers")
	}
	v.Reach("done")
}

// HListed: the device list follows registrations and removals, whoever looked at it before.
// bound: every sequence of 4 (thorough 5) of: registration of one of 3 devices, removal (deregistration or failed authentication) of one of them; the list read or not after each step; 1 digit of the second phone symbolic
func HListed() {
	s, _ := lib.NewSession("s1")
	ph := []string{lib.PhoneA, "01390000001" + v.Digits("d", 1), lib.PhoneC}
	pl := []string{lib.PlateA, lib.PlateB, lib.PlateC}
	in := make([]bool, 3)
	check := func() {
		l := storage.GetDeviceCache().ListDevice()
		n := 0
		for i := range ph {
			k := 0
			for _, d := range l {
				if v.Split(v.EqStr(d.Phone, ph[i])) {
					v.Assert(d.Plate == pl[i], "wrong-device-listed")
					k++
				}
			}
			if in[i] {
				v.Assert(k == 1, "not-listed")
				n++
			} else {
				v.Assert(k == 0, "still-listed")
			}
		}
		v.Assert(len(l) == n, "list-length")
	}
	for i := 0; i < v.Bound(4, 5); i++ {
		d := v.Pick("dev", 3)
		if !in[d] {
			r, _ := lib.Register(s, false, ph[d], pl[d])
			v.Assert(r == model.ResSuccess, "not-free")
		} else {
			end(v.Pick("how", 2), s, false, ph[d])
		}
		in[d] = !in[d]
		if v.Pick("look", 2) == 1 {
			check()
		}
	}
	check()
	v.Reach("done")
}

func act(k int, s *model.Session, code string, job func()) {
	switch k {
	case 0:
		lib.Beat(s, false, lib.PhoneA)
	case 1:
		lib.Loc(s, false, lib.PhoneA, 1, 9)
	case 2:
		lib.Loc(s, false, lib.PhoneA, 0, 9)
	case 3:
		lib.Auth(s, false, lib.PhoneA, code)
	case 4:
		job()
	case 5:
		lib.Dereg(s, false, lib.PhoneA)
	case 6:
		lib.Do(s, lib.Frag(0x0200, false, lib.PhoneA, 9, 2, 1, []byte{1, 2}))
	}
}

// HRacing: whatever runs at the same time, the removed registration stays removed.
// bound: deregistration or failed authentication against one of heartbeat, location (ACC on/off), authentication, keepalive check (fresh or expired), second deregistration, fragment; 3 device states; every interleaving with up to 4 (thorough 6) preemptions
func HRacing() {
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	code := lib.Ready(s, false, lib.PhoneA, lib.PlateA, v.Pick("state", 3))
	job := lib.JobOf(lib.PhoneA)
	v.Assert(job != nil, "no-job")
	k := v.Pick("kind", 7)
	if k == 4 && v.Pick("late", 2) == 1 {
		v.Advance(100)
	}
	how := v.Pick("how", 2)
	v.Concurrent(v.Bound(4, 6), false, func() {
		if how == 0 {
			lib.Dereg(s, false, lib.PhoneA)
		} else {
			lib.Auth(s, false, lib.PhoneA, "wrong")
		}
	}, func() { act(k, s2, code, job) })
	v.Assert(lib.Gone(lib.PhoneA, lib.PlateA), "came-back")
	v.Assert(lib.Devices() == 0 && lib.AllJobs() == 0, "leftovers")
	r, _ := lib.Register(s2, false, lib.PhoneA, lib.PlateA)
	v.Assert(r == model.ResSuccess, "not-free")
	v.Assert(!lib.Of(lib.PhoneA).HasGeo, "old-location")
	v.Reach("done")
}

// HRacingTwo: three activities at once.
// bound: deregistration against two of heartbeat, location, authentication, keepalive check; online device; up to 2 (thorough 3) preemptions
func HRacingTwo() {
	s, _ := lib.NewSession("s1")
	code := lib.Ready(s, false, lib.PhoneA, lib.PlateA, 1)
	job := lib.JobOf(lib.PhoneA)
	k1, k2 := v.Pick("k1", 5), v.Pick("k2", 5)
	v.Assume(k1 <= k2)
	if v.Pick("late", 2) == 1 {
		v.Advance(100)
	}
	v.Concurrent(v.Bound(2, 3), false, func() { lib.Dereg(s, false, lib.PhoneA) },
		func() { act(k1, s, code, job) }, func() { act(k2, s, code, job) })
	v.Assert(lib.Gone(lib.PhoneA, lib.PlateA), "came-back")
	v.Assert(lib.Devices() == 0 && lib.AllJobs() == 0, "leftovers")
	v.Reach("done")
}
