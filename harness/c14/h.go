package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HDue": HDue, "HHistory": HHistory, "HHistoryLong": HHistoryLong, "HSymbolic": HSymbolic, "HMixed": HMixed, "HRacing": HRacing})
}

func balance(phones []string) {
	n := 0
	for _, p := range phones {
		want := 0
		if storage.GetDeviceCache().HasPhone(p) {
			want = 1
			n++
		}
		v.Assert(lib.Jobs(p) == want, "jobs-of-phone")
	}
	v.Assert(lib.AllJobs() == n, "jobs-of-others")
}

func run(n int, phones []string, plates []string, kinds int) {
	s, _ := lib.NewSession("s1")
	code := map[string]string{}
	for i := 0; i < n; i++ {
		ph := phones[v.Pick("phone", len(phones))]
		switch v.Pick("op", kinds) {
		case 0:
			r, c := lib.Register(s, len(ph) == 20, ph, plates[v.Pick("plate", len(plates))])
			if r == 0 {
				code[ph] = c
			}
		case 1:
			lib.Dereg(s, len(ph) == 20, ph)
		case 2:
			lib.Auth(s, len(ph) == 20, ph, "wrong")
		case 3:
			lib.RunJob(ph)
		case 4:
			v.Advance(100)
			lib.RunJob(ph)
		case 5:
			lib.Auth(s, len(ph) == 20, ph, code[ph])
		case 6:
			lib.Beat(s, len(ph) == 20, ph)
		case 7:
			lib.Loc(s, len(ph) == 20, ph, uint32(v.Pick("acc", 2)), 5)
		}
		balance(phones)
	}
	v.Reach("done")
}

// HHistory: every short history over two phones.
// bound: every sequence of 3 (thorough 4) operations of 2 phones: registration (2 plates), deregistration, failed and right authentication, keepalive check now or 100 s later, heartbeat, location (ACC on/off)
func HHistory() {
	run(v.Bound(3, 4), []string{lib.PhoneA, lib.PhoneB}, []string{lib.PlateA, lib.PlateB}, 8)
}

// HHistoryLong: longer histories of one phone with the operations that start or end jobs.
// bound: every sequence of 6 (thorough 7) operations of 1 phone: registration (1 plate), deregistration, failed authentication, keepalive check now or 100 s later
func HHistoryLong() {
	run(v.Bound(6, 7), []string{lib.PhoneA}, []string{lib.PlateA}, 5)
}

// HSymbolic: phones that differ in a symbolic digit.
// bound: two registrations with one symbolic phone digit (equal or not), then one ending of the first (deregistration, failed authentication, expiry)
func HSymbolic() {
	s, _ := lib.NewSession("s1")
	a := lib.PhoneA
	b := "01390000000" + v.Digits("d", 1)
	lib.Register(s, false, a, lib.PlateA)
	lib.Register(s, false, b, lib.PlateB)
	same := v.Split(v.EqStr(a, b))
	n := 2
	if same {
		n = 1
	}
	v.Assert(lib.AllJobs() == n && lib.Jobs(a) == 1 && lib.Jobs(b) == 1, "jobs-after-register")
	switch v.Pick("end", 3) {
	case 0:
		lib.Dereg(s, false, a)
	case 1:
		lib.Auth(s, false, a, "wrong")
	case 2:
		v.Advance(100)
		lib.RunJob(a)
		lib.RunJob(a)
	}
	v.Assert(lib.AllJobs() == n-1 && lib.Jobs(a) == 0, "jobs-after-end")
	v.Reach("done")
}

// HMixed: a 12-digit and a 20-digit phone whose digits end alike are two devices.
// bound: every sequence of 4 (thorough 5) operations of a 2013 phone and the 2019 phone that ends in it: registration (2 plates), deregistration, failed authentication, keepalive check now or 100 s later
func HMixed() {
	run(v.Bound(4, 5), []string{lib.PhoneA, lib.V19(lib.PhoneA)}, []string{lib.PlateA, lib.PlateB}, 5)
}

// HRacing: also when a registration, an ending and a keepalive check of a phone happen at the same time.
// bound: a device registered, online or sleeping, 0 or 100 s ago; two of registration (the same or another plate), deregistration, failed authentication, keepalive check, each on its own connection; every interleaving with up to 4 (thorough 6) preemptions
func HRacing() {
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, lib.PhoneA, lib.PlateA, v.Pick("state", 3))
	job := lib.JobOf(lib.PhoneA)
	v.Assert(job != nil, "no-job")
	if v.Pick("late", 2) == 1 {
		v.Advance(100)
	}
	one := func(k int, name string) func() {
		s, _ := lib.NewSession(name)
		return func() {
			switch k {
			case 0:
				lib.Register(s, false, lib.PhoneA, lib.PlateA)
			case 1:
				lib.Register(s, false, lib.PhoneA, lib.PlateB)
			case 2:
				lib.Dereg(s, false, lib.PhoneA)
			case 3:
				lib.Auth(s, false, lib.PhoneA, "wrong")
			case 4:
				job()
			}
		}
	}
	x := v.Pick("x", 5)
	y := x + v.Pick("y", 5-x)
	v.Concurrent(v.Bound(4, 6), false, one(x, "s2"), one(y, "s3"))
	balance([]string{lib.PhoneA})
	v.Reach("done")
}

// HDue: the scheduler runs, and the check of a device comes round within its keepalive time, again and again.
// bound: registered as the first, second or third device, at 0, 1, 500 or 999 ms past a second, the first time or again after deregistration or a wrong code, both versions
func HDue() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	v.AdvanceMs([]int64{0, 1, 500, 999}[v.Pick("at", 4)])
	n := v.Pick("others", 3)
	if n > 0 {
		lib.Ready(s, v19, lib.Phone(v19, lib.PhoneB), lib.PlateB, 1)
	}
	if n > 1 {
		lib.Ready(s, v19, lib.Phone(v19, lib.PhoneC), lib.PlateC, 0)
	}
	switch v.Pick("again", 3) {
	case 1:
		lib.Ready(s, v19, a, lib.PlateA, 1)
		v.Assert(lib.Dereg(s, v19, a) == nil, "dereg")
		v.Advance(7)
	case 2:
		lib.Ready(s, v19, a, lib.PlateA, 0)
		lib.Auth(s, v19, a, "wrong")
	}
	lib.Ready(s, v19, a, lib.PlateA, 0)
	first, every, ok := lib.Due(a)
	v.Assert(ok, "never-checked")
	keep := lib.Of(a).Keepalive
	v.Assert(first.Sub(v.Now()) <= keep, "checked-late")
	v.Assert(every > 0 && every <= keep, "checked-rarely")
	v.Reach("due")
}
