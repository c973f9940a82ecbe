package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HCrowd": HCrowd, "HOdd": HOdd, "HSymbolic": HSymbolic, "HHistory": HHistory, "HConcurrent": HConcurrent, "HConcurrentMix": HConcurrentMix, "HPipeline": HPipeline})
}

func phone(v19 bool, p string) string {
	if v19 {
		return lib.V19(p)
	}
	return p
}

// reg registers with a given device id and returns the result.
func reg(s *model.Session, v19 bool, ph, plate string) model.ResultCodeType {
	r, _ := lib.Register(s, v19, ph, plate)
	return r
}

func judge(r model.ResultCodeType, plateTaken, phoneTaken bool) {
	switch {
	case plateTaken && phoneTaken:
		v.Assert(r == model.ResCarAlreadyRegister || r == model.ResDeviceAlreadyRegister, "both-taken")
	case plateTaken:
		v.Assert(r == model.ResCarAlreadyRegister, "plate-taken")
	case phoneTaken:
		v.Assert(r == model.ResDeviceAlreadyRegister, "phone-taken")
	default:
		v.Assert(r == model.ResSuccess, "free-but-refused")
	}
}

type ent struct {
	phone, plate, sess string
	live               bool
}

// found checks that a registration is found under both keys.
func found(e *ent) {
	c := storage.GetDeviceCache()
	d, err := c.GetDeviceByPhone(e.phone)
	v.Assert(err == nil && d != nil, "not-found-by-phone")
	v.Assert(v.And(v.EqStr(d.Phone, e.phone), v.EqStr(d.Plate, e.plate), d.SessionID == e.sess), "phone-entry")
	d, err = c.GetDeviceByPlate(e.plate)
	v.Assert(err == nil && d != nil, "not-found-by-plate")
	v.Assert(v.And(v.EqStr(d.Phone, e.phone), v.EqStr(d.Plate, e.plate), d.SessionID == e.sess), "plate-entry")
	v.Assert(c.HasPhone(e.phone) && c.HasPlate(e.plate), "has")
}

// HSymbolic: registrations whose plates and phones differ in symbolic characters.
// bound: 2 (thorough 3) registrations, from the second on phones with one symbolic BCD digit each, plates with one symbolic printable character each, both versions, plates of length 0 (2019), 1, 7 or 8 and one GBK plate
func HSymbolic() {
	v19 := v.Pick("v19", 2) == 1
	n := v.Bound(2, 3)
	var live []*ent
	for i := 0; i < n; i++ {
		name := []string{"s1", "s2", "s3"}[i]
		s, _ := lib.NewSession(name)
		e := &ent{phone: phone(v19, "013900000001"), plate: "AB1234X", sess: name}
		if i > 0 {
			e = &ent{phone: phone(v19, "01390000000"+v.Digits("d", 1)), plate: "AB1234" + v.Ascii("p", 1, 0x20, 0x7a), sess: name}
		}
		switch v.Pick("shape", 4) {
		case 1:
			e.plate += "Z"
		case 2:
			if v19 { // in the 2013 layout an empty plate reads as the 2011 form
				e.plate = ""
			} else {
				e.plate = "9"
			}
		case 3:
			if i > 0 {
				e.plate = e.plate[6:]
			} else {
				e.plate = "\xbe\xa9A12345"
			}
		}
		wire := e.plate
		if len(wire) > 0 && wire[0] == 0xbe {
			e.plate = "京A12345"
		}
		plateTaken, phoneTaken := false, false
		for _, o := range live {
			plateTaken = v.Or(plateTaken, v.EqStr(o.plate, e.plate))
			phoneTaken = v.Or(phoneTaken, v.EqStr(o.phone, e.phone))
		}
		pt, ft := v.Split(plateTaken), v.Split(phoneTaken)
		r := reg(s, v19, e.phone, wire)
		judge(r, pt, ft)
		if r == model.ResSuccess {
			live = append(live, e)
			v.Reach("registered")
		} else {
			v.Reach("refused")
		}
		for _, o := range live {
			found(o)
		}
		v.Assert(lib.Devices() == len(live), "number-of-devices")
	}
	v.Observe("live", len(live))
}

// HHistory: registrations mixed with everything that ends or keeps one.
// bound: every history of 3 (thorough 4) operations out of: register (2 phones x 2 plates, from 2 sessions), loss of all sessions, a day passing, and deregister, failed authentication, heartbeat, location, each of 2 phones; 2013 headers
func HHistory() {
	phones := []string{lib.PhoneA, lib.PhoneB}
	plates := []string{lib.PlateA, lib.PlateB}
	var cur [2]*ent
	s1, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	for i := 0; i < v.Bound(3, 4); i++ {
		op := v.Pick("op", 4+2*4+2)
		if op == 12 {
			// the connections are replaced, the registrations stay
			storage.ClearSession(s1.ID)
			storage.ClearSession(s2.ID)
		} else if op == 13 {
			v.Advance(100000)
		} else if op < 4 {
			f, p := op&1, op>>1
			s := []*model.Session{s1, s2}[i&1]
			plateTaken := false
			for _, e := range cur {
				if e != nil && e.plate == plates[p] {
					plateTaken = true
				}
			}
			before := [2]lib.State{lib.Of(phones[0]), lib.Of(phones[1])}
			r := reg(s, false, phones[f], plates[p])
			judge(r, plateTaken, cur[f] != nil)
			if r == model.ResSuccess {
				cur[f] = &ent{phones[f], plates[p], s.ID, true}
			} else {
				v.Assert(lib.Of(phones[f]) == before[f], "refused-but-changed")
			}
			v.Assert(lib.Of(phones[1-f]) == before[1-f], "other-changed")
		} else {
			f := (op - 4) & 1
			var err error
			switch (op - 4) >> 1 {
			case 0:
				err = lib.Dereg(s1, false, phones[f])
				if cur[f] != nil {
					v.Assert(err == nil, "dereg")
				}
				cur[f] = nil
			case 1:
				_, err = lib.Auth(s1, false, phones[f], "wrong")
				cur[f] = nil
			case 2:
				err = lib.Beat(s1, false, phones[f])
			case 3:
				err = lib.Loc(s1, false, phones[f], 1, 5)
			}
		}
		n := 0
		for k, e := range cur {
			if e != nil {
				n++
				found(e)
			} else {
				v.Assert(!storage.GetDeviceCache().HasPhone(phones[k]), "phone-left")
			}
		}
		for _, pl := range plates {
			own := false
			for _, e := range cur {
				own = own || e != nil && e.plate == pl
			}
			v.Assert(storage.GetDeviceCache().HasPlate(pl) == own, "plate-left")
		}
		v.Assert(lib.Devices() == n, "number-of-devices")
	}
	v.Reach("done")
}

// HConcurrent: registrations at the same time on different connections.
// bound: 2 registrations of every sharing pattern of plate and phone with up to 4 preemptions, 3 registrations (thorough) with up to 3
func HConcurrent() {
	n := v.Bound(2, 3)
	ps := make([]string, n)
	pl := make([]string, n)
	ss := make([]*model.Session, n)
	for i := 0; i < n; i++ {
		ps[i] = []string{lib.PhoneA, lib.PhoneB, lib.PhoneC}[v.Pick("phone", i+1)]
		pl[i] = []string{lib.PlateA, lib.PlateB, lib.PlateC}[v.Pick("plate", i+1)]
		ss[i], _ = lib.NewSession([]string{"s1", "s2", "s3"}[i])
	}
	lib.AllJobs()
	lib.Devices()
	rs := make([]model.ResultCodeType, n)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() { rs[i] = reg(ss[i], false, ps[i], pl[i]) })
	}
	v.Concurrent(v.Bound(4, 3), false, fs...)
	won := 0
	for i := 0; i < n; i++ {
		blocked := false
		for j := 0; j < n; j++ {
			if i == j || rs[j] != model.ResSuccess {
				continue
			}
			share := ps[i] == ps[j] || pl[i] == pl[j]
			if rs[i] == model.ResSuccess {
				v.Assert(!share, "two-winners")
			}
			blocked = blocked || share
		}
		if rs[i] == model.ResSuccess {
			won++
			found(&ent{ps[i], pl[i], ss[i].ID, true})
			v.Assert(lib.Jobs(ps[i]) == 1, "jobs")
		} else {
			v.Assert(blocked, "refused-without-reason")
		}
	}
	v.Assert(won >= 1, "no-winner")
	v.Assert(lib.Devices() == won, "number-of-devices")
	v.Reach("done")
}

// HConcurrentMix: a registration against a deregistration of the holder of its plate or phone.
// bound: holder registered; one deregistration, heartbeat or location of it and one registration sharing plate, phone or both; up to 4 (thorough 6) preemptions
func HConcurrentMix() {
	s1, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	v.Assert(reg(s1, false, lib.PhoneA, lib.PlateA) == 0, "setup")
	k := v.Pick("share", 3)
	ph := []string{lib.PhoneB, lib.PhoneA, lib.PhoneA}[k]
	pl := []string{lib.PlateA, lib.PlateB, lib.PlateA}[k]
	what := v.Pick("what", 3)
	var r model.ResultCodeType
	v.Concurrent(v.Bound(4, 6), false, func() {
		switch what {
		case 0:
			v.Assert(lib.Dereg(s1, false, lib.PhoneA) == nil, "dereg")
		case 1:
			lib.Beat(s1, false, lib.PhoneA)
		case 2:
			lib.Loc(s1, false, lib.PhoneA, 1, 5)
		}
	}, func() { r = reg(s2, false, ph, pl) })
	// whatever the order, the two indexes agree
	c := storage.GetDeviceCache()
	n := 0
	for _, p := range []string{lib.PhoneA, lib.PhoneB} {
		if d, err := c.GetDeviceByPhone(p); err == nil {
			n++
			e, err := c.GetDeviceByPlate(d.Plate)
			v.Assert(err == nil && e == d, "indexes-differ")
		}
	}
	for _, p := range []string{lib.PlateA, lib.PlateB} {
		if d, err := c.GetDeviceByPlate(p); err == nil {
			e, err := c.GetDeviceByPhone(d.Phone)
			v.Assert(err == nil && e == d, "indexes-differ")
		}
	}
	v.Assert(n <= 1 && lib.Devices() == n, "two-holders")
	if what > 0 {
		v.Assert(r != model.ResSuccess, "taken-but-registered")
		found(&ent{lib.PhoneA, lib.PlateA, "s1", true})
	} else if r != model.ResSuccess {
		v.Assert(n == 0, "refused-but-present")
	}
	v.Reach("done")
}

// HPipeline: the same through frames on connections.
// bound: two registrations sharing plate, phone, both or none, both versions
func HPipeline() {
	v19 := v.Pick("v19", 2) == 1
	s1, c1 := lib.NewSession("s1")
	s2, c2 := lib.NewSession("s2")
	k := v.Pick("share", 4)
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	ph := []string{b, a, a, b}[k]
	pl := []string{lib.PlateA, lib.PlateB, lib.PlateA, lib.PlateB}[k]
	out, err := lib.Push(s1, c1, lib.Msg(0x0100, v19, a, 1, lib.RegBody(v19, "D1", lib.PlateA)))
	v.Assert(err == nil && len(out) == 1, "first")
	v.Assert(lib.Parse(out[0]).Body[2] == 0, "first-result")
	out, err = lib.Push(s2, c2, lib.Msg(0x0100, v19, ph, 1, lib.RegBody(v19, "D2", pl)))
	v.Assert(err == nil && len(out) == 1, "second")
	judge(model.ResultCodeType(lib.Parse(out[0]).Body[2]), k == 0 || k == 2, k == 1 || k == 2)
	found(&ent{a, lib.PlateA, "s1", true})
	if k == 3 {
		found(&ent{b, lib.PlateB, "s2", true})
	}
	v.Reach("done")
}

// HOdd: plates are compared and found exactly as sent: what differs in a blank, a NUL, case or a leading zero is another plate.
// bound: every ordered pair out of 12 plates (trailing or leading blank, NUL, tab, lower case, leading zero, one character more or less); both versions
func HOdd() {
	v19 := v.Pick("v19", 2) == 1
	odd := []string{"B12", "B12 ", " B12", "B12\x00", "\x00B12", "b12", "B12\t", "0B12", "B1", "B123", "B12\n", "B-12"}
	i, j := v.Pick("first", len(odd)), v.Pick("second", len(odd))
	s1, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	judge(reg(s1, v19, a, odd[i]), false, false)
	first := &ent{a, odd[i], "s1", true}
	found(first)
	judge(reg(s2, v19, b, odd[j]), i == j, false)
	found(first)
	if i != j {
		found(&ent{b, odd[j], "s2", true})
		v.Assert(lib.Dereg(s2, v19, b) == nil, "dereg")
		v.Assert(!storage.GetDeviceCache().HasPlate(odd[j]), "plate-left")
		found(first)
		v.Reach("two")
	} else {
		v.Reach("one")
	}
}

// HCrowd: however many devices are registered, all of them stay so.
// bound: 1100 (thorough 5000) registrations on one session each or all on one
func HCrowd() {
	n := v.Bound(1100, 5000)
	one := v.Pick("one session", 2) == 1
	num := func(i int) string {
		return string([]byte{byte('0' + i/1000), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
	}
	s, _ := lib.NewSession("s")
	name := "s"
	for i := 0; i < n; i++ {
		if !one {
			name = "s" + num(i)
			s, _ = lib.NewSession(name)
		}
		judge(reg(s, false, "01390000"+num(i), "P"+num(i)), false, false)
	}
	for i := 0; i < n; i++ {
		if !one {
			name = "s" + num(i)
		}
		found(&ent{"01390000" + num(i), "P" + num(i), name, true})
	}
	judge(reg(s, false, "013900000000", "P9999"), false, true)
	judge(reg(s, false, "013900009999", "P0000"), true, false)
	v.Assert(lib.Devices() == n, "number-of-devices")
	v.Reach("all")
}
