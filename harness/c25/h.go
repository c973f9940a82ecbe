package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
	"github.com/fakeyanss/jt808-server-go/pkg/container"
)

func main() {
	v.Main(map[string]func(){"HDevice": HDevice, "HSession": HSession, "HParams": HParams, "HGeo": HGeo, "HSegment": HSegment, "HMonitor": HMonitor, "HThree": HThree, "HPanic": HPanic, "HMessages": HMessages})
}

// a store is described by what it holds of two items; an operation maps holdings to holdings and a result.
type op struct {
	run  func() int
	spec func(has [2]bool) ([2]bool, int)
}

// linear runs operations at once and requires that what they returned and left is what some order of them gives.
func linear(pre int, has [2]bool, look func() [2]bool, ops ...op) {
	res := make([]int, len(ops))
	var fs []func()
	for i := range ops {
		i := i
		fs = append(fs, func() { res[i] = ops[i].run() })
	}
	v.Concurrent(pre, false, fs...)
	got := look()
	v.Assert(explained(has, got, res, ops, make([]bool, len(ops)), 0), "no-order-explains")
	v.Reach("done")
}

func explained(has, got [2]bool, res []int, ops []op, used []bool, n int) bool {
	if n == len(ops) {
		return has == got
	}
	for i := range ops {
		if used[i] {
			continue
		}
		h, r := ops[i].spec(has)
		if r != res[i] {
			continue
		}
		used[i] = true
		if explained(h, got, res, ops, used, n+1) {
			used[i] = false
			return true
		}
		used[i] = false
	}
	return false
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func put(k int) func([2]bool) ([2]bool, int) {
	return func(h [2]bool) ([2]bool, int) { h[k] = true; return h, 0 }
}

func del(k int) func([2]bool) ([2]bool, int) {
	return func(h [2]bool) ([2]bool, int) { h[k] = false; return h, 0 }
}

func get(k int) func([2]bool) ([2]bool, int) {
	return func(h [2]bool) ([2]bool, int) { return h, bit(h[k]) }
}

var (
	phones = [2]string{lib.PhoneA, lib.PhoneB}
	plates = [2]string{lib.PlateA, lib.PlateB}
)

const deviceOps = 10

func deviceOp(n, k int, d *model.Device) op {
	c := storage.GetDeviceCache
	switch n {
	case 0:
		return op{func() int { c().CacheDevice(d); return 0 }, put(k)}
	case 1:
		return op{func() int { c().DelDeviceByPhone(phones[k]); return 0 }, del(k)}
	case 2:
		return op{func() int { c().DelDeviceByCarPlate(plates[k]); return 0 }, del(k)}
	case 3:
		return op{func() int {
			l := c().ListDevice()
			for _, x := range l {
				v.Assert(x != nil, "nil-listed")
			}
			return len(l)
		}, func(h [2]bool) ([2]bool, int) { return h, bit(h[0]) + bit(h[1]) }}
	case 4:
		return op{func() int { x, err := c().GetDeviceByPhone(phones[k]); return bit(err == nil && x == d) }, get(k)}
	case 5:
		return op{func() int { x, err := c().GetDeviceByPlate(plates[k]); return bit(err == nil && x == d) }, get(k)}
	case 6:
		return op{func() int { return bit(c().HasPhone(phones[k])) }, get(k)}
	case 7:
		return op{func() int { return bit(c().HasPlate(plates[k])) }, get(k)}
	case 8:
		return op{func() int { a, b := c().RegisterDevice(d); return bit(a) + bit(b) }, func(h [2]bool) ([2]bool, int) {
			r := 2 * bit(h[k])
			h[k] = true
			return h, r
		}}
	}
	return op{func() int { c().UpdateDevice(d); return 0 }, func(h [2]bool) ([2]bool, int) { return h, 0 }}
}

func deviceLook() (r [2]bool) {
	c := storage.GetDeviceCache()
	n := 0
	for k := range r {
		r[k] = c.HasPhone(phones[k])
		v.Assert(c.HasPlate(plates[k]) == r[k], "indexes-differ")
		n += bit(r[k])
	}
	v.Assert(len(c.ListDevice()) == n, "list-differs")
	return r
}

func devices() (ds [2]*model.Device) {
	for k := range ds {
		ds[k] = &model.Device{Phone: phones[k], Plate: plates[k]}
	}
	return ds
}

// keys makes the keys of the second item symbolic; it tells which item the second operation is about.
func keys() int {
	d := v.Digits("d", 1)
	if v.Split(d == "1") {
		return 0
	}
	phones[1], plates[1], names[1] = "01390000000"+d, "A1000"+d, "s"+d
	return 1
}

// holdings picks what a store holds beforehand; first use of a store may be the concurrent one.
func holdings(add func(k int)) (h [2]bool) {
	w := v.Pick("held", 4)
	for k := range h {
		if w>>k&1 == 1 {
			add(k)
			h[k] = true
		}
	}
	return h
}

// HDevice: two operations on the device store at once.
// bound: every pair out of 10 operations on the same or another device (phone and plate of the other with a symbolic digit), every holding of two devices before (also first use of the store), up to 4 (thorough 8) preemptions
func HDevice() {
	k := keys()
	ds := devices()
	h := holdings(func(k int) { storage.GetDeviceCache().CacheDevice(ds[k]) })
	a := v.Pick("a", deviceOps)
	b := v.Pick("b", deviceOps)
	linear(v.Bound(4, 8), h, deviceLook, deviceOp(a, 0, ds[0]), deviceOp(b, k, ds[k]))
}

var names = [2]string{"s1", "s2"}

func sessionOp(n, k int, s *model.Session) op {
	switch n {
	case 0:
		return op{func() int { storage.StoreSession(s); return 0 }, put(k)}
	case 1:
		return op{func() int { storage.ClearSession(names[k]); return 0 }, del(k)}
	}
	return op{func() int { x, err := storage.GetSession(names[k]); return bit(err == nil && x == s) }, get(k)}
}

func sessionLook() (r [2]bool) {
	for k := range r {
		_, err := storage.GetSession(names[k])
		r[k] = err == nil
	}
	return r
}

// HSession: two operations on the session store at once.
// bound: every pair of storing, clearing and looking up the same or another session (its id with a symbolic digit), every holding before (also first use, which starts the session counter), up to 4 (thorough 8) preemptions
func HSession() {
	k := keys()
	ss := [2]*model.Session{{ID: names[0]}, {ID: names[1]}}
	h := holdings(func(k int) { storage.StoreSession(ss[k]) })
	a := v.Pick("a", 3)
	b := v.Pick("b", 3)
	linear(v.Bound(4, 8), h, sessionLook, sessionOp(a, 0, ss[0]), sessionOp(b, k, ss[k]))
}

// HMonitor: the periodic session counter against the operations.
// bound: every operation and holding, a counter that wakes up once at any point in between, up to 3 (thorough 5) preemptions
func HMonitor() {
	ss := [2]*model.Session{{ID: "s1"}, {ID: "s2"}}
	h := holdings(func(k int) { storage.StoreSession(ss[k]) })
	storage.GetSession("none")
	v.Quiesce()
	a := v.Pick("a", 3)
	wake := op{func() int { v.Wake(); return 0 }, func(h [2]bool) ([2]bool, int) { return h, 0 }}
	linear(v.Bound(3, 5), h, sessionLook, wake, sessionOp(a, 0, ss[0]))
	v.Quiesce()
	v.Assert(sessionLook()[1] == h[1], "lost")
}

func paramOp(n, k int, p *model.DeviceParams) op {
	c := storage.GetDeviceParamsCache
	switch n {
	case 0:
		return op{func() int { c().CacheDeviceParams(p); return 0 }, put(k)}
	case 1:
		return op{func() int { c().DelDeviceParamsByPhone(phones[k]); return 0 }, del(k)}
	}
	return op{func() int { x, err := c().GetDeviceParamsByPhone(phones[k]); return bit(err == nil && x == p) }, get(k)}
}

func paramLook() (r [2]bool) {
	for k := range r {
		_, err := storage.GetDeviceParamsCache().GetDeviceParamsByPhone(phones[k])
		r[k] = err == nil
	}
	return r
}

// HParams: two operations on the parameter store at once.
// bound: every pair of storing, deleting and looking up, same or another phone (with a symbolic digit), every holding before (also first use), up to 4 (thorough 8) preemptions
func HParams() {
	k := keys()
	ps := [2]*model.DeviceParams{{DevicePhone: phones[0]}, {DevicePhone: phones[1]}}
	h := holdings(func(k int) { storage.GetDeviceParamsCache().CacheDeviceParams(ps[k]) })
	a := v.Pick("a", 3)
	b := v.Pick("b", 3)
	linear(v.Bound(4, 8), h, paramLook, paramOp(a, 0, ps[0]), paramOp(b, k, ps[k]))
}

func geoOp(n, k int, mine **container.RingBuffer) func() {
	c := storage.GetGeoCache
	return func() {
		switch n {
		case 0:
			*mine = c().GetGeoRingByPhone(phones[k])
			v.Assert(*mine != nil, "no-ring")
		case 1:
			g, err := c().GetGeoLatestByPhone(phones[k])
			v.Assert(err != nil || g != nil, "empty")
		case 2:
			c().DelGeoByPhone(phones[k])
		case 3:
			*mine = c().GetGeoRingByPhone(phones[k])
			(*mine).Write(&model.DeviceGeo{Phone: phones[k]})
		}
	}
}

// HGeo: two operations on the location store at once.
// bound: every pair of getting a ring, reading the latest, deleting and writing, same or another phone (with a symbolic digit), every holding before (also first use), up to 4 (thorough 8) preemptions
func HGeo() {
	k := keys()
	c := storage.GetGeoCache
	var old [2]*container.RingBuffer
	h := holdings(func(k int) {
		old[k] = c().GetGeoRingByPhone(phones[k])
		old[k].Write(&model.DeviceGeo{Phone: phones[k]})
	})
	a := v.Pick("a", 4)
	b := v.Pick("b", 4)
	var ra, rb *container.RingBuffer
	v.Concurrent(v.Bound(4, 8), false, geoOp(a, 0, &ra), geoOp(b, k, &rb))
	deleted := [2]bool{}
	written := [2]bool{}
	deleted[0] = a == 2
	deleted[k] = deleted[k] || b == 2
	written[0] = a == 3
	written[k] = written[k] || b == 3
	for i := range old {
		var mine []*container.RingBuffer
		if ra != nil && i == 0 {
			mine = append(mine, ra)
		}
		if rb != nil && i == k {
			mine = append(mine, rb)
		}
		if !deleted[i] {
			r := c().GetGeoRingByPhone(phones[i])
			for _, m := range mine {
				v.Assert(m == r, "two-rings")
			}
			if h[i] {
				v.Assert(r == old[i], "ring-lost")
			}
			if h[i] || written[i] {
				g, err := c().GetGeoLatestByPhone(phones[i])
				v.Assert(err == nil && g != nil && g.Phone == phones[i], "location-lost")
			}
		} else if !written[i] {
			_, err := c().GetGeoLatestByPhone(phones[i])
			v.Assert(err != nil, "location-left")
		}
	}
	v.Reach("done")
}

func seg(phone string, id, total, no uint16, b byte) *model.Segment {
	return &model.Segment{Phone: phone, MsgID: id, SegTotal: total, SegNo: no, Data: []byte{b}}
}

// HSegment: fragments of different messages stored at once.
// bound: the two fragments of two messages (another phone or another message) with symbolic content, each message on its own goroutine; up to 4 (thorough 8) preemptions, also first use
func HSegment() {
	phB, idB := phones[1], uint16(0x0104)
	if v.Pick("same phone", 2) == 1 {
		phB, idB = phones[0], 0x0801
	}
	if v.Pick("used", 2) == 1 {
		storage.CacheSegment(seg(phones[0], 0x0200, 2, 1, 0))
	}
	x := v.Bytes("x", 4)
	var d [2][]byte
	one := func(i int, ph string, id uint16) func() {
		return func() {
			v.Assert(!storage.CacheSegment(seg(ph, id, 2, 1, x[2*i])), "complete-too-early")
			s := seg(ph, id, 2, 2, x[2*i+1])
			v.Assert(storage.CacheSegment(s), "never-complete")
			d[i] = s.Data
		}
	}
	v.Concurrent(v.Bound(4, 8), false, one(0, phones[0], 0x0104), one(1, phB, idB))
	v.Assert(v.EqBytes(d[0], x[:2]), "first-content")
	v.Assert(v.EqBytes(d[1], x[2:]), "second-content")
	v.Reach("done")
}

// HThree: three operations on the device store at once.
// bound: three operations out of storing, removing by phone and by plate, listing and looking up, on two devices, every holding before, up to 2 (thorough 3) preemptions
func HThree() {
	ds := devices()
	h := holdings(func(k int) { storage.GetDeviceCache().CacheDevice(ds[k]) })
	n := v.Bound(5, 8)
	a := v.Pick("a", n)
	b := v.Pick("b", n)
	c := v.Pick("c", n)
	k := v.Pick("other", 2)
	linear(v.Bound(2, 3), h, deviceLook, deviceOp(a, 0, ds[0]), deviceOp(b, 0, ds[0]), deviceOp(c, k, ds[k]))
}

// HPanic: an operation that panics leaves the store usable.
// bound: nil stored into the device, session, parameter and fragment store, followed by every operation
func HPanic() {
	ds := devices()
	w := v.Pick("store", 4)
	v.Catch(func() {
		switch w {
		case 0:
			storage.GetDeviceCache().CacheDevice(nil)
		case 1:
			storage.StoreSession(nil)
		case 2:
			storage.GetDeviceParamsCache().CacheDeviceParams(nil)
		case 3:
			storage.CacheSegment(nil)
		}
	})
	n := v.Pick("op", deviceOps)
	switch w {
	case 0:
		_, r := deviceOp(n, 0, ds[0]).spec([2]bool{})
		v.Assert(deviceOp(n, 0, ds[0]).run() == r, "result")
	case 1:
		s := &model.Session{ID: names[0]}
		_, r := sessionOp(n%3, 0, s).spec([2]bool{})
		v.Assert(sessionOp(n%3, 0, s).run() == r, "result")
	case 2:
		p := &model.DeviceParams{DevicePhone: phones[0]}
		_, r := paramOp(n%3, 0, p).spec([2]bool{})
		v.Assert(paramOp(n%3, 0, p).run() == r, "result")
	case 3:
		v.Assert(!storage.CacheSegment(seg(phones[0], 1, 2, 1, 0)), "result")
	}
	v.Reach("usable")
}

const msgOps = 10

// HMessages: what sessions, timers and the API do to the stores, at once.
// bound: every pair out of registering, authenticating, heartbeat, location, deregistering, keepalive check, listing devices, latest location, a fragment and a session ending, of one registered phone or two, up to 2 (thorough 3) preemptions; afterwards every store is usable
func HMessages() {
	ss := [2]*model.Session{}
	codes := [2]string{}
	jobs := [2]func(){}
	for k := range ss {
		ss[k], _ = lib.NewSession(names[k])
		codes[k] = lib.Ready(ss[k], false, phones[k], plates[k], 1)
		lib.Loc(ss[k], false, phones[k], 1, 5)
		jobs[k] = lib.JobOf(phones[k])
	}
	v.Advance(1000)
	act := func(n, k int) func() {
		return func() {
			switch n {
			case 0:
				lib.Register(ss[k], false, phones[k], plates[k])
			case 1:
				lib.Auth(ss[k], false, phones[k], codes[k])
			case 2:
				lib.Beat(ss[k], false, phones[k])
			case 3:
				lib.Loc(ss[k], false, phones[k], 1, 6)
			case 4:
				lib.Dereg(ss[k], false, phones[k])
			case 5:
				jobs[k]()
			case 6:
				storage.GetDeviceCache().ListDevice()
			case 7:
				storage.GetGeoCache().GetGeoLatestByPhone(phones[k])
			case 8:
				storage.CacheSegment(seg(phones[k], 0x0104, 2, 1, 0))
			case 9:
				storage.ClearSession(names[k])
			}
		}
	}
	a := v.Pick("a", msgOps)
	b := v.Pick("b", msgOps)
	k := v.Pick("other", 2)
	v.Assume(a <= b || k == 1)
	v.Concurrent(v.Bound(2, 3), false, act(a, 0), act(b, k))
	deviceLook()
	s, _ := lib.NewSession("late")
	r, code := lib.Register(s, false, lib.PhoneC, lib.PlateC)
	v.Assert(r == model.ResSuccess, "late-registration")
	res, err := lib.Auth(s, false, lib.PhoneC, code)
	v.Assert(err == nil && res == 0, "late-auth")
	v.Assert(lib.Loc(s, false, lib.PhoneC, 1, 5) == nil, "late-location")
	v.Assert(lib.Dereg(s, false, lib.PhoneC) == nil && lib.Gone(lib.PhoneC, lib.PlateC), "late-deregistration")
	v.Assert(!storage.CacheSegment(seg(lib.PhoneC, 0x0104, 2, 1, 0)), "late-fragment")
	v.Reach("done")
}
