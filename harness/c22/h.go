package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HCrowd": HCrowd, "HEach": HEach, "HSymbolic": HSymbolic, "HHistory": HHistory, "HJob": HJob, "HConcurrent": HConcurrent, "HLookalike": HLookalike})
}

const nOps = 20

// op processes one message of phone ph (registered or not) on a session; body bytes are symbolic where they are free.
func op(k int, s *model.Session, v19 bool, ph, plate, code, platePrey string, x uint8) {
	msg := func(id uint16, body []byte) { lib.Do(s, lib.Msg(id, v19, ph, 0x0700|uint16(x), body)) }
	switch k {
	case 0:
		msg(0x0001, []byte{0, x, 0x81, 0x03, 0})
	case 1:
		msg(0x0002, nil)
	case 2:
		msg(0x0003, nil)
	case 3:
		msg(0x0004, nil)
	case 4:
		msg(0x0100, lib.RegBody(v19, "DEV1", plate))
	case 5: // with the other's plate
		msg(0x0100, lib.RegBody(v19, "DEV1", platePrey))
	case 6:
		msg(0x0102, lib.AuthBody(v19, code, "860000000000009", "v9"))
	case 7: // wrong code
		msg(0x0102, lib.AuthBody(v19, "wrong", "860000000000009", "v9"))
	case 8:
		msg(0x0104, []byte{0, x, 1, 0, 0, 0, 1, 4, 0, 0, 0, x})
	case 9:
		msg(0x0200, lib.LocBody(0, uint32(x), uint32(x), 5, 6, 7, 8, "230102030405"))
	case 10:
		msg(0x1205, []byte{0, x, 0, 0, 0, 0})
	case 11:
		msg(0x8001, []byte{0, x, 0x01, 0x02, 0})
	case 12:
		msg(0x8001, []byte{0, x, 0x01, 0x02, 1})
	case 13:
		msg(0x8100, lib.Cat([]byte{0, x, 0}, []byte("code")))
	case 14:
		msg(0x8103, []byte{1, 0, 0, 0, 1, 4, 0, 0, 0, x})
	case 15:
		msg(0x8104, nil)
	case 16:
		msg(0x9205, lib.Cat([]byte{1}, lib.BCD("230102030405"), lib.BCD("230102040405"), make([]byte, 8), []byte{0, 0, 0}))
	case 17, 18, 19: // fragments: a first, a last without a first, a single
		tot, idx := uint16(2), uint16(1)
		if k == 18 {
			idx = 2
		} else if k == 19 {
			tot = 1
		}
		if x == 0x7d || x == 0x7e {
			x = 0
		}
		pd, err := protocol.NewJT808PacketCodec().Decode(lib.Frame(lib.Frag(0x0200, v19, ph, 7, tot, idx, []byte{1, 1})))
		v.Assert(err == nil, "fragment")
		v.Catch(func() { protocol.NewJT808MsgProcessor().Process(lib.Ctx(s), pd) })
	}
}

type prey struct {
	st     lib.State
	ring   any
	param  *model.DeviceParams
	val    any
	ph     string
	s      *model.Session
	c      *lib.Conn
	shared bool
}

// setup makes a device B in some state, with parameters and a half-received fragmented report.
func setup(v19 bool, ph string, state int) *prey {
	s, c := lib.NewSession("prey")
	lib.Ready(s, v19, ph, lib.PlateB, state)
	if state == 1 {
		v.Assert(lib.Loc(s, v19, ph, 3, 21000000) == nil, "setup-loc")
	}
	_, err := lib.Do(s, lib.Msg(0x8103, v19, ph, 3, []byte{1, 0, 0, 0, 1, 4, 0, 0, 0, 77}))
	v.Assert(err == nil, "setup-param")
	out, err := lib.Push(s, c, lib.Frag(0x0200, v19, ph, 4, 2, 1, lib.Body(lib.KLoc, v19, "", "", 3)[:9]))
	v.Assert(err == nil && len(out) == 1, "setup-fragment")
	p := &prey{ph: ph, s: s, c: c}
	p.st = lib.Of(ph)
	p.ring = storage.GetGeoCache().GetGeoRingByPhone(ph).Oldest()
	p.param, p.val = params(ph)
	return p
}

func params(ph string) (*model.DeviceParams, any) {
	d, err := storage.GetDeviceParamsCache().GetDeviceParamsByPhone(ph)
	if err != nil || len(d.Params) != 1 {
		return d, nil
	}
	return d, d.Params[0].ParamValue
}

func (p *prey) intact() {
	v.Assert(lib.Of(p.ph) == p.st, "other-changed")
	v.Assert(storage.GetGeoCache().GetGeoRingByPhone(p.ph).Oldest() == p.ring, "history-changed")
	d, val := params(p.ph)
	v.Assert((d == nil) == (p.param == nil) && val == p.val, "parameters-changed")
	v.Assert(p.shared || p.c.Closed == 0, "connection-closed")
	s, err := storage.GetSession(p.s.ID)
	v.Assert(err == nil && s == p.s, "session-lost")
}

// finish: the half-received report completes, unmixed.
func (p *prey) finish(v19 bool) {
	out, err := lib.Push(p.s, p.c, lib.Frag(0x0200, v19, p.ph, 5, 2, 2, lib.Body(lib.KLoc, v19, "", "", 3)[9:]))
	v.Assert(err == nil && len(out) == 1, "fragment-lost")
	st := lib.Of(p.ph)
	v.Assert(st.HasGeo && st.Loc.Latitude == 39 && st.Loc.Longitude == 116 && st.Drive.Direction == 90, "fragment-mixed")
}

// HEach: one message of another phone.
// bound: 20 messages (all supported kinds, right and wrong ones, fragments), sender unregistered, offline, online or sleeping, prey offline, online or sleeping, both versions, on the sender's own connection or the prey's, registered there or not; a symbolic payload byte
func HEach() {
	v19 := v.Pick("v19", 2) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, _ := lib.NewSession("s1")
	code := "1"
	st, shared := v.Pick("sender", 4), v.Pick("shared", 3)
	if st > 0 && shared < 2 {
		code = lib.Ready(s, v19, a, lib.PlateA, st-1)
	}
	p := setup(v19, b, v.Pick("prey", 3))
	v.Advance(7)
	if shared > 0 {
		s = p.s
		p.shared = shared == 2
	}
	if st > 0 && shared == 2 { // both behind one connection
		code = lib.Ready(s, v19, a, lib.PlateA, st-1)
		v.Advance(7)
	}
	op(v.Pick("op", nOps), s, v19, a, lib.PlateA, code, lib.PlateB, v.U8("x"))
	p.intact()
	p.finish(v19)
	v.Reach("intact")
}

// HSymbolic: the sender's phone is any other than the prey's.
// bound: 2 symbolic digits (last and first of the significant part), 20 messages, unregistered sender
func HSymbolic() {
	v19 := v.Pick("v19", 2) == 1
	b := lib.Phone(v19, "013900000042")
	p := setup(v19, b, 1)
	a := lib.Phone(v19, "0"+v.Digits("d", 1)+"3900000"+v.Digits("e", 1)+"42")
	a = a[:len(a)-1] + v.Digits("f", 1)
	same := v.Split(v.EqStr(a, b))
	v.Assume(!same)
	v.Advance(7)
	op(v.Pick("op", nOps), p.s, v19, a, lib.PlateA, "1", lib.PlateB, 9)
	p.intact()
	p.finish(v19)
	v.Reach("intact")
}

// HLookalike: phones that differ in version padding or length only.
// bound: the 12-digit and the 20-digit form of one number, each way, 20 messages, sender registered or not
func HLookalike() {
	v19 := v.Pick("v19", 2) == 1 // of the prey
	b := lib.Phone(v19, lib.PhoneA)
	a := lib.Phone(!v19, lib.PhoneA)
	p := setup(v19, b, 1)
	s, _ := lib.NewSession("s1")
	code := "1"
	if v.Pick("registered", 2) == 1 {
		code = lib.Ready(s, !v19, a, lib.PlateA, 1)
	}
	v.Advance(7)
	op(v.Pick("op", nOps), s, !v19, a, lib.PlateA, code, lib.PlateB, 9)
	p.intact()
	p.finish(v19)
	v.Reach("intact")
}

// HHistory: sequences of messages.
// bound: 2 (thorough 3) of 20 messages from a phone, from unregistered or online
func HHistory() {
	a, b := lib.PhoneA, lib.PhoneB
	s, _ := lib.NewSession("s1")
	p := setup(false, b, 1)
	code := "1"
	if v.Pick("registered", 2) == 1 {
		code = lib.Ready(s, false, a, lib.PlateA, 1)
	}
	for i := v.Bound(2, 3); i > 0; i-- {
		v.Advance(3)
		op(v.Pick("op", nOps), s, false, a, lib.PlateA, code, lib.PlateB, 9)
		p.intact()
	}
	p.finish(false)
	v.Reach("intact")
}

// HJob: the keepalive check of one device, at any time.
// bound: sender offline, online, sleeping; silence 0..200 s; 1..3 checks in a row; the prey is in contact throughout
func HJob() {
	v19 := v.Pick("v19", 2) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, _ := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, v.Pick("sender", 3))
	v.Advance(int64(v.Int("silent", 0, 200)))
	p := setup(v19, b, 1)
	for n := 1 + v.Pick("n", 3); n > 0; n-- {
		lib.RunJob(a)
		p.intact()
	}
	p.finish(v19)
	v.Reach("intact")
}

// HConcurrent: both devices' messages are processed at the same time.
// bound: heartbeat, location, authentication, deregistration, registration of A against location or heartbeat of B, every interleaving with at most 2 preemptions
func HConcurrent() {
	a, b := lib.PhoneA, lib.PhoneB
	s, _ := lib.NewSession("s1")
	s2, _ := lib.NewSession("s2")
	k := v.Pick("op", 5)
	code := "1"
	if k != 4 {
		code = lib.Ready(s, false, a, lib.PlateA, 1)
	}
	lib.Ready(s2, false, b, lib.PlateB, 1)
	before := lib.Of(b)
	v.Advance(9)
	loc := v.Pick("prey", 2) == 1
	v.Concurrent(2, true, func() {
		op([]int{1, 9, 6, 2, 4}[k], s, false, a, lib.PlateA, code, lib.PlateB, 9)
	}, func() {
		if loc {
			v.Assert(lib.Loc(s2, false, b, 3, 21000000) == nil, "loc")
		} else {
			v.Assert(lib.Beat(s2, false, b) == nil, "beat")
		}
	})
	st := lib.Of(b)
	v.Assert(st.Last == before.Last+9000, "contact-lost")
	v.Assert(st.Status == model.DeviceStatusOnline && st.Jobs == 1 && st.Listed == 1 && st.ByPlate && st.Plate == lib.PlateB, "other-changed")
	v.Assert(st.HasGeo == loc, "location")
	v.Assert(lib.Of(a).Has == (k != 3), "own-effect")
	v.Reach("both")
}

// HCrowd: any number of other phones does not matter either.
// bound: 1100 other phones, each with a connection, a registration, an authentication, a report, parameters and a half-received message; half of them deregistering in the end
func HCrowd() {
	p := setup(false, lib.PhoneB, 1)
	n := 1100
	gone := v.Pick("gone", 2) == 1
	for i := 0; i < n; i++ {
		ph := "01370000" + lib.Num(i)
		s, c := lib.NewSession("x" + lib.Num(i))
		lib.Ready(s, false, ph, "X"+lib.Num(i), 1)
		v.Assert(lib.Loc(s, false, ph, 1, 5) == nil, "report")
		lib.Do(s, lib.Msg(0x8103, false, ph, 3, []byte{1, 0, 0, 0, 1, 4, 0, 0, 0, 7}))
		out, err := lib.Push(s, c, lib.Frag(0x0200, false, ph, 4, 2, 1, []byte{1, 1}))
		v.Assert(err == nil && len(out) == 1, "fragment")
		if gone && i%2 == 1 {
			v.Assert(lib.Dereg(s, false, ph) == nil, "dereg")
			storage.ClearSession(s.ID)
		}
	}
	p.intact()
	p.finish(false)
	v.Reach("intact")
}
