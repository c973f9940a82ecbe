package main

import (
	"context"
	"net"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HReply": HReply, "HAttributes": HAttributes, "HSilent": HSilent, "HUnknown": HUnknown, "HSequence": HSequence, "HRefused": HRefused, "HParallel": HParallel, "HWire": HWire})
}

func phone(v19 bool, p string) string {
	if v19 {
		return lib.V19(p)
	}
	return p
}

func be(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }

// request builds a request with given serial and protocol version byte.
func request(kind int, v19 bool, ph string, serial uint16, pv uint8, body []byte) []byte {
	return requestA(kind, v19, ph, serial, pv, 0, body)
}

// requestA also sets attribute bits above the length.
func requestA(kind int, v19 bool, ph string, serial uint16, pv uint8, bits uint16, body []byte) []byte {
	attr := uint16(len(body)) | bits
	if v19 {
		attr |= 0x4000
	}
	return lib.Cat(lib.HeaderBytes(lib.KindID[kind], attr, pv, ph, serial), body)
}

// expect checks one answer.
func expect(kind int, v19 bool, ph string, serial uint16, pv uint8, out [][]byte, err error, result uint8, code string) {
	v.Assert(err == nil, "error")
	v.Assert(len(out) == 1, "exactly-one-frame")
	r := lib.Parse(out[0])
	v.Assert(r.Serial == serial, "header-serial")
	v.Assert(v.EqBytes(r.Phone, lib.BCD(ph)), "phone")
	if v19 {
		v.Assert(v.And(r.Attr&0x6000 == 0x4000, r.PV == pv), "version")
	} else {
		v.Assert(r.Attr&0x6000 == 0, "version")
	}
	v.Assert(int(r.Attr&0x3ff) == len(r.Body), "length")
	switch kind {
	case lib.KReg:
		v.Assert(r.ID == 0x8100, "reply-id")
		v.Assert(len(r.Body) >= 3, "reply-body")
		v.Assert(v.And(be(r.Body) == serial, r.Body[2] == result), "answer")
		if result == 0 {
			v.Assert(string(r.Body[3:]) != "", "code-missing")
		}
	case lib.KTime:
		v.Assert(r.ID == 0x8004, "reply-id")
		t := time.Unix(v.Clock(), 0).UTC().Format("060102150405")
		v.Assert(v.EqBytes(r.Body, lib.BCD(t)), "time")
	default:
		v.Assert(r.ID == 0x8001, "reply-id")
		v.Assert(len(r.Body) == 5, "reply-body")
		v.Assert(v.And(be(r.Body) == serial, be(r.Body[2:]) == lib.KindID[kind], r.Body[4] == result), "answer")
	}
	v.Observe("reply", out[0])
	v.Reach("answered")
}

// HReply: each kind of request.
// bound: the 6 request kinds, both versions, every serial number and protocol version byte, device offline, online or sleeping before it; log level debug, info or error
func HReply() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	s, c := lib.NewSession("s1")
	res, code := lib.Register(s, v19, a, lib.PlateA)
	v.Assert(res == 0, "setup")
	if st := v.Pick("state", 3); st > 0 {
		r, err := lib.Auth(s, v19, a, code)
		v.Assert(err == nil && r == 0, "setup-auth")
		if st == 2 {
			v.Assert(lib.Loc(s, v19, a, 0, 1) == nil, "setup-sleep")
		}
	}
	kind := v.Pick("kind", 6)
	serial, pv := v.U16("serial"), uint8(1)
	if v19 && v.Pick("pvany", 2) == 1 {
		serial, pv = 7, v.U8("pv")
	}
	ph, plate := a, lib.PlateA
	if kind == lib.KReg {
		ph, plate = b, lib.PlateB
	}
	status := uint32(v.R8("status", 0, 3))
	out, err := lib.Push(s, c, request(kind, v19, ph, serial, pv, lib.Body(kind, v19, plate, code, status)))
	expect(kind, v19, ph, serial, pv, out, err, 0, "")
}

// HAttributes: encryption and reserved attribute bits of the request do not change who is answered and how.
// bound: the 6 request kinds, both versions, all combinations of the encryption bits (10..12) and the reserved bit 15
func HAttributes() {
	v19 := v.Pick("v19", 2) == 1
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	s, c := lib.NewSession("s1")
	res, code := lib.Register(s, v19, a, lib.PlateA)
	v.Assert(res == 0, "setup")
	kind := v.Pick("kind", 6)
	ph, plate := a, lib.PlateA
	if kind == lib.KReg {
		ph, plate = b, lib.PlateB
	}
	bits := uint16(v.R8("bits", 0, 0xff)&0x9c) << 8
	out, err := lib.Push(s, c, requestA(kind, v19, ph, 0x1234, 1, bits, lib.Body(kind, v19, plate, code, 1)))
	expect(kind, v19, ph, 0x1234, 1, out, err, 0, "")
}

// HRefused: refused registrations and authentications are answered too.
// bound: registration of a taken plate, a taken phone or both; authentication with 4 wrong codes; both versions, every serial number; log level debug, info or error
func HRefused() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a, b := phone(v19, lib.PhoneA), phone(v19, lib.PhoneB)
	s, c := lib.NewSession("s1")
	_, code := lib.Register(s, v19, a, lib.PlateA)
	serial := v.U16("serial")
	switch k := v.Pick("how", 4); k {
	case 0, 1, 2:
		ph := []string{b, a, a}[k]
		plate := []string{lib.PlateA, lib.PlateB, lib.PlateA}[k]
		out, err := lib.Push(s, c, request(lib.KReg, v19, ph, serial, 1, lib.RegBody(v19, "DEV1", plate)))
		v.Assert(err == nil && len(out) == 1, "exactly-one-frame")
		r := lib.Parse(out[0])
		v.Assert(r.ID == 0x8100 && len(r.Body) >= 3, "reply-id")
		v.Assert(be(r.Body) == serial, "answer-serial")
		if k == 0 {
			v.Assert(r.Body[2] == uint8(model.ResCarAlreadyRegister), "plate-taken")
		} else if k == 1 {
			v.Assert(r.Body[2] == uint8(model.ResDeviceAlreadyRegister), "phone-taken")
		} else {
			v.Assert(r.Body[2] == uint8(model.ResCarAlreadyRegister) || r.Body[2] == uint8(model.ResDeviceAlreadyRegister), "both-taken")
		}
	case 3:
		bad := []string{"", "1", code + "0", "0" + code}[v.Pick("bad", 4)]
		out, err := lib.Push(s, c, request(lib.KAuth, v19, a, serial, 1, lib.AuthBody(v19, bad, "860000000000001", "v1")))
		expect(lib.KAuth, v19, a, serial, 1, out, err, 1, "")
	}
	v.Reach("refused")
}

// HSilent: terminal replies get no answer.
// bound: 0x0001, 0x0104 (one double-word parameter), 0x1205 (0 or 1 entries), both versions, any field values; the next request on the same connection is answered; log level debug, info or error
func HSilent() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Register(s, v19, a, lib.PlateA)
	before := lib.Of(a)
	var raw []byte
	switch v.Pick("kind", 4) {
	case 0:
		raw = lib.Msg(0x0001, v19, a, 9, lib.Cat(lib.BE16(3), lib.BE16(0x8103), []byte{v.R8("res", 0, 3)}))
	case 1:
		raw = lib.Msg(0x0104, v19, a, 9, lib.Cat(lib.BE16(3), []byte{1}, lib.BE32(1), []byte{4}, v.Bytes("p", 2), []byte{0, 0}))
	case 2:
		raw = lib.Msg(0x1205, v19, a, 9, lib.Cat(lib.BE16(3), lib.BE32(0)))
	case 3:
		raw = lib.Msg(0x1205, v19, a, 9, lib.Cat(lib.BE16(3), lib.BE32(1), []byte{1}, lib.BCD("230102030405230102030406"), make([]byte, 8), []byte{0, 0, 0}, lib.BE32(5)))
	}
	out, err := lib.Push(s, c, raw)
	v.Assert(err == nil, "error")
	v.Assert(len(out) == 0, "unexpected-answer")
	v.Assert(lib.Of(a) == before, "state-changed")
	out, err = lib.Push(s, c, request(lib.KBeat, v19, a, 5, 1, nil))
	expect(lib.KBeat, v19, a, 5, 1, out, err, 0, "")
}

var known = []uint16{1, 2, 3, 4, 0x100, 0x102, 0x104, 0x200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205}

// HUnknown: unsupported messages get no answer and change nothing.
// bound: every message id outside the supported ones, 0..3 body bytes, both versions; the next request is answered
func HUnknown() {
	v19 := v.Pick("v19", 2) == 1
	a := phone(v19, lib.PhoneA)
	s, _ := lib.NewSession("s1")
	lib.Register(s, v19, a, lib.PlateA)
	before := lib.Of(a)
	id := v.U16("id")
	for _, k := range known {
		v.Assume(id != k)
	}
	pd, err := lib.Do(s, lib.Msg(id, v19, a, v.U16("serial"), v.Bytes("body", v.Pick("n", 4))))
	v.Assert(pd == nil || pd.Outgoing == nil || err != nil, "answered")
	v.Assert(lib.Of(a) == before, "state-changed")
	v.Assert(lib.Beat(s, v19, a) == nil, "next")
	v.Reach("ignored")
}

// HSequence: answers come one per request, in order, also when several requests share a read.
// bound: every sequence of 2 (thorough 3) of heartbeat, authentication, location, time query, deregistration + terminal reply, both versions, in one chunk; symbolic low serial byte
func HSequence() {
	v19 := v.Pick("v19", 2) == 1
	a := phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	_, code := lib.Register(s, v19, a, lib.PlateA)
	n := v.Bound(2, 3)
	kinds := []int{lib.KBeat, lib.KAuth, lib.KLoc, lib.KTime, -1, lib.KDereg}
	var stream []byte
	var ks []int
	base := uint16(v.R8("serial", 0x20, 0x70))
	for i := 0; i < n; i++ {
		m := len(kinds)
		if i < n-1 {
			m-- // deregistration only as the last
		}
		k := kinds[v.Pick("kind", m)]
		ks = append(ks, k)
		if k < 0 {
			stream = lib.Cat(stream, lib.Frame(lib.Msg(0x0001, v19, a, base+uint16(i), lib.Cat(lib.BE16(3), lib.BE16(0x8103), []byte{0}))))
			continue
		}
		stream = lib.Cat(stream, lib.Frame(request(k, v19, a, base+uint16(i), 1, lib.Body(k, v19, lib.PlateA, code, 3))))
	}
	c.Chunks = [][]byte{stream}
	p := pipeline(c)
	for i, k := range ks {
		had := len(c.Out)
		err := p(lib.Ctx(s))
		if k < 0 {
			v.Assert(err == nil && len(c.Out) == had, "unexpected-answer")
			continue
		}
		expect(k, v19, a, base+uint16(i), 1, c.Out[had:], err, 0, "")
	}
	v.Assert(p(lib.Ctx(s)) != nil, "end-not-reported")
	v.Reach("done")
}

func pipeline(c *lib.Conn) func(context.Context) error {
	return protocol.NewPipeline(c).ProcessConnRead
}

// HParallel: two terminals on two connections at the same time each get their own answer.
// bound: 2 registered devices of either version, heartbeat, time query, location report or authentication each, every interleaving at memory-access level with at most 2 preemptions
func HParallel() {
	ks := []int{lib.KBeat, lib.KTime, lib.KLoc, lib.KAuth}
	k1 := v.Pick("k1", 4)
	k := [2]int{ks[k1], ks[k1+v.Pick("k2", 4-k1)]}
	v19 := [2]bool{false, v.Pick("v19", 2) == 1}
	ph := [2]string{lib.PhoneA, phone(v19[1], lib.PhoneB)}
	pl := [2]string{lib.PlateA, lib.PlateB}
	var ss [2]*model.Session
	var cs [2]*lib.Conn
	var code [2]string
	for i := range k {
		ss[i], cs[i] = lib.NewSession("s" + pl[i])
		code[i] = lib.Ready(ss[i], v19[i], ph[i], pl[i], 0)
	}
	lib.AllJobs()
	var errs [2]error
	run := func(i int) func() {
		cs[i].Chunks = [][]byte{lib.Frame(request(k[i], v19[i], ph[i], uint16(0x1201+i), 1, lib.Body(k[i], v19[i], pl[i], code[i], 3)))}
		return func() { errs[i] = pipeline(cs[i])(lib.Ctx(ss[i])) }
	}
	v.Concurrent(2, true, run(0), run(1))
	for i := range k {
		expect(k[i], v19[i], ph[i], uint16(0x1201+i), 1, cs[i].Out, errs[i], 0, "")
	}
	v.Reach("done")
}

// HWire: on a connection of the running server, however the bytes of several requests are split over reads.
// bound: a registration and then 2..3 of heartbeat, location report, server-time query, terminal reply (no answer) with 1 symbolic serial byte each, in one piece, cut once (every position), or byte by byte; the registration in the same piece or before
func HWire() {
	l := &lib.Listener{}
	v.ListenHook = func(_, addr string) (net.Listener, error) { return l, nil }
	serv := server.NewTCPServer()
	v.Assert(serv.Listen("127.0.0.1:0") == nil, "listen")
	v.Go(serv.Start)
	c := &lib.Conn{Name: "s1", Hold: true}
	l.Q = append(l.Q, c)
	v.Quiesce()
	settle := func() {
		for i := 0; i < 8; i++ {
			v.Quiesce()
			v.Wake()
		}
		v.Quiesce()
	}
	a := lib.PhoneA
	all := lib.Frame(request(lib.KReg, false, a, 0x11, 0, lib.RegBody(false, "DEV1", lib.PlateA)))
	kinds, serials := []int{lib.KReg}, []uint16{0x11}
	if v.Pick("before", 2) == 1 {
		c.Chunks = append(c.Chunks, all)
		all = nil
		settle()
	}
	ks := []int{lib.KBeat, lib.KLoc, lib.KTime, -1}
	first := v.Pick("first", 4)
	n := 2 + v.Pick("n", v.Bound(1, 2))
	for i := 0; i < n; i++ {
		k := ks[(first+i)%4]
		if k < 0 {
			all = lib.Cat(all, lib.Frame(lib.Msg(0x0001, false, a, 5, []byte{0, 1, 0x81, 4, 0})))
			continue
		}
		sn := 0x2000 | uint16(v.R8("sn", 0x10, 0x40))
		var body []byte
		if k == lib.KLoc {
			body = lib.LocBody(0, 1, 2, 3, 4, 5, 6, "230102030405")
		}
		all = lib.Cat(all, lib.Frame(request(k, false, a, sn, 0, body)))
		kinds, serials = append(kinds, k), append(serials, sn)
	}
	switch v.Pick("cut", 3) {
	case 0:
		c.Chunks = append(c.Chunks, all)
	case 1:
		k := 1 + v.Pick("at", len(all)-1)
		c.Chunks = append(c.Chunks, all[:k], all[k:])
	case 2:
		for i := range all {
			c.Chunks = append(c.Chunks, all[i:i+1])
		}
	}
	settle()
	v.Assert(len(c.Out) == len(kinds), "exactly-one-frame")
	for i, k := range kinds {
		expect(k, false, a, serials[i], 0, c.Out[i:i+1], nil, 0, "")
	}
	v.Assert(c.Closed == 0, "closed")
}
