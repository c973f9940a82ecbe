package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HCrowd": HCrowd, "HWhole": HWhole, "HConcat": HConcat, "HLocation": HLocation, "HSymLoc": HSymLoc, "HMany": HMany, "HInterleaved": HInterleaved, "HAfresh": HAfresh, "HBetween": HBetween, "HAuth": HAuth, "HNoReply": HNoReply, "HTwoDevices": HTwoDevices, "HConcurrent": HConcurrent, "HGoneSession": HGoneSession, "HBig": HBig, "HHuge": HHuge, "HStream": HStream})
}

// ids of the messages a registered terminal may send.
var ids = []uint16{0x0001, 0x0002, 0x0003, 0x0004, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205}

func decode(raw []byte) *model.PacketData {
	pd, err := protocol.NewJT808PacketCodec().Decode(lib.Frame(raw))
	v.Assert(err == nil && pd != nil, "fragment-refused")
	return pd
}

// ack: exactly one general reply naming serial and id.
func ack(out [][]byte, err error, v19 bool, phone string, serial, id uint16) {
	v.Assert(err == nil, "fragment-error")
	v.Assert(len(out) == 1, "acknowledgements")
	r := lib.Parse(out[0])
	v.Assert(r.ID == 0x8001, "ack-id")
	v.Assert(v.EqBytes(r.Phone, lib.BCD(phone)), "ack-phone")
	v.Assert(v.And(r.Attr&0x2000 == 0, (r.Attr&0x4000 != 0) == v19, r.Attr&0x3ff == 5), "ack-attr")
	v.Assert(v.EqBytes(r.Body, lib.Cat(lib.BE16(serial), lib.BE16(id), []byte{0})), "ack-body")
}

// HConcat: what the codec hands on.
// bound: 1..4 fragments of 0..2 symbolic bytes each, 9 message ids, both versions, symbolic serial number of the last
func HConcat() {
	v19 := v.Pick("v19", 2) == 1
	id := ids[v.Pick("id", v.Bound(3, len(ids)))*v.Bound(3, 1)]
	n := 1 + v.Pick("n", v.Bound(3, 4))
	a := lib.Phone(v19, lib.PhoneA)
	var whole []byte
	for i := 1; i <= n; i++ {
		body := v.Bytes("b", v.Pick("len", 3))
		for _, b := range body {
			v.Assume(v.Not(lib.IsSpecial(b)))
		}
		whole = lib.Cat(whole, body)
		serial := uint16(0x1100 + i)
		pd := decode(lib.Frag(id, v19, a, serial, uint16(n), uint16(i), body))
		v.Assert(pd.Header.MsgID == id && pd.Header.SerialNumber == serial && pd.Header.PhoneNumber == a, "header")
		if i < n {
			v.Assert(!pd.SegCompleted && pd.Header.IsFragmented(), "complete-too-early")
		} else {
			v.Assert(pd.SegCompleted, "not-complete")
			v.Assert(v.EqBytes(pd.Body, whole), "body")
			v.Assert(int(pd.Header.Attr.BodyLength) == len(whole), "length")
		}
	}
	v.Reach("complete")
}

// HLocation: a location report in fragments through the read pipeline.
// bound: 2..3 fragments, every cut, both versions, concrete report; 0 s, 5 s, 1 h or 28 h between fragments
func HLocation() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	body := lib.LocBody(0, 3, 39000000, 116000000, 50, 600, 90, "230102030405")
	n := 2 + v.Pick("three", 2)
	cuts := []int{0, v.Pick("cut", len(body)+1), len(body)}
	if n == 3 {
		cuts = []int{0, cuts[1], cuts[1] + v.Pick("cut2", (len(body)-cuts[1])/5+1)*5, len(body)}
	}
	gap := []int64{0, 5, 3600, 100000}[v.Pick("gap", 4)]
	for i := 0; i < n; i++ {
		v.Advance(gap)
		before := lib.Of(a)
		out, err := lib.Push(s, c, lib.Frag(0x0200, v19, a, uint16(0x0201+i), uint16(n), uint16(i+1), body[cuts[i]:cuts[i+1]]))
		ack(out, err, v19, a, uint16(0x0201+i), 0x0200)
		if i < n-1 {
			v.Assert(lib.Of(a) == before, "changed-too-early")
		}
	}
	st := lib.Of(a)
	v.Assert(st.HasGeo && st.Loc.Latitude == 39 && st.Loc.Longitude == 116 && st.Loc.Altitude == 50 && st.Drive.Speed == 60 && st.Drive.Direction == 90 && st.Geo.LocationStatus == 1, "location")
	v.Reach("processed")
}

// HSymLoc: a location report with symbolic content in two fragments.
// bound: 2 fragments cut inside or at the fields, symbolic low bytes of status, altitude, direction and of the serial numbers
func HSymLoc() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	st, alt, dir := v.U8("st"), v.U8("alt"), v.U8("dir")
	sn := v.U8("serial")
	for _, b := range []byte{st, alt, dir, sn} {
		v.Assume(v.Not(lib.IsSpecial(b)))
	}
	body := lib.LocBody(0, uint32(st), 39000000, 116000000, 0x100|uint16(alt), 600, 0x100|uint16(dir), "230102030405")
	cut := []int{0, 6, 7, 8, 17, 18, 21, 28}[v.Pick("cut", 8)]
	out, err := lib.Push(s, c, lib.Frag(0x0200, v19, a, 0x0300|uint16(sn), 2, 1, body[:cut]))
	ack(out, err, v19, a, 0x0300|uint16(sn), 0x0200)
	out, err = lib.Push(s, c, lib.Frag(0x0200, v19, a, 0x0401, 2, 2, body[cut:]))
	ack(out, err, v19, a, 0x0401, 0x0200)
	g := lib.Of(a)
	v.Assert(g.HasGeo, "no-location")
	v.Assert(v.And(g.Loc.Altitude == 0x100|uint16(alt), g.Drive.Direction == 0x100|uint16(dir), g.Geo.ACCStatus == st&1, g.Geo.LatitudeType == st>>2&1), "location")
	v.Reach("processed")
}

// HMany: many fragments.
// bound: totals 255, 256, 257, 300 and 600, one or no byte per fragment
func HMany() {
	n := []int{255, 256, 257, 300, 600}[v.Pick("n", 5)]
	var whole []byte
	for i := 1; i <= n; i++ {
		body := []byte{byte(i) & 0x3f}[:i%2]
		whole = append(whole, body...)
		pd := decode(lib.Frag(0x1205, false, lib.PhoneA, uint16(i), uint16(n), uint16(i), body))
		v.Assert(pd.SegCompleted == (i == n), "completion")
		if i == n {
			v.Assert(v.EqBytes(pd.Body, whole), "body")
		}
	}
	v.Reach("many")
}

type stream struct {
	id    uint16
	phone string
	n     int
	next  int
	whole []byte
}

// HInterleaved: fragments of two messages in any order.
// bound: 2+2 and 3+2 fragments (quick), 3+3 (thorough), of two devices or of two message kinds of one device (0x0104 with 0x0102, 0x1205, 0x0200; 0x0200 with 0x0102), 2 equal symbolic bytes each (so that the checksum stays concrete), all interleavings, the codec shared
func HInterleaved() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	pairs := [][2]stream{
		{{id: 0x0104, phone: a}, {id: 0x0104, phone: lib.Phone(v19, lib.PhoneB)}},
		{{id: 0x0104, phone: a}, {id: 0x1205, phone: a}},
		{{id: 0x0104, phone: a}, {id: 0x0102, phone: a}},
		{{id: 0x0104, phone: a}, {id: 0x0200, phone: a}},
		{{id: 0x0200, phone: a}, {id: 0x0102, phone: a}},
		{{id: 0x0100, phone: a}, {id: 0x0200, phone: a}},
		{{id: 0x1205, phone: a}, {id: 0x0200, phone: lib.Phone(v19, "113900000001")}},
		{{id: 0x0102, phone: a}, {id: 0x0102, phone: lib.Phone(v19, "013900000010")}},
	}
	p := pairs[v.Pick("pair", len(pairs))]
	p[0].n = 2 + v.Pick("more", 2)
	p[1].n = 2
	if v.Thorough() {
		p[1].n = 3
	}
	for p[0].next < p[0].n || p[1].next < p[1].n {
		k := 0
		if p[0].next == p[0].n {
			k = 1
		} else if p[1].next < p[1].n {
			k = v.Pick("which", 2)
		}
		st := &p[k]
		st.next++
		b := v.R8("b", 0, 0x7c)
		st.whole = append(st.whole, b, b)
		pd := decode(lib.Frag(st.id, v19, st.phone, uint16(st.next), uint16(st.n), uint16(st.next), []byte{b, b}))
		v.Assert(pd.SegCompleted == (st.next == st.n), "completion")
		if st.next == st.n {
			v.Assert(v.EqBytes(pd.Body, st.whole), "mixed")
		}
	}
	v.Reach("both")
}

// HAfresh: a later message of the same kind starts afresh, whether the earlier one was completed or abandoned.
// bound: an earlier message of 2..3 fragments stopped after 1..3 of them, then 1..2 later messages of 1..3 fragments, 2 equal symbolic bytes each (so that the checksum stays concrete), ids 0x0104 and 0x0200
func HAfresh() {
	id := []uint16{0x0104, 0x0200}[v.Pick("id", 2)]
	serial := uint16(0)
	send := func(n, upto int) {
		var whole []byte
		for i := 1; i <= upto; i++ {
			serial++
			b := v.R8("b", 0, 0x7c)
			whole = append(whole, b, b)
			pd := decode(lib.Frag(id, false, lib.PhoneA, serial, uint16(n), uint16(i), []byte{b, b}))
			v.Assert(pd.SegCompleted == (i == n), "completion")
			if i == n {
				v.Assert(v.EqBytes(pd.Body, whole), "stale-data")
			}
		}
	}
	n := 2 + v.Pick("n", 2)
	send(n, 1+v.Pick("upto", n))
	for k := 1 + v.Pick("later", 2); k > 0; k-- {
		m := 1 + v.Pick("m", 3)
		send(m, m)
	}
	v.Reach("afresh")
}

// HBetween: whole messages arriving between the fragments are handled on their own and do not disturb them.
// bound: 3 fragments of an authentication (symbolic software version byte on 2019); heartbeat, location report, time query, another device's heartbeat or a whole message of the same kind after the 1st and 2nd
func HBetween() {
	v19 := v.Pick("v19", 2) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, c := lib.NewSession("s1")
	s2, c2 := lib.NewSession("s2")
	lib.Ready(s2, v19, b, lib.PlateB, 1)
	code := lib.Ready(s, v19, a, lib.PlateA, 0)
	body := lib.AuthBody(v19, code, "860000000000001", "v1.0")
	cuts := []int{0, 3, 7, len(body)}
	for i := 0; i < 3; i++ {
		out, err := lib.Push(s, c, lib.Frag(0x0102, v19, a, uint16(0x21+i), 3, uint16(i+1), body[cuts[i]:cuts[i+1]]))
		ack(out, err, v19, a, uint16(0x21+i), 0x0102)
		if i == 2 {
			break
		}
		var raw []byte
		ses, con, ph := s, c, a
		k := v.Pick("between", 6)
		id := uint16(0x0002)
		switch k {
		case 0:
			continue
		case 1:
		case 2:
			id, raw = 0x0200, lib.Body(lib.KLoc, v19, "", "", 1)
		case 3:
			id = 0x0004
		case 4:
			ses, con, ph = s2, c2, b
		case 5:
			id, raw = 0x0102, body
		}
		out, err = lib.Push(ses, con, lib.Msg(id, v19, ph, 0x31, raw))
		if id != 0x0004 {
			ack(out, err, v19, ph, 0x31, id)
		} else {
			v.Assert(err == nil && len(out) == 1, "time-answer")
		}
	}
	v.Assert(lib.Of(a).Status == model.DeviceStatusOnline && lib.Of(a).AuthCode == code, "not-authenticated")
	v.Reach("authenticated")
}

// HAuth: until the last fragment nothing happens, then the authentication counts.
// bound: 2 fragments, every cut, right code or one symbolic wrong byte; both versions; log level debug, info or error
func HAuth() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	code := lib.Ready(s, v19, a, lib.PlateA, 0)
	right := v.Pick("right", 2) == 1
	sent := code
	if !right {
		x := v.R8("x", '0', '9')
		v.Assume(x != code[0])
		sent = string([]byte{x}) + code[1:]
	}
	body := lib.AuthBody(v19, sent, "860000000000001", "v1.0")
	cut := v.Pick("cut", len(body)+1)
	before := lib.Of(a)
	out, err := lib.Push(s, c, lib.Frag(0x0102, v19, a, 1, 2, 1, body[:cut]))
	ack(out, err, v19, a, 1, 0x0102)
	v.Assert(lib.Of(a) == before, "changed-too-early")
	out, err = lib.Push(s, c, lib.Frag(0x0102, v19, a, 2, 2, 2, body[cut:]))
	st := lib.Of(a)
	if right {
		ack(out, err, v19, a, 2, 0x0102)
		v.Assert(st.Status == model.DeviceStatusOnline && st.AuthCode == code, "not-online")
		if v19 {
			v.Assert(st.IMEI == "860000000000001" && st.SW == "v1.0", "fields")
		}
		v.Reach("right")
	} else {
		v.Assert(err == nil && len(out) == 1, "wrong-code-answer")
		r := lib.Parse(out[0])
		v.Assert(r.ID == 0x8001 && v.EqBytes(r.Body, []byte{0, 2, 1, 2, 1}), "wrong-code-accepted")
		v.Assert(!st.Has, "not-removed")
		v.Reach("wrong")
	}
}

// HNoReply: messages without an answer get acknowledgements for all fragments but the last, and none for it.
// bound: 0x0104 with one 4-byte parameter and 0x1205 with no media, in 2..3 fragments at every cut; log level debug, info or error
func HNoReply() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	id := []uint16{0x0104, 0x1205}[v.Pick("id", 2)]
	body := []byte{0, 9, 1, 0, 0, 0, 1, 4, 0, 0, 0, v.R8("p", 0, 0x7c)}
	if id == 0x1205 {
		body = []byte{0, 9, 0, 0, 0, 0}
	}
	cut := v.Pick("cut", len(body)+1)
	cut2 := cut + v.Pick("cut2", 2)
	if cut2 > len(body) {
		cut2 = len(body)
	}
	parts := [][]byte{body[:cut], body[cut:]}
	if cut2 > cut {
		parts = [][]byte{body[:cut], body[cut:cut2], body[cut2:]}
	}
	before := lib.Of(a)
	for i, p := range parts {
		out, err := lib.Push(s, c, lib.Frag(id, v19, a, uint16(0x11+i), uint16(len(parts)), uint16(i+1), p))
		if i < len(parts)-1 {
			ack(out, err, v19, a, uint16(0x11+i), id)
		} else {
			v.Assert(err == nil, "whole-refused")
			v.Assert(len(out) == 0, "answered")
		}
	}
	v.Assert(lib.Of(a) == before, "changed")
	v.Reach("no-reply")
}

// HTwoDevices: location reports of two devices on two connections, all interleavings.
// bound: 2+2 fragments, distinct contents
func HTwoDevices() {
	v19 := v.Pick("v19", 2) == 1
	ph := []string{lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)}
	pl := []string{lib.PlateA, lib.PlateB}
	var ss []*model.Session
	var cs []*lib.Conn
	for i := range ph {
		s, c := lib.NewSession("s" + pl[i])
		ss, cs = append(ss, s), append(cs, c)
		lib.Ready(s, v19, ph[i], pl[i], 1)
	}
	next := []int{0, 0}
	for next[0] < 2 || next[1] < 2 {
		k := 0
		if next[0] == 2 {
			k = 1
		} else if next[1] < 2 {
			k = v.Pick("which", 2)
		}
		body := lib.LocBody(0, 1, uint32(k+1)*1000000, uint32(k+5)*1000000, 50, 600, 90, "230102030405")
		part := body[:10]
		if next[k] == 1 {
			part = body[10:]
		}
		next[k]++
		other := lib.Of(ph[1-k])
		sn := uint16(16*(k+1) + next[k])
		out, err := lib.Push(ss[k], cs[k], lib.Frag(0x0200, v19, ph[k], sn, 2, uint16(next[k]), part))
		ack(out, err, v19, ph[k], sn, 0x0200)
		v.Assert(lib.Of(ph[1-k]) == other, "other-changed")
		g := lib.Of(ph[k])
		v.Assert(g.HasGeo == (next[k] == 2), "processed-when")
		if g.HasGeo {
			v.Assert(g.Loc.Latitude == float64(k+1) && g.Loc.Longitude == float64(k+5), "mixed")
		}
	}
	v.Reach("both")
}

// HConcurrent: two connections deliver fragments at the same time.
// bound: 2 devices, 2 fragments each, every interleaving with at most 2 preemptions
func HConcurrent() {
	ph := []string{lib.PhoneA, lib.PhoneB}
	got := make([][]byte, 2)
	done := make([]int, 2)
	run := func(k int) func() {
		return func() {
			for i := 1; i <= 2; i++ {
				pd, err := protocol.NewJT808PacketCodec().Decode(lib.Frame(lib.Frag(0x0104, false, ph[k], uint16(i), 2, uint16(i), []byte{byte(16*(k+1) + i)})))
				v.Assert(err == nil, "fragment-refused")
				if pd.SegCompleted {
					done[k]++
					got[k] = pd.Body
				}
			}
		}
	}
	v.Concurrent(2, true, run(0), run(1))
	for k := range ph {
		v.Assert(done[k] == 1 && v.EqBytes(got[k], []byte{byte(16*(k+1) + 1), byte(16*(k+1) + 2)}), "mixed")
	}
	v.Reach("both")
}

// HGoneSession: a fragment of a device whose session is gone is an error, not a crash.
// bound: both versions
func HGoneSession() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s := &model.Session{ID: "x", Conn: &lib.Conn{Name: "x"}}
	r, _ := lib.Register(s, v19, a, lib.PlateA)
	v.Assert(r == model.ResSuccess, "setup")
	s2, c2 := lib.NewSession("s2")
	out, err := lib.Push(s2, c2, lib.Frag(0x0200, v19, a, 1, 2, 1, []byte{1}))
	v.Assert(err != nil && len(out) == 0, "acknowledged")
	v.Reach("gone")
}

// HBig: the whole may be longer than any single message can be.
// bound: authentications of 1023, 1024, 1025, 1024+code, 2048+code, 3000, 4096, 4097, 8192+code, 33000 and 65535 bytes in fragments of 300, 512 or 1000 bytes (of 1023 from 8192 on) whose first bytes are the issued code, 2013; the codec's view of 0x1205 bodies of the same lengths
func HBig() {
	a := lib.PhoneA
	s, c := lib.NewSession("s1")
	code := lib.Ready(s, false, a, lib.PlateA, 0)
	n := []int{1023, 1024, 1025, 1024 + len(code), 2048 + len(code), 3000, 4096, 4097, 8192 + len(code), 33000, 65535}[v.Pick("n", 11)]
	body := make([]byte, n)
	for i := range body {
		body[i] = 'a' + byte(i%23)
	}
	copy(body, code)
	part := 1023
	if n < 8000 {
		part = []int{300, 512, 1000}[v.Pick("part", 3)]
	}
	total := (n + part - 1) / part
	id := []uint16{0x0102, 0x1205}[v.Pick("id", 2)]
	for i := 0; i < total; i++ {
		to := (i + 1) * part
		if to > n {
			to = n
		}
		raw := lib.Frag(id, false, a, uint16(0x100+i), uint16(total), uint16(i+1), body[i*part:to])
		if id == 0x1205 {
			pd := decode(raw)
			v.Assert(pd.SegCompleted == (i == total-1), "completion")
			if pd.SegCompleted {
				v.Assert(v.EqBytes(pd.Body, body), "body")
				v.Assert(int(pd.Header.Attr.BodyLength) == n, "length")
			}
			continue
		}
		out, err := lib.Push(s, c, raw)
		if i < total-1 {
			ack(out, err, false, a, uint16(0x100+i), id)
			continue
		}
		v.Assert(err == nil && len(out) == 1, "answer")
		r := lib.Parse(out[0])
		v.Assert(r.ID == 0x8001 && len(r.Body) == 5 && r.Body[4] == 1, "wrong-code-accepted")
		v.Assert(!lib.Of(a).Has, "not-removed")
	}
	v.Reach("big")
}

// HHuge: the whole may be longer than the 16-bit length of a header can tell.
// bound: one 2013 authentication of 65536+code bytes in fragments of 1023 bytes whose first bytes are the issued code
func HHuge() {
	a := lib.PhoneA
	s, c := lib.NewSession("s1")
	code := lib.Ready(s, false, a, lib.PlateA, 0)
	n, part := 65536+len(code), 1023
	body := make([]byte, n)
	for i := range body {
		body[i] = 'a' + byte(i%23)
	}
	copy(body, code)
	total := (n + part - 1) / part
	for i := 0; i < total; i++ {
		to := (i + 1) * part
		if to > n {
			to = n
		}
		out, err := lib.Push(s, c, lib.Frag(0x0102, false, a, uint16(0x100+i), uint16(total), uint16(i+1), body[i*part:to]))
		if i < total-1 {
			ack(out, err, false, a, uint16(0x100+i), 0x0102)
			continue
		}
		v.Assert(err == nil && len(out) == 1, "answer")
		r := lib.Parse(out[0])
		v.Assert(r.ID == 0x8001 && len(r.Body) == 5 && r.Body[4] == 1, "prefix-of-64k-accepted")
	}
	v.Reach("huge")
}

// HWhole: every byte of a whole longer than 64 KB arrives, in order.
// bound: 0x1205, 0x0102 (2013) wholes of 65535, 65536, 66000 and 140000 bytes in fragments of 1023 bytes, one symbolic byte at 4 positions
func HWhole() {
	a := lib.PhoneA
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 0)
	n := []int{65535, 65536, 66000, 140000}[v.Pick("n", 4)]
	part := 1023
	body := make([]byte, n)
	for i := range body {
		body[i] = 'a' + byte(i%23)
	}
	body[[]int{0, 65534, n / 2, n - 1}[v.Pick("at", 4)]] = v.R8("x", '0', '9')
	id := []uint16{0x0102, 0x1205}[v.Pick("id", 2)]
	total := (n + part - 1) / part
	for i := 0; i < total; i++ {
		to := (i + 1) * part
		if to > n {
			to = n
		}
		pd := decode(lib.Frag(id, false, a, uint16(0x100+i), uint16(total), uint16(i+1), body[i*part:to]))
		v.Assert(pd.SegCompleted == (i == total-1), "completion")
		if pd.SegCompleted {
			v.Assert(len(pd.Body) == n && v.EqBytes(pd.Body, body), "body")
			v.Reach("whole")
		}
	}
}

// HStream: all fragments wait in one read buffer.
// bound: a location report with 2 symbolic bytes in 2..3 fragments of equal or different length (every cut), delivered in one chunk or as chunks of 7 bytes, with or without a heartbeat and a report of another device in between on the same connection, 0x7d and 0x7e in the fragment bodies
func HStream() {
	a, b := lib.PhoneA, lib.PhoneB
	s, c := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	lib.Ready(s, false, b, lib.PlateB, 1)
	alt, dir := v.R8("alt", 0x70, 0x7c), v.R8("dir", 1, 0x3f)
	body := lib.LocBody(0x7d007e01, 3, 39000000, 116000000, 0x7e00|uint16(alt), 600, 0x100|uint16(dir), "230102030405")
	n := 2 + v.Pick("three", 2)
	cut := 1 + v.Pick("cut", len(body)-2)
	cuts := []int{0, cut, len(body)}
	if n == 3 {
		cuts = []int{0, cut, (cut + len(body)) / 2, len(body)}
	}
	between := v.Pick("between", 2) == 1
	var stream []byte
	for i := 0; i < n; i++ {
		stream = lib.Cat(stream, lib.Frame(lib.Frag(0x0200, false, a, uint16(0x0201+i), uint16(n), uint16(i+1), body[cuts[i]:cuts[i+1]])))
		if between && i == 0 {
			stream = lib.Cat(stream, lib.Frame(lib.Msg(0x0002, false, a, 0x301, nil)), lib.Frame(lib.Msg(0x0200, false, b, 0x302, lib.LocBody(0, 1, 1000000, 2000000, 50, 600, 90, "230102030405"))))
		}
	}
	if v.Pick("chunk", 2) == 0 {
		c.Chunks = [][]byte{stream}
	} else {
		for len(stream) > 7 {
			c.Chunks, stream = append(c.Chunks, stream[:7]), stream[7:]
		}
		c.Chunks = append(c.Chunks, stream)
	}
	p := protocol.NewPipeline(c)
	for i := 0; i < n; i++ {
		had := len(c.Out)
		err := p.ProcessConnRead(lib.Ctx(s))
		ack(c.Out[had:], err, false, a, uint16(0x0201+i), 0x0200)
		if between && i == 0 {
			had = len(c.Out)
			err = p.ProcessConnRead(lib.Ctx(s))
			ack(c.Out[had:], err, false, a, 0x301, 0x0002)
			had = len(c.Out)
			err = p.ProcessConnRead(lib.Ctx(s))
			ack(c.Out[had:], err, false, b, 0x302, 0x0200)
		}
	}
	g := lib.Of(a)
	v.Assert(g.HasGeo, "no-location")
	v.Assert(v.And(g.Loc.Altitude == 0x7e00|uint16(alt), g.Drive.Direction == 0x100|uint16(dir), g.Loc.Latitude == 39, g.Loc.Longitude == 116), "location")
	v.Reach("processed")
}

// HCrowd: any number of messages may be half received at the same time.
// bound: 1100 phones, each with one 3-fragment message half received before the next one starts; ids 0x0200 and 0x1205
func HCrowd() {
	n := 1100
	id := []uint16{0x0200, 0x1205}[v.Pick("id", 2)]
	for k := uint16(1); k <= 3; k++ {
		for i := 0; i < n; i++ {
			pd := decode(lib.Frag(id, false, "01390000"+lib.Num(i), k, 3, k, []byte{byte(k), byte(i%97 + 1)}))
			v.Assert(pd.SegCompleted == (k == 3), "completion")
			if k == 3 {
				x := byte(i%97 + 1)
				v.Assert(v.EqBytes(pd.Body, []byte{1, x, 2, x, 3, x}), "body")
			}
		}
	}
	v.Reach("all")
}
