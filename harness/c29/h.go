package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HOrder": HOrder, "HReport": HReport, "HAuth": HAuth, "HBodyless": HBodyless, "HRefused": HRefused, "HTwoKinds": HTwoKinds})
}

// whole reports whether the arrivals idx/total since some first fragment contain the
// parts 1..n of one total in order, ending with the last arrival, and which arrivals they are.
func whole(idx, total []uint8) (bool, []int) {
	last := len(idx) - 1
	n := total[last]
	if !v.Split(v.And(n >= 1, idx[last] == n)) {
		return false, nil
	}
	// take the parts backwards: the latest n, then the latest n-1 before it, ...
	var at []int
	want := n
	for i := last; i >= 0; i-- {
		if v.Split(v.And(idx[i] == want, total[i] == n)) {
			at = append([]int{i}, at...)
			if v.Split(want == 1) {
				return true, at
			}
			want--
		}
	}
	return false, nil
}

// HOrder: what the codec takes for a whole message.
// bound: 3 arrivals (thorough 4) of one message id, part number and total symbolic 0..3 each, one distinct body byte per arrival; both versions
func HOrder() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	k := v.Bound(3, 4)
	var idx, total []uint8
	for i := 0; i < k; i++ {
		idx, total = append(idx, v.R8("idx", 0, 3)), append(total, v.R8("total", 0, 3))
		raw := lib.Frag(0x0104, v19, a, uint16(0x1100+i), uint16(total[i]), uint16(idx[i]), []byte{byte(0xa0 + i)})
		pd, err := protocol.NewJT808PacketCodec().Decode(lib.Frame(raw))
		if err != nil || !pd.SegCompleted {
			continue
		}
		ok, _ := whole(idx, total)
		v.Assert(ok, "incomplete-taken-for-whole")
		// the parts in it are a first part and its successors, each exactly once
		n := int(total[i])
		v.Assert(len(pd.Body) == n, "parts-missing-or-repeated")
		for j, b := range pd.Body {
			p := int(b) - 0xa0
			v.Assert(p >= 0 && p <= i, "foreign-byte")
			v.Assert(v.And(int(idx[p]) == j+1, int(total[p]) == n), "part-out-of-place")
		}
		v.Reach("completed")
	}
	v.Reach("end")
}

// HReport: a location report with parts lost, repeated, swapped or from a message cut otherwise; afterwards a whole one gets through.
// bound: 2..3 parts, 3 arrivals (thorough 4) with any part number 0..n+1, totals n or n+1, 3 cuts; both versions
func HReport() {
	v19 := v.Pick("v19", v.Bound(1, 2)) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	v.Assert(lib.Loc(s, v19, a, 1, 1234) == nil, "setup-loc")
	body := lib.LocBody(0, 3, 39000000, 116000000, 50, 600, 90, "230102030405")
	n := 2 + v.Pick("three", 2)
	cuts := [][]int{{0, 14, 28}, {0, 0, 28}, {0, 28, 28}}[v.Pick("cut", 3)]
	if n == 3 {
		cuts = append(append([]int{}, cuts[:2]...), cuts[1]+(28-cuts[1])/2, 28)
	}
	var idx, total []uint8
	done := false
	for i := 0; i < v.Bound(3, 4); i++ {
		j, t := v.Pick("part", n+2), n+v.Pick("total", 2)
		idx, total = append(idx, uint8(j)), append(total, uint8(t))
		var part []byte
		if j >= 1 && j <= n {
			part = body[cuts[j-1]:cuts[j]]
		}
		v.Advance(3)
		before := lib.Of(a)
		v.Catch(func() {
			lib.Push(s, c, lib.Frag(0x0200, v19, a, uint16(0x0201+i), uint16(t), uint16(j), part))
		})
		ok, _ := whole(idx, total)
		if !ok {
			v.Assert(lib.Of(a) == before, "incomplete-acted-on")
			continue
		}
		st := lib.Of(a)
		if !done && st.Loc != before.Loc || st.Last != before.Last {
			if t == n {
				v.Assert(st.Loc.Latitude == 39 && st.Loc.Longitude == 116 && st.Loc.Altitude == 50 && st.Drive.Speed == 60 && st.Drive.Direction == 90, "mangled")
			}
			done = true
		}
	}
	// a whole one
	for j := 1; j <= n; j++ {
		out, err := lib.Push(s, c, lib.Frag(0x0200, v19, a, uint16(0x0301+j), uint16(n), uint16(j), body[cuts[j-1]:cuts[j]]))
		v.Assert(err == nil && len(out) == 1, "whole-one-refused")
	}
	st := lib.Of(a)
	v.Assert(st.Loc.Latitude == 39 && st.Drive.Direction == 90 && st.Last == v.Clock()*1000, "whole-one-lost")
	v.Reach("end")
}

// HAuth: an authentication with a part lost or repeated neither authenticates nor removes the device.
// bound: right code in 2..3 parts at every cut; one part lost, or one sent twice in a row with the next lost; both versions
func HAuth() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	code := lib.Ready(s, v19, a, lib.PlateA, v.Pick("state", 2))
	body := lib.AuthBody(v19, code, "860000000000001", "v1.0")
	n := 2 + v.Pick("three", 2)
	cut := v.Pick("cut", len(code)+1)
	cuts := []int{0, cut, len(body)}
	if n == 3 {
		cuts = []int{0, cut, cut + (len(body)-cut)/2, len(body)}
	}
	lost := 1 + v.Pick("lost", n)
	twice := v.Pick("twice", 2) == 1
	v.Advance(3)
	before := lib.Of(a)
	for j := 1; j <= n; j++ {
		if j == lost {
			continue
		}
		f := lib.Frag(0x0102, v19, a, uint16(0x0200+j), uint16(n), uint16(j), body[cuts[j-1]:cuts[j]])
		lib.Push(s, c, f)
		if twice {
			lib.Push(s, c, f)
		}
	}
	v.Assert(lib.Of(a) == before, "incomplete-acted-on")
	v.Reach("end")
}

// HBodyless: a message without a body whose first part never came.
// bound: 0x0002, 0x0003 and 0x0004, totals 2..4, any single part but the first, or two in order without the first; symbolic low serial byte; both versions
func HBodyless() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	id := []uint16{0x0002, 0x0003, 0x0004}[v.Pick("id", 3)]
	n := 2 + v.Pick("n", 3)
	from := 2 + v.Pick("from", n-1)
	sn := v.U8("sn")
	v.Assume(v.Not(lib.IsSpecial(sn)))
	v.Advance(3)
	before := lib.Of(a)
	for j := from; j <= n; j++ {
		out, _ := lib.Push(s, c, lib.Frag(id, v19, a, 0x0200|uint16(sn), uint16(n), uint16(j), nil))
		for _, o := range out {
			v.Assert(lib.Parse(o).ID != 0x8004, "answered-as-whole")
		}
	}
	v.Assert(lib.Of(a) == before, "incomplete-acted-on")
	v.Reach("end")
}

// HRefused: a part refused because its phone was not registered is not part of a later message.
// bound: location report or authentication in 2 parts, cut anywhere (location) or behind the first byte of the code; first part before, second part after the registration, or after a failed authentication and a new registration; both versions
func HRefused() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	s, c := lib.NewSession("s1")
	id, body := uint16(0x0200), lib.LocBody(0, 3, 39000000, 116000000, 50, 600, 90, "230102030405")
	cut := v.Pick("cut", 29)
	if v.Pick("again", 2) == 1 { // was registered before
		lib.Ready(s, v19, a, lib.PlateA, 1)
		v.Assert(lib.Dereg(s, v19, a) == nil, "setup-dereg")
	}
	n := len(c.Out)
	v.Catch(func() { lib.Push(s, c, lib.Frag(id, v19, a, 0x0201, 2, 1, body[:cut])) })
	v.Assert(len(c.Out) == n, "refused-but-answered")
	s2, c2 := lib.NewSession("s2")
	lib.Ready(s2, v19, a, lib.PlateA, v.Pick("state", 2))
	v.Advance(3)
	before := lib.Of(a)
	v.Catch(func() { lib.Push(s2, c2, lib.Frag(id, v19, a, 0x0202, 2, 2, body[cut:])) })
	v.Assert(lib.Of(a) == before, "refused-part-used")
	v.Reach("end")
}

// HTwoKinds: the parts of a message of another kind or device do not stand in for a lost part.
// bound: location report in 2..3 parts with part 1 or the middle one lost; parts 1..n of a terminal reply of the same device or of a location report of another device sent in between
func HTwoKinds() {
	v19 := v.Pick("v19", 2) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, c := lib.NewSession("s1")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	lib.Ready(s, v19, b, lib.PlateB, 1)
	body := lib.LocBody(0, 3, 39000000, 116000000, 50, 600, 90, "230102030405")
	n := 2 + v.Pick("three", 2)
	lost := 1 + v.Pick("lost", n-1)
	other := v.Pick("other", 2)
	v.Advance(3)
	before := lib.Of(a)
	per := len(body) / n
	for j := 1; j <= n; j++ {
		end := j * per
		if j == n {
			end = len(body)
		}
		part := body[(j-1)*per : end]
		if other == 0 {
			v.Catch(func() { lib.Push(s, c, lib.Frag(0x0104, v19, a, uint16(0x0100+j), uint16(n), uint16(j), part)) })
		} else {
			v.Catch(func() { lib.Push(s, c, lib.Frag(0x0200, v19, b, uint16(0x0100+j), uint16(n), uint16(j), part)) })
		}
		if j != lost {
			lib.Push(s, c, lib.Frag(0x0200, v19, a, uint16(0x0200+j), uint16(n), uint16(j), part))
		}
	}
	v.Assert(lib.Of(a) == before, "incomplete-acted-on")
	if other == 1 {
		v.Assert(lib.Of(b).Loc.Latitude == 39, "whole-one-lost")
	}
	v.Reach("end")
}

