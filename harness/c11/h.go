package main

import (
	"errors"

	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HRefused": HRefused, "HFragment": HFragment, "HSymbolic": HSymbolic, "HLastFragment": HLastFragment, "HFormer": HFormer, "HBody": HBody})
}

var kinds = []int{lib.KBeat, lib.KDereg, lib.KAuth, lib.KLoc}

func untouched(ph string, jobs, devs int) {
	st := lib.Of(ph)
	v.Assert(!st.Has, "device-created")
	v.Assert(st.Listed == 0 && lib.Devices() == devs, "device-listed")
	v.Assert(st.Jobs == 0 && lib.AllJobs() == jobs, "job-created")
	v.Assert(!st.HasGeo, "location-created")
}

// held counts the records of the device and location stores.
func held() int { return v.Entries(storage.GetDeviceCache()) + v.Entries(storage.GetGeoCache()) }

// HRefused: each kind of request from a phone nobody registered.
// bound: 4 kinds, both versions, every serial number, another device registered or not, through the read pipeline; log level debug, info or error
func HRefused() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	s, c := lib.NewSession("s1")
	b := lib.Phone(v19, lib.PhoneB)
	n := v.Pick("other", 2)
	if n == 1 {
		lib.Ready(s, v19, b, lib.PlateB, 1)
	}
	before := lib.Of(b)
	k := kinds[v.Pick("kind", 4)]
	a := lib.Phone(v19, lib.PhoneA)
	had := held()
	out, err := lib.Push(s, c, lib.Msg(lib.KindID[k], v19, a, v.U16("serial"), lib.Body(k, v19, lib.PlateA, "12345678", uint32(v.R8("st", 0, 1)))))
	v.Assert(err != nil && errors.Is(err, storage.ErrDeviceNotFound), "not-refused")
	v.Assert(len(out) == 0, "answered")
	v.Assert(held() == had, "record-created")
	untouched(a, n, n)
	v.Assert(lib.Of(b) == before, "other-changed")
	v.Reach("refused")
}

// HSymbolic: any phone that is not the registered one.
// bound: 2 symbolic digits of the phone, 4 kinds, both versions; phones equal to the registered one are accepted
func HSymbolic() {
	v19 := v.Pick("v19", 2) == 1
	s, _ := lib.NewSession("s1")
	b := lib.Phone(v19, "013900000042")
	lib.Ready(s, v19, b, lib.PlateB, 1)
	a := lib.Phone(v19, "0139000000"+v.Digits("d", 2))
	k := kinds[v.Pick("kind", 4)]
	same := v.Split(v.EqStr(a, b))
	before := lib.Of(b)
	_, err := lib.Do(s, lib.Msg(lib.KindID[k], v19, a, 5, lib.Body(k, v19, lib.PlateA, "12345678", 1)))
	if same {
		v.Assert(err == nil, "registered-refused")
		v.Reach("accepted")
		return
	}
	v.Assert(err != nil && errors.Is(err, storage.ErrDeviceNotFound), "not-refused")
	v.Assert(lib.Of(b) == before, "other-changed")
	v.Assert(lib.Devices() == 1 && lib.AllJobs() == 1, "trace-left")
	v.Reach("refused")
}

// HFragment: a fragment of any supported message from an unregistered phone.
// bound: fragment 1 of 2..3 of the terminal messages 0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, both versions, 1..2 symbolic body bytes
func HFragment() {
	v19 := v.Pick("v19", 2) == 1
	s, c := lib.NewSession("s1")
	ids := []uint16{0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205}
	a := lib.Phone(v19, lib.PhoneA)
	had := held()
	out, err := lib.Push(s, c, lib.Frag(ids[v.Pick("id", len(ids))], v19, a, 9, 2+uint16(v.Pick("total", 2)), 1, v.Bytes("b", 1+v.Pick("n", 2))))
	v.Assert(err != nil && errors.Is(err, storage.ErrDeviceNotFound), "not-refused")
	v.Assert(len(out) == 0, "answered")
	v.Assert(held() == had, "record-created")
	untouched(a, 0, 0)
	v.Reach("refused")
}

// HLastFragment: completing a fragmented message does not help an unregistered phone.
// bound: 0x0002, 0x0003, 0x0102, 0x0200 in 2 fragments, both versions, cut at any position
func HLastFragment() {
	v19 := v.Pick("v19", 2) == 1
	s, c := lib.NewSession("s1")
	k := kinds[v.Pick("kind", 4)]
	a := lib.Phone(v19, lib.PhoneA)
	body := lib.Body(k, v19, lib.PlateA, "12345678", 1)
	cut := v.Pick("cut", len(body)+1)
	for i, part := range [][]byte{body[:cut], body[cut:]} {
		out, err := lib.Push(s, c, lib.Frag(lib.KindID[k], v19, a, uint16(9+i), 2, uint16(i+1), part))
		v.Assert(err != nil && errors.Is(err, storage.ErrDeviceNotFound), "not-refused")
		v.Assert(len(out) == 0, "answered")
		untouched(a, 0, 0)
	}
	v.Reach("refused")
}

// HFormer: a device that was registered once is unknown after deregistration, failed authentication or expiry.
// bound: 3 ways of ending, 3 device states, 4 kinds, both versions, on the old connection (when it still lives) or a new one
func HFormer() {
	v19 := v.Pick("v19", 2) == 1
	s, c := lib.NewSession("s1")
	a := lib.Phone(v19, lib.PhoneA)
	lib.Ready(s, v19, a, lib.PlateA, v.Pick("state", 3))
	switch v.Pick("end", 3) {
	case 0:
		v.Assert(lib.Dereg(s, v19, a) == nil, "setup-dereg")
	case 1:
		lib.Auth(s, v19, a, "wrong")
	case 2:
		v.Advance(100)
		for i := 0; i < 3; i++ {
			lib.RunJob(a)
		}
	}
	if v.Pick("conn", 2) == 1 || c.Closed > 0 {
		s, c = lib.NewSession("s2")
	}
	hadGeo := lib.Of(a).HasGeo
	k := kinds[v.Pick("kind", 4)]
	out, err := lib.Push(s, c, lib.Msg(lib.KindID[k], v19, a, 5, lib.Body(k, v19, lib.PlateA, "12345678", 1)))
	v.Assert(err != nil && errors.Is(err, storage.ErrDeviceNotFound), "not-refused")
	v.Assert(len(out) == 0, "answered")
	st := lib.Of(a)
	v.Assert(!st.Has && st.Listed == 0 && lib.Devices() == 0 && lib.AllJobs() == 0, "trace-left")
	v.Assert(st.HasGeo == hadGeo, "location-created")
	v.Reach("refused")
}

// HBody: no content makes a message of an unregistered phone acceptable.
// bound: location reports with every byte of the body in turn symbolic (others ordinary), authentications with 1..3 symbolic code bytes; both versions, on a connection that is new, served a registered device or a deregistered one
func HBody() {
	v19 := v.Pick("v19", 2) == 1
	s, _ := lib.NewSession("s1")
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	n := 0
	switch v.Pick("before", 3) {
	case 1:
		lib.Ready(s, v19, b, lib.PlateB, 1)
		n = 1
	case 2:
		lib.Ready(s, v19, a, lib.PlateA, 1)
		v.Assert(lib.Dereg(s, v19, a) == nil, "setup-dereg")
	}
	id := uint16(0x0200)
	var body []byte
	if v.Pick("auth", 2) == 1 {
		id = 0x0102
		body = lib.AuthBody(v19, string(v.Bytes("code", 1+v.Pick("n", 3))), "860000000000001", "v1.0")
	} else {
		body = lib.Body(lib.KLoc, v19, "", "", 3)
		i := v.Pick("at", len(body))
		if i < 22 { // the time stays a time
			body[i] = v.U8("x")
		} else {
			body[i] = v.R8("t", 0x01, 0x09)
		}
	}
	had := held()
	pd, err := lib.Do(s, lib.Msg(id, v19, a, 5, body))
	v.Assert(err != nil && errors.Is(err, storage.ErrDeviceNotFound), "not-refused")
	_ = pd // an answer prepared is not sent when there is an error
	v.Assert(held() == had, "record-created")
	untouched(a, n, n)
	v.Reach("refused")
}
