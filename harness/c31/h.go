package main

import (
	"net"

	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HIgnored": HIgnored, "HBypass": HBypass, "HParams": HParams, "HFragments": HFragments})
}

type world struct{ l *lib.Listener }

// start runs a server on a scripted listener.
func start() *world {
	w := &world{l: &lib.Listener{}}
	v.ListenHook = func(_, addr string) (net.Listener, error) { return w.l, nil }
	serv := server.NewTCPServer()
	v.Assert(serv.Listen("127.0.0.1:0") == nil, "listen")
	v.Go(func() { serv.Start() })
	return w
}

func (w *world) dial(name string) *lib.Conn {
	c := &lib.Conn{Name: name, Hold: true}
	w.l.Q = append(w.l.Q, c)
	v.Quiesce()
	return c
}

// talk sends one message and lets the server work, waking it from pauses.
func talk(c *lib.Conn, raw []byte) [][]byte {
	n := len(c.Out)
	c.Chunks = append(c.Chunks, lib.Frame(raw))
	for i := 0; i < 3; i++ {
		v.Quiesce()
		v.Wake()
	}
	v.Quiesce()
	return c.Out[n:]
}

// join registers phone over a connection of its own and brings it into a state: 0 offline, 1 online, 2 sleeping.
func (w *world) join(name string, v19 bool, phone, plate string, state int) *lib.Conn {
	c := w.dial(name)
	out := talk(c, lib.Msg(0x0100, v19, phone, 1, lib.RegBody(v19, "DEV1", plate)))
	v.Assert(len(out) == 1, "setup-register")
	r := lib.Parse(out[0])
	v.Assert(r.ID == 0x8100 && r.Body[2] == 0, "setup-register")
	if state > 0 {
		out = talk(c, lib.Msg(0x0102, v19, phone, 2, lib.AuthBody(v19, string(r.Body[3:]), "860000000000001", "v1.0")))
		v.Assert(len(out) == 1 && lib.Parse(out[0]).Body[4] == 0, "setup-auth")
	}
	if state > 1 {
		talk(c, lib.Msg(0x0200, v19, phone, 3, lib.LocBody(0, 0, 39000000, 116000000, 50, 600, 90, "230102030405")))
	}
	return c
}

var ids = []uint16{0x8001, 0x8100, 0x8103, 0x8104, 0x9205}

// body is a well-formed body with a free byte.
func body(k int, x uint8) []byte {
	switch k {
	case 0:
		return []byte{0, 1, 0x01, 0x02, x}
	case 1:
		return lib.Cat([]byte{0, 1, x}, []byte("code"))
	case 2:
		return []byte{1, 0, 0, 0, 1, 4, 0, 0, 0, x}
	case 3:
		return nil
	}
	return lib.Cat([]byte{x}, lib.BCD("230102030405"), lib.BCD("230102040405"), make([]byte, 8), []byte{0, 0, 0})
}

func noParams(ph string) bool {
	_, err := storage.GetDeviceParamsCache().GetDeviceParamsByPhone(ph)
	return err != nil
}

// HIgnored: platform-only messages sent to the platform.
// bound: 0x8001, 0x8100, 0x8103, 0x8104, 0x9205 with one symbolic body byte, both versions, from an offline, online or sleeping device, for its own phone, another registered phone or an unknown one; log level debug, info or error; the connection goes on working
func HIgnored() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a, b, u := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB), lib.Phone(v19, lib.PhoneC)
	w := start()
	ca := w.join("a", v19, a, lib.PlateA, v.Pick("state", 3))
	cb := w.join("b", v19, b, lib.PlateB, 0)
	v.Advance(3)
	k := v.Pick("id", len(ids))
	ph := []string{a, b, u}[v.Pick("whose", 3)]
	x := v.U8("x")
	v.Assume(v.Not(lib.IsSpecial(x)))
	sa, sb := lib.Of(a), lib.Of(b)
	out := talk(ca, lib.Msg(ids[k], v19, ph, 0x0301, body(k, x)))
	v.Assert(len(out) == 0 && len(cb.Out) == 1, "answered")
	v.Assert(lib.Of(a) == sa && lib.Of(b) == sb && lib.Devices() == 2 && lib.AllJobs() == 2, "acted-on")
	v.Assert(noParams(a) && noParams(b) && noParams(u), "parameters-stored")
	v.Assert(ca.Closed == 0 && cb.Closed == 0, "closed")
	out = talk(ca, lib.Msg(0x0002, v19, a, 0x0302, nil))
	v.Assert(len(out) == 1, "connection-dead")
	v.Reach("ignored")
}

// HBypass: a registered device that never authenticated does not get online by sending general replies.
// bound: 1..2 messages 0x8001 with symbolic result and answered id in any order with a heartbeat, a location report (ACC on) or a time query; both versions
func HBypass() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	w := start()
	c := w.join("a", v19, a, lib.PlateA, 0)
	for i := 0; i < 2; i++ {
		x, y := v.R8("result", 0, 7), v.R8("answered", 0, 7)
		switch v.Pick("op", 4) {
		case 0:
			talk(c, lib.Msg(0x0002, v19, a, 0x0200, nil))
		case 1:
			talk(c, lib.Msg(0x0200, v19, a, 0x0201, lib.LocBody(0, 1, 39000000, 116000000, 50, 600, 90, "230102030405")))
		case 2:
			talk(c, lib.Msg(0x0004, v19, a, 0x0202, nil))
		case 3:
			talk(c, lib.Msg(0x8001, v19, a, 0x0203, []byte{0, 1, 1, y, x}))
		}
	}
	talk(c, lib.Msg(0x8001, v19, a, 0x0204, []byte{0, 1, 1, 2, 0}))
	v.Assert(lib.Of(a).Status == 0, "online-without-authentication")
	v.Reach("end")
}

// HParams: parameter messages from a terminal neither store nor reveal parameters.
// bound: setting then querying, symbolic value byte; registered or unknown phone
func HParams() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	w := start()
	var c *lib.Conn
	if v.Pick("registered", 2) == 1 {
		c = w.join("a", v19, a, lib.PlateA, 1)
	} else {
		c = w.dial("a")
	}
	x := v.U8("x")
	v.Assume(v.Not(lib.IsSpecial(x)))
	out := talk(c, lib.Msg(0x8103, v19, a, 0x0301, body(2, x)))
	v.Assert(len(out) == 0, "set-answered")
	out = talk(c, lib.Msg(0x8104, v19, a, 0x0302, nil))
	v.Assert(len(out) == 0, "query-answered")
	v.Assert(noParams(a), "parameters-stored")
	v.Reach("end")
}

// HFragments: the same messages in fragments.
// bound: the 5 ids in 1..2 fragments cut in the middle, offline device; both versions
func HFragments() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	w := start()
	c := w.join("a", v19, a, lib.PlateA, 0)
	v.Advance(3)
	k := v.Pick("id", len(ids))
	n := 1 + v.Pick("n", 2)
	b := body(k, 0)
	before := lib.Of(a)
	cut := len(b)
	if n == 2 {
		cut = len(b) / 2
	}
	out := talk(c, lib.Frag(ids[k], v19, a, 0x0301, uint16(n), 1, b[:cut]))
	if n == 2 {
		out = append(out, talk(c, lib.Frag(ids[k], v19, a, 0x0302, 2, 2, b[cut:]))...)
	}
	v.Assert(len(out) == 0, "answered")
	v.Assert(lib.Of(a) == before && noParams(a), "acted-on")
	v.Reach("end")
}
