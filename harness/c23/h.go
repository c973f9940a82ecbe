package main

import (
	"errors"
	"io"
	"net"
	"syscall"

	"github.com/fakeyanss/jt808-server-go/internal/api"
	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	gin "github.com/fakeyanss/jt808-server-go/internal/zzgin"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HSend": HSend, "HSendFail": HSendFail, "HUnencodable": HUnencodable, "HQuery": HQuery, "HVersion": HVersion, "HSet": HSet, "HSetSym": HSetSym, "HRefused": HRefused, "HSerials": HSerials, "HGeo": HGeo, "HList": HList, "HConcurrent": HConcurrent, "HGoneMeanwhile": HGoneMeanwhile, "HMoved": HMoved, "HReplaced": HReplaced})
}

// HSend: the addressed session and no other gets the frame.
// bound: 1..3 sessions, target any of them, unknown, empty or removed; 0..3 symbolic message bytes
func HSend() {
	serv := server.NewTCPServer()
	names := []string{"10.0.0.1:5001", "10.0.0.1:5002", "10.0.0.2:5001"}
	n := 1 + v.Pick("n", 3)
	var cs []*lib.Conn
	for i := 0; i < n; i++ {
		_, c := lib.NewSession(names[i])
		cs = append(cs, c)
	}
	b := lib.Cat([]byte{0x81, 0x04}, v.Bytes("b", v.Pick("len", 4)))
	t := v.Pick("target", n+3)
	id, live := "10.0.0.9:1", -1
	switch {
	case t < n:
		id, live = names[t], t
	case t == n+1:
		id = ""
	case t == n+2:
		id = names[0]
		storage.ClearSession(id)
	}
	v.Assert(!v.Catch(func() { serv.Send(id, &lib.Raw{B: b}) }), "panic")
	for i, c := range cs {
		if i == live {
			v.Assert(len(c.Out) == 1, "frames")
			v.Assert(v.EqBytes(c.Out[0], lib.Frame(b)), "frame")
			v.Reach("sent")
		} else {
			v.Assert(c.Writes == 0, "sent-elsewhere")
		}
		v.Assert(c.Closed == 0, "closed")
		if t != n+2 || i > 0 {
			s, err := storage.GetSession(names[i])
			v.Assert(err == nil && s.Conn == c, "session-lost")
		}
	}
	v.Reach("end")
}

// HSendFail: the connection turns out closed.
// bound: net.ErrClosed, io.ErrClosedPipe, plain or wrapped, at the first or second write, with 0..3 bytes taken; another error for comparison
func HSendFail() {
	serv := server.NewTCPServer()
	_, c := lib.NewSession("s1")
	_, c2 := lib.NewSession("s2")
	k := v.Pick("err", 4)
	e := []error{net.ErrClosed, io.ErrClosedPipe, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}, &net.OpError{Op: "write", Net: "tcp", Err: syscall.ECONNRESET}}[k]
	taken := v.Pick("taken", 4)
	second := taken > 0 && v.Pick("second", 2) == 1
	c.WriteFn = func(n int, p []byte) (int, error) {
		if second && n == 1 {
			return taken, nil
		}
		return taken, e
	}
	v.Assert(!v.Catch(func() { serv.Send("s1", &lib.Raw{B: []byte{0x81, 4, v.R8("x", 0, 0x7c), 1, 2, 3, 4}}) }), "panic")
	if second {
		v.Assert(c.Writes == 2, "resent")
	} else {
		v.Assert(c.Writes == 1, "resent")
	}
	_, err := storage.GetSession("s1")
	if k < 3 {
		v.Assert(c.Closed > 0, "not-closed")
		v.Assert(err != nil, "session-left")
	}
	_, err = storage.GetSession("s2")
	v.Assert(err == nil && c2.Closed == 0 && c2.Writes == 0, "other-session")
	n := c.Writes
	serv.Send("s1", &lib.Raw{B: []byte{0x81, 4}})
	if k < 3 {
		v.Assert(c.Writes == n, "sent-to-removed")
	}
	serv.Send("s2", &lib.Raw{B: []byte{0x81, 4}})
	v.Assert(len(c2.Out) == 1, "other-unusable")
	v.Reach("failed")
}

// HUnencodable: a message that cannot be encoded writes nothing.
// bound: encode error
func HUnencodable() {
	serv := server.NewTCPServer()
	_, c := lib.NewSession("s1")
	v.Assert(!v.Catch(func() { serv.Send("s1", &lib.Raw{B: []byte{1, 2}, Err: errors.New("x")}) }), "panic")
	v.Assert(c.Writes == 0 && c.Closed == 0, "written")
	v.Reach("refused")
}

func alloc[T any](p **T) { *p = new(T) }

// routes starts the HTTP side on the router stand-in.
func routes() *server.TCPServer {
	serv := server.NewTCPServer()
	cfg := &config.Config{}
	alloc(&cfg.Server)
	alloc(&cfg.Server.Port)
	cfg.Server.Port.HTTPPort = "8888"
	gin.Routes = nil
	api.Run(serv, cfg)
	return serv
}

func call(method, path, phone string, bind func(any) error) *gin.Context {
	c := &gin.Context{Params: map[string]string{"phone": phone}, BindFn: bind}
	v.Assert(!v.Catch(func() { v.Assert(gin.Call(method, path, c), "no-route") }), "panic")
	return c
}

func failed(c *gin.Context) bool {
	return len(c.Codes) == 1 && c.Codes[0] >= 400
}

func succeeded(c *gin.Context) bool {
	for _, k := range c.Codes {
		if k >= 400 {
			return false
		}
	}
	return len(c.Codes) <= 1
}

// frame: a single platform message for a phone.
func frame(c *lib.Conn, at int, id uint16, v19 bool, phone string, serial uint16, body []byte) {
	framePV(c, at, id, v19, 1, phone, serial, body)
}

func framePV(c *lib.Conn, at int, id uint16, v19 bool, pv uint8, phone string, serial uint16, body []byte) {
	v.Assert(len(c.Out) == at+1, "frames")
	r := lib.Parse(c.Out[at])
	v.Assert(r.ID == id, "message-id")
	v.Assert(v.EqBytes(r.Phone, lib.BCD(phone)), "phone")
	v.Assert(r.Serial == serial, "serial")
	v.Assert(v.And((r.Attr&0x4000 != 0) == v19, r.Attr&0x2000 == 0, int(r.Attr&0x3ff) == len(body)), "attributes")
	if v19 {
		v.Assert(r.PV == pv, "protocol-version")
	}
	v.Assert(v.EqBytes(r.Body, body), "body")
}

const pp = "/device/:phone/params"

// HQuery: a parameter query reaches the addressed phone's session.
// bound: 2 devices (of both versions), query to either, 0..2 serial numbers drawn before, devices offline, online or sleeping
func HQuery() {
	routes()
	v19 := v.Pick("v19", 2) == 1
	ph := []string{lib.Phone(v19, lib.PhoneA), lib.PhoneB}
	vs := []bool{v19, false}
	var cs []*lib.Conn
	var ss []*model.Session
	for i := range ph {
		s, c := lib.NewSession([]string{"s1", "s2"}[i])
		lib.Ready(s, vs[i], ph[i], []string{lib.PlateA, lib.PlateB}[i], v.Pick("state", 3))
		ss, cs = append(ss, s), append(cs, c)
	}
	t := v.Pick("target", 2)
	d := v.Pick("drawn", 3)
	for i := 0; i < d; i++ {
		ss[t].GetNextSerialNum()
	}
	c := call("GET", pp, ph[t], nil)
	v.Assert(succeeded(c), "error-status")
	frame(cs[t], 0, 0x8104, vs[t], ph[t], uint16(d+1), nil)
	v.Assert(cs[1-t].Writes == 0, "sent-elsewhere")
	v.Reach("queried")
}

// HVersion: commands carry the version the device registered with.
// bound: 2019 devices with every protocol version byte; query and set; a device of another version on the next session
func HVersion() {
	routes()
	a := lib.V19(lib.PhoneA)
	s, cn := lib.NewSession("s1")
	s2, cn2 := lib.NewSession("s2")
	pv := v.U8("pv")
	body := lib.RegBody(true, "DEV1", lib.PlateA)
	reg := lib.Cat(lib.HeaderBytes(0x0100, 0x4000|uint16(len(body)), pv, a, 1), body)
	pd, err := lib.Do(s, reg)
	v.Assert(err == nil, "setup")
	m, ok := pd.Outgoing.(*model.Msg8100)
	v.Assert(ok && m.Result == model.ResSuccess, "setup-register")
	other := v.Pick("v19", 2) == 1
	lib.Ready(s2, other, lib.Phone(other, lib.PhoneB), lib.PlateB, 1)
	if v.Pick("method", 2) == 0 {
		c := call("GET", pp, a, nil)
		v.Assert(succeeded(c), "error-status")
		framePV(cn, 0, 0x8104, true, pv, a, 1, nil)
	} else {
		c := call("PUT", pp, a, binder(&model.ParamData{ParamID: 1, ParamLen: 4, ParamValue: float64(5)}))
		v.Assert(succeeded(c), "error-status")
		framePV(cn, 0, 0x8103, true, pv, a, 1, []byte{1, 0, 0, 0, 1, 4, 0, 0, 0, 5})
	}
	v.Assert(cn2.Writes == 0, "sent-elsewhere")
	v.Reach("sent")
}

func binder(ps ...*model.ParamData) func(any) error {
	return func(o any) error {
		d, ok := o.(*model.DeviceParams)
		v.Assume(ok)
		d.ParamCnt = uint8(len(ps))
		d.Params = ps
		return nil
	}
}

// counted gives another count than there are parameters, and (with 0) no lengths either.
func counted(cnt uint8, ps ...*model.ParamData) func(any) error {
	return func(o any) error {
		err := binder(ps...)(o)
		d := o.(*model.DeviceParams)
		d.ParamCnt = cnt
		for _, p := range ps {
			if cnt == 0 {
				p.ParamLen = 0
			}
		}
		return err
	}
}

// HSet: setting parameters given as JSON values.
// bound: 1..2 parameters of 7 kinds (byte, word, double word, text, each as JSON gives it), values at the ends and in the middle of the range; count given right, as 0 (with the lengths left out) or as 1; both versions
func HSet() {
	routes()
	v19 := v.Pick("v19", 2) == 1
	a, b := lib.Phone(v19, lib.PhoneA), lib.Phone(v19, lib.PhoneB)
	s, cn := lib.NewSession("s1")
	s2, cn2 := lib.NewSession("s2")
	lib.Ready(s, v19, a, lib.PlateA, 1)
	lib.Ready(s2, v19, b, lib.PlateB, 1)
	n := 1 + v.Pick("n", 2)
	var ps []*model.ParamData
	want := []byte{byte(n)}
	for i := 0; i < n; i++ {
		switch v.Pick("kind", 4) {
		case 0: // double word
			x := []uint32{0, 60, 65536, 4294967295}[v.Pick("x", 4)]
			ps = append(ps, &model.ParamData{ParamID: 1, ParamLen: 4, ParamValue: float64(x)})
			want = lib.Cat(want, []byte{0, 0, 0, 1, 4}, lib.BE32(x))
		case 1: // byte
			x := []byte{0, 7, 0xff}[v.Pick("x", 3)]
			ps = append(ps, &model.ParamData{ParamID: 0x84, ParamLen: 1, ParamValue: float64(x)})
			want = lib.Cat(want, []byte{0, 0, 0, 0x84, 1, x})
		case 2: // word
			x := []uint16{0, 300, 0xffff}[v.Pick("x", 3)]
			ps = append(ps, &model.ParamData{ParamID: 0x31, ParamLen: 2, ParamValue: float64(x)})
			want = lib.Cat(want, []byte{0, 0, 0, 0x31, 2}, lib.BE16(x))
		case 3: // text
			x := []string{"", "cmnet", "10.0.0.1"}[v.Pick("x", 3)]
			ps = append(ps, &model.ParamData{ParamID: 0x13, ParamLen: byte(len(x)), ParamValue: x})
			want = lib.Cat(want, []byte{0, 0, 0, 0x13, byte(len(x))}, []byte(x))
		}
	}
	bind := binder(ps...)
	switch v.Pick("count", 3) { // the count in the request body does not matter
	case 1:
		bind = counted(0, ps...)
	case 2:
		bind = counted(1, ps...)
	}
	c := call("PUT", pp, a, bind)
	v.Assert(succeeded(c), "error-status")
	frame(cn, 0, 0x8103, v19, a, 1, want)
	v.Assert(cn2.Writes == 0, "sent-elsewhere")
	v.Reach("set")
}

// HSetSym: setting parameters with any value.
// bound: all 2^32 double words, 2^16 words, 2^8 bytes, texts of 2 symbolic letters
func HSetSym() {
	routes()
	a := lib.PhoneA
	s, cn := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	var p *model.ParamData
	want := []byte{1}
	switch v.Pick("kind", 4) {
	case 0:
		x := v.U32("x")
		p = &model.ParamData{ParamID: 0x29, ParamLen: 4, ParamValue: x}
		want = lib.Cat(want, []byte{0, 0, 0, 0x29, 4}, lib.BE32(x))
	case 1:
		x := v.U8("x")
		p = &model.ParamData{ParamID: 0x84, ParamLen: 1, ParamValue: x}
		want = lib.Cat(want, []byte{0, 0, 0, 0x84, 1, x})
	case 2:
		x := v.U16("x")
		p = &model.ParamData{ParamID: 0x31, ParamLen: 2, ParamValue: x}
		want = lib.Cat(want, []byte{0, 0, 0, 0x31, 2}, lib.BE16(x))
	case 3:
		x := v.Ascii("x", 2, 'A', 'Z')
		p = &model.ParamData{ParamID: 0x10, ParamLen: 2, ParamValue: x}
		want = lib.Cat(want, []byte{0, 0, 0, 0x10, 2}, []byte(x))
	}
	c := call("PUT", pp, a, binder(p))
	v.Assert(succeeded(c), "error-status")
	frame(cn, 0, 0x8103, false, a, 1, want)
	v.Reach("set")
}

// HRefused: unknown phone, session gone, or malformed body.
// bound: query and set; the phone unknown, unknown with 2 symbolic digits, empty, deregistered, or its session gone; another device present
func HRefused() {
	routes()
	b := "013900000042"
	s, cn := lib.NewSession("s1")
	s2, cn2 := lib.NewSession("s2")
	lib.Ready(s2, false, b, lib.PlateB, 1)
	a := lib.PhoneA
	bind := binder(&model.ParamData{ParamID: 1, ParamLen: 4, ParamValue: float64(5)})
	method := []string{"GET", "PUT"}[v.Pick("method", 2)]
	switch v.Pick("why", 6) {
	case 0:
	case 1:
		a = "0139000000" + v.Digits("d", 2)
		v.Assume(v.Not(v.EqStr(a, b)))
	case 2:
		a = ""
	case 3:
		lib.Ready(s, false, a, lib.PlateA, 1)
		v.Assert(lib.Dereg(s, false, a) == nil, "setup")
	case 4:
		lib.Ready(s, false, a, lib.PlateA, 1)
		storage.ClearSession("s1")
	case 5:
		if method == "GET" {
			return
		}
		lib.Ready(s, false, a, lib.PlateA, 1)
		bind = func(any) error { return errors.New("bad body") }
	}
	c := call(method, pp, a, bind)
	v.Assert(failed(c), "no-error-status")
	v.Assert(cn.Writes == 0 && cn2.Writes == 0, "sent")
	v.Assert(cn2.Closed == 0, "closed")
	v.Reach("refused")
}

// HSerials: successive commands carry fresh serial numbers.
// bound: 3 commands, each a query or a setting of 0..2 parameters, to one or the other device
func HSerials() {
	routes()
	ph := []string{lib.PhoneA, lib.PhoneB}
	var cs []*lib.Conn
	var last [2]uint16
	for i := range ph {
		s, c := lib.NewSession([]string{"s1", "s2"}[i])
		lib.Ready(s, false, ph[i], []string{lib.PlateA, lib.PlateB}[i], 1)
		cs = append(cs, c)
	}
	n := []int{0, 0}
	for i := 0; i < 3; i++ {
		t := v.Pick("target", 2)
		p := &model.ParamData{ParamID: 1, ParamLen: 4, ParamValue: float64(5)}
		switch v.Pick("kind", 4) {
		case 0:
			call("GET", pp, ph[t], nil)
		case 1:
			call("PUT", pp, ph[t], binder(p))
		case 2:
			call("PUT", pp, ph[t], binder(p, &model.ParamData{ParamID: 0x13, ParamLen: 1, ParamValue: "x"}))
		case 3:
			call("PUT", pp, ph[t], binder())
		}
		n[t]++
		v.Assert(len(cs[0].Out) == n[0] && len(cs[1].Out) == n[1], "frames")
		r := lib.Parse(cs[t].Out[n[t]-1])
		v.Assert(r.Serial == last[t]+1, "serial-not-fresh")
		last[t] = r.Serial
	}
	v.Reach("fresh")
}

// HGeo: the location call.
// bound: device with 0..2 reports (symbolic altitude), online, sleeping or offline, unknown phone, after deregistration; two devices
func HGeo() {
	routes()
	a, b := lib.PhoneA, lib.PhoneB
	s, _ := lib.NewSession("s1")
	lib.Ready(s, false, b, lib.PlateB, 1)
	v.Assert(lib.Loc(s, false, b, 1, 77) == nil, "setup")
	k := v.Pick("reports", 4)
	var alt uint16
	if k > 0 {
		lib.Ready(s, false, a, lib.PlateA, 1)
		acc := uint32(v.Pick("acc", 2)) // ignition off: the device is sleeping
		for i := 1; i < k; i++ {
			alt = v.U16("alt")
			_, err := lib.Do(s, lib.Msg(0x0200, false, a, 5, lib.LocBody(0, acc, 39000000, 116000000, alt, 600, 90, "230102030405")))
			v.Assert(err == nil, "report")
		}
	}
	if k > 0 && v.Pick("offline", 2) == 1 {
		v.Advance(61)
		v.Assert(lib.RunJob(a), "no-check")
	}
	c := call("GET", "/device/:phone/geo", a, nil)
	if k < 2 {
		v.Assert(failed(c), "no-error-status")
		v.Reach("none")
		return
	}
	v.Assert(len(c.Codes) == 1 && c.Codes[0] == 200, "status")
	m, ok := c.Bodies[0].(map[string]any)
	if h, is := c.Bodies[0].(gin.H); is {
		m, ok = h, true
	}
	v.Assume(ok)
	g, ok := m["gis"].(*model.DeviceGeo)
	if x, is := m["gis"].(model.DeviceGeo); is {
		g, ok = &x, true
	}
	v.Assert(ok && g != nil, "no-location")
	v.Assert(g.Phone == a && g.Location.Altitude == alt, "location")
	v.Reach("location")
}

// HList: the device list holds the registered devices.
// bound: 0..3 devices, one of them possibly deregistered
func HList() {
	routes()
	ph := []string{lib.PhoneA, lib.PhoneB, lib.PhoneC}
	pl := []string{lib.PlateA, lib.PlateB, lib.PlateC}
	s, _ := lib.NewSession("s1")
	has := map[string]bool{}
	n := 0
	for i := range ph {
		switch v.Pick("reg", 3) {
		case 1:
			lib.Ready(s, false, ph[i], pl[i], 1)
			has[ph[i]] = true
			n++
		case 2:
			lib.Ready(s, false, ph[i], pl[i], 1)
			v.Assert(lib.Dereg(s, false, ph[i]) == nil, "setup")
		}
	}
	c := call("GET", "/device", "", nil)
	v.Assert(len(c.Codes) == 1 && c.Codes[0] == 200, "status")
	l, ok := c.Bodies[0].([]*model.Device)
	v.Assume(ok)
	v.Assert(len(l) == n, "count")
	for _, d := range l {
		v.Assert(has[d.Phone], "stranger")
		delete(has, d.Phone)
	}
	v.Reach("listed")
}

// HMoved: a device that registered anew on another connection is addressed there.
// bound: deregistration or failed authentication on the first, then registration on the second; the first connection open or gone
func HMoved() {
	routes()
	a := lib.PhoneA
	s, c1 := lib.NewSession("s1")
	lib.Ready(s, false, a, lib.PlateA, 1)
	if v.Pick("how", 2) == 0 {
		v.Assert(lib.Dereg(s, false, a) == nil, "setup")
	} else {
		lib.Auth(s, false, a, "wrong")
	}
	if v.Pick("gone", 2) == 1 {
		storage.ClearSession("s1")
	}
	s2, c2 := lib.NewSession("s2")
	lib.Ready(s2, false, a, lib.PlateA, 1)
	c := call("GET", pp, a, nil)
	v.Assert(succeeded(c), "error-status")
	v.Assert(c1.Writes == 0, "sent-to-old")
	frame(c2, 0, 0x8104, false, a, 1, nil)
	v.Reach("moved")
}

// HConcurrent: commands of several callers at the same time.
// bound: 2 callers to one device or to two, every interleaving with at most 2 preemptions
func HConcurrent() {
	routes()
	ph := []string{lib.PhoneA, lib.PhoneB}
	var cs []*lib.Conn
	for i := range ph {
		s, c := lib.NewSession([]string{"s1", "s2"}[i])
		lib.Ready(s, false, ph[i], []string{lib.PlateA, lib.PlateB}[i], 1)
		cs = append(cs, c)
	}
	t := v.Pick("target", 2)
	v.Concurrent(2, true, func() {
		call("GET", pp, ph[0], nil)
	}, func() {
		call("PUT", pp, ph[t], binder(&model.ParamData{ParamID: 1, ParamLen: 4, ParamValue: float64(5)}))
	})
	v.Assert(len(cs[0].Out) == 2-t && len(cs[1].Out) == t, "frames")
	set := []byte{1, 0, 0, 0, 1, 4, 0, 0, 0, 5}
	if t == 1 {
		frame(cs[0], 0, 0x8104, false, ph[0], 1, nil)
		frame(cs[1], 0, 0x8103, false, ph[1], 1, set)
	} else {
		x, y := lib.Parse(cs[0].Out[0]), lib.Parse(cs[0].Out[1])
		if x.ID == 0x8103 {
			x, y = y, x
		}
		v.Assert(x.ID == 0x8104 && y.ID == 0x8103 && v.EqBytes(y.Body, set), "messages")
		v.Assert(x.Serial+y.Serial == 3 && x.Serial != y.Serial, "serials")
	}
	v.Reach("both")
}

// HGoneMeanwhile: the device or its session goes away while a command is being handled.
// bound: query or set against removal of the session, deregistration or registration of another; every interleaving with at most 2 preemptions
func HGoneMeanwhile() {
	routes()
	a := lib.PhoneA
	s, cn := lib.NewSession("s1")
	s2, cn2 := lib.NewSession("s2")
	lib.Ready(s, false, a, lib.PlateA, 1)
	k := v.Pick("what", 3)
	m := v.Pick("method", 2)
	var c *gin.Context
	v.Concurrent(2, true, func() {
		if m == 0 {
			c = call("GET", pp, a, nil)
		} else {
			c = call("PUT", pp, a, binder(&model.ParamData{ParamID: 1, ParamLen: 4, ParamValue: float64(5)}))
		}
	}, func() {
		switch k {
		case 0:
			cn.Close()
			storage.ClearSession("s1")
		case 1:
			v.Assert(lib.Dereg(s, false, a) == nil, "dereg")
		case 2:
			lib.Ready(s2, false, lib.PhoneB, lib.PlateB, 0)
		}
	})
	v.Assert(len(cn.Out) <= 1 && cn2.Writes == 0, "frames")
	if failed(c) {
		v.Assert(len(cn.Out) == 0, "sent-though-failed")
		v.Reach("failed")
	} else if k > 0 {
		v.Assert(len(cn.Out) == 1, "not-sent")
		v.Reach("sent")
	}
	if k == 2 {
		v.Assert(!failed(c), "failed-without-cause")
	}
}

// HReplaced: an address used again belongs to the new connection.
// bound: 1..3 connections one after another with the same address, the earlier session removed, lost by a failing send, or just replaced; 0..2 commands to each; one symbolic message byte
func HReplaced() {
	serv := server.NewTCPServer()
	var cs []*lib.Conn
	for k := 1 + v.Pick("n", 3); k > 0; k-- {
		_, c := lib.NewSession("10.0.0.1:5001")
		for j := v.Pick("sends", 3); j > 0; j-- {
			b := []byte{0x81, 4, v.R8("x", 0, 0x7c)}
			n := len(c.Out)
			v.Assert(!v.Catch(func() { serv.Send("10.0.0.1:5001", &lib.Raw{B: b}) }), "panic")
			v.Assert(len(c.Out) == n+1, "frames")
			v.Assert(v.EqBytes(c.Out[n], lib.Frame(b)), "frame")
		}
		for _, o := range cs {
			v.Assert(o.Writes == 0, "sent-elsewhere")
		}
		switch v.Pick("then", 3) {
		case 1:
			storage.ClearSession("10.0.0.1:5001")
		case 2:
			c.WriteFn = func(n int, p []byte) (int, error) { return 0, net.ErrClosed }
			serv.Send("10.0.0.1:5001", &lib.Raw{B: []byte{0x81, 4}})
			_, err := storage.GetSession("10.0.0.1:5001")
			v.Assert(err != nil && c.Closed > 0, "session-left")
		}
		c.Writes = 0
		cs = append(cs, c)
	}
	v.Reach("end")
}
