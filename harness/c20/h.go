package main

import (
	"errors"
	"io"
	"net"
	"syscall"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HIdle": HIdle, "HCrowd": HCrowd, "HAlone": HAlone, "HPorts": HPorts, "HReuse": HReuse, "HShort": HShort, "HBody": HBody, "HHeader": HHeader, "HEnd": HEnd, "HUnknown": HUnknown, "HSingle": HSingle, "HAccept": HAccept, "HWriteFail": HWriteFail, "HSentAway": HSentAway, "HConcurrent": HConcurrent, "HStop": HStop, "HMany": HMany, "HGarbage": HGarbage})
}

type world struct {
	l    *lib.Listener
	done bool
	n    int
	serv *server.TCPServer
}

// start runs a server on a scripted listener.
func start() *world {
	w := &world{l: &lib.Listener{}}
	v.ListenHook = func(_, addr string) (net.Listener, error) {
		v.Assert(addr == "127.0.0.1:0", "listen-address")
		return w.l, nil
	}
	serv := server.NewTCPServer()
	w.serv = serv
	v.Assert(serv.Listen("127.0.0.1:0") == nil, "listen")
	v.Go(func() {
		serv.Start()
		w.done = true
	})
	return w
}

// dial opens a connection that stays open.
func (w *world) dial(name string) *lib.Conn {
	c := &lib.Conn{Name: name, Hold: true}
	w.l.Q = append(w.l.Q, c)
	v.Quiesce()
	s, err := storage.GetSession(name)
	v.Assert(err == nil && s.Conn == c, "no-session")
	return c
}

// talk sends bytes and lets the server work, waking it from pauses.
func talk(c *lib.Conn, b []byte) [][]byte {
	n := len(c.Out)
	c.Chunks = append(c.Chunks, b)
	for i := 0; i < 3; i++ {
		v.Quiesce()
		v.Wake()
	}
	v.Quiesce()
	return c.Out[n:]
}

func gone(c *lib.Conn) bool {
	_, err := storage.GetSession(c.Name)
	return err != nil
}

// settled: a connection is either closed and forgotten, or open and known.
func settled(c *lib.Conn) bool {
	if c.Closed > 0 {
		v.Assert(gone(c), "session-left")
		return false
	}
	v.Assert(!gone(c), "session-lost")
	return true
}

// works: the connection of a registered phone is served.
func works(c *lib.Conn, phone string, serial uint16) {
	v.Assert(c.Closed == 0, "bystander-closed")
	v.Assert(settled(c), "bystander-lost")
	out := talk(c, lib.Frame(lib.Msg(0x0002, false, phone, serial, nil)))
	v.Assert(len(out) == 1, "bystander-not-answered")
	r := lib.Parse(out[0])
	v.Assert(r.ID == 0x8001 && v.EqBytes(r.Body, lib.Cat(lib.BE16(serial), []byte{0, 2, 0})), "bystander-answer")
}

func join(w *world, name, phone, plate string) *lib.Conn {
	c := w.dial(name)
	out := talk(c, lib.Frame(lib.Msg(0x0100, false, phone, 1, lib.RegBody(false, "DEV1", plate))))
	v.Assert(len(out) == 1 && !gone(c), "join")
	v.Assert(lib.Of(phone).Has, "join-registered")
	return c
}

// rest: afterwards the bystander is served and a newcomer can register and is served.
func (w *world) rest(by *lib.Conn) {
	v.Assert(!w.done, "accept-loop-ended")
	works(by, lib.PhoneB, 0x0101)
	c := join(w, "late", lib.PhoneC, lib.PlateC)
	works(c, lib.PhoneC, 0x0102)
}

// usable: an open connection still handles good messages.
func usable(c *lib.Conn) {
	if !settled(c) {
		v.Reach("closed")
		return
	}
	if lib.Of(lib.PhoneA).Has {
		works(c, lib.PhoneA, 0x0103)
	}
	v.Reach("open")
}

// HShort: frames too short to be messages.
// bound: 0..8 symbolic bytes (quick 0..5) with or without a right checksum, before or after registering
func HShort() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	var c *lib.Conn
	if v.Pick("registered", 2) == 1 {
		c = join(w, "bad", lib.PhoneA, lib.PlateA)
	} else {
		c = w.dial("bad")
	}
	b := v.Bytes("b", v.Pick("n", v.Bound(5, 8)))
	for _, x := range b {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
	if v.Pick("sum", 2) == 1 {
		b = append(b, lib.Xor(b))
		v.Assume(v.Not(lib.IsSpecial(b[len(b)-1])))
	}
	talk(c, lib.Cat([]byte{0x7e}, b, []byte{0x7e}))
	usable(c)
	w.rest(by)
}

// HHeader: right length and checksum, arbitrary message id or attributes.
// bound: symbolic message id, or symbolic attribute word, or symbolic phone; no body or 3 body bytes
func HHeader() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	raw := lib.Msg(0x0002, false, lib.PhoneA, 5, v.Bytes("body", v.Pick("n", 2)*2))
	switch v.Pick("what", 3) {
	case 0:
		raw[0], raw[1] = v.U8("id"), v.U8("id")
	case 1:
		raw[2], raw[3] = v.U8("attr"), v.U8("attr")
	case 2:
		raw[9] = v.U8("phone")
	}
	for _, x := range raw {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
	v.Assume(v.Not(lib.IsSpecial(lib.Xor(raw))))
	talk(c, lib.Frame(raw))
	usable(c)
	w.rest(by)
}

// HBody: every message id with a body that may be too short, too long or senseless.
// bound: 14 supported ids and 2 others, both versions, bodies of 0..4 symbolic bytes or 16, 29, 40, 64 times a symbolic byte
func HBody() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	ids := []uint16{0x0001, 0x0002, 0x0003, 0x0004, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x0900, 0xffff}
	id := ids[v.Pick("id", len(ids))]
	v19 := v.Pick("v19", 2) == 1
	k := v.Pick("n", v.Bound(7, 9))
	var body []byte
	if k < v.Bound(3, 5) {
		body = v.Bytes("b", k)
	} else {
		x := v.U8("x")
		n := []int{16, 29, 40, 64}[k-v.Bound(3, 5)]
		for i := 0; i < n; i++ {
			body = append(body, x)
		}
	}
	for _, x := range body {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
	raw := lib.Msg(id, v19, lib.Phone(v19, lib.PhoneA), 5, body)
	v.Assume(v.Not(lib.IsSpecial(lib.Xor(raw))))
	talk(c, lib.Frame(raw))
	usable(c)
	w.rest(by)
}

// HGarbage: bytes that are no frame at all, then silence or the end.
// bound: 1..4 symbolic bytes (quick 1..3)
func HGarbage() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	talk(c, v.Bytes("b", 1+v.Pick("n", v.Bound(3, 4))))
	settled(c)
	c.End = true
	for i := 0; i < 6; i++ {
		v.Quiesce()
		v.Wake()
	}
	v.Assert(c.Closed > 0 && gone(c), "not-closed")
	w.rest(by)
	v.Reach("end")
}

// HEnd: the connection ends.
// bound: end of stream, closed, closed pipe, plain or wrapped in net.OpError; at once, inside a frame, after a frame, after registering; closing succeeds or reports an error
func HEnd() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	var c *lib.Conn
	pos := v.Pick("pos", 4)
	if pos == 3 {
		c = join(w, "bad", lib.PhoneA, lib.PlateA)
	} else {
		c = w.dial("bad")
		f := lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA)))
		switch pos {
		case 1:
			talk(c, f[:1+v.Pick("part", len(f)-1)])
		case 2:
			talk(c, f)
		}
	}
	e := []error{io.EOF, net.ErrClosed, io.ErrClosedPipe}[v.Pick("err", 3)]
	if v.Pick("wrapped", 2) == 1 && e != io.EOF {
		e = &net.OpError{Op: "read", Net: "tcp", Err: e}
	}
	c.EndErr = e
	if v.Pick("closed", 2) == 1 { // closing it reports an error, as on a reset connection
		c.CloseErr = &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.End = true
	v.Quiesce()
	v.Assert(c.Closed > 0, "not-closed")
	v.Assert(gone(c), "session-left")
	w.rest(by)
	v.Reach("end")
}

// HUnknown: a message of an unregistered phone closes the connection.
// bound: heartbeat, deregistration, authentication, location, or a fragment, both versions, after 0..1 good messages of a registered phone
func HUnknown() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	v19 := v.Pick("v19", 2) == 1
	c := w.dial("bad")
	a := lib.Phone(v19, lib.PhoneA)
	var raw []byte
	k := v.Pick("kind", 5)
	if k == 4 {
		raw = lib.Frag(0x0200, v19, a, 1, 2, 1, []byte{1})
	} else {
		kd := []int{lib.KBeat, lib.KDereg, lib.KAuth, lib.KLoc}[k]
		raw = lib.Msg(lib.KindID[kd], v19, a, 5, lib.Body(kd, v19, lib.PlateA, "1234", 1))
	}
	if v.Pick("good", 2) == 1 {
		v.Assert(len(talk(c, lib.Frame(lib.Msg(0x0002, false, lib.PhoneB, 7, nil)))) == 1, "good-message")
	}
	out := talk(c, lib.Frame(raw))
	v.Assert(len(out) == 0, "answered")
	v.Assert(c.Closed > 0 && gone(c), "not-closed")
	w.rest(by)
	v.Reach("closed")
}

// HSingle: errors in single messages leave the connection open.
// bound: wrong checksum (symbolic difference), unsupported id, wrong authentication code, refused registration, empty frame; 1..2 of them in a row, then a good message
func HSingle() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	auth := false
	for n := 1 + v.Pick("n", 2); n > 0; n-- {
		switch v.Pick("what", 5) {
		case 0:
			raw := lib.Msg(0x0002, false, lib.PhoneA, 5, nil)
			d := v.R8("diff", 1, 127)
			sum := lib.Xor(raw) ^ d
			v.Assume(v.Not(lib.IsSpecial(sum)))
			v.Assert(len(talk(c, lib.Cat([]byte{0x7e}, raw, []byte{sum, 0x7e}))) == 0, "wrong-sum-answered")
		case 1:
			v.Assert(len(talk(c, lib.Frame(lib.Msg(0x0705, false, lib.PhoneA, 5, []byte{1, 2})))) == 0, "unsupported-answered")
		case 2:
			if auth {
				v.Assume(false)
			}
			auth = true
			v.Assert(len(talk(c, lib.Frame(lib.Msg(0x0102, false, lib.PhoneA, 5, []byte("wrong"))))) == 1, "wrong-code-unanswered")
			v.Assert(!lib.Of(lib.PhoneA).Has, "wrong-code-accepted")
			v.Assert(len(talk(c, lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA))))) == 1, "register-again")
		case 3:
			v.Assert(len(talk(c, lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA))))) == 1, "refusal-unanswered")
		case 4:
			talk(c, []byte{0x7e, 0x7e})
			talk(c, []byte{0x7e, 0x7e})
		}
	}
	v.Assert(c.Closed == 0 && !gone(c), "closed")
	works(c, lib.PhoneA, 0x0103)
	w.rest(by)
	v.Reach("open")
}

// HMany: however many bad messages a connection delivers, it stays open and is served.
// bound: 4, 12 or 33 (thorough also 120) in a row of wrong checksum (symbolic difference), unsupported id, or both in turn; good messages in between or not
func HMany() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	kind := v.Pick("what", 3)
	between := v.Pick("between", 2) == 1
	d := v.R8("diff", 1, 127)
	raw := lib.Msg(0x0002, false, lib.PhoneA, 5, nil)
	sum := lib.Xor(raw) ^ d
	v.Assume(v.Not(lib.IsSpecial(sum)))
	for n := []int{4, 12, 33, 120}[v.Pick("n", v.Bound(3, 4))]; n > 0; n-- {
		if kind == 0 || kind == 2 && n%2 == 0 {
			v.Assert(len(talk(c, lib.Cat([]byte{0x7e}, raw, []byte{sum, 0x7e}))) == 0, "wrong-sum-answered")
		} else {
			v.Assert(len(talk(c, lib.Frame(lib.Msg(0x0705, false, lib.PhoneA, 5, []byte{1, 2})))) == 0, "unsupported-answered")
		}
		v.Assert(c.Closed == 0 && !gone(c), "closed")
		if between && n%4 == 0 {
			works(c, lib.PhoneA, 0x0103)
		}
	}
	works(c, lib.PhoneA, 0x0104)
	w.rest(by)
	v.Reach("open")
}

// HAccept: accept errors do not end the loop.
// bound: 1..3 errors of 3 kinds, or 12 or 70 of one kind, then a good connection
func HAccept() {
	w := start()
	errs := []error{errors.New("temporary"), &net.OpError{Op: "accept", Err: syscall.EMFILE}, io.EOF}
	if k := v.Pick("n", 5); k < 3 {
		for n := 1 + k; n > 0; n-- {
			w.l.Q = append(w.l.Q, errs[v.Pick("err", 3)])
			if v.Pick("pause", 2) == 1 {
				v.Quiesce()
			}
		}
	} else {
		e := errs[v.Pick("err", 3)]
		for n := []int{12, 70}[k-3]; n > 0; n-- {
			w.l.Q = append(w.l.Q, e)
			v.Quiesce()
			v.Wake()
		}
	}
	v.Quiesce()
	v.Wake()
	v.Quiesce()
	v.Assert(!w.done, "accept-loop-ended")
	c := join(w, "c", lib.PhoneA, lib.PlateA)
	works(c, lib.PhoneA, 9)
	v.Reach("served")
}

// HWriteFail: the answer cannot be written.
// bound: 4 kinds of error, nothing or part of the answer taken
func HWriteFail() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	k := v.Pick("err", 4)
	e := []error{net.ErrClosed, io.ErrClosedPipe, &net.OpError{Op: "write", Err: net.ErrClosed}, &net.OpError{Op: "write", Err: syscall.EPIPE}}[k]
	part := v.Pick("part", 2) * 3
	c.WriteFn = func(n int, p []byte) (int, error) { return part, e }
	talk(c, lib.Frame(lib.Msg(0x0002, false, lib.PhoneA, 5, nil)))
	if k < 3 {
		v.Assert(c.Closed > 0 && gone(c), "not-closed")
	}
	settled(c)
	w.rest(by)
	v.Reach("failed")
}

// HSentAway: a command finds the connection closed; the reader of that connection notices later, or has noticed before.
// bound: the command before or after the reader's end, 1..2 commands, 3 kinds of error, 2 ways of ending
func HSentAway() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	c := join(w, "bad", lib.PhoneA, lib.PlateA)
	k := v.Pick("err", 3)
	e := []error{net.ErrClosed, io.ErrClosedPipe, &net.OpError{Op: "write", Err: net.ErrClosed}}[k]
	c.WriteFn = func(n int, p []byte) (int, error) { return 0, e }
	c.CloseErr = e
	first := v.Pick("first", 2) == 1
	end := func() {
		if v.Pick("eof", 2) == 1 {
			c.EndErr = io.EOF
		} else {
			c.EndErr = net.ErrClosed
		}
		c.End = true
		v.Quiesce()
	}
	if !first {
		end()
	}
	for n := 1 + v.Pick("n", 2); n > 0; n-- {
		w.serv.Send("bad", &lib.Raw{B: []byte{0x81, 4, 1}})
	}
	v.Assert(c.Closed > 0 && gone(c), "not-closed")
	if first {
		end()
	}
	v.Quiesce()
	v.Assert(gone(c), "session-left")
	w.rest(by)
	v.Reach("both")
}

// HStop: stopping the listener ends the loop; connections go on.
// bound: with 0..1 connections
func HStop() {
	w := &world{l: &lib.Listener{}}
	v.ListenHook = func(_, addr string) (net.Listener, error) {
		v.Assert(addr == "127.0.0.1:0", "listen-address")
		return w.l, nil
	}
	serv := server.NewTCPServer()
	v.Assert(serv.Listen("127.0.0.1:0") == nil, "listen")
	v.Go(func() {
		serv.Start()
		w.done = true
	})
	var c *lib.Conn
	if v.Pick("conn", 2) == 1 {
		c = join(w, "c", lib.PhoneA, lib.PlateA)
	}
	v.Quiesce()
	v.Assert(!w.done, "ended-early")
	n := w.l.Accepts
	serv.Stop()
	for i := 0; i < 4; i++ {
		v.Quiesce()
		v.Wake()
	}
	v.Assert(w.done, "not-ended")
	v.Assert(w.l.Accepts <= n+1, "spinning")
	if c != nil {
		works(c, lib.PhoneA, 3)
	}
	v.Reach("stopped")
}

// HConcurrent: two connections are served at the same time, one of them ends or misbehaves.
// bound: 2 connections, one message each, every interleaving with at most 2 preemptions
func HConcurrent() {
	w := &world{l: &lib.Listener{}}
	v.ListenHook = func(_, addr string) (net.Listener, error) {
		v.Assert(addr == "127.0.0.1:0", "listen-address")
		return w.l, nil
	}
	serv := server.NewTCPServer()
	v.Assert(serv.Listen("127.0.0.1:0") == nil, "listen")
	bad, good := &lib.Conn{Name: "bad"}, &lib.Conn{Name: "good", Hold: true}
	switch v.Pick("bad", 3) {
	case 0: // ends at once
	case 1: // unknown phone
		bad.Chunks = [][]byte{lib.Frame(lib.Msg(0x0002, false, lib.PhoneC, 1, nil))}
		bad.Hold = true
	case 2: // panics while decoding
		bad.Chunks = [][]byte{{0x7e, 1, 1, 0x7e}}
		bad.Hold = true
	}
	good.Chunks = [][]byte{lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA)))}
	storage.GetSession("warm-up")
	v.Quiesce()
	w.l.Q = []any{bad, good}
	v.Concurrent(v.Bound(2, 3), true, func() {
		serv.Start()
	}, func() {
		v.WaitFor(func() bool { return bad.Closed > 0 && len(good.Out) == 1 })
		serv.Stop()
	})
	v.Quiesce()
	v.Assert(gone(bad), "session-left")
	v.Assert(!gone(good) && good.Closed == 0, "session-lost")
	v.Assert(lib.Of(lib.PhoneA).Has, "not-registered")
	v.Reach("both")
}

// HReuse: a new connection from the address of an earlier one is another connection: the end of the earlier does not touch it.
// bound: the earlier connection silent or registered, ending by end of stream, closed, or a message of an unknown phone, after the new one opened or registered; the end of the new one afterwards
func HReuse() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	old := w.dial("addr")
	if v.Pick("spoke", 2) == 1 {
		out := talk(old, lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA))))
		v.Assert(len(out) == 1, "join")
	}
	now := w.dial("addr")
	reg := lib.Frame(lib.Msg(0x0100, false, lib.PhoneC, 1, lib.RegBody(false, "DEV3", lib.PlateC)))
	early := v.Pick("early", 2) == 1
	if early {
		v.Assert(len(talk(now, reg)) == 1, "join")
	}
	switch v.Pick("end", 3) {
	case 0:
		old.EndErr = io.EOF
		old.End = true
	case 1:
		old.EndErr = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		old.End = true
	case 2:
		talk(old, lib.Frame(lib.Msg(0x0002, false, "019999999999", 9, nil)))
	}
	for i := 0; i < 3; i++ {
		v.Quiesce()
		v.Wake()
	}
	v.Quiesce()
	v.Assert(old.Closed > 0, "not-closed")
	v.Assert(now.Closed == 0, "bystander-closed")
	s, err := storage.GetSession("addr")
	v.Assert(err == nil && s.Conn == now, "session-lost")
	if !early {
		v.Assert(len(talk(now, reg)) == 1, "join")
	}
	works(now, lib.PhoneC, 0x0104)
	now.EndErr = io.EOF
	now.End = true
	v.Quiesce()
	v.Assert(now.Closed > 0 && gone(now), "session-left")
	w.rest2(by)
	v.Reach("end")
}

// rest2: as rest, with the phone of the newcomer registered already.
func (w *world) rest2(by *lib.Conn) {
	v.Assert(!w.done, "accept-loop-ended")
	works(by, lib.PhoneB, 0x0101)
}

// HPorts: connections from one host are different connections.
// bound: 2..3 connections whose addresses differ in the port only (IPv4 or IPv6), or in the host only; each registered; commands to each; one of them ends
func HPorts() {
	w := start()
	names := [][]string{{"10.0.0.1:5001", "10.0.0.1:5002", "10.0.0.1:50021"}, {"[::1]:5001", "[::1]:5002", "[::1]:500"}, {"10.0.0.1:5001", "10.0.0.2:5001", "10.0.0.11:5001"}}[v.Pick("kind", 3)]
	phones, plates := []string{lib.PhoneA, lib.PhoneB, lib.PhoneC}, []string{lib.PlateA, lib.PlateB, lib.PlateC}
	n := 2 + v.Pick("three", 2)
	var cs []*lib.Conn
	for i := 0; i < n; i++ {
		cs = append(cs, join(w, names[i], phones[i], plates[i]))
	}
	for i, c := range cs {
		works(c, phones[i], uint16(0x0110+i))
		had := make([]int, n)
		for j := range cs {
			had[j] = len(cs[j].Out)
		}
		w.serv.Send(names[i], &lib.Raw{H: &model.MsgHeader{}, B: []byte{0x81, 4, byte(i)}})
		for j := range cs {
			want := 0
			if j == i {
				want = 1
			}
			v.Assert(len(cs[j].Out)-had[j] == want, "command-went-astray")
		}
	}
	k := v.Pick("ends", n)
	cs[k].EndErr = io.EOF
	cs[k].End = true
	v.Quiesce()
	for i, c := range cs {
		if i == k {
			v.Assert(c.Closed > 0 && gone(c), "not-closed")
		} else {
			works(c, phones[i], uint16(0x0120+i))
		}
	}
	v.Reach("apart")
}

// HAlone: the same without anybody else: the only connection is closed and forgotten when it ends.
// bound: silent or registered; ends by end of stream, closed, a message of an unknown phone or a panic while decoding; then the same or another address connects
func HAlone() {
	w := start()
	c := w.dial("addr")
	if v.Pick("registered", 2) == 1 {
		out := talk(c, lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA))))
		v.Assert(len(out) == 1, "join")
	}
	switch v.Pick("end", 4) {
	case 0:
		c.EndErr = io.EOF
		c.End = true
	case 1:
		c.EndErr = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		c.End = true
	case 2:
		talk(c, lib.Frame(lib.Msg(0x0002, false, "019999999999", 9, nil)))
	case 3:
		talk(c, []byte{0x7e, 1, 1, 0x7e})
	}
	v.Quiesce()
	settled(c)
	if c.End {
		v.Assert(c.Closed > 0 && gone(c), "not-closed")
	}
	n := join(w, []string{"addr", "late"}[v.Pick("late", 2)], lib.PhoneC, lib.PlateC)
	works(n, lib.PhoneC, 0x0102)
	v.Reach("alone")
}

// HCrowd: many connections at once.
// bound: 200 open connections, half of them registered; all of them are served; every third one ends and the others stay
func HCrowd() {
	w := start()
	n := 200
	var cs []*lib.Conn
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			cs = append(cs, join(w, "10.0.0.1:"+lib.Num(i), "01390000"+lib.Num(i), "P"+lib.Num(i)))
		} else {
			cs = append(cs, w.dial("10.0.0.1:"+lib.Num(i)))
		}
	}
	for i := 0; i < n; i += 3 {
		cs[i].EndErr = io.EOF
		cs[i].End = true
	}
	v.Quiesce()
	for i, c := range cs {
		if i%3 == 0 {
			v.Assert(c.Closed > 0 && gone(c), "not-closed")
		} else if i%2 == 0 {
			works(c, "01390000"+lib.Num(i), 0x0103)
		} else {
			v.Assert(settled(c), "closed")
		}
	}
	v.Reach("all")
}

// HIdle: a connection that is in contact is served, however long it lasts.
// bound: pauses of 1, 59 s (registered, 30 times), 1 h and 2 days (registered or not) between messages; commands after the pause
func HIdle() {
	w := start()
	by := join(w, "by", lib.PhoneB, lib.PlateB)
	k := v.Pick("pause", 4)
	d := []int64{1, 59, 3600, 172800}[k]
	n := 2
	if k < 2 {
		n = 30
	}
	fresh := v.Pick("fresh", 2) == 1 // says nothing before the first pause
	var c *lib.Conn
	if fresh {
		c = w.dial("idle")
	} else {
		c = join(w, "idle", lib.PhoneA, lib.PlateA)
	}
	for i := 0; i < n; i++ {
		v.Quiesce()
		v.Advance(d)
		v.Quiesce()
		if fresh && i == 0 {
			out := talk(c, lib.Frame(lib.Msg(0x0100, false, lib.PhoneA, 1, lib.RegBody(false, "DEV1", lib.PlateA))))
			v.Assert(len(out) == 1, "registration-unanswered")
		}
		if i%2 == 0 {
			works(c, lib.PhoneA, uint16(0x0110+i))
		} else {
			had := len(c.Out)
			w.serv.Send("idle", &lib.Raw{B: []byte{0x81, 4, byte(i)}})
			v.Assert(len(c.Out) == had+1, "command-lost")
		}
	}
	works(by, lib.PhoneB, 0x0101)
	v.Reach("served")
}
