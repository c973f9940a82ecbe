package main

import (
	"errors"
	"io"
	"net"
	"syscall"

	"github.com/fakeyanss/jt808-server-go/internal/client"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
	"github.com/fakeyanss/jt808-server-go/pkg/routines"
)

func main() {
	v.Main(map[string]func(){"HIdle": HIdle, "HLoop": HLoop, "HBody": HBody, "HGarbage": HGarbage, "HEnd": HEnd, "HSend": HSend, "HSends": HSends, "HTwo": HTwo, "HStop": HStop, "HDial": HDial, "HMany": HMany, "HBoth": HBoth, "HSenders": HSenders, "HChunks": HChunks, "HStops": HStops})
}

type term struct {
	cli  *client.TCPClient
	c    *lib.Conn
	done bool
}

func dial(name string) *term {
	c := &lib.Conn{Name: name, Hold: true}
	v.DialHook = func(_, addr string) (net.Conn, error) {
		v.Assert(addr == "addr-"+name, "dial-address")
		return c, nil
	}
	cli := client.NewTCPClient()
	v.Assert(cli.Dial("addr-"+name) == nil, "dial")
	return &term{cli: cli, c: c}
}

// run starts the receive loop.
func (t *term) run() *term {
	v.Go(func() { // as the terminal program runs it
		routines.RunSafe(t.cli.Start)
		t.done = true
	})
	return t
}

func settle() {
	for i := 0; i < 3; i++ {
		v.Quiesce()
		v.Wake()
	}
	v.Quiesce()
}

func device(v19 bool, phone, plate, session string) {
	d := &model.Device{ID: "DEV1", Plate: plate, Phone: phone, SessionID: session, Status: model.DeviceStatusOffline, VersionDesc: model.Version2013, IMEI: "860000000000007", SoftwareVersion: "fw-2.4", LastestComTime: v.Now()}
	if v19 {
		d.VersionDesc, d.ProtocolVersion = model.Version2019, 1
	}
	storage.GetDeviceCache().CacheDevice(d)
}

// works: a registration reply is answered by one authentication with its code, on this connection.
func (t *term) works(v19 bool, phone string, code string) {
	n := len(t.c.Out)
	t.c.Chunks = append(t.c.Chunks, lib.Frame(lib.Msg(0x8100, v19, phone, 9, lib.Cat([]byte{0, 1, 0}, []byte(code)))))
	settle()
	v.Assert(!t.done && t.c.Closed == 0, "ended-early")
	v.Assert(len(t.c.Out) == n+1, "not-answered")
	r := lib.Parse(t.c.Out[n])
	k := 0
	if v19 {
		k = 1
	}
	v.Assert(r.ID == 0x0102 && len(r.Body) >= k+len(code) && string(r.Body[k:k+len(code)]) == code, "answer")
}

func (t *term) end() {
	t.c.End = true
	settle()
	v.Assert(t.done, "not-ended")
}

var bad = [][]byte{
	lib.Cat([]byte{0x7e}, lib.Msg(0x8104, false, lib.PhoneA, 3, nil), []byte{1, 0x7e}), // wrong checksum
	lib.Frame(lib.Msg(0x8300, false, lib.PhoneA, 3, []byte{1, 2})),                     // unsupported
	{0x7e, 0x7e},
}

// HLoop: messages that cannot be handled leave the loop running, in any order with good ones.
// bound: 1..3 of wrong checksum, unsupported id, empty frames, a good query; then a good message; then the end
func HLoop() {
	t := dial("srv").run()
	device(false, lib.PhoneA, lib.PlateA, "srv")
	for k := 1 + v.Pick("n", v.Bound(2, 3)); k > 0; k-- {
		n := len(t.c.Out)
		if j := v.Pick("msg", len(bad)+1); j < len(bad) {
			t.c.Chunks = append(t.c.Chunks, bad[j])
			settle()
			v.Assert(len(t.c.Out) == n, "answered")
		} else {
			t.works(false, lib.PhoneA, "12")
		}
		v.Assert(!t.done && t.c.Closed == 0, "ended-early")
	}
	t.works(false, lib.PhoneA, "34")
	t.end()
	v.Reach("ended")
}

// HMany: however many such messages come.
// bound: 12 or 40 of wrong checksum (symbolic difference) or unsupported
func HMany() {
	t := dial("srv").run()
	device(false, lib.PhoneA, lib.PlateA, "srv")
	raw := lib.Msg(0x8104, false, lib.PhoneA, 3, nil)
	sum := lib.Xor(raw) ^ v.R8("diff", 1, 127)
	v.Assume(v.Not(lib.IsSpecial(sum)))
	f := lib.Cat([]byte{0x7e}, raw, []byte{sum, 0x7e})
	if v.Pick("kind", 2) == 1 {
		f = bad[1]
	}
	for k := []int{12, 40}[v.Pick("n", 2)]; k > 0; k-- {
		t.c.Chunks = append(t.c.Chunks, f)
		settle()
		v.Assert(!t.done && t.c.Closed == 0, "ended-early")
	}
	t.works(false, lib.PhoneA, "34")
	t.end()
	v.Reach("ended")
}

// HBody: whatever a message holds, nothing but its own client can suffer, and while the loop runs it works.
// bound: 14 supported ids and 2 others, or a symbolic id; both versions, bodies of 0..2 (thorough 0..4) symbolic bytes or 16, 29, 40, 64 times a symbolic byte; a second client
func HBody() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	t := dial("srv").run()
	o := dial("two").run()
	device(v19, a, lib.PlateA, "srv")
	device(false, lib.PhoneB, lib.PlateB, "two")
	ids := []uint16{0x0001, 0x0002, 0x0004, 0x0100, 0x0104, 0x0200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x0900, 0xffff}
	id := ids[v.Pick("id", len(ids))]
	k := v.Pick("n", v.Bound(7, 9))
	var body []byte
	if k < v.Bound(3, 5) {
		body = v.Bytes("b", k)
	} else {
		x := v.U8("x")
		for n := []int{16, 29, 40, 64}[k-v.Bound(3, 5)]; n > 0; n-- {
			body = append(body, x)
		}
	}
	for _, x := range body {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
	raw := lib.Msg(id, v19, a, 5, body)
	v.Assume(v.Not(lib.IsSpecial(lib.Xor(raw))))
	t.c.Chunks = append(t.c.Chunks, lib.Frame(raw))
	settle()
	if !t.done {
		t.works(v19, a, "34")
		t.end()
		v.Reach("open")
	}
	v.Assert(len(o.c.Out) == 0, "misdirected")
	o.works(false, lib.PhoneB, "56")
}

// HGarbage: bytes that are no frame, then the end.
// bound: 1..3 (thorough 1..4) symbolic bytes
func HGarbage() {
	t := dial("srv").run()
	device(false, lib.PhoneA, lib.PlateA, "srv")
	t.c.Chunks = append(t.c.Chunks, v.Bytes("b", 1+v.Pick("n", v.Bound(3, 4))))
	settle()
	t.end()
	v.Assert(len(t.c.Out) == 0, "answered")
	v.Reach("end")
}

// HEnd: the loop ends when the connection does or when a reply names an unknown terminal.
// bound: at once, inside a frame (every position), after a message; end of stream, closed, closed pipe, plain or wrapped, or a success reply or registration reply for an unknown terminal, both versions
func HEnd() {
	t := dial("srv").run()
	device(false, lib.PhoneA, lib.PlateA, "srv")
	kind := v.Pick("end", 5)
	switch v.Pick("pos", 3) {
	case 1:
		t.works(false, lib.PhoneA, "34")
	case 2:
		if kind > 2 {
			v.Assume(false)
		}
		f := lib.Frame(lib.Msg(0x8100, false, lib.PhoneA, 1, []byte("...12")))
		t.c.Chunks = append(t.c.Chunks, f[:1+v.Pick("part", len(f)-1)])
		settle()
	}
	n := len(t.c.Out)
	if kind < 3 {
		e := []error{io.EOF, net.ErrClosed, io.ErrClosedPipe}[kind]
		if kind > 0 && v.Pick("wrapped", 2) == 1 {
			e = &net.OpError{Op: "read", Net: "tcp", Err: e}
		}
		t.c.EndErr, t.c.End = e, true
	} else {
		v19 := v.Pick("v19", 2) == 1
		m := lib.Msg(0x8001, v19, lib.Phone(v19, lib.PhoneB), 3, []byte{0, 1, 1, 2, 0})
		if kind == 4 {
			m = lib.Msg(0x8100, v19, lib.Phone(v19, lib.PhoneB), 3, []byte{0, 1, 0, '1'})
		}
		t.c.Chunks = append(t.c.Chunks, lib.Frame(m))
	}
	settle()
	v.Assert(t.done, "not-ended")
	v.Assert(len(t.c.Out) == n, "answered")
	v.Reach("ended")
}

// HSend: a message is sent as one frame on the client's connection.
// bound: 0..3 (thorough 0..6) symbolic message bytes, with or without a running loop; write ok, closed, closed pipe, broken pipe, other error
func HSend() {
	t := dial("srv")
	if v.Pick("loop", 2) == 1 {
		t.run()
		v.Quiesce()
	}
	b := lib.Cat([]byte{0, 2}, v.Bytes("b", v.Pick("n", v.Bound(4, 7))))
	k := v.Pick("err", 5)
	if k > 0 {
		e := []error{nil, &net.OpError{Op: "write", Err: net.ErrClosed}, io.ErrClosedPipe, errors.New("x"), &net.OpError{Op: "write", Err: syscall.EPIPE}}[k]
		t.c.WriteFn = func(n int, p []byte) (int, error) { return 0, e }
	}
	v.Assert(!v.Catch(func() { t.cli.Send(&lib.Raw{B: b}) }), "panic")
	if k == 0 {
		v.Assert(len(t.c.Out) == 1 && v.EqBytes(t.c.Out[0], lib.Frame(b)), "frame")
		v.Assert(t.c.Closed == 0, "closed")
		v.Reach("sent")
	} else {
		v.Assert(t.c.Writes == 1, "written-again")
		if k < 3 {
			v.Assert(t.c.Closed > 0, "not-closed")
			v.Reach("closed")
		}
	}
}

// HSends: messages sent one after another arrive in order, also after one that could not be encoded.
// bound: 2..3 messages of 1..2 symbolic bytes, one of them failing to encode or none
func HSends() {
	t := dial("srv").run()
	n := 2 + v.Pick("n", 2)
	fail := v.Pick("fail", n+1)
	var want [][]byte
	for i := 0; i < n; i++ {
		b := lib.Cat([]byte{0, 2, byte(i)}, v.Bytes("b", 1))
		m := &lib.Raw{B: b}
		if i == fail {
			m.Err = errors.New("cannot encode")
		} else {
			want = append(want, lib.Frame(b))
		}
		v.Assert(!v.Catch(func() { t.cli.Send(m) }), "panic")
	}
	v.Assert(len(t.c.Out) == len(want), "count")
	for i := range want {
		v.Assert(v.EqBytes(t.c.Out[i], want[i]), "frame")
	}
	v.Assert(t.c.Closed == 0 && !t.done, "closed")
	device(false, lib.PhoneA, lib.PlateA, "srv")
	t.works(false, lib.PhoneA, "34")
	v.Reach("sent")
}

// HTwo: clients in one process do not affect each other.
// bound: two clients; the first gets a good message, a bad one, the end, a failing send, a request to close, or is stopped; the second goes on
func HTwo() {
	x := dial("one").run()
	y := dial("two").run()
	device(false, lib.PhoneA, lib.PlateA, "one")
	device(false, lib.PhoneB, lib.PlateB, "two")
	switch v.Pick("what", 6) {
	case 0:
		x.works(false, lib.PhoneA, "12")
	case 1:
		x.c.Chunks = append(x.c.Chunks, bad[v.Pick("bad", len(bad))])
	case 2:
		x.end()
	case 3:
		x.c.WriteFn = func(n int, p []byte) (int, error) { return 0, net.ErrClosed }
		x.cli.Send(&lib.Raw{B: []byte{0, 2}})
		v.Assert(x.c.Closed > 0, "not-closed")
	case 4:
		x.c.Chunks = append(x.c.Chunks, lib.Frame(lib.Msg(0x8001, false, lib.PhoneC, 3, []byte{0, 1, 1, 2, 0})))
	case 5:
		x.cli.Stop()
	}
	settle()
	v.Assert(len(y.c.Out) == 0 && y.c.Closed == 0 && !y.done, "other-affected")
	n := len(x.c.Out)
	y.works(false, lib.PhoneB, "34")
	b := lib.Cat([]byte{0, 2}, v.Bytes("b", 1))
	y.cli.Send(&lib.Raw{B: b})
	v.Assert(len(y.c.Out) == 2 && v.EqBytes(y.c.Out[1], lib.Frame(b)), "frame")
	v.Assert(len(x.c.Out) == n, "misdirected")
	y.end()
	v.Reach("both")
}

// HStop: stopping closes the connection and ends the loop; later sends write nothing.
// bound: after 0..1 messages, 0..2 sends afterwards
func HStop() {
	t := dial("srv").run()
	device(false, lib.PhoneA, lib.PlateA, "srv")
	if v.Pick("n", 2) == 1 {
		t.works(false, lib.PhoneA, "34")
	}
	v.Quiesce()
	n := len(t.c.Out)
	t.cli.Stop()
	settle()
	v.Assert(t.c.Closed > 0 && t.done, "not-ended")
	for k := v.Pick("sends", 3); k > 0; k-- {
		v.Assert(!v.Catch(func() { t.cli.Send(&lib.Raw{B: []byte{0, 2}}) }), "panic")
	}
	v.Assert(len(t.c.Out) == n, "written")
	v.Reach("stopped")
}

// HDial: a failed dial is reported, the next one works.
// bound: 0..2 failures of 2 kinds
func HDial() {
	cli := client.NewTCPClient()
	c := &lib.Conn{Name: "srv", Hold: true}
	for k := v.Pick("n", 3); k > 0; k-- {
		e := []error{errors.New("refused"), &net.OpError{Op: "dial", Err: syscall.ECONNREFUSED}}[v.Pick("err", 2)]
		v.DialHook = func(_, addr string) (net.Conn, error) { return nil, e }
		var err error
		v.Assert(!v.Catch(func() { err = cli.Dial("there") }), "panic")
		v.Assert(err != nil && errors.Is(err, e), "error-lost")
	}
	v.DialHook = func(_, addr string) (net.Conn, error) {
		v.Assert(addr == "there", "dial-address")
		return c, nil
	}
	v.Assert(cli.Dial("there") == nil, "dial")
	cli.Send(&lib.Raw{B: []byte{0, 2}})
	v.Assert(len(c.Out) == 1, "frame")
	v.Reach("dialled")
}

// HBoth: sends and answers at the same time are whole frames.
// bound: a sender with 1..2 messages against the loop answering a registration reply, every interleaving with at most 2 (thorough 3) preemptions
func HBoth() {
	t := dial("srv")
	t.c.Hold = false
	device(false, lib.PhoneA, lib.PlateA, "srv")
	t.c.Chunks = [][]byte{lib.Frame(lib.Msg(0x8100, false, lib.PhoneA, 9, []byte{0, 1, 0, '1', '2'}))}
	k := 1 + v.Pick("n", 2)
	v.Concurrent(v.Bound(2, 3), true, func() {
		t.cli.Start()
	}, func() {
		for i := 0; i < k; i++ {
			t.cli.Send(&lib.Raw{B: []byte{0, 2, byte(i)}})
		}
	})
	v.Assert(len(t.c.Out) == k+1, "count")
	answers, sent := 0, 0
	for _, f := range t.c.Out {
		if len(f) == 6 {
			v.Assert(v.EqBytes(f, lib.Frame([]byte{0, 2, byte(sent)})), "frame")
			sent++
		} else {
			r := lib.Parse(f)
			v.Assert(r.ID == 0x0102 && string(r.Body) == "12", "answer")
			answers++
		}
	}
	v.Assert(answers == 1 && sent == k, "frames")
	v.Reach("both")
}

// HSenders: sends at the same time, by one client or two, are whole frames on their own connections.
// bound: two senders with 1..2 messages each, every interleaving with at most 2 (thorough 3) preemptions, memory accesses included
func HSenders() {
	x := dial("one")
	y := x
	if v.Pick("two", 2) == 1 {
		y = dial("two")
	}
	k := 1 + v.Pick("n", 2)
	send := func(t *term, base byte) {
		for i := 0; i < k; i++ {
			t.cli.Send(&lib.Raw{B: []byte{0, 2, base + byte(i)}})
		}
	}
	v.Concurrent(v.Bound(2, 3), true, func() { send(x, 1) }, func() { send(y, 10) })
	check := func(out [][]byte, base byte) int {
		n := 0
		for _, f := range out {
			v.Assert(len(f) == 6, "frame")
			if (f[3] >= 10) == (base >= 10) {
				v.Assert(v.EqBytes(f, lib.Frame([]byte{0, 2, base + byte(n)})), "frame")
				n++
			}
		}
		return n
	}
	v.Assert(check(x.c.Out, 1) == k && check(y.c.Out, 10) == k, "frames")
	if x != y {
		v.Assert(len(x.c.Out) == k && len(y.c.Out) == k, "misdirected")
	}
	v.Reach("both")
}

// HChunks: how the bytes of several messages are split over reads does not matter.
// bound: 3 registration replies with 2 symbolic code bytes in all, received in one piece, cut once (every position), or byte by byte; a message that cannot be handled before, between or not at all
func HChunks() {
	t := dial("srv").run()
	device(false, lib.PhoneA, lib.PlateA, "srv")
	code := []string{"12", string([]byte{v.R8("x", '0', '9'), v.R8("y", 'a', 'z')}), "777"}
	where := v.Pick("bad", 3)
	var all []byte
	for i, x := range code {
		if i == where {
			all = lib.Cat(all, bad[1])
		}
		all = lib.Cat(all, lib.Frame(lib.Msg(0x8100, false, lib.PhoneA, uint16(i), lib.Cat([]byte{0, 1, 0}, []byte(x)))))
	}
	switch v.Pick("cut", 3) {
	case 0:
		t.c.Chunks = append(t.c.Chunks, all)
	case 1:
		k := 1 + v.Pick("at", len(all)-1)
		t.c.Chunks = append(t.c.Chunks, all[:k], all[k:])
	case 2:
		for i := range all {
			t.c.Chunks = append(t.c.Chunks, all[i:i+1])
		}
	}
	for i := 0; i < 4; i++ {
		settle()
	}
	v.Assert(!t.done && t.c.Closed == 0, "ended-early")
	v.Assert(len(t.c.Out) == len(code), "not-answered")
	for i, x := range code {
		r := lib.Parse(t.c.Out[i])
		v.Assert(r.ID == 0x0102 && v.EqBytes(r.Body, []byte(x)), "answer")
	}
	t.end()
	v.Reach("answered")
}

// HStops: each client can be stopped, in any order, whatever happened to the others.
// bound: 3 clients; the first stopped, ended, failing a send or asked to close, then the second, then the third stopped; each loop ends, each connection is closed once its client is stopped
func HStops() {
	var ts []*term
	for i, n := range []string{"one", "two", "three"} {
		ts = append(ts, dial(n).run())
		device(false, []string{lib.PhoneA, lib.PhoneB, lib.PhoneC}[i], []string{lib.PlateA, lib.PlateB, lib.PlateC}[i], n)
	}
	for i, t := range ts {
		k := 0
		if i < 2 {
			k = v.Pick("how", 4)
		}
		v.Assert(!t.done && t.c.Closed == 0, "other-affected")
		switch k {
		case 0:
			t.cli.Stop()
			v.Assert(t.c.Closed > 0, "not-stopped")
		case 1:
			t.c.End = true
		case 2:
			t.c.WriteFn = func(n int, p []byte) (int, error) { return 0, net.ErrClosed }
			t.cli.Send(&lib.Raw{B: []byte{0, 2}})
			v.Assert(t.c.Closed > 0, "not-closed")
		case 3:
			t.c.Chunks = append(t.c.Chunks, lib.Frame(lib.Msg(0x8001, false, "999999999999", 3, []byte{0, 1, 1, 2, 0})))
		}
		settle()
		v.Assert(t.done, "not-ended")
	}
	v.Reach("stopped")
}

// HIdle: a pause does not end the service.
// bound: pauses of 1 s, 61 s, 1 h, 2 days before and between 3 messages, received or sent
func HIdle() {
	device(false, lib.PhoneA, lib.PlateA, "idle")
	t := dial("idle")
	storage.StoreSession(t.cli.Session)
	t.run()
	d := []int64{1, 61, 3600, 172800}[v.Pick("pause", 4)]
	for i := 0; i < 3; i++ {
		settle()
		v.Advance(d)
		settle()
		had := len(t.c.Out)
		if v.Pick("send", 2) == 1 {
			t.cli.Send(&lib.Raw{B: []byte{0, 2, byte(i)}})
			v.Assert(len(t.c.Out) == had+1, "not-sent")
			continue
		}
		t.c.Chunks = append(t.c.Chunks, lib.Frame(lib.Msg(0x8104, false, lib.PhoneA, uint16(i), nil)))
		settle()
		v.Assert(len(t.c.Out) == had+1, "unanswered")
		v.Assert(lib.Parse(t.c.Out[had]).ID == 0x0104, "answer")
	}
	v.Assert(!t.done && t.c.Closed == 0, "ended")
	v.Reach("served")
}
