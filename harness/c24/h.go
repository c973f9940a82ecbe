package main

import (
	"errors"
	"io"
	"net"

	"github.com/fakeyanss/jt808-server-go/internal/client"
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HRegReply": HRegReply, "HOnline": HOnline, "HUnknown": HUnknown, "HSetAck": HSetAck, "HSetQuery": HSetQuery, "HSetText": HSetText, "HDefaults": HDefaults, "HMedia": HMedia, "HTwo": HTwo, "HTwoDefaults": HTwoDefaults, "HClient": HClient, "HClientSend": HClientSend})
}

const (
	imei = "860000000000007"
	sw   = "fw-2.4"
)

func terminal(v19 bool, phone, plate string, st model.DeviceStatus) *model.Device {
	d := &model.Device{ID: "DEV1", Plate: plate, Phone: phone, SessionID: "s1", Status: st, VersionDesc: model.Version2013, IMEI: imei, SoftwareVersion: sw, LastestComTime: v.Now()}
	if v19 {
		d.VersionDesc, d.ProtocolVersion = model.Version2019, 1
	}
	storage.GetDeviceCache().CacheDevice(d)
	return d
}

// answer: the single answer to a platform message.
func answer(out [][]byte, err error, id uint16, v19 bool, phone string) []byte {
	v.Assert(err == nil, "error")
	v.Assert(len(out) == 1, "answers")
	r := lib.Parse(out[0])
	v.Assert(r.ID == id, "answer-id")
	v.Assert(v.EqBytes(r.Phone, lib.BCD(phone)), "answer-phone")
	v.Assert(v.And((r.Attr&0x4000 != 0) == v19, r.Attr&0x2000 == 0, int(r.Attr&0x3ff) == len(r.Body)), "answer-attributes")
	if v19 {
		v.Assert(r.PV == 1, "answer-version")
	}
	return r.Body
}

func plain(b ...byte) {
	for _, x := range b {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
}

// HRegReply: a registration reply is answered by authentication with the received code.
// bound: codes of 0..4 (thorough 0..8) arbitrary bytes and one of 20, any answered serial number, IMEI and version shorter, as long as or longer than their field; both versions; log level debug, info or error
func HRegReply() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	d := terminal(v19, a, lib.PlateA, model.DeviceStatusOffline)
	im, ver := imei, sw
	if k := v.Pick("widths", 3); k == 1 {
		im, ver = "", ""
	} else if k == 2 {
		im, ver = "86000000000000", "12345678901234567890"
	}
	d.IMEI, d.SoftwareVersion = im, ver
	s, c := lib.NewSession("s1")
	code := []byte("01234567890123456789")
	if n := v.Pick("n", v.Bound(6, 10)); n > 0 {
		code = v.Bytes("code", n-1)
	}
	if !v.Thorough() {
		plain(code...)
	}
	out, err := lib.Push(s, c, lib.Msg(0x8100, v19, a, 0x0203, lib.Cat([]byte{0, v.R8("sn", 0, 0x7c), 0}, code)))
	body := answer(out, err, 0x0102, v19, a)
	want := lib.Cat(code)
	if v19 {
		want = lib.Cat([]byte{byte(len(code))}, code, pad(im, 15), pad(ver, 20))
	}
	v.Assert(v.EqBytes(body, want), "authentication")
	v.Reach("authenticates")
}

func pad(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

// HOnline: a success reply puts the terminal online, others do nothing.
// bound: every result code, answered serial number and message id; terminal offline, online or sleeping; both versions; 0..100 s since the last contact; log level debug, info or error
func HOnline() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	st := model.DeviceStatus(v.Pick("state", 3))
	terminal(v19, a, lib.PlateA, st)
	terminal(false, lib.PhoneB, lib.PlateB, model.DeviceStatusOffline)
	s, c := lib.NewSession("s1")
	before, other := lib.Of(a), lib.Of(lib.PhoneB)
	v.Advance(int64(v.Int("t", 0, 100)))
	res := v.U8("result")
	body := []byte{v.U8("sn"), 5, 1, v.U8("id"), res}
	plain(body...)
	ok := v.Split(res == 0)
	out, err := lib.Push(s, c, lib.Msg(0x8001, v19, a, 0x0203, body))
	v.Assert(err == nil, "error")
	v.Assert(len(out) == 0, "answered")
	after := lib.Of(a)
	if ok && st == model.DeviceStatusOffline {
		v.Assert(after.Status == model.DeviceStatusOnline, "not-online")
		v.Reach("online")
	} else {
		v.Assert(after.Status == st, "status-changed")
		v.Reach("unchanged")
	}
	before.Status, before.Last = after.Status, after.Last
	v.Assert(after == before, "more-changed")
	v.Assert(lib.Of(lib.PhoneB) == other, "other-changed")
}

// HUnknown: replies for a terminal that does not exist ask to close.
// bound: success reply and registration reply (any code byte), both versions, another terminal present or not
func HUnknown() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	if v.Pick("other", 2) == 1 {
		terminal(v19, lib.Phone(v19, lib.PhoneB), lib.PlateB, model.DeviceStatusOffline)
	}
	n := lib.Devices()
	s, c := lib.NewSession("s1")
	raw := lib.Msg(0x8001, v19, a, 1, []byte{0, 1, 1, 2, 0})
	if v.Pick("kind", 2) == 1 {
		raw = lib.Msg(0x8100, v19, a, 1, []byte{0, 1, 0, v.R8("c", 0, 0x7c)})
	}
	out, err := lib.Push(s, c, raw)
	v.Assert(err != nil && errors.Is(err, protocol.ErrActiveClose), "not-closing")
	v.Assert(len(out) == 0, "answered")
	v.Assert(!lib.Of(a).Has && lib.Devices() == n, "created")
	v.Reach("closing")
}

func p4(id uint32, x uint32) []byte { return lib.Cat(lib.BE32(id), []byte{4}, lib.BE32(x)) }
func p2(id uint32, x uint16) []byte { return lib.Cat(lib.BE32(id), []byte{2}, lib.BE16(x)) }
func p1(id uint32, x uint8) []byte  { return lib.Cat(lib.BE32(id), []byte{1, x}) }
func ps(id uint32, x []byte) []byte { return lib.Cat(lib.BE32(id), []byte{byte(len(x))}, x) }

// HSetAck: setting parameters is acknowledged.
// bound: 0..2 parameters, every serial number; nothing, some or the default parameters stored before; both versions; log level debug, info or error
func HSetAck() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	terminal(v19, a, lib.PlateA, model.DeviceStatusOnline)
	s, c := lib.NewSession("s1")
	switch v.Pick("before", 3) {
	case 1:
		lib.Push(s, c, lib.Msg(0x8103, v19, a, 1, lib.Cat([]byte{1}, p4(2, 9))))
	case 2:
		lib.Push(s, c, lib.Msg(0x8104, v19, a, 1, nil))
	}
	n := v.Pick("n", 3)
	body := []byte{byte(n)}
	if n > 0 {
		body = lib.Cat(body, p4(1, 60))
	}
	if n > 1 {
		body = lib.Cat(body, p2(0x81, 31))
	}
	sn := v.U16("sn")
	plain(byte(sn), byte(sn>>8))
	raw := lib.Msg(0x8103, v19, a, sn, body)
	plain(lib.Xor(raw))
	out, err := lib.Push(s, c, raw)
	got := answer(out, err, 0x0001, v19, a)
	v.Assert(v.EqBytes(got, lib.Cat(lib.BE16(sn), []byte{0x81, 0x03, 0})), "acknowledgement")
	v.Reach("ack")
}

// lists: the list holds exactly the given items, each once, in any order.
func lists(list []byte, items ...[]byte) {
	seen := 0
	for len(list) >= 5 {
		n := 5 + int(list[4])
		v.Assert(n <= len(list), "malformed-list")
		found := false
		for i, it := range items {
			if list[0] == it[0] && list[1] == it[1] && list[2] == it[2] && list[3] == it[3] {
				v.Assert(seen>>i&1 == 0, "parameter-twice")
				seen |= 1 << i
				found = true
				v.Assert(v.EqBytes(list[:n], it), "parameters")
			}
		}
		v.Assert(found, "parameter-unknown")
		list = list[n:]
	}
	v.Assert(len(list) == 0 && seen == 1<<len(items)-1, "parameter-missing")
}

// HSetQuery: a query returns what is stored, with the new values of what was set.
// bound: four parameters (double word, double word, word, byte) stored in ascending, descending or mixed order with symbolic low bytes; then 1..2 rounds each setting any subset of them in ascending or descending order with symbolic low bytes; both versions
func HSetQuery() {
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	terminal(v19, a, lib.PlateA, model.DeviceStatusOnline)
	s, c := lib.NewSession("s1")
	val := []uint8{v.R8("w", 0, 0x7c), v.R8("w", 0, 0x7c), v.R8("w", 0, 0x7c), v.R8("w", 0, 0x7c)}
	enc := func(i int) []byte {
		switch i {
		case 0:
			return p4(0x01, 0x01020300|uint32(val[i]))
		case 1:
			return p4(0x29, 0x05060700|uint32(val[i]))
		case 2:
			return p2(0x81, 0x0800|uint16(val[i]))
		}
		return p1(0x84, val[i])
	}
	send := func(body []byte) {
		raw := lib.Msg(0x8103, v19, a, 0x0301, body)
		plain(lib.Xor(raw))
		out, err := lib.Push(s, c, raw)
		v.Assert(v.EqBytes(answer(out, err, 0x0001, v19, a), []byte{3, 1, 0x81, 0x03, 0}), "acknowledgement")
	}
	query := func() {
		out, err := lib.Push(s, c, lib.Msg(0x8104, v19, a, 0x0405, nil))
		got := answer(out, err, 0x0104, v19, a)
		v.Assert(len(got) >= 3 && got[0] == 4 && got[1] == 5 && got[2] == 4, "answered-serial")
		lists(got[3:], enc(0), enc(1), enc(2), enc(3))
	}
	o := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}}[v.Pick("order", 3)]
	send(lib.Cat([]byte{4}, enc(o[0]), enc(o[1]), enc(o[2]), enc(o[3])))
	if v.Pick("first", 2) == 1 {
		query()
	}
	for k := 1 + v.Pick("rounds", v.Bound(1, 2)); k > 0; k-- {
		sub := v.Pick("subset", 16)
		n := 0
		var body []byte
		desc := v.Pick("desc", 2) == 1
		for i := 0; i < 4; i++ {
			if sub>>i&1 == 0 {
				continue
			}
			n++
			val[i] = v.R8("x", 0, 0x7c)
			if desc {
				body = lib.Cat(enc(i), body)
			} else {
				body = lib.Cat(body, enc(i))
			}
		}
		send(lib.Cat([]byte{byte(n)}, body))
	}
	query()
	query()
	v.Reach("queried")
}

// HSetText: text parameters.
// bound: two text parameters of 0..2 symbolic letters, one set anew with another length
func HSetText() {
	a := lib.PhoneA
	terminal(false, a, lib.PlateA, model.DeviceStatusOnline)
	s, c := lib.NewSession("s1")
	x, y := []byte(v.Ascii("x", v.Pick("nx", 3), 'A', 'Z')), []byte("apn")
	put := func(body []byte) {
		raw := lib.Msg(0x8103, false, a, 1, body)
		plain(lib.Xor(raw))
		_, err := lib.Push(s, c, raw)
		v.Assert(err == nil, "set")
	}
	put(lib.Cat([]byte{2}, ps(0x10, x), ps(0x13, y)))
	if v.Pick("again", 2) == 1 {
		y = []byte(v.Ascii("y", 2+v.Pick("ny", 3), '0', '9'))
		put(lib.Cat([]byte{1}, ps(0x13, y)))
	}
	out, err := lib.Push(s, c, lib.Msg(0x8104, false, a, 7, nil))
	got := answer(out, err, 0x0104, false, a)
	v.Assert(len(got) >= 3 && got[0] == 0 && got[1] == 7 && got[2] == 2, "answered-serial")
	lists(got[3:], ps(0x10, x), ps(0x13, y))
	v.Reach("queried")
}

// HDefaults: a terminal without stored parameters answers a query with a well-formed list, keeps it, and reflects later settings in it.
// bound: symbolic low byte of the parameter set; both versions; log level debug, info or error
func HDefaults() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	terminal(v19, a, lib.PlateA, model.DeviceStatusOnline)
	s, c := lib.NewSession("s1")
	query := func() []byte {
		out, err := lib.Push(s, c, lib.Msg(0x8104, v19, a, 0x0405, nil))
		got := answer(out, err, 0x0104, v19, a)
		v.Assert(got[0] == 4 && got[1] == 5, "answered-serial")
		return got
	}
	first := query()
	n, i, at := 0, 3, -1
	for i < len(first) {
		if i+5 > len(first) {
			break
		}
		if first[i] == 0 && first[i+1] == 0 && first[i+2] == 0 && first[i+3] == 1 {
			at = i
		}
		i += 5 + int(first[i+4])
		n++
	}
	v.Assert(i == len(first) && n == int(first[2]), "malformed-list")
	v.Assert(v.EqBytes(query(), first), "changed-by-query")
	if at < 0 || first[at+4] != 4 {
		return
	}
	x := v.R8("x", 0, 0x7c)
	raw := lib.Msg(0x8103, v19, a, 1, lib.Cat([]byte{1}, p4(1, 0x0a0b0c00|uint32(x))))
	plain(lib.Xor(raw))
	_, err := lib.Push(s, c, raw)
	v.Assert(err == nil, "set")
	want := lib.Cat(first[:at+5], []byte{0x0a, 0x0b, 0x0c, x}, first[at+9:])
	v.Assert(v.EqBytes(query(), want), "parameters")
	v.Reach("set")
}

// HMedia: a media query is answered with its channel and time range.
// bound: every channel and serial number, 4 start and 4 end times, any alarm, type and storage bytes; both versions; log level debug, info or error
func HMedia() {
	lib.AnyLog()
	v19 := v.Pick("v19", 2) == 1
	a := lib.Phone(v19, lib.PhoneA)
	terminal(v19, a, lib.PlateA, model.DeviceStatusOnline)
	s, c := lib.NewSession("s1")
	ts := []string{"230102030405", "000101000000", "231231235959", "240229120000"}
	from, to := ts[v.Pick("from", 4)], ts[v.Pick("to", 4)]
	ch, sn, al, mt := v.U8("ch"), v.U8("sn"), v.U8("al"), v.U8("mt")
	plain(ch, sn, al, mt)
	raw := lib.Msg(0x9205, v19, a, 0x0300|uint16(sn), lib.Cat([]byte{ch}, lib.BCD(from), lib.BCD(to), []byte{0, 0, 0, al, 0, 0, 0, 0}, []byte{mt, 0, 0}))
	plain(lib.Xor(raw))
	out, err := lib.Push(s, c, raw)
	b := answer(out, err, 0x1205, v19, a)
	v.Assert(len(b) == 34, "length")
	v.Assert(v.EqBytes(b[:19], lib.Cat([]byte{3, sn, 0, 0, 0, 1, ch}, lib.BCD(from), lib.BCD(to))), "list")
	v.Reach("list")
}

// HTwo: parameters belong to one terminal.
// bound: two terminals set and query in every order of 3 (thorough 4) steps, symbolic low bytes
func HTwo() {
	ph := []string{lib.PhoneA, lib.PhoneB}
	var cs []*lib.Conn
	var ss []*model.Session
	for i := range ph {
		terminal(false, ph[i], []string{lib.PlateA, lib.PlateB}[i], model.DeviceStatusOnline)
		s, c := lib.NewSession([]string{"s1", "s2"}[i])
		ss, cs = append(ss, s), append(cs, c)
	}
	cur := [][]byte{nil, nil}
	for i := v.Bound(3, 4); i > 0; i-- {
		t := v.Pick("dev", 2)
		x := v.R8("x", 0, 0x7c)
		p := p4(1, 0x01020000|uint32(x)<<8|uint32(x))
		_, err := lib.Push(ss[t], cs[t], lib.Msg(0x8103, false, ph[t], 1, lib.Cat([]byte{1}, p)))
		v.Assert(err == nil, "set")
		cur[t] = p
		for k := range ph {
			if cur[k] != nil {
				out, err := lib.Push(ss[k], cs[k], lib.Msg(0x8104, false, ph[k], 2, nil))
				v.Assert(v.EqBytes(answer(out, err, 0x0104, false, ph[k]), lib.Cat([]byte{0, 2, 1}, cur[k])), "mixed")
			}
		}
	}
	v.Reach("separate")
}

// HTwoDefaults: the parameters a terminal has by default are its own as well.
// bound: two terminals; each queried first or not; one sets a default parameter (symbolic low byte) or not; then both queried, then the other sets it, then both queried
func HTwoDefaults() {
	ph := []string{lib.PhoneA, lib.PhoneB}
	var cs []*lib.Conn
	var ss []*model.Session
	for i := range ph {
		terminal(false, ph[i], []string{lib.PlateA, lib.PlateB}[i], model.DeviceStatusOnline)
		s, c := lib.NewSession([]string{"s1", "s2"}[i])
		ss, cs = append(ss, s), append(cs, c)
	}
	query := func(k int) []byte {
		out, err := lib.Push(ss[k], cs[k], lib.Msg(0x8104, false, ph[k], 2, nil))
		return answer(out, err, 0x0104, false, ph[k])
	}
	set := func(k int, x byte) {
		raw := lib.Msg(0x8103, false, ph[k], 1, lib.Cat([]byte{1}, p4(1, 0x0a0b0c00|uint32(x))))
		plain(lib.Xor(raw))
		_, err := lib.Push(ss[k], cs[k], raw)
		v.Assert(err == nil, "set")
	}
	order := v.Pick("order", 2)
	first, second := query(order), query(1-order)
	x, y := v.R8("x", 0, 0x7c), v.R8("y", 0, 0x7c)
	set(0, x)
	a := query(0)
	v.Assert(v.EqBytes(query(1), []([]byte){second, first}[order]), "other-changed")
	set(1, y)
	v.Assert(v.EqBytes(query(0), a), "other-changed")
	v.Reach("separate")
}

func dial(name string) (*client.TCPClient, *lib.Conn) {
	c := &lib.Conn{Name: name, Hold: true}
	v.DialHook = func(_, _ string) (net.Conn, error) { return c, nil }
	cli := client.NewTCPClient()
	v.Assert(cli.Dial("server") == nil, "dial")
	return cli, c
}

// HClient: the client loop answers, survives bad messages, and ends when the connection ends or it is asked to close.
// bound: before the end 0..2 of query, wrong checksum, unsupported message; ending by end of stream, closed, closed pipe, or a success reply for an unknown terminal
func HClient() {
	cli, c := dial("srv")
	terminal(false, lib.PhoneA, lib.PlateA, model.DeviceStatusOffline)
	done := false
	v.Go(func() {
		cli.Start()
		done = true
	})
	settle := func() {
		for i := 0; i < 3; i++ {
			v.Quiesce()
			v.Wake()
		}
	}
	n := 0
	for k := v.Pick("n", 3); k > 0; k-- {
		switch v.Pick("msg", 3) {
		case 0:
			c.Chunks = append(c.Chunks, lib.Frame(lib.Msg(0x8104, false, lib.PhoneA, 3, nil)))
			n++
		case 1:
			c.Chunks = append(c.Chunks, lib.Cat([]byte{0x7e}, lib.Msg(0x8104, false, lib.PhoneA, 3, nil), []byte{1, 0x7e}))
		case 2:
			c.Chunks = append(c.Chunks, lib.Frame(lib.Msg(0x8300, false, lib.PhoneA, 3, nil)))
		}
		settle()
		v.Assert(!done && c.Closed == 0, "ended-early")
		v.Assert(len(c.Out) == n, "answers")
	}
	switch v.Pick("end", 4) {
	case 0:
		c.End = true
	case 1:
		c.EndErr, c.End = &net.OpError{Op: "read", Err: net.ErrClosed}, true
	case 2:
		c.EndErr, c.End = io.ErrClosedPipe, true
	case 3:
		c.Chunks = append(c.Chunks, lib.Frame(lib.Msg(0x8001, false, lib.PhoneB, 3, []byte{0, 1, 1, 2, 0})))
	}
	settle()
	v.Assert(done, "not-ended")
	v.Reach("ended")
}

// HClientSend: the client sends a message as one frame; a closed connection is closed.
// bound: 0..3 symbolic message bytes; write ok, closed, closed pipe, other error
func HClientSend() {
	cli, c := dial("srv")
	b := lib.Cat([]byte{0, 2}, v.Bytes("b", v.Pick("n", 4)))
	k := v.Pick("err", 4)
	if k > 0 {
		e := []error{nil, &net.OpError{Op: "write", Err: net.ErrClosed}, io.ErrClosedPipe, errors.New("x")}[k]
		c.WriteFn = func(n int, p []byte) (int, error) { return 0, e }
	}
	v.Assert(!v.Catch(func() { cli.Send(&lib.Raw{B: b}) }), "panic")
	if k == 0 {
		v.Assert(len(c.Out) == 1 && v.EqBytes(c.Out[0], lib.Frame(b)), "frame")
		v.Assert(c.Closed == 0, "closed")
		v.Reach("sent")
	} else if k < 3 {
		v.Assert(c.Closed > 0, "not-closed")
		v.Reach("closed")
	}
}
