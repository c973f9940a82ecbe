package lib

import (
	"context"
	"net"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

const (
	PhoneA = "013900000001"
	PhoneB = "013900000002"
	PhoneC = "013900000003"
	PlateA = "A10001"
	PlateB = "B20002"
	PlateC = "C30003"
)

// V19 pads a phone to the 20 digits of the 2019 header.
func V19(phone string) string { return "00000000" + phone }

func pad(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

// RegBody is the specification of a registration body (ASCII plate).
func RegBody(v19 bool, devID, plate string) []byte {
	if v19 {
		return Cat(BE16(31), BE16(115), pad("MANUF", 11), pad("MODEL", 30), pad(devID, 30), []byte{1}, []byte(plate))
	}
	return Cat(BE16(31), BE16(115), pad("MANUF", 5), pad("MODEL", 20), pad(devID, 7), []byte{1}, []byte(plate))
}

// AuthBody is the specification of an authentication body.
func AuthBody(v19 bool, code, imei, sw string) []byte {
	if v19 {
		return Cat([]byte{byte(len(code))}, []byte(code), pad(imei, 15), pad(sw, 20))
	}
	return []byte(code)
}

// LocBody is the specification of a location report body.
func LocBody(alarm, status, lat, lon uint32, alt, speed, dir uint16, bcdTime string) []byte {
	return Cat(BE32(alarm), BE32(status), BE32(lat), BE32(lon), BE16(alt), BE16(speed), BE16(dir), BCD(bcdTime))
}

// Msg is header and body bytes of an unfragmented message.
func Msg(id uint16, v19 bool, phone string, serial uint16, body []byte) []byte {
	attr := uint16(len(body))
	if v19 {
		attr |= 0x4000
	}
	return Cat(HeaderBytes(id, attr, 1, phone, serial), body)
}

const (
	KReg = iota
	KBeat
	KDereg
	KAuth
	KLoc
	KTime
)

var KindID = []uint16{0x0100, 0x0002, 0x0003, 0x0102, 0x0200, 0x0004}

// Body gives a well-formed body for a request kind.
func Body(kind int, v19 bool, plate, code string, status uint32) []byte {
	switch kind {
	case KReg:
		return RegBody(v19, "DEV1", plate)
	case KAuth:
		return AuthBody(v19, code, "860000000000001", "v1.0")
	case KLoc:
		return LocBody(0, status, 39000000, 116000000, 50, 600, 90, "230102030405")
	}
	return nil
}

// Request is a well-formed request of phone A.
func Request(kind int, v19 bool) []byte {
	p := PhoneA
	if v19 {
		p = V19(p)
	}
	return Msg(KindID[kind], v19, p, 0x0102, Body(kind, v19, PlateA, "12345678", 3))
}

// Packet decodes header bytes into what the processor takes.
func Packet(raw []byte) *model.PacketData {
	h := &model.MsgHeader{}
	err := h.Decode(raw)
	v.Assert(err == nil, "spec-header-refused")
	pd := &model.PacketData{Header: h, Body: raw[h.Idx:]}
	h.Idx = 0
	return pd
}

// Ctx is the context the server passes for a session.
func Ctx(s *model.Session) context.Context {
	return context.WithValue(context.Background(), model.SessionCtxKey{}, s)
}

// NewSession makes a live session on a scripted connection.
func NewSession(name string) (*model.Session, *Conn) {
	c := &Conn{Name: name}
	s := &model.Session{ID: name, Conn: c}
	storage.StoreSession(s)
	return s, c
}

// Do processes one request.
func Do(s *model.Session, raw []byte) (*model.ProcessData, error) {
	return protocol.NewJT808MsgProcessor().Process(Ctx(s), Packet(raw))
}

// Register registers and returns result and code.
func Register(s *model.Session, v19 bool, phone, plate string) (model.ResultCodeType, string) {
	pd, err := Do(s, Msg(0x0100, v19, phone, 1, RegBody(v19, "DEV1", plate)))
	v.Assert(err == nil, "register-error")
	m, ok := pd.Outgoing.(*model.Msg8100)
	v.Assert(ok, "register-reply-type")
	return m.Result, m.AuthCode
}

// Auth authenticates and returns the result.
func Auth(s *model.Session, v19 bool, phone, code string) (model.ResultCode, error) {
	pd, err := Do(s, Msg(0x0102, v19, phone, 2, AuthBody(v19, code, "860000000000001", "v1.0")))
	if err != nil {
		return 255, err
	}
	m, ok := pd.Outgoing.(*model.Msg8001)
	v.Assert(ok, "auth-reply-type")
	return m.Result, nil
}

// Beat, Dereg and Loc send the other requests.
func Beat(s *model.Session, v19 bool, phone string) error {
	_, err := Do(s, Msg(0x0002, v19, phone, 3, nil))
	return err
}

func Dereg(s *model.Session, v19 bool, phone string) error {
	_, err := Do(s, Msg(0x0003, v19, phone, 4, nil))
	return err
}

func Loc(s *model.Session, v19 bool, phone string, status, lat uint32) error {
	_, err := Do(s, Msg(0x0200, v19, phone, 5, LocBody(0, status, lat, 116000000, 50, 600, 90, "230102030405")))
	return err
}

// State is everything observable about one phone.
type State struct {
	Has     bool
	ByPlate bool
	Listed  int
	Jobs    int

	ID, Plate, Phone, SessionID, AuthCode, IMEI, SW string
	Conn                                            net.Conn
	Keepalive                                       time.Duration
	Last                                            int64
	Status                                          model.DeviceStatus
	Ver                                             model.VersionType
	PV                                              uint8

	HasGeo   bool
	Geo      model.GeoMeta
	Loc      model.Location
	Drive    model.Drive
	GeoPhone string
	Time     int64
}

func jobID(j any) string {
	if x, ok := j.(interface{ JobID() string }); ok {
		return x.JobID()
	}
	return "?"
}

// Jobs counts the keepalive jobs of a phone.
func Jobs(phone string) int {
	n := 0
	for _, e := range protocol.NewKeepaliveTimer().Jobs() {
		if jobID(e.Job) == phone {
			n++
		}
	}
	return n
}

// AllJobs counts all keepalive jobs.
func AllJobs() int { return len(protocol.NewKeepaliveTimer().Jobs()) }

// Devices counts all devices.
func Devices() int { return len(storage.GetDeviceCache().ListDevice()) }

// Of observes one phone.
func Of(phone string) State {
	var s State
	c := storage.GetDeviceCache()
	d, err := c.GetDeviceByPhone(phone)
	if err == nil {
		s.Has = true
		s.ID, s.Plate, s.Phone, s.SessionID, s.AuthCode, s.IMEI, s.SW = d.ID, d.Plate, d.Phone, d.SessionID, d.AuthCode, d.IMEI, d.SoftwareVersion
		s.Conn, s.Keepalive, s.Last, s.Status, s.Ver, s.PV = d.Conn, d.Keepalive, d.LastestComTime.UnixMilli(), d.Status, d.VersionDesc, d.ProtocolVersion
		p, err := c.GetDeviceByPlate(d.Plate)
		s.ByPlate = err == nil && p.Phone == phone
	}
	for _, x := range c.ListDevice() {
		if x.Phone == phone {
			s.Listed++
		}
	}
	s.Jobs = Jobs(phone)
	if g, err := storage.GetGeoCache().GetGeoLatestByPhone(phone); err == nil {
		s.HasGeo = true
		s.Geo, s.Loc, s.Drive, s.GeoPhone, s.Time = *g.Geo, *g.Location, *g.Drive, g.Phone, g.Time.UnixMilli()
	}
	return s
}

// Due tells when the scheduler will first run the check of a phone, and how long after a run the next one comes; false: never.
func Due(phone string) (first time.Time, every time.Duration, ok bool) {
	for _, e := range protocol.NewKeepaliveTimer().Jobs() {
		if jobID(e.Job) == phone {
			return e.Next, e.Schedule.Next(e.Next).Sub(e.Next), !e.Next.IsZero()
		}
	}
	return time.Time{}, 0, false
}

// RunJob runs the keepalive check of a phone if it is scheduled.
func RunJob(phone string) bool {
	for _, e := range protocol.NewKeepaliveTimer().Jobs() {
		if jobID(e.Job) == phone {
			e.Job.Run()
			return true
		}
	}
	return false
}

// Push sends raw (header and body) as a frame over the connection of a session
// through the read pipeline, and returns the frames written in answer.
func Push(s *model.Session, c *Conn, raw []byte) ([][]byte, error) {
	n := len(c.Out)
	c.Chunks = append(c.Chunks, Frame(raw))
	if c.Read1 == nil {
		c.Read1 = protocol.NewPipeline(c).ProcessConnRead // one pipeline per connection, as in the server
	}
	err := c.Read1(Ctx(s))
	return c.Out[n:], err
}

// Reply is a parsed answer.
type Reply struct {
	ID, Attr, Serial uint16
	PV               uint8
	Phone            []byte
	Body             []byte
}

// Parse reads a frame by the specification.
func Parse(f []byte) Reply {
	b, ok := Unframe(f)
	v.Assert(ok, "reply-malformed")
	v.Assert(len(b) >= 12, "reply-short")
	r := Reply{ID: uint16(b[0])<<8 | uint16(b[1]), Attr: uint16(b[2])<<8 | uint16(b[3])}
	i, n := 4, 6
	if v.Split(r.Attr&0x4000 != 0) {
		v.Assert(len(b) >= 17, "reply-short")
		r.PV, i, n = b[4], 5, 10
	}
	r.Phone = b[i : i+n]
	r.Serial = uint16(b[i+n])<<8 | uint16(b[i+n+1])
	r.Body = b[i+n+2:]
	return r
}

// Frag is header and body bytes of one fragment.
func Frag(id uint16, v19 bool, phone string, serial, total, index uint16, body []byte) []byte {
	attr := uint16(len(body)) | 0x2000
	if v19 {
		attr |= 0x4000
	}
	return Cat(HeaderBytes(id, attr, 1, phone, serial), BE16(total), BE16(index), body)
}

// Phone pads a phone for the 2019 version.
func Phone(v19 bool, p string) string {
	if v19 {
		return V19(p)
	}
	return p
}

// JobOf finds the scheduled check of a phone.
func JobOf(phone string) func() {
	for _, e := range protocol.NewKeepaliveTimer().Jobs() {
		if jobID(e.Job) == phone {
			j := e.Job
			return func() { j.Run() }
		}
	}
	return nil
}

// Ready registers a device and brings it into a state: 0 offline, 1 online, 2 sleeping; n location reports before.
func Ready(s *model.Session, v19 bool, phone, plate string, state int) string {
	r, code := Register(s, v19, phone, plate)
	v.Assert(r == model.ResSuccess, "setup-register")
	if state > 0 {
		a, err := Auth(s, v19, phone, code)
		v.Assert(err == nil && a == model.ResultSuccess, "setup-auth")
	}
	if state > 1 {
		v.Assert(Loc(s, v19, phone, 0, 7) == nil, "setup-sleep")
	}
	return code
}

// Gone: nothing is left of a registration.
func Gone(phone, plate string) bool {
	c := storage.GetDeviceCache()
	_, e1 := c.GetDeviceByPhone(phone)
	_, e2 := c.GetDeviceByPlate(plate)
	for _, d := range c.ListDevice() {
		if d.Phone == phone || d.Plate == plate {
			return false
		}
	}
	return e1 != nil && e2 != nil && !c.HasPhone(phone) && !c.HasPlate(plate) && Jobs(phone) == 0
}

// Num writes 0..9999 in 4 digits.
func Num(i int) string {
	return string([]byte{byte('0' + i/1000%10), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
}

// AnyLog explores the debug, the info and the error log level.
func AnyLog() { v.LogLevel([]int{0, 1, 3}[v.Pick("log", 3)]) }
