package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HStatus": HStatus, "HFlags": HFlags})
}

// HStatus: decode every status word, encode it back.
// bound: all 2^32 status words
func HStatus() {
	s := v.U32("status")
	g := &model.GeoMeta{}
	g.Decode(s)
	bit := func(n uint) uint8 { return uint8(s >> n & 1) }
	v.Assert(g.ACCStatus == bit(0), "acc")
	v.Assert(g.LocationStatus == bit(1), "fix")
	v.Assert(g.LatitudeType == bit(2), "south")
	v.Assert(g.LongitudeType == bit(3), "west")
	v.Assert(g.OperatingStatus == bit(4), "operating")
	v.Assert(g.GeoEncryptionStatus == bit(5), "encrypted")
	v.Assert(g.LoadStatus == uint8(s>>8&3), "load")
	v.Assert(g.FuelSystemStatus == bit(10), "oil")
	v.Assert(g.AlternatorSystemStatus == bit(11), "electric")
	v.Assert(g.DoorLockedStatus == bit(12), "lock")
	v.Assert(g.FrontDoorStatus == bit(13), "door1")
	v.Assert(g.MidDoorStatus == bit(14), "door2")
	v.Assert(g.BackDoorStatus == bit(15), "door3")
	v.Assert(g.DriverDoorStatus == bit(16), "door4")
	v.Assert(g.CustomDoorStatus == bit(17), "door5")
	v.Assert(g.GPSLocationStatus == bit(18), "gps")
	v.Assert(g.BeidouLocationStatus == bit(19), "beidou")
	v.Assert(g.GLONASSLocationStatus == bit(20), "glonass")
	v.Assert(g.GalileoLocationStatus == bit(21), "galileo")
	v.Assert(g.DrivingStatus == bit(22), "driving")
	const defined = 0x7fff3f
	e := g.Encode()
	v.Assert(e&defined == s&defined, "reencode")
	v.Assert(e&^uint32(defined) == 0, "reserved-clear")
	v.Observe("e", e)
	// decoding into a used structure gives the same
	g2 := &model.GeoMeta{}
	g2.Decode(v.U32("before"))
	g2.Decode(s)
	v.Assert(*g2 == *g, "stale")
	v.Reach("done")
}

// HFlags: encode flags set by hand, decode them back.
// bound: all values of all 20 flags within their bit widths
func HFlags() {
	b := func(n string) uint8 { return v.R8(n, 0, 1) }
	g := model.GeoMeta{ACCStatus: b("a"), LocationStatus: b("b"), LatitudeType: b("c"), LongitudeType: b("d"), OperatingStatus: b("e"),
		GeoEncryptionStatus: b("f"), LoadStatus: v.R8("g", 0, 3), FuelSystemStatus: b("h"), AlternatorSystemStatus: b("i"), DoorLockedStatus: b("j"),
		FrontDoorStatus: b("k"), MidDoorStatus: b("l"), BackDoorStatus: b("m"), DriverDoorStatus: b("n"), CustomDoorStatus: b("o"),
		GPSLocationStatus: b("p"), BeidouLocationStatus: b("q"), GLONASSLocationStatus: b("r"), GalileoLocationStatus: b("s"), DrivingStatus: b("t")}
	w := g
	e := g.Encode()
	v.Assert(g == w, "encode-mutates")
	v.Assert(e&1 == uint32(w.ACCStatus), "acc-bit")
	v.Assert(e>>2&1 == uint32(w.LatitudeType), "south-bit")
	v.Assert(e>>3&1 == uint32(w.LongitudeType), "west-bit")
	var r model.GeoMeta
	r.Decode(e)
	v.Assert(r == w, "roundtrip")
	v.Observe("e", e)
	v.Reach("done")
}
