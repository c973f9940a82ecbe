package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HAny": HAny, "HEmpty": HEmpty, "HEscaped": HEscaped, "HShort": HShort, "HLong": HLong, "HState": HState})
}

func decode(f []byte) (pd *model.PacketData, err error, panicked bool) {
	panicked = v.Catch(func() { pd, err = protocol.NewJT808PacketCodec().Decode(f) })
	return
}

// HAny: frames without escapes, long enough for a header.
// bound: all byte strings of 13..20 (quick) / 13..40 (thorough) non-special bytes between the flags, unfragmented 2013 header
func HAny() {
	n := 13 + v.Pick("n", v.Bound(8, 28))
	b := v.Bytes("b", n)
	for _, x := range b {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
	v.Assume(b[2]&0x60 == 0)
	f := lib.Cat([]byte{0x7e}, b, []byte{0x7e})
	pd, err, p := decode(f)
	v.Assert(!p, "panic")
	v.Assert(v.Iff(err == nil, lib.Xor(b) == 0), "accepted-iff-xor-zero")
	v.Observe("ok", err == nil)
	if err == nil {
		v.Assert(v.EqBytes(pd.Body, b[12:n-1]), "body")
	}
	v.Reach("done")
}

// HEscaped: frames with escape pairs, also in the checksum position.
// bound: 14 (quick) / 18 (thorough) arbitrary unescaped bytes of which at most two (any positions, checksum included) are 7D/7E
func HEscaped() {
	n := v.Bound(14, 18)
	i := v.Pick("i", n)
	j := v.Pick("j", n)
	v.Assume(i <= j)
	b := v.Bytes("b", n)
	for k := range b {
		if k != i && k != j {
			v.Assume(v.Not(lib.IsSpecial(b[k])))
		}
	}
	v.Assume(b[2]&0x60 == 0)
	for k := 4; k < 10; k++ { // phone: digits, or one of the two specials
		v.Assume(v.Or(v.And(b[k]&15 <= 9, b[k]>>4 <= 9), lib.IsSpecial(b[k])))
	}
	f := lib.Cat([]byte{0x7e}, lib.Escape(b), []byte{0x7e})
	_, err, p := decode(f)
	v.Assert(!p, "panic")
	v.Assert(v.Iff(err == nil, lib.Xor(b) == 0), "accepted-iff-xor-zero")
	v.Observe("ok", err == nil)
	v.Reach("done")
}

// HLong: the longest packets of the protocol: the checksum covers all of the bytes.
// bound: packets of 255..258, 511..514 and 1020..1023 body bytes, every one of them (and the checksum) any value 0..0x3f, one header
func HLong() {
	bases := []int{255, 511, 1020}
	n := bases[v.Pick("base", len(bases))] + v.Pick("more", 4)
	b := lib.HeaderBytes(0x0900, uint16(n), 1, lib.PhoneA, 5)
	b[11] ^= lib.Xor(b) & 0xc0 // so that checksums 0..0x3f can be right
	x := v.Bytes("b", n+1)
	for i := range x {
		b = append(b, x[i]&0x3f)
	}
	pd, err, p := decode(lib.Cat([]byte{0x7e}, b, []byte{0x7e}))
	v.Assert(!p, "panic")
	v.Assert(v.Iff(err == nil, lib.Xor(b) == 0), "accepted-iff-xor-zero")
	v.Observe("ok", err == nil)
	if err == nil {
		v.Assert(len(pd.Body) == n, "body-length")
	}
	v.Reach("done")
}

// HEmpty: the empty frame.
// bound: the single empty frame
func HEmpty() {
	_, err, p := decode([]byte{0x7e, 0x7e})
	v.Assert(!p, "panic")
	v.Assert(err != nil, "empty-accepted")
	v.Reach("done")
}

// HShort: frames too short for a header are never accepted when the checksum is wrong.
// bound: all byte strings of 1..6 bytes between the flags
func HShort() {
	n := 1 + v.Pick("n", 6)
	b := v.Bytes("b", n)
	for _, x := range b {
		v.Assume(v.Not(lib.IsSpecial(x)))
	}
	v.Assume(lib.Xor(b) != 0)
	_, err, p := decode(lib.Cat([]byte{0x7e}, b, []byte{0x7e}))
	v.Assert(!p, "panic")
	v.Assert(err != nil, "accepted")
	v.Reach("done")
}

// HState: one damaged byte (any position, any damage) in a valid request leaves no trace.
// bound: the five state-changing requests, one byte between the flags xored with any non-zero value (result not a special byte)
func HState() {
	kind := v.Pick("kind", 5)
	f := lib.Frame(lib.Request(kind, false))
	pos := 1 + v.Pick("pos", len(f)-2)
	d := v.U8("damage")
	v.Assume(d != 0)
	x := f[pos] ^ d
	v.Assume(v.Not(lib.IsSpecial(x)))
	v.Assume(v.Not(lib.IsSpecial(f[pos])))
	f[pos] = x
	home, _ := lib.NewSession("home")
	if kind != lib.KReg {
		_, code := lib.Register(home, false, lib.PhoneA, lib.PlateA)
		lib.Auth(home, false, lib.PhoneA, code)
	}
	before, devs := lib.Of(lib.PhoneA), lib.Devices()
	s, conn := lib.NewSession("other")
	conn.Chunks = [][]byte{f}
	v.Advance(5)
	err := protocol.NewPipeline(conn).ProcessConnRead(lib.Ctx(s))
	v.Assert(err != nil, "accepted")
	v.Assert(conn.Writes == 0, "replied")
	v.Assert(lib.Of(lib.PhoneA) == before, "state-changed")
	v.Assert(lib.Devices() == devs, "device-added")
	v.Reach("done")
}
