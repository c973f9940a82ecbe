package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HBody": HBody, "HHeader": HHeader, "HSparse": HSparse, "HMessage": HMessage, "HLong": HLong, "HParallel": HParallel})
}

// wire checks a frame's shape: flags only at the ends, 7D only in the two pairs.
func wire(f []byte) {
	n := len(f)
	v.Assert(n >= 2, "frame-short")
	v.Assert(v.And(f[0] == 0x7e, f[n-1] == 0x7e), "flags")
	inside, pairs := true, true
	for i := 1; i < n-1; i++ {
		inside = v.And(inside, f[i] != 0x7e)
		if i+1 < n-1 {
			pairs = v.And(pairs, v.Implies(f[i] == 0x7d, v.Or(f[i+1] == 1, f[i+1] == 2)))
		} else {
			pairs = v.And(pairs, f[i] != 0x7d)
		}
	}
	v.Assert(inside, "flag-inside")
	v.Assert(pairs, "escape-pair")
}

// roundtrip encodes header bytes and body and decodes the frame.
func roundtrip(id, attr uint16, pv uint8, phone string, serial uint16, body []byte) {
	raw := lib.Cat(lib.HeaderBytes(id, attr, pv, phone, serial), body)
	pc := protocol.NewJT808PacketCodec()
	f, err := pc.Encode(&lib.Raw{B: raw})
	v.Assert(err == nil, "encode-error")
	wire(f)
	v.Observe("frame", f)
	pd, err := pc.Decode(f)
	v.Assert(err == nil, "decode-error")
	v.Assert(pd.Header.MsgID == id, "id")
	v.Assert(pd.Header.SerialNumber == serial, "serial")
	v.Assert(pd.Header.Attr.BodyLength == attr&0x3ff, "bodylength")
	v.Assert(v.EqStr(pd.Header.PhoneNumber, phone), "phone")
	v.Assert(len(pd.Body) == len(body), "body-length")
	v.Assert(v.EqBytes(pd.Body, body), "body")
	v.Reach("done")
}

// HBody: every body.
// bound: all bodies of 0..5 (quick) / 0..7 (thorough) bytes, any values; the checksum takes every value
func HBody() {
	n := v.Pick("n", v.Bound(6, 8))
	b := v.Bytes("b", n)
	roundtrip(0x0900, uint16(n), 0, "123456789012", 7, b)
}

// HHeader: specials in every header byte that can hold them.
// bound: all message ids, serial numbers, protocol versions; body of 1 byte; both versions
func HHeader() {
	attr, phone := uint16(1), "013912345678"
	if v.Pick("v19", 2) == 1 {
		attr, phone = 0x4001, "00000000013912345678"
	}
	roundtrip(v.U16("id"), attr, v.U8("pv"), phone, v.U16("serial"), v.Bytes("b", 1))
}

// HSparse: longer bodies with up to two specials anywhere.
// bound: bodies of 20 (quick) / 36 (thorough) symbolic bytes, at most two of them (any two positions) and the checksum taking the values 7D/7E, adjacent ones included
func HSparse() {
	n := v.Bound(20, 36)
	i := v.Pick("i", n)
	j := v.Pick("j", n)
	v.Assume(i <= j)
	b := v.Bytes("b", n)
	for k := range b {
		if k != i && k != j {
			v.Assume(v.Not(lib.IsSpecial(b[k])))
		}
	}
	roundtrip(0x0900, uint16(n), 0, "123456789012", 0x1234, b)
}

// HMessage: a real message through the codec.
// bound: registration replies with all serial numbers, results and 3 (quick) / 5 (thorough) arbitrary code bytes, both versions
func HMessage() {
	h := &model.MsgHeader{MsgID: 0x8100, PhoneNumber: "123456789012", SerialNumber: v.U16("serial"),
		Attr: &model.MsgBodyAttr{VersionDesc: model.Version2013}}
	if v.Pick("v19", 2) == 1 {
		h.PhoneNumber, h.ProtocolVersion = "00000000123456789012", 1
		h.Attr.VersionSign, h.Attr.VersionDesc = 1, model.Version2019
	}
	code := string(v.Bytes("code", v.Bound(3, 5)))
	m := &model.Msg8100{Header: h, AnswerSerialNumber: v.U16("ans"), Result: model.ResultCodeType(v.U8("res")), AuthCode: code}
	v.Assume(v.Not(lib.IsSpecial(byte(m.Result))))
	v.Assume(v.Not(lib.IsSpecial(byte(h.SerialNumber))))
	pc := protocol.NewJT808PacketCodec()
	f, err := pc.Encode(m)
	v.Assert(err == nil, "encode-error")
	wire(f)
	v.Observe("frame", f)
	pd, err := pc.Decode(f)
	v.Assert(err == nil, "decode-error")
	r := &model.Msg8100{}
	v.Assert(r.Decode(pd) == nil, "msg-decode")
	v.Assert(r.AnswerSerialNumber == m.AnswerSerialNumber, "answer-serial")
	v.Assert(r.Result == m.Result, "result")
	v.Assert(v.EqStr(r.AuthCode, code), "code")
	v.Assert(r.Header.SerialNumber == h.SerialNumber, "serial")
	v.Reach("done")
}

// HLong: full-size bodies.
// bound: bodies of 256 and 1023 (quick) / 255,256,511,512,1000,1022,1023 (thorough) bytes: constant filler of 7D, 7E, 7D/7E alternating or 01, with 4 symbolic bytes
func HLong() {
	n := []int{1023, 256, 255, 511, 512, 1000, 1022}[v.Pick("n", v.Bound(2, 7))]
	b := make([]byte, n)
	fill := v.Pick("fill", 4)
	for i := range b {
		switch fill {
		case 0:
			b[i] = 0x7d
		case 1:
			b[i] = 0x7e
		case 2:
			b[i] = 0x7d + byte(i&1)
		case 3:
			b[i] = 1
		}
	}
	for k := 0; k < 4; k++ {
		b[k*(n-1)/3] = v.U8("x")
	}
	roundtrip(0x0900, uint16(n), 0, "123456789012", 7, b)
}

// HParallel: connections share the codec.
// bound: two goroutines each encoding and decoding one message with concrete bodies of different lengths, every interleaving at statement level with at most 2 (thorough 3) preemptions
func HParallel() {
	protocol.NewJT808PacketCodec()
	bodies := [][]byte{{0x7e, 1, 2}, {3, 4, 5, 6, 7, 0x7d, 8}}
	var got [2]*model.PacketData
	var fr [2][]byte
	run := func(k int) func() {
		return func() {
			pc := protocol.NewJT808PacketCodec()
			f, err := pc.Encode(&lib.Raw{B: lib.Cat(lib.HeaderBytes(0x0900, uint16(len(bodies[k])), 1, "123456789012", uint16(k)), bodies[k])})
			v.Assert(err == nil, "encode-error")
			fr[k] = lib.Cat(f)
			v.Touch()
			pd, err := pc.Decode(f)
			v.Assert(err == nil, "decode-error")
			got[k] = pd
		}
	}
	v.Concurrent(v.Bound(2, 3), true, run(0), run(1))
	for k := range got {
		wire(fr[k])
		v.Assert(v.EqBytes(got[k].Body, bodies[k]) && got[k].Header.SerialNumber == uint16(k), "mixed-up")
	}
	v.Reach("done")
}
