package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HDecode": HDecode, "HEncode": HEncode})
}

// HDecode: every header of both versions, fragmented or not.
// bound: all 2^16 attribute words, all message ids, serial numbers, protocol versions, fragment totals/indices and all phone digit strings (12 or 20 digits); 0 to 3 body bytes follow
func HDecode() {
	id := v.U16("id")
	attr := v.U16("attr")
	ver19 := v.Split(attr&0x4000 != 0)
	frag := v.Split(attr&0x2000 != 0)
	pv := v.U8("pv")
	n := 12
	if ver19 {
		n = 20
	}
	phone := v.Digits("phone", n)
	serial := v.U16("serial")
	total, index := v.U16("total"), v.U16("index")
	body := v.Bytes("body", v.Pick("bodylen", 4))

	pkt := lib.Cat(lib.BE16(id), lib.BE16(attr))
	if ver19 {
		pkt = append(pkt, pv)
	}
	pkt = lib.Cat(pkt, lib.BCD(phone), lib.BE16(serial))
	if frag {
		pkt = lib.Cat(pkt, lib.BE16(total), lib.BE16(index))
	}
	hl := len(pkt)
	pkt = append(pkt, body...)
	orig := lib.Cat(pkt)

	h := &model.MsgHeader{}
	err := h.Decode(pkt)
	v.Assert(err == nil, "decode-error")
	v.Assert(v.EqBytes(pkt, orig), "input-changed")
	v.Assert(h.MsgID == id, "msgid")
	v.Assert(h.Attr.BodyLength == attr&0x3ff, "bodylength")
	v.Assert(h.Attr.Encryption == uint8(attr>>10&7), "encryption")
	v.Assert(h.Attr.PacketFragmented == uint8(attr>>13&1), "fragmented")
	v.Assert(h.Attr.VersionSign == uint8(attr>>14&1), "versionsign")
	v.Assert(h.Attr.Extra == uint8(attr>>15), "extra")
	v.Assert(bool(h.Attr.PacketFragmentedDesc) == frag, "fragdesc")
	v.Assert(h.IsFragmented() == frag, "isfragmented")
	if ver19 {
		v.Assert(h.Attr.VersionDesc == model.Version2019, "version2019")
		v.Assert(h.ProtocolVersion == pv, "protocolversion")
	} else {
		v.Assert(h.Attr.VersionDesc == model.Version2013, "version2013")
		v.Assert(h.ProtocolVersion == 0, "protocolversion13")
	}
	enc := attr >> 10 & 7
	v.Assert(v.Implies(enc == 0, h.Attr.EncryptionDesc == model.EncryptionNone), "encdesc-none")
	v.Assert(v.Implies(enc == 1, h.Attr.EncryptionDesc == model.EncryptionRSA), "encdesc-rsa")
	v.Assert(v.Implies(enc > 1, h.Attr.EncryptionDesc == model.EncryptionUnknown), "encdesc-unknown")
	v.Assert(len(h.PhoneNumber) == n, "phonelen")
	v.Assert(v.EqStr(h.PhoneNumber, phone), "phone")
	v.Assert(h.SerialNumber == serial, "serial")
	if frag {
		v.Assert(h.Frag != nil, "frag-present")
		v.Assert(h.Frag.Total == total, "total")
		v.Assert(h.Frag.Index == index, "index")
	} else {
		v.Assert(h.Frag == nil, "frag-absent")
	}
	v.Assert(h.Idx == hl, "bodystart")
	out, err := h.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, orig[:hl]), "reencode")
	v.Observe("out", out)
	v.Reach("done")
}

// HEncode: a header built from its fields.
// bound: all field values of the widths the layout gives them, both versions
func HEncode() {
	ver19 := v.Bool("v19")
	ver19 = v.Split(ver19)
	frag := v.Split(v.Bool("frag"))
	id, serial := v.U16("id"), v.U16("serial")
	bl := v.U16("bl")
	v.Assume(bl <= 1023)
	enc := v.R8("enc", 0, 7)
	extra := v.R8("extra", 0, 1)
	pv := v.U8("pv")
	n, vs, vd := 12, uint8(0), model.Version2013
	if ver19 {
		n, vs, vd = 20, 1, model.Version2019
	}
	phone := v.Digits("phone", n)
	h := &model.MsgHeader{MsgID: id, ProtocolVersion: pv, PhoneNumber: phone, SerialNumber: serial,
		Attr: &model.MsgBodyAttr{BodyLength: bl, Encryption: enc, VersionSign: vs, Extra: extra, VersionDesc: vd}}
	attr := bl | uint16(enc)<<10 | uint16(vs)<<14 | uint16(extra)<<15
	total, index := v.U16("total"), v.U16("index")
	if frag {
		h.Attr.PacketFragmented = 1
		h.Attr.PacketFragmentedDesc = true
		h.Frag = &model.MsgFragmentation{Total: total, Index: index}
		attr |= 1 << 13
	}
	want := lib.Cat(lib.BE16(id), lib.BE16(attr))
	if ver19 {
		want = append(want, pv)
	}
	want = lib.Cat(want, lib.BCD(phone), lib.BE16(serial))
	if frag {
		want = lib.Cat(want, lib.BE16(total), lib.BE16(index))
	}
	out, err := h.Encode()
	v.Assert(err == nil, "encode-error")
	v.Assert(v.EqBytes(out, want), "encode-layout")
	v.Observe("out", out)
	v.Reach("done")
}
