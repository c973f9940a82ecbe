package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/codec/gbk"
	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HChars": HChars, "HRunes": HRunes, "HRunes2": HRunes2, "HAscii": HAscii, "HMixed": HMixed, "HLong": HLong, "HBoundary": HBoundary, "HBroken": HBroken, "HKnown": HKnown})
}

const replaced = "\ufffd"

// HChars: every double byte character survives GBK -> UTF-8 -> GBK -> UTF-8.
// bound: every lead byte, every trail byte
func HChars() {
	lead := 0x81 + byte(v.Pick("lead", 126))
	trail := v.R8("t", 0x40, 0xfe)
	v.Assume(trail != 0x7f)
	u, err := gbk.GBK2UTF8([]byte{lead, trail})
	v.Assert(err == nil, "decode-error")
	if v.Split(v.EqBytes(u, []byte(replaced))) {
		v.Reach("undefined")
		return
	}
	g, err := gbk.UTF82GBK(u)
	v.Assert(err == nil, "encode-error")
	v.Assert(len(g) <= 2, "length")
	u2, err := gbk.GBK2UTF8(g)
	v.Assert(err == nil, "decode-again-error")
	v.Assert(v.EqBytes(u, u2), "character-changed")
	i := 1
	v.Assert(v.EqStr(hex.ReadGBK([]byte{9, lead, trail, 'Z'}, &i, 2), string(u)), "field")
	v.Assert(i == 3, "position")
	v.Reach("character")
}

// text judges one text: either it converts and comes back, or nothing but it is lost.
func text(s []byte) {
	before := []byte{0x7d, 0x00, 0x41}
	w := hex.WriteGBK(lib.Cat(before), string(s))
	v.Assert(len(w) >= 3 && v.EqBytes(w[:3], before), "bytes-before-lost")
	g, err := gbk.UTF82GBK(s)
	if err != nil {
		v.Assert(len(w) == 3, "unconverted-bytes-written")
		v.Reach("refused")
		return
	}
	v.Assert(v.EqBytes(w[3:], g), "field-bytes")
	i := 3
	back := hex.ReadGBK(append(w, 0x55), &i, len(g))
	v.Assert(i == 3+len(g), "position")
	v.Assert(v.EqStr(back, string(s)), "text-changed")
	v.Reach("converted")
}

// HRunes: three byte UTF-8 characters.
// bound: every character U+4E00..U+9FFF (thorough: every U+0800..U+FFFF)
func HRunes() {
	b0 := byte(0xe4) + byte(v.Pick("b0", v.Bound(6, 1)))
	if v.Thorough() {
		b0 = 0xe0 + byte(v.Pick("lead", 16))
	}
	lo, n := 0x80, 64
	if b0 == 0xe0 {
		lo, n = 0xa0, 32
	} else if b0 == 0xed {
		n = 32 // no surrogates
	} else if b0 == 0xe4 && !v.Thorough() {
		lo, n = 0xb8, 8
	}
	b1 := byte(lo) + byte(v.Pick("b1", n))
	b2 := v.R8("b2", 0x80, 0xbf)
	if b0 == 0xef && b1 == 0xbf {
		v.Assume(b2 < 0xbd) // the replacement character itself is not text
	}
	text([]byte{b0, b1, b2})
}

// HRunes2: two byte UTF-8 characters (Greek, Cyrillic, pinyin vowels and symbols).
// bound: every character U+0080..U+07FF
func HRunes2() {
	text([]byte{0xc2 + byte(v.Pick("b0", 30)), v.R8("b1", 0x80, 0xbf)})
}

// HAscii: ASCII bytes map to themselves, in both directions.
// bound: 0..4 (thorough 0..12) arbitrary ASCII bytes
func HAscii() {
	n := v.Pick("n", v.Bound(5, 13))
	s := v.Ascii("a", n, 0, 0x7f)
	g, err := gbk.UTF82GBK([]byte(s))
	v.Assert(err == nil && v.EqStr(string(g), s), "to-gbk")
	u, err := gbk.GBK2UTF8([]byte(s))
	v.Assert(err == nil && v.EqStr(string(u), s), "to-utf8")
	text([]byte(s))
}

// HMixed: plates and texts of Chinese characters and ASCII in any order.
// bound: 3 (thorough 4) positions, each a symbolic ASCII byte or one of two ranges of 64 characters with a symbolic member
func HMixed() {
	n := v.Bound(3, 4)
	var s []byte
	for i := 0; i < n; i++ {
		switch v.Pick("kind", 3) {
		case 0:
			s = append(s, v.R8("a", 0, 0x7f))
		case 1:
			s = append(s, 0xe4, 0xba, v.R8("c", 0x80, 0xbf))
		case 2:
			s = append(s, 0xe6, 0xb2, v.R8("c", 0x80, 0xbf))
		}
	}
	text(s)
}

// HLong: long texts survive as well (the conversion works in blocks).
// bound: texts of 100, 600, 2049, 5000 bytes (thorough: and 9000) of one character with a symbolic last byte and ASCII, starting at offsets 0..2
func HLong() {
	n := []int{100, 600, 2049, 5000, 9000}[v.Pick("n", v.Bound(4, 5))]
	off := v.Pick("off", 3)
	c := v.R8("c", 0xac, 0xaf)
	s := []byte("ABC")[:off]
	for len(s) < n {
		s = append(s, 0xe4, 0xba, c)
	}
	text(s)
}

// HBoundary: a character the conversion cannot represent, next to ones it can.
// bound: an unconvertible character (two, three and four byte UTF-8) at the start, in the middle or at the end of a text of up to 3 characters
func HBoundary() {
	bad := [][]byte{[]byte("\u0627"), []byte("\u0e01"), []byte("\U0001f600"), []byte("\uac00")}[v.Pick("bad", 4)]
	at := v.Pick("at", 3)
	var s []byte
	for i := 0; i < 3; i++ {
		if i == at {
			s = append(s, bad...)
		} else if v.Pick("kind", 2) == 0 {
			s = append(s, v.R8("a", 0, 0x7f))
		} else {
			s = append(s, 0xe4, 0xba, 0xac)
		}
	}
	before := []byte{1, 2, 3}
	w := hex.WriteGBK(lib.Cat(before), string(s))
	v.Assert(len(w) >= 3 && v.EqBytes(w[:3], before), "bytes-before-lost")
	// what follows is written behind
	w2 := hex.WriteWord(w, 0xabcd)
	v.Assert(v.EqBytes(w2[:3], before) && v.EqBytes(w2[len(w):], []byte{0xab, 0xcd}), "following-field")
	v.Reach("done")
}

// HBroken: reading a field of arbitrary bytes never fails otherwise than by an empty or replaced text, takes exactly the field and leaves the packet alone.
// bound: fields of 0..3 bytes, every byte arbitrary (the first of up to 3 bytes a lead byte, the rest arbitrary)
func HBroken() {
	n := v.Pick("n", 4)
	f := make([]byte, n)
	for i := range f {
		if i%2 == 0 {
			f[i] = []byte{0x41, 0x80, 0x81, 0xbe, 0xfe, 0xff}[v.Pick("lead", 6)]
		} else {
			f[i] = v.U8("f")
		}
	}
	p := lib.Cat([]byte{7}, f, []byte{0x42})
	keep := lib.Cat(p)
	i := 1
	v.Assert(!v.Catch(func() { hex.ReadGBK(p, &i, n) }), "panic")
	v.Assert(i == 1+n, "position")
	v.Assert(v.EqBytes(p, keep), "packet-changed")
	v.Reach("done")
}

// HKnown: characters and their codes by the GBK table.
// bound: the province abbreviations and other plate characters, with a symbolic ASCII byte on either side
func HKnown() {
	us := []string{"京", "津", "沪", "渝", "冀", "豫", "云", "辽", "黑", "湘", "皖", "鲁", "新", "苏", "浙", "赣", "鄂", "桂", "甘", "晋", "蒙", "陕", "吉", "闽", "贵", "粤", "青", "藏", "川", "宁", "琼", "港", "澳", "学", "警", "€"}
	gs := []uint16{0xbea9, 0xbdf2, 0xbba6, 0xd3e5, 0xbcbd, 0xd4a5, 0xd4c6, 0xc1c9, 0xbada, 0xcfe6, 0xcdee, 0xc2b3, 0xd0c2, 0xcbd5, 0xd5e3, 0xb8d3, 0xb6f5, 0xb9f0, 0xb8ca, 0xbdfa, 0xc3c9, 0xc9c2, 0xbcaa, 0xc3f6, 0xb9f3, 0xd4c1, 0xc7e0, 0xb2d8, 0xb4a8, 0xc4fe, 0xc7ed, 0xb8db, 0xb0c4, 0xd1a7, 0xbeaf, 0x80}
	k := v.Pick("k", len(us))
	a, b := v.R8("a", 0, 0x7f), v.R8("b", 0, 0x7f)
	s := lib.Cat([]byte{a}, []byte(us[k]), []byte{b})
	code := lib.BE16(gs[k])
	if gs[k] < 0x100 {
		code = code[1:]
	}
	g := lib.Cat([]byte{a}, code, []byte{b})
	v.Assert(v.EqBytes(hex.WriteGBK(nil, string(s)), g), "to-gbk")
	i := 0
	v.Assert(v.EqStr(hex.ReadGBK(g, &i, len(g)), string(s)), "to-utf8")
	v.Reach("done")
}
