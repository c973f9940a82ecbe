package main

import (
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HNumbers": HNumbers, "HBytes": HBytes, "HDigits": HDigits, "HDigitsLong": HDigitsLong, "HDigitsEdge": HDigitsEdge, "HReadDigits": HReadDigits, "HTime": HTime, "HTimeBytes": HTimeBytes, "HTimeRead": HTimeRead, "HSequence": HSequence})
}

// around: what was written lies between the bytes before and those added after; the buffer handed in keeps its content.
func around(before, written, field []byte) {
	v.Assert(len(written) == len(before)+len(field), "length")
	v.Assert(v.And(v.EqBytes(written[:len(before)], before), v.EqBytes(written[len(before):], field)), "content")
}

// buffer picks the bytes written before, with or without spare capacity (whose content must not matter).
func buffer() []byte {
	n := v.Pick("before", v.Bound(3, 6))
	b := v.Bytes("b", n)
	if v.Pick("spare", 2) == 1 {
		c := make([]byte, n, n+20)
		copy(c, b)
		return c
	}
	return b
}

// after appends further fields and checks that a read touched neither them nor the data.
func read(before, field []byte, n int, rd func(p []byte, i *int)) {
	tail := v.Bytes("t", v.Pick("after", 3))
	p := lib.Cat(before, field, tail)
	keep := lib.Cat(p)
	i := len(before)
	rd(p, &i)
	v.Assert(i == len(before)+n, "position")
	v.Assert(v.EqBytes(p, keep), "packet-changed")
}

// HNumbers: bytes, words and double words.
// bound: every value; 0..2 (thorough 0..5) arbitrary bytes before, 0..2 after, with and without spare capacity
func HNumbers() {
	b := buffer()
	keep := lib.Cat(b)
	switch v.Pick("width", 3) {
	case 0:
		x := v.U8("x")
		around(keep, hex.WriteByte(b, x), []byte{x})
		read(keep, []byte{x}, 1, func(p []byte, i *int) { v.Assert(hex.ReadByte(p, i) == x, "value") })
	case 1:
		x := v.U16("x")
		around(keep, hex.WriteWord(b, x), lib.BE16(x))
		read(keep, lib.BE16(x), 2, func(p []byte, i *int) { v.Assert(hex.ReadWord(p, i) == x, "value") })
	case 2:
		x := v.U32("x")
		around(keep, hex.WriteDoubleWord(b, x), lib.BE32(x))
		read(keep, lib.BE32(x), 4, func(p []byte, i *int) { v.Assert(hex.ReadDoubleWord(p, i) == x, "value") })
	}
	v.Assert(v.EqBytes(b, keep), "buffer-changed")
	v.Reach("done")
}

// HBytes: byte strings and character strings.
// bound: 0..4 (thorough 0..16) arbitrary bytes
func HBytes() {
	b := buffer()
	keep := lib.Cat(b)
	n := v.Pick("n", v.Bound(5, 17))
	x := v.Bytes("x", n)
	if v.Pick("string", 2) == 1 {
		s := string(x)
		around(keep, hex.WriteString(b, s), x)
		read(keep, x, n, func(p []byte, i *int) { v.Assert(v.EqStr(hex.ReadString(p, i, n), s), "value") })
	} else {
		w := hex.WriteBytes(b, x)
		around(keep, w, x)
		read(keep, x, n, func(p []byte, i *int) { v.Assert(v.EqBytes(hex.ReadBytes(p, i, n), x), "value") })
		// what was written does not change with its source
		if n > 0 {
			y := lib.Cat(x)
			x[0] ^= 0xff
			v.Assert(v.EqBytes(w[len(keep):], y), "aliased")
		}
	}
	v.Reach("done")
}

func digits(b []byte, n int) {
	keep := lib.Cat(b)
	s := v.Digits("d", n)
	w := hex.WriteBCD(b, s)
	around(keep, w, lib.BCD(s))
	read(keep, lib.BCD(s), n/2, func(p []byte, i *int) { v.Assert(v.EqStr(hex.ReadBCD(p, i, n/2), s), "value") })
	v.Reach("done")
}

// HDigits: BCD digit strings.
// bound: every string of 8, 10 or 12 digits (the lengths of times and phone numbers up to 2013), with bytes before and after
func HDigits() { digits(buffer(), 8+2*v.Pick("n", 3)) }

// HDigitsLong: longer digit strings, among them the 20 digits of a 2019 phone number.
// bound: every string of 14, 20 (thorough 14, 16, 18, 20, 22, 24) digits
func HDigitsLong() {
	n := []int{14, 20, 16, 18, 22, 24}[v.Pick("n", v.Bound(2, 6))]
	digits([]byte{0x12}, n)
}

// HDigitsEdge: digit strings around the limits of machine numbers.
// bound: 8, 10, 12, 16, 20, 24 and 40 digits, all equal to 0, 1 or 9, or the decimal limits 2^31, 2^32, 2^63, 2^64; with any 2 digits at the start, in the middle or at the end replaced by any others
func HDigitsEdge() {
	n := []int{8, 10, 12, 16, 20, 24, 40}[v.Pick("n", 7)]
	pat := []string{"0", "1", "9", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616"}[v.Pick("pat", 7)]
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
		if len(pat) == 1 {
			b[i] = pat[0]
		} else if k := i - (n - len(pat)); k >= 0 {
			b[i] = pat[k]
		}
	}
	at := []int{0, n / 2, n - 2}[v.Pick("at", 3)]
	b[at], b[at+1] = v.R8("d", '0', '9'), v.R8("d", '0', '9')
	s := string(b)
	w := hex.WriteBCD([]byte{0x12}, s)
	v.Assert(v.EqBytes(w, lib.Cat([]byte{0x12}, lib.BCD(s))), "written")
	i := 1
	v.Assert(v.EqStr(hex.ReadBCD(w, &i, n/2), s), "value")
	v.Assert(i == len(w), "position")
	v.Reach("done")
}

// HReadDigits: any BCD field read is the same field when written again.
// bound: every BCD field of 4..6 (thorough 4..10) bytes with decimal digits
func HReadDigits() {
	n := 4 + v.Pick("n", v.Bound(3, 7))
	s := v.Digits("d", 2*n)
	p := lib.BCD(s)
	i := 0
	got := hex.ReadBCD(p, &i, n)
	v.Assert(i == n, "position")
	v.Assert(v.EqBytes(hex.WriteBCD(nil, got), p), "written-again")
	v.Assert(v.EqStr(hex.Byte2Str(p), s), "hex-string")
	v.Assert(v.EqBytes(hex.Str2Byte(s), p), "hex-bytes")
	v.Reach("done")
}

var years = []int{2000, 2024, 2068}

func days(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 {
			return 29
		}
		return 28
	}
	return 31
}

// date picks a day.
func date() (y, m, d int) {
	if v.Thorough() {
		y = 2000 + v.Pick("y", 69)
	} else {
		y = years[v.Pick("y", 3)]
	}
	m = 1 + v.Pick("m", 12)
	return y, m, []int{1, 16, days(y, m)}[v.Pick("d", 3)]
}

// HTime: timestamps survive writing and reading.
// bound: the first, a middle and the last day of every month, years 2000, 2024, 2068 (thorough: every year 2000-2068); every hour, minute or second with the two others at their first or last value
func HTime() {
	y, m, d := date()
	x := [3]int{0, 0, 0}
	max := [3]int{23, 59, 59}
	f := v.Pick("free", 3)
	for k := range x {
		if k == f {
			x[k] = int(v.R8("x", 0, uint8(max[k])))
		} else if v.Pick("last", 2) == 1 {
			x[k] = max[k]
		}
	}
	t := time.Date(y, time.Month(m), d, x[0], x[1], x[2], 0, time.UTC)
	w := hex.WriteTime([]byte{0x77}, t)
	v.Assert(len(w) == 7, "length")
	i := 1
	r := hex.ReadTime(w, &i)
	v.Assert(i == 7 && w[0] == 0x77, "position")
	v.Assert(r.Equal(t), "value")
	v.Reach("done")
}

// HTimeRead: a field YYMMDDhhmmss is read as that time.
// bound: days as HTime, every second of these days, bytes before and after
func HTimeRead() {
	y, m, d := date()
	two := func(l string, max byte) (byte, int) {
		a, b := v.R8(l+"1", 0, max), v.R8(l+"0", 0, 9)
		return a<<4 | b, int(a)*10 + int(b)
	}
	b := func(n int) byte { return byte(n/10<<4 | n%10) }
	hb, h := two("h", 2)
	mb, mi := two("m", 5)
	sb, s := two("s", 5)
	v.Assume(h <= 23)
	i := 1
	p := []byte{9, b(y % 100), b(m), b(d), hb, mb, sb, 9}
	r := hex.ReadTime(p, &i)
	v.Assert(i == 7, "position")
	v.Assert(r.Equal(time.Date(y, time.Month(m), d, h, mi, s, 0, time.UTC)), "value")
	v.Reach("done")
}

// HTimeBytes: the layout of a time is YYMMDDhhmmss in BCD.
// bound: days as HTime, every second of these days
func HTimeBytes() {
	y, m, d := date()
	h, mi, s := int(v.R8("h", 0, 23)), int(v.R8("mi", 0, 59)), int(v.R8("s", 0, 59))
	t := time.Date(y, time.Month(m), d, h, mi, s, 0, time.UTC)
	w := hex.WriteTime(nil, t)
	b := func(n int) byte { return byte(n/10<<4 | n%10) }
	v.Assert(v.EqBytes(w, []byte{b(y % 100), b(m), b(d), b(h), b(mi), b(s)}), "layout")
	v.Reach("done")
}

// HSequence: fields written one after another are read one after another.
// bound: 3 (thorough 5) fields of every kind in every order, arbitrary values
func HSequence() {
	var p []byte
	var checks []func(i *int)
	n := v.Bound(3, 5)
	for k := 0; k < n; k++ {
		switch v.Pick("kind", 5) {
		case 0:
			x := v.U8("x")
			p = hex.WriteByte(p, x)
			checks = append(checks, func(i *int) { v.Assert(hex.ReadByte(p, i) == x, "byte") })
		case 1:
			x := v.U16("x")
			p = hex.WriteWord(p, x)
			checks = append(checks, func(i *int) { v.Assert(hex.ReadWord(p, i) == x, "word") })
		case 2:
			x := v.U32("x")
			p = hex.WriteDoubleWord(p, x)
			checks = append(checks, func(i *int) { v.Assert(hex.ReadDoubleWord(p, i) == x, "dword") })
		case 3:
			x := v.Bytes("x", 3)
			p = hex.WriteBytes(p, x)
			checks = append(checks, func(i *int) { v.Assert(v.EqBytes(hex.ReadBytes(p, i, 3), x), "bytes") })
		case 4:
			x := v.Digits("x", 8)
			p = hex.WriteBCD(p, x)
			checks = append(checks, func(i *int) { v.Assert(v.EqStr(hex.ReadBCD(p, i, 4), x), "digits") })
		}
	}
	i := 0
	for _, c := range checks {
		c(&i)
	}
	v.Assert(i == len(p), "position")
	v.Reach("done")
}
