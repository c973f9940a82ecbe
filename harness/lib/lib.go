// Package lib holds what several harnesses share: an independent statement of
// the JT/T 808 wire format and the fakes for connections.
package lib

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

// BE16 and BE32 are the big-endian byte strings of a number.
func BE16(x uint16) []byte { return []byte{byte(x >> 8), byte(x)} }
func BE32(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

// BCD packs decimal digits two per byte.
func BCD(digits string) []byte {
	b := make([]byte, len(digits)/2)
	for i := range b {
		b[i] = (digits[2*i]-'0')<<4 | (digits[2*i+1] - '0')
	}
	return b
}

// Cat concatenates.
func Cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// Xor of all bytes.
func Xor(b []byte) byte {
	var s byte
	for _, x := range b {
		s ^= x
	}
	return s
}

// IsSpecial: the byte needs escaping.
func IsSpecial(b byte) bool { return v.Or(b == 0x7d, b == 0x7e) }

// Raw is a message whose encoding is given.
type Raw struct {
	B   []byte
	Err error
	H   *model.MsgHeader
}

func (r *Raw) Decode(*model.PacketData) error     { return nil }
func (r *Raw) Encode() ([]byte, error)            { return Cat(r.B), r.Err }
func (r *Raw) GetHeader() *model.MsgHeader        { return r.H }
func (r *Raw) GenOutgoing(_ model.JT808Msg) error { return nil }

// HeaderBytes is the specification of the header layout.
func HeaderBytes(id, attr uint16, pv uint8, phone string, serial uint16) []byte {
	p := Cat(BE16(id), BE16(attr))
	if attr&0x4000 != 0 {
		p = append(p, pv)
	}
	return Cat(p, BCD(phone), BE16(serial))
}

// Escape and Unescape are the specification of the transport encoding between the flags.
func Escape(b []byte) []byte {
	var r []byte
	for _, x := range b {
		if x == 0x7e {
			r = append(r, 0x7d, 2)
		} else if x == 0x7d {
			r = append(r, 0x7d, 1)
		} else {
			r = append(r, x)
		}
	}
	return r
}

// Frame wraps header and body into a frame.
func Frame(b []byte) []byte {
	return Cat([]byte{0x7e}, Escape(append(Cat(b), Xor(b))), []byte{0x7e})
}

// Unframe is the inverse; ok is false when the checksum is wrong or the frame is malformed.
func Unframe(f []byte) (b []byte, ok bool) {
	if len(f) < 3 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return nil, false
	}
	in := f[1 : len(f)-1]
	for i := 0; i < len(in); i++ {
		x := in[i]
		if x == 0x7e {
			return nil, false
		}
		if x == 0x7d {
			if i+1 >= len(in) {
				return nil, false
			}
			i++
			if in[i] == 1 {
				x = 0x7d
			} else if in[i] == 2 {
				x = 0x7e
			} else {
				return nil, false
			}
		}
		b = append(b, x)
	}
	return b[:len(b)-1], v.Split(Xor(b) == 0)
}
