package main

import (
	"context"
	"errors"
	"io"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/zzv/lib"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HEndless": HEndless, "HStream": HStream, "HChunks": HChunks, "HLong": HLong, "HMany": HMany, "HCut": HCut})
}

var errBoom = errors.New("boom")

// frames is the specification: what a stream contains.
func frames(s []byte) [][]byte {
	var out [][]byte
	var cur []byte
	for _, b := range s {
		if b == 0x7e {
			if len(cur) <= 1 {
				cur = []byte{0x7e}
				continue
			}
			out = append(out, append(cur, 0x7e))
			cur = nil
		} else if cur != nil {
			cur = append(cur, b)
		}
	}
	return out
}

func check(stream []byte, conn *lib.Conn, cause error) {
	checkWant(frames(stream), conn, cause)
}

func checkWant(want [][]byte, conn *lib.Conn, cause error) {
	fh := protocol.NewJT808FrameHandler(conn)
	ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "s", Conn: conn})
	var kept [][]byte
	for i := 0; ; i++ {
		f, err := fh.Recv(ctx)
		if err != nil {
			v.Assert(i >= len(want), "frame-lost")
			v.Assert(errors.Is(err, cause), "error-wraps-cause")
			v.Assert(len(f) == 0, "partial-frame")
			break
		}
		v.Assert(i < len(want), "frame-invented")
		v.Assert(len(f) == len(want[i]), "frame-length")
		v.Assert(v.EqBytes(f, want[i]), "frame-bytes")
		if len(want) < 50 {
			v.Observe("f", []byte(f))
		}
		kept = append(kept, f)
	}
	// frames handed on earlier are not overwritten later
	for i, f := range kept {
		v.Assert(v.EqBytes(f, want[i]), "frame-stable")
	}
	// the error persists
	_, err := fh.Recv(ctx)
	v.Assert(errors.Is(err, cause), "error-persists")
	v.Reach("done")
}

func ending(c *lib.Conn) error {
	switch v.Pick("end", 3) {
	case 0:
		c.EndErr = io.EOF
	case 1:
		c.EndErr = errBoom
	case 2:
		c.EndErr = errBoom
		c.EndWith = true
	}
	return c.EndErr
}

// HStream: every byte string, delivered at once or byte by byte.
// bound: all byte streams of length 0..8 (quick) / 0..10 (thorough); delivery all at once, byte by byte or split once anywhere; ended by EOF, another error, or an error delivered together with the last bytes
func HStream() {
	n := v.Pick("n", v.Bound(9, 11))
	s := v.Bytes("s", n)
	c := &lib.Conn{Name: "s"}
	cause := ending(c)
	if n > 0 {
		switch k := v.Pick("cut", 3); k {
		case 0:
			c.Chunks = [][]byte{lib.Cat(s)}
		case 1:
			for i := range s {
				c.Chunks = append(c.Chunks, []byte{s[i]})
			}
		case 2:
			if n < 2 {
				v.Assume(false)
			}
			p := 1 + v.Pick("at", n-1)
			c.Chunks = [][]byte{lib.Cat(s[:p]), lib.Cat(s[p:])}
		}
	} else {
		c.EndWith = false
	}
	check(s, c, cause)
}

// HChunks: every chunking.
// bound: all byte streams of length 6 (quick) / 8 (thorough) in every possible chunking
func HChunks() {
	n := v.Bound(6, 8)
	s := v.Bytes("s", n)
	c := &lib.Conn{Name: "s", EndErr: io.EOF}
	cur := []byte{s[0]}
	for i := 1; i < n; i++ {
		if v.Pick("cut", 2) == 1 {
			c.Chunks = append(c.Chunks, cur)
			cur = nil
		}
		cur = append(cur, s[i])
	}
	c.Chunks = append(c.Chunks, cur)
	check(s, c, io.EOF)
}

// HLong: long frames, up to and beyond the longest legal one, around the reader's buffer size.
// bound: frame bodies of 1,2,511..513,1022..1025,2068..2080,4093..4098,8200,20000,70000 bytes with symbolic bytes at 6 positions; noise before; chunk sizes 1, 7, 512, 4096 or all
func HLong() {
	ls := []int{1, 2, 511, 512, 513, 1022, 1023, 1024, 1025, 2068, 2069, 2070, 2071, 2072, 2080, 4093, 4094, 4095, 4096, 4097, 4098, 8200, 20000, 70000}
	l := ls[v.Pick("len", len(ls))]
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(i*7 + 1)
		if b[i] == 0x7e {
			b[i] = 0
		}
	}
	for k := 0; k < 6; k++ {
		x := v.U8("x")
		v.Assume(x != 0x7e)
		b[k*(l-1)/5] = x
	}
	noise := v.Pick("noise", 3)
	var s []byte
	for i := 0; i < noise; i++ {
		x := v.U8("noise")
		v.Assume(x != 0x7e)
		s = append(s, x)
	}
	s = append(s, 0x7e)
	s = append(s, b...)
	s = append(s, 0x7e, 0x7e, 0x41, 0x42, 0x7e)
	size := 4096
	if l < 10000 {
		size = []int{7, 512, 4096, 1 << 20}[v.Pick("chunk", 4)]
	}
	c := &lib.Conn{Name: "s", EndErr: io.EOF}
	for i := 0; i < len(s); i += size {
		e := i + size
		if e > len(s) {
			e = len(s)
		}
		c.Chunks = append(c.Chunks, lib.Cat(s[i:e]))
	}
	check(s, c, io.EOF)
}

// HMany: many frames in one stream, with noise and stray flags between.
// bound: 4 (quick) / 6 (thorough) frames with 1..2 symbolic body bytes each; between two frames nothing, a stray flag, two stray flags, or a symbolic noise byte; log level debug, info or error
func HMany() {
	lib.AnyLog()
	var s []byte
	k := v.Bound(4, 6)
	for i := 0; i < k; i++ {
		switch v.Pick("gap", 4) {
		case 1:
			s = append(s, 0x7e)
		case 2:
			s = append(s, 0x7e, 0x7e)
		case 3:
			x := v.U8("noise")
			v.Assume(x != 0x7e)
			s = append(s, x)
		}
		s = append(s, 0x7e)
		for j := 0; j <= i%2; j++ {
			x := v.U8("b")
			v.Assume(x != 0x7e)
			s = append(s, x)
		}
		s = append(s, 0x7e)
	}
	check(s, &lib.Conn{Name: "s", Chunks: [][]byte{lib.Cat(s)}, EndErr: io.EOF}, io.EOF)
}

// HCut: a frame cut off by the end of the stream, after whole ones or not, is not handed on, however long its part is.
// bound: parts of 1..40, 1023, 1024, 2069, 4095..4097 bytes after the flag, with symbolic first, middle and last bytes; 0..2 whole frames before; EOF, unexpected EOF, another error, or one delivered together with the last bytes
func HCut() {
	l := 1 + v.Pick("len", 46)
	if l > 40 {
		l = []int{1023, 1024, 2069, 4095, 4096, 4097}[l-41]
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(i%100 + 1)
	}
	for _, k := range []int{0, l / 2, l - 1} {
		b[k] = v.U8("x")
		v.Assume(b[k] != 0x7e)
	}
	var s []byte
	for k := v.Pick("before", 3); k > 0; k-- {
		s = append(s, 0x7e, 0x41, byte(k), 0x7e)
	}
	s = append(s, 0x7e)
	s = append(s, b...)
	c := &lib.Conn{Name: "s", Chunks: [][]byte{lib.Cat(s)}}
	c.EndErr = []error{io.EOF, io.ErrUnexpectedEOF, errBoom}[v.Pick("end", 3)]
	c.EndWith = v.Pick("with", 2) == 1
	check(s, c, c.EndErr)
}

// HEndless: a connection serves any number of frames.
// bound: 3000 frames of 1 to 5 bytes, or 1100 of 1000 bytes (over 1 MiB); the first and last byte of the stream's bodies symbolic
func HEndless() {
	x, y := v.U8("first"), v.U8("last")
	v.Assume(x != 0x7e)
	v.Assume(y != 0x7e)
	n, l := 3000, 1
	if v.Pick("kind", 2) == 1 {
		n, l = 1100, 1000
	}
	var s []byte
	var want [][]byte
	body := make([]byte, l+5)
	for j := range body {
		body[j] = byte(j % 100)
	}
	for i := 0; i < n; i++ {
		f := lib.Cat([]byte{0x7e}, body[:l+i%5], []byte{0x7e})
		f[1] = byte(i % 100)
		if i == 0 {
			f[1] = x
		}
		if i == n-1 {
			f[len(f)-2] = y
		}
		want = append(want, f)
		s = append(s, f...)
	}
	c := &lib.Conn{Name: "s", EndErr: io.EOF}
	for i := 0; i < len(s); i += 1500 {
		e := i + 1500
		if e > len(s) {
			e = len(s)
		}
		c.Chunks = append(c.Chunks, s[i:e])
	}
	checkWant(want, c, io.EOF)
}
