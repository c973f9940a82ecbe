package main

import (
	"unsafe"

	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
	"github.com/fakeyanss/jt808-server-go/pkg/container"
)

func main() {
	v.Main(map[string]func(){"HOps": HOps, "HFull": HFull, "HAnyState": HAnyState, "HLongRun": HLongRun})
}

type item struct{ n int }

// model of the buffer: slots, next write slot, next read slot.
type ring struct {
	slot []*item
	w, r int
	last *item
}

func same(got any, want *item) bool {
	p, ok := got.(*item)
	if want == nil {
		return !ok
	}
	return ok && p == want
}

func (m *ring) check(rb *container.RingBuffer) {
	v.Assert(same(rb.Latest(), m.last), "latest")
	v.Assert(same(rb.Oldest(), m.slot[m.w]), "oldest")
}

func (m *ring) write(rb *container.RingBuffer, x *item) {
	rb.Write(x)
	m.slot[m.w] = x
	m.w = (m.w + 1) % len(m.slot)
	m.last = x
}

func (m *ring) read(rb *container.RingBuffer) {
	v.Assert(same(rb.Read(), m.slot[m.r]), "read")
	m.r = (m.r + 1) % len(m.slot)
}

// HOps: every mix of writes, reads and queries.
// bound: sizes 1..4 (thorough 1..5), every sequence of up to 9 (thorough 12) writes and reads, latest and oldest queried after each
func HOps() {
	size := 1 + v.Pick("size", v.Bound(4, 5))
	n := v.Bound(9, 12)
	rb := container.NewRingBuffer(int32(size))
	m := &ring{slot: make([]*item, size)}
	m.check(rb)
	for i := 0; i < n; i++ {
		if v.Pick("op", 2) == 0 {
			m.write(rb, &item{i})
		} else {
			m.read(rb)
		}
		m.check(rb)
	}
	v.Reach("done")
}

// HFull: the capacity the server uses, over several laps.
// bound: size 100, every number of writes 0..260 (thorough 0..1030) followed by 0, 1, 100 or 150 reads
func HFull() {
	rb := container.NewRingBuffer(100)
	m := &ring{slot: make([]*item, 100)}
	n := v.Pick("writes", v.Bound(261, 1031))
	for i := 0; i < n; i++ {
		m.write(rb, &item{i})
	}
	m.check(rb)
	for i := []int{0, 1, 100, 150}[v.Pick("reads", 4)]; i > 0; i-- {
		m.read(rb)
	}
	m.check(rb)
	v.Reach("done")
}

// plain: the buffer's state is its slots and the two positions below the size (HAnyState sets it directly).
func plain() bool {
	if unsafe.Sizeof(container.RingBuffer{}) != unsafe.Sizeof(struct {
		c       []any
		w, r, s int32
	}{}) {
		return false
	}
	rb := container.NewRingBuffer(3)
	m := &ring{slot: make([]*item, 3)}
	for i := 0; i < 5; i++ {
		m.write(rb, &item{i})
		m.read(rb)
		if rb.Writer != int32(m.w) || rb.Reader != int32(m.r) {
			return false
		}
	}
	return true
}

// HLongRun: positions kept as running counters survive the end of their range.
// bound: sizes 1, 2, 3, 7, 100; where the writer or reader position is seen to exceed the size, it is moved on by a whole number of laps to within 2 laps of the largest int32 before 4 laps of further writes and reads
func HLongRun() {
	size := []int{1, 2, 3, 7, 100}[v.Pick("size", 5)]
	rb := container.NewRingBuffer(int32(size))
	m := &ring{slot: make([]*item, size)}
	for i := 0; i < 2*size; i++ {
		m.write(rb, &item{i})
	}
	for i := 0; i < 2*size; i++ {
		m.read(rb)
	}
	m.check(rb)
	laps := int32((1<<31 - 1 - 4*size) / size * size)
	if rb.Writer >= int32(size) {
		rb.Writer += laps
		v.Reach("writer-counter")
	}
	if rb.Reader >= int32(size) {
		rb.Reader += laps
		v.Reach("reader-counter")
	}
	for i := 0; i < 4*size; i++ {
		m.write(rb, &item{1000 + i})
		m.check(rb)
		m.read(rb)
	}
	v.Reach("done")
}

// HAnyState: one operation from every reachable state (an inductive step).
// bound: sizes 1..8 (thorough 1..16), any writer and reader position, lap complete or not; one write or read (skipped when the buffer keeps other state than its slots and two positions below the size)
func HAnyState() {
	if !plain() {
		v.Reach("done")
		return
	}
	size := 1 + v.Pick("size", v.Bound(8, 16))
	w := v.Int("w", 0, size-1)
	r := v.Int("r", 0, size-1)
	rb := container.NewRingBuffer(int32(size))
	full := v.Pick("full", 2) == 1
	items := make([]*item, size)
	for i := range items {
		items[i] = &item{i}
	}
	m := &ring{slot: make([]*item, size), w: w, r: r}
	for i := 0; i < size; i++ {
		if full || i < w {
			rb.Container[i], m.slot[i] = items[i], items[i]
		}
	}
	if full || w > 0 {
		m.last = m.slot[(w+size-1)%size]
	}
	rb.Writer, rb.Reader = int32(w), int32(r)
	m.check(rb)
	if v.Pick("op", 2) == 0 {
		m.write(rb, &item{99})
	} else {
		m.read(rb)
	}
	m.check(rb)
	v.Observe("w", rb.Writer)
	v.Reach("done")
}
