package main

import (
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

func main() {
	v.Main(map[string]func(){"HSequence": HSequence, "HCycle": HCycle, "HConcurrent": HConcurrent, "HSessions": HSessions})
}

// HSequence: the numbers start at 1 and count.
// bound: the first 300 (thorough 2000) draws of a fresh session
func HSequence() {
	s := &model.Session{ID: "a"}
	for i := 1; i <= v.Bound(300, 2000); i++ {
		v.Assert(s.GetNextSerialNum() == uint16(i), "sequence")
	}
	v.Reach("done")
}

// HCycle: two full cycles.
// bound: all draws 1..131080 of one session
func HCycle() {
	s := &model.Session{ID: "a"}
	ok := true
	for i := 1; i <= 131080; i++ {
		ok = ok && s.GetNextSerialNum() == uint16(i)
	}
	v.Assert(ok, "cycle")
	v.Reach("done")
}

// HConcurrent: draws of several goroutines at once are distinct and complete.
// bound: 3 goroutines drawing 2 numbers each (thorough 3 x 3), every interleaving with up to 4 (thorough 5) preemptions, at every memory access; also around the wrap at 65535
func HConcurrent() {
	s := &model.Session{ID: "a"}
	base := []int{0, 65534, 65533}[v.Pick("base", 3)]
	for i := 0; i < base; i++ {
		s.GetNextSerialNum()
	}
	n := v.Bound(2, 3)
	got := make([][]uint16, 3)
	draw := func(i int) func() {
		return func() {
			for j := 0; j < n; j++ {
				got[i] = append(got[i], s.GetNextSerialNum())
			}
		}
	}
	v.Concurrent(v.Bound(4, 5), true, draw(0), draw(1), draw(2))
	seen := make([]bool, 3*n)
	for _, g := range got {
		prev := -1
		for _, x := range g {
			k := int(x - uint16(base+1))
			v.Assert(k >= 0 && k < 3*n, "skipped-number")
			v.Assert(!seen[k], "repeated-number")
			v.Assert(k > prev, "order")
			seen[k] = true
			prev = k
		}
	}
	v.Reach("done")
}

// HSessions: sessions count independently.
// bound: every interleaving of 6 (thorough 10) draws over two sessions
func HSessions() {
	s := []*model.Session{{ID: "a"}, {ID: "b"}}
	n := []uint16{0, 0}
	for i := 0; i < v.Bound(6, 10); i++ {
		k := v.Pick("who", 2)
		n[k]++
		v.Assert(s[k].GetNextSerialNum() == n[k], "own-count")
	}
	v.Reach("done")
}
