package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"strings"
)

// Goroutines of the program under analysis are coroutines of the worker: exactly
// one runs at a time (baton passing). Outside an exploration region the schedule
// is deterministic; inside one every scheduling point is a recorded choice.

type G struct {
	id      int
	wake    chan struct{}
	exited  chan struct{}
	depth   int
	done    bool
	ready   func() bool // nil: runnable
	sleep   bool
	slept   int // order of going to sleep
	vc      []int
	touched bool
	held    int
	name    string
}

type killG struct{}

type Chan struct {
	cap    int
	zero   Value
	buf    []Value
	closed bool
	// unbuffered rendezvous
	sendq []*sendw
	recvs int
	vc    []int
}

type sendw struct {
	v     Value
	taken bool
	g     *G
}

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

type lockState struct {
	w  bool
	r  int
	n  int
	vc []int
	rv []int // released by readers: orders later writers only
}

type shadow struct {
	wg, wc int // last write
	wpos   accKey
	r      map[int]int
	rpos   map[int]accKey
}

// accKey identifies an accessing instruction.
type accKey struct {
	f   *Func
	pos token.Pos
}

func (k accKey) String() string {
	if k.f == nil {
		return "?"
	}
	return k.f.p.posStr(k.pos)
}

type Clock struct{}

type shKey struct {
	a *Agg
	i int
	m *MapV
}

func (s *Sched) shadowOf(k shKey) *shadow {
	sh := s.shadows[k]
	if sh == nil {
		sh = &shadow{}
		s.shadows[k] = sh
	}
	return sh
}

type Sched struct {
	w         *Worker
	gs        []*G
	cur       *G
	trace     []int
	points    int
	budget    int
	exploring bool
	raceMem   bool
	dead      bool
	end       chan pathResult
	ended     bool
	wakes     int
	sleeps    int
	shadows   map[shKey]*shadow
}

func newSched(w *Worker) *Sched {
	return &Sched{w: w, end: make(chan pathResult, 1), shadows: map[shKey]*shadow{}}
}

func (s *Sched) newG(name string) *G {
	g := &G{id: len(s.gs), wake: make(chan struct{}, 1), exited: make(chan struct{}), name: name}
	s.gs = append(s.gs, g)
	return g
}

func (s *Sched) runMain(entry *Func) pathResult {
	g := s.newG("main")
	s.cur = g
	go s.gmain(g, func() { s.w.callFn(nil, entry, nil, nil) })
	g.wake <- struct{}{}
	r := <-s.end
	s.dead = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		select {
		case <-g.exited:
			continue
		default:
		}
		s.cur = g
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
	return r
}

func (s *Sched) finish(r pathResult) {
	if !s.ended {
		s.ended = true
		s.end <- r
	}
}

func (s *Sched) gmain(g *G, fn func()) {
	defer close(g.exited)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		g.done = true
		if s.dead {
			return
		}
		switch r := r.(type) {
		case killG:
			return
		case pathEnd:
			if r.why == "steps" {
				s.finish(pathResult{kind: endSteps, msg: "step limit"})
				return
			}
			s.finish(pathResult{kind: endPath, msg: r.why})
		case unsup:
			s.finish(pathResult{kind: endUnsup, msg: r.msg})
		case targetPanic:
			s.finish(pathResult{kind: endPanic, msg: s.w.panicMsg(r.v), pv: r.v})
		default:
			if debugOn {
				fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\n%s\n", r, dbgStack())
			}
			s.finish(pathResult{kind: endUnsup, msg: fmt.Sprintf("engine: %v", r)})
		}
	}()
	<-g.wake
	if s.dead {
		return
	}
	fn()
	g.done = true
	if g.id == 0 {
		s.finish(pathResult{kind: endNormal})
		return
	}
	s.relAll(g)
	s.leave()
}

func dbgStack() string { return string(debug.Stack()) }

func (w *Worker) panicMsg(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *BStr:
		return "<symbolic string>"
	}
	return v.t.String()
}

func (s *Sched) spawn(c *Closure, args []Value) {
	g := s.newG("g")
	if s.exploring {
		s.tick(s.cur)
		g.vc = append([]int(nil), s.cur.vc...)
		for _, a := range args {
			s.w.publish(a)
		}
		s.w.publish(c)
	}
	go s.gmain(g, func() { s.w.call(nil, c, args) })
}

// runnable lists the goroutines that can run, in round-robin order after cur.
func (s *Sched) runnable(self bool) []*G {
	var out []*G
	n := len(s.gs)
	for k := 1; k <= n; k++ {
		g := s.gs[(s.cur.id+k)%n]
		if g == s.cur && !self {
			continue
		}
		if g.done || g.sleep {
			continue
		}
		if g.ready != nil && !g.ready() {
			continue
		}
		out = append(out, g)
	}
	return out
}

func (s *Sched) switchTo(g *G) {
	me := s.cur
	if g == me {
		return
	}
	s.cur = g
	g.wake <- struct{}{}
	<-me.wake
	if s.dead {
		panic(killG{})
	}
}

// pickForced chooses the next goroutine when the current one cannot continue.
func (s *Sched) pickForced(self bool) *G {
	for {
		rs := s.runnable(self)
		if len(rs) == 0 {
			if s.wakeSleeper() {
				continue
			}
			return nil
		}
		if s.exploring {
			s.points++
			if len(rs) > 1 {
				i := s.w.choose(len(rs), "sched")
				s.trace = append(s.trace, s.points, rs[i].id)
				return rs[i]
			}
		}
		return rs[0]
	}
}

func (s *Sched) wakeSleeper() bool {
	if s.wakes >= maxWakes {
		return false
	}
	var o *G
	for _, g := range s.gs {
		if g.sleep && !g.done && (o == nil || g.slept < o.slept) {
			o = g
		}
	}
	if o == nil {
		return false
	}
	o.sleep = false
	s.wakes++
	return true
}

// wakeAll ends the sleep of every sleeping goroutine.
func (s *Sched) wakeAll() {
	for _, g := range s.gs {
		g.sleep = false
	}
}

const maxWakes = 8

// block parks the current goroutine until ready holds.
func (s *Sched) block(ready func() bool, what string) {
	if s.w.inInit {
		panic(unsupported("blocking operation in init"))
	}
	g := s.cur
	if ready() {
		return
	}
	g.ready = ready
	for {
		nx := s.pickForced(true)
		if nx == nil {
			s.deadlock(what)
		}
		if nx == g {
			break
		}
		s.switchTo(nx)
		if ready() {
			break
		}
	}
	g.ready = nil
}

func (s *Sched) deadlock(what string) {
	s.w.report("deadlock", "all goroutines blocked ("+what+")", s.w.model, "deadlock")
	panic(pathEnd{"violation"})
}

// leave is called by a finished goroutine.
func (s *Sched) leave() {
	nx := s.pickForced(false)
	if nx == nil {
		s.deadlock("goroutine exit")
		return
	}
	s.cur = nx
	nx.wake <- struct{}{}
}

// yield is a statement-level scheduling point.
func (s *Sched) yield() {
	if !s.exploring || s.w.inInit {
		return
	}
	s.points++
	g := s.cur
	if !g.touched || s.budget <= 0 {
		return
	}
	g.touched = false
	rs := s.runnable(false)
	if len(rs) == 0 {
		return
	}
	i := s.w.choose(len(rs)+1, "preempt")
	if i == 0 {
		return
	}
	s.budget--
	nx := rs[i-1]
	s.trace = append(s.trace, s.points, nx.id)
	s.switchTo(nx)
}

// quiesce lets every other goroutine run until it blocks.
func (s *Sched) quiesce() {
	for {
		rs := s.runnable(false)
		if len(rs) == 0 {
			return
		}
		s.switchTo(rs[0])
	}
}

// park makes the quiescing goroutine resumable: cur stays runnable while others run.

func (s *Sched) sleepG() {
	g := s.cur
	g.sleep = true
	s.sleeps++
	g.slept = s.sleeps
	nx := s.pickForced(false)
	if nx == nil {
		// nobody else: continue immediately
		g.sleep = false
		return
	}
	s.switchTo(nx)
}

// ---- channels ----
func (s *Sched) send(c *Chan, v Value) {
	if c == nil {
		s.block(func() bool { return false }, "send on nil channel")
	}
	if c.closed {
		s.w.rtPanic("send on closed channel")
	}
	v = s.w.copyVal(v)
	s.relVC(&c.vc)
	if s.exploring {
		s.w.publish(v)
		s.cur.touched = true
	}
	if c.cap > 0 {
		s.block(func() bool { return len(c.buf) < c.cap || c.closed }, "channel send")
		if c.closed {
			s.w.rtPanic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	sw := &sendw{v: v, g: s.cur}
	c.sendq = append(c.sendq, sw)
	s.block(func() bool { return sw.taken || c.closed }, "channel send")
	if !sw.taken {
		s.w.rtPanic("send on closed channel")
	}
}

func (s *Sched) canRecv(c *Chan) bool {
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (s *Sched) take(c *Chan) (Value, bool) {
	s.acqVC(c.vc)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		return v, true
	}
	if len(c.sendq) > 0 {
		sw := c.sendq[0]
		c.sendq = append([]*sendw(nil), c.sendq[1:]...)
		sw.taken = true
		return sw.v, true
	}
	return s.w.copyVal(c.zero), false
}

func (s *Sched) recv(c *Chan) (Value, bool) {
	if c == nil {
		s.block(func() bool { return false }, "receive on nil channel")
	}
	if s.exploring {
		s.cur.touched = true
	}
	c.recvs++
	s.block(func() bool { return s.canRecv(c) }, "channel receive")
	c.recvs--
	return s.take(c)
}

func (s *Sched) closeCh(c *Chan) {
	if c == nil {
		s.w.rtPanic("close of nil channel")
	}
	if c.closed {
		s.w.rtPanic("close of closed channel")
	}
	s.relVC(&c.vc)
	c.closed = true
}

func (s *Sched) sel(cases []selCase, blocking bool) (int, Value, bool) {
	canSend := func(c *Chan) bool {
		return c != nil && (c.closed || (c.cap > 0 && len(c.buf) < c.cap) || (c.cap == 0 && c.recvs > 0 && len(c.sendq) == 0))
	}
	pick := func() int {
		for i, k := range cases {
			if k.ch == nil {
				continue
			}
			if k.send && canSend(k.ch) || !k.send && s.canRecv(k.ch) {
				return i
			}
		}
		return -1
	}
	i := pick()
	if i < 0 {
		if !blocking {
			return -1, nil, false
		}
		for _, k := range cases {
			if k.ch != nil && !k.send {
				k.ch.recvs++
			}
		}
		s.block(func() bool { return pick() >= 0 }, "select")
		for _, k := range cases {
			if k.ch != nil && !k.send {
				k.ch.recvs--
			}
		}
		i = pick()
	}
	k := cases[i]
	if k.send {
		s.send(k.ch, k.val)
		return i, nil, false
	}
	v, ok := s.take(k.ch)
	return i, v, ok
}

// ---- vector clocks / races ----
func (s *Sched) tick(g *G) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a *[]int, b []int) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (s *Sched) relVC(vc *[]int) {
	if !s.exploring {
		return
	}
	joinVC(vc, s.cur.vc)
	s.tick(s.cur)
}
func (s *Sched) acqVC(vc []int) {
	if !s.exploring {
		return
	}
	joinVC(&s.cur.vc, vc)
}
func (s *Sched) relAll(g *G) {
	if s.exploring && len(s.gs) > 0 {
		joinVC(&s.gs[0].vc, g.vc)
	}
}

func vcAt(vc []int, i int) int {
	if i < len(vc) {
		return vc[i]
	}
	return 0
}

func (s *Sched) race(sh *shadow, write bool, pos accKey) (accKey, bool) {
	g := s.cur
	if len(g.vc) <= g.id {
		s.tick(g)
	}
	if sh.wc > 0 && sh.wg != g.id && vcAt(g.vc, sh.wg) < sh.wc {
		o := sh.wpos
		if write {
			sh.wg, sh.wc, sh.wpos = g.id, g.vc[g.id], pos
			sh.r, sh.rpos = nil, nil
		}
		return o, true
	}
	if write {
		for r, c := range sh.r {
			if r != g.id && vcAt(g.vc, r) < c {
				o := sh.rpos[r]
				sh.wg, sh.wc, sh.wpos = g.id, g.vc[g.id], pos
				sh.r, sh.rpos = nil, nil
				return o, true
			}
		}
		sh.wg, sh.wc, sh.wpos = g.id, g.vc[g.id], pos
		sh.r, sh.rpos = nil, nil
	} else {
		if sh.r == nil {
			sh.r, sh.rpos = map[int]int{}, map[int]accKey{}
		}
		sh.r[g.id] = g.vc[g.id]
		sh.rpos[g.id] = pos
	}
	return accKey{}, false
}

func (fr *frame) inHarness() bool {
	p := fr.f.fn.Package()
	return p != nil && strings.Contains(p.Pkg.Path(), "zzv")
}

// sharedAccess is called for loads/stores while an exploration region is active.
func (w *Worker) sharedAccess(fr *frame, p Ptr, write bool) {
	s := w.sched
	if !s.exploring || w.inInit || p.a.owner == s.cur.id+1 || fr.inHarness() {
		return
	}
	if p.a.owner != 0 && p.a.owner != s.cur.id+1 {
		p.a.owner = 0
	}
	key := accKey{fr.f, fr.pos}
	if w.item.racy[key] {
		s.cur.touched = true
	}
	if other, bad := s.race(s.shadowOf(shKey{a: p.a, i: p.i}), write, key); bad {
		if s.raceMem {
			w.report("data-race", "unsynchronised access at "+key.String()+" and "+other.String(), w.model, "race")
			panic(pathEnd{"violation"})
		}
		w.ex.addRacy(key, other)
	}
}

// Scheduling points are placed after synchronisation operations and after those
// plain memory accesses that were seen to race (two accesses not ordered by
// synchronisation). The set is learnt: a probe round runs first, and a round that
// finds a new racing instruction is followed by another with the larger set.
func (ex *Explorer) addRacy(ks ...accKey) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.racy == nil {
		ex.racy = map[accKey]bool{}
	}
	for _, k := range ks {
		ex.racy[k] = true
	}
}

// nextRound is called when the work list is empty.
func (ex *Explorer) nextRound() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.stop || !ex.conc || !ex.probed || (ex.rounds > 0 && len(ex.racy) == ex.lastRacy) || ex.rounds > 6 {
		return false
	}
	ex.rounds++
	ex.tree, ex.leaves = nil, 0
	ex.lastRacy = len(ex.racy)
	snap := map[accKey]bool{}
	for k := range ex.racy {
		snap[k] = true
	}
	ex.stack = append(ex.stack, Item{racy: snap, full: true})
	return true
}

func (w *Worker) mapAccess(fr *frame, m *MapV, write bool) {
	s := w.sched
	if !s.exploring || w.inInit || m.owner == s.cur.id+1 || fr.inHarness() {
		return
	}
	key := accKey{fr.f, fr.pos}
	if other, bad := s.race(s.shadowOf(shKey{m: m}), write, key); bad {
		w.report("map-race", "concurrent map access at "+key.String()+" and "+other.String(), w.model, "race")
		panic(pathEnd{"violation"})
	}
}

// publish marks everything reachable from v as shared.
func (w *Worker) publish(v Value) {
	me := w.sched.cur.id + 1
	switch x := v.(type) {
	case Ptr:
		if x.a != nil {
			w.publishAgg(x.a, me)
		}
	case Slice:
		if x.a != nil {
			w.publishAgg(x.a, me)
		}
	case *Agg:
		w.publishAgg(x, me)
	case Iface:
		if x.t != nil {
			w.publish(x.v)
		}
	case *MapV:
		if x != nil && x.owner == me {
			x.owner = 0
			for i := range x.ents {
				w.publish(x.ents[i].k)
				w.publish(x.ents[i].v)
			}
		}
	case *Closure:
		if x != nil {
			for _, e := range x.env {
				w.publish(e)
			}
			for _, e := range []Value{x.recv} {
				if e != nil {
					w.publish(e)
				}
			}
		}
	case Tuple:
		for _, e := range x {
			w.publish(e)
		}
	}
}

func (w *Worker) publishAgg(a *Agg, me int) {
	if a.owner != me {
		return
	}
	a.owner = 0
	if a.isB {
		return
	}
	for _, c := range a.c {
		w.publish(c)
	}
}

func (s *Sched) begin(budget int, mem bool) {
	s.exploring = true
	s.w.concMode = true
	s.budget = budget
	s.w.ex.conc = true
	if !s.w.item.full { // probe round
		s.budget = min(budget, 1)
	}
	s.raceMem = mem
	s.points = 0
	for _, g := range s.gs {
		s.tick(g)
	}
}

func (s *Sched) stopExploring() {
	s.exploring = false
	s.w.concMode = false
}
