// Package zzvrt is the harness runtime. The functions whose names start with
// "prim" (and Y, W) are given symbolic meaning by the engine; the bodies here are
// their native meaning, used when a model is replayed against the compiled code.
package zzvrt

import (
	"net"
	"sync"
	"time"
)

// ---- inputs ----

func U8(l string) uint8 { return primU8(l, 0, 255) }

// R8 is a byte restricted to [lo,hi].
func R8(l string, lo, hi uint8) uint8 { return primU8(l, lo, hi) }

func U16(l string) uint16 { return uint16(U8(l))<<8 | uint16(U8(l)) }
func U32(l string) uint32 {
	return uint32(U8(l))<<24 | uint32(U8(l))<<16 | uint32(U8(l))<<8 | uint32(U8(l))
}
func U64(l string) uint64 { return uint64(U32(l))<<32 | uint64(U32(l)) }

// Int is an integer in [lo,hi] (lo >= 0).
func Int(l string, lo, hi int) int { return int(primRange(l, uint64(lo), uint64(hi))) }

func Bool(l string) bool { return primU8(l, 0, 1) == 1 }

func Bytes(l string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(l)
	}
	return b
}

// Digits is a string of n decimal digits.
func Digits(l string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = R8(l, '0', '9')
	}
	return string(b)
}

// Ascii is a string of n characters in [lo,hi].
func Ascii(l string, n int, lo, hi uint8) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = R8(l, lo, hi)
	}
	return string(b)
}

// Pick explores every value 0..n-1.
func Pick(l string, n int) int { return primPick(l, n) }

// Pick2 uses a smaller range in the quick tier.
func Bound(quick, thorough int) int {
	if primTier() == 0 {
		return quick
	}
	return thorough
}

// Thorough reports the tier.
func Thorough() bool { return primTier() != 0 }

func Assume(b bool)               { primAssume(b) }
func Assert(b bool, label string) { primAssert(b, label) }
func Reach(l string)              { primReach(l) }
func Observe(l string, v any)     { primObserve(l, v) }

// Split explores both truth values separately (turns a symbolic bool concrete).
func Split(b bool) bool {
	if b {
		return true
	}
	return false
}

// LogLevel sets the zerolog level (0 debug, which is the default here as in the
// shipped configuration, 1 info, ...).
func LogLevel(n int) { primLogLevel(n) }

// Catch runs fn and reports whether it panicked.
func Catch(fn func()) (panicked bool) {
	done := false
	defer func() {
		if !done {
			recover()
			panicked = true
		}
	}()
	fn()
	done = true
	return
}

// EqBytes compares without short-circuit forking.
func EqBytes(a, b []byte) bool { return primEqStr(string(a), string(b)) }
func EqStr(a, b string) bool   { return primEqStr(a, b) }

// And, Or: non-short-circuit.
func And(bs ...bool) bool {
	r := true
	for _, b := range bs {
		r = primAnd(r, b)
	}
	return r
}
func Or(bs ...bool) bool {
	r := false
	for _, b := range bs {
		r = primNot(primAnd(primNot(r), primNot(b)))
	}
	return r
}
func Not(b bool) bool        { return primNot(b) }
func Implies(a, b bool) bool { return primNot(primAnd(a, primNot(b))) }
func Iff(a, b bool) bool     { return primIff(a, b) }

// Entries counts the entries of all maps directly inside the structure x points to.
func Entries(x any) int { return primEntries(x) }

// ---- virtual time ----

var clk int64 = 1700000000 // seconds

var clkMs int64 // milliseconds past it, 0..999

func Clock() int64       { return clk }
func SetClock(sec int64) { clk, clkMs = sec, 0 }
func Advance(sec int64)  { clk += sec }

// AdvanceMs moves the clock by 0..999 ms.
func AdvanceMs(ms int64) {
	clkMs += ms
	if clkMs >= 1000 {
		clkMs -= 1000
		clk++
	}
}

func Now() time.Time {
	if free {
		return time.Now()
	}
	return time.Unix(clk, clkMs*1000000).UTC()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if free {
		time.Sleep(d)
		return
	}
	if d < time.Second {
		primYield()
		return
	}
	primSleep()
}

// AfterWait stands for <-time.After(d).
func AfterWait(d time.Duration) time.Time {
	Sleep(d)
	return Now()
}

// Timer and Ticker stand for time's; they fire when the scheduler ends the sleep
// of the goroutine behind them.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	gen  int
	live bool
}

func (t *Timer) arm(d time.Duration) {
	t.gen++
	t.live = true
	gen := t.gen
	go W(func() {
		Sleep(d)
		if t.gen != gen || !t.live {
			return
		}
		t.live = false
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})()
}

func (t *Timer) Stop() bool {
	was := t.live
	t.live = false
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.live
	t.arm(d)
	return was
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	done bool
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	go W(func() {
		for !t.done {
			Sleep(d)
			select {
			case c <- Now():
			default:
			}
		}
	})()
	return t
}

func (t *Ticker) Stop()               { t.done = true }
func (t *Ticker) Reset(time.Duration) {}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- concurrency ----

var free bool

// Concurrent runs the functions as goroutines and returns when all have
// finished; the engine explores their interleavings with at most preempt
// preemptions (plus free choice whenever the running one blocks or ends).
func Concurrent(preempt int, mem bool, fns ...func()) {
	n := 0
	if free {
		var wg sync.WaitGroup
		for _, f := range fns {
			wg.Add(1)
			go func(f func()) { defer wg.Done(); f() }(f)
		}
		wg.Wait()
		return
	}
	primConcBegin(preempt, mem)
	for _, f := range fns {
		f := f
		go W(func() {
			f()
			n++
		})()
	}
	primWait(func() bool { return n == len(fns) })
	primConcEnd()
}

// Go starts a goroutine from a harness.
func Go(f func()) { go W(f)() }

// Touch marks an effect on something shared outside the analysed code, so the
// next statement of the caller becomes a preemption point.
func Touch() { primTouch() }

// Quiesce lets all other goroutines run until they block.
func Quiesce() { primQuiesce() }

// Wake ends the sleep of all sleeping goroutines (they run when scheduled).
func Wake() { primWake() }

// WaitFor blocks until cond holds.
func WaitFor(cond func() bool) { primWait(cond) }

// Mutex and RWMutex replace sync.Mutex / sync.RWMutex in the analysed sources.
type Mutex struct {
	mu sync.Mutex
	l  bool
}

func (m *Mutex) Lock() {
	if free {
		m.mu.Lock()
		return
	}
	primPre()
	Y()
	primWait(func() bool { return !m.l })
	m.l = true
	primAcq(m)
}

func (m *Mutex) TryLock() bool {
	if free {
		return m.mu.TryLock()
	}
	primTouch()
	if m.l {
		return false
	}
	m.l = true
	primAcq(m)
	return true
}

func (m *Mutex) Unlock() {
	if free {
		m.mu.Unlock()
		return
	}
	if !m.l {
		primFatal("sync: unlock of unlocked mutex")
	}
	primTouch()
	primRel(m)
	m.l = false
	Y()
}

type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
}

func (m *RWMutex) Lock() {
	if free {
		m.mu.Lock()
		return
	}
	primPre()
	Y()
	primWait(func() bool { return !m.w && m.r == 0 })
	m.w = true
	primAcq(m)
}

func (m *RWMutex) TryLock() bool {
	if free {
		return m.mu.TryLock()
	}
	primTouch()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	primAcq(m)
	return true
}

func (m *RWMutex) Unlock() {
	if free {
		m.mu.Unlock()
		return
	}
	if !m.w {
		primFatal("sync: Unlock of unlocked RWMutex")
	}
	primTouch()
	primRel(m)
	m.w = false
	Y()
}

func (m *RWMutex) RLock() {
	if free {
		m.mu.RLock()
		return
	}
	primPre()
	Y()
	primWait(func() bool { return !m.w })
	m.r++
	primAcqR(m)
}

func (m *RWMutex) TryRLock() bool {
	if free {
		return m.mu.TryRLock()
	}
	primTouch()
	if m.w {
		return false
	}
	m.r++
	primAcqR(m)
	return true
}

func (m *RWMutex) RUnlock() {
	if free {
		m.mu.RUnlock()
		return
	}
	if m.r == 0 {
		primFatal("sync: RUnlock of unlocked RWMutex")
	}
	primTouch()
	primRelR(m)
	m.r--
	Y()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// ---- network hooks ----

var ListenHook func(network, addr string) (net.Listener, error)
var DialHook func(network, addr string) (net.Conn, error)

func NetListen(network, addr string) (net.Listener, error) {
	if ListenHook != nil {
		return ListenHook(network, addr)
	}
	return net.Listen(network, addr)
}

func NetDial(network, addr string) (net.Conn, error) {
	if DialHook != nil {
		return DialHook(network, addr)
	}
	return net.Dial(network, addr)
}

func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	if DialHook != nil {
		return DialHook(network, addr)
	}
	return net.DialTimeout(network, addr, d)
}
