package zzvrt

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

type caseIn struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices map[string]int    `json:"choices"`
	Sched   []int             `json:"sched"`
	Free    bool              `json:"free"`
	Iters   int               `json:"iters"`
}

type caseOut struct {
	Viol    []string `json:"viol"`
	Obs     []string `json:"obs"`
	Reach   []string `json:"reach"`
	Assume  bool     `json:"assume_failed"`
	Done    bool     `json:"done"`
	Stuck   string   `json:"stuck"`
	Missing int      `json:"missing"`
}

var (
	in  caseIn
	out caseOut
	occ = map[string]int{}
	mu  sync.Mutex
)

func flush() {
	if p := os.Getenv("VRT_OUT"); p != "" {
		b, _ := json.Marshal(&out)
		os.WriteFile(p, b, 0o644)
	} else {
		b, _ := json.MarshalIndent(&out, "", " ")
		fmt.Println(string(b))
	}
}

func finish(code int) {
	flush()
	os.Exit(code)
}

// Main runs one harness of the table natively with the inputs in $VRT_IN.
func Main(table map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VRT_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "VRT_IN:", err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, "VRT_IN:", err)
		os.Exit(3)
	}
	h := table[in.Harness]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", in.Harness)
		os.Exit(3)
	}
	free = in.Free
	primLogLevel(0)
	if !free {
		go watchdog()
	}
	sch.init()
	h()
	out.Done = true
	finish(exitCode())
}

func exitCode() int {
	if len(out.Viol) > 0 {
		return 1
	}
	return 0
}

func key(l string) string {
	k := l + "#" + strconv.Itoa(occ[l])
	occ[l]++
	return k
}

func primU8(l string, lo, hi uint8) uint8 { return uint8(primRange(l, uint64(lo), uint64(hi))) }

func primRange(l string, lo, hi uint64) uint64 {
	mu.Lock()
	defer mu.Unlock()
	v, ok := in.Inputs[key(l)]
	if !ok {
		out.Missing++
		return lo
	}
	return v
}

func primPick(l string, n int) int {
	mu.Lock()
	defer mu.Unlock()
	return in.Choices[key(l)]
}

func primLogLevel(n int) { log.Logger = zerolog.New(io.Discard).Level(zerolog.Level(n)) }

func primTier() int { return in.Tier }

func primAssume(b bool) {
	if !b {
		out.Assume = true
		finish(0)
	}
}

func primAssert(b bool, label string) {
	if !b {
		out.Viol = append(out.Viol, label)
		finish(1)
	}
}

func primReach(l string) { out.Reach = append(out.Reach, l) }

func primObserve(l string, v any) {
	out.Obs = append(out.Obs, l+"="+show(v))
}

func show(v any) string {
	if v == nil {
		return "<nil>"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.String:
		return fmt.Sprintf("%x", r.String())
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", r.Bytes())
		}
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(r.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("f%x", math.Float64bits(r.Float()))
	}
	return "?"
}

func primEntries(x any) int {
	n := 0
	r := reflect.ValueOf(x)
	if r.Kind() == reflect.Ptr && !r.IsNil() {
		r = r.Elem()
	}
	if r.Kind() == reflect.Struct {
		for i := 0; i < r.NumField(); i++ {
			if f := r.Field(i); f.Kind() == reflect.Map {
				n += f.Len()
			}
		}
	}
	return n
}

func primEqStr(a, b string) bool { return a == b }
func primAnd(a, b bool) bool     { return a && b }
func primNot(a bool) bool        { return !a }
func primIff(a, b bool) bool     { return a == b }

func primFatal(msg string) { panic("fatal error: " + msg) }

// ---- cooperative scheduler, same rules as the engine's ----

type gor struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool
	sleep bool
	slept int
}

type schedT struct {
	gs        []*gor
	cur       *gor
	exploring bool
	points    int
	wakes     int
	sleeps    int
	ticks     uint64
}

var sch schedT

func (s *schedT) init() {
	g := &gor{id: 0, wake: make(chan struct{}, 1)}
	s.gs = []*gor{g}
	s.cur = g
}

func watchdog() {
	last := uint64(0)
	same := 0
	for {
		time.Sleep(250 * time.Millisecond)
		t := sch.ticks
		if t == last {
			same++
			if same > 40 {
				out.Stuck = "no scheduling progress"
				finish(4)
			}
		} else {
			same = 0
		}
		last = t
	}
}

func (s *schedT) runnable(self bool) []*gor {
	var o []*gor
	n := len(s.gs)
	for k := 1; k <= n; k++ {
		g := s.gs[(s.cur.id+k)%n]
		if g == s.cur && !self {
			continue
		}
		if g.done || g.sleep {
			continue
		}
		if g.ready != nil && !g.ready() {
			continue
		}
		o = append(o, g)
	}
	return o
}

func (s *schedT) planned() (int, bool) {
	for i := 0; i+1 < len(in.Sched); i += 2 {
		if in.Sched[i] == s.points {
			return in.Sched[i+1], true
		}
	}
	return 0, false
}

func (s *schedT) switchTo(g *gor) {
	me := s.cur
	if g == me {
		return
	}
	s.ticks++
	s.cur = g
	g.wake <- struct{}{}
	<-me.wake
}

func (s *schedT) pickForced(self bool) *gor {
	for {
		rs := s.runnable(self)
		if len(rs) == 0 {
			if s.wakeSleeper() {
				continue
			}
			return nil
		}
		if s.exploring {
			s.points++
			if len(rs) > 1 {
				if id, ok := s.planned(); ok {
					for _, g := range rs {
						if g.id == id {
							return g
						}
					}
				}
			}
		}
		return rs[0]
	}
}

func (s *schedT) wakeSleeper() bool {
	if s.wakes >= 8 {
		return false
	}
	var o *gor
	for _, g := range s.gs {
		if g.sleep && !g.done && (o == nil || g.slept < o.slept) {
			o = g
		}
	}
	if o == nil {
		return false
	}
	o.sleep = false
	s.wakes++
	return true
}

func primWake() {
	if free {
		time.Sleep(1100 * time.Millisecond)
		return
	}
	for _, g := range sch.gs {
		g.sleep = false
	}
}

func deadlock() {
	out.Viol = append(out.Viol, "deadlock")
	finish(1)
}

func primWait(ready func() bool) {
	if free {
		for !ready() {
			time.Sleep(time.Millisecond)
		}
		return
	}
	s := &sch
	g := s.cur
	s.ticks++
	if ready() {
		return
	}
	g.ready = ready
	for {
		nx := s.pickForced(true)
		if nx == nil {
			deadlock()
		}
		if nx == g {
			break
		}
		s.switchTo(nx)
		if ready() {
			break
		}
	}
	g.ready = nil
}

func primSleep() {
	s := &sch
	g := s.cur
	g.sleep = true
	s.sleeps++
	g.slept = s.sleeps
	nx := s.pickForced(false)
	if nx == nil {
		g.sleep = false
		return
	}
	s.switchTo(nx)
}

func primYield() {
	s := &sch
	rs := s.runnable(false)
	if len(rs) > 0 {
		s.switchTo(rs[0])
	}
}

func primQuiesce() {
	if free {
		time.Sleep(20 * time.Millisecond)
		return
	}
	s := &sch
	for {
		rs := s.runnable(false)
		if len(rs) == 0 {
			return
		}
		s.switchTo(rs[0])
	}
}

func primConcBegin(budget int, mem bool) {
	sch.exploring = true
	sch.points = 0
}
func primConcEnd() { sch.exploring = false }

// Y is a scheduling point placed before every statement of the analysed code.
func Y() {
	if free {
		return
	}
	s := &sch
	s.ticks++
	if !s.exploring {
		return
	}
	s.points++
	if id, ok := s.planned(); ok {
		for _, g := range s.gs {
			if g.id == id && g != s.cur && !g.done {
				s.switchTo(g)
				return
			}
		}
	}
}

// W wraps the function of a go statement: the new goroutine takes part in
// baton passing. The engine treats it as the identity.
func W[F any](f F) F {
	if free {
		return f
	}
	s := &sch
	g := &gor{id: len(s.gs), wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	fv := reflect.ValueOf(f)
	r := reflect.MakeFunc(fv.Type(), func(args []reflect.Value) []reflect.Value {
		<-g.wake
		var res []reflect.Value
		if fv.Type().IsVariadic() {
			res = fv.CallSlice(args)
		} else {
			res = fv.Call(args)
		}
		g.done = true
		nx := s.pickForced(false)
		if nx == nil {
			deadlock()
		}
		s.ticks++
		s.cur = nx
		nx.wake <- struct{}{}
		return res
	})
	return r.Interface().(F)
}

func primTouch()   {}
func primPre()     {}
func primAcq(any)  {}
func primRel(any)  {}
func primAcqR(any) {}
func primRelR(any) {}
