package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type decKind uint8

const (
	dBranch decKind = iota
	dChoice
	dConc
)

type Dec struct {
	kind decKind
	val  uint64
	excl []uint64 // dConc: values already covered
	open bool     // dConc: alternatives not yet queried
	n    int      // alternatives at this point; dConc: 1 when the solver excluded further values
}

type Item struct {
	pre   []Dec
	model Model
	racy  map[accKey]bool // instructions after which a preemption is tried
	full  bool            // false: probe round (at most one preemption)
}

// sentinel panics
type pathEnd struct{ why string }
type unsup struct{ msg string }

func unsupported(msg string) unsup { return unsup{msg} }

type targetPanic struct{ v Iface }

// Violation found by the solver.
type Violation struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Ranges  map[string]int    `json:"-"`
	Choices map[string]int    `json:"choices"`
	Sched   []int             `json:"sched,omitempty"`
	Obs     []string          `json:"obs,omitempty"`
	Kind    string            `json:"kind"`
	Trace   []string          `json:"trace,omitempty"`
}

// Witness is a completed path with a concrete model for native validation.
type Witness struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Choices map[string]int    `json:"choices"`
	Sched   []int             `json:"sched,omitempty"`
	Obs     []string          `json:"obs"`
	Reach   []string          `json:"reach,omitempty"`
	Conc    bool              `json:"conc,omitempty"`
}

type Explorer struct {
	prog    *Program
	harness string
	entry   *Func
	tier    string

	mu    sync.Mutex
	pool  *Pool
	stack []Item
	stop  bool
	busy  int
	since map[*Worker]time.Time // paths being run
	Wall  time.Duration
	slow  atomic.Int64 // queries that needed more than the first try

	// results
	Paths, Infeasible, Unsup, StepLimit int
	Decisions, DomainDec, BranchUnknown atomic.Int64
	Asserts, AssertTriv, AssertQ        int
	AssertUnknown                       int
	Steps                               int64
	Queries, QSat, QUnsat, QUnknown     int
	Fallbacks                           int
	SolverTime                          time.Duration
	Violations                          []*Violation
	violKeys                            map[string]int
	unconfirmed                         map[string]int
	Witnesses                           []*Witness
	witSeen                             map[string]int
	Reached                             map[string]int
	UnsupMsgs                           map[string]int
	Funcs                               map[*Func]bool
	Labels                              map[string]int
	Sources                             map[string]int
	Incomplete                          string
	nworkers                            int
	onViol                              func(*Violation) bool // returns true to stop
	PreemptBound                        int
	known                               map[string]int
	conc, probed                        bool
	racy                                map[accKey]bool
	lastRacy, rounds                    int
	tree                                *tnode
	leaves                              int
	Audited, AuditQ                     int
	Cover                               *coverage
}

type Worker struct {
	ex      *Explorer
	p       *Program
	b       *Builder
	s       *Solver
	epoch   uint32
	aggID   uint32
	inInit  bool
	undo    []undo
	globals []Ptr
	pkgInit map[any]int
	qcache  map[string]qres

	// per path
	item     Item
	pos      int
	decs     []Dec
	model    Model
	pc       []*Term
	pcset    map[*Term]bool
	dom      map[int32]*[4]uint64
	multi    map[int32]bool // var occurs in a multi-var constraint
	occ      map[string]int
	inputs   []*Term
	inNames  map[string]*Term
	choices  map[string]int
	obs      []obsRec
	reach    []string
	sched    *Sched
	steps    int64
	maxSteps int64
	tick     int64
	abort    bool // running a path: an expired exploration ends it
	clock    Clock
	logLevel uint64
	modelsP  map[string]Value
	rt       map[string]Value
	unk      bool
	lastPos  string
	evalMemo map[*Term]uint64
	evalGen  int
	concMode bool
	locks    map[Ptr]*lockState
	scratch  map[string]any
	claims   []*Term // literals decided from byte domains on this path
}

type obsRec struct {
	label string
	v     Value
}

type qres struct {
	v Verdict
	m Model
}

type Pool struct {
	mu       sync.Mutex
	cond     *sync.Cond
	exs      []*Explorer
	active   int
	stop     bool
	done     atomic.Bool
	deadline time.Time
}

func (ex *Explorer) init() {
	ex.violKeys = map[string]int{}
	ex.unconfirmed = map[string]int{}
	ex.witSeen = map[string]int{}
	ex.Reached = map[string]int{}
	ex.UnsupMsgs = map[string]int{}
	ex.Funcs = map[*Func]bool{}
	ex.Labels = map[string]int{}
	ex.Sources = map[string]int{}
	ex.stack = []Item{{}}
}

func (p *Pool) Run(n int) {
	p.cond = sync.NewCond(&p.mu)
	for _, ex := range p.exs {
		ex.pool = p
		ex.init()
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(p)
			w.loop(p)
			p.mu.Lock()
			if w.ex != nil {
				w.ex.addSolver(w.s)
			}
			p.mu.Unlock()
			w.s.Close()
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) addSolver(s *Solver) {
	ex.Queries += s.Queries
	ex.QSat += s.Sat
	ex.QUnsat += s.Unsat
	ex.QUnknown += s.Unknown
	ex.Fallbacks += s.Fallbacks
	ex.SolverTime += s.Time
}

var quickTimeoutMs = 3000

func newWorker(p *Pool) *Worker {
	w := &Worker{p: p.exs[0].prog, b: NewBuilder(), s: NewSolver(), pkgInit: map[any]int{}, qcache: map[string]qres{}}
	w.epoch = 1
	w.maxSteps = 120_000_000
	return w
}

func (w *Worker) loop(p *Pool) {
	for {
		p.mu.Lock()
		var ex *Explorer
		for {
			if p.stop {
				p.mu.Unlock()
				p.cond.Broadcast()
				return
			}
			if time.Now().After(p.deadline) {
				for _, e := range p.exs {
					if n := len(e.stack); n > 0 {
						e.Incomplete = fmt.Sprintf("time budget reached with %d work items left", n)
					}
				}
				p.stop = true
				continue
			}
			// the harness that has had the least time so far
			now := time.Now()
			var best time.Duration
			for _, e := range p.exs {
				if len(e.stack) > 0 && !e.stop {
					d := e.Wall
					for _, t := range e.since {
						d += now.Sub(t)
					}
					if ex == nil || d < best {
						ex, best = e, d
					}
				}
			}
			if ex == nil {
				for _, e := range p.exs {
					if len(e.stack) == 0 && e.busy == 0 && e.conc && !e.stop {
						e.probed = true
						if e.nextRound() {
							ex = e
							break
						}
					}
				}
			}
			if ex != nil {
				break
			}
			if p.active == 0 {
				p.mu.Unlock()
				p.cond.Broadcast()
				return
			}
			p.cond.Wait()
		}
		if w.ex != ex {
			if w.ex != nil {
				w.ex.addSolver(w.s)
			}
			w.s.resetStats()
			w.ex = ex
		}
		it := ex.stack[len(ex.stack)-1]
		ex.stack = ex.stack[:len(ex.stack)-1]
		p.active++
		ex.busy++
		p.mu.Unlock()

		t0 := time.Now()
		p.mu.Lock()
		if ex.since == nil {
			ex.since = map[*Worker]time.Time{}
		}
		ex.since[w] = t0
		p.mu.Unlock()
		w.runPath(it)

		p.mu.Lock()
		p.active--
		ex.busy--
		delete(ex.since, w)
		ex.Wall += time.Since(t0)
		p.mu.Unlock()
		p.cond.Broadcast()
	}
}

func (w *Worker) push(items []Item) {
	ex := w.ex
	p := ex.pool
	p.mu.Lock()
	ex.stack = append(ex.stack, items...)
	p.mu.Unlock()
	p.cond.Broadcast()
}

func (w *Worker) runPath(it Item) {
	if w.b.next > 400000 {
		w.b = NewBuilder()
		w.s.Restart()
		w.qcache = map[string]qres{}
	}
	if len(w.qcache) > 200000 {
		w.qcache = map[string]qres{}
	}
	w.epoch++
	w.item = it
	w.pos = 0
	w.decs = append(w.decs[:0], it.pre...)
	w.model = it.model
	if w.model == nil {
		w.model = Model{}
	}
	w.pc = w.pc[:0]
	w.pcset = map[*Term]bool{}
	w.dom = map[int32]*[4]uint64{}
	w.multi = map[int32]bool{}
	w.occ = map[string]int{}
	w.inputs = w.inputs[:0]
	w.inNames = map[string]*Term{}
	w.choices = map[string]int{}
	w.obs = w.obs[:0]
	w.reach = w.reach[:0]
	w.steps, w.tick = 0, 0
	w.claims = w.claims[:0]
	w.unk = false
	w.logLevel = 0 // debug, as in the shipped configuration
	w.modelsP = nil
	w.rt = map[string]Value{}
	w.evalMemo = nil
	w.concMode = false
	w.locks = map[Ptr]*lockState{}
	w.clock = Clock{}
	w.scratch = map[string]any{}
	w.sched = newSched(w)

	w.abort = true
	end := w.sched.runMain(w.ex.entry)
	w.abort = false
	w.finishPath(end)
	w.auditClaims()
	w.leaf(end)
	w.rollback()
	w.ex.mu.Lock()
	w.ex.Steps += w.steps
	w.ex.mu.Unlock()
}

type endKind int

const (
	endNormal endKind = iota
	endPath           // assume failed etc.
	endUnsup
	endPanic
	endSteps
	endEngine
)

type pathResult struct {
	kind endKind
	msg  string
	pv   Iface
	viol string
}

func (w *Worker) finishPath(r pathResult) {
	ex := w.ex
	switch r.kind {
	case endNormal:
		wit := w.witness()
		ex.mu.Lock()
		ex.Paths++
		for _, l := range w.reach {
			ex.Reached[l]++
		}
		key := fmt.Sprint(w.reach)
		n := ex.witSeen[key]
		ex.witSeen[key]++
		if n < 2 || (n < 40 && ex.Paths%17 == 0) {
			if len(ex.Witnesses) < 400 {
				ex.Witnesses = append(ex.Witnesses, wit)
			}
		}
		ex.mu.Unlock()
	case endPath:
		ex.mu.Lock()
		if r.msg == "time-unknown" {
			ex.Incomplete = "time budget reached"
		} else if r.msg == "violation" {
			ex.Paths++
		} else {
			ex.Infeasible++
		}
		ex.mu.Unlock()
	case endUnsup:
		ex.mu.Lock()
		ex.Unsup++
		ex.UnsupMsgs[r.msg]++
		ex.mu.Unlock()
		if debugOn {
			fmt.Fprintln(os.Stderr, "UNSUP:", r.msg, "at", w.lastPos)
		}
	case endSteps:
		ex.mu.Lock()
		ex.StepLimit++
		ex.mu.Unlock()
	case endPanic:
		w.report("panic", "uncaught panic: "+r.msg, w.model, "panic")
		ex.mu.Lock()
		ex.Paths++
		ex.mu.Unlock()
	}
}

var debugOn = os.Getenv("SYMGO_DEBUG") != ""

// inputsOf evaluates all inputs in a model.
func (w *Worker) inputVals(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range w.inputs {
		x, ok := m[v.name]
		if !ok {
			x = v.lo
		}
		n, _, _ := strings.Cut(v.name, "~")
		r[n] = x
	}
	return r
}

func (w *Worker) choicesCopy() map[string]int {
	r := map[string]int{}
	for k, v := range w.choices {
		r[k] = v
	}
	return r
}

func (w *Worker) witness() *Witness {
	wt := &Witness{Harness: w.ex.harness, Inputs: w.inputVals(w.model), Choices: w.choicesCopy(), Sched: append([]int(nil), w.sched.trace...)}
	wt.Reach = append([]string(nil), w.reach...)
	for _, o := range w.obs {
		wt.Obs = append(wt.Obs, o.label+"="+w.concStr(o.v, w.model))
	}
	return wt
}

// concStr renders a value under a model, in the same format as the native runtime.
func (w *Worker) concStr(v Value, m Model) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "<nil>"
		}
		switch x := v.v.(type) {
		case string, *BStr:
			return fmt.Sprintf("%x", w.concBytes(x, m))
		case Slice:
			if x.a == nil {
				return ""
			}
			return fmt.Sprintf("%x", w.concBytes(x.bytesStr(), m))
		}
		if isSigned(v.t) {
			u := w.concU(v.v, m)
			wd := widthOf(v.t)
			return fmt.Sprint(int64(u<<(64-wd)) >> (64 - wd))
		}
		return w.concStr(v.v, m)
	case bool:
		return fmt.Sprint(v)
	case uint64:
		return fmt.Sprint(v)
	case *Term:
		x := w.b.Eval(v, m)
		if v.fp {
			return fmt.Sprintf("f%x", x)
		}
		if v.w == 0 {
			return fmt.Sprint(x != 0)
		}
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprintf("f%x", fbits(v, 64))
	}
	return "?"
}

func (w *Worker) concU(v Value, m Model) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return w.b.Eval(v, m)
	}
	return 0
}

func (w *Worker) concBytes(v Value, m Model) []byte {
	c, t := strParts(v)
	r := []byte(c)
	for i := range t {
		if t[i] != nil {
			r[i] = byte(w.b.Eval(t[i], m))
		}
	}
	return r
}

func (w *Worker) report(label, msg string, m Model, kind string) {
	v := &Violation{Harness: w.ex.harness, Label: label, Msg: msg, Inputs: w.inputVals(m), Choices: w.choicesCopy(), Kind: kind}
	v.Sched = append([]int(nil), w.sched.trace...)
	for _, o := range w.obs {
		v.Obs = append(v.Obs, o.label+"="+w.concStr(o.v, m))
	}
	ex := w.ex
	ex.mu.Lock()
	ex.violKeys[label]++
	n := ex.violKeys[label]
	confirmed := false
	for _, x := range ex.Violations {
		if x.Label == label {
			confirmed = true
		}
	}
	ex.mu.Unlock()
	if confirmed || n > 12 {
		return
	}
	if ex.onViol != nil {
		if ex.onViol(v) {
			ex.mu.Lock()
			ex.Violations = append(ex.Violations, v)
			ex.mu.Unlock()
			ex.pool.done.Store(true)
			ex.pool.mu.Lock()
			ex.pool.stop = true
			ex.pool.mu.Unlock()
			ex.pool.cond.Broadcast()
		}
	} else {
		ex.mu.Lock()
		ex.Violations = append(ex.Violations, v)
		ex.mu.Unlock()
	}
}

// ---- constraints ----

func (w *Worker) addPC(t *Term) {
	if t.isConst() || w.pcset[t] {
		return
	}
	if t.op == OBAnd {
		for _, a := range t.args {
			w.addPC(a)
		}
		return
	}
	w.pcset[t] = true
	w.pc = append(w.pc, t)
	if len(t.sup) == 1 {
		vi := t.sup[0]
		if v := w.b.vars[vi]; v.w <= 8 {
			if fn := w.b.fnOf(t); fn != nil {
				d := w.domOf(vi)
				for x := 0; x < 256; x++ {
					if fn[x] == 0 {
						d[x>>6] &^= 1 << (x & 63)
					}
				}
				return
			}
		}
	}
	for _, vi := range t.sup {
		w.multi[vi] = true
	}
}

func (w *Worker) domOf(vi int32) *[4]uint64 {
	d := w.dom[vi]
	if d == nil {
		d = new([4]uint64)
		v := w.b.vars[vi]
		for x := v.lo; x <= v.hi && x < 256; x++ {
			d[x>>6] |= 1 << (x & 63)
		}
		w.dom[vi] = d
	}
	return d
}

// quick decides a condition from known facts: returns (value, known, canTrue, canFalse exact)
func (w *Worker) quick(t *Term) (val bool, known bool, exactBoth bool) {
	if w.pcset[t] {
		return true, true, false
	}
	n := w.b.Not(t)
	if w.pcset[n] {
		return false, true, false
	}
	if len(t.sup) == 1 {
		vi := t.sup[0]
		if v := w.b.vars[vi]; v.w <= 8 {
			if fn := w.b.fnOf(t); fn != nil {
				d := w.domOf(vi)
				ct, cf := false, false
				for x := 0; x < 256; x++ {
					if d[x>>6]>>(x&63)&1 == 1 {
						if fn[x] != 0 {
							ct = true
						} else {
							cf = true
						}
					}
				}
				if !cf {
					return true, true, false
				}
				if !ct {
					return false, true, false
				}
				return false, false, !w.multi[vi]
			}
		}
	}
	return false, false, false
}

// slice returns the constraints relevant to t.
func (w *Worker) slice(t *Term) []*Term {
	need := map[int32]bool{}
	for _, v := range t.sup {
		need[v] = true
	}
	used := make([]bool, len(w.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.sup {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				changed = true
				for _, v := range c.sup {
					need[v] = true
				}
			}
		}
	}
	return out
}

// check decides PC /\ t.
func (w *Worker) check(t *Term) (Verdict, Model) {
	if t == w.b.F {
		return VUnsat, nil
	}
	conj := append(w.slice(t), t)
	ids := make([]int, len(conj))
	for i, c := range conj {
		ids[i] = c.id
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	r, ok := w.qcache[key]
	if !ok {
		vs := map[int32]bool{}
		for _, c := range conj {
			for _, v := range c.sup {
				vs[v] = true
			}
		}
		vars := make([]*Term, 0, len(vs))
		for v := range vs {
			vars = append(vars, w.b.vars[v])
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
		v, m := w.solve(conj, vars)
		if v == VSat { // trust but verify
			for _, c := range conj {
				if w.b.Eval(c, m) == 0 {
					if debugOn {
						fmt.Fprintln(os.Stderr, "model check failed for", body(c))
					}
					v = VUnknown
				}
			}
		}
		r = qres{v, m}
		w.qcache[key] = r
	}
	if r.v != VSat {
		return r.v, nil
	}
	nm := make(Model, len(w.model)+len(r.m))
	for k, v := range w.model {
		nm[k] = v
	}
	for k, v := range r.m {
		nm[k] = v
	}
	return VSat, nm
}

// expired: the exploration is over (time used up, or a violation is confirmed).
func (w *Worker) expired() bool {
	p := w.ex.pool
	return p.done.Load() || time.Now().After(p.deadline)
}

// solve: incremental try, then models guessed and verified by evaluation, then fresh solvers.
func (w *Worker) solve(conj, vars []*Term) (Verdict, Model) {
	if w.expired() {
		if w.abort {
			panic(pathEnd{"time-unknown"})
		}
		return VUnknown, nil
	}
	v, m := w.s.Check(conj, vars, quickTimeoutMs)
	if v != VUnknown {
		return v, m
	}
	n := w.ex.slow.Add(1)
	w.s.Restart()
	if m := w.guess(conj, vars); m != nil {
		w.s.Sat++
		return VSat, m
	}
	tmo := 20
	if n > 4 {
		tmo = 5
	}
	if left := int(time.Until(w.ex.pool.deadline).Seconds()); left < tmo {
		tmo = left
	}
	if tmo < 1 || w.expired() {
		w.s.Unknown++
		return VUnknown, nil
	}
	v, m = w.s.fallback(conj, vars, tmo)
	switch v {
	case VSat:
		w.s.Sat++
	case VUnsat:
		w.s.Unsat++
	default:
		w.s.Unknown++
	}
	return v, m
}

// guess looks for a model among extreme, random and mutated assignments; what it returns satisfies the query.
func (w *Worker) guess(conj, vars []*Term) Model {
	rng := rand.New(rand.NewSource(int64(len(conj))*7919 + int64(len(vars))))
	holds := func(m Model) bool {
		for i := len(conj) - 1; i >= 0; i-- {
			if w.b.Eval(conj[i], m) == 0 {
				return false
			}
		}
		return true
	}
	rnd := func(v *Term) uint64 {
		if v.hi == v.lo {
			return v.lo
		}
		switch rng.Intn(6) {
		case 0:
			return v.lo
		case 1:
			return v.hi
		}
		if v.hi-v.lo == ^uint64(0) {
			return rng.Uint64()
		}
		return v.lo + rng.Uint64()%(v.hi-v.lo+1)
	}
	t0 := time.Now()
	for i := 0; i < 4000 && time.Since(t0) < time.Second; i++ {
		m := Model{}
		for _, v := range vars {
			switch {
			case i == 0:
				m[v.name] = v.lo
			case i == 1:
				m[v.name] = v.hi
			case i%2 == 0: // near the current model
				x, ok := w.model[v.name]
				if !ok {
					x = v.lo
				}
				if rng.Intn(len(vars)) < 1+i%3 {
					x = rnd(v)
				}
				m[v.name] = x
			default:
				m[v.name] = rnd(v)
			}
		}
		if holds(m) {
			return m
		}
	}
	return nil
}

func (w *Worker) evalModel(t *Term) uint64 { return w.b.Eval(t, w.model) }

func (w *Worker) pushAlt(d Dec, m Model) {
	pre := make([]Dec, len(w.decs), len(w.decs)+1)
	copy(pre, w.decs)
	pre = append(pre, d)
	w.push([]Item{{pre: pre, model: m, racy: w.item.racy, full: w.item.full}})
}

// branch decides a boolean value, forking when both sides are feasible.
func (w *Worker) branch(v Value, why string) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return w.branchT(v, why)
	case Poison:
		panic(unsupported("poison condition: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("branch on %T", v)))
}

func (w *Worker) branchT(t *Term, why string) bool {
	if t.isConst() {
		return t.val != 0
	}
	if w.inInit {
		panic(unsupported("symbolic branch in init"))
	}
	if w.pos < len(w.decs) {
		d := w.decs[w.pos]
		if val, known, _ := w.quick(t); known {
			// not recorded as decision
			return val
		}
		w.pos++
		if d.kind != dBranch {
			panic(unsupported("decision desync (branch) at " + w.lastPos))
		}
		if d.val == 1 {
			w.addPC(t)
			return true
		}
		w.addPC(w.b.Not(t))
		return false
	}
	val, known, exact := w.quick(t)
	if known {
		w.ex.DomainDec.Add(1)
		w.claim(t, val)
		return val
	}
	taken := w.evalModel(t) != 0
	other := t
	if taken {
		other = w.b.Not(t)
	}
	var verdict Verdict
	var m Model
	if exact {
		// isolated small variable: both sides are non-empty in its domain
		vi := t.sup[0]
		d := w.domOf(vi)
		fn := w.b.fnOf(t)
		for x := 0; x < 256; x++ {
			if d[x>>6]>>(x&63)&1 == 1 && (fn[x] != 0) != taken {
				m = make(Model, len(w.model)+1)
				for k, v := range w.model {
					m[k] = v
				}
				m[w.b.vars[vi].name] = uint64(x)
				break
			}
		}
		verdict = VSat
		w.ex.DomainDec.Add(1)
	} else {
		verdict, m = w.check(other)
	}
	switch verdict {
	case VSat:
		w.pushAlt(Dec{kind: dBranch, val: b2u(!taken), n: 2}, m)
	case VUnknown:
		w.ex.BranchUnknown.Add(1)
		w.ex.Incomplete = "solver answered unknown on a branch"
	}
	if verdict == VUnsat {
		// implied: not a decision, but remember the fact
		if taken {
			w.addFact(t)
		} else {
			w.addFact(w.b.Not(t))
		}
		// replays must see the same decision structure: record it
		w.decs = append(w.decs, Dec{kind: dBranch, val: b2u(taken), n: 1})
		w.pos++
		return taken
	}
	w.decs = append(w.decs, Dec{kind: dBranch, val: b2u(taken), n: 2})
	w.pos++
	w.ex.Decisions.Add(1)
	if taken {
		w.addPC(t)
	} else {
		w.addPC(w.b.Not(t))
	}
	return taken
}

// addFact records an implied literal (added to the path condition: harmless, keeps replays in step).
func (w *Worker) addFact(t *Term) { w.addPC(t) }

// choose picks 0..n-1 (all explored).
func (w *Worker) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if w.inInit {
		panic(unsupported("choice in init"))
	}
	if w.pos < len(w.decs) {
		d := w.decs[w.pos]
		w.pos++
		if d.kind != dChoice {
			panic(unsupported("decision desync (choice " + why + ") at " + w.lastPos))
		}
		return int(d.val)
	}
	items := make([]Item, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		pre := make([]Dec, len(w.decs), len(w.decs)+1)
		copy(pre, w.decs)
		pre = append(pre, Dec{kind: dChoice, val: uint64(i), n: n})
		items = append(items, Item{pre: pre, model: w.model, racy: w.item.racy, full: w.item.full})
	}
	w.push(items)
	w.decs = append(w.decs, Dec{kind: dChoice, val: 0, n: n})
	w.pos++
	w.ex.Decisions.Add(1)
	return 0
}

// concretize forks over the feasible values of t.
func (w *Worker) concretize(v Value, why string) uint64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(uint64)
	}
	if t.isConst() {
		return t.val
	}
	if w.inInit {
		panic(unsupported("symbolic value in init"))
	}
	var d Dec
	if w.pos < len(w.decs) {
		d = w.decs[w.pos]
		if d.kind != dConc {
			panic(unsupported("decision desync (conc " + why + ") at " + w.lastPos))
		}
		if !(d.open && w.pos == len(w.decs)-1) {
			w.pos++
			w.addPC(w.b.Eq(t, w.b.Const(d.val, t.w)))
			return d.val
		}
		w.decs = w.decs[:w.pos]
	} else {
		d = Dec{kind: dConc, val: w.evalModel(t)}
	}
	// look for another value
	var neq []*Term
	for _, x := range append(append([]uint64(nil), d.excl...), d.val) {
		neq = append(neq, w.b.Not(w.b.Eq(t, w.b.Const(x, t.w))))
	}
	verdict, m := w.check(w.b.And(neq...))
	switch verdict {
	case VSat:
		nv := w.b.Eval(t, m)
		w.pushAlt(Dec{kind: dConc, val: nv, excl: append(append([]uint64(nil), d.excl...), d.val), open: true}, m)
	case VUnknown:
		w.ex.BranchUnknown.Add(1)
		w.ex.Incomplete = "solver answered unknown on a concretisation"
	}
	closed := 0
	if verdict == VUnsat {
		closed = 1
	}
	w.decs = append(w.decs, Dec{kind: dConc, val: d.val, n: closed})
	w.pos++
	w.ex.Decisions.Add(1)
	w.addPC(w.b.Eq(t, w.b.Const(d.val, t.w)))
	return d.val
}

// assume restricts the path; ends it when infeasible.
func (w *Worker) assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(pathEnd{"assume"})
		}
		return
	}
	t := v.(*Term)
	if val, known, _ := w.quick(t); known {
		if w.pos >= len(w.decs) {
			w.claim(t, val)
		}
		if !val {
			panic(pathEnd{"assume"})
		}
		return
	}
	if w.evalModel(t) != 0 {
		w.addPC(t)
		return
	}
	verdict, m := w.check(t)
	switch verdict {
	case VSat:
		w.model = m
		w.addPC(t)
	case VUnsat:
		panic(pathEnd{"assume"})
	default:
		w.ex.BranchUnknown.Add(1)
		w.ex.Incomplete = "solver answered unknown on an assumption"
		panic(pathEnd{"assume-unknown"})
	}
}

// assert checks a property.
func (w *Worker) assert(v Value, label string) {
	ex := w.ex
	ex.mu.Lock()
	ex.Asserts++
	ex.Labels[label]++
	ex.mu.Unlock()
	if b, ok := v.(bool); ok {
		if b {
			ex.mu.Lock()
			ex.AssertTriv++
			ex.mu.Unlock()
			return
		}
		w.report(label, "assertion is false", w.model, "assert")
		panic(pathEnd{"violation"})
	}
	t := v.(*Term)
	if w.pos < len(w.decs) {
		// this prefix has been checked by the path that spawned us
		w.addPC(t)
		return
	}
	n := w.b.Not(t)
	ex.mu.Lock()
	ex.AssertQ++
	ex.mu.Unlock()
	verdict, m := w.check(n)
	switch verdict {
	case VUnsat:
		w.addPC(t)
	case VSat:
		w.report(label, "assertion can be false", m, "assert")
		// continue on the side where it holds
		w.assume(t)
	default:
		ex.mu.Lock()
		ex.AssertUnknown++
		ex.Incomplete = "solver answered unknown on assertion " + label
		ex.mu.Unlock()
		panic(pathEnd{"assert-unknown"})
	}
}
