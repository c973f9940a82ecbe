package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, caller *frame, f *Func, args []Value) Value

const vrtPath = repoMod + "/internal/zzvrt"

var intrTab map[string]intrinsic

var stubMu sync.Mutex
var stubsUsed = map[string]bool{}

func noteStub(name string) {
	stubMu.Lock()
	stubsUsed[name] = true
	stubMu.Unlock()
}

func lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if fn.Synthetic != "" && fn.Pkg == nil && fn.Origin() == nil {
		// wrappers/thunks/bounds are interpreted
		if !strings.Contains(name, "zerolog") {
			return nil
		}
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
		name = o.String()
	}
	if i, ok := intrTab[name]; ok {
		return i
	}
	if o.Pkg != nil {
		pp := o.Pkg.Pkg.Path()
		if strings.Contains(pp, "rs/zerolog") {
			return zeroIntr("zerolog (logging discarded)")
		}
		if pp == "sync/atomic" && o.Signature.Recv() == nil {
			return atomicIntr(o.Name())
		}
		if pp == "internal/runtime/atomic" && o.Signature.Recv() == nil {
			return nil
		}
	} else if o.Object() != nil && o.Object().Pkg() != nil && strings.Contains(o.Object().Pkg().Path(), "rs/zerolog") {
		return zeroIntr("zerolog (logging discarded)")
	}
	return nil
}

func zeroIntr(note string) intrinsic {
	return func(w *Worker, caller *frame, f *Func, args []Value) Value {
		if strings.HasSuffix(f.name, ").GetLevel") || strings.HasSuffix(f.name, ".GlobalLevel") {
			return w.logLevel
		}
		return w.zeroResult(f)
	}
}

func goStr(w *Worker, v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *BStr:
		r := []byte(s.c)
		for i, t := range s.t {
			if t != nil {
				r[i] = byte(w.concretize(t, "str"))
			}
		}
		return string(r)
	}
	panic(unsupported(fmt.Sprintf("goStr %T", v)))
}

func isConcStr(v Value) bool { _, ok := v.(string); return ok }

func (w *Worker) input(label string, lo, hi uint64, wd uint8) Value {
	k := label + "#" + strconv.Itoa(w.occ[label])
	w.occ[label]++
	if w.inInit {
		panic(unsupported("input in init"))
	}
	if lo == hi {
		return lo
	}
	var t *Term
	if lo == 0 && hi == mask(wd) {
		if wd != 8 {
			k = fmt.Sprintf("%s~w%d", k, wd)
		}
		t = w.b.Var(k, wd)
	} else {
		k = fmt.Sprintf("%s~%d~%d~%d", k, wd, lo, hi)
		t = w.b.Var(k, wd, lo, hi)
	}
	if _, ok := w.inNames[k]; !ok {
		w.inNames[k] = t
		w.inputs = append(w.inputs, t)
	}
	if _, ok := w.model[k]; !ok {
		w.model = w.model.with(k, lo)
	}
	return t
}

func (m Model) with(k string, v uint64) Model {
	n := make(Model, len(m)+1)
	for a, b := range m {
		n[a] = b
	}
	n[k] = v
	return n
}

func nilErr() Value { return Iface{} }

// mkErr builds an error value of type *errors.errorString.
func (w *Worker) mkErr(msg Value) Value {
	ep := w.p.pkgs["errors"]
	if ep == nil {
		panic(unsupported("errors package not loaded"))
	}
	t := ep.Type("errorString").Type()
	a := w.newAgg(1)
	s := w.newAgg(1)
	s.c[0] = msg
	a.c[0] = s
	return Iface{canon(types.NewPointer(t)), Ptr{a, 0}}
}

func sliceOf(w *Worker, vals []Value) Slice {
	a := w.newAgg(len(vals))
	copy(a.c, vals)
	return Slice{a, 0, len(vals), len(vals)}
}

func sliceVals(v Value) []Value {
	s := v.(Slice)
	out := make([]Value, s.len)
	for i := range out {
		out[i] = s.a.get(s.off + i)
	}
	return out
}

func byteVals(v Value) []Value {
	switch s := v.(type) {
	case Slice:
		return sliceVals(s)
	default:
		n := strLen(s)
		out := make([]Value, n)
		for i := range out {
			out[i] = strAt(s, i)
		}
		return out
	}
}

func (w *Worker) lock(p Ptr) *lockState {
	l := w.locks[p]
	if l == nil {
		l = &lockState{}
		w.locks[p] = l
	}
	return l
}

func (w *Worker) acq(v Value) {
	if !w.sched.exploring {
		return
	}
	w.sched.acqVC(w.lock(ptrOf(v)).vc)
	w.sched.acqVC(w.lock(ptrOf(v)).rv)
}
func (w *Worker) acqR(v Value) {
	if !w.sched.exploring {
		return
	}
	w.sched.acqVC(w.lock(ptrOf(v)).vc)
}
func (w *Worker) relR(v Value) {
	if !w.sched.exploring {
		return
	}
	w.sched.relVC(&w.lock(ptrOf(v)).rv)
}
func (w *Worker) rel(v Value) {
	if !w.sched.exploring {
		return
	}
	w.sched.relVC(&w.lock(ptrOf(v)).vc)
}

func lockAcq(w *Worker, c *frame, f *Func, a []Value) Value {
	w.sched.cur.held++
	w.acq(a[0])
	return nil
}

func lockRel(w *Worker, c *frame, f *Func, a []Value) Value {
	if w.sched.cur.held > 0 {
		w.sched.cur.held--
	}
	w.rel(a[0])
	return nil
}

func ptrOf(v Value) Ptr {
	switch x := v.(type) {
	case Ptr:
		return x
	case Iface:
		return ptrOf(x.v)
	}
	panic(unsupported(fmt.Sprintf("ptrOf %T", v)))
}

func atomicIntr(name string) intrinsic {
	acc := func(w *Worker, p Value) Ptr {
		q := p.(Ptr)
		if q.a == nil {
			w.nilDeref()
		}
		if w.sched.exploring && !w.inInit {
			w.sched.cur.touched = true
			w.acq(q)
			w.rel(q)
		}
		return q
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(w *Worker, c *frame, f *Func, a []Value) Value { return w.load(acc(w, a[0])) }
	case strings.HasPrefix(name, "Store"):
		return func(w *Worker, c *frame, f *Func, a []Value) Value { w.store(acc(w, a[0]), a[1]); return nil }
	case strings.HasPrefix(name, "Swap"):
		return func(w *Worker, c *frame, f *Func, a []Value) Value {
			p := acc(w, a[0])
			o := w.load(p)
			w.store(p, a[1])
			return o
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(w *Worker, c *frame, f *Func, a []Value) Value {
			p := acc(w, a[0])
			if w.branch(w.eqVal(w.load(p), a[1]), "cas") {
				w.store(p, a[2])
				return true
			}
			return false
		}
	case strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "And"), strings.HasPrefix(name, "Or"):
		op := OAdd
		if strings.HasPrefix(name, "And") {
			op = OAnd
		} else if strings.HasPrefix(name, "Or") {
			op = OOr
		}
		return func(w *Worker, c *frame, f *Func, a []Value) Value {
			p := acc(w, a[0])
			wd := widthOf(f.fn.Signature.Params().At(1).Type())
			o := w.load(p)
			n := w.norm(w.b.bin(op, w.term(o, wd), w.term(a[1], wd)))
			w.store(p, n)
			if op == OAdd {
				return n
			}
			return o
		}
	}
	return nil
}

func init() {
	v := func(n string) string { return vrtPath + "." + n }
	identity := func(w *Worker, c *frame, f *Func, a []Value) Value { return a[0] }
	nop := func(w *Worker, c *frame, f *Func, a []Value) Value { return w.zeroResult(f) }
	fl := func(g func(float64) float64) intrinsic {
		return func(w *Worker, c *frame, f *Func, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported("symbolic float in " + f.name))
			}
			return g(x)
		}
	}
	intrTab = map[string]intrinsic{
		v("primU8"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			return w.input(a[0].(string), a[1].(uint64), a[2].(uint64), 8)
		},
		v("primRange"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			return w.input(a[0].(string), a[1].(uint64), a[2].(uint64), 64)
		},
		v("primPick"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			l := a[0].(string)
			k := l + "#" + strconv.Itoa(w.occ[l])
			w.occ[l]++
			n := w.choose(int(a[1].(uint64)), "pick "+l)
			w.choices[k] = n
			return uint64(n)
		},
		v("primLogLevel"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.logLevel = a[0].(uint64) & 0xff
			return nil
		},
		v("primTier"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			if w.ex.tier == "thorough" {
				return uint64(1)
			}
			return uint64(0)
		},
		v("primAssume"): func(w *Worker, c *frame, f *Func, a []Value) Value { w.assume(a[0]); return nil },
		v("primAssert"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.assert(a[0], a[1].(string))
			return nil
		},
		v("primReach"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.reach = append(w.reach, a[0].(string))
			return nil
		},
		v("primObserve"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			x := a[1].(Iface)
			if s, ok := x.v.(Slice); ok { // snapshot
				if s.a != nil {
					x.v = w.strBytes(s.bytesStr())
				}
			}
			w.obs = append(w.obs, obsRec{a[0].(string), x})
			return nil
		},
		v("primEqStr"): func(w *Worker, c *frame, f *Func, a []Value) Value { return w.strEq(a[0], a[1]) },
		v("primEntries"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			n := uint64(0)
			x := a[0].(Iface).v
			if p, ok := x.(Ptr); ok && p.a != nil {
				x = p.a
				if p.a.n() > p.i {
					if y, ok := p.a.get(p.i).(*Agg); ok {
						x = y
					}
				}
			}
			if g, ok := x.(*Agg); ok && !g.isB {
				for _, e := range g.c {
					if m, ok := e.(*MapV); ok && m != nil {
						n += uint64(m.live)
					}
				}
			}
			return n
		},
		v("primAnd"): func(w *Worker, c *frame, f *Func, a []Value) Value { return w.andVal(a[0], a[1]) },
		v("primNot"): func(w *Worker, c *frame, f *Func, a []Value) Value { return w.notVal(a[0]) },
		v("primIff"): func(w *Worker, c *frame, f *Func, a []Value) Value { return w.eqVal(a[0], a[1]) },
		v("primFatal"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.report("fatal", a[0].(string), w.model, "panic")
			panic(pathEnd{"violation"})
		},
		v("primWait"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			cl := a[0].(*Closure)
			w.sched.block(func() bool { return w.branch(w.call(c, cl, nil), "wait") }, "wait")
			return nil
		},
		v("primSleep"): func(w *Worker, c *frame, f *Func, a []Value) Value { w.sched.sleepG(); return nil },
		v("primYield"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			if rs := w.sched.runnable(false); len(rs) > 0 {
				w.sched.switchTo(rs[0])
			}
			return nil
		},
		v("primWake"):    func(w *Worker, c *frame, f *Func, a []Value) Value { w.sched.wakeAll(); return nil },
		v("primQuiesce"): func(w *Worker, c *frame, f *Func, a []Value) Value { w.sched.quiesce(); return nil },
		v("primConcBegin"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.sched.begin(int(a[0].(uint64)), a[1].(bool))
			return nil
		},
		v("primConcEnd"): func(w *Worker, c *frame, f *Func, a []Value) Value { w.sched.stopExploring(); return nil },
		v("Y"):           func(w *Worker, c *frame, f *Func, a []Value) Value { w.sched.yield(); return nil },
		v("W"):           identity,
		v("primTouch"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.sched.cur.touched = true
			return nil
		},
		v("primAcq"): lockAcq,
		v("primRel"): lockRel,
		v("primAcqR"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.sched.cur.held++
			w.acqR(a[0])
			return nil
		},
		v("primRelR"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			if w.sched.cur.held > 0 {
				w.sched.cur.held--
			}
			w.relR(a[0])
			return nil
		},
		// a nested lock acquisition is preceded by a scheduling point
		v("primPre"): func(w *Worker, c *frame, f *Func, a []Value) Value {
			if w.sched.cur.held > 0 {
				w.sched.cur.touched = true
			}
			return nil
		},
		v("Main"): nop,

		// runtime
		"runtime.Callers":                           nop,
		"runtime.Caller":                            nop,
		"runtime.FuncForPC":                         nop,
		"runtime.GC":                                nop,
		"runtime.KeepAlive":                         nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.Gosched":                           nop,
		"runtime.NumGoroutine":                      func(w *Worker, c *frame, f *Func, a []Value) Value { return uint64(1) },
		"runtime.GOMAXPROCS":                        func(w *Worker, c *frame, f *Func, a []Value) Value { return uint64(1) },
		"runtime.NumCPU":                            func(w *Worker, c *frame, f *Func, a []Value) Value { return uint64(1) },
		"runtime/debug.Stack":                       nop,
		"runtime/debug.PrintStack":                  nop,
		"(runtime.errorString).Error":               func(w *Worker, c *frame, f *Func, a []Value) Value { return strConcat("runtime error: ", a[0]) },
		"internal/abi.NoEscape":                     identity,
		"internal/abi.Escape":                       identity,
		"(*internal/godebug.Setting).Value":         func(w *Worker, c *frame, f *Func, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/godebug.New":                      nop,
		"internal/race.Acquire":                     nop,
		"internal/race.Release":                     nop,

		// bytealg
		"internal/bytealg.MakeNoZero": func(w *Worker, c *frame, f *Func, a []Value) Value {
			n := int(w.concretize(a[0], "len"))
			ag := w.newBytes(n)
			return Slice{ag, 0, n, n}
		},
		"internal/bytealg.IndexByte":           indexByte,
		"internal/bytealg.IndexByteString":     indexByte,
		"strings.IndexByte":                    indexByte,
		"bytes.IndexByte":                      indexByte,
		"internal/bytealg.LastIndexByte":       lastIndexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte,
		"internal/bytealg.Count":               countByte,
		"internal/bytealg.CountString":         countByte,
		"internal/bytealg.Equal": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return w.strEq(a[0].(Slice).bytesStr(), a[1].(Slice).bytesStr())
		},
		"bytes.Equal": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return w.strEq(a[0].(Slice).bytesStr(), a[1].(Slice).bytesStr())
		},
		"internal/bytealg.Compare": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return w.compare(a[0].(Slice).bytesStr(), a[1].(Slice).bytesStr())
		},
		"internal/bytealg.CompareString": func(w *Worker, c *frame, f *Func, a []Value) Value { return w.compare(a[0], a[1]) },
		"strings.Compare":                func(w *Worker, c *frame, f *Func, a []Value) Value { return w.compare(a[0], a[1]) },
		"strings.Index":                  indexStr,
		"internal/bytealg.IndexString":   indexStr,
		"internal/stringslite.Index":     indexStr,
		"bytes.Index": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return indexStr(w, c, f, []Value{a[0].(Slice).bytesStr(), a[1].(Slice).bytesStr()})
		},
		"internal/bytealg.Index": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return indexStr(w, c, f, []Value{a[0].(Slice).bytesStr(), a[1].(Slice).bytesStr()})
		},
		"strings.Clone": identity,

		// errors
		"errors.Is": func(w *Worker, c *frame, f *Func, a []Value) Value { return w.errorsIs(c, a[0].(Iface), a[1].(Iface)) },
		"errors.As": func(w *Worker, c *frame, f *Func, a []Value) Value { return w.errorsAs(c, a[0].(Iface), a[1].(Iface)) },

		// fmt
		"fmt.Sprintf": func(w *Worker, c *frame, f *Func, a []Value) Value { return w.sprintf(c, a[0], sliceVals(a[1])) },
		"fmt.Sprint":  func(w *Worker, c *frame, f *Func, a []Value) Value { return w.sprint(c, sliceVals(a[0]), false) },
		"fmt.Sprintln": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return w.sprint(c, sliceVals(a[0]), true)
		},
		"fmt.Errorf": func(w *Worker, c *frame, f *Func, a []Value) Value {
			args := sliceVals(a[1])
			msg := w.sprintf(c, strings.ReplaceAll(goStr(w, a[0]), "%w", "%v"), args)
			if strings.Contains(goStr(w, a[0]), "%w") {
				for _, x := range args {
					if i, ok := x.(Iface); ok && i.t != nil && w.p.methodByName(i.t, "Error") != nil {
						return w.mkWrap(msg, i)
					}
				}
			}
			return w.mkErr(msg)
		},
		"fmt.Printf":   nop,
		"fmt.Println":  nop,
		"fmt.Print":    nop,
		"fmt.Fprintln": nop,
		"fmt.Fprintf": func(w *Worker, c *frame, f *Func, a []Value) Value {
			s := w.sprintf(c, a[1], sliceVals(a[2]))
			return w.writeTo(c, a[0].(Iface), s)
		},
		"strconv.Itoa": func(w *Worker, c *frame, f *Func, a []Value) Value { return w.itoa(a[0], true, 64) },
		"strconv.FormatInt": func(w *Worker, c *frame, f *Func, a []Value) Value {
			b := int(w.concretize(a[1], "base"))
			if b == 10 {
				return w.itoa(a[0], true, 64)
			}
			return strconv.FormatInt(int64(w.concretize(a[0], "fmtint")), b)
		},
		"strconv.FormatUint": func(w *Worker, c *frame, f *Func, a []Value) Value {
			b := int(w.concretize(a[1], "base"))
			if b == 10 {
				return w.itoa(a[0], false, 64)
			}
			return strconv.FormatUint(w.concretize(a[0], "fmtuint"), b)
		},
		"strconv.Quote": func(w *Worker, c *frame, f *Func, a []Value) Value { return strconv.Quote(goStr(w, a[0])) },

		// sync
		"(*sync.Mutex).Lock":            syncLock,
		"(*sync.Mutex).Unlock":          syncUnlock,
		"(*sync.Mutex).TryLock":         syncTry,
		"(*sync.RWMutex).Lock":          syncLock,
		"(*sync.RWMutex).Unlock":        syncUnlock,
		"(*sync.RWMutex).RLock":         syncRLock,
		"(*sync.RWMutex).RUnlock":       syncRUnlock,
		"(*internal/sync.Mutex).Lock":   syncLock,
		"(*internal/sync.Mutex).Unlock": syncUnlock,
		"(*sync.WaitGroup).Add": func(w *Worker, c *frame, f *Func, a []Value) Value {
			l := w.lock(a[0].(Ptr))
			l.n += int(int64(w.concretize(a[1], "wg")))
			if l.n < 0 {
				w.rtPanic("sync: negative WaitGroup counter")
			}
			w.rel(a[0])
			return nil
		},
		"(*sync.WaitGroup).Done": func(w *Worker, c *frame, f *Func, a []Value) Value {
			l := w.lock(a[0].(Ptr))
			l.n--
			if l.n < 0 {
				w.rtPanic("sync: negative WaitGroup counter")
			}
			w.rel(a[0])
			return nil
		},
		"(*sync.WaitGroup).Wait": func(w *Worker, c *frame, f *Func, a []Value) Value {
			l := w.lock(a[0].(Ptr))
			w.sched.block(func() bool { return l.n == 0 }, "WaitGroup.Wait")
			w.acq(a[0])
			return nil
		},
		"(*sync.Once).Do": func(w *Worker, c *frame, f *Func, a []Value) Value {
			// done is kept in the first field so that state set up during init persists
			o := a[0].(Ptr).a.get(a[0].(Ptr).i).(*Agg)
			st := w.lock(a[0].(Ptr))
			cell := onceCell(o)
			if cell.get(0) != uint64(0) {
				w.acq(a[0])
				return nil
			}
			if st.w {
				w.sched.block(func() bool { return !st.w }, "Once.Do")
				w.acq(a[0])
				return nil
			}
			st.w = true
			defer func() {
				st.w = false
				w.setCell(cell, 0, uint64(1))
			}()
			w.call(c, a[1].(*Closure), nil)
			w.rel(a[0])
			return nil
		},
		"(*sync.Pool).Get": func(w *Worker, c *frame, f *Func, a []Value) Value {
			o := a[0].(Ptr).a.get(a[0].(Ptr).i).(*Agg)
			nw := o.get(o.n() - 1)
			if cl, ok := nw.(*Closure); ok && cl != nil {
				return w.call(c, cl, nil)
			}
			return Iface{}
		},
		"(*sync.Pool).Put": nop,
		"(*sync.Map).Load": func(w *Worker, c *frame, f *Func, a []Value) Value {
			m := w.syncMapOf(a[0].(Ptr))
			i := w.mapFind(m, a[1])
			if i < 0 {
				return Tuple{Iface{}, false}
			}
			return Tuple{m.ents[i].v, true}
		},
		"(*sync.Map).Store": func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.publishIf(a[2])
			w.mapSet(w.syncMapOf(a[0].(Ptr)), a[1], a[2])
			return nil
		},
		"(*sync.Map).LoadOrStore": func(w *Worker, c *frame, f *Func, a []Value) Value {
			m := w.syncMapOf(a[0].(Ptr))
			if i := w.mapFind(m, a[1]); i >= 0 {
				return Tuple{m.ents[i].v, true}
			}
			w.publishIf(a[2])
			w.mapSet(m, a[1], a[2])
			return Tuple{a[2], false}
		},
		"(*sync.Map).LoadAndDelete": func(w *Worker, c *frame, f *Func, a []Value) Value {
			m := w.syncMapOf(a[0].(Ptr))
			if i := w.mapFind(m, a[1]); i >= 0 {
				v := m.ents[i].v
				w.mapDel(m, a[1])
				return Tuple{v, true}
			}
			return Tuple{Iface{}, false}
		},
		"(*sync.Map).Delete": func(w *Worker, c *frame, f *Func, a []Value) Value {
			w.mapDel(w.syncMapOf(a[0].(Ptr)), a[1])
			return nil
		},
		"(*sync.Map).Range": func(w *Worker, c *frame, f *Func, a []Value) Value {
			m := w.syncMapOf(a[0].(Ptr))
			for _, e := range append([]mapEnt(nil), m.ents...) {
				if e.del {
					continue
				}
				if !w.branch(w.call(c, a[1].(*Closure), []Value{e.k, e.v}), "range") {
					break
				}
			}
			return nil
		},
		"(*sync/atomic.Value).Load": func(w *Worker, c *frame, f *Func, a []Value) Value {
			o := a[0].(Ptr).a.get(a[0].(Ptr).i).(*Agg)
			w.acq(a[0])
			return o.get(0)
		},
		"(*sync/atomic.Value).Store": func(w *Worker, c *frame, f *Func, a []Value) Value {
			o := a[0].(Ptr).a.get(a[0].(Ptr).i).(*Agg)
			w.rel(a[0])
			w.publishIf(a[1])
			w.setCell(o, 0, a[1])
			return nil
		},

		// sort
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// context
		"context.WithValue": func(w *Worker, c *frame, f *Func, a []Value) Value {
			t := w.p.pkgs["context"].Type("valueCtx").Type()
			st := w.newAgg(3)
			st.c[0], st.c[1], st.c[2] = a[0], a[1], a[2]
			ag := w.newAgg(1)
			ag.c[0] = st
			return Iface{canon(types.NewPointer(t)), Ptr{ag, 0}}
		},

		"github.com/mitchellh/mapstructure.Decode": func(w *Worker, c *frame, f *Func, a []Value) Value {
			noteStub("mapstructure.Decode leaves its target unchanged")
			return Iface{}
		},

		// encoding/json: rendering for logs and HTTP only
		"encoding/json.Marshal": func(w *Worker, c *frame, f *Func, a []Value) Value {
			noteStub("encoding/json.Marshal -> {}")
			return Tuple{w.strBytes("{}"), Iface{}}
		},
		"encoding/json.MarshalIndent": func(w *Worker, c *frame, f *Func, a []Value) Value {
			noteStub("encoding/json.MarshalIndent -> {}")
			return Tuple{w.strBytes("{}"), Iface{}}
		},

		// math
		"math.Floor": fl(math.Floor), "math.Ceil": fl(math.Ceil), "math.Trunc": fl(math.Trunc), "math.Sqrt": fl(math.Sqrt),
		"math.Abs": fl(math.Abs), "math.Round": fl(math.Round), "math.RoundToEven": fl(math.RoundToEven), "math.Log": fl(math.Log),
		"math.Exp": fl(math.Exp), "math.Log10": fl(math.Log10), "math.Log2": fl(math.Log2),
		"math.Float64bits": func(w *Worker, c *frame, f *Func, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported("math.Float64bits of symbolic float"))
			}
			return math.Float64bits(x)
		},
		"math.Float32bits": func(w *Worker, c *frame, f *Func, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported("math.Float32bits of symbolic float"))
			}
			return uint64(math.Float32bits(float32(x)))
		},
		"math.Float64frombits": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return math.Float64frombits(w.concretize(a[0], "float bits"))
		},
		"math.Float32frombits": func(w *Worker, c *frame, f *Func, a []Value) Value {
			return float64(math.Float32frombits(uint32(w.concretize(a[0], "float bits"))))
		},
		"math/bits.Mul64": nil,
	}
	delete(intrTab, "math/bits.Mul64")
}

func onceCell(o *Agg) *Agg {
	// find the first scalar cell
	for i := 0; i < o.n(); i++ {
		switch x := o.get(i).(type) {
		case *Agg:
			if r := onceCell(x); r != nil {
				return r
			}
		case uint64:
			if i == 0 {
				return o
			}
		case bool:
			if i == 0 {
				return o
			}
		}
	}
	return nil
}

func (w *Worker) publishIf(v Value) {
	if w.concMode {
		w.publish(v)
	}
}

func (w *Worker) syncMapOf(p Ptr) *MapV {
	if w.concMode {
		w.sched.cur.touched = true
		w.acq(p)
		w.rel(p)
	}
	k := fmt.Sprintf("syncmap:%d:%d", p.a.id, p.i)
	if m, ok := w.scratch[k]; ok {
		return m.(*MapV)
	}
	m := w.newMap()
	m.owner = 0
	w.scratch[k] = m
	return m
}

func syncLock(w *Worker, c *frame, f *Func, a []Value) Value {
	l := w.lock(a[0].(Ptr))
	w.sched.block(func() bool { return !l.w && l.r == 0 }, "Mutex.Lock")
	l.w = true
	w.acq(a[0])
	return nil
}
func syncTry(w *Worker, c *frame, f *Func, a []Value) Value {
	l := w.lock(a[0].(Ptr))
	if l.w || l.r > 0 {
		return false
	}
	l.w = true
	w.acq(a[0])
	return true
}
func syncUnlock(w *Worker, c *frame, f *Func, a []Value) Value {
	l := w.lock(a[0].(Ptr))
	if !l.w {
		w.report("fatal", "unlock of unlocked mutex", w.model, "panic")
		panic(pathEnd{"violation"})
	}
	w.rel(a[0])
	l.w = false
	return nil
}
func syncRLock(w *Worker, c *frame, f *Func, a []Value) Value {
	l := w.lock(a[0].(Ptr))
	w.sched.block(func() bool { return !l.w }, "RWMutex.RLock")
	l.r++
	w.acqR(a[0])
	return nil
}
func syncRUnlock(w *Worker, c *frame, f *Func, a []Value) Value {
	l := w.lock(a[0].(Ptr))
	w.relR(a[0])
	l.r--
	return nil
}

func indexByte(w *Worker, c *frame, f *Func, a []Value) Value {
	bs := byteVals(a[0])
	for i, b := range bs {
		if w.branch(w.eqVal8(b, a[1]), "indexbyte") {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func lastIndexByte(w *Worker, c *frame, f *Func, a []Value) Value {
	bs := byteVals(a[0])
	for i := len(bs) - 1; i >= 0; i-- {
		if w.branch(w.eqVal8(bs[i], a[1]), "lastindexbyte") {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (w *Worker) eqVal8(x, y Value) Value { return w.norm(w.b.Eq(w.term(x, 8), w.term(y, 8))) }

func countByte(w *Worker, c *frame, f *Func, a []Value) Value {
	n := uint64(0)
	for _, b := range byteVals(a[0]) {
		if w.branch(w.eqVal8(b, a[1]), "countbyte") {
			n++
		}
	}
	return n
}

func indexStr(w *Worker, c *frame, f *Func, a []Value) Value {
	s, sub := a[0], a[1]
	n, m := strLen(s), strLen(sub)
	if isConcStr(s) && isConcStr(sub) {
		return uint64(int64(strings.Index(s.(string), sub.(string))))
	}
	for i := 0; i+m <= n; i++ {
		if w.branch(w.strEq(strSlice(s, i, i+m), sub), "indexstr") {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (w *Worker) compare(x, y Value) Value {
	if isConcStr(x) && isConcStr(y) {
		return uint64(int64(strings.Compare(x.(string), y.(string))))
	}
	if w.branch(w.strEq(x, y), "cmp") {
		return uint64(0)
	}
	if w.branch(w.strLess(x, y, false), "cmp") {
		return ^uint64(0)
	}
	return uint64(1)
}

func sortSlice(w *Worker, c *frame, f *Func, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	less := a[1].(*Closure)
	// insertion sort through the real less function (stable)
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			if !w.branch(w.call(c, less, []Value{uint64(j), uint64(j - 1)}), "less") {
				break
			}
			x, y := w.copyVal(s.a.get(s.off+j)), w.copyVal(s.a.get(s.off+j-1))
			w.store(Ptr{s.a, s.off + j}, y)
			w.store(Ptr{s.a, s.off + j - 1}, x)
		}
	}
	return nil
}

// ---- errors ----

func (w *Worker) unwrap(c *frame, e Iface) []Iface {
	if e.t == nil {
		return nil
	}
	m := w.p.methodByName(e.t, "Unwrap")
	if m == nil {
		return nil
	}
	switch r := w.call(c, m, []Value{e.v}).(type) {
	case Iface:
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, x := range sliceVals(r) {
			out = append(out, x.(Iface))
		}
		return out
	}
	return nil
}

func (w *Worker) errorsIs(c *frame, e, target Iface) Value {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && e.t == target.t {
		if w.branch(w.eqVal(e, target), "errors.Is") {
			return true
		}
	}
	if m := w.p.methodByName(e.t, "Is"); m != nil {
		if w.branch(w.call(c, m, []Value{e.v, target}), "errors.Is") {
			return true
		}
	}
	for _, u := range w.unwrap(c, e) {
		if u.t == nil {
			continue
		}
		if w.errorsIs(c, u, target) == true {
			return true
		}
	}
	return false
}

func (w *Worker) errorsAs(c *frame, e, target Iface) Value {
	if e.t == nil {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("errors.As target"))
	}
	et := canon(pt.Elem())
	if it, ok := et.Underlying().(*types.Interface); ok {
		if implements(e.t, it) {
			w.store(target.v.(Ptr), e)
			return true
		}
	} else if e.t == et {
		w.store(target.v.(Ptr), e.v)
		return true
	}
	for _, u := range w.unwrap(c, e) {
		if u.t != nil && w.errorsAs(c, u, target) == true {
			return true
		}
	}
	return false
}

func (w *Worker) mkWrap(msg Value, inner Iface) Value {
	fp := w.p.pkgs["fmt"]
	t := fp.Type("wrapError").Type()
	st := w.newAgg(2)
	st.c[0], st.c[1] = msg, inner
	a := w.newAgg(1)
	a.c[0] = st
	return Iface{canon(types.NewPointer(t)), Ptr{a, 0}}
}

func (w *Worker) writeTo(c *frame, wr Iface, s Value) Value {
	if wr.t == nil {
		w.nilDeref()
	}
	m := w.p.methodByName(wr.t, "Write")
	if m == nil {
		panic(unsupported("Fprintf target"))
	}
	return w.call(c, m, []Value{wr.v, w.strBytes(s)})
}

// ---- formatting ----

const digits10 = "0123456789"

// itoa renders an integer in base 10, forking on the number of digits.
func (w *Worker) itoa(v Value, signed bool, wd uint8) Value {
	if u, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(int64(u<<(64-wd))>>(64-wd), 10)
		}
		return strconv.FormatUint(u, 10)
	}
	t := v.(*Term)
	if signed {
		if w.branch(w.norm(w.b.Slt(t, w.b.Const(0, t.w))), "itoa") {
			return strconv.FormatInt(int64(w.concretize(t, "itoa neg")<<(64-wd))>>(64-wd), 10)
		}
	}
	n := 1
	for lim := uint64(10); ; lim *= 10 {
		if t.hi < lim {
			break
		}
		if lim > mask(t.w) {
			break
		}
		if w.branch(w.norm(w.b.Ult(t, w.b.Const(lim, t.w))), "itoa") {
			break
		}
		n++
		if n >= 19 {
			break
		}
	}
	out := make([]Value, n)
	x := t
	for i := n - 1; i >= 0; i-- {
		ten := w.b.Const(10, t.w)
		d := w.b.bin(OURem, x, ten)
		if i == 0 {
			d = x
		}
		dd := d
		if d.w > 8 {
			dd = w.b.Extract(d, 7, 0)
		}
		out[i] = w.norm(w.b.Add(dd, w.b.Const('0', 8)))
		x = w.b.bin(OUDiv, x, ten)
	}
	return mkStr(out)
}

func (w *Worker) hexStr(v Value, wd uint8, upper bool, minw int) Value {
	al := "0123456789abcdef"
	if upper {
		al = "0123456789ABCDEF"
	}
	if u, ok := v.(uint64); ok {
		s := strconv.FormatUint(u, 16)
		if upper {
			s = strings.ToUpper(s)
		}
		for len(s) < minw {
			s = "0" + s
		}
		return s
	}
	t := v.(*Term)
	nd := int(t.w) / 4
	lead := nd
	for lead > minw && lead > 1 {
		// is the leading nibble zero?
		top := w.b.Extract(t, uint8(lead*4-1), uint8(lead*4-4))
		if !w.branch(w.norm(w.b.Eq(top, w.b.Const(0, 4))), "hex width") {
			break
		}
		lead--
	}
	tab := make([]uint64, 16)
	for i := range tab {
		tab[i] = uint64(al[i])
	}
	var out []Value
	for i := lead - 1; i >= 0; i-- {
		out = append(out, w.norm(w.b.Table(w.b.Extract(t, uint8(i*4+3), uint8(i*4)), tab, 8)))
	}
	var r Value = mkStr(out)
	for strLen(r) < minw {
		r = strConcat("0", r)
	}
	return r
}

// goVal converts a concrete interpreter value to a Go value for formatting.
func (w *Worker) goVal(v Value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case bool, string, float64:
		return x, true
	case uint64:
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Int:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32:
			return int32(x), true
		case types.Int64:
			return int64(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		}
		return x, true
	case Slice:
		st, ok := t.Underlying().(*types.Slice)
		if ok && isByteElem(st.Elem()) {
			s := x.bytesStr()
			if c, ok := s.(string); ok {
				return []byte(c), true
			}
		}
	}
	return nil, false
}

// padTo pads a formatted value on the left.
func padTo(s Value, minw int, zero bool) Value {
	for strLen(s) < minw {
		if zero {
			s = strConcat("0", s)
		} else {
			s = strConcat(" ", s)
		}
	}
	return s
}

// fmtArg formats one argument; plain: no flags but 0 and no precision.
func (w *Worker) fmtArg(c *frame, verb byte, plain bool, minw int, zero bool, spec string, a Iface) Value {
	if a.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if strings.IndexByte("vsxXq", verb) >= 0 && spec != "%#v" {
		for _, mn := range []string{"Error", "String"} {
			if m := w.p.methodByName(a.t, mn); m != nil {
				if p, ok := a.v.(Ptr); ok && p.a == nil {
					return "<nil>"
				}
				r := w.call(c, m, []Value{a.v})
				if bs, ok := r.(*BStr); ok && plain && (verb == 'v' || verb == 's') && minw <= len(bs.c) {
					return r
				}
				return fmt.Sprintf(spec, goStr(w, r))
			}
		}
	}
	switch x := a.v.(type) {
	case *Term:
		if x.w == 0 || x.fp {
			break
		}
		if plain {
			switch verb {
			case 'x', 'X':
				if isSigned(a.t) && w.branch(w.norm(w.b.Slt(x, w.b.Const(0, x.w))), "fmt") {
					break
				}
				if zero {
					return w.hexStr(x, x.w, verb == 'X', max(minw, 1))
				}
				return padTo(w.hexStr(x, x.w, verb == 'X', 1), minw, false)
			case 'd', 'v':
				if isSigned(a.t) && minw > 1 && zero && w.branch(w.norm(w.b.Slt(x, w.b.Const(0, x.w))), "fmt") {
					break
				}
				return padTo(w.itoa(x, isSigned(a.t), x.w), minw, zero)
			}
		}
		u := w.concretize(x, "fmt")
		g, _ := w.goVal(u, a.t)
		return fmt.Sprintf(spec, g)
	case *BStr:
		if plain && (verb == 's' || verb == 'v') && minw <= len(x.c) {
			return x
		}
		if plain && !zero && (verb == 's' || verb == 'v') && ascii(x) {
			return padTo(x, minw, false)
		}
		return fmt.Sprintf(spec, goStr(w, x))
	}
	if s, ok := a.v.(Slice); ok {
		if st, ok := a.t.Underlying().(*types.Slice); ok && isByteElem(st.Elem()) {
			if bs, ok := s.bytesStr().(*BStr); ok {
				switch {
				case plain && verb == 's' && minw <= len(bs.c):
					return bs
				case plain && (verb == 'x' || verb == 'X') && minw <= 2*len(bs.c):
					var r Value = ""
					for i := range bs.c {
						r = strConcat(r, w.hexStr(strAt(bs, i), 8, verb == 'X', 2))
					}
					return r
				case strings.IndexByte("sxXqdv", verb) >= 0:
					return fmt.Sprintf(spec, []byte(goStr(w, bs)))
				}
			}
		}
	}
	if g, ok := w.goVal(a.v, a.t); ok {
		return fmt.Sprintf(spec, g)
	}
	noteStub("fmt of composite value rendered as placeholder")
	return "<" + a.t.String() + ">"
}

// ascii: every symbolic byte is known to be below 0x80 (so width counts bytes).
func ascii(x *BStr) bool {
	for i := range x.c {
		if i < len(x.t) && x.t[i] != nil {
			if x.t[i].hi >= 0x80 {
				return false
			}
		} else if x.c[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (w *Worker) sprintf(c *frame, format Value, args []Value) Value {
	fs := goStr(w, format)
	var r Value = ""
	ai := 0
	// star takes a width or precision from the arguments
	star := func() string {
		if ai >= len(args) {
			panic(unsupported("fmt width"))
		}
		a, ok := args[ai].(Iface)
		ai++
		if !ok || a.t == nil {
			panic(unsupported("fmt width"))
		}
		switch a.v.(type) {
		case uint64, *Term:
		default:
			panic(unsupported("fmt width"))
		}
		n := int64(w.concretize(a.v, "fmt width"))
		return strconv.FormatInt(n, 10)
	}
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			r = strConcat(r, fs[i:])
			break
		}
		r = strConcat(r, fs[i:i+j])
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0", fs[k]) >= 0 {
			k++
		}
		flags := fs[i+1 : k]
		var ww, prec string
		num := func() string {
			if k < len(fs) && fs[k] == '*' {
				k++
				return star()
			}
			b := k
			for k < len(fs) && fs[k] >= '0' && fs[k] <= '9' {
				k++
			}
			return fs[b:k]
		}
		ww = num()
		if strings.HasPrefix(ww, "-") {
			flags, ww = strings.ReplaceAll(flags, "0", "")+"-", ww[1:]
		}
		if k < len(fs) && fs[k] == '.' {
			k++
			prec = "." + num()
		}
		if k < len(fs) && fs[k] == '[' {
			panic(unsupported("fmt argument index"))
		}
		minw, _ := strconv.Atoi(ww)
		if k >= len(fs) {
			r = strConcat(r, "%!(NOVERB)")
			break
		}
		verb := fs[k]
		spec := "%" + flags + ww + prec + string(verb)
		i = k + 1
		if verb == '%' {
			r = strConcat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = strConcat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, ok := args[ai].(Iface)
		ai++
		if !ok {
			panic(unsupported("fmt arg"))
		}
		plain := prec == "" && (flags == "" || flags == "0")
		r = strConcat(r, w.fmtArg(c, verb, plain, minw, flags == "0", spec, a))
	}
	if ai < len(args) {
		r = strConcat(r, "%!(EXTRA)")
		noteStub("fmt with extra arguments rendered as placeholder")
	}
	return r
}

func (w *Worker) sprint(c *frame, args []Value, ln bool) Value {
	var r Value = ""
	prevStr := true
	for i, x := range args {
		a := x.(Iface)
		isS := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			r = strConcat(r, " ")
		}
		r = strConcat(r, w.fmtArg(c, 'v', true, 0, false, "%v", a))
		prevStr = isS
	}
	if ln {
		r = strConcat(r, "\n")
	}
	return r
}
