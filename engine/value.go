package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a run-time value of the symbolic interpreter:
//
//	bool | uint64 | float64 | *Term      scalars
//	string | *BStr                      strings
//	Ptr, Slice, *Agg, *MapV, *Chan, *Closure, Iface, Tuple, Poison
type Value = any

type Tuple []Value
type Poison struct{ why string }

// Agg is an addressable aggregate (struct, array, slice backing, variable).
type Agg struct {
	c     []Value
	b     []byte  // byte aggregates
	t     []*Term // symbolic bytes (nil entries: concrete)
	isB   bool
	epoch uint32
	id    uint32
	// race detection (lazily allocated)
	owner int
}

type Ptr struct {
	a *Agg
	i int
}

type Slice struct {
	a             *Agg
	off, len, cap int
}

type BStr struct {
	c string
	t []*Term
}

type Iface struct {
	t types.Type // canonical
	v Value
}

type Closure struct {
	fn   *Func
	env  []Value
	bi   *ssa.Builtin
	nat  func(w *Worker, fr *frame, args []Value) Value // native
	recv Value
}

type mapEnt struct {
	k, v Value
	hk   any
	del  bool
}

type MapV struct {
	ents  []mapEnt
	idx   map[any]int
	nsym  int
	live  int
	epoch uint32
	id    uint32
	owner int
}

func (a *Agg) n() int {
	if a.isB {
		return len(a.b)
	}
	return len(a.c)
}

func (a *Agg) get(i int) Value {
	if a.isB {
		if a.t != nil && a.t[i] != nil {
			return a.t[i]
		}
		return uint64(a.b[i])
	}
	return a.c[i]
}

func (a *Agg) put(i int, v Value) {
	if a.isB {
		switch v := v.(type) {
		case uint64:
			a.b[i] = byte(v)
			if a.t != nil {
				a.t[i] = nil
			}
		case *Term:
			if v.isConst() {
				a.b[i] = byte(v.val)
				if a.t != nil {
					a.t[i] = nil
				}
				return
			}
			if a.t == nil {
				a.t = make([]*Term, len(a.b))
			}
			a.t[i] = v
		default:
			panic(unsupported(fmt.Sprintf("store %T in byte array", v)))
		}
		return
	}
	a.c[i] = v
}

// ---- canonical types ----
var (
	canonMu sync.Mutex
	canonM  typeutil.Map
	canonC  sync.Map // types.Type -> types.Type
)

func canon(t types.Type) types.Type {
	if c, ok := canonC.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if v := canonM.At(t); v != nil {
		canonC.Store(t0, v)
		return v.(types.Type)
	}
	canonM.Set(t, t)
	canonC.Store(t0, t)
	return t
}

// ---- zero values ----
var zeroC sync.Map

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func (w *Worker) owner() int {
	if w.concMode && !w.inInit {
		return w.sched.cur.id + 1
	}
	return 0
}

func (w *Worker) newAgg(cells int) *Agg {
	w.aggID++
	return &Agg{c: make([]Value, cells), epoch: w.epoch, id: w.aggID, owner: w.owner()}
}
func (w *Worker) newBytes(n int) *Agg {
	w.aggID++
	return &Agg{b: make([]byte, n), isB: true, epoch: w.epoch, id: w.aggID, owner: w.owner()}
}

// newArray allocates n zeroed elements of type et.
func (w *Worker) newArray(et types.Type, n int) *Agg {
	if isByteElem(et) {
		return w.newBytes(n)
	}
	a := w.newAgg(n)
	if n == 0 {
		return a
	}
	z := w.zero(et)
	if _, ok := z.(*Agg); ok {
		a.c[0] = z
		for i := 1; i < n; i++ {
			a.c[i] = w.zero(et)
		}
	} else {
		for i := range a.c {
			a.c[i] = z
		}
	}
	return a
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := w.newAgg(u.NumFields())
		for i := range a.c {
			a.c[i] = w.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		return w.newArray(u.Elem(), int(u.Len()))
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = w.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal deep-copies aggregates (value semantics).
func (w *Worker) copyVal(v Value) Value {
	a, ok := v.(*Agg)
	if !ok {
		return v
	}
	w.aggID++
	n := &Agg{isB: a.isB, epoch: w.epoch, id: w.aggID, owner: w.owner()}
	if a.isB {
		n.b = append([]byte(nil), a.b...)
		if a.t != nil {
			n.t = append([]*Term(nil), a.t...)
		}
		return n
	}
	n.c = make([]Value, len(a.c))
	for i, x := range a.c {
		if _, ok := x.(*Agg); ok {
			n.c[i] = w.copyVal(x)
		} else {
			n.c[i] = x
		}
	}
	return n
}

type undo struct {
	a   *Agg
	i   int
	old Value
	m   *MapV
	ms  MapV
}

// setCell writes through the undo log (no aggregate semantics).
func (w *Worker) setCell(a *Agg, i int, v Value) {
	if a.epoch != w.epoch && !w.inInit {
		w.undo = append(w.undo, undo{a: a, i: i, old: a.get(i)})
	}
	a.put(i, v)
}

// store writes v to *p with value semantics for aggregates.
func (w *Worker) store(p Ptr, v Value) {
	if p.a == nil {
		w.nilDeref()
	}
	if w.concMode && p.a.owner == 0 && !w.inInit {
		w.publish(v)
	}
	if src, ok := v.(*Agg); ok {
		dst, ok := p.a.get(p.i).(*Agg)
		if !ok {
			w.setCell(p.a, p.i, w.copyVal(v))
			return
		}
		w.assignAgg(dst, src)
		return
	}
	w.setCell(p.a, p.i, v)
}

func (w *Worker) assignAgg(dst, src *Agg) {
	if dst == src {
		return
	}
	n := src.n()
	if dst.n() != n {
		panic(unsupported("aggregate size mismatch"))
	}
	// copy first (may alias)
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		x := src.get(i)
		if _, ok := x.(*Agg); ok {
			x = w.copyVal(x)
		}
		tmp[i] = x
	}
	for i, x := range tmp {
		if xa, ok := x.(*Agg); ok {
			if da, ok := dst.get(i).(*Agg); ok {
				w.assignAgg(da, xa)
				continue
			}
		}
		w.setCell(dst, i, x)
	}
}

func (w *Worker) load(p Ptr) Value {
	if p.a == nil {
		w.nilDeref()
	}
	if p.i < 0 || p.i >= p.a.n() {
		panic(unsupported("pointer out of aggregate"))
	}
	v := p.a.get(p.i)
	switch v := v.(type) {
	case *Agg:
		return w.copyVal(v)
	case Poison:
		panic(unsupported("poison value: " + v.why))
	}
	return v
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.m != nil {
			*u.m = u.ms
		} else {
			u.a.put(u.i, u.old)
		}
	}
	w.undo = w.undo[:0]
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *BStr:
		return len(s.c)
	}
	panic(unsupported(fmt.Sprintf("strLen %T", v)))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *BStr:
		if s.t[i] != nil {
			return s.t[i]
		}
		return uint64(s.c[i])
	}
	panic(unsupported(fmt.Sprintf("strAt %T", v)))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *BStr:
		return normStr(&BStr{s.c[lo:hi], s.t[lo:hi]})
	}
	panic(unsupported("strSlice"))
}

func normStr(s *BStr) Value {
	for _, t := range s.t {
		if t != nil {
			return s
		}
	}
	return s.c
}

func strParts(v Value) (string, []*Term) {
	switch s := v.(type) {
	case string:
		return s, nil
	case *BStr:
		return s.c, s.t
	}
	panic(unsupported(fmt.Sprintf("strParts %T", v)))
}

func strConcat(x, y Value) Value {
	xc, xt := strParts(x)
	yc, yt := strParts(y)
	if xt == nil && yt == nil {
		return xc + yc
	}
	t := make([]*Term, len(xc)+len(yc))
	copy(t, xt)
	copy(t[len(xc):], yt)
	return &BStr{xc + yc, t}
}

// mkStr builds a string from byte values.
func mkStr(bs []Value) Value {
	c := make([]byte, len(bs))
	var t []*Term
	for i, b := range bs {
		switch b := b.(type) {
		case uint64:
			c[i] = byte(b)
		case *Term:
			if b.isConst() {
				c[i] = byte(b.val)
				continue
			}
			if t == nil {
				t = make([]*Term, len(bs))
			}
			t[i] = b
		}
	}
	if t == nil {
		return string(c)
	}
	return &BStr{string(c), t}
}

func (s Slice) bytesStr() Value {
	if s.len == 0 {
		return ""
	}
	a := s.a
	if !a.isB {
		bs := make([]Value, s.len)
		for i := range bs {
			bs[i] = a.get(s.off + i)
		}
		return mkStr(bs)
	}
	c := string(a.b[s.off : s.off+s.len])
	if a.t == nil {
		return c
	}
	return normStr(&BStr{c, append([]*Term(nil), a.t[s.off:s.off+s.len]...)})
}

func (w *Worker) strBytes(v Value) Slice {
	c, t := strParts(v)
	a := w.newBytes(len(c))
	copy(a.b, c)
	if t != nil {
		a.t = append([]*Term(nil), t...)
	}
	return Slice{a, 0, len(c), len(c)}
}

// ---- equality ----

// eqVal returns bool or *Term.
func (w *Worker) eqVal(x, y Value) Value {
	switch x := x.(type) {
	case bool:
		if yb, ok := y.(bool); ok {
			return x == yb
		}
		return w.norm(w.b.Eq(w.b.Bool(x), y.(*Term)))
	case uint64:
		if yb, ok := y.(uint64); ok {
			return x == yb
		}
		t := y.(*Term)
		return w.norm(w.b.Eq(w.b.Const(x, t.w), t))
	case float64:
		if yb, ok := y.(float64); ok {
			return x == yb
		}
		t := y.(*Term)
		return w.norm(w.b.FCmp(OFEq, w.b.FConst(x, t.w), t))
	case complex128:
		return x == y.(complex128)
	case *Term:
		switch y := y.(type) {
		case *Term:
			return w.norm(w.b.Eq(x, y))
		default:
			return w.eqVal(y, x)
		}
	case string, *BStr:
		return w.strEq(x, y)
	case Ptr:
		return x == y.(Ptr)
	case *MapV:
		return x == y.(*MapV)
	case *Chan:
		return x == y.(*Chan)
	case *Closure:
		yc := y.(*Closure)
		return x == yc
	case Slice:
		ys := y.(Slice)
		return x.a == nil && ys.a == nil
	case Iface:
		yi, ok := y.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("iface cmp with %T", y)))
		}
		if x.t == nil || yi.t == nil {
			return x.t == nil && yi.t == nil
		}
		if x.t != yi.t {
			return false
		}
		if !types.Comparable(x.t) {
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eqVal(x.v, yi.v)
	case *Agg:
		ya := y.(*Agg)
		var acc Value = true
		for i := 0; i < x.n(); i++ {
			acc = w.andVal(acc, w.eqVal(x.get(i), ya.get(i)))
			if acc == false {
				return false
			}
		}
		return acc
	case Poison:
		panic(unsupported("poison value: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("eq %T", x)))
}

func (w *Worker) strEq(x, y Value) Value {
	xc, xt := strParts(x)
	yc, yt := strParts(y)
	if len(xc) != len(yc) {
		return false
	}
	if xt == nil && yt == nil {
		return xc == yc
	}
	var conj []*Term
	for i := range xc {
		var a, b *Term
		if xt != nil {
			a = xt[i]
		}
		if yt != nil {
			b = yt[i]
		}
		if a == nil && b == nil {
			if xc[i] != yc[i] {
				return false
			}
			continue
		}
		if a == nil {
			a = w.b.Const(uint64(xc[i]), 8)
		}
		if b == nil {
			b = w.b.Const(uint64(yc[i]), 8)
		}
		e := w.b.Eq(a, b)
		if e == w.b.F {
			return false
		}
		conj = append(conj, e)
	}
	return w.norm(w.b.And(conj...))
}

// strLess returns x<y
func (w *Worker) strLess(x, y Value, orEq bool) Value {
	xc, xt := strParts(x)
	yc, yt := strParts(y)
	if xt == nil && yt == nil {
		if orEq {
			return xc <= yc
		}
		return xc < yc
	}
	n := min(len(xc), len(yc))
	var r Value
	if len(xc) == len(yc) {
		r = orEq
	} else {
		r = len(xc) < len(yc)
	}
	for i := n - 1; i >= 0; i-- {
		a, b := w.term(strAt(x, i), 8), w.term(strAt(y, i), 8)
		r = w.norm(w.b.Or(w.b.Ult(a, b), w.b.And(w.b.Eq(a, b), w.boolTerm(r))))
	}
	return r
}

func (w *Worker) norm(t *Term) Value {
	if t.fp {
		if t.op == OFConst {
			return math.Float64frombits(t.val)
		}
		return t
	}
	if t.isConst() {
		if t.w == 0 {
			return t.val != 0
		}
		return t.val
	}
	return t
}

func (w *Worker) term(v Value, width uint8) *Term {
	switch v := v.(type) {
	case uint64:
		return w.b.Const(v, width)
	case *Term:
		return v
	case bool:
		return w.b.Bool(v)
	case Poison:
		panic(unsupported("poison value: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

func (w *Worker) fterm(v Value, width uint8) *Term {
	switch v := v.(type) {
	case float64:
		return w.b.FConst(v, width)
	case *Term:
		return v
	}
	panic(unsupported(fmt.Sprintf("fterm of %T", v)))
}

func (w *Worker) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return w.b.Bool(v)
	case *Term:
		return v
	case Poison:
		panic(unsupported("poison value: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("boolTerm of %T", v)))
}

func (w *Worker) andVal(x, y Value) Value {
	if x == false || y == false {
		return false
	}
	if x == true {
		return y
	}
	if y == true {
		return x
	}
	return w.norm(w.b.And(w.boolTerm(x), w.boolTerm(y)))
}

func (w *Worker) notVal(x Value) Value {
	switch x := x.(type) {
	case bool:
		return !x
	case *Term:
		return w.norm(w.b.Not(x))
	}
	panic(unsupported(fmt.Sprintf("not %T", x)))
}

// ---- maps ----

// hashKey returns a comparable key; ok=false when symbolic.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case uint64, string, bool, float64, Ptr, *Chan, *MapV, complex128:
		return v, true
	case *Term, *BStr:
		return nil, false
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return [2]any{v.t, k}, true
	case *Agg:
		var sb strings.Builder
		for i := 0; i < v.n(); i++ {
			k, ok := hashKey(v.get(i))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return "agg:" + sb.String(), true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (w *Worker) newMap() *MapV {
	w.aggID++
	return &MapV{idx: map[any]int{}, epoch: w.epoch, id: w.aggID, owner: w.owner()}
}

// find returns the entry index or -1 (may fork on symbolic equality).
func (w *Worker) mapFind(m *MapV, k Value) int {
	if m == nil || m.live == 0 {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		w.rtPanic("hash of unhashable type " + i.t.String())
	}
	hk, ok := hashKey(k)
	if ok {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.del {
			continue
		}
		if ok && e.hk != nil {
			continue // both concrete, different
		}
		if w.branch(w.eqVal(e.k, k), "mapkey") {
			return i
		}
	}
	return -1
}

func (w *Worker) mapTouch(m *MapV) {
	if m.epoch != w.epoch && !w.inInit {
		s := *m
		s.ents = append([]mapEnt(nil), m.ents...)
		s.idx = make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			s.idx[k] = v
		}
		w.undo = append(w.undo, undo{m: m, ms: s})
		m.epoch = w.epoch
	}
}

func (w *Worker) mapSet(m *MapV, k, v Value) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	i := w.mapFind(m, k)
	w.mapTouch(m)
	v = w.copyVal(v)
	if w.concMode && m.owner == 0 && !w.inInit {
		w.publish(k)
		w.publish(v)
	}
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	hk, ok := hashKey(k)
	e := mapEnt{k: w.copyVal(k), v: v}
	if ok {
		e.hk = hk
		m.idx[hk] = len(m.ents)
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.live++
}

func (w *Worker) mapDel(m *MapV, k Value) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	e := &m.ents[i]
	e.del = true
	if e.hk != nil {
		delete(m.idx, e.hk)
	} else {
		m.nsym--
	}
	m.live--
}

func (w *Worker) mapClear(m *MapV) {
	if m == nil {
		return
	}
	w.mapTouch(m)
	for i := range m.ents {
		m.ents[i].del = true
	}
	m.idx = map[any]int{}
	m.nsym, m.live = 0, 0
}

// ---- formatting of values for reports ----
func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		return "<sym>"
	case *BStr:
		return fmt.Sprintf("<symstr %d>", len(v.c))
	case string:
		return fmt.Sprintf("%q", v)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + showVal(v.v) + ")"
	case Ptr:
		return "ptr"
	}
	return fmt.Sprintf("%v", v)
}
