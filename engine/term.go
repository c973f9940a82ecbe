package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OBVNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OSExt
	OIte
	OTable // args[0] index (width w0), table in tab
	// booleans (w==0)
	OBNot
	OBAnd
	OBOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	// floating point (fp==true, w 32/64 bit)
	OFFromU
	OFFromS
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFConst
	OFEq
	OFLt
	OFLe
	OFToU
	OFToS
	OFCvt
	OFIte
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OBVNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OIte: "ite", OBNot: "not", OBAnd: "and", OBOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term is a hash-consed bit-vector (w>0), boolean (w==0) or float (fp) term.
type Term struct {
	op   Op
	fp   bool
	w    uint8
	a, b uint8 // extract hi, lo
	id   int
	val  uint64
	args []*Term
	name string
	tab  []uint64
	// support: sorted var ids
	sup []int32
	// exact function of the single <=8-bit support variable, when known
	fn *[256]uint64
	// unsigned bounds
	lo, hi uint64
	// solver bookkeeping
	defd int // generation in which the term was defined in the solver
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isBool() bool  { return t.w == 0 && !t.fp }

// Builder creates hash-consed terms.
type Builder struct {
	tab    map[string]*Term
	next   int
	vars   []*Term // by var index
	byName map[string]*Term
	T, F   *Term
	key    []byte
}

func NewBuilder() *Builder {
	b := &Builder{tab: map[string]*Term{}, byName: map[string]*Term{}}
	b.T = b.mk(&Term{op: OConst, w: 0, val: 1})
	b.F = b.mk(&Term{op: OConst, w: 0, val: 0})
	return b
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return 1<<w - 1
}

func (b *Builder) mk(t *Term) *Term {
	k := b.key[:0]
	k = append(k, byte(t.op), t.w, t.a, t.b, bool2b(t.fp))
	if t.op == OConst || t.op == OFConst {
		k = appendU64(k, t.val)
	}
	for _, a := range t.args {
		k = append(k, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	if t.op == OVar {
		k = append(k, t.name...)
	}
	if t.op == OTable {
		for _, v := range t.tab {
			k = appendU64(k, v)
		}
	}
	b.key = k
	if o, ok := b.tab[string(k)]; ok {
		return o
	}
	b.next++
	t.id = b.next
	b.tab[string(k)] = t
	b.finish(t)
	return t
}

func bool2b(x bool) byte {
	if x {
		return 1
	}
	return 0
}

func appendU64(k []byte, v uint64) []byte {
	return append(k, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func mergeSup(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	// subset fast path
	if len(x) == 1 && len(y) == 1 && x[0] == y[0] {
		return x
	}
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] == y[j]:
			r = append(r, x[i])
			i++
			j++
		case x[i] < y[j]:
			r = append(r, x[i])
			i++
		default:
			r = append(r, y[j])
			j++
		}
	}
	r = append(r, x[i:]...)
	r = append(r, y[j:]...)
	if len(r) == len(x) {
		return x
	}
	if len(r) == len(y) {
		return y
	}
	return r
}

// finish computes support, bounds.
func (b *Builder) finish(t *Term) {
	if t.op != OVar {
		for _, a := range t.args {
			t.sup = mergeSup(t.sup, a.sup)
		}
	}
	if t.fp || t.w == 0 {
		return
	}
	t.lo, t.hi = 0, mask(t.w)
	m := mask(t.w)
	ar := t.args
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OVar:
		if t.tab != nil {
			t.lo, t.hi = t.tab[0], t.tab[1]
		}
	case OAdd:
		lo, hi := uint64(0), uint64(0)
		ok := true
		for _, a := range ar {
			var c uint64
			lo += a.lo
			hi, c = bits.Add64(hi, a.hi, 0)
			if c != 0 || hi > m {
				ok = false
				break
			}
		}
		if ok {
			t.lo, t.hi = lo, hi
		} else if l, h, ok := intBounds(t); ok {
			t.lo, t.hi = l, h
		}
	case OSub:
		if ar[0].lo >= ar[1].hi {
			t.lo, t.hi = ar[0].lo-ar[1].hi, ar[0].hi-ar[1].lo
		}
	case OMul:
		h, l := bits.Mul64(ar[0].hi, ar[1].hi)
		if h == 0 && l <= m {
			t.lo, t.hi = ar[0].lo*ar[1].lo, l
		}
	case OUDiv:
		if ar[1].lo > 0 {
			t.lo, t.hi = ar[0].lo/ar[1].hi, ar[0].hi/ar[1].lo
		}
	case OURem:
		if ar[1].lo > 0 {
			t.hi = ar[1].hi - 1
			if ar[0].hi < t.hi {
				t.hi = ar[0].hi
			}
		}
	case OAnd:
		for _, a := range ar {
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OConcat:
		lo, hi := uint64(0), uint64(0)
		for _, a := range ar {
			lo = lo<<a.w | a.lo
			hi = hi<<a.w | a.hi
		}
		t.lo, t.hi = lo, hi
	case OExtract:
		if t.b == 0 && ar[0].hi <= m {
			t.lo, t.hi = ar[0].lo, ar[0].hi
		}
	case OIte:
		t.lo, t.hi = ar[1].lo, ar[1].hi
		if ar[2].lo < t.lo {
			t.lo = ar[2].lo
		}
		if ar[2].hi > t.hi {
			t.hi = ar[2].hi
		}
	case OLShr:
		if ar[1].isConst() && ar[1].val < 64 {
			t.lo, t.hi = ar[0].lo>>ar[1].val, ar[0].hi>>ar[1].val
		}
	case OTable:
		t.lo, t.hi = m, 0
		for _, v := range t.tab {
			if v < t.lo {
				t.lo = v
			}
			if v > t.hi {
				t.hi = v
			}
		}
	}
}

func (b *Builder) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return b.Bool(v != 0)
	}
	return b.mk(&Term{op: OConst, w: w, val: v & mask(w)})
}
func (b *Builder) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}

// Var returns (creating) a variable; lo/hi optional declared range.
func (b *Builder) Var(name string, w uint8, rng ...uint64) *Term {
	if t, ok := b.byName[name]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, tab: nil}
	if len(rng) == 2 {
		t.tab = []uint64{rng[0], rng[1]}
	}
	t.sup = []int32{int32(len(b.vars))}
	t = b.mk(t)
	b.vars = append(b.vars, t)
	b.byName[name] = t
	if w <= 8 {
		fn := new([256]uint64)
		for i := range fn {
			fn[i] = uint64(i) & mask(w)
		}
		t.fn = fn
	}
	return t
}

// fnOf returns the table of t as function of its single small support var.
func (b *Builder) fnOf(t *Term) *[256]uint64 {
	if t.fn != nil {
		return t.fn
	}
	if len(t.sup) != 1 || t.fp {
		return nil
	}
	v := b.vars[t.sup[0]]
	if v.w > 8 || v.w == 0 {
		return nil
	}
	fs := make([]*[256]uint64, len(t.args))
	for i, a := range t.args {
		if a.fp {
			return nil
		}
		if len(a.sup) == 0 {
			continue
		}
		fs[i] = b.fnOf(a)
		if fs[i] == nil {
			return nil
		}
	}
	n := 1 << v.w
	fn := new([256]uint64)
	av := make([]uint64, len(t.args))
	for x := 0; x < n; x++ {
		for i, a := range t.args {
			if fs[i] == nil {
				av[i] = a.val
			} else {
				av[i] = fs[i][x]
			}
		}
		fn[x] = evalOp(t, av)
	}
	t.fn = fn
	return fn
}

// canon1: canonicalises a term that is a function of one small variable.
func (b *Builder) canon1(t *Term) *Term {
	if len(t.sup) != 1 || t.op == OVar || t.fp {
		return t
	}
	v := b.vars[t.sup[0]]
	if v.w > 8 || v.w == 0 {
		return t
	}
	fn := b.fnOf(t)
	if fn == nil {
		return t
	}
	lo, hi := 0, 1<<v.w-1
	if v.tab != nil {
		lo, hi = int(v.tab[0]), int(v.tab[1])
	}
	isC, isId := true, t.w >= v.w
	for x := lo; x <= hi; x++ {
		if fn[x] != fn[lo] {
			isC = false
		}
		if fn[x] != uint64(x) {
			isId = false
		}
	}
	if isC {
		return b.Const(fn[lo], t.w)
	}
	if isId && t.w > 0 {
		if t.w == v.w {
			return v
		}
		return b.mk(&Term{op: OConcat, w: t.w, args: []*Term{b.Const(0, t.w-v.w), v}})
	}
	return t
}

func evalOp(t *Term, av []uint64) uint64 {
	m := mask(t.w)
	sx := func(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }
	switch t.op {
	case OConst:
		return t.val
	case OAdd:
		var r uint64
		for _, v := range av {
			r += v
		}
		return r & m
	case OSub:
		return (av[0] - av[1]) & m
	case OMul:
		return (av[0] * av[1]) & m
	case OUDiv:
		if av[1] == 0 {
			return m
		}
		return av[0] / av[1]
	case OURem:
		if av[1] == 0 {
			return av[0]
		}
		return av[0] % av[1]
	case OSDiv:
		x, y := sx(av[0], t.w), sx(av[1], t.w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(av[0], t.w), sx(av[1], t.w)
		if y == 0 {
			return av[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		r := m
		for _, v := range av {
			r &= v
		}
		return r
	case OOr:
		var r uint64
		for _, v := range av {
			r |= v
		}
		return r
	case OXor:
		var r uint64
		for _, v := range av {
			r ^= v
		}
		return r
	case OBVNot:
		return ^av[0] & m
	case ONeg:
		return (-av[0]) & m
	case OShl:
		if av[1] >= uint64(t.w) {
			return 0
		}
		return (av[0] << av[1]) & m
	case OLShr:
		if av[1] >= uint64(t.w) {
			return 0
		}
		return av[0] >> av[1]
	case OAShr:
		s := av[1]
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		return uint64(sx(av[0], t.w)>>s) & m
	case OConcat:
		var r uint64
		for i, a := range t.args {
			r = r<<a.w | av[i]
		}
		return r
	case OExtract:
		return (av[0] >> t.b) & m
	case OSExt:
		return uint64(sx(av[0], t.args[0].w)) & m
	case OIte:
		if av[0] != 0 {
			return av[1]
		}
		return av[2]
	case OTable:
		if av[0] < uint64(len(t.tab)) {
			return t.tab[av[0]]
		}
		return 0
	case OBNot:
		return av[0] ^ 1
	case OBAnd:
		for _, v := range av {
			if v == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, v := range av {
			if v != 0 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(av[0] == av[1])
	case OUlt:
		return b2u(av[0] < av[1])
	case OUle:
		return b2u(av[0] <= av[1])
	case OSlt:
		w := t.args[0].w
		return b2u(sx(av[0], w) < sx(av[1], w))
	case OSle:
		w := t.args[0].w
		return b2u(sx(av[0], w) <= sx(av[1], w))
	// floats: values carried as float64 bits
	case OFConst:
		return t.val
	case OFFromU:
		return fbits(float64(av[0]), t.w)
	case OFFromS:
		return fbits(float64(sx(av[0], t.args[0].w)), t.w)
	case OFAdd:
		return fop(t.w, av, func(x, y float64) float64 { return x + y })
	case OFSub:
		return fop(t.w, av, func(x, y float64) float64 { return x - y })
	case OFMul:
		return fop(t.w, av, func(x, y float64) float64 { return x * y })
	case OFDiv:
		return fop(t.w, av, func(x, y float64) float64 { return x / y })
	case OFNeg:
		return math.Float64bits(-math.Float64frombits(av[0]))
	case OFCvt:
		return fbits(math.Float64frombits(av[0]), t.w)
	case OFEq:
		return b2u(math.Float64frombits(av[0]) == math.Float64frombits(av[1]))
	case OFLt:
		return b2u(math.Float64frombits(av[0]) < math.Float64frombits(av[1]))
	case OFLe:
		return b2u(math.Float64frombits(av[0]) <= math.Float64frombits(av[1]))
	case OFToU, OFToS:
		return cvtt(math.Float64frombits(av[0]), t.op, t.w)
	case OFIte:
		if av[0] != 0 {
			return av[1]
		}
		return av[2]
	}
	panic("evalOp " + fmt.Sprint(t.op))
}

// cvtt is the truncating conversion of the processor: OFToS at 32 and 64 bits
// (CVTTSD2SL, CVTTSD2SQ), OFToU at 64 bits (the compiler's sequence for uint64).
func cvtt(f float64, op Op, w uint8) uint64 {
	switch {
	case op == OFToU && f >= 1<<63 && f < 1<<64:
		return uint64(f-1<<63) | 1<<63
	case w == 32 && f > -(1<<31)-1 && f < 1<<31:
		return uint64(uint32(int32(f)))
	case w == 64 && f >= -(1<<63) && f < 1<<63:
		return uint64(int64(f))
	}
	return 1 << (w - 1)
}

func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		f = float64(float32(f))
	}
	return math.Float64bits(f)
}
func fop(w uint8, av []uint64, f func(x, y float64) float64) uint64 {
	return fbits(f(math.Float64frombits(av[0]), math.Float64frombits(av[1])), w)
}

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

// Eval evaluates t in a model (var name -> value; missing = lo bound/0).
type Model map[string]uint64

func (b *Builder) Eval(t *Term, m Model) uint64 {
	return b.eval(t, m, map[*Term]uint64{})
}

func (b *Builder) eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if v, ok := m[t.name]; ok {
			return v
		}
		return t.lo
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var arr [4]uint64
	av := arr[:0]
	if t.op == OIte || t.op == OFIte {
		var r uint64
		if b.eval(t.args[0], m, memo) != 0 {
			r = b.eval(t.args[1], m, memo)
		} else {
			r = b.eval(t.args[2], m, memo)
		}
		memo[t] = r
		return r
	}
	for _, a := range t.args {
		av = append(av, b.eval(a, m, memo))
	}
	r := evalOp(t, av)
	memo[t] = r
	return r
}

// ---- boolean constructors ----

func (b *Builder) Not(x *Term) *Term {
	if x.isConst() {
		return b.Bool(x.val == 0)
	}
	if x.op == OBNot {
		return x.args[0]
	}
	return b.mk(&Term{op: OBNot, args: []*Term{x}})
}

func (b *Builder) And(xs ...*Term) *Term { return b.nary(OBAnd, xs) }
func (b *Builder) Or(xs ...*Term) *Term  { return b.nary(OBOr, xs) }

func (b *Builder) nary(op Op, xs []*Term) *Term {
	unit, zero := b.T, b.F
	if op == OBOr {
		unit, zero = b.F, b.T
	}
	var fl []*Term
	for _, x := range xs {
		if x == zero {
			return zero
		}
		if x == unit {
			continue
		}
		if x.op == op {
			fl = append(fl, x.args...)
		} else {
			fl = append(fl, x)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	out := fl[:0]
	for i, x := range fl {
		if i > 0 && x == fl[i-1] {
			continue
		}
		out = append(out, x)
	}
	for _, x := range out {
		if x.op == OBNot {
			for _, y := range out {
				if y == x.args[0] {
					return zero
				}
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.canon1(b.mk(&Term{op: op, args: append([]*Term(nil), out...)}))
}

func (b *Builder) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.fp || y.fp {
		return b.FCmp(OFEq, x, y)
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val == y.val)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isConst() {
			if y.val == 1 {
				return x
			}
			return b.Not(x)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return b.canon1(b.mk(&Term{op: OEq, args: []*Term{x, y}}))
	}
	if x.hi < y.lo || y.hi < x.lo {
		return b.F
	}
	// split concats
	if x.op == OConcat || y.op == OConcat {
		px, py := b.pieces(x), b.pieces(y)
		if len(px) > 1 || len(py) > 1 {
			if r, ok := b.eqPieces(px, py); ok {
				return r
			}
		}
	}
	if x.op == OIte && y.isConst() {
		a, c := x.args[1], x.args[2]
		if a.isConst() || c.isConst() {
			ea, ec := b.Eq(a, y), b.Eq(c, y)
			return b.IteB(x.args[0], ea, ec)
		}
	}
	if x.op == OAdd && y.isConst() {
		// x = r + c
		n := len(x.args)
		if x.args[n-1].isConst() {
			c := x.args[n-1].val
			r := b.addN(x.args[:n-1], x.w)
			return b.Eq(r, b.Const(y.val-c, x.w))
		}
	}
	if x.op == OXor && y.op == OXor || x.op == OXor && y.isConst() {
		z := b.Xor(x, y)
		if z.op != OXor || len(z.args) < len(x.args)+1 {
			if z.isConst() {
				return b.Bool(z.val == 0)
			}
			if z.op != OXor {
				return b.Eq(z, b.Const(0, z.w))
			}
			// canonical: first arg == rest
			return b.canon1(b.mkEq(z.args[0], b.xorN(z.args[1:], z.w)))
		}
	}
	return b.canon1(b.mkEq(x, y))
}

func (b *Builder) mkEq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if !y.isConst() && (x.isConst() || x.id > y.id) {
		x, y = y, x
	}
	return b.mk(&Term{op: OEq, args: []*Term{x, y}})
}

func (b *Builder) eqPieces(px, py []*Term) (*Term, bool) {
	// align pieces
	var conj []*Term
	i, j := 0, 0
	var cx, cy *Term
	for {
		if cx == nil {
			if i == len(px) {
				break
			}
			cx = px[i]
			i++
		}
		if cy == nil {
			if j == len(py) {
				break
			}
			cy = py[j]
			j++
		}
		switch {
		case cx.w == cy.w:
			conj = append(conj, b.eqLeaf(cx, cy))
			cx, cy = nil, nil
		case cx.w > cy.w:
			conj = append(conj, b.eqLeaf(b.Extract(cx, cx.w-1, cx.w-cy.w), cy))
			cx = b.Extract(cx, cx.w-cy.w-1, 0)
			cy = nil
		default:
			conj = append(conj, b.eqLeaf(cx, b.Extract(cy, cy.w-1, cy.w-cx.w)))
			cy = b.Extract(cy, cy.w-cx.w-1, 0)
			cx = nil
		}
	}
	return b.And(conj...), true
}

func (b *Builder) eqLeaf(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val == y.val)
	}
	if x.op == OConcat || y.op == OConcat {
		return b.canon1(b.mkEq(x, y))
	}
	return b.Eq(x, y)
}

func (b *Builder) IteB(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	return b.Or(b.And(c, x), b.And(b.Not(c), y))
}

func (b *Builder) Ult(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.hi < y.lo {
		return b.T
	}
	if x.lo >= y.hi {
		return b.F
	}
	if nx, ny, ok := b.stripZero(x, y); ok {
		return b.Ult(nx, ny)
	}
	return b.canon1(b.mk(&Term{op: OUlt, args: []*Term{x, y}}))
}

func (b *Builder) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }

// stripZero removes common leading zero pieces of zero-extended operands.
func (b *Builder) stripZero(x, y *Term) (*Term, *Term, bool) {
	zw := func(t *Term) uint8 { return t.w - uint8(bits.Len64(t.hi)) }
	k := zw(x)
	if z := zw(y); z < k {
		k = z
	}
	structural := func(t *Term) bool { return t.op == OConcat || t.isConst() || t.op == OTable }
	if k > 0 && k < x.w && structural(x) && structural(y) {
		nx, ny := b.Extract(x, x.w-k-1, 0), b.Extract(y, y.w-k-1, 0)
		return nx, ny, true
	}
	return x, y, false
}

func (b *Builder) Slt(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.isConst() && y.isConst() {
		sx := func(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }
		return b.Bool(sx(x.val, x.w) < sx(y.val, y.w))
	}
	h := uint64(1) << (x.w - 1)
	if x.hi < h && y.hi < h {
		return b.Ult(x, y)
	}
	if x.hi < h && y.lo >= h {
		return b.F
	}
	if y.hi < h && x.lo >= h {
		return b.T
	}
	return b.canon1(b.mk(&Term{op: OSlt, args: []*Term{x, y}}))
}
func (b *Builder) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

// ---- bit-vector constructors ----

// pieces returns the concat pieces of t (msb first), or [t].
func (b *Builder) pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// Concat builds a canonical concat.
func (b *Builder) Concat(ps ...*Term) *Term {
	var fl []*Term
	var w int
	for _, p := range ps {
		w += int(p.w)
		if p.op == OConcat {
			fl = append(fl, p.args...)
		} else {
			fl = append(fl, p)
		}
	}
	if w > 64 {
		panic("concat > 64")
	}
	// merge
	var out []*Term
	for _, p := range fl {
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.isConst() && p.isConst() {
				out[n-1] = b.Const(l.val<<p.w|p.val, l.w+p.w)
				continue
			}
			if l.op == OExtract && p.op == OExtract && l.args[0] == p.args[0] && l.b == p.a+1 {
				out[n-1] = b.Extract(l.args[0], l.a, p.b)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	r := b.mk(&Term{op: OConcat, w: uint8(w), args: out})
	return b.canon1(r)
}

func (b *Builder) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return b.Extract(x, w-1, 0)
	}
	return b.Concat(b.Const(0, w-x.w), x)
}

func (b *Builder) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return b.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return b.Const(uint64(int64(x.val<<(64-x.w))>>(64-x.w)), w)
	}
	if x.hi < 1<<(x.w-1) {
		return b.ZExt(x, w)
	}
	return b.canon1(b.mk(&Term{op: OSExt, w: w, args: []*Term{x}}))
}

func (b *Builder) Extract(x *Term, hi, lo uint8) *Term {
	if hi < lo || hi >= x.w {
		panic(fmt.Sprintf("bad extract %d %d of w%d", hi, lo, x.w))
	}
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isConst() {
		return b.Const(x.val>>lo, w)
	}
	if lo > 0 && x.hi>>lo == 0 {
		return b.Const(0, w)
	}
	switch x.op {
	case OExtract:
		return b.Extract(x.args[0], x.b+hi, x.b+lo)
	case OConcat:
		var ps []*Term
		pos := int(x.w)
		for _, p := range x.args {
			phi, plo := pos-1, pos-int(p.w)
			pos = plo
			if plo > int(hi) || phi < int(lo) {
				continue
			}
			h, l := phi, plo
			if h > int(hi) {
				h = int(hi)
			}
			if l < int(lo) {
				l = int(lo)
			}
			ps = append(ps, b.Extract(p, uint8(h-plo), uint8(l-plo)))
		}
		return b.Concat(ps...)
	case OAnd, OOr, OXor:
		args := make([]*Term, len(x.args))
		for i, a := range x.args {
			args[i] = b.Extract(a, hi, lo)
		}
		switch x.op {
		case OAnd:
			return b.AndBV(args...)
		case OOr:
			return b.OrBV(args...)
		}
		return b.xorN(args, w)
	case OBVNot:
		return b.NotBV(b.Extract(x.args[0], hi, lo))
	case OAdd:
		if lo == 0 {
			args := make([]*Term, len(x.args))
			for i, a := range x.args {
				args[i] = b.Extract(a, hi, 0)
			}
			return b.addN(args, w)
		}
	case OSub, OMul:
		if lo == 0 {
			p, q := b.Extract(x.args[0], hi, 0), b.Extract(x.args[1], hi, 0)
			if x.op == OSub {
				return b.Sub(p, q)
			}
			return b.Mul(p, q)
		}
	case OIte:
		return b.Ite(x.args[0], b.Extract(x.args[1], hi, lo), b.Extract(x.args[2], hi, lo))
	case OSExt:
		if hi < x.args[0].w {
			return b.Extract(x.args[0], hi, lo)
		}
		if lo == 0 {
			return b.SExt(x.args[0], w)
		}
	case OTable:
		nt := make([]uint64, len(x.tab))
		for i, v := range x.tab {
			nt[i] = (v >> lo) & mask(w)
		}
		return b.Table(x.args[0], nt, w)
	case OUDiv, OURem:
		if lo == 0 && x.hi <= mask(w) && x.args[0].hi <= mask(w) && x.args[1].hi <= mask(w) {
			return b.bin(x.op, b.Extract(x.args[0], hi, 0), b.Extract(x.args[1], hi, 0))
		}
	}
	return b.canon1(b.mk(&Term{op: OExtract, w: w, a: hi, b: lo, args: []*Term{x}}))
}

func (b *Builder) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.fp {
		return b.mk(&Term{op: OFIte, fp: true, w: x.w, args: []*Term{c, x, y}})
	}
	if x.w == 0 {
		return b.IteB(c, x, y)
	}
	if c.op == OBNot {
		return b.Ite(c.args[0], y, x)
	}
	if x.op == OIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == c {
		y = y.args[2]
	}
	return b.canon1(b.mk(&Term{op: OIte, w: x.w, args: []*Term{c, x, y}}))
}

// Table: value of tab[idx]; idx must be known in range.
func (b *Builder) Table(idx *Term, tab []uint64, w uint8) *Term {
	if idx.isConst() {
		return b.Const(tab[idx.val], w)
	}
	allc := true
	for _, v := range tab {
		if v != tab[0] {
			allc = false
			break
		}
	}
	if allc && len(tab) > 0 {
		return b.Const(tab[0], w)
	}
	if w == 0 {
		t := b.Table(idx, tab, 1)
		return b.Eq(t, b.Const(1, 1))
	}
	return b.canon1(b.mk(&Term{op: OTable, w: w, args: []*Term{idx}, tab: tab}))
}

func (b *Builder) NotBV(x *Term) *Term {
	if x.isConst() {
		return b.Const(^x.val, x.w)
	}
	if x.op == OBVNot {
		return x.args[0]
	}
	if x.op == OConcat {
		ps := make([]*Term, len(x.args))
		for i, p := range x.args {
			ps[i] = b.NotBV(p)
		}
		return b.Concat(ps...)
	}
	return b.canon1(b.mk(&Term{op: OBVNot, w: x.w, args: []*Term{x}}))
}

func (b *Builder) Neg(x *Term) *Term {
	return b.Sub(b.Const(0, x.w), x)
}

// bitwise splits operands at each other's piece boundaries
func (b *Builder) cuts(x, y *Term) ([]*Term, []*Term) {
	px, py := b.pieces(x), b.pieces(y)
	if len(px) == 1 && len(py) == 1 {
		return px, py
	}
	var ox, oy []*Term
	i, j := 0, 0
	var cx, cy *Term
	for {
		if cx == nil {
			if i == len(px) {
				break
			}
			cx = px[i]
			i++
		}
		if cy == nil {
			cy = py[j]
			j++
		}
		switch {
		case cx.w == cy.w:
			ox, oy = append(ox, cx), append(oy, cy)
			cx, cy = nil, nil
		case cx.w > cy.w:
			ox, oy = append(ox, b.Extract(cx, cx.w-1, cx.w-cy.w)), append(oy, cy)
			cx = b.Extract(cx, cx.w-cy.w-1, 0)
			cy = nil
		default:
			ox, oy = append(ox, cx), append(oy, b.Extract(cy, cy.w-1, cy.w-cx.w))
			cy = b.Extract(cy, cy.w-cx.w-1, 0)
			cx = nil
		}
	}
	return ox, oy
}

// maskPieces splits a constant into runs of equal bits.
func runs(v uint64, w uint8) (out []uint8, bitsv []bool) {
	i := int(w) - 1
	for i >= 0 {
		bit := v>>uint(i)&1 == 1
		n := 0
		for i >= 0 && (v>>uint(i)&1 == 1) == bit {
			n++
			i--
		}
		out = append(out, uint8(n))
		bitsv = append(bitsv, bit)
	}
	return
}

func (b *Builder) AndBV(xs ...*Term) *Term {
	r := xs[0]
	for _, x := range xs[1:] {
		r = b.and2(r, x)
	}
	return r
}

func (b *Builder) and2(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.val&y.val, x.w)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.isConst() {
		if y.val == 0 {
			return y
		}
		if y.val == mask(y.w) {
			return x
		}
		ls, bs := runs(y.val, y.w)
		var ps []*Term
		pos := y.w
		for i, n := range ls {
			if bs[i] {
				ps = append(ps, b.Extract(x, pos-1, pos-n))
			} else {
				ps = append(ps, b.Const(0, n))
			}
			pos -= n
		}
		return b.Concat(ps...)
	}
	if x.op == OConcat || y.op == OConcat {
		cx, cy := b.cuts(x, y)
		if len(cx) > 1 {
			ps := make([]*Term, len(cx))
			for i := range cx {
				ps[i] = b.and2(cx[i], cy[i])
			}
			return b.Concat(ps...)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.canon1(b.mk(&Term{op: OAnd, w: x.w, args: []*Term{x, y}}))
}

func (b *Builder) OrBV(xs ...*Term) *Term {
	r := xs[0]
	for _, x := range xs[1:] {
		r = b.or2(r, x)
	}
	return r
}

func (b *Builder) or2(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.val|y.val, x.w)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		if y.val == mask(y.w) {
			return y
		}
		ls, bs := runs(y.val, y.w)
		var ps []*Term
		pos := y.w
		for i, n := range ls {
			if !bs[i] {
				ps = append(ps, b.Extract(x, pos-1, pos-n))
			} else {
				ps = append(ps, b.Const(mask(n), n))
			}
			pos -= n
		}
		return b.Concat(ps...)
	}
	if x.op == OConcat || y.op == OConcat {
		cx, cy := b.cuts(x, y)
		if len(cx) > 1 {
			ps := make([]*Term, len(cx))
			for i := range cx {
				ps[i] = b.or2(cx[i], cy[i])
			}
			return b.Concat(ps...)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.canon1(b.mk(&Term{op: OOr, w: x.w, args: []*Term{x, y}}))
}

func (b *Builder) Xor(x, y *Term) *Term {
	if x.op == OConcat || y.op == OConcat {
		if x.isConst() && x.val == 0 {
			return y
		}
		if y.isConst() && y.val == 0 {
			return x
		}
		cx, cy := b.cuts(x, y)
		if len(cx) > 1 {
			ps := make([]*Term, len(cx))
			for i := range cx {
				ps[i] = b.Xor(cx[i], cy[i])
			}
			return b.Concat(ps...)
		}
	}
	return b.xorN([]*Term{x, y}, x.w)
}

func (b *Builder) xorN(xs []*Term, w uint8) *Term {
	var c uint64
	var fl []*Term
	add := func(t *Term) {
		if t.isConst() {
			c ^= t.val
		} else {
			fl = append(fl, t)
		}
	}
	for _, x := range xs {
		if x.op == OXor {
			for _, a := range x.args {
				add(a)
			}
		} else if x.op == OBVNot {
			c ^= mask(w)
			add(x.args[0])
		} else {
			add(x)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	var out []*Term
	for i := 0; i < len(fl); {
		if i+1 < len(fl) && fl[i] == fl[i+1] {
			i += 2
			continue
		}
		out = append(out, fl[i])
		i++
	}
	if len(out) == 0 {
		return b.Const(c, w)
	}
	if c != 0 {
		out = append(out, b.Const(c, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.canon1(b.mk(&Term{op: OXor, w: w, args: out}))
}

func (b *Builder) Add(x, y *Term) *Term {
	// disjoint pieces -> or
	if x.op == OConcat || y.op == OConcat {
		if b.disjoint(x, y) {
			return b.or2(x, y)
		}
	}
	return b.addN([]*Term{x, y}, x.w)
}

func (b *Builder) disjoint(x, y *Term) bool {
	if x.isConst() && x.val == 0 || y.isConst() && y.val == 0 {
		return true
	}
	nz := func(t *Term) uint64 { // possibly non-zero bits
		if t.op == OConcat {
			var m uint64
			for _, p := range t.args {
				pm := mask(p.w)
				if p.isConst() {
					pm = p.val
				}
				m = m<<p.w | pm
			}
			return m
		}
		if t.isConst() {
			return t.val
		}
		return mask(uint8(bits.Len64(t.hi)))
	}
	return nz(x)&nz(y) == 0
}

// lterm is coef*t in a linear sum.
type lterm struct {
	c uint64
	t *Term
}

// linear reads a sum as coefficients, atoms and a constant (all modulo 2^w).
func linear(t *Term) (ls []lterm, k uint64) {
	args := []*Term{t}
	if t.op == OAdd {
		args = t.args
	}
	for _, a := range args {
		switch {
		case a.isConst():
			k += a.val
		case a.op == OMul && a.args[1].isConst():
			ls = append(ls, lterm{a.args[1].val, a.args[0]})
		default:
			ls = append(ls, lterm{1, a})
		}
	}
	return
}

// intBounds gives the bounds of a linear sum read over the integers (all
// coefficients positive, the constant of either sign) when it cannot wrap.
func intBounds(t *Term) (uint64, uint64, bool) {
	ls, k := linear(t)
	m := mask(t.w)
	k &= m
	var lo, hi, c1 uint64
	for _, l := range ls {
		if l.c > m/2 {
			return 0, 0, false
		}
		h, p := bits.Mul64(l.c, l.t.hi)
		if h != 0 {
			return 0, 0, false
		}
		if hi, c1 = bits.Add64(hi, p, 0); c1 != 0 {
			return 0, 0, false
		}
		lo += l.c * l.t.lo
	}
	if x, c := bits.Add64(hi, k, 0); c == 0 && x <= m {
		return lo + k, x, true
	}
	if n := (-k) & m; k > m/2 && lo >= n && hi-n <= m {
		return lo - n, hi - n, true
	}
	return 0, 0, false
}

// divLinear divides a sum by a constant when it splits into multiples of the
// divisor and a part that is known to lie below it.
func (b *Builder) divLinear(x *Term, d uint64) (q, r *Term, ok bool) {
	c, _, ok := intBounds(x)
	if !ok {
		return nil, nil, false
	}
	ls, _ := linear(x)
	// x = c + sum of coef*(atom - its minimum)
	var rhi, carry uint64
	var qs, rs []*Term
	qk, rk := c/d, c%d
	n := 0
	for _, l := range ls {
		if l.c%d == 0 {
			n++
			qs = append(qs, b.Mul(l.t, b.Const(l.c/d, x.w)))
			qk -= l.c / d * l.t.lo
		} else {
			if rhi, carry = bits.Add64(rhi, l.c*(l.t.hi-l.t.lo), 0); carry != 0 {
				return nil, nil, false
			}
			rs = append(rs, b.Mul(l.t, b.Const(l.c, x.w)))
			rk -= l.c * l.t.lo
		}
	}
	if n == 0 && c < d {
		return nil, nil, false
	}
	if rhi, carry = bits.Add64(rhi, c%d, 0); carry != 0 {
		return nil, nil, false
	}
	m := mask(x.w)
	qs = append(qs, b.Const(qk&m, x.w))
	rs = append(rs, b.Const(rk&m, x.w))
	q, r = b.addN(qs, x.w), b.addN(rs, x.w)
	if rhi >= d {
		dc := b.Const(d, x.w)
		return b.Add(q, b.bin(OUDiv, r, dc)), b.bin(OURem, r, dc), true
	}
	return q, r, true
}

func (b *Builder) addN(xs []*Term, w uint8) *Term {
	var c uint64
	var fl []lterm
	for _, x := range xs {
		ls, k := linear(x)
		c += k
		fl = append(fl, ls...)
	}
	c &= mask(w)
	sort.SliceStable(fl, func(i, j int) bool { return fl[i].t.id < fl[j].t.id })
	var out []*Term
	for i := 0; i < len(fl); {
		j, k := i, uint64(0)
		for ; j < len(fl) && fl[j].t == fl[i].t; j++ {
			k += fl[j].c
		}
		k &= mask(w)
		if k == 1 {
			out = append(out, fl[i].t)
		} else if k != 0 {
			out = append(out, b.mulC(fl[i].t, k))
		}
		i = j
	}
	if len(out) == 0 {
		return b.Const(c, w)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if c != 0 {
		out = append(out, b.Const(c, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.canon1(b.mk(&Term{op: OAdd, w: w, args: out}))
}

// mulC is the product of an atom and a constant.
func (b *Builder) mulC(x *Term, k uint64) *Term {
	if k&(k-1) == 0 {
		return b.Shl(x, b.Const(uint64(bits.TrailingZeros64(k)), x.w))
	}
	return b.canon1(b.mk(&Term{op: OMul, w: x.w, args: []*Term{x, b.Const(k, x.w)}}))
}

func (b *Builder) Sub(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.val-y.val, x.w)
	}
	if x == y {
		return b.Const(0, x.w)
	}
	if y.isConst() {
		return b.Add(x, b.Const(-y.val, x.w))
	}
	if x.op == OAdd {
		for i, a := range x.args {
			if a == y {
				rest := append(append([]*Term(nil), x.args[:i]...), x.args[i+1:]...)
				return b.addN(rest, x.w)
			}
		}
	}
	return b.canon1(b.mk(&Term{op: OSub, w: x.w, args: []*Term{x, y}}))
}

func (b *Builder) Mul(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return b.Const(x.val*y.val, x.w)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch {
		case y.val == 0:
			return y
		case y.val == 1:
			return x
		case y.val&(y.val-1) == 0:
			return b.Shl(x, b.Const(uint64(bits.TrailingZeros64(y.val)), x.w))
		}
		if x.op == OMul && x.args[1].isConst() {
			return b.Mul(x.args[0], b.Const(x.args[1].val*y.val, x.w))
		}
		if x.op == OAdd && len(x.args) <= 48 {
			var ps []*Term
			for _, a := range x.args {
				ps = append(ps, b.Mul(a, y))
			}
			return b.addN(ps, x.w)
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return b.canon1(b.mk(&Term{op: OMul, w: x.w, args: []*Term{x, y}}))
}

func (b *Builder) bin(op Op, x, y *Term) *Term {
	switch op {
	case OAdd:
		return b.Add(x, y)
	case OSub:
		return b.Sub(x, y)
	case OMul:
		return b.Mul(x, y)
	case OAnd:
		return b.AndBV(x, y)
	case OOr:
		return b.OrBV(x, y)
	case OXor:
		return b.Xor(x, y)
	case OShl:
		return b.Shl(x, y)
	case OLShr:
		return b.LShr(x, y)
	case OAShr:
		return b.AShr(x, y)
	}
	if x.isConst() && y.isConst() {
		t := &Term{op: op, w: x.w, args: []*Term{x, y}}
		return b.Const(evalOp(t, []uint64{x.val, y.val}), x.w)
	}
	h := uint64(1) << (x.w - 1)
	if (op == OSDiv || op == OSRem) && x.hi < h && y.hi < h {
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	}
	if y.isConst() && y.val != 0 {
		switch op {
		case OUDiv:
			if x.lo/y.val == x.hi/y.val {
				return b.Const(x.lo/y.val, x.w)
			}
			if y.val&(y.val-1) == 0 {
				return b.LShr(x, b.Const(uint64(bits.TrailingZeros64(y.val)), x.w))
			}
			if q, _, ok := b.divLinear(x, y.val); ok {
				return q
			}
			if x.op == OMul && x.args[1].isConst() && x.args[1].val%y.val == 0 {
				if hh, ll := bits.Mul64(x.args[0].hi, x.args[1].val); hh == 0 && ll <= mask(x.w) {
					return b.Mul(x.args[0], b.Const(x.args[1].val/y.val, x.w))
				}
			}
		case OURem:
			if x.lo/y.val == x.hi/y.val {
				return b.Sub(x, b.Const(x.lo/y.val*y.val, x.w))
			}
			if y.val&(y.val-1) == 0 {
				return b.AndBV(x, b.Const(y.val-1, x.w))
			}
			if _, r, ok := b.divLinear(x, y.val); ok {
				return r
			}
			if x.op == OMul && x.args[1].isConst() && x.args[1].val%y.val == 0 {
				if hh, ll := bits.Mul64(x.args[0].hi, x.args[1].val); hh == 0 && ll <= mask(x.w) {
					return b.Const(0, x.w)
				}
			}
		}
		// narrow
		if op == OUDiv || op == OURem {
			nw := uint8(bits.Len64(x.hi))
			if l := uint8(bits.Len64(y.val)); l > nw {
				nw = l
			}
			if nw < x.w && nw > 0 {
				r := b.mk(&Term{op: op, w: nw, args: []*Term{b.Extract(x, nw-1, 0), b.Extract(y, nw-1, 0)}})
				return b.ZExt(b.canon1(r), x.w)
			}
		}
	}
	return b.canon1(b.mk(&Term{op: op, w: x.w, args: []*Term{x, y}}))
}

// shifts: y has same width as x; SMT semantics (>= width -> 0 / sign)
func (b *Builder) Shl(x, y *Term) *Term {
	if y.isConst() {
		if y.val >= uint64(x.w) {
			return b.Const(0, x.w)
		}
		if y.val == 0 {
			return x
		}
		k := uint8(y.val)
		return b.Concat(b.Extract(x, x.w-k-1, 0), b.Const(0, k))
	}
	return b.canon1(b.mk(&Term{op: OShl, w: x.w, args: []*Term{x, y}}))
}

func (b *Builder) LShr(x, y *Term) *Term {
	if y.isConst() {
		if y.val >= uint64(x.w) {
			return b.Const(0, x.w)
		}
		if y.val == 0 {
			return x
		}
		k := uint8(y.val)
		return b.Concat(b.Const(0, k), b.Extract(x, x.w-1, k))
	}
	return b.canon1(b.mk(&Term{op: OLShr, w: x.w, args: []*Term{x, y}}))
}

func (b *Builder) AShr(x, y *Term) *Term {
	if x.hi < 1<<(x.w-1) {
		return b.LShr(x, y)
	}
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		k := y.val
		if k >= uint64(x.w) {
			k = uint64(x.w) - 1
		}
		return b.SExt(b.Extract(x, x.w-1, uint8(k)), x.w)
	}
	return b.canon1(b.mk(&Term{op: OAShr, w: x.w, args: []*Term{x, y}}))
}

// ---- floats ----
func (b *Builder) FConst(f float64, w uint8) *Term {
	return b.mk(&Term{op: OFConst, fp: true, w: w, val: fbits(f, w)})
}
func (b *Builder) FUn(op Op, x *Term, w uint8) *Term {
	if op == OFCvt && x.w == w {
		return x
	}
	if x.op == OConst || x.op == OFConst {
		t := &Term{op: op, fp: true, w: w, args: []*Term{x}}
		return b.mk(&Term{op: OFConst, fp: true, w: w, val: evalOp(t, []uint64{x.val})})
	}
	if op == OFFromS && x.w > 0 && x.hi < 1<<(x.w-1) {
		op = OFFromU
	}
	if op == OFFromU { // canonical width
		n := uint8(bits.Len64(x.hi))
		if n == 0 {
			n = 1
		}
		if n < x.w {
			x = b.Extract(x, n-1, 0)
		}
	}
	return b.mk(&Term{op: op, fp: true, w: w, args: []*Term{x}})
}
func (b *Builder) FBin(op Op, x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		t := &Term{op: op, fp: true, w: x.w, args: []*Term{x, y}}
		return b.mk(&Term{op: OFConst, fp: true, w: x.w, val: evalOp(t, []uint64{x.val, y.val})})
	}
	return b.mk(&Term{op: op, fp: true, w: x.w, args: []*Term{x, y}})
}
func (b *Builder) FCmp(op Op, x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		t := &Term{op: op, args: []*Term{x, y}}
		return b.Bool(evalOp(t, []uint64{x.val, y.val}) != 0)
	}
	return b.mk(&Term{op: op, args: []*Term{x, y}})
}
func (b *Builder) FToInt(op Op, x *Term, w uint8) *Term {
	if x.op == OFConst {
		t := &Term{op: op, w: w, args: []*Term{x}}
		return b.Const(evalOp(t, []uint64{x.val}), w)
	}
	// exact integer round trip
	if (x.op == OFFromU || x.op == OFFromS) && x.w == 64 {
		if aw := x.args[0].w; x.op == OFFromU && aw < w && aw <= 52 {
			return b.ZExt(x.args[0], w)
		} else if x.op == OFFromS && aw <= w && aw <= 52 {
			return b.SExt(x.args[0], w)
		}
	}
	return b.mk(&Term{op: op, w: w, args: []*Term{x}})
}

// ---- printing ----

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func sortStr(t *Term) string {
	if t.fp {
		if t.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func fpDims(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// ref is how a term is named inside other terms.
func ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	case OFConst:
		if t.w == 32 {
			v := math.Float32bits(float32(math.Float64frombits(t.val)))
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", v)
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	var sb strings.Builder
	args := func() {
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.a, t.b, ref(t.args[0]))
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OTable:
		tableBody(&sb, t, 0, len(t.tab), t.args[0])
	case OFFromU:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned %s) RNE %s)", fpDims(t.w), ref(t.args[0]))
	case OFFromS:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE %s)", fpDims(t.w), ref(t.args[0]))
	case OFCvt:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE %s)", fpDims(t.w), ref(t.args[0]))
	case OFAdd, OFSub, OFMul, OFDiv:
		fmt.Fprintf(&sb, "(%s RNE", map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op])
		args()
		sb.WriteByte(')')
	case OFNeg:
		fmt.Fprintf(&sb, "(fp.neg %s)", ref(t.args[0]))
	case OFEq, OFLt, OFLe:
		fmt.Fprintf(&sb, "(%s", map[Op]string{OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq"}[t.op])
		args()
		sb.WriteByte(')')
	case OFToU, OFToS:
		x := ref(t.args[0])
		c := func(f float64) string { return ref(&Term{op: OFConst, w: t.args[0].w, val: math.Float64bits(f)}) }
		low := constStr(1<<(t.w-1), t.w)
		if t.w == 32 && t.args[0].w == 64 {
			fmt.Fprintf(&sb, "(ite (and (fp.lt %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 32) RTZ %s) %s)", c(-(1<<31)-1), x, x, c(1<<31), x, low)
			break
		}
		lim := float64(uint64(1) << (t.w - 1))
		fmt.Fprintf(&sb, "(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv %d) RTZ %s) ", c(-lim), x, x, c(lim), t.w, x)
		if t.op == OFToU {
			fmt.Fprintf(&sb, "(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_ubv 64) RTZ %s) %s))", c(lim), x, x, c(2*lim), x, low)
		} else {
			sb.WriteString(low + ")")
		}
	case OFIte:
		sb.WriteString("(ite")
		args()
		sb.WriteByte(')')
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		args()
		sb.WriteByte(')')
	}
	return sb.String()
}

func tableBody(sb *strings.Builder, t *Term, lo, hi int, idx *Term) {
	same := true
	for i := lo + 1; i < hi; i++ {
		if t.tab[i] != t.tab[lo] {
			same = false
			break
		}
	}
	if same {
		sb.WriteString(constStr(t.tab[lo], t.w))
		return
	}
	mid := (lo + hi) / 2
	fmt.Fprintf(sb, "(ite (bvult %s %s) ", ref(idx), constStr(uint64(mid), idx.w))
	tableBody(sb, t, lo, mid, idx)
	sb.WriteByte(' ')
	tableBody(sb, t, mid, hi, idx)
	sb.WriteByte(')')
}
