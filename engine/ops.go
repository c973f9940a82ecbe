package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type syncMap struct{ sync.Map }

func newSyncMap() *syncMap { return &syncMap{} }

var intOps = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor}

func (fr *frame) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	w := fr.w
	if p, ok := x.(Poison); ok {
		panic(unsupported("poison: " + p.why))
	}
	if p, ok := y.(Poison); ok {
		panic(unsupported("poison: " + p.why))
	}
	switch op {
	case token.EQL:
		return w.eqIface(x, y, xt, yt)
	case token.NEQ:
		return w.notVal(w.eqIface(x, y, xt, yt))
	}
	if isFloat(xt) {
		return fr.fbin(op, xt, x, y)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y, false)
		case token.LEQ:
			return w.strLess(x, y, true)
		case token.GTR:
			return w.strLess(y, x, false)
		case token.GEQ:
			return w.strLess(y, x, true)
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		tx, ty := w.boolTerm(x), w.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return w.norm(w.b.And(tx, ty))
		case token.OR, token.LOR:
			return w.norm(w.b.Or(tx, ty))
		}
	}
	if !isInt(xt) {
		panic(unsupported("binop " + op.String() + " on " + xt.String()))
	}
	wd := widthOf(xt)
	sg := isSigned(xt)
	xu, xc := x.(uint64)
	yu, yc := y.(uint64)
	if op == token.SHL || op == token.SHR {
		return fr.shift(op, xt, yt, x, y)
	}
	if xc && yc {
		m := mask(wd)
		switch op {
		case token.ADD:
			return (xu + yu) & m
		case token.SUB:
			return (xu - yu) & m
		case token.MUL:
			return (xu * yu) & m
		case token.AND:
			return xu & yu
		case token.OR:
			return xu | yu
		case token.XOR:
			return xu ^ yu
		case token.AND_NOT:
			return xu &^ yu
		case token.QUO, token.REM:
			if yu == 0 {
				w.rtPanic("integer divide by zero")
			}
			if sg {
				a, b := sxt(xu, xt), sxt(yu, xt)
				if b == -1 {
					if op == token.REM {
						return uint64(0)
					}
					return uint64(-a) & m
				}
				if op == token.QUO {
					return uint64(a/b) & m
				}
				return uint64(a%b) & m
			}
			if op == token.QUO {
				return xu / yu
			}
			return xu % yu
		}
		if sg {
			a, b := int64(xu<<(64-wd))>>(64-wd), int64(yu<<(64-wd))>>(64-wd)
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		switch op {
		case token.LSS:
			return xu < yu
		case token.LEQ:
			return xu <= yu
		case token.GTR:
			return xu > yu
		case token.GEQ:
			return xu >= yu
		}
		panic(unsupported("int op " + op.String()))
	}
	tx, ty := w.term(x, wd), w.term(y, wd)
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		return w.norm(w.b.bin(intOps[op], tx, ty))
	case token.AND_NOT:
		return w.norm(w.b.AndBV(tx, w.b.NotBV(ty)))
	case token.QUO, token.REM:
		if fr.branch(w.norm(w.b.Eq(ty, w.b.Const(0, wd)))) {
			w.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case sg && op == token.QUO:
			o = OSDiv
		case sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return w.norm(w.b.bin(o, tx, ty))
	case token.LSS:
		if sg {
			return w.norm(w.b.Slt(tx, ty))
		}
		return w.norm(w.b.Ult(tx, ty))
	case token.LEQ:
		if sg {
			return w.norm(w.b.Sle(tx, ty))
		}
		return w.norm(w.b.Ule(tx, ty))
	case token.GTR:
		if sg {
			return w.norm(w.b.Slt(ty, tx))
		}
		return w.norm(w.b.Ult(ty, tx))
	case token.GEQ:
		if sg {
			return w.norm(w.b.Sle(ty, tx))
		}
		return w.norm(w.b.Ule(ty, tx))
	}
	panic(unsupported("int op " + op.String()))
}

// eqIface compares, allowing mixed interface/concrete operands.
func (w *Worker) eqIface(x, y Value, xt, yt types.Type) Value {
	xi, xok := x.(Iface)
	yi, yok := y.(Iface)
	if xok && !yok {
		yi = Iface{canon(yt), y}
		return w.eqVal(xi, yi)
	}
	if yok && !xok {
		xi = Iface{canon(xt), x}
		return w.eqVal(xi, yi)
	}
	return w.eqVal(x, y)
}

func (fr *frame) shift(op token.Token, xt, yt types.Type, x, y Value) Value {
	w := fr.w
	wd, yw := widthOf(xt), widthOf(yt)
	sg := isSigned(xt)
	if yu, ok := y.(uint64); ok {
		if isSigned(yt) && sxt(yu, yt) < 0 {
			w.rtPanic("negative shift amount")
		}
		if xu, ok := x.(uint64); ok {
			if op == token.SHL {
				if yu >= uint64(wd) {
					return uint64(0)
				}
				return xu << yu & mask(wd)
			}
			if sg {
				a := int64(xu<<(64-wd)) >> (64 - wd)
				if yu >= 64 {
					yu = 63
				}
				return uint64(a>>yu) & mask(wd)
			}
			if yu >= uint64(wd) {
				return uint64(0)
			}
			return xu >> yu
		}
		if yu > uint64(wd) {
			yu = uint64(wd)
		}
		if wd == 8 && yu > 255 {
			yu = 255
		}
		return w.norm(fr.shiftT(op, sg, w.term(x, wd), w.b.Const(yu, wd)))
	}
	ty := y.(*Term)
	if isSigned(yt) {
		if fr.branch(w.norm(w.b.Slt(ty, w.b.Const(0, yw)))) {
			w.rtPanic("negative shift amount")
		}
	}
	tx := w.term(x, wd)
	// bring amount to width wd
	switch {
	case yw == wd:
	case yw < wd:
		ty = w.b.ZExt(ty, wd)
	default:
		big := w.b.Ule(w.b.Const(uint64(wd), yw), ty)
		ty = w.b.Ite(big, w.b.Const(uint64(wd), wd), w.b.Extract(ty, wd-1, 0))
	}
	return w.norm(fr.shiftT(op, sg, tx, ty))
}

func (fr *frame) shiftT(op token.Token, sg bool, x, y *Term) *Term {
	b := fr.w.b
	if op == token.SHL {
		return b.Shl(x, y)
	}
	if sg {
		return b.AShr(x, y)
	}
	return b.LShr(x, y)
}

func (fr *frame) fbin(op token.Token, t types.Type, x, y Value) Value {
	w := fr.w
	wd := widthOf(t)
	xf, xc := x.(float64)
	yf, yc := y.(float64)
	if xc && yc {
		rd := func(f float64) Value {
			if wd == 32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rd(xf + yf)
		case token.SUB:
			return rd(xf - yf)
		case token.MUL:
			return rd(xf * yf)
		case token.QUO:
			return rd(xf / yf)
		case token.LSS:
			return xf < yf
		case token.LEQ:
			return xf <= yf
		case token.GTR:
			return xf > yf
		case token.GEQ:
			return xf >= yf
		}
	}
	tx, ty := w.fterm(x, wd), w.fterm(y, wd)
	switch op {
	case token.ADD:
		return w.norm(w.b.FBin(OFAdd, tx, ty))
	case token.SUB:
		return w.norm(w.b.FBin(OFSub, tx, ty))
	case token.MUL:
		return w.norm(w.b.FBin(OFMul, tx, ty))
	case token.QUO:
		return w.norm(w.b.FBin(OFDiv, tx, ty))
	case token.LSS:
		return w.norm(w.b.FCmp(OFLt, tx, ty))
	case token.LEQ:
		return w.norm(w.b.FCmp(OFLe, tx, ty))
	case token.GTR:
		return w.norm(w.b.FCmp(OFLt, ty, tx))
	case token.GEQ:
		return w.norm(w.b.FCmp(OFLe, ty, tx))
	}
	panic(unsupported("float op " + op.String()))
}

func (fr *frame) convert(x Value, from, to types.Type) Value {
	w := fr.w
	if p, ok := x.(Poison); ok {
		panic(unsupported("poison: " + p.why))
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	switch {
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return w.convInt(x, from, to)
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		wd := widthOf(to)
		if u, ok := x.(uint64); ok {
			var f float64
			if isSigned(from) {
				s := int64(u<<(64-widthOf(from))) >> (64 - widthOf(from))
				if wd == 32 {
					return float64(float32(s))
				}
				f = float64(s)
			} else {
				if wd == 32 {
					return float64(float32(u))
				}
				f = float64(u)
			}
			return f
		}
		o := OFFromU
		if isSigned(from) {
			o = OFFromS
		}
		return w.norm(w.b.FUn(o, x.(*Term), wd))
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		// amd64: up to int32 (but not uint32) through CVTTSD2SL, the rest
		// through CVTTSD2SQ; out of range gives the lowest value.
		wd := widthOf(to)
		o, cw := OFToS, uint8(64)
		switch {
		case wd == 64 && !isSigned(to):
			o = OFToU
		case wd < 32 || wd == 32 && isSigned(to):
			cw = 32
		}
		if f, ok := x.(float64); ok {
			return cvtt(f, o, cw) & mask(wd)
		}
		r := w.b.FToInt(o, x.(*Term), cw)
		if wd < cw {
			r = w.b.Extract(r, wd-1, 0)
		}
		return w.norm(r)
	case fIsB && tIsB && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		wd := widthOf(to)
		if f, ok := x.(float64); ok {
			if wd == 32 {
				return float64(float32(f))
			}
			return f
		}
		return w.norm(w.b.FUn(OFCvt, x.(*Term), wd))
	case fIsB && tIsB && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case fIsB && tIsB && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		u := w.concretize(x, "rune")
		return string(rune(sxt(u, from)))
	case fIsB && tIsB && fb.Info()&types.IsComplex != 0:
		return x
	case fIsB && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok {
			if isByteElem(s.Elem()) {
				return w.strBytes(x)
			}
			// []rune
			var rs []Value
			for i := 0; i < strLen(x); {
				r, n := fr.decodeRune(x, i)
				rs = append(rs, r)
				i += n
			}
			a := w.newAgg(len(rs))
			copy(a.c, rs)
			return Slice{a, 0, len(rs), len(rs)}
		}
	case tIsB && tb.Info()&types.IsString != 0:
		if s, ok := fu.(*types.Slice); ok {
			sl := x.(Slice)
			if isByteElem(s.Elem()) {
				return sl.bytesStr()
			}
			var r Value = ""
			for i := 0; i < sl.len; i++ {
				c := sl.a.get(sl.off + i)
				if t, ok := c.(*Term); ok {
					if fr.branch(w.norm(w.b.Ult(t, w.b.Const(0x80, t.w)))) {
						r = strConcat(r, mkStr([]Value{w.norm(w.b.Extract(t, 7, 0))}))
						continue
					}
					c = w.concretize(t, "rune")
				}
				r = strConcat(r, string(rune(int32(c.(uint64)))))
			}
			return r
		}
	}
	// pointers and unsafe
	switch x.(type) {
	case Ptr, Slice, *Closure, *MapV, *Chan, Iface:
		return x
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func (w *Worker) convInt(x Value, from, to types.Type) Value {
	fw, tw := widthOf(from), widthOf(to)
	if u, ok := x.(uint64); ok {
		if isSigned(from) && tw > fw {
			return uint64(int64(u<<(64-fw))>>(64-fw)) & mask(tw)
		}
		return u & mask(tw)
	}
	t, ok := x.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("int conversion of %T", x)))
	}
	switch {
	case tw == fw:
		return t
	case tw < fw:
		return w.norm(w.b.Extract(t, tw-1, 0))
	case isSigned(from):
		return w.norm(w.b.SExt(t, tw))
	}
	return w.norm(w.b.ZExt(t, tw))
}

// decodeRune decodes one rune of a string at i (forks on non-ASCII symbolic bytes).
func (fr *frame) decodeRune(s Value, i int) (Value, int) {
	w := fr.w
	b := strAt(s, i)
	if t, ok := b.(*Term); ok {
		if fr.branch(w.norm(w.b.Ult(t, w.b.Const(0x80, 8)))) {
			return w.norm(w.b.ZExt(t, 32)), 1
		}
		w.lastPos = fr.f.p.posStr(fr.pos)
		b = w.concretize(t, "utf8")
	}
	if b.(uint64) < 0x80 {
		return b, 1
	}
	n := min(strLen(s)-i, 4)
	buf := make([]byte, n)
	buf[0] = byte(b.(uint64))
	for k := 1; k < n; k++ {
		c := strAt(s, i+k)
		if t, ok := c.(*Term); ok {
			// only concretise while needed
			if utf8.FullRune(buf[:k]) {
				n = k
				break
			}
			c = w.concretize(t, "utf8")
		}
		buf[k] = byte(c.(uint64))
	}
	r, sz := utf8.DecodeRune(buf[:n])
	return uint64(uint32(r)), sz
}

// ---- range ----
type iter struct {
	m    *MapV
	keys []mapEnt
	s    Value
	i    int
}

func (fr *frame) rangeIter(v Value) Value {
	switch x := v.(type) {
	case *MapV:
		it := &iter{m: x}
		if x != nil {
			if fr.w.concMode {
				fr.w.mapAccess(fr, x, false)
			}
			for i := range x.ents {
				if !x.ents[i].del {
					it.keys = append(it.keys, x.ents[i])
				}
			}
		}
		return it
	case string, *BStr:
		return &iter{s: x}
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

func (fr *frame) next(v Value, isStr bool) Value {
	it := v.(*iter)
	w := fr.w
	if isStr {
		if it.i >= strLen(it.s) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		i := it.i
		r, n := fr.decodeRune(it.s, i)
		it.i += n
		return Tuple{true, uint64(i), r}
	}
	if w.concMode && it.m != nil {
		w.mapAccess(fr, it.m, false)
	}
	for it.i < len(it.keys) {
		e := it.keys[it.i]
		it.i++
		// still present?
		j := w.mapFind(it.m, e.k)
		if j < 0 {
			continue
		}
		return Tuple{true, e.k, w.copyVal(it.m.ents[j].v)}
	}
	return Tuple{false, nil, nil}
}

// ---- builtins ----
func (w *Worker) builtin(fr *frame, bi *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *BStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(x.len)
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			if w.concMode {
				w.mapAccess(fr, x, false)
			}
			return uint64(x.live)
		case *Agg:
			return uint64(x.n())
		case Ptr:
			return uint64(x.a.get(x.i).(*Agg).n())
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Poison:
			panic(unsupported("poison: " + x.why))
		}
		panic(unsupported(fmt.Sprintf("len of %T", args[0])))
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.cap)
		case *Agg:
			return uint64(x.n())
		case Ptr:
			return uint64(x.a.get(x.i).(*Agg).n())
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
		panic(unsupported(fmt.Sprintf("cap of %T", args[0])))
	case "append":
		var et types.Type
		if call != nil {
			et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		return w.appendVals(args[0], args[1], et)
	case "copy":
		d := args[0].(Slice)
		switch s := args[1].(type) {
		case Slice:
			n := min(d.len, s.len)
			w.copySlice(d, s, n)
			return uint64(n)
		default:
			n := min(d.len, strLen(s))
			for i := 0; i < n; i++ {
				w.setCell(d.a, d.off+i, strAt(s, i))
			}
			return uint64(n)
		}
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			if w.concMode {
				w.mapAccess(fr, m, true)
			}
			w.mapDel(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			w.mapClear(x)
		case Slice:
			if x.len > 0 {
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := 0; i < x.len; i++ {
					w.store(Ptr{x.a, x.off + i}, w.zero(et))
				}
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if bi.Name() == "max" {
				op = token.GTR
			}
			t := call.Args[0].Type()
			c := fr.binop(op, t, t, a, r)
			if fr.branch(c) {
				r = a
			}
		}
		return r
	case "close":
		w.sched.closeCh(args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		// caller is the deferred function's frame; its caller is the panicking frame
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.panicV.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.a == nil {
			w.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "String": // unsafe.String(ptr, len)
		n := int(w.concretize(args[1], "len"))
		if n == 0 {
			return ""
		}
		p := args[0].(Ptr)
		return Slice{p.a, p.i, n, n}.bytesStr()
	case "StringData":
		s := w.strBytes(args[0])
		return Ptr{s.a, 0}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.a, s.off}
	case "Slice":
		n := int(w.concretize(args[1], "len"))
		p := args[0].(Ptr)
		if p.a == nil {
			return Slice{}
		}
		return Slice{p.a, p.i, n, n}
	}
	panic(unsupported("builtin " + bi.Name()))
}

func (w *Worker) copySlice(d, s Slice, n int) {
	if n == 0 {
		return
	}
	if d.a == s.a && s.off < d.off {
		for i := n - 1; i >= 0; i-- {
			w.store(Ptr{d.a, d.off + i}, w.copyVal(s.a.get(s.off+i)))
		}
		return
	}
	for i := 0; i < n; i++ {
		w.store(Ptr{d.a, d.off + i}, w.copyVal(s.a.get(s.off+i)))
	}
}

func (w *Worker) appendVals(x, y Value, et types.Type) Value {
	s := x.(Slice)
	var ys Slice
	switch v := y.(type) {
	case Slice:
		ys = v
	case string, *BStr:
		ys = w.strBytes(v)
	default:
		panic(unsupported(fmt.Sprintf("append %T", y)))
	}
	if ys.len == 0 {
		return s
	}
	n := s.len + ys.len
	if n <= s.cap {
		w.copySlice(Slice{s.a, s.off + s.len, ys.len, ys.len}, ys, ys.len)
		return Slice{s.a, s.off, n, s.cap}
	}
	nc := growCap(s.cap, n)
	isB := (s.a != nil && s.a.isB) || (s.a == nil && ys.a.isB)
	var a *Agg
	if isB {
		a = w.newBytes(nc)
	} else {
		a = w.newAgg(nc)
		for i := n; i < nc; i++ {
			if et != nil {
				a.c[i] = w.zero(et)
			} else {
				a.c[i] = w.zeroLike(ys.a.get(ys.off))
			}
		}
	}
	for i := 0; i < s.len; i++ {
		a.put(i, w.copyVal(s.a.get(s.off+i)))
	}
	for i := 0; i < ys.len; i++ {
		a.put(s.len+i, w.copyVal(ys.a.get(ys.off+i)))
	}
	return Slice{a, 0, n, nc}
}

func (w *Worker) zeroLike(v Value) Value {
	switch v := v.(type) {
	case bool:
		return false
	case uint64:
		return uint64(0)
	case float64:
		return float64(0)
	case *Term:
		if v.fp {
			return float64(0)
		}
		if v.w == 0 {
			return false
		}
		return uint64(0)
	case string, *BStr:
		return ""
	case Ptr:
		return Ptr{}
	case Slice:
		return Slice{}
	case *MapV:
		return (*MapV)(nil)
	case *Closure:
		return (*Closure)(nil)
	case *Chan:
		return (*Chan)(nil)
	case Iface:
		return Iface{}
	case *Agg:
		n := w.copyVal(v).(*Agg)
		for i := 0; i < n.n(); i++ {
			n.put(i, w.zeroLike(n.get(i)))
		}
		return n
	}
	return v
}

// growCap mirrors the runtime's growth for small byte slices (size classes).
var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

func growCap(old, need int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	for _, c := range sizeClasses {
		if c >= nc {
			return c
		}
	}
	return nc
}
