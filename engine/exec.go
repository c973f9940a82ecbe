package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

func (w *Worker) rtPanic(msg string) {
	panic(targetPanic{Iface{w.p.errT, msg}})
}

func (w *Worker) doPhis(fr *frame, blk *block) {
	if len(blk.phis) == 0 {
		return
	}
	pi := fr.f.predOf(fr.block, fr.prev)
	if len(blk.phis) == 1 {
		ph := &blk.phis[0]
		fr.regs[ph.dst] = ph.edges[pi].get(fr)
		return
	}
	tmp := make([]Value, len(blk.phis))
	for i := range blk.phis {
		tmp[i] = blk.phis[i].edges[pi].get(fr)
	}
	for i := range blk.phis {
		fr.regs[blk.phis[i].dst] = tmp[i]
	}
}

func (f *Func) predOf(b, prev int) int {
	for i, p := range f.fn.Blocks[b].Preds {
		if p.Index == prev {
			return i
		}
	}
	return 0
}

const maxDepth = 2000

// call invokes a closure.
func (w *Worker) call(caller *frame, c *Closure, args []Value) Value {
	if c == nil {
		w.nilDeref()
	}
	if c.bi != nil {
		return w.builtin(caller, c.bi, args, nil)
	}
	if c.nat != nil {
		return c.nat(w, caller, args)
	}
	return w.callFn(caller, c.fn, args, c.env)
}

func (w *Worker) callFn(caller *frame, f *Func, args, env []Value) Value {
	f.compile()
	if f.intr != nil {
		return f.intr(w, caller, f, args)
	}
	if f.err != "" {
		panic(unsupported(f.err))
	}
	if f.isRepo {
		w.noteFunc(f)
	}
	g := w.sched.cur
	g.depth++
	if g.depth > maxDepth {
		g.depth = 0
		panic(unsupported("call depth in " + f.name))
	}
	fr := &frame{w: w, g: g, f: f, caller: caller, regs: make([]Value, f.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	if f.hasDef {
		for !fr.done {
			w.runFrameProtected(fr)
		}
	} else {
		w.runFrame(fr)
	}
	g.depth--
	return fr.result
}

func (w *Worker) noteFunc(f *Func) {
	if w.scratch["f:"+f.name] == nil {
		w.scratch["f:"+f.name] = true
		w.ex.mu.Lock()
		w.ex.Funcs[f] = true
		w.ex.mu.Unlock()
	}
}

func (w *Worker) runFrameProtected(fr *frame) {
	depth := fr.g.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.g.depth = depth
		fr.panicking = true
		fr.panicV = tp
		w.runDefers(fr)
		// recovered (otherwise runDefers re-panicked)
		if fr.f.recov >= 0 {
			fr.prev, fr.block = -1, fr.f.recov
		} else {
			fr.result = w.zeroResult(fr.f)
			fr.done = true
		}
	}()
	w.runFrame(fr)
}

func (w *Worker) zeroResult(f *Func) Value {
	switch f.results.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(f.results.At(0).Type())
	}
	return w.zero(f.results)
}

// runDefers runs pending defers; re-panics if still panicking.
func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := fr.g.depth
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, isT := r.(targetPanic)
				if !isT {
					panic(r)
				}
				fr.g.depth = depth
				fr.panicking = true
				fr.panicV = tp
			}()
			w.call(fr, d.c, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (w *Worker) runFrame(fr *frame) {
	f := fr.f
	for {
		blk := &f.blocks[fr.block]
		w.steps += int64(len(blk.code)) + 1
		if w.steps > w.maxSteps {
			panic(pathEnd{"steps"})
		}
		if w.steps>>17 != w.tick {
			w.tick = w.steps >> 17
			if w.abort && w.expired() {
				panic(pathEnd{"time-unknown"})
			}
		}
		w.doPhis(fr, blk)
		for i, in := range blk.code {
			fr.pos = blk.pos[i]
			in(fr)
		}
		fr.pos = blk.tpos
		nxt := blk.term(fr)
		if nxt < 0 {
			fr.done = true
			return
		}
		fr.prev, fr.block = fr.block, nxt
	}
}

// branchFr branches with position info.
func (fr *frame) branch(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	fr.w.lastPos = fr.f.p.posStr(fr.pos)
	return fr.w.branch(v, "if")
}

// idx resolves an index value to a concrete int within [0,n): bounds checked,
// forks when symbolic.
func (fr *frame) index(v Value, t types.Type, n int, what string) int {
	w := fr.w
	switch x := v.(type) {
	case uint64:
		i := sxt(x, t)
		if i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		if !fr.inRange(x, t, n) {
			w.rtPanic("index out of range")
		}
		return int(w.concretize(x, what))
	}
	panic(unsupported(fmt.Sprintf("index %T", v)))
}

// inRange branches on 0<=x<n.
func (fr *frame) inRange(x *Term, t types.Type, n int) bool {
	w := fr.w
	wd := x.w
	if n == 0 {
		return false
	}
	if wd < 64 && uint64(n) > mask(wd) {
		if isSigned(t) {
			return fr.branch(w.norm(w.b.Not(w.b.Slt(x, w.b.Const(0, wd)))))
		}
		return true
	}
	// unsigned compare covers negatives
	return fr.branch(w.norm(w.b.Ult(x, w.b.Const(uint64(n), wd))))
}

func sxt(x uint64, t types.Type) int64 {
	wd := widthOf(t)
	if isSigned(t) {
		return int64(x<<(64-wd)) >> (64 - wd)
	}
	if wd == 64 && x > 1<<62 {
		return 1 << 62
	}
	return int64(x)
}

// size resolves a (possibly symbolic) length argument.
func (fr *frame) size(v Value, t types.Type) int64 {
	switch x := v.(type) {
	case uint64:
		return sxt(x, t)
	case *Term:
		fr.w.lastPos = fr.f.p.posStr(fr.pos)
		return sxt(fr.w.concretize(x, "size"), t)
	}
	panic(unsupported(fmt.Sprintf("size %T", v)))
}

func (c *compiler) add(blk *block, in ssa.Instruction, f instr) {
	blk.code = append(blk.code, f)
	blk.pos = append(blk.pos, in.Pos())
}

func (c *compiler) instr(blk *block, b *ssa.BasicBlock, in ssa.Instruction) {
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		ph := phi{dst: dst}
		for _, e := range in.Edges {
			ph.edges = append(ph.edges, c.op(e))
		}
		blk.phis = append(blk.phis, ph)
	case *ssa.Jump:
		n := b.Succs[0].Index
		blk.term = func(fr *frame) int { return n }
		blk.tpos = in.Pos()
	case *ssa.If:
		cond := c.op(in.Cond)
		t, e := b.Succs[0].Index, b.Succs[1].Index
		blk.term = func(fr *frame) int {
			if fr.branch(cond.get(fr)) {
				return t
			}
			return e
		}
		blk.tpos = in.Cond.Pos()
	case *ssa.Return:
		blk.tpos = in.Pos()
		switch len(in.Results) {
		case 0:
			blk.term = func(fr *frame) int { return -1 }
		case 1:
			r := c.op(in.Results[0])
			blk.term = func(fr *frame) int { fr.result = r.get(fr); return -1 }
		default:
			ops := make([]operand, len(in.Results))
			for i, r := range in.Results {
				ops[i] = c.op(r)
			}
			blk.term = func(fr *frame) int {
				tp := make(Tuple, len(ops))
				for i := range ops {
					tp[i] = ops[i].get(fr)
				}
				fr.result = tp
				return -1
			}
		}
	case *ssa.Panic:
		x := c.op(in.X)
		blk.tpos = in.Pos()
		blk.term = func(fr *frame) int {
			v := x.get(fr).(Iface)
			if v.t == nil {
				fr.w.rtPanic("panic called with nil argument")
			}
			panic(targetPanic{v})
		}
	case *ssa.RunDefers:
		c.f.hasDef = true
		c.add(blk, in, func(fr *frame) { fr.w.runDefers(fr) })
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		c.add(blk, in, func(fr *frame) {
			a := fr.w.newAgg(1)
			a.c[0] = fr.w.zero(et)
			fr.regs[dst] = Ptr{a, 0}
		})
	case *ssa.Store:
		ad, v := c.op(in.Addr), c.op(in.Val)
		c.add(blk, in, func(fr *frame) {
			p, ok := ad.get(fr).(Ptr)
			if !ok {
				panic(unsupported("store through " + showVal(ad.get(fr))))
			}
			if p.a == nil {
				fr.w.nilDeref()
			}
			if fr.w.concMode {
				fr.w.sharedAccess(fr, p, true)
			}
			fr.w.store(p, v.get(fr))
		})
	case *ssa.UnOp:
		c.unop(blk, in, dst)
	case *ssa.BinOp:
		x, y := c.op(in.X), c.op(in.Y)
		op, xt, yt := in.Op, in.X.Type(), in.Y.Type()
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.binop(op, xt, yt, x.get(fr), y.get(fr)) })
	case *ssa.Call:
		c.call(blk, in, &in.Call, dst)
	case *ssa.Defer:
		c.f.hasDef = true
		prep := c.prep(&in.Call)
		c.add(blk, in, func(fr *frame) {
			cl, args := prep(fr)
			fr.defers = append(fr.defers, deferred{cl, args})
		})
	case *ssa.Go:
		prep := c.prep(&in.Call)
		c.add(blk, in, func(fr *frame) {
			cl, args := prep(fr)
			fr.w.sched.spawn(cl, args)
		})
	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := canon(in.X.Type())
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = Iface{t, x.get(fr)} })
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = x.get(fr) })
	case *ssa.ChangeType:
		x := c.op(in.X)
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = x.get(fr) })
	case *ssa.Convert:
		x := c.op(in.X)
		from, to := in.X.Type(), in.Type()
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.convert(x.get(fr), from, to) })
	case *ssa.MultiConvert:
		x := c.op(in.X)
		from, to := in.X.Type(), in.Type()
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.convert(x.get(fr), from, to) })
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		c.add(blk, in, func(fr *frame) {
			s := x.get(fr).(Slice)
			if int64(s.len) < n {
				fr.w.rtPanic("cannot convert slice to array pointer: length too short")
			}
			panic(unsupported("slice to array pointer"))
		})
	case *ssa.MakeClosure:
		fn := c.p.fn(in.Fn.(*ssa.Function))
		ops := make([]operand, len(in.Bindings))
		for i, bd := range in.Bindings {
			ops[i] = c.op(bd)
		}
		c.add(blk, in, func(fr *frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = ops[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		})
	case *ssa.MakeSlice:
		ln, cp := c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lt, ct := in.Len.Type(), in.Cap.Type()
		c.add(blk, in, func(fr *frame) {
			n, m := fr.size(ln.get(fr), lt), fr.size(cp.get(fr), ct)
			if n < 0 || n > 1<<31 {
				fr.w.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<31 {
				fr.w.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<24 {
				panic(unsupported("huge makeslice"))
			}
			a := fr.w.newArray(et, int(m))
			fr.regs[dst] = Slice{a, 0, int(n), int(m)}
		})
	case *ssa.MakeMap:
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.w.newMap() })
	case *ssa.MakeChan:
		sz := c.op(in.Size)
		st := in.Size.Type()
		c.add(blk, in, func(fr *frame) {
			fr.regs[dst] = &Chan{cap: int(fr.size(sz.get(fr), st)), zero: fr.w.zero(in.Type().Underlying().(*types.Chan).Elem())}
		})
	case *ssa.Slice:
		c.slice(blk, in, dst)
	case *ssa.FieldAddr:
		x := c.op(in.X)
		fi := in.Field
		c.add(blk, in, func(fr *frame) {
			p, ok := x.get(fr).(Ptr)
			if !ok {
				panic(unsupported("fieldaddr of " + showVal(x.get(fr))))
			}
			if p.a == nil {
				fr.w.nilDeref()
			}
			s, ok := p.a.get(p.i).(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("fieldaddr into %T", p.a.get(p.i))))
			}
			fr.regs[dst] = Ptr{s, fi}
		})
	case *ssa.Field:
		x := c.op(in.X)
		fi := in.Field
		c.add(blk, in, func(fr *frame) {
			v := x.get(fr)
			a, ok := v.(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of %T", v)))
			}
			fr.regs[dst] = a.get(fi)
		})
	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		it := in.Index.Type()
		// load of a symbolic index handled lazily: IndexAddr followed by single load
		if ld := soleLoad(in); ld != nil {
			ew := elemWidth(ld.Type())
			c.add(blk, in, func(fr *frame) {
				if t, ok := ix.get(fr).(*Term); ok {
					if v, ok := fr.symLoad(x.get(fr), t, it, ew); ok {
						fr.regs[dst] = symAddr{v}
						return
					}
				}
				fr.regs[dst] = fr.indexAddr(x.get(fr), ix.get(fr), it)
			})
			break
		}
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.indexAddr(x.get(fr), ix.get(fr), it) })
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		it := in.Index.Type()
		ew := elemWidth(in.Type())
		c.add(blk, in, func(fr *frame) {
			w := fr.w
			switch v := x.get(fr).(type) {
			case string, *BStr:
				if t, ok := ix.get(fr).(*Term); ok {
					if r, ok := fr.symLoad(v, t, it, 8); ok {
						fr.regs[dst] = r
						return
					}
				}
				i := fr.index(ix.get(fr), it, strLen(v), "index")
				fr.regs[dst] = strAt(v, i)
			case *Agg:
				if t, ok := ix.get(fr).(*Term); ok {
					if r, ok := fr.symLoadAgg(v, 0, v.n(), t, it, ew); ok {
						fr.regs[dst] = r
						return
					}
				}
				i := fr.index(ix.get(fr), it, v.n(), "index")
				fr.regs[dst] = w.copyVal(v.get(i))
			default:
				panic(unsupported(fmt.Sprintf("index of %T", v)))
			}
		})
	case *ssa.Lookup:
		c.lookup(blk, in, dst)
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		c.add(blk, in, func(fr *frame) {
			mv := m.get(fr).(*MapV)
			if fr.w.concMode && mv != nil {
				fr.w.mapAccess(fr, mv, true)
			}
			fr.w.lastPos = fr.f.p.posStr(fr.pos)
			fr.w.mapSet(mv, k.get(fr), v.get(fr))
		})
	case *ssa.Range:
		x := c.op(in.X)
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.rangeIter(x.get(fr)) })
	case *ssa.Next:
		it := c.op(in.Iter)
		isStr := in.IsString
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.next(it.get(fr), isStr) })
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		c.add(blk, in, func(fr *frame) {
			v := x.get(fr)
			t, ok := v.(Tuple)
			if !ok {
				if p, ok := v.(Poison); ok {
					fr.regs[dst] = p
					return
				}
				panic(unsupported(fmt.Sprintf("extract from %T", v)))
			}
			fr.regs[dst] = t[i]
		})
	case *ssa.TypeAssert:
		c.typeAssert(blk, in, dst)
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		c.add(blk, in, func(fr *frame) { fr.w.sched.send(ch.get(fr).(*Chan), x.get(fr)) })
	case *ssa.Select:
		c.sel(blk, in, dst)
	default:
		msg := fmt.Sprintf("instruction %T in %s", in, c.f.name)
		c.add(blk, in, func(fr *frame) { panic(unsupported(msg)) })
	}
}

// symAddr is the "address" produced by an IndexAddr with symbolic index whose
// only use is a load.
type symAddr struct{ v Value }

// elemWidth is the width of an integer element, 0 for others.
func elemWidth(t types.Type) uint8 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return uint8(widthOf(t))
	}
	return 0
}

func soleLoad(in *ssa.IndexAddr) *ssa.UnOp {
	refs := in.Referrers()
	if refs == nil {
		return nil
	}
	var ld *ssa.UnOp
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL || ld != nil {
				return nil
			}
			ld = r
		default:
			return nil
		}
	}
	return ld
}

// symLoad handles loads at a symbolic index without concretising it.
func (fr *frame) symLoad(x Value, t *Term, it types.Type, ew uint8) (Value, bool) {
	w := fr.w
	switch v := x.(type) {
	case string, *BStr:
		n := strLen(v)
		if !fr.inRange(t, it, n) {
			w.rtPanic("index out of range")
		}
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = strAt(v, i)
		}
		return fr.tableOf(vals, t, 8)
	case Slice:
		if v.a == nil {
			return nil, false
		}
		return fr.symLoadAgg(v.a, v.off, v.len, t, it, ew)
	case Ptr:
		if v.a == nil {
			return nil, false
		}
		a, ok := v.a.get(v.i).(*Agg)
		if !ok {
			return nil, false
		}
		return fr.symLoadAgg(a, 0, a.n(), t, it, ew)
	}
	return nil, false
}

func (fr *frame) symLoadAgg(a *Agg, off, n int, t *Term, it types.Type, ew uint8) (Value, bool) {
	w := fr.w
	if n == 0 || n > 70000 {
		return nil, false
	}
	var wd uint8
	var vals []Value
	if a.isB {
		wd = 8
		vals = make([]Value, n)
		for i := range vals {
			vals[i] = a.get(off + i)
		}
	} else {
		vals = a.c[off : off+n]
		for _, v := range vals {
			switch v := v.(type) {
			case uint64, bool:
			case *Term:
				wd = v.w
			default:
				return nil, false
			}
		}
		if wd == 0 {
			wd = ew
		}
		if wd == 0 {
			return nil, false
		}
	}
	if !fr.inRange(t, it, n) {
		w.rtPanic("index out of range")
	}
	return fr.tableOf(vals, t, wd)
}

func (fr *frame) tableOf(vals []Value, t *Term, wd uint8) (Value, bool) {
	w := fr.w
	lo, hi := 0, len(vals)-1
	if t.lo > uint64(lo) {
		lo = int(t.lo)
	}
	if t.hi < uint64(hi) {
		hi = int(t.hi)
	}
	allC := true
	for i := lo; i <= hi; i++ {
		if _, ok := vals[i].(*Term); ok {
			allC = false
			break
		}
	}
	if allC {
		if len(t.sup) == 1 && w.b.vars[t.sup[0]].w == 8 {
			if fn := w.b.fnOf(t); fn != nil { // a function of one byte
				tab := make([]uint64, 256)
				for x := range tab {
					if i := fn[x]; i < uint64(len(vals)) {
						switch v := vals[i].(type) {
						case uint64:
							tab[x] = v
						case bool:
							tab[x] = b2u(v)
						}
					}
				}
				return w.norm(w.b.Table(w.b.vars[t.sup[0]], tab, wd)), true
			}
		}
		if len(vals) > 4096 {
			return nil, false
		}
		tab := make([]uint64, len(vals))
		for i := range vals {
			switch v := vals[i].(type) {
			case uint64:
				tab[i] = v
			case bool:
				tab[i] = b2u(v)
			}
		}
		// clip index width
		return w.norm(w.b.Table(t, tab, wd)), true
	}
	if hi-lo > 64 {
		return nil, false
	}
	r := w.term(vals[hi], wd)
	for i := hi - 1; i >= lo; i-- {
		r = w.b.Ite(w.b.Eq(t, w.b.Const(uint64(i), t.w)), w.term(vals[i], wd), r)
	}
	return w.norm(r), true
}

func (fr *frame) indexAddr(x, ix Value, it types.Type) Value {
	w := fr.w
	fr.w.lastPos = "" // set lazily by callers
	switch v := x.(type) {
	case Slice:
		i := fr.index(ix, it, v.len, "index")
		return Ptr{v.a, v.off + i}
	case Ptr:
		if v.a == nil {
			w.nilDeref()
		}
		a := v.a.get(v.i).(*Agg)
		i := fr.index(ix, it, a.n(), "index")
		return Ptr{a, i}
	case Poison:
		panic(unsupported("poison: " + v.why))
	}
	panic(unsupported(fmt.Sprintf("indexaddr %T", x)))
}

func (c *compiler) unop(blk *block, in *ssa.UnOp, dst int) {
	x := c.op(in.X)
	t := in.X.Type()
	switch in.Op {
	case token.MUL:
		c.add(blk, in, func(fr *frame) {
			v := x.get(fr)
			switch p := v.(type) {
			case Ptr:
				if p.a == nil {
					fr.w.nilDeref()
				}
				if fr.w.concMode {
					fr.w.sharedAccess(fr, p, false)
				}
				fr.regs[dst] = fr.w.load(p)
			case symAddr:
				fr.regs[dst] = p.v
			case Poison:
				panic(unsupported("poison: " + p.why))
			default:
				panic(unsupported(fmt.Sprintf("load through %T", v)))
			}
		})
	case token.NOT:
		c.add(blk, in, func(fr *frame) { fr.regs[dst] = fr.w.notVal(x.get(fr)) })
	case token.SUB:
		wd := widthOf(t)
		fl := isFloat(t)
		c.add(blk, in, func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[dst] = -v & mask(wd)
			case float64:
				fr.regs[dst] = -v
			case *Term:
				if fl {
					fr.regs[dst] = fr.w.norm(fr.w.b.mk(&Term{op: OFNeg, fp: true, w: v.w, args: []*Term{v}}))
				} else {
					fr.regs[dst] = fr.w.norm(fr.w.b.Neg(v))
				}
			default:
				panic(unsupported(fmt.Sprintf("neg %T", v)))
			}
		})
	case token.XOR:
		wd := widthOf(t)
		c.add(blk, in, func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[dst] = ^v & mask(wd)
			case *Term:
				fr.regs[dst] = fr.w.norm(fr.w.b.NotBV(v))
			default:
				panic(unsupported(fmt.Sprintf("compl %T", v)))
			}
		})
	case token.ARROW:
		co := in.CommaOk
		c.add(blk, in, func(fr *frame) {
			v, ok := fr.w.sched.recv(x.get(fr).(*Chan))
			if co {
				fr.regs[dst] = Tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		})
	default:
		panic(unsupported("unop " + in.Op.String()))
	}
}

func (c *compiler) slice(blk *block, in *ssa.Slice, dst int) {
	x := c.op(in.X)
	var lo, hi, mx operand
	hasLo, hasHi, hasMx := in.Low != nil, in.High != nil, in.Max != nil
	var lt, ht, mt types.Type
	if hasLo {
		lo, lt = c.op(in.Low), in.Low.Type()
	}
	if hasHi {
		hi, ht = c.op(in.High), in.High.Type()
	}
	if hasMx {
		mx, mt = c.op(in.Max), in.Max.Type()
	}
	c.add(blk, in, func(fr *frame) {
		w := fr.w
		v := x.get(fr)
		var ln, cp int
		var a *Agg
		off := 0
		isS := false
		switch s := v.(type) {
		case string, *BStr:
			ln = strLen(s)
			cp = ln
			isS = true
		case Slice:
			ln, cp, a, off = s.len, s.cap, s.a, s.off
		case Ptr:
			if s.a == nil {
				w.nilDeref()
			}
			a = s.a.get(s.i).(*Agg)
			ln = a.n()
			cp = ln
		case Poison:
			panic(unsupported("poison: " + s.why))
		default:
			panic(unsupported(fmt.Sprintf("slice of %T", v)))
		}
		l, h, m := int64(0), int64(ln), int64(cp)
		if hasMx {
			m = fr.bound(mx.get(fr), mt, int64(cp))
		}
		if hasHi {
			lim := m
			h = fr.bound(hi.get(fr), ht, lim)
		}
		if hasLo {
			l = fr.bound(lo.get(fr), lt, h)
		}
		if l < 0 || h < l || m < h || m > int64(cp) {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
		}
		if isS {
			fr.regs[dst] = strSlice(v, int(l), int(h))
			return
		}
		fr.regs[dst] = Slice{a, off + int(l), int(h - l), int(m - l)}
	})
}

// bound resolves a slice bound: symbolic values fork once on the out-of-range
// side, then over feasible values.
func (fr *frame) bound(v Value, t types.Type, lim int64) int64 {
	switch x := v.(type) {
	case uint64:
		return sxt(x, t)
	case *Term:
		fr.w.lastPos = fr.f.p.posStr(fr.pos)
		if !fr.inRange(x, t, int(lim)+1) {
			fr.w.rtPanic("slice bounds out of range")
		}
		return int64(fr.w.concretize(x, "bound"))
	}
	panic(unsupported(fmt.Sprintf("bound %T", v)))
}

func (c *compiler) lookup(blk *block, in *ssa.Lookup, dst int) {
	x, k := c.op(in.X), c.op(in.Index)
	co := in.CommaOk
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		it := in.Index.Type()
		c.add(blk, in, func(fr *frame) {
			v := x.get(fr)
			if t, ok := k.get(fr).(*Term); ok {
				if r, ok := fr.symLoad(v, t, it, 8); ok {
					fr.regs[dst] = r
					return
				}
			}
			i := fr.index(k.get(fr), it, strLen(v), "index")
			fr.regs[dst] = strAt(v, i)
		})
		return
	}
	et := mt.Elem()
	c.add(blk, in, func(fr *frame) {
		w := fr.w
		mv := x.get(fr)
		m, ok := mv.(*MapV)
		if !ok {
			panic(unsupported(fmt.Sprintf("lookup in %s", showVal(mv))))
		}
		if w.concMode && m != nil {
			w.mapAccess(fr, m, false)
		}
		w.lastPos = fr.f.p.posStr(fr.pos)
		i := w.mapFind(m, k.get(fr))
		var r Value
		if i >= 0 {
			r = w.copyVal(m.ents[i].v)
		} else {
			r = w.zero(et)
		}
		if co {
			fr.regs[dst] = Tuple{r, i >= 0}
		} else {
			fr.regs[dst] = r
		}
	})
}

func (c *compiler) typeAssert(blk *block, in *ssa.TypeAssert, dst int) {
	x := c.op(in.X)
	at := canon(in.AssertedType)
	iface, isI := at.Underlying().(*types.Interface)
	co := in.CommaOk
	c.add(blk, in, func(fr *frame) {
		w := fr.w
		v, ok := x.get(fr).(Iface)
		if !ok {
			panic(unsupported("typeassert on " + showVal(x.get(fr))))
		}
		good := false
		var r Value
		if v.t != nil {
			if isI {
				good = implements(v.t, iface)
				r = v
			} else {
				good = v.t == at
				r = v.v
			}
		}
		if !good {
			if !co {
				from := "nil"
				if v.t != nil {
					from = v.t.String()
				}
				w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", from, at))
			}
			r = w.zero(at)
		}
		if _, isA := r.(*Agg); isA {
			r = w.copyVal(r)
		}
		if co {
			fr.regs[dst] = Tuple{r, good}
		} else {
			fr.regs[dst] = r
		}
	})
}

var implCache = newSyncMap()

func implements(t types.Type, i *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	if v, ok := implCache.Load(key{t, i}); ok {
		return v.(bool)
	}
	canonMu.Lock()
	r := types.Implements(t, i)
	canonMu.Unlock()
	implCache.Store(key{t, i}, r)
	return r
}

// prep evaluates callee and args.
func (c *compiler) prep(call *ssa.CallCommon) func(fr *frame) (*Closure, []Value) {
	ops := make([]operand, len(call.Args))
	for i, a := range call.Args {
		ops[i] = c.op(a)
	}
	if call.IsInvoke() {
		recv := c.op(call.Value)
		m := call.Method
		return func(fr *frame) (*Closure, []Value) {
			rv, ok := recv.get(fr).(Iface)
			if !ok {
				panic(unsupported("invoke on " + showVal(recv.get(fr))))
			}
			if rv.t == nil {
				fr.w.nilDeref()
			}
			args := make([]Value, len(ops)+1)
			args[0] = fr.w.copyVal(rv.v)
			for i := range ops {
				args[i+1] = ops[i].get(fr)
			}
			if nc, ok := rv.v.(*nativeObj); ok {
				meth := nc.m[m.Name()]
				if meth == nil {
					panic(unsupported("native method " + m.Name()))
				}
				return &Closure{nat: meth}, args
			}
			return fr.w.p.method(rv.t, m), args
		}
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		cl := &Closure{bi: f}
		return func(fr *frame) (*Closure, []Value) {
			args := make([]Value, len(ops))
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			return cl, args
		}
	}
	fv := c.op(call.Value)
	return func(fr *frame) (*Closure, []Value) {
		args := make([]Value, len(ops))
		for i := range ops {
			args[i] = ops[i].get(fr)
		}
		v := fv.get(fr)
		cl, ok := v.(*Closure)
		if !ok {
			panic(unsupported("call of " + showVal(v)))
		}
		return cl, args
	}
}

type nativeObj struct {
	m map[string]func(w *Worker, fr *frame, args []Value) Value
}

func (p *Program) method(t types.Type, m *types.Func) *Closure {
	type key struct {
		t types.Type
		m string
	}
	k := key{t, m.Id()}
	if v, ok := p.meths.Load(k); ok {
		return v.(*Closure)
	}
	p.mu.Lock()
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.mu.Unlock()
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	cl := &Closure{fn: p.fn(f)}
	p.meths.Store(k, cl)
	return cl
}

// methodByName finds a method of dynamic type t by name (nil if none).
func (p *Program) methodByName(t types.Type, name string) *Closure {
	type key struct {
		t types.Type
		m string
	}
	k := key{t, "byname:" + name}
	if v, ok := p.meths.Load(k); ok {
		return v.(*Closure)
	}
	var cl *Closure
	p.mu.Lock()
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if f := p.prog.MethodValue(ms.At(i)); f != nil {
				cl = &Closure{fn: p.fn(f)}
			}
		}
	}
	p.mu.Unlock()
	p.meths.Store(k, cl)
	return cl
}

func (c *compiler) call(blk *block, in *ssa.Call, call *ssa.CallCommon, dst int) {
	if bi, ok := call.Value.(*ssa.Builtin); ok && !call.IsInvoke() {
		ops := make([]operand, len(call.Args))
		for i, a := range call.Args {
			ops[i] = c.op(a)
		}
		c.add(blk, in, func(fr *frame) {
			args := make([]Value, len(ops))
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			fr.regs[dst] = fr.w.builtin(fr, bi, args, call)
		})
		return
	}
	// direct
	if sf, ok := call.Value.(*ssa.Function); ok {
		fn := c.p.fn(sf)
		ops := make([]operand, len(call.Args))
		for i, a := range call.Args {
			ops[i] = c.op(a)
		}
		c.add(blk, in, func(fr *frame) {
			args := make([]Value, len(ops))
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			fr.regs[dst] = fr.w.callFn(fr, fn, args, nil)
		})
		return
	}
	prep := c.prep(call)
	c.add(blk, in, func(fr *frame) {
		cl, args := prep(fr)
		fr.regs[dst] = fr.w.call(fr, cl, args)
	})
}

func (c *compiler) sel(blk *block, in *ssa.Select, dst int) {
	type st struct {
		ch, val operand
		send    bool
		et      types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.val = c.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	c.add(blk, in, func(fr *frame) {
		cases := make([]selCase, len(sts))
		for i := range sts {
			cases[i] = selCase{ch: sts[i].ch.get(fr).(*Chan), send: sts[i].send}
			if sts[i].send {
				cases[i].val = sts[i].val.get(fr)
			}
		}
		chosen, v, ok := fr.w.sched.sel(cases, blocking)
		tp := Tuple{uint64(int64(chosen)), ok}
		for i := range sts {
			if !sts[i].send {
				if i == chosen {
					tp = append(tp, v)
				} else {
					tp = append(tp, fr.w.zero(sts[i].et))
				}
			}
		}
		fr.regs[dst] = tp
	})
}
