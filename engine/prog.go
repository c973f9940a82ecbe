package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/fakeyanss/jt808-server-go"

type Program struct {
	prog  *ssa.Program
	main  *ssa.Package
	pkgs  map[string]*ssa.Package
	funcs sync.Map // *ssa.Function -> *Func
	mu    sync.Mutex
	gidx  map[*ssa.Global]int
	meths sync.Map
	errT  types.Type // runtime.errorString
	fset  *token.FileSet
	repo  string
}

func loadProgram(repo, pattern string, overlay map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs[:min(10, len(errs))], "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	p := &Program{prog: prog, main: pkgs[0], pkgs: map[string]*ssa.Package{}, gidx: map[*ssa.Global]int{}, fset: fset, repo: repo}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if rp := p.pkgs["runtime"]; rp != nil {
		p.errT = canon(rp.Type("errorString").Type())
	}
	return p, nil
}

// ---- compiled functions ----

type instr func(fr *frame)

type operand struct {
	kind uint8 // 0 reg, 1 const, 2 global
	idx  int
	v    Value
	g    *ssa.Global
}

type block struct {
	phis  []phi
	code  []instr
	pos   []token.Pos
	succs []int
	term  func(fr *frame) int // next block index, -1 return
	tpos  token.Pos
}

type phi struct {
	dst   int
	edges []operand // by pred order
}

type Func struct {
	p       *Program
	fn      *ssa.Function
	name    string
	once    sync.Once
	blocks  []block
	nregs   int
	nparams int
	nfree   int
	hasDef  bool
	recov   int
	intr    intrinsic
	err     string
	predIdx [][]int
	isRepo  bool
	results *types.Tuple
}

type frame struct {
	w         *Worker
	g         *G
	f         *Func
	regs      []Value
	caller    *frame
	block     int
	prev      int
	defers    []deferred
	panicking bool
	panicV    targetPanic
	result    Value
	done      bool
	recovered bool
	pos       token.Pos
}

type deferred struct {
	c    *Closure
	args []Value
}

func (p *Program) fn(f *ssa.Function) *Func {
	if v, ok := p.funcs.Load(f); ok {
		return v.(*Func)
	}
	nf := &Func{p: p, fn: f, name: f.String()}
	nf.isRepo = f.Package() != nil && strings.HasPrefix(f.Package().Pkg.Path(), repoMod) && !strings.Contains(f.Package().Pkg.Path(), "zzv")
	if f.Package() == nil && strings.Contains(nf.name, repoMod) && !strings.Contains(nf.name, "zzv") {
		nf.isRepo = true
	}
	nf.results = f.Signature.Results()
	v, _ := p.funcs.LoadOrStore(f, nf)
	return v.(*Func)
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.gidx)
	p.gidx[g] = i
	return i
}

// globalPtr returns the address of g, initialising its package on demand.
func (w *Worker) globalPtr(g *ssa.Global, idx int) Ptr {
	if idx < len(w.globals) && w.globals[idx].a != nil {
		return w.globals[idx]
	}
	w.initPkg(g.Pkg)
	return w.allocGlobal(g, idx)
}

func (w *Worker) allocGlobal(g *ssa.Global, idx int) Ptr {
	for idx >= len(w.globals) {
		w.globals = append(w.globals, make([]Ptr, idx+64-len(w.globals))...)
	}
	if w.globals[idx].a == nil {
		save := w.epoch
		w.epoch = 0
		a := w.newAgg(1)
		a.c[0] = w.zero(g.Type().(*types.Pointer).Elem())
		w.epoch = save
		w.globals[idx] = Ptr{a, 0}
	}
	return w.globals[idx]
}

var noInit = map[string]bool{"runtime": true, "unsafe": true, "internal/cpu": true, "internal/godebug": true, "reflect": true, "internal/abi": true, "internal/runtime/atomic": true}

// initPkg runs the package's initialiser tolerantly.
func (w *Worker) initPkg(pkg *ssa.Package) {
	if w.pkgInit[pkg] != 0 {
		return
	}
	w.pkgInit[pkg] = 1
	if noInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "internal/runtime") || strings.Contains(pkg.Pkg.Path(), "rs/zerolog") {
		return
	}
	f := pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	se, si, sp, ss := w.epoch, w.inInit, w.lastPos, w.steps
	w.epoch, w.inInit = 0, true
	cur := w.sched.cur
	defer func() {
		w.epoch, w.inInit, w.lastPos = se, si, sp
		w.steps = ss
		w.sched.cur = cur
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				if debugOn {
					fmt.Fprintln(os.Stderr, "init of", pkg.Pkg.Path(), "incomplete:", u.msg)
				}
				return
			}
			if tp, ok := r.(targetPanic); ok {
				if debugOn {
					fmt.Fprintln(os.Stderr, "init of", pkg.Pkg.Path(), "panicked:", showVal(tp.v))
				}
				return
			}
			panic(r)
		}
	}()
	fc := w.p.fn(f)
	w.runInit(fc)
}

// runInit executes an init function, poisoning results of failing instructions.
func (w *Worker) runInit(fc *Func) {
	fc.compile()
	if fc.err != "" {
		panic(unsupported(fc.err))
	}
	fr := &frame{w: w, g: w.sched.cur, f: fc, regs: make([]Value, fc.nregs)}
	// skip guard: entry block branches on init$guard (false) -> init.start
	for {
		blk := &fc.blocks[fr.block]
		w.doPhis(fr, blk)
		for i, in := range blk.code {
			fr.pos = blk.pos[i]
			w.tolerant(fr, in, fc, fr.block, i)
		}
		nxt := -1
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsup); ok {
						panic(unsupported("init control flow: " + u.msg))
					}
					panic(r)
				}
			}()
			nxt = blk.term(fr)
		}()
		if nxt < 0 {
			return
		}
		fr.prev, fr.block = fr.block, nxt
	}
}

func (w *Worker) tolerant(fr *frame, in instr, fc *Func, bi, ii int) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch u := r.(type) {
			case unsup:
				msg = u.msg
			case targetPanic:
				msg = "panic " + showVal(u.v)
			default:
				panic(r)
			}
			// poison destination register
			if v, ok := fc.dst(bi, ii); ok {
				fr.regs[v] = Poison{msg}
			}
			if debugOn {
				fmt.Fprintln(os.Stderr, "init", fc.name, ":", msg)
			}
		}
	}()
	in(fr)
}

// dst finds the destination register of instruction ii of block bi (init only).
func (f *Func) dst(bi, ii int) (int, bool) {
	d := f.dsts(bi)
	if ii < len(d) && d[ii] >= 0 {
		return d[ii], true
	}
	return 0, false
}

var dstCache sync.Map

func (f *Func) dsts(bi int) []int {
	type key struct {
		f *Func
		b int
	}
	if v, ok := dstCache.Load(key{f, bi}); ok {
		return v.([]int)
	}
	reg := f.regMap()
	var out []int
	b := f.fn.Blocks[bi]
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.DebugRef:
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			out = append(out, reg[v])
		} else {
			out = append(out, -1)
		}
	}
	dstCache.Store(key{f, bi}, out)
	return out
}

func (f *Func) regMap() map[ssa.Value]int {
	reg := map[ssa.Value]int{}
	n := 0
	for _, p := range f.fn.Params {
		reg[p] = n
		n++
	}
	for _, p := range f.fn.FreeVars {
		reg[p] = n
		n++
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	f.nregs = n
	return reg
}

func (f *Func) compile() {
	f.once.Do(func() {
		f.intr = lookupIntrinsic(f.fn, f.name)
		if f.intr != nil {
			return
		}
		if f.fn.Blocks == nil {
			f.err = "no body: " + f.name
			return
		}
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					f.err = u.msg
					return
				}
				panic(r)
			}
		}()
		reg := f.regMap()
		f.nparams = len(f.fn.Params)
		f.nfree = len(f.fn.FreeVars)
		f.recov = -1
		if f.fn.Recover != nil {
			f.recov = f.fn.Recover.Index
		}
		f.blocks = make([]block, len(f.fn.Blocks))
		c := &compiler{f: f, reg: reg, p: f.p}
		for i, b := range f.fn.Blocks {
			blk := &f.blocks[i]
			for _, s := range b.Succs {
				blk.succs = append(blk.succs, s.Index)
			}
			for _, in := range b.Instrs {
				c.instr(blk, b, in)
			}
			if blk.term == nil {
				// block ends in panic handled by term
				panic(unsupported("block without terminator in " + f.name))
			}
		}
	})
}

type compiler struct {
	f   *Func
	reg map[ssa.Value]int
	p   *Program
}

func (c *compiler) op(v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{kind: 1, v: constVal(v)}
	case *ssa.Global:
		return operand{kind: 2, g: v, idx: c.p.globalIdx(v)}
	case *ssa.Function:
		return operand{kind: 1, v: &Closure{fn: c.p.fn(v)}}
	case *ssa.Builtin:
		return operand{kind: 1, v: &Closure{bi: v}}
	}
	i, ok := c.reg[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("operand %T %s", v, v)))
	}
	return operand{kind: 0, idx: i}
}

func (o *operand) get(fr *frame) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		if z, ok := o.v.(zeroAgg); ok {
			return fr.w.zero(z.t)
		}
		return o.v
	}
	return fr.w.globalPtr(o.g, o.idx)
}

type zeroAgg struct{ t types.Type }

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return zeroAgg{t}
		case *types.TypeParam:
			panic(unsupported("typeparam const"))
		}
		return (&Worker{}).zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if isSigned(t) {
			return uint64(c.Int64()) & mask(widthOf(t))
		}
		return c.Uint64() & mask(widthOf(t))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	panic(unsupported("const " + c.String()))
}

func widthOf(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("width of " + t.String()))
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
		return 32
	case types.Bool, types.UntypedBool:
		return 0
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	if r, err := filepath.Rel(p.repo, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, ps.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}
