package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okNone opKind = iota
	okSlot
	okConst
	okGlobal
)

type opnd struct {
	kind opKind
	slot int32
	k    Value
	g    *globalState
}

type insn struct {
	i    ssa.Instruction
	dst  int32
	ops  []opnd
	site uint32
}

type fnCode struct {
	fn       *ssa.Function
	name     string
	nslots   int
	blocks   [][]insn
	regions  []*region
	params   []int32
	frees    []int32
	hasDefer bool
	intr     func(w *Worker, call *ssa.CallCommon, args []Value) Value
	pre      func(w *Worker, args []Value) (Value, bool)
	pkgState *pkgState
	counted  bool
}

type globalState struct {
	g   *ssa.Global
	ptr Ptr
	pkg *pkgState
}

type pkgState struct {
	pkg    *ssa.Package
	done   bool
	denied bool
	failed string // why the initialisation stopped
}

type frame struct {
	code     *fnCode
	slots    []Value
	caller   *frame
	block    int
	prev     int
	defers   []deferred
	panicing *goPanic
	result   Value
	recov    bool
}

type deferred struct {
	fn   Value
	args []Value
	blt  *ssa.Builtin
	call *ssa.CallCommon
}

type goPanic struct {
	v     Iface
	msg   string
	where string
}

type Worker struct {
	eng       *Engine
	id        int
	T         *TermTable
	smt       *Solver
	p         *Path
	h         *harness
	zero, one *Term
	bytes     [256]*Term
	smallInts []*Term
	emptyRope *Rope
	nilSlice  Slice
	globals   map[*ssa.Global]*globalState
	pkgs      map[*ssa.Package]*pkgState
	code      map[*ssa.Function]*fnCode
	methods   map[methodKey]*ssa.Function
	cur       *insn
	curFr     *frame
	initDepth int
	pathNo    int
	undo      []func()
	capture   int // >0 inside vsym.Panics
	onces     map[*StructObj]bool
}

type methodKey struct {
	t types.Type
	m string
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{eng: e, id: id}
	w.reset()
	return w
}

func (w *Worker) reset() {
	w.T = NewTermTable()
	if w.smt != nil {
		w.eng.addSolver(w.smt)
		w.smt.Close()
	}
	w.smt = NewSolver(w.T, w.eng.tmo)
	w.zero = w.T.Const(64, 0)
	w.one = w.T.Const(64, 1)
	for i := range w.bytes {
		w.bytes[i] = w.T.Const(8, uint64(i))
	}
	w.smallInts = make([]*Term, 4096)
	for i := range w.smallInts {
		w.smallInts[i] = w.T.Const(64, uint64(i))
	}
	w.emptyRope = &Rope{n: w.zero}
	w.nilSlice = Slice{off: w.zero, len: w.zero, cap: w.zero}
	w.globals = map[*ssa.Global]*globalState{}
	w.pkgs = map[*ssa.Package]*pkgState{}
	w.code = map[*ssa.Function]*fnCode{}
	w.methods = map[methodKey]*ssa.Function{}
	w.onces = map[*StructObj]bool{}
	w.undo = nil
}

func (w *Worker) cint(n int) *Term {
	if n >= 0 && n < len(w.smallInts) {
		return w.smallInts[n]
	}
	return w.T.Const(64, uint64(n))
}

func (w *Worker) where() string {
	if w.cur == nil {
		return "?"
	}
	pos := w.eng.prog.Fset.Position(w.cur.i.Pos())
	s := w.curFr.code.name
	if pos.IsValid() {
		s += fmt.Sprintf(" (%s:%d)", shortFile(pos.Filename), pos.Line)
	}
	return s
}

func shortFile(f string) string {
	parts := strings.Split(f, "/")
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	return strings.Join(parts, "/")
}

// panicSite: the innermost frame inside the module under test (for stable labels).
func (w *Worker) stack() string {
	var s []string
	for f := w.curFr; f != nil && len(s) < 8; f = f.caller {
		s = append(s, f.code.name)
	}
	return strings.Join(s, " < ")
}

func (w *Worker) siteHash() uint32 {
	if w.cur == nil {
		return 0
	}
	return w.cur.site
}

func (w *Worker) rtPanic(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	v := Iface{}
	if t := w.eng.errorString; t != nil {
		v = Iface{t: t, v: w.strRope("runtime error: " + msg)}
	}
	panic(&goPanic{v: v, msg: "runtime error: " + msg, where: w.where()})
}

// ---- compilation -----------------------------------------------------------------

func (w *Worker) compile(fn *ssa.Function) *fnCode {
	if c, ok := w.code[fn]; ok {
		return c
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	c := &fnCode{fn: fn, name: fn.String()}
	w.code[fn] = c
	c.intr = findIntrinsic(w.eng, fn, name)
	c.pre = preTab[name]
	if fn.Pkg != nil {
		c.pkgState = w.pkgState(fn.Pkg)
	}
	if c.intr != nil || fn.Blocks == nil {
		return c
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) int32 {
		s := n
		slots[v] = s
		n++
		return s
	}
	for _, p := range fn.Params {
		c.params = append(c.params, add(p))
	}
	for _, p := range fn.FreeVars {
		c.frees = append(c.frees, add(p))
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nslots = int(n)
	c.blocks = make([][]insn, len(fn.Blocks))
	hs := fnv.New32a()
	hs.Write([]byte(name))
	base := hs.Sum32()
	k := uint32(0)
	var rands []*ssa.Value
	for bi, b := range fn.Blocks {
		ins := make([]insn, 0, len(b.Instrs))
		for _, i := range b.Instrs {
			k++
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			in := insn{i: i, dst: -1, site: base + k*2654435761}
			if v, ok := i.(ssa.Value); ok {
				in.dst = slots[v]
			}
			rands = i.Operands(rands[:0])
			in.ops = make([]opnd, len(rands))
			for j, r := range rands {
				if *r == nil {
					continue
				}
				in.ops[j] = w.compileOp(*r, slots)
			}
			ins = append(ins, in)
		}
		c.blocks[bi] = ins
	}
	c.regions = make([]*region, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c.regions[bi] = findRegion(fn, b)
		}
	}
	return c
}

func (w *Worker) compileOp(v ssa.Value, slots map[ssa.Value]int32) opnd {
	if s, ok := slots[v]; ok {
		return opnd{kind: okSlot, slot: s}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: okConst, k: w.constVal(v)}
	case *ssa.Global:
		return opnd{kind: okGlobal, g: w.global(v)}
	case *ssa.Function:
		return opnd{kind: okConst, k: &Func{fn: v}}
	case *ssa.Builtin:
		return opnd{kind: okConst, k: &Func{blt: v}}
	}
	panic(fmt.Sprintf("operand %T", v))
}

func (w *Worker) constVal(c *ssa.Const) Value {
	t := under(c.Type())
	if c.Value == nil {
		if tp, ok := c.Type().(*types.TypeParam); ok {
			_ = tp
			return nil
		}
		return w.zeroVal(c.Type())
	}
	if wd, _, ok := intInfo(t); ok {
		if wd == 0 {
			return w.T.Bool(constant.BoolVal(c.Value))
		}
		iv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return w.T.Const(wd, u)
		}
		i, _ := constant.Int64Val(iv)
		return w.T.Const(wd, uint64(i))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return w.strRope(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return w.strRope(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		return Float(f)
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return Complex(c.Complex128())
	}
	panic(fmt.Sprintf("constant %v : %v", c, c.Type()))
}

var deniedPkgs = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "sync": true, "time": true,
	"internal/cpu": true, "internal/godebug": true, "internal/poll": true, "log": true, "net": true, "internal/bytealg": true,
	"sync/atomic": true, "unsafe": true, "crypto/internal/boring": true, "crypto/internal/fips140deps/cpu": true, "internal/goos": true,
	"internal/testlog": true, "io/fs": false, "encoding/json": false}

func (w *Worker) pkgState(p *ssa.Package) *pkgState {
	if s, ok := w.pkgs[p]; ok {
		return s
	}
	path := p.Pkg.Path()
	s := &pkgState{pkg: p, denied: deniedPkgs[path] || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "crypto/internal/fips140/check") || strings.HasPrefix(path, "crypto/internal/sysrand") || strings.HasPrefix(path, "crypto/internal/entropy")}
	w.pkgs[p] = s
	return s
}

func (w *Worker) global(g *ssa.Global) *globalState {
	if s, ok := w.globals[g]; ok {
		return s
	}
	s := &globalState{g: g, pkg: w.pkgState(g.Pkg)}
	w.globals[g] = s
	return s
}

func (w *Worker) globalPtr(s *globalState) Ptr {
	if s.ptr.c == nil {
		w.initDepth++
		s.ptr = w.alloc(w.zeroVal(s.g.Type().(*types.Pointer).Elem()))
		w.initDepth--
	}
	if !s.pkg.done {
		w.initPkg(s.pkg)
	}
	if s.pkg.failed != "" && w.initDepth == 0 && strings.HasPrefix(s.pkg.pkg.Pkg.Path(), "github.com/libsv/") {
		w.unsupported("variable of a package whose initialisation stopped: %s", s.pkg.failed)
	}
	return s.ptr
}

func (w *Worker) initPkg(s *pkgState) {
	if s.done {
		return
	}
	s.done = true
	if s.denied {
		return
	}
	f := s.pkg.Func("init")
	if f == nil {
		return
	}
	w.initDepth++
	saveCur, saveFr := w.cur, w.curFr
	defer func() {
		w.initDepth--
		w.cur, w.curFr = saveCur, saveFr
		if r := recover(); r != nil {
			// a package whose initialisation cannot be executed keeps the values computed so far
			msg := fmt.Sprint(r)
			if gp, ok := r.(*goPanic); ok {
				msg = gp.msg + " at " + gp.where
			}
			if pa, ok := r.(pathAbort); ok && pa.kind == abDeadline {
				panic(r)
			}
			s.failed = msg
			w.eng.note("initialisation of " + s.pkg.Pkg.Path() + " incomplete: " + msg)
		}
	}()
	w.call(nil, f, nil, nil)
}

// ---- calls --------------------------------------------------------------------------

func (w *Worker) callValue(fr *frame, f Value, args []Value) Value {
	fv, ok := f.(*Func)
	if !ok {
		w.unsupported("call of %T", f)
	}
	if fv == nil {
		w.nilDeref()
	}
	if fv.nat != nil {
		return fv.nat(w, args)
	}
	return w.call(fr, fv.fn, args, fv.free)
}

func (w *Worker) call(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	code := w.compile(fn)
	if code.intr != nil {
		return code.intr(w, nil, args)
	}
	if code.pre != nil {
		if v, ok := code.pre(w, args); ok {
			return v
		}
	}
	if fn.Blocks == nil {
		w.unsupported("function without body %s", fn)
	}
	if w.initDepth > 0 && fn.Name() == "init" && fn.Synthetic != "" && caller != nil {
		// initialisation of an imported package: done when one of its variables is first used
		return nil
	}
	fr := &frame{code: code, slots: make([]Value, code.nslots), caller: caller, prev: -1}
	for i, s := range code.params {
		fr.slots[s] = args[i]
	}
	for i, s := range code.frees {
		fr.slots[s] = free[i]
	}
	p := w.p
	if p != nil {
		p.depth++
		if p.depth > 600 {
			p.depth = 0
			w.abort(abCut, "call depth above 600 at %s", w.where())
		}
	}
	if !code.counted {
		code.counted = true
		w.eng.countFn(w.h, fn)
	}
	saveCur, saveFr := w.cur, w.curFr
	if code.hasDefer {
		w.runDeferFrame(fr)
	} else {
		w.run(fr, 0)
	}
	w.cur, w.curFr = saveCur, saveFr
	if p != nil {
		p.depth--
	}
	return fr.result
}

func (w *Worker) runDeferFrame(fr *frame) {
	depth := 0
	if w.p != nil {
		depth = w.p.depth
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			if w.p != nil {
				w.p.depth = depth
			}
			fr.panicing = gp
			w.runDefers(fr)
			if fr.panicing != nil {
				panic(fr.panicing)
			}
			fr.recov = true
		}()
		w.run(fr, 0)
	}()
	if fr.recov {
		if rb := fr.code.fn.Recover; rb != nil {
			w.run(fr, rb.Index)
		} else {
			fr.result = w.zeroResult(fr.code.fn)
		}
	}
}

func (w *Worker) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return w.zeroVal(rs.At(0).Type())
	}
	return w.zeroVal(rs)
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					fr.panicing = gp
				}
			}()
			if d.blt != nil {
				w.builtin(fr, d.blt, d.call, d.args)
			} else {
				w.callValue(fr, d.fn, d.args)
			}
		}()
	}
}

func (w *Worker) get(fr *frame, o *opnd) Value {
	switch o.kind {
	case okSlot:
		return fr.slots[o.slot]
	case okConst:
		return o.k
	case okGlobal:
		return w.globalPtr(o.g)
	}
	return nil
}

func (w *Worker) run(fr *frame, start int) {
	fr.block = start
	code := fr.code
	p := w.p
	for {
		blk := code.blocks[fr.block]
		// phis in parallel
		np := 0
		for np < len(blk) {
			if _, ok := blk[np].i.(*ssa.Phi); !ok {
				break
			}
			np++
		}
		if np > 0 && fr.prev >= 0 { // already set behind a region
			edge := -1
			for k, pr := range code.fn.Blocks[fr.block].Preds {
				if pr.Index == fr.prev {
					edge = k
					break
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			for k := 0; k < np; k++ {
				vals = append(vals, w.get(fr, &blk[k].ops[edge]))
			}
			for k := 0; k < np; k++ {
				fr.slots[blk[k].dst] = vals[k]
			}
		}
		for k := np; k < len(blk); k++ {
			in := &blk[k]
			w.cur, w.curFr = in, fr
			if p != nil {
				p.steps++
				if p.steps&0xfff == 0 {
					if p.steps > w.eng.maxSteps {
						w.abort(abCut, "more than %d steps at %s", w.eng.maxSteps, w.where())
					}
					if w.h.expired(w.eng) {
						w.abort(abDeadline, "time limit")
					}
				}
			}
			switch i := in.i.(type) {
			case *ssa.Jump:
				fr.prev = fr.block
				fr.block = code.fn.Blocks[fr.block].Succs[0].Index
				goto next
			case *ssa.If:
				c := w.get(fr, &in.ops[0]).(*Term)
				if r := code.regions[fr.block]; r != nil && c.op != OConst && p != nil && w.initDepth == 0 {
					if c = w.norm(c); c.op != OConst {
						if v, _ := w.domVerdict(c); v == 0 {
							w.runRegion(fr, r, c)
							goto next
						}
					}
				}
				fr.prev = fr.block
				if w.decide(c) {
					fr.block = code.fn.Blocks[fr.block].Succs[0].Index
				} else {
					fr.block = code.fn.Blocks[fr.block].Succs[1].Index
				}
				goto next
			case *ssa.Return:
				switch len(in.ops) {
				case 0:
				case 1:
					fr.result = w.get(fr, &in.ops[0])
				default:
					t := make(Tuple, len(in.ops))
					for j := range in.ops {
						t[j] = w.get(fr, &in.ops[j])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := w.get(fr, &in.ops[0]).(Iface)
				panic(&goPanic{v: v, msg: w.panicText(v), where: w.where()})
			default:
				v := w.exec(fr, in, i)
				if in.dst >= 0 {
					fr.slots[in.dst] = v
				}
				w.cur, w.curFr = in, fr
			}
		}
		panic("block without terminator")
	next:
	}
}

func (w *Worker) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case *Rope:
		if s, ok := x.concrete(); ok {
			return s
		}
	}
	return v.t.String()
}

func (w *Worker) exec(fr *frame, in *insn, i ssa.Instruction) Value {
	switch i := i.(type) {
	case *ssa.Alloc:
		return w.alloc(w.zeroVal(i.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		return w.binop(i.Op, i.X.Type(), i.Y.Type(), w.normV(w.get(fr, &in.ops[0])), w.normV(w.get(fr, &in.ops[1])))
	case *ssa.UnOp:
		return w.unop(i, w.get(fr, &in.ops[0]))
	case *ssa.Call:
		return w.doCall(fr, in, &i.Call)
	case *ssa.Store:
		w.store(w.get(fr, &in.ops[0]).(Ptr), w.get(fr, &in.ops[1]))
		return nil
	case *ssa.FieldAddr:
		p := w.get(fr, &in.ops[0]).(Ptr)
		return w.fieldAddr(p, i.Field)
	case *ssa.Field:
		return w.get(fr, &in.ops[0]).(*SVal).f[i.Field]
	case *ssa.IndexAddr:
		return w.indexAddr(w.get(fr, &in.ops[0]), i.X.Type(), w.idx(w.get(fr, &in.ops[1]), i.Index.Type()))
	case *ssa.Index:
		return w.index(w.get(fr, &in.ops[0]), w.idx(w.get(fr, &in.ops[1]), i.Index.Type()))
	case *ssa.Lookup:
		return w.lookup(i, w.get(fr, &in.ops[0]), w.get(fr, &in.ops[1]))
	case *ssa.Slice:
		var lo, hi, mx *Term
		if in.ops[1].kind != okNone {
			lo = w.idx(w.get(fr, &in.ops[1]), i.Low.Type())
		}
		if in.ops[2].kind != okNone {
			hi = w.idx(w.get(fr, &in.ops[2]), i.High.Type())
		}
		if in.ops[3].kind != okNone {
			mx = w.idx(w.get(fr, &in.ops[3]), i.Max.Type())
		}
		return w.slice(w.get(fr, &in.ops[0]), i.X.Type(), lo, hi, mx)
	case *ssa.MakeSlice:
		n := w.idx(w.get(fr, &in.ops[0]), i.Len.Type())
		c := w.idx(w.get(fr, &in.ops[1]), i.Cap.Type())
		return w.makeSlice(under(i.Type()).(*types.Slice).Elem(), n, c)
	case *ssa.MakeInterface:
		return Iface{t: i.X.Type(), v: w.get(fr, &in.ops[0])}
	case *ssa.MakeClosure:
		f := &Func{fn: i.Fn.(*ssa.Function)}
		for j := 1; j < len(in.ops); j++ {
			f.free = append(f.free, w.get(fr, &in.ops[j]))
		}
		return f
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		return &MapObj{objHdr: objHdr{w.epoch()}, kt: mt.Key(), vt: mt.Elem(), idx: map[interface{}]int{}}
	case *ssa.MapUpdate:
		w.mapSet(w.get(fr, &in.ops[0]).(*MapObj), w.get(fr, &in.ops[1]), w.get(fr, &in.ops[2]))
		return nil
	case *ssa.ChangeType:
		return w.get(fr, &in.ops[0])
	case *ssa.ChangeInterface:
		return w.get(fr, &in.ops[0])
	case *ssa.Convert:
		return w.convert(i.X.Type(), i.Type(), w.get(fr, &in.ops[0]))
	case *ssa.MultiConvert:
		return w.convert(i.X.Type(), i.Type(), w.get(fr, &in.ops[0]))
	case *ssa.TypeAssert:
		return w.typeAssert(i, w.get(fr, &in.ops[0]).(Iface))
	case *ssa.Extract:
		return w.get(fr, &in.ops[0]).(Tuple)[i.Index]
	case *ssa.Range:
		switch x := w.get(fr, &in.ops[0]).(type) {
		case *Rope:
			return &mapIter{s: x}
		case *MapObj:
			it := &mapIter{m: x}
			if x != nil {
				it.n = len(x.keys)
			}
			return it
		}
	case *ssa.Next:
		return w.next(i, w.get(fr, &in.ops[0]).(*mapIter))
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			d.blt = b
			for j := 1; j < len(in.ops); j++ {
				d.args = append(d.args, w.get(fr, &in.ops[j]))
			}
		} else {
			d.fn, d.args = w.prepCall(fr, in, &i.Call)
		}
		fr.defers = append(fr.defers, d)
		return nil
	case *ssa.RunDefers:
		w.runDefers(fr)
		if fr.panicing != nil {
			panic(fr.panicing)
		}
		return nil
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &in.ops[0]).(Slice)
		at := under(i.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
		if !w.decide(w.T.Ule(w.T.Const(64, uint64(at.Len())), s.len)) {
			w.rtPanic("cannot convert slice to array: length too short")
		}
		if s.a == nil {
			return Ptr{}
		}
		return Ptr{c: s.a, i: s.off, whole: true}
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		w.unsupported("concurrency (%T)", i)
	}
	w.unsupported("instruction %T", i)
	return nil
}

// idx widens an index operand to 64 bits.
func (w *Worker) idx(v Value, t types.Type) *Term {
	x := w.norm(v.(*Term))
	_, s, _ := intInfo(t)
	if x.w == 64 {
		return x
	}
	if s {
		return w.T.Sext(x, 64)
	}
	return w.T.Zext(x, 64)
}

func (w *Worker) fieldAddr(p Ptr, f int) Value {
	if p.c == nil {
		w.nilDeref()
	}
	o, ok := p.c.(*StructObj)
	if !ok {
		w.unsupported("field address in %T", p.c)
	}
	if isAgg(o.f[f]) {
		return Ptr{c: o.f[f].(Container), whole: true}
	}
	return Ptr{c: o, f: f}
}

func (w *Worker) boundsCheck(i, n *Term) {
	if !w.decide(w.T.Ult(i, n)) {
		w.rtPanic("index out of range")
	}
}

func (w *Worker) elemPtr(c Container, pos *Term) Value {
	switch a := c.(type) {
	case *ByteArr:
		return Ptr{c: a, i: pos}
	case *ArrObj:
		if len(a.e) > 0 && isAgg(a.e[0]) {
			k := w.concretize(pos, 600)
			return Ptr{c: a.e[k].(Container), whole: true}
		}
		return Ptr{c: a, i: pos}
	}
	w.unsupported("element of %T", c)
	return nil
}

func (w *Worker) indexAddr(x Value, t types.Type, i *Term) Value {
	switch x := x.(type) {
	case Slice:
		w.boundsCheck(i, x.len)
		return w.elemPtr(x.a, w.T.Add(x.off, i))
	case Ptr:
		if x.c == nil {
			w.nilDeref()
		}
		at := under(t.Underlying().(*types.Pointer).Elem()).(*types.Array)
		w.boundsCheck(i, w.T.Const(64, uint64(at.Len())))
		if x.i != nil {
			i = w.T.Add(x.i, i)
		}
		return w.elemPtr(x.c, i)
	}
	w.unsupported("index address of %T", x)
	return nil
}

func (w *Worker) index(x Value, i *Term) Value {
	switch x := x.(type) {
	case *AVal:
		if x.isB {
			w.boundsCheck(i, w.cint(len(x.b)))
			return w.litAt(x.b, i)
		}
		w.boundsCheck(i, w.cint(len(x.e)))
		if i.op == OConst {
			return x.e[i.c]
		}
		if _, ok := x.e[0].(*Term); ok {
			l := make([]*Term, len(x.e))
			for k := range l {
				l[k] = x.e[k].(*Term)
			}
			return w.litAt(l, i)
		}
		return x.e[w.concretize(i, 600)]
	case *Rope:
		w.boundsCheck(i, x.n)
		return w.byteAt(x, i)
	}
	w.unsupported("index of %T", x)
	return nil
}

func (w *Worker) slice(x Value, t types.Type, lo, hi, mx *Term) Value {
	T := w.T
	if lo == nil {
		lo = w.zero
	}
	switch v := x.(type) {
	case Slice:
		x = w.normS(v)
	}
	switch x := x.(type) {
	case *Rope:
		if hi == nil {
			hi = x.n
		}
		if hi != x.n && !w.decide(T.Ule(hi, x.n)) || lo != w.zero && !w.decide(T.Ule(lo, hi)) {
			w.rtPanic("slice bounds out of range")
		}
		if lo == w.zero && hi == x.n {
			return x
		}
		return w.ropeSlice(x, lo, hi)
	case Slice, Ptr:
		var s Slice
		if pt, ok := x.(Ptr); ok {
			if pt.c == nil {
				w.nilDeref()
			}
			at := under(t.Underlying().(*types.Pointer).Elem()).(*types.Array)
			n := w.T.Const(64, uint64(at.Len()))
			o := w.zero
			if pt.i != nil {
				o = pt.i
			}
			s = Slice{a: pt.c, off: o, len: n, cap: n}
		} else {
			s = x.(Slice)
		}
		if hi == nil {
			hi = s.len
		}
		c := s.cap
		if mx != nil {
			if !w.decide(T.Ule(mx, s.cap)) {
				w.rtPanic("slice bounds out of range [::max] with capacity")
			}
			if !w.decide(T.Ule(hi, mx)) {
				w.rtPanic("slice bounds out of range [:hi:max]")
			}
			c = mx
		} else if hi != s.len {
			if !w.decide(T.Ule(hi, s.cap)) {
				w.rtPanic("slice bounds out of range [:hi] with capacity")
			}
		}
		if lo != w.zero && !w.decide(T.Ule(lo, hi)) {
			w.rtPanic("slice bounds out of range [lo:hi]")
		}
		if s.a == nil {
			return s
		}
		lit := true
		if b, ok := s.a.(*ByteArr); ok {
			lit = b.isLit()
		}
		if lit {
			lo = T.Const(64, w.concretize(lo, 600))
			hi = T.Const(64, w.concretize(hi, 600))
			c = T.Const(64, w.concretize(c, 600))
		}
		return Slice{a: s.a, off: T.Add(s.off, lo), len: T.Sub(hi, lo), cap: T.Sub(c, lo)}
	}
	w.unsupported("slice of %T", x)
	return nil
}

// ---- maps ------------------------------------------------------------------------

func (w *Worker) mapKey(k Value) (interface{}, bool) {
	switch k := k.(type) {
	case *Term:
		if k.op == OConst {
			return k.c, true
		}
		return nil, false
	case *Rope:
		return k.concrete2()
	case Iface:
		if k.t == nil {
			return "nil", true
		}
		x, ok := w.mapKey(k.v)
		return fmt.Sprintf("%s/%v", k.t, x), ok
	case Float:
		return float64(k), true
	case Ptr:
		if k.i == nil || k.i.op == OConst {
			return k, true
		}
		return nil, false
	case *SVal:
		s := "{"
		for _, f := range k.f {
			x, ok := w.mapKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T%v,", x, x)
		}
		return s, true
	case *AVal:
		s := "["
		if k.isB {
			for _, b := range k.b {
				if b.op != OConst {
					return nil, false
				}
				s += string(rune(b.c))
			}
			return s, true
		}
		for _, f := range k.e {
			x, ok := w.mapKey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T%v,", x, x)
		}
		return s, true
	}
	w.unsupported("map key %T", k)
	return nil, false
}

func (r *Rope) concrete2() (interface{}, bool) {
	s, ok := r.concrete()
	return s, ok
}

// find returns the position of key k or -1; forks on symbolic keys.
func (w *Worker) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if ck, ok := w.mapKey(k); ok && m.idx != nil {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	if t, ok := k.(*Term); ok && t.op != OConst && baseOf(t) != nil && m.idx != nil {
		v := w.concretize(t, 300)
		if i, ok := m.idx[v]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if w.decide(w.eqVal(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapTouch(m *MapObj) {
	if m.epoch == 0 && w.initDepth == 0 {
		ks, vs := append([]Value(nil), m.keys...), append([]Value(nil), m.vals...)
		var ix map[interface{}]int
		if m.idx != nil {
			ix = map[interface{}]int{}
			for k, v := range m.idx {
				ix[k] = v
			}
		}
		w.undo = append(w.undo, func() { m.keys, m.vals, m.idx = ks, vs, ix })
	}
}

func (w *Worker) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		panic(&goPanic{v: Iface{t: w.eng.errorString, v: w.strRope("assignment to entry in nil map")}, msg: "assignment to entry in nil map", where: w.where()})
	}
	i := w.mapFind(m, k)
	w.mapTouch(m)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	if ck, ok := w.mapKey(k); ok && m.idx != nil {
		m.idx[ck] = len(m.keys)
	} else {
		m.idx = nil
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	m.keys = append(append([]Value(nil), m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]Value(nil), m.vals[:i]...), m.vals[i+1:]...)
	if m.idx != nil {
		m.idx = map[interface{}]int{}
		for j, k := range m.keys {
			ck, _ := w.mapKey(k)
			m.idx[ck] = j
		}
	}
}

func (w *Worker) lookup(i *ssa.Lookup, x, k Value) Value {
	if s, ok := x.(*Rope); ok {
		ix := w.idx(k, i.Index.Type())
		w.boundsCheck(ix, s.n)
		return w.byteAt(s, ix)
	}
	m := x.(*MapObj)
	j := w.mapFind(m, k)
	var v Value
	if j >= 0 {
		v = m.vals[j]
	} else {
		v = w.zeroVal(under(i.X.Type()).(*types.Map).Elem())
	}
	if i.CommaOk {
		return Tuple{v, w.T.Bool(j >= 0)}
	}
	return v
}

func (w *Worker) next(i *ssa.Next, it *mapIter) Value {
	if i.IsString {
		s := it.s
		pos := w.cint(it.pos)
		if !w.decide(w.T.Ult(pos, s.n)) {
			return Tuple{w.T.False, w.zero, w.T.Const(32, 0)}
		}
		b := w.byteAt(s, pos)
		p0 := pos
		if w.decide(w.T.Ult(b, w.bytes[0x80])) {
			it.pos++
			return Tuple{w.T.True, p0, w.T.Zext(b, 32)}
		}
		f := w.eng.fnByName("unicode/utf8", "DecodeRuneInString")
		r := w.call(w.curFr, f, []Value{w.ropeSlice(s, pos, s.n)}, nil).(Tuple)
		it.pos += int(w.concretize(r[1].(*Term), 8))
		return Tuple{w.T.True, p0, r[0]}
	}
	// keys may have been deleted meanwhile; entries added during iteration are not visited
	if it.m == nil || it.i >= len(it.m.keys) || it.i >= it.n {
		return Tuple{w.T.False, nil, nil}
	}
	k, v := it.m.keys[it.i], it.m.vals[it.i]
	it.i++
	return Tuple{w.T.True, k, v}
}

// ---- interfaces -------------------------------------------------------------------

// NativeObj is an engine-provided object (hash states and the like).
type NativeObj struct {
	objHdr
	kind    string
	methods map[string]func(w *Worker, args []Value) Value
	data    interface{}
}

func (w *Worker) typeAssert(i *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := under(i.AssertedType).(*types.Interface); isI {
			if n, isN := x.v.(*NativeObj); isN {
				ok = true
				for k := 0; k < it.NumMethods(); k++ {
					if n.methods[it.Method(k).Name()] == nil {
						ok = false
					}
				}
			} else {
				ok = w.eng.implements(x.t, it)
			}
			v = x
		} else {
			ok = types.Identical(x.t, i.AssertedType)
			v = x.v
		}
	}
	if !ok {
		if i.CommaOk {
			return Tuple{w.zeroVal(i.AssertedType), w.T.False}
		}
		w.rtPanic("interface conversion: not %s", i.AssertedType)
	}
	if i.CommaOk {
		return Tuple{v, w.T.True}
	}
	return v
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Id()}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, m)
	w.methods[k] = f
	return f
}

func (w *Worker) prepCall(fr *frame, in *insn, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(in.ops))
	if c.IsInvoke() {
		recv := w.get(fr, &in.ops[0]).(Iface)
		if recv.t == nil {
			w.nilDeref()
		}
		if n, ok := recv.v.(*NativeObj); ok {
			m := n.methods[c.Method.Name()]
			if m == nil {
				w.unsupported("method %s of stub %s", c.Method.Name(), n.kind)
			}
			for j := 1; j < len(in.ops); j++ {
				args = append(args, w.get(fr, &in.ops[j]))
			}
			return &Func{nat: m}, args
		}
		f := w.method(recv.t, c.Method)
		if f == nil {
			w.unsupported("no method %s on %s", c.Method, recv.t)
		}
		args = append(args, recv.v)
		for j := 1; j < len(in.ops); j++ {
			args = append(args, w.get(fr, &in.ops[j]))
		}
		return &Func{fn: f}, args
	}
	for j := 1; j < len(in.ops); j++ {
		args = append(args, w.get(fr, &in.ops[j]))
	}
	return w.get(fr, &in.ops[0]), args
}

func (w *Worker) doCall(fr *frame, in *insn, c *ssa.CallCommon) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Value
		for j := 1; j < len(in.ops); j++ {
			args = append(args, w.get(fr, &in.ops[j]))
		}
		return w.builtin(fr, b, c, args)
	}
	f, args := w.prepCall(fr, in, c)
	return w.callValue(fr, f, args)
}

// ---- builtins -----------------------------------------------------------------------

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Rope:
			return w.norm(x.n)
		case Slice:
			return w.norm(x.len)
		case *MapObj:
			if x == nil {
				return w.zero
			}
			return w.cint(len(x.keys))
		case *AVal:
			if x.isB {
				return w.cint(len(x.b))
			}
			return w.cint(len(x.e))
		case Ptr:
			at := under(c.Args[0].Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
			return w.T.Const(64, uint64(at.Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case *AVal:
			if x.isB {
				return w.cint(len(x.b))
			}
			return w.cint(len(x.e))
		case Ptr:
			at := under(c.Args[0].Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
			return w.T.Const(64, uint64(at.Len()))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return w.appendSlice(args[0].(Slice), under(c.Args[0].Type()).(*types.Slice).Elem(), args[1])
	case "copy":
		return w.copySlice(args[0].(Slice), args[1])
	case "delete":
		w.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				w.mapTouch(x)
				x.keys, x.vals, x.idx = nil, nil, map[interface{}]int{}
			}
			return nil
		case Slice:
			if a, ok := x.a.(*ByteArr); ok {
				w.writeBytes(a, x.off, &Rope{segs: []Seg{{kind: 2, fill: w.bytes[0], n: x.len}}, n: x.len})
			} else if a, ok := x.a.(*ArrObj); ok {
				n := int(w.concretize(x.len, 600))
				for k := 0; k < n; k++ {
					w.storeElem(a, int(x.off.c)+k, w.zeroVal(a.elem))
				}
			}
			return nil
		}
	case "panic":
		v := args[0].(Iface)
		panic(&goPanic{v: v, msg: w.panicText(v), where: w.where()})
	case "recover":
		// the deferred function's frame is fr; the panicking frame is its caller
		if fr != nil && fr.caller != nil && fr.caller.panicing != nil {
			v := fr.caller.panicing.v
			fr.caller.panicing = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, x := range args[1:] {
			lt := w.binop(token.LSS, t, t, x, r).(*Term)
			if b.Name() == "max" {
				lt = w.binop(token.LSS, t, t, r, x).(*Term)
			}
			a, ok1 := x.(*Term)
			bb, ok2 := r.(*Term)
			if ok1 && ok2 {
				r = w.T.Ite(lt, a, bb)
			} else if w.decide(lt) {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].(Ptr).c == nil {
			w.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := w.idx(args[1], c.Args[1].Type())
		if p.c == nil {
			return w.emptyRope
		}
		return w.arrRope(p.c.(*ByteArr), p.i, n)
	case "StringData":
		r := args[0].(*Rope)
		if r.n == w.zero {
			return Ptr{}
		}
		return Ptr{c: w.newBytes(r), i: w.zero}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		return Ptr{c: s.a, i: s.off}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := w.idx(args[1], c.Args[1].Type())
		if p.c == nil {
			return w.nilSlice
		}
		return Slice{a: p.c, off: p.i, len: n, cap: n}
	case "real", "imag", "complex", "close":
	}
	w.unsupported("builtin %s", b.Name())
	return nil
}

// ---- operators -----------------------------------------------------------------------

func (w *Worker) unop(i *ssa.UnOp, x Value) Value {
	switch i.Op {
	case token.MUL:
		return w.load(x.(Ptr), i.Type())
	case token.NOT:
		return w.T.BNot(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return w.T.Neg(x)
		case Float:
			return -x
		case SFloat:
			return SFloat{w.T.Xor(x.t, w.T.Const(64, 1<<63))}
		}
	case token.XOR:
		return w.T.Not(x.(*Term))
	}
	w.unsupported("unary %s on %T", i.Op, x)
	return nil
}

func (w *Worker) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	T := w.T
	switch op {
	case token.EQL:
		return w.eqVal(xt, x, y)
	case token.NEQ:
		return T.BNot(w.eqVal(xt, x, y))
	}
	switch a := x.(type) {
	case *Term:
		wd, signed, ok := intInfo(xt)
		if !ok {
			w.unsupported("binop on %v", xt)
		}
		b := y.(*Term)
		if op == token.SHL || op == token.SHR {
			return w.shift(op, a, signed, b, yt)
		}
		switch op {
		case token.ADD:
			return T.Add(a, b)
		case token.SUB:
			return T.Sub(a, b)
		case token.MUL:
			return T.Mul(a, b)
		case token.QUO, token.REM:
			if w.decide(T.Eq(b, T.Const(wd, 0))) {
				w.rtPanic("integer divide by zero")
			}
			if signed {
				if op == token.QUO {
					return T.SDiv(a, b)
				}
				return T.SRem(a, b)
			}
			if op == token.QUO {
				return T.UDiv(a, b)
			}
			return T.URem(a, b)
		case token.AND:
			return T.And(a, b)
		case token.OR:
			return T.Or(a, b)
		case token.XOR:
			return T.Xor(a, b)
		case token.AND_NOT:
			return T.And(a, T.Not(b))
		case token.LSS:
			if signed {
				return T.Slt(a, b)
			}
			return T.Ult(a, b)
		case token.LEQ:
			if signed {
				return T.Sle(a, b)
			}
			return T.Ule(a, b)
		case token.GTR:
			if signed {
				return T.Slt(b, a)
			}
			return T.Ult(b, a)
		case token.GEQ:
			if signed {
				return T.Sle(b, a)
			}
			return T.Ule(b, a)
		case token.LAND:
			return T.BAnd(a, b)
		case token.LOR:
			return T.BOr(a, b)
		}
	case *Rope:
		b := y.(*Rope)
		switch op {
		case token.ADD:
			return w.concat(a, b)
		case token.LSS:
			return T.Bool(w.cmpRope(a, b) < 0)
		case token.LEQ:
			return T.Bool(w.cmpRope(a, b) <= 0)
		case token.GTR:
			return T.Bool(w.cmpRope(a, b) > 0)
		case token.GEQ:
			return T.Bool(w.cmpRope(a, b) >= 0)
		}
	case SFloat:
		return w.fpBinop(op, x, y)
	case Float:
		b, ok := y.(Float)
		if !ok {
			return w.fpBinop(op, x, y)
		}
		f32 := under(xt).(*types.Basic).Kind() == types.Float32
		rnd := func(f Float) Value {
			if f32 {
				return Float(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(a + b)
		case token.SUB:
			return rnd(a - b)
		case token.MUL:
			return rnd(a * b)
		case token.QUO:
			return rnd(a / b)
		case token.LSS:
			return T.Bool(a < b)
		case token.LEQ:
			return T.Bool(a <= b)
		case token.GTR:
			return T.Bool(a > b)
		case token.GEQ:
			return T.Bool(a >= b)
		}
	}
	w.unsupported("binop %s on %T", op, x)
	return nil
}

// cmpRope compares byte strings lexicographically, forking where needed.
func (w *Worker) cmpRope(a, b *Rope) int {
	if !a.isLit() || !b.isLit() {
		if e, ok := w.ropeEq(a, b); ok && w.decide(e) {
			return 0
		}
		w.unsupported("ordering of symbolic-length strings")
	}
	x, y := a.lit(), b.lit()
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	open := 0 // positions whose equality is not known
	for i := 0; i < n; i++ {
		e := w.T.Eq(x[i], y[i])
		if e.IsFalse() {
			break
		}
		if e.op != OConst {
			open++
		}
	}
	if open > 2 {
		// one decision over 64-bit words
		lt, eq := w.T.Bool(len(x) < len(y)), w.T.Bool(len(x) == len(y))
		for hi := n; hi > 0; {
			lo := (hi - 1) / 8 * 8
			p, q := x[lo], y[lo]
			for i := lo + 1; i < hi; i++ {
				p, q = w.T.Concat(p, x[i]), w.T.Concat(q, y[i])
			}
			e := w.T.Eq(p, q)
			lt = w.T.BOr(w.T.Ult(p, q), w.T.BAnd(e, lt))
			eq = w.T.BAnd(e, eq)
			hi = lo
		}
		if w.decide(lt) {
			return -1
		}
		if w.decide(eq) {
			return 0
		}
		return 1
	}
	for i := 0; i < n; i++ {
		if w.decide(w.T.Eq(x[i], y[i])) {
			continue
		}
		if w.decide(w.T.Ult(x[i], y[i])) {
			return -1
		}
		return 1
	}
	switch {
	case len(x) < len(y):
		return -1
	case len(x) > len(y):
		return 1
	}
	return 0
}

func (w *Worker) shift(op token.Token, a *Term, signed bool, b *Term, yt types.Type) Value {
	T := w.T
	_, ys, _ := intInfo(yt)
	if ys && !nonneg(b) {
		if w.decide(T.Slt(b, T.Const(b.w, 0))) {
			w.rtPanic("negative shift amount")
		}
	}
	var amt *Term
	over := T.False
	switch {
	case b.w == a.w:
		amt = b
	case b.w < a.w:
		amt = T.Zext(b, a.w)
	default:
		over = T.Ule(T.Const(b.w, uint64(a.w)), b)
		amt = T.Extract(b, a.w-1, 0)
	}
	var r, ov *Term
	switch {
	case op == token.SHL:
		r, ov = T.Shl(a, amt), T.Const(a.w, 0)
	case signed:
		r, ov = T.Ashr(a, amt), T.Ashr(a, T.Const(a.w, uint64(a.w)-1))
	default:
		r, ov = T.Lshr(a, amt), T.Const(a.w, 0)
	}
	return T.Ite(over, ov, r)
}

func (w *Worker) eqVal(t types.Type, x, y Value) *Term {
	T := w.T
	switch a := x.(type) {
	case *Term:
		return T.Eq(a, y.(*Term))
	case SFloat:
		return T.FP(OFEq, a.t, w.floatTerm(y))
	case Float:
		if b, ok := y.(SFloat); ok {
			return T.FP(OFEq, w.floatTerm(a), b.t)
		}
		return T.Bool(a == y.(Float))
	case Complex:
		return T.Bool(a == y.(Complex))
	case *Rope:
		e, ok := w.ropeEq(a, y.(*Rope))
		if ok {
			return e
		}
		return w.forkEq(a, y.(*Rope))
	case Ptr:
		b := y.(Ptr)
		if a.c != b.c || a.f != b.f {
			return T.False
		}
		if a.i != nil && b.i != nil {
			return T.Eq(a.i, b.i)
		}
		return T.True
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			w.unsupported("interface compared with %T", y)
		}
		if a.t == nil || b.t == nil {
			return T.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return T.False
		}
		if na, ok := a.v.(*NativeObj); ok {
			nb, ok2 := b.v.(*NativeObj)
			return T.Bool(ok2 && na == nb)
		}
		if !types.Comparable(a.t) {
			w.rtPanic("comparing uncomparable type %s", a.t)
		}
		return w.eqVal(a.t, a.v, b.v)
	case *SVal:
		b := y.(*SVal)
		r := T.True
		for i := range a.f {
			if a.t.Field(i).Name() == "_" {
				continue
			}
			r = T.BAnd(r, w.eqVal(a.t.Field(i).Type(), a.f[i], b.f[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *AVal:
		b := y.(*AVal)
		if a.isB {
			cs := make([]*Term, len(a.b))
			for i := range cs {
				cs[i] = T.Eq(a.b[i], b.b[i])
			}
			return T.BAnd(cs...)
		}
		r := T.True
		for i := range a.e {
			r = T.BAnd(r, w.eqVal(a.elem, a.e[i], b.e[i]))
		}
		return r
	case Slice: // comparison with nil
		b := y.(Slice)
		return T.Bool(a.a == nil && b.a == nil)
	case *MapObj:
		return T.Bool(a == y.(*MapObj))
	case *Func:
		return T.Bool(a == y.(*Func))
	case nil:
		return T.Bool(y == nil)
	}
	w.unsupported("equality on %T", x)
	return nil
}

// forkEq decides equality of ropes whose segments do not line up by forking on their lengths.
func (w *Worker) forkEq(a, b *Rope) *Term {
	if !w.decide(w.T.Eq(a.n, b.n)) {
		return w.T.False
	}
	// one side literal: the symbolic side has a concrete length now
	if b.isLit() {
		a, b = b, a
	}
	if a.isLit() {
		l := a.lit()
		cs := make([]*Term, len(l))
		for i := range l {
			cs[i] = w.T.Eq(l[i], w.byteAt(b, w.cint(i)))
		}
		return w.T.BAnd(cs...)
	}
	// fork on segment boundaries
	for try := 0; try < 3; try++ {
		x, y := a.segs, b.segs
		if len(x) == 0 || len(y) == 0 {
			break
		}
		l1, l2 := w.segLen(&x[0]), w.segLen(&y[0])
		if l1 == l2 {
			break
		}
		if w.decide(w.T.Ule(l1, l2)) {
			b1, b2 := w.split(b, l1)
			a1, a2 := w.split(a, l1)
			e1, ok := w.ropeEq(a1, b1)
			if ok {
				if e1.IsFalse() {
					return e1
				}
				return w.T.BAnd(e1, w.eqVal(nil, a2, b2))
			}
		} else {
			a1, a2 := w.split(a, l2)
			b1, b2 := w.split(b, l2)
			e1, ok := w.ropeEq(a1, b1)
			if ok {
				if e1.IsFalse() {
					return e1
				}
				return w.T.BAnd(e1, w.eqVal(nil, a2, b2))
			}
		}
		break
	}
	w.unsupported("equality of symbolic-length strings")
	return nil
}

func (w *Worker) convert(from, to types.Type, x Value) Value {
	T := w.T
	fu, tu := under(from), under(to)
	switch v := x.(type) {
	case *Term:
		fw, fs, ok := intInfo(fu)
		if !ok {
			w.unsupported("conversion from %v", from)
		}
		if tw, _, ok := intInfo(tu); ok {
			switch {
			case tw == fw:
				return v
			case tw < fw:
				return T.Extract(v, tw-1, 0)
			case fs:
				return T.Sext(v, tw)
			default:
				return w.norm(w.widen(w.norm(v), tw))
			}
		}
		if isString(tu) {
			if w.decide(T.Ult(v, T.Const(fw, 0x80))) {
				return w.litRope([]*Term{T.Extract(v, 7, 0)})
			}
			k := w.concretize(v, 300)
			return w.strRope(string(rune(sext(k, fw))))
		}
		if isFloat(tu) {
			if v.op != OConst {
				if tu.(*types.Basic).Kind() == types.Float32 {
					w.unsupported("float32 conversion of a symbolic integer")
				}
				if fs {
					return mkFloat(T.FP(OFFromS, w.known(T.Sext(v, 64))))
				}
				return mkFloat(T.FP(OFFromU, w.known(T.Zext(v, 64))))
			}
			var f float64
			if fs {
				f = float64(sext(v.c, fw))
			} else {
				f = float64(v.c)
			}
			if tu.(*types.Basic).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return Float(f)
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return Ptr{}
		}
	case SFloat:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Float64 {
			return v
		}
		w.unsupported("conversion of a symbolic float")
	case Float:
		if tw, ts, ok := intInfo(tu); ok {
			if ts {
				return T.Const(tw, uint64(int64(v)))
			}
			return T.Const(tw, uint64(v))
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Float32 {
			return Float(float32(v))
		}
		return v
	case *Rope:
		if s, ok := tu.(*types.Slice); ok {
			if isByteType(s.Elem()) {
				if v.n == w.zero {
					return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: []*Term{}}, off: w.zero, len: w.zero, cap: w.zero}
				}
				if v.isLit() {
					n := len(v.lit())
					c := roundSize(n)
					b := make([]*Term, c)
					copy(b, v.lit())
					for i := n; i < c; i++ {
						b[i] = w.bytes[0]
					}
					return Slice{a: &ByteArr{objHdr: objHdr{w.epoch()}, lit: b}, off: w.zero, len: w.cint(n), cap: w.cint(c)}
				}
				return w.byteSlice(v)
			}
			// []rune
			it := &mapIter{s: v}
			a := &ArrObj{objHdr: objHdr{w.epoch()}, elem: s.Elem()}
			for {
				t := w.next(&ssa.Next{IsString: true}, it).(Tuple)
				if t[0].(*Term).IsFalse() {
					break
				}
				a.e = append(a.e, t[2])
			}
			n := w.cint(len(a.e))
			return Slice{a: a, off: w.zero, len: n, cap: n}
		}
		return v
	case Slice:
		if isString(tu) {
			if s, ok := fu.(*types.Slice); ok && isByteType(s.Elem()) {
				return w.sliceRope(v)
			}
			var rs []*Rope
			for _, e := range w.sliceElems(v) {
				rs = append(rs, w.convert(types.Typ[types.Rune], types.Typ[types.String], e).(*Rope))
			}
			return w.concat(rs...)
		}
		return v
	case Ptr:
		if tw, _, ok := intInfo(tu); ok {
			// uintptr: only nil-ness and a stable fake address
			if v.c == nil {
				return T.Const(tw, 0)
			}
			w.unsupported("pointer to integer conversion")
		}
		return v
	case Complex:
		return v
	}
	return x
}

// ---- path execution --------------------------------------------------------------------

func (w *Worker) runPath(it item) {
	if w.T.n > 3000000 {
		w.reset()
	}
	w.pathNo++
	h := w.h
	w.p = &Path{prefix: it.prefix, dom: map[*Term]*domSet{}, coupled: map[*Term]bool{}, appKey: map[string]int{}, names: map[string]int{}, uf: map[string]Value{}}
	if it.model != nil {
		w.p.model = w.newModel(it.model)
	}
	w.initDepth = 0
	w.capture = 0
	w.cur, w.curFr = nil, nil
	fn := w.eng.harnessFn(h.name)
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
				atomic.AddInt64(&h.completed, 1)
				h.pathDone(w)
			case pathAbort:
				switch r.kind {
				case abInfeasible:
					atomic.AddInt64(&h.infeasible, 1)
				case abDone:
					atomic.AddInt64(&h.completed, 1)
				case abCut:
					atomic.AddInt64(&h.cut, 1)
					h.cutMsg("cut: " + r.msg)
					w.replayCut("cut: " + r.msg)
				case abUnsupported:
					atomic.AddInt64(&h.unsup, 1)
					h.cutMsg("unsupported: " + r.msg)
					w.replayCut("unsupported: " + r.msg)
				case abDeadline:
					h.mu.Lock()
					h.timedOut = true
					h.mu.Unlock()
					if w.eng.stopAt.Load() == 0 {
						w.replayCut("time limit")
					}
				}
			case *goPanic:
				atomic.AddInt64(&h.panics, 1)
				if w.replayingPanic() {
					break
				}
				w.safeCandidate("panic", nil)
			default:
				atomic.AddInt64(&h.unsup, 1)
				h.cutMsg(fmt.Sprintf("engine: %v at %s", r, w.where()))
				if w.eng.verbose {
					fmt.Fprintf(os.Stderr, "engine panic: %v at %s\n%s\n%s\n", r, w.where(), w.stack(), debug.Stack())
				}
				w.replayCut("engine")
			}
			if gp, ok := r.(*goPanic); ok && w.eng.verbose {
				h.cutMsg("panic: " + gp.msg + " at " + gp.where)
			}
		}()
		w.call(nil, fn, nil, nil)
	}()
	atomic.AddInt64(&h.steps, int64(w.p.steps))
	for k := len(w.undo) - 1; k >= 0; k-- {
		w.undo[k]()
	}
	w.undo = w.undo[:0]
	w.p = nil
}

func (w *Worker) replayingPanic() bool { return false }

// safeCandidate reports a candidate outside the execution of the path (after a panic unwound).
func (w *Worker) safeCandidate(label string, extra []*Term) {
	defer func() {
		if r := recover(); r != nil {
			w.h.addInconclusive(fmt.Sprintf("%s: candidate evaluation failed: %v", label, r))
		}
	}()
	m := w.p.model
	if m == nil {
		r, m2 := w.smt.Check(w.p.conds, nil, true)
		if r == Unsat {
			return
		}
		if m2 == nil {
			w.h.addInconclusive(label + ": no model")
			return
		}
		m = w.newModel(m2)
	}
	w.candidate(label, extra, m)
}

func (w *Worker) replayCut(why string) {
	// a path that could not be completed is at least executed natively on one of its inputs
	h := w.h
	h.mu.Lock()
	h.attempts["cut"]++
	n := h.attempts["cut"]
	h.mu.Unlock()
	if n > 24 || w.p.model == nil {
		return
	}
	a := w.assignment(w.p.model)
	if a == nil {
		return
	}
	res, out := w.eng.replay(h.name, a)
	if res == "violation" || res == "panic" || res == "hang" {
		h.addViolation("replay-of-cut-path", res, out, a, w.eng)
	}
}

func (h *harness) cutMsg(s string) {
	h.mu.Lock()
	h.cutMsgs[s]++
	h.mu.Unlock()
}

// pathDone keeps a sample of completed paths and validates some of them natively.
func (h *harness) pathDone(w *Worker) {
	p := w.p
	h.mu.Lock()
	for _, c := range p.covers {
		h.covers[c] = true
	}
	if len(p.inputs) > h.inputsMax {
		h.inputsMax = len(p.inputs)
	}
	n := h.completed
	take := n <= 4 || n&(n-1) == 0
	h.mu.Unlock()
	if !take || p.model == nil {
		return
	}
	// validation: the model of a completed path must pass natively too (hash values permitting)
	k, _, _, ok := w.hashMismatch(p.model, false)
	a := w.assignment(p.model)
	if a == nil {
		return
	}
	h.mu.Lock()
	if len(h.samples) < 4 {
		h.samples = append(h.samples, h.name+": "+a.brief(300))
	}
	h.mu.Unlock()
	res, out := w.eng.replay(h.name, a)
	h.mu.Lock()
	defer h.mu.Unlock()
	same := ok && k < 0
	switch res {
	case "ok", "assume":
		h.validated++
		if !same {
			h.otherHash++ // the real hash values differ from the model's
		}
	case "violation", "panic", "hang":
		if !p.stubbed && same {
			h.validErr = append(h.validErr, res+": "+out)
		}
		if len(h.viol["native"]) == 0 {
			h.viol["native"] = append(h.viol["native"], violation{label: "native-run", kind: res, out: out, assign: a})
		}
	}
}

func bigFromBytes(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = math.Pi
