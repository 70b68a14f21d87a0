package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// W is one worker: it executes paths of the program symbolically.
type W struct {
	id       int
	p        *Prog
	ts       *Terms
	z, z2    *Solver
	npath    int64
	foldedN  int64
	ex       *Explorer
	baseMode bool
	globs    []*Obj
	inited   map[pkgKey]bool
	epoch    int64
	journal  []jrec
	mjournal []mjrec
	sums     map[sumKey]*sumVal

	// per path
	prefix        []int64
	npick         int
	picks         []int64
	dom           []Mask
	dom0          []Mask
	ent           []bool
	pc            []*Term
	multi         []*Term
	eqs           [][2]int32
	asserts       []assertRec
	inputs        []input
	obs           []obsRec
	covers        map[string]bool
	steps         int64
	limit         int64
	task          *Task
	depth         int
	spec          int
	fnSeen        map[*Fn]bool
	decs          map[int32]decRec
	stk           []V
	sp            int
	panics        []*TPanic
	thID          int32
	stk2          []V
	race          string
	raw           []*Term // bytes asserted equal that are equal by construction
	batch         []batchItem
	schedSwitched bool
	par           *parState
	nfork         int
	pools         map[*Obj][]V
	locks         map[lockID]int
	files         map[string]*Str
	curFn         *Fn
	lastFn        *Fn
	curBlk        *Block
}

type jrec struct {
	o    *Obj
	save []V
}
type mjrec struct {
	m    *MapV
	k, v []V
}

type assertRec struct {
	t     *Term
	label string
}

type input struct {
	v int   // variable index, or -1
	k int64 // concrete value otherwise
}

type obsRec struct {
	label string
	v     V
}

// TPanic is a panic of the program under test.
type TPanic struct {
	v         V
	msg       string
	recovered bool
	where     string
}

// endPath ends the current path.
type endPath struct {
	kind   string // "infeasible", "incomplete", "steps", "fail", "done"
	reason string
}

func (w *W) incomplete(format string, a ...any) {
	panic(endPath{"incomplete", fmt.Sprintf(format, a...)})
}

func (w *W) rtPanic(format string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(&TPanic{v: w.mkErr(mkStr(msg)), msg: msg})
}

// mkErr builds an error value (*errors.errorString).
func (w *W) mkErr(s V) V {
	o := w.newObj(1)
	o.s[0] = s
	return V{p: &Iface{t: w.p.errStr, v: V{p: o}}}
}

type deferred struct {
	in   *Instr
	fv   V
	fn   *Fn
	args []V
}

type Frame struct {
	fn     *Fn
	regs   []V
	defers []deferred
	pan    *TPanic
}

func (w *W) get(fr *Frame, r int32) V {
	if r >= 0 {
		return fr.regs[r]
	}
	return fr.fn.consts[-r-1]
}

func (w *W) allocRegs(n int) []V {
	if w.sp+n > len(w.stk) {
		return make([]V, n)
	}
	r := w.stk[w.sp : w.sp+n : w.sp+n]
	w.sp += n
	return r
}

func (w *W) callFn(fn *Fn, args []V, bind []V) V {
	if fn.intr != nil {
		if r, ok := fn.intr(w, fn, args); ok {
			return r
		}
	}
	if fn.noBody {
		w.incomplete("no body: %s", fn.name)
	}
	if fn.pkg != "" && fn.name == fn.pkg+".init" && !w.baseMode {
		return V{}
	}
	if debugForks {
		w.lastFn = fn
	}
	if len(args) == fn.nparams {
		if r, ok := w.summary(fn, args); ok {
			return r
		}
	}
	w.depth++
	if w.depth > 1500 {
		panic(endPath{"steps", "call depth"})
	}
	if !w.fnSeen[fn] {
		w.fnSeen[fn] = true
		for _, g := range fn.inl {
			w.fnSeen[g] = true
		}
	}
	sp := w.sp
	fr := Frame{fn: fn, regs: w.allocRegs(fn.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], bind)
	var res V
	if fn.hasDef {
		res = w.runDef(&fr)
	} else {
		res = w.run(&fr, 0, -1)
	}
	w.depth--
	w.sp = sp
	return res
}

// runDef runs a function that has defer statements.
func (w *W) runDef(fr *Frame) (res V) {
	depth, sp := w.depth, w.sp
	pan := func() (tp *TPanic) {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(*TPanic); ok {
					tp = t
					return
				}
				panic(r)
			}
		}()
		res = w.run(fr, 0, -1)
		return nil
	}()
	if pan == nil {
		return res
	}
	for {
		w.depth, w.sp = depth, sp
		fr.pan = pan
		np := func() (tp *TPanic) {
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(*TPanic); ok {
						tp = t
						return
					}
					panic(r)
				}
			}()
			w.panics = append(w.panics, pan)
			n := len(w.panics)
			w.runDefers(fr)
			w.panics = w.panics[:n-1]
			return nil
		}()
		if np == nil {
			break
		}
		// a deferred call panicked: it replaces the current panic
		if len(w.panics) > 0 {
			w.panics = w.panics[:len(w.panics)-1]
		}
		pan = np
	}
	if !pan.recovered {
		panic(pan)
	}
	w.depth, w.sp = depth, sp
	if fr.fn.recover >= 0 {
		return w.run(fr, fr.fn.recover, -1)
	}
	// no named results: zero values
	if len(fr.fn.results) == 1 {
		return V{}
	}
	if len(fr.fn.results) > 1 {
		return V{p: &Tup{s: make([]V, len(fr.fn.results))}}
	}
	return V{}
}

func (w *W) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.runDeferred(d)
	}
}

func (w *W) runDeferred(d deferred) {
	switch d.in.op {
	case opCallBuiltin:
		w.builtin(d.in, d.args)
	case opCallClosure:
		w.callClosure(d.fv, d.args)
	default:
		w.callFn(d.fn, d.args, nil)
	}
}

func (w *W) callClosure(fv V, args []V) V {
	c, ok := fv.p.(*Closure)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(w, args)
	}
	fn := c.fn
	if fn == nil {
		fn = w.p.fn(c.ssa)
	}
	return w.callFn(fn, args, c.bind)
}

// enter performs the phis of block b reached over predecessor edge e.
func enterBlock(fn *Fn, regs []V, b *Block, e int) {
	n := len(b.phiDst)
	if n == 0 {
		return
	}
	src := b.phiSrc[e]
	if n == 1 {
		r := src[0]
		if r >= 0 {
			regs[b.phiDst[0]] = regs[r]
		} else {
			regs[b.phiDst[0]] = fn.consts[-r-1]
		}
		return
	}
	var tmp [16]V
	t := tmp[:0]
	for _, r := range src {
		if r >= 0 {
			t = append(t, regs[r])
		} else {
			t = append(t, fn.consts[-r-1])
		}
	}
	for i, d := range b.phiDst {
		regs[d] = t[i]
	}
}

func (w *W) run(fr *Frame, bi int, edge int) V {
	fn := fr.fn
	b := fn.blocks[bi]
	if edge >= 0 {
		enterBlock(fn, fr.regs, b, edge)
	}
	for {
		w.steps += int64(len(b.ins)) + 1
		if w.steps > w.limit {
			panic(endPath{"steps", "step limit in " + fn.name})
		}
		next := -1
		for i := range b.ins {
			in := &b.ins[i]
			if in.pure {
				switch in.op {
				case opJump:
					next = 0
				case opIf:
					c := w.get(fr, in.a)
					if t, ok := c.p.(*Term); ok {
						w.curFn, w.curBlk = fn, b
						if t.v >= 0 {
							nb, done := w.mergeBranch(fr, b, t)
							if done {
								b = nb
								goto entered
							}
							// fallthrough to a plain decision
						}
						if w.decideBool(t) {
							next = 0
						} else {
							next = 1
						}
					} else if c.n != 0 {
						next = 0
					} else {
						next = 1
					}
				default:
					w.pureOp(fr, in, false)
				}
				continue
			}
			if in.op == opReturn {
				switch len(in.args) {
				case 0:
					return V{}
				case 1:
					return w.get(fr, in.args[0])
				}
				t := &Tup{s: make([]V, len(in.args))}
				for j, r := range in.args {
					t.s[j] = w.get(fr, r)
				}
				return V{p: t}
			}
			w.slowOp(fr, in)
		}
		{
			e := b.succEdge[next]
			b = fn.blocks[b.succs[next]]
			enterBlock(fn, fr.regs, b, e)
		}
	entered:
	}
}

func (w *W) toTerm(v V, ti *TI) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	if ti.kind == KBool {
		return w.ts.boolT(v.n != 0)
	}
	if v.p != nil {
		w.incomplete("non-scalar in arithmetic")
	}
	return w.ts.konst(ti.w, v.n)
}

func fromTerm(t *Term, ti *TI) V {
	if t.op == OConst {
		if ti.kind == KBool {
			return V{n: t.k}
		}
		return V{n: normK(t.k, ti.w, ti.signed)}
	}
	return V{p: t}
}

func (w *W) boolV(t *Term) V {
	if t.op == OConst {
		return V{n: t.k}
	}
	return V{p: t}
}

func b2n(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

// pureOp executes an operation that has no effect but on its register. With
// spec it returns false where it would have to fork, panic or allocate.
func (w *W) pureOp(fr *Frame, in *Instr, spec bool) bool {
	regs := fr.regs
	switch in.op {
	case opBin:
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		if in.ti.kind == KInt && a.p == nil && b.p == nil {
			switch in.tok {
			case token.ADD:
				regs[in.dst] = V{n: normK(a.n+b.n, in.ti.w, in.ti.signed)}
				return true
			case token.SUB:
				regs[in.dst] = V{n: normK(a.n-b.n, in.ti.w, in.ti.signed)}
				return true
			case token.EQL:
				regs[in.dst] = b2n(a.n == b.n)
				return true
			case token.NEQ:
				regs[in.dst] = b2n(a.n != b.n)
				return true
			case token.LSS:
				if in.ti.signed {
					regs[in.dst] = b2n(int64(a.n) < int64(b.n))
				} else {
					regs[in.dst] = b2n(a.n < b.n)
				}
				return true
			}
		}
		v, ok := w.binop(in, a, b, spec)
		if !ok {
			return false
		}
		regs[in.dst] = v
		return true
	case opNot:
		a := w.get(fr, in.a)
		if t, ok := a.p.(*Term); ok {
			regs[in.dst] = w.boolV(w.ts.not(t))
		} else {
			regs[in.dst] = V{n: a.n ^ 1}
		}
		return true
	case opNeg:
		a := w.get(fr, in.a)
		switch in.ti.kind {
		case KFloat:
			if a.p != nil {
				if spec {
					return false
				}
				w.incomplete("symbolic float negation")
			}
			if in.ti.w == 32 {
				regs[in.dst] = V{n: uint64(math.Float32bits(-math.Float32frombits(uint32(a.n))))}
			} else {
				regs[in.dst] = V{n: math.Float64bits(-f64(a))}
			}
		case KInt:
			if t, ok := a.p.(*Term); ok {
				regs[in.dst] = fromTerm(w.ts.mk(OSub, in.ti.w, w.ts.konst(in.ti.w, 0), t), in.ti)
			} else {
				regs[in.dst] = V{n: normK(-a.n, in.ti.w, in.ti.signed)}
			}
		default:
			w.incomplete("negation of kind %d", in.ti.kind)
		}
		return true
	case opCompl:
		a := w.get(fr, in.a)
		if t, ok := a.p.(*Term); ok {
			regs[in.dst] = fromTerm(w.ts.mk(OXor, in.ti.w, t, w.ts.konst(in.ti.w, ^uint64(0))), in.ti)
		} else {
			regs[in.dst] = V{n: normK(^a.n, in.ti.w, in.ti.signed)}
		}
		return true
	case opCopy:
		regs[in.dst] = w.get(fr, in.a)
		return true
	case opLen:
		switch x := w.get(fr, in.a).p.(type) {
		case *Slice:
			regs[in.dst] = V{n: uint64(x.len)}
		case *Str:
			regs[in.dst] = V{n: uint64(x.len())}
		default:
			regs[in.dst] = V{}
		}
		return true
	case opExtract:
		a := w.get(fr, in.a)
		if t, ok := a.p.(*Tup); ok {
			regs[in.dst] = t.s[in.n]
		} else {
			regs[in.dst] = V{}
		}
		return true
	case opField:
		a := w.get(fr, in.a)
		g, ok := a.p.(*Agg)
		if !ok {
			regs[in.dst] = V{}
			return true
		}
		switch in.ti.kind {
		case KStruct, KArray:
			regs[in.dst] = V{p: &Agg{s: g.s[in.n : in.n+in.ti.size]}}
		default:
			regs[in.dst] = g.s[in.n]
		}
		return true
	case opFieldAddr:
		a := w.get(fr, in.a)
		o, ok := a.p.(*Obj)
		if !ok {
			if spec {
				return false
			}
			if sp, ok := a.p.(*SymPtr); ok {
				a = w.resolve(sp)
				o = a.p.(*Obj)
			} else {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
		}
		regs[in.dst] = V{n: a.n + uint64(in.n), p: o}
		return true
	case opIndexAddr:
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		s, _ := a.p.(*Slice)
		if s == nil {
			if spec {
				return false
			}
			if a.p != nil {
				w.incomplete("index of reinterpreted value")
			}
			if b.p != nil {
				w.rtPanic("index out of range with length 0")
			}
			w.rtPanic("index out of range [%d] with length 0", int64(b.n))
		}
		if b.p != nil {
			v, ok := w.symIndex(s.obj, s.off, in.n, s.len, b, in, spec)
			if !ok {
				return false
			}
			regs[in.dst] = v
			return true
		}
		if int64(b.n) < 0 || int64(b.n) >= int64(s.len) {
			if spec {
				return false
			}
			w.rtPanic("index out of range [%d] with length %d", int64(b.n), s.len)
		}
		regs[in.dst] = V{n: uint64(s.off + int(b.n)*in.n), p: s.obj}
		return true
	case opIndexAddrArr:
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		o, ok := a.p.(*Obj)
		if !ok {
			if spec {
				return false
			}
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		if b.p != nil {
			v, ok := w.symIndex(o, int(a.n), in.n, in.m, b, in, spec)
			if !ok {
				return false
			}
			regs[in.dst] = v
			return true
		}
		if int64(b.n) < 0 || int64(b.n) >= int64(in.m) {
			if spec {
				return false
			}
			w.rtPanic("index out of range [%d] with length %d", int64(b.n), in.m)
		}
		regs[in.dst] = V{n: a.n + b.n*uint64(in.n), p: o}
		return true
	case opIndex:
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		if in.ti.kind == KString {
			s := a.str()
			if t, ok := b.p.(*Term); ok {
				v, ok := w.symStrIndex(s, t, in.ti2, spec)
				if !ok {
					return false
				}
				regs[in.dst] = v
				return true
			}
			if int64(b.n) < 0 || int64(b.n) >= int64(s.len()) {
				if spec {
					return false
				}
				w.rtPanic("index out of range [%d] with length %d", int64(b.n), s.len())
			}
			regs[in.dst] = s.at(int(b.n))
			return true
		}
		// array value
		if b.p != nil {
			if spec {
				return false
			}
			b = V{n: w.concretize(b, in.ti2)}
		}
		if int64(b.n) < 0 || int64(b.n) >= int64(in.ti.alen) {
			if spec {
				return false
			}
			w.rtPanic("index out of range [%d] with length %d", int64(b.n), in.ti.alen)
		}
		g, ok := a.p.(*Agg)
		if !ok {
			regs[in.dst] = V{}
			return true
		}
		es := in.ti.elem.size
		if in.ti.elem.kind == KStruct || in.ti.elem.kind == KArray {
			regs[in.dst] = V{p: &Agg{s: g.s[int(b.n)*es : int(b.n)*es+es]}}
		} else {
			regs[in.dst] = g.s[b.n]
		}
		return true
	case opLoad:
		a := w.get(fr, in.a)
		switch o := a.p.(type) {
		case *Obj:
			if w.par != nil {
				w.par.access(w, o, int(a.n), false)
			}
			regs[in.dst] = w.load(o, int(a.n), in.ti)
			return true
		case *SymPtr:
			v, ok := w.loadSym(o, in.ti, spec)
			if !ok {
				return false
			}
			regs[in.dst] = v
			return true
		case nil:
			if spec {
				return false
			}
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		if spec {
			return false
		}
		w.incomplete("load through %T", a.p)
	case opLookup:
		if spec {
			return false
		}
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		m, _ := a.p.(*MapV)
		i := -1
		if m != nil {
			if w.par != nil {
				w.par.accessMap(w, m, false)
			}
			i = w.mapFind(m, b, in.ti.key)
		}
		var v V
		if i >= 0 {
			v = m.vals[i]
		}
		if in.commaOk {
			regs[in.dst] = V{p: &Tup{s: []V{v, b2n(i >= 0)}}}
		} else {
			regs[in.dst] = v
		}
		return true
	case opConvert:
		a := w.get(fr, in.a)
		v, ok := w.convert(in, a, spec)
		if !ok {
			return false
		}
		regs[in.dst] = v
		return true
	case opGlobal:
		regs[in.dst] = V{p: w.global(in.n)}
		return true
	case opNop:
		return true
	}
	if spec {
		return false
	}
	w.incomplete("op %d", in.op)
	return true
}

func (w *W) load(o *Obj, off int, ti *TI) V {
	switch ti.kind {
	case KStruct, KArray:
		g := &Agg{s: make([]V, ti.size)}
		copy(g.s, o.s[off:off+ti.size])
		return V{p: g}
	case KString:
		v := o.s[off]
		if sl, ok := v.p.(*Slice); ok { // *(*string)(unsafe.Pointer(&bytes))
			return strOfSlots(sl.obj.slots(sl))
		}
		return v
	case KSlice:
		v := o.s[off]
		if st, ok := v.p.(*Str); ok {
			return w.sliceOfStr(st, st.len())
		}
		return v
	}
	return o.s[off]
}

func (w *W) touch(o *Obj) {
	if o.base && !w.baseMode && o.epoch != w.epoch {
		o.epoch = w.epoch
		w.journal = append(w.journal, jrec{o, append([]V(nil), o.s...)})
	}
}

func (w *W) store(o *Obj, off int, v V, ti *TI) {
	w.touch(o)
	switch ti.kind {
	case KStruct, KArray:
		if g, ok := v.p.(*Agg); ok {
			copy(o.s[off:off+ti.size], g.s)
		} else {
			for i := 0; i < ti.size; i++ {
				o.s[off+i] = V{}
			}
		}
	default:
		o.s[off] = v
	}
}

func (w *W) global(idx int) *Obj {
	for idx >= len(w.globs) {
		w.globs = append(w.globs, nil)
	}
	if o := w.globs[idx]; o != nil {
		return o
	}
	w.p.mu.Lock()
	g := w.p.globs[idx]
	w.p.mu.Unlock()
	w.initPkg(g.Pkg)
	if o := w.globs[idx]; o != nil {
		return o
	}
	ti := w.p.ti(g.Type())
	el := w.p.elemOf(ti)
	o := &Obj{s: make([]V, el.size), base: true}
	w.globs[idx] = o
	return o
}

// initPkg runs a package's initialiser (its own part only) as base state.
func (w *W) initPkg(pk *ssa.Package) {
	if w.inited[pk] {
		return
	}
	w.inited[pk] = true
	f := pk.Func("init")
	if f == nil || skipInit[pk.Pkg.Path()] {
		return
	}
	save := *w
	w.baseMode = true
	w.par = nil
	w.limit = 1 << 40
	w.depth = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.ex.note(fmt.Sprintf("init of %s stopped: %v", pk.Pkg.Path(), r))
			}
		}()
		w.runInit(f)
	}()
	globs, journal, mj := w.globs, w.journal, w.mjournal
	prefix, npick := save.prefix, save.npick
	*w = save
	w.globs, w.journal, w.mjournal = globs, journal, mj
	w.prefix, w.npick = prefix, npick
}

func (w *W) runInit(f *ssa.Function) {
	fn := w.p.fn(f)
	fr := Frame{fn: fn, regs: make([]V, fn.nregs)}
	w.run(&fr, 0, -1)
}

func (w *W) slowOp(fr *Frame, in *Instr) {
	regs := fr.regs
	switch in.op {
	case opAlloc:
		regs[in.dst] = V{p: w.newObj(in.ti.size)}
	case opStore:
		a := w.get(fr, in.a)
		v := w.get(fr, in.b)
		switch o := a.p.(type) {
		case *Obj:
			if w.par != nil {
				w.par.access(w, o, int(a.n), true)
			}
			w.store(o, int(a.n), v, in.ti)
		case *SymPtr:
			pv := w.resolve(o)
			if w.par != nil {
				w.par.access(w, pv.p.(*Obj), int(pv.n), true)
			}
			w.store(pv.p.(*Obj), int(pv.n), v, in.ti)
		case nil:
			w.rtPanic("invalid memory address or nil pointer dereference")
		default:
			w.incomplete("store through %T", a.p)
		}
	case opCallStatic:
		cell := in.aux.(*fnCell)
		fn := cell.Load()
		if fn == nil {
			fn = w.p.fn(in.fn)
			cell.Store(fn)
		}
		if w.baseMode && in.fn.Name() == "init" && in.fn.Pkg != nil && in.fn.Signature.Recv() == nil && in.fn.Parent() == nil && in.fn.Synthetic != "" && in.fn.Pkg != fr.fn.ssa.Pkg {
			return // imported packages are initialised on first access
		}
		var buf [8]V
		args := buf[:0]
		for _, r := range in.args {
			args = append(args, w.get(fr, r))
		}
		sp0, depth0 := w.sp, w.depth
		if w.baseMode && fr.fn.ssa.Synthetic != "" && fr.fn.ssa.Name() == "init" && fr.fn.ssa.Signature.Recv() == nil {
			// one variable that cannot be initialised does not stop the others
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.ex.note(fmt.Sprintf("init of %s: %s: %v", fr.fn.ssa.Pkg.Pkg.Path(), fn.name, r))
						w.sp, w.depth = sp0, depth0
					}
				}()
				v := w.callFn(fn, args, nil)
				if in.dst >= 0 {
					regs[in.dst] = v
				}
			}()
			return
		}
		v := w.callFn(fn, args, nil)
		if in.dst >= 0 {
			regs[in.dst] = v
		}
	case opCallBuiltin:
		args := make([]V, len(in.args))
		for i, r := range in.args {
			args[i] = w.get(fr, r)
		}
		v := w.builtin(in, args)
		if in.dst >= 0 {
			regs[in.dst] = v
		}
	case opCallClosure:
		args := make([]V, len(in.args))
		for i, r := range in.args {
			args[i] = w.get(fr, r)
		}
		v := w.callClosure(w.get(fr, in.a), args)
		if in.dst >= 0 {
			regs[in.dst] = v
		}
	case opInvoke:
		fn, args := w.invokeTarget(fr, in)
		v := w.callFn(fn, args, nil)
		if in.dst >= 0 {
			regs[in.dst] = v
		}
	case opDefer:
		fr.defers = append(fr.defers, w.prepCall(fr, in.aux.(*Instr)))
	case opGo:
		d := w.prepCall(fr, in.aux.(*Instr))
		w.spawn(d)
	case opMakeClosure:
		c := &Closure{ssa: in.fn, bind: make([]V, len(in.args))}
		for i, r := range in.args {
			c.bind[i] = w.get(fr, r)
		}
		regs[in.dst] = V{p: c}
	case opMakeIface:
		regs[in.dst] = V{p: &Iface{t: in.ti, v: w.get(fr, in.a)}}
	case opMakeMap:
		regs[in.dst] = V{p: &MapV{base: w.baseMode, th: w.thID}}
	case opMakeSlice:
		ln := int64(w.conc(w.get(fr, in.a), in.ti2))
		cp := int64(w.conc(w.get(fr, in.b), in.ti2))
		if ln < 0 || ln > 1<<24 {
			w.rtPanic("makeslice: len out of range")
		}
		if cp < ln || cp > 1<<24 {
			w.rtPanic("makeslice: cap out of range")
		}
		o := w.newObj(int(cp) * in.ti.elem.size)
		regs[in.dst] = V{p: &Slice{obj: o, len: int(ln), cap: int(cp)}}
	case opMapUpdate:
		m, _ := w.get(fr, in.a).p.(*MapV)
		if m == nil {
			msg := "assignment to entry in nil map"
			panic(&TPanic{v: w.mkErr(mkStr(msg)), msg: msg})
		}
		if w.par != nil {
			w.par.accessMap(w, m, true)
		}
		k := w.get(fr, in.b)
		v := w.get(fr, in.c)
		i := w.mapFind(m, k, in.ti.key)
		w.touchMap(m)
		if i >= 0 {
			m.vals[i] = v
		} else {
			m.keys = append(m.keys, k)
			m.vals = append(m.vals, v)
		}
	case opNext:
		regs[in.dst] = w.next(w.get(fr, in.a).p.(*Iter), in.commaOk)
	case opPanic:
		v := w.get(fr, in.a)
		panic(&TPanic{v: v, msg: w.describe(v)})
	case opRange:
		x := w.get(fr, in.a)
		if in.ti.kind == KString {
			regs[in.dst] = V{p: &Iter{str: x.str()}}
		} else {
			m, _ := x.p.(*MapV)
			it := &Iter{m: m, ti: in.ti}
			if m != nil {
				it.perm = w.mapOrder(fr.fn, len(m.keys))
			}
			regs[in.dst] = V{p: it}
		}
	case opRunDefers:
		w.runDefers(fr)
	case opSlice:
		regs[in.dst] = w.sliceOp(fr, in)
	case opTypeAssert:
		regs[in.dst] = w.typeAssert(w.get(fr, in.a), in)
	case opUnsupported:
		w.incomplete("unsupported: %v", in.aux)
	default:
		w.incomplete("slow op %d", in.op)
	}
}

func (w *W) prepCall(fr *Frame, in *Instr) deferred {
	d := deferred{in: in}
	switch in.op {
	case opInvoke:
		d.fn, d.args = w.invokeTarget(fr, in)
		return d
	case opCallClosure:
		d.fv = w.get(fr, in.a)
	case opCallStatic:
		d.fn = w.p.fn(in.fn)
	}
	for _, r := range in.args {
		d.args = append(d.args, w.get(fr, r))
	}
	return d
}

func (w *W) invokeTarget(fr *Frame, in *Instr) (*Fn, []V) {
	recv := w.get(fr, in.a)
	ifc, ok := recv.p.(*Iface)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := w.p.method(ifc.t, in.aux.(*types.Func))
	if fn == nil {
		w.incomplete("method %v of %v", in.aux, ifc.t.t)
	}
	args := make([]V, 0, len(in.args)+1)
	args = append(args, ifc.v)
	for _, r := range in.args {
		args = append(args, w.get(fr, r))
	}
	return fn, args
}

func (w *W) touchMap(m *MapV) {
	if m.base && !w.baseMode && m.epoch != w.epoch {
		m.epoch = w.epoch
		w.mjournal = append(w.mjournal, mjrec{m, append([]V(nil), m.keys...), append([]V(nil), m.vals...)})
	}
}

func (w *W) mapFind(m *MapV, k V, kt *TI) int {
	for i := range m.keys {
		t := w.eqTerm(m.keys[i], k, kt)
		if t.isConst() {
			if t.k != 0 {
				return i
			}
			continue
		}
		if w.decideBool(t) {
			return i
		}
	}
	return -1
}

func (w *W) sliceOp(fr *Frame, in *Instr) V {
	x := w.get(fr, in.a)
	idx := func(r int32, def int) int {
		if r == minReg {
			return def
		}
		v := w.get(fr, r)
		if v.p != nil {
			return int(w.concretize(v, w.p.ti(types.Typ[types.Int])))
		}
		return int(v.n)
	}
	switch in.ti.kind {
	case KString:
		s := x.str()
		lo := idx(in.b, 0)
		hi := idx(in.c, s.len())
		if hi < 0 || hi > s.len() {
			w.rtPanic("slice bounds out of range [:%d] with length %d", hi, s.len())
		}
		if lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return s.slice(lo, hi)
	case KSlice:
		s, _ := x.p.(*Slice)
		if s == nil {
			if x.p != nil {
				w.incomplete("slice of reinterpreted value")
			}
			lo, hi := idx(in.b, 0), idx(in.c, 0)
			mx := idx(in.d, 0)
			if lo != 0 || hi != 0 || mx != 0 {
				w.rtPanic("slice bounds out of range [%d:%d] with capacity 0", lo, hi)
			}
			return V{}
		}
		lo := idx(in.b, 0)
		hi := idx(in.c, s.len)
		mx := idx(in.d, s.cap)
		if mx < 0 || mx > s.cap {
			w.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, s.cap)
		}
		if hi < 0 || hi > mx {
			w.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, s.cap)
		}
		if lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return V{p: &Slice{obj: s.obj, off: s.off + lo*in.n, len: hi - lo, cap: mx - lo}}
	case KPtr:
		o, ok := x.p.(*Obj)
		if !ok {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		lo := idx(in.b, 0)
		hi := idx(in.c, in.m)
		mx := idx(in.d, in.m)
		if mx < 0 || mx > in.m || hi < 0 || hi > mx || lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range [%d:%d] with length %d", lo, hi, in.m)
		}
		return V{p: &Slice{obj: o, off: int(x.n) + lo*in.n, len: hi - lo, cap: mx - lo}}
	}
	w.incomplete("slice of kind %d", in.ti.kind)
	return V{}
}

func (w *W) typeAssert(x V, in *Instr) V {
	ifc, _ := x.p.(*Iface)
	ok := false
	var v V
	if ifc != nil {
		if in.ti.kind == KIface {
			w.p.mu.Lock()
			ok = types.Implements(ifc.t.t, in.ti.u.(*types.Interface))
			w.p.mu.Unlock()
			if ok {
				v = x
			}
		} else if ifc.t == in.ti {
			ok = true
			v = ifc.v
		}
	}
	if in.commaOk {
		return V{p: &Tup{s: []V{v, b2n(ok)}}}
	}
	if !ok {
		w.rtPanic("interface conversion: wrong type for %v", in.ti.t)
	}
	return v
}

func (w *W) describe(v V) string {
	ifc, _ := v.p.(*Iface)
	if ifc == nil {
		return "panic(nil)"
	}
	switch ifc.t.kind {
	case KString:
		if s, ok := ifc.v.str().concrete(); ok {
			return s
		}
		return "panic with a symbolic string"
	case KInt:
		return fmt.Sprint(int64(ifc.v.n))
	}
	if ifc.t == w.p.errStr {
		if o, ok := ifc.v.p.(*Obj); ok {
			if s, ok := o.s[0].str().concrete(); ok {
				return s
			}
		}
	}
	return fmt.Sprintf("panic value of type %v", ifc.t.t)
}

func (w *W) next(it *Iter, isStr bool) V {
	if it.str != nil {
		s := it.str
		if it.pos >= s.len() {
			return V{p: &Tup{s: []V{{}, {}, {}}}}
		}
		r, n := w.decodeRune(s, it.pos)
		p := it.pos
		it.pos += n
		return V{p: &Tup{s: []V{{n: 1}, {n: uint64(p)}, r}}}
	}
	if it.m == nil || it.pos >= len(it.perm) {
		return V{p: &Tup{s: []V{{}, {}, {}}}}
	}
	i := it.perm[it.pos]
	it.pos++
	if i >= len(it.m.keys) {
		return w.next(it, isStr)
	}
	return V{p: &Tup{s: []V{{n: 1}, it.m.keys[i], it.m.vals[i]}}}
}
