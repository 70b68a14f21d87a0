package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KFunc
	KIface
	KChan
	KStruct
	KArray
	KTuple
)

// TI is the engine's description of a Go type.
type TI struct {
	t      types.Type
	u      types.Type
	kind   Kind
	size   int // slots
	w      uint8
	signed bool
	elem   *TI
	key    *TI
	fields []*TI
	foff   []int
	alen   int
	id     int
}

type Prog struct {
	prog   *ssa.Program
	pkgs   []*ssa.Package
	mu     sync.Mutex
	tis    typeutil.Map
	ntis   int
	fns    sync.Map // *ssa.Function -> *Fn
	glob   map[*ssa.Global]int
	globs  []*ssa.Global
	meths  sync.Map // methKey -> *Fn
	errStr *TI      // *errors.errorString
	msets  typeutil.MethodSetCache
	// functions being compiled
	inlining map[*ssa.Function]bool
	sizes    types.Sizes
}

func (p *Prog) ti(t types.Type) *TI {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tiL(t)
}

func (p *Prog) tiL(t types.Type) *TI {
	if x := p.tis.At(t); x != nil {
		return x.(*TI)
	}
	ti := &TI{t: t, u: t.Underlying(), size: 1, id: p.ntis}
	p.ntis++
	p.tis.Set(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KInt
			switch u.Kind() {
			case types.Int8:
				ti.w, ti.signed = 8, true
			case types.Int16:
				ti.w, ti.signed = 16, true
			case types.Int32, types.UntypedRune:
				ti.w, ti.signed = 32, true
			case types.Int, types.Int64, types.UntypedInt:
				ti.w, ti.signed = 64, true
			case types.Uint8:
				ti.w = 8
			case types.Uint16:
				ti.w = 16
			case types.Uint32:
				ti.w = 32
			default:
				ti.w = 64
			}
		}
	case *types.Pointer:
		ti.kind = KPtr
		// elem resolved lazily through elemOf (recursive types)
	case *types.Slice:
		ti.kind = KSlice
	case *types.Map:
		ti.kind = KMap
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Chan:
		ti.kind = KChan
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := p.tiL(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.foff = append(ti.foff, off)
			off += f.size
		}
		ti.size = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = p.tiL(u.Elem())
		ti.alen = int(u.Len())
		ti.size = ti.alen * ti.elem.size
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, p.tiL(u.At(i).Type()))
		}
	}
	return ti
}

// elemOf returns the element type of a pointer, slice, array or map type.
func (p *Prog) elemOf(ti *TI) *TI {
	p.mu.Lock()
	defer p.mu.Unlock()
	if ti.elem == nil {
		switch u := ti.u.(type) {
		case *types.Pointer:
			ti.elem = p.tiL(u.Elem())
		case *types.Slice:
			ti.elem = p.tiL(u.Elem())
		case *types.Map:
			ti.elem = p.tiL(u.Elem())
			ti.key = p.tiL(u.Key())
		case *types.Chan:
			ti.elem = p.tiL(u.Elem())
		}
	}
	return ti.elem
}

// minReg marks an operand that is not there.
const minReg = math.MinInt32

type opc uint8

const (
	opNop opc = iota
	opAlloc
	opBin
	opNot
	opNeg
	opCompl
	opLoad
	opStore
	opCallStatic
	opCallBuiltin
	opCallClosure
	opInvoke
	opConvert
	opCopy // ChangeType, ChangeInterface
	opDefer
	opGo
	opExtract
	opField
	opFieldAddr
	opIf
	opIndex
	opIndexAddr
	opIndexAddrArr
	opJump
	opLookup
	opMakeClosure
	opMakeIface
	opMakeMap
	opMakeSlice
	opMapUpdate
	opNext
	opPanic
	opRange
	opReturn
	opRunDefers
	opSlice
	opTypeAssert
	opGlobal
	opUnsupported
	opLen
)

type Instr struct {
	op      opc
	pure    bool
	commaOk bool
	tok     token.Token
	dst     int32
	a, b, c int32
	d       int32
	n, m    int
	ti, ti2 *TI
	args    []int32
	fn      *ssa.Function
	cfn     *Fn
	aux     any
	pos     token.Pos
}

type Block struct {
	idx      int
	ins      []Instr
	pos      token.Pos
	phiDst   []int32
	phiSrc   [][]int32 // per predecessor
	succs    [2]int
	succEdge [2]int // predecessor index of this block in the successor
	pure     bool
	maybe    bool // pure but for calls that may turn out to be effect-free
	loopHead bool
	live     []int32 // registers live at block entry (after phis)
}

type Fn struct {
	id      int
	ssa     *ssa.Function
	name    string
	pkg     string
	nparams int
	nfree   int
	nregs   int
	consts  []V
	blocks  []*Block
	hasDef  bool
	inl     []*Fn // the functions inlined here
	recover int
	results []*TI
	intr    intrinsic
	noBody  bool
	scalar  int8 // 0 unknown, 1 summarisable, -1 not
	selfV   V
	ninstr  int
	params  []*TI
}

type methKey struct {
	t *TI
	n string
	p *types.Package
}

var nextFnID int

func (p *Prog) fn(f *ssa.Function) *Fn {
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	c := p.compile(f)
	p.fns.Store(f, c)
	return c
}

func (p *Prog) method(t *TI, m *types.Func) *Fn {
	k := methKey{t, m.Name(), m.Pkg()}
	if m.Exported() {
		k.p = nil
	}
	if x, ok := p.meths.Load(k); ok {
		return x.(*Fn)
	}
	p.mu.Lock()
	sel := p.prog.MethodSets.MethodSet(t.t).Lookup(m.Pkg(), m.Name())
	p.mu.Unlock()
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	c := p.fn(f)
	p.meths.Store(k, c)
	return c
}

type compiler struct {
	p      *Prog
	f      *ssa.Function
	c      *Fn
	reg    map[ssa.Value]int32
	consts map[ssa.Value]int32
	cur    *Block
	ops    []Instr
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	return ""
}

func (p *Prog) compile(f *ssa.Function) *Fn {
	c := &Fn{ssa: f, name: f.String(), pkg: pkgPathOf(f), id: nextFnID, recover: -1}
	nextFnID++
	if o := f.Origin(); o != nil {
		c.intr = intrinsics[o.String()]
	}
	if c.intr == nil {
		c.intr = intrinsics[c.name]
	}
	c.selfV = V{p: &Closure{fn: c}}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.results = append(c.results, p.tiL(res.At(i).Type()))
	}
	for _, q := range f.Params {
		c.params = append(c.params, p.tiL(q.Type()))
	}
	if f.Blocks == nil {
		c.noBody = true
		return c
	}
	k := &compiler{p: p, f: f, c: c, reg: map[ssa.Value]int32{}, consts: map[ssa.Value]int32{}}
	n := int32(0)
	for _, q := range f.Params {
		k.reg[q] = n
		n++
	}
	c.nparams = int(n)
	for _, q := range f.FreeVars {
		k.reg[q] = n
		n++
	}
	c.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.reg[v] = n
				n++
			}
		}
	}
	c.nregs = int(n)
	for _, b := range f.Blocks {
		nb := &Block{idx: b.Index, pure: true, succs: [2]int{-1, -1}}
		c.blocks = append(c.blocks, nb)
	}
	for _, b := range f.Blocks {
		k.block(b)
	}
	if f.Recover != nil {
		c.recover = f.Recover.Index
	}
	if p.inlining == nil {
		p.inlining = map[*ssa.Function]bool{}
	}
	p.inlining[f] = true
	k.inline()
	delete(p.inlining, f)
	for _, b := range c.blocks {
		b.purity()
	}
	k.liveness()
	return c
}

func (k *compiler) newReg() int32 {
	n := k.c.nregs
	k.c.nregs++
	return int32(n)
}

func (k *compiler) emit(in Instr) {
	in.pure = isPureOp(in.op)
	k.cur.ins = append(k.cur.ins, in)
	k.c.ninstr++
}

func isPureOp(o opc) bool {
	switch o {
	case opNop, opBin, opNot, opNeg, opCompl, opLoad, opConvert, opCopy, opExtract, opField, opFieldAddr, opIf,
		opIndex, opIndexAddr, opIndexAddrArr, opJump, opLookup, opGlobal, opLen:
		return true
	}
	return false
}

func (k *compiler) constV(v V) int32 {
	k.c.consts = append(k.c.consts, v)
	return -int32(len(k.c.consts))
}

func (k *compiler) operand(v ssa.Value) int32 {
	if r, ok := k.reg[v]; ok {
		return r
	}
	if r, ok := k.consts[v]; ok {
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		r := k.constV(k.constant(x))
		k.consts[v] = r
		return r
	case *ssa.Function:
		// closure value without bindings
		r := k.constV(V{p: &Closure{ssa: x}})
		k.consts[v] = r
		return r
	case *ssa.Builtin:
		return k.constV(V{})
	case *ssa.Global:
		r := k.newReg()
		idx, ok := k.p.glob[x]
		if !ok {
			idx = len(k.p.globs)
			k.p.glob[x] = idx
			k.p.globs = append(k.p.globs, x)
		}
		k.emit(Instr{op: opGlobal, dst: r, n: idx, aux: x})
		return r
	}
	panic(fmt.Sprintf("operand %T", v))
}

func normK(x uint64, w uint8, signed bool) uint64 {
	if w >= 64 || w == 0 {
		return x
	}
	if signed {
		return uint64(sext(x, w))
	}
	return x & (1<<w - 1)
}

func (k *compiler) constant(x *ssa.Const) V {
	ti := k.p.tiL(x.Type())
	if x.Value == nil {
		return V{}
	}
	switch ti.kind {
	case KBool:
		if constant.BoolVal(x.Value) {
			return V{n: 1}
		}
		return V{}
	case KInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: normK(uint64(i), ti.w, ti.signed)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: normK(u, ti.w, ti.signed)}
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if ti.w == 32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return V{n: math.Float64bits(f)}
	case KString:
		return mkStr(constant.StringVal(x.Value))
	case KUnsafe, KPtr:
		return V{}
	case KIface: // type-param leftovers
		return V{}
	}
	return V{p: unsupportedConst{}}
}

type unsupportedConst struct{}

func (k *compiler) block(b *ssa.BasicBlock) {
	nb := k.c.blocks[b.Index]
	k.cur = nb
	for _, pr := range b.Preds {
		if b.Dominates(pr) {
			nb.loopHead = true
		}
	}
	for i, s := range b.Succs {
		nb.succs[i] = s.Index
		// predecessor index: the occurrence number of this edge
		occ := 0
		for j := 0; j < i; j++ {
			if b.Succs[j] == s {
				occ++
			}
		}
		for pi, pr := range s.Preds {
			if pr == b {
				if occ == 0 {
					nb.succEdge[i] = pi
					break
				}
				occ--
			}
		}
	}
	nb.phiSrc = make([][]int32, len(b.Preds))
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			nb.phiDst = append(nb.phiDst, k.reg[x])
			for i, e := range x.Edges {
				var r int32
				if g, ok := e.(*ssa.Global); ok {
					// materialise in the entry block
					save := k.cur
					k.cur = k.c.blocks[0]
					n := len(k.cur.ins)
					r = k.operand(g)
					if k.cur.ins != nil && n > 0 && len(k.cur.ins) > n {
						last := k.cur.ins[len(k.cur.ins)-1]
						copy(k.cur.ins[1:], k.cur.ins[:len(k.cur.ins)-1])
						k.cur.ins[0] = last
					}
					k.cur = save
				} else {
					r = k.operand(e)
				}
				nb.phiSrc[i] = append(nb.phiSrc[i], r)
			}
		default:
			k.instr(in)
		}
	}
}

func (k *compiler) args(vs []ssa.Value) []int32 {
	out := make([]int32, len(vs))
	for i, v := range vs {
		out[i] = k.operand(v)
	}
	return out
}

func (k *compiler) callInstr(cc *ssa.CallCommon, dst int32, pos token.Pos, op opc) {
	in := Instr{dst: dst, pos: pos}
	if cc.IsInvoke() {
		in.op = opInvoke
		in.a = k.operand(cc.Value)
		in.aux = cc.Method
		in.args = k.args(cc.Args)
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Builtin:
			in.op = opCallBuiltin
			in.aux = f.Name()
			in.args = k.args(cc.Args)
			if len(cc.Args) > 0 {
				in.ti = k.p.tiL(cc.Args[0].Type())
				if u, ok := in.ti.u.(*types.Slice); ok {
					in.ti.elem = k.p.tiL(u.Elem())
				}
				if u, ok := in.ti.u.(*types.Map); ok {
					in.ti.elem = k.p.tiL(u.Elem())
					in.ti.key = k.p.tiL(u.Key())
				}
			}
			if len(cc.Args) > 1 {
				in.ti2 = k.p.tiL(cc.Args[1].Type())
			}
			if f.Name() == "len" && op == opNop && (in.ti.kind == KSlice || in.ti.kind == KString) {
				k.emit(Instr{op: opLen, dst: dst, a: in.args[0], pos: pos})
				return
			}
			res := cc.Signature().Results()
			if res.Len() == 1 {
				in.d = 1
				if f.Name() == "min" || f.Name() == "max" {
					in.ti = k.p.tiL(res.At(0).Type())
				}
			}
		case *ssa.Function:
			in.op = opCallStatic
			in.fn = f
			in.aux = new(fnCell)
			in.args = k.args(cc.Args)
		default:
			in.op = opCallClosure
			in.a = k.operand(cc.Value)
			in.args = k.args(cc.Args)
		}
	}
	switch op {
	case opDefer, opGo:
		inner := in
		k.emit(Instr{op: op, dst: dst, aux: &inner, pos: pos})
		if op == opDefer {
			k.c.hasDef = true
		}
	default:
		k.emit(in)
	}
}

func (k *compiler) tiE(t types.Type) *TI { // with elem filled in
	ti := k.p.tiL(t)
	if ti.elem == nil {
		switch u := ti.u.(type) {
		case *types.Pointer:
			ti.elem = k.p.tiL(u.Elem())
		case *types.Slice:
			ti.elem = k.p.tiL(u.Elem())
		case *types.Map:
			ti.elem = k.p.tiL(u.Elem())
			ti.key = k.p.tiL(u.Key())
		}
	}
	return ti
}

func (k *compiler) instr(in ssa.Instruction) {
	dst := int32(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = k.reg[v]
	}
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		k.emit(Instr{op: opAlloc, dst: dst, ti: k.tiE(x.Type()).elem, pos: pos})
	case *ssa.BinOp:
		a, b := k.operand(x.X), k.operand(x.Y)
		k.emit(Instr{op: opBin, tok: x.Op, dst: dst, a: a, b: b, ti: k.p.tiL(x.X.Type()), ti2: k.p.tiL(x.Y.Type()), pos: pos})
	case *ssa.UnOp:
		a := k.operand(x.X)
		switch x.Op {
		case token.MUL:
			k.emit(Instr{op: opLoad, dst: dst, a: a, ti: k.p.tiL(x.Type()), pos: pos})
		case token.NOT:
			k.emit(Instr{op: opNot, dst: dst, a: a, ti: k.p.tiL(x.Type()), pos: pos})
		case token.SUB:
			k.emit(Instr{op: opNeg, dst: dst, a: a, ti: k.p.tiL(x.Type()), pos: pos})
		case token.XOR:
			k.emit(Instr{op: opCompl, dst: dst, a: a, ti: k.p.tiL(x.Type()), pos: pos})
		default:
			k.emit(Instr{op: opUnsupported, aux: "channel receive", pos: pos})
		}
	case *ssa.Store:
		a, b := k.operand(x.Addr), k.operand(x.Val)
		k.emit(Instr{op: opStore, a: a, b: b, ti: k.p.tiL(x.Val.Type()), pos: pos})
	case *ssa.Call:
		k.callInstr(&x.Call, dst, pos, opNop)
	case *ssa.Defer:
		k.callInstr(&x.Call, -1, pos, opDefer)
	case *ssa.Go:
		k.callInstr(&x.Call, -1, pos, opGo)
	case *ssa.ChangeInterface:
		k.emit(Instr{op: opCopy, dst: dst, a: k.operand(x.X), pos: pos})
	case *ssa.ChangeType:
		k.emit(Instr{op: opCopy, dst: dst, a: k.operand(x.X), pos: pos})
	case *ssa.Convert:
		k.emit(Instr{op: opConvert, dst: dst, a: k.operand(x.X), ti: k.tiE(x.X.Type()), ti2: k.tiE(x.Type()), pos: pos})
	case *ssa.MultiConvert:
		k.emit(Instr{op: opConvert, dst: dst, a: k.operand(x.X), ti: k.tiE(x.X.Type()), ti2: k.tiE(x.Type()), pos: pos})
	case *ssa.Extract:
		k.emit(Instr{op: opExtract, dst: dst, a: k.operand(x.Tuple), n: x.Index, pos: pos})
	case *ssa.Field:
		st := k.p.tiL(x.X.Type())
		k.emit(Instr{op: opField, dst: dst, a: k.operand(x.X), n: st.foff[x.Field], ti: st.fields[x.Field], pos: pos})
	case *ssa.FieldAddr:
		st := k.tiE(x.X.Type()).elem
		k.emit(Instr{op: opFieldAddr, dst: dst, a: k.operand(x.X), n: st.foff[x.Field], pos: pos})
	case *ssa.If:
		k.emit(Instr{op: opIf, a: k.operand(x.Cond), pos: pos})
	case *ssa.Jump:
		k.emit(Instr{op: opJump, pos: pos})
	case *ssa.Index:
		a, b := k.operand(x.X), k.operand(x.Index)
		ti := k.tiE(x.X.Type())
		k.emit(Instr{op: opIndex, dst: dst, a: a, b: b, ti: ti, ti2: k.p.tiL(x.Index.Type()), pos: pos})
	case *ssa.IndexAddr:
		a, b := k.operand(x.X), k.operand(x.Index)
		ti := k.tiE(x.X.Type())
		if ti.kind == KSlice {
			k.emit(Instr{op: opIndexAddr, dst: dst, a: a, b: b, n: ti.elem.size, ti: ti.elem, ti2: k.p.tiL(x.Index.Type()), pos: pos})
		} else {
			arr := ti.elem
			k.emit(Instr{op: opIndexAddrArr, dst: dst, a: a, b: b, n: arr.elem.size, m: arr.alen, ti: arr.elem, ti2: k.p.tiL(x.Index.Type()), pos: pos})
		}
	case *ssa.Lookup:
		a, b := k.operand(x.X), k.operand(x.Index)
		ti := k.tiE(x.X.Type())
		op := opLookup
		if ti.kind == KString {
			op = opIndex
		}
		k.emit(Instr{op: op, dst: dst, a: a, b: b, ti: ti, ti2: k.p.tiL(x.Index.Type()), commaOk: x.CommaOk, pos: pos})
	case *ssa.MakeClosure:
		k.emit(Instr{op: opMakeClosure, dst: dst, fn: x.Fn.(*ssa.Function), args: k.args(x.Bindings), pos: pos})
	case *ssa.MakeInterface:
		k.emit(Instr{op: opMakeIface, dst: dst, a: k.operand(x.X), ti: k.p.tiL(x.X.Type()), pos: pos})
	case *ssa.MakeMap:
		k.emit(Instr{op: opMakeMap, dst: dst, ti: k.tiE(x.Type()), pos: pos})
	case *ssa.MakeSlice:
		a, b := k.operand(x.Len), k.operand(x.Cap)
		k.emit(Instr{op: opMakeSlice, dst: dst, a: a, b: b, ti: k.tiE(x.Type()), ti2: k.p.tiL(x.Len.Type()), pos: pos})
	case *ssa.MapUpdate:
		a, b, c := k.operand(x.Map), k.operand(x.Key), k.operand(x.Value)
		k.emit(Instr{op: opMapUpdate, a: a, b: b, c: c, ti: k.tiE(x.Map.Type()), pos: pos})
	case *ssa.Next:
		k.emit(Instr{op: opNext, dst: dst, a: k.operand(x.Iter), commaOk: x.IsString, pos: pos})
	case *ssa.Panic:
		k.emit(Instr{op: opPanic, a: k.operand(x.X), pos: pos})
	case *ssa.Range:
		k.emit(Instr{op: opRange, dst: dst, a: k.operand(x.X), ti: k.tiE(x.X.Type()), pos: pos})
	case *ssa.Return:
		k.emit(Instr{op: opReturn, args: k.args(x.Results), pos: pos})
	case *ssa.RunDefers:
		k.emit(Instr{op: opRunDefers, pos: pos})
	case *ssa.Slice:
		ti := k.tiE(x.X.Type())
		i := Instr{op: opSlice, dst: dst, a: k.operand(x.X), b: minReg, c: minReg, d: minReg, ti: ti, pos: pos}
		if ti.kind == KPtr && ti.elem.kind == KArray {
			i.n, i.m = ti.elem.elem.size, ti.elem.alen
		} else if ti.kind == KSlice {
			i.n = ti.elem.size
		}
		if x.Low != nil {
			i.b = k.operand(x.Low)
		}
		if x.High != nil {
			i.c = k.operand(x.High)
		}
		if x.Max != nil {
			i.d = k.operand(x.Max)
		}
		k.emit(i)
	case *ssa.TypeAssert:
		k.emit(Instr{op: opTypeAssert, dst: dst, a: k.operand(x.X), ti: k.p.tiL(x.AssertedType), commaOk: x.CommaOk, pos: pos})
	case *ssa.SliceToArrayPointer:
		k.emit(Instr{op: opUnsupported, aux: "slice to array pointer", pos: pos})
	default:
		k.emit(Instr{op: opUnsupported, aux: strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa."), pos: pos})
	}
}

func (in *Instr) uses(f func(int32)) {
	u := func(r int32) {
		if r >= 0 {
			f(r)
		}
	}
	switch in.op {
	case opAlloc, opNop, opJump, opGlobal, opRunDefers, opUnsupported, opMakeMap:
		return
	case opDefer, opGo:
		in.aux.(*Instr).uses(f)
		return
	case opCallStatic, opCallBuiltin, opMakeClosure, opReturn:
		for _, r := range in.args {
			u(r)
		}
	case opCallClosure, opInvoke:
		u(in.a)
		for _, r := range in.args {
			u(r)
		}
	case opBin, opStore, opIndex, opIndexAddr, opIndexAddrArr, opLookup, opMakeSlice:
		u(in.a)
		u(in.b)
	case opMapUpdate:
		u(in.a)
		u(in.b)
		u(in.c)
	case opSlice:
		u(in.a)
		if in.b != minReg {
			u(in.b)
		}
		if in.c != minReg {
			u(in.c)
		}
		if in.d != minReg {
			u(in.d)
		}
	default:
		u(in.a)
	}
}

func (in *Instr) def() int32 {
	switch in.op {
	case opStore, opDefer, opGo, opIf, opJump, opMapUpdate, opPanic, opReturn, opRunDefers, opUnsupported, opNop:
		return -1
	}
	return in.dst
}

// liveness computes, for every block, the registers live after its phis.
func (k *compiler) liveness() {
	nb := len(k.c.blocks)
	words := (k.c.nregs + 63) / 64
	mk := func() []uint64 { return make([]uint64, words) }
	use := make([][]uint64, nb)
	def := make([][]uint64, nb)
	in := make([][]uint64, nb) // after phis
	for i, b := range k.c.blocks {
		use[i], def[i], in[i] = mk(), mk(), mk()
		for j := range b.ins {
			b.ins[j].uses(func(r int32) {
				if def[i][r>>6]>>(uint(r)&63)&1 == 0 {
					use[i][r>>6] |= 1 << (uint(r) & 63)
				}
			})
			if d := b.ins[j].def(); d >= 0 {
				def[i][d>>6] |= 1 << (uint(d) & 63)
			}
		}
	}
	changed := true
	for changed {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := k.c.blocks[i]
			out := mk()
			for si, s := range b.succs {
				if s < 0 {
					continue
				}
				sb := k.c.blocks[s]
				t := mk()
				copy(t, in[s])
				for _, d := range sb.phiDst {
					t[d>>6] &^= 1 << (uint(d) & 63)
				}
				if len(sb.phiDst) > 0 {
					for _, r := range sb.phiSrc[b.succEdge[si]] {
						if r >= 0 {
							t[r>>6] |= 1 << (uint(r) & 63)
						}
					}
				}
				for w := range out {
					out[w] |= t[w]
				}
			}
			for w := range out {
				x := use[i][w] | out[w]&^def[i][w]
				if x != in[i][w] {
					in[i][w] = x
					changed = true
				}
			}
		}
	}
	for i, b := range k.c.blocks {
		for r := 0; r < k.c.nregs; r++ {
			if in[i][r>>6]>>(uint(r)&63)&1 != 0 {
				b.live = append(b.live, int32(r))
			}
		}
	}
}
