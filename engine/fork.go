package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// pick takes the next decision of the path: from the prefix when replaying,
// otherwise the first of the feasible options, queueing the others.
func (w *W) pick(options func() []int64) int64 {
	if w.baseMode {
		w.incomplete("decision during initialisation")
	}
	if w.npick < len(w.prefix) {
		v := w.prefix[w.npick]
		w.npick++
		w.picks = append(w.picks, v)
		return v
	}
	opts := options()
	if len(opts) == 0 {
		panic(endPath{"infeasible", ""})
	}
	if debugForks && len(opts) > 1 {
		w.noteFork(len(opts) - 1)
	}
	for i := len(opts) - 1; i >= 1; i-- {
		np := make([]int64, len(w.picks)+1)
		copy(np, w.picks)
		np[len(w.picks)] = opts[i]
		w.ex.push(&Task{h: w.task.h, prefix: np})
		w.nfork++
	}
	w.npick++
	w.prefix = append(w.prefix, opts[0])
	w.picks = append(w.picks, opts[0])
	return opts[0]
}

func (w *W) narrow(v int32, m Mask) {
	d := w.dom[v].and(m)
	if d == w.dom[v] {
		return
	}
	w.dom[v] = d
	if d.empty() {
		panic(endPath{"infeasible", ""})
	}
	for _, e := range w.eqs {
		o := int32(-1)
		if e[0] == v {
			o = e[1]
		} else if e[1] == v {
			o = e[0]
		}
		if o >= 0 {
			w.narrow(o, d)
		}
	}
}

// addTrue adds a condition to the path.
func (w *W) addTrue(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			panic(endPath{"infeasible", ""})
		}
		return
	}
	if t.v >= 0 {
		w.pc = append(w.pc, t)
		w.narrow(t.v, t.bmask())
		return
	}
	switch {
	case t.op == OBAnd:
		w.addTrue(t.a)
		w.addTrue(t.b)
		return
	case t.op == OBNot && t.a.op == OBOr:
		w.addTrue(w.ts.not(t.a.a))
		w.addTrue(w.ts.not(t.a.b))
		return
	}
	w.pc = append(w.pc, t)
	w.multi = append(w.multi, t)
	for _, v := range t.vars {
		w.ent[v] = true
	}
	if t.op == OEq && t.a.op == OVar && t.b.op == OVar {
		a, b := int32(t.a.k), int32(t.b.k)
		d := w.dom[a].and(w.dom[b])
		w.eqs = append(w.eqs, [2]int32{a, b})
		w.narrow(a, d)
		w.narrow(b, d)
	}
}

func (w *W) feasible(extra ...*Term) bool {
	ts := make([]*Term, 0, len(w.multi)+len(extra)+8)
	ts = append(ts, w.multi...)
	ts = append(ts, extra...)
	seen := map[int32]bool{}
	var doms []*Term
	for _, t := range ts {
		for _, v := range t.varList() {
			if !seen[v] {
				seen[v] = true
				doms = append(doms, w.ts.inMask(int(v), w.dom[v]))
			}
		}
	}
	r, _ := w.z.check(append(ts, doms...), 0)
	return r != "unsat"
}

// quick decides a two-variable (dis)equality without the solver where the
// domains settle it. It returns which of the two outcomes are possible.
func (w *W) quick(t *Term) (canT, canF, known bool) {
	neg := false
	for t.op == OBNot {
		t = t.a
		neg = !neg
	}
	if t.op == OEq && t.a.op == OVar && t.b.op == OVar {
		a, b := t.a.k, t.b.k
		da, db := w.dom[a], w.dom[b]
		i := da.and(db)
		if i.empty() {
			canT, canF, known = false, true, true
		} else if da.count() == 1 && db.count() == 1 {
			canT, canF, known = true, false, true
		} else if !w.ent[a] && !w.ent[b] {
			canT, canF, known = true, true, true
		}
		if neg {
			canT, canF = canF, canT
		}
	}
	return
}

// decideBool decides a symbolic condition, forking when both outcomes are possible.
func (w *W) decideBool(t *Term) bool {
	if t.v == -2 {
		t = w.simp(t)
	}
	if t.isConst() {
		return t.k != 0
	}
	if t.v >= 0 {
		m := t.bmask()
		d := w.dom[t.v]
		a, b := d.and(m), d.andnot(m)
		if b.empty() {
			return true
		}
		if a.empty() {
			return false
		}
		if w.pick(func() []int64 { return []int64{1, 0} }) != 0 {
			w.addTrue(t)
			return true
		}
		w.addTrue(w.ts.not(t))
		return false
	}
	if ct, cf, known := w.quick(t); known && ct != cf {
		return ct
	}
	r := w.pick(func() []int64 {
		ct, cf, known := w.quick(t)
		if !known {
			ct = w.feasible(t)
			cf = true
			if ct {
				cf = w.feasible(w.ts.not(t))
			}
		}
		var o []int64
		if ct {
			o = append(o, 1)
		}
		if cf {
			o = append(o, 0)
		}
		return o
	})
	if r != 0 {
		w.addTrue(t)
		return true
	}
	w.addTrue(w.ts.not(t))
	return false
}

// concretize makes a symbolic integer concrete by forking over its values.
func (w *W) concretize(v V, ti *TI) uint64 {
	t, ok := v.p.(*Term)
	if !ok {
		if v.p != nil {
			w.incomplete("concretising a reference")
		}
		return v.n
	}
	nk := func(k uint64) uint64 {
		if ti.kind == KInt {
			return normK(k, ti.w, ti.signed)
		}
		return k
	}
	if t.op == OUF {
		w.incomplete("concretising an opaque float")
	}
	if t.v >= 0 {
		vals := t.values()
		d := w.dom[t.v]
		groups := map[uint64]Mask{}
		for x := 0; x < 256; x++ {
			if d.has(x) {
				m := groups[vals[x]]
				m.set(x)
				groups[vals[x]] = m
			}
		}
		keys := make([]uint64, 0, len(groups))
		for k := range groups {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		if len(keys) == 1 {
			return nk(keys[0])
		}
		k := uint64(w.pick(func() []int64 {
			o := make([]int64, len(keys))
			for i, k := range keys {
				o[i] = int64(k)
			}
			return o
		}))
		w.addTrue(w.ts.inMask(int(t.v), groups[k]))
		return nk(k)
	}
	const maxVals = 48
	k := w.pick(func() []int64 {
		var out []int64
		var excl []*Term
		for len(out) < maxVals {
			ts := append([]*Term{}, w.multi...)
			seen := map[int32]bool{}
			n := 0
			for _, x := range append(append([]*Term{}, w.multi...), t) {
				for _, v := range x.varList() {
					if !seen[v] {
						seen[v] = true
						ts = append(ts, w.ts.inMask(int(v), w.dom[v]))
					}
					if int(v) >= n {
						n = int(v) + 1
					}
				}
			}
			r, model := w.z.check(append(ts, excl...), n)
			if r != "sat" {
				return out
			}
			val := t.eval(model)
			out = append(out, int64(val))
			excl = append(excl, w.ts.not(w.ts.mk(OEq, 0, t, w.ts.konst(t.w, val))))
		}
		w.ex.noteIncomplete(w.task.h, "more than 48 values where one is needed")
		return out
	})
	w.addTrue(w.ts.mk(OEq, 0, t, w.ts.konst(t.w, uint64(k))))
	return nk(uint64(k))
}

type item struct {
	b    *Block
	regs []V
	mask Mask
	n    int
}

func vEq(a, b V) bool { return a.n == b.n && a.p == b.p }

// mergeBranch executes, speculatively and for all values of one variable, the
// effect-free code after a branch, and forks only between the groups of values
// that reach different program states. It returns the block reached.
func (w *W) mergeBranch(fr *Frame, b *Block, t *Term) (*Block, bool) {
	v := t.v
	d := w.dom[v]
	m := t.bmask()
	mt, mf := d.and(m), d.andnot(m)
	fn := fr.fn
	if mt.empty() || mf.empty() {
		s := 0
		if mt.empty() {
			s = 1
		}
		nb := fn.blocks[b.succs[s]]
		enterBlock(fn, fr.regs, nb, b.succEdge[s])
		return nb, true
	}
	if w.baseMode {
		return nil, false
	}
	n := len(fr.regs)
	sp0 := w.sp
	clone := func(r []V) []V {
		c := w.allocRegs(n)
		copy(c, r)
		return c
	}
	var work []item
	for s := 1; s >= 0; s-- {
		it := item{b: fn.blocks[b.succs[s]], regs: clone(fr.regs), mask: mt}
		if s == 1 {
			it.mask = mf
		}
		enterBlock(fn, it.regs, it.b, b.succEdge[s])
		work = append(work, it)
	}
	var classes []item
	w.spec++
	total := 0
	var pend *Term
	// advance executes one block; it reports whether the item moved on.
	advance := func(it *item, split bool) bool {
		pend = nil
		fr2 := Frame{fn: fn, regs: it.regs}
		w.dom[v] = it.mask
		jump := -1
		for i := range it.b.ins {
			in := &it.b.ins[i]
			switch in.op {
			case opJump:
				jump = 0
			case opIf:
				cond := w.get(&fr2, in.a)
				if ct, isT := cond.p.(*Term); isT {
					if ct.v < 0 {
						return false
					}
					cm := ct.bmask()
					if ct.v != v {
						od := w.dom[ct.v]
						switch {
						case od.andnot(cm).empty():
							jump = 0
						case od.and(cm).empty():
							jump = 1
						default:
							pend = ct
							return false
						}
						break
					}
					a, f := it.mask.and(cm), it.mask.andnot(cm)
					if f.empty() {
						jump = 0
					} else if a.empty() {
						jump = 1
					} else {
						if !split {
							return false
						}
						o := item{b: fn.blocks[it.b.succs[1]], regs: clone(it.regs), mask: f, n: it.n + 1}
						enterBlock(fn, o.regs, o.b, it.b.succEdge[1])
						work = append(work, o)
						it.mask = a
						jump = 0
					}
				} else if cond.n != 0 {
					jump = 0
				} else {
					jump = 1
				}
			case opCallStatic:
				if !w.specCall(&fr2, in) {
					return false
				}
			default:
				if !w.pureOp(&fr2, in, true) {
					return false
				}
			}
		}
		if jump < 0 {
			return false
		}
		e := it.b.succEdge[jump]
		it.b = fn.blocks[it.b.succs[jump]]
		enterBlock(fn, it.regs, it.b, e)
		it.n++
		return true
	}
	same := func(c, it *item) bool {
		if c.b != it.b {
			return false
		}
		for _, r := range it.b.live {
			if !vEq(c.regs[r], it.regs[r]) {
				return false
			}
		}
		return true
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for it.b.maybe && !it.b.loopHead && it.n <= 40 && total <= 400 {
			total++
			if !advance(&it, true) {
				break
			}
		}
		merged := false
		for i := range classes {
			if same(&classes[i], &it) {
				classes[i].mask = classes[i].mask.or(it.mask)
				merged = true
				break
			}
		}
		if !merged {
			classes = append(classes, it)
		}
	}
	// a class that stopped at the head of an inner loop may still rejoin
	// another one behind that loop
	var rejoin func(it *item, self, budget, splits int) int
	rejoin = func(it *item, self, budget, splits int) int {
		for n := 0; n < budget && it.b.maybe; n++ {
			total++
			if !advance(it, false) {
				if pend == nil || splits == 0 {
					return -1
				}
				// the rest depends on another byte: both outcomes have to rejoin
				ov, cm := pend.v, pend.bmask()
				od := w.dom[ov]
				o := item{b: it.b, regs: clone(it.regs), mask: it.mask}
				w.dom[ov] = od.and(cm)
				j := rejoin(it, self, budget-n, splits-1)
				if j >= 0 {
					w.dom[ov] = od.andnot(cm)
					if rejoin(&o, self, budget-n, splits-1) != j {
						j = -1
					}
				}
				w.dom[ov] = od
				return j
			}
			if !it.b.loopHead {
				continue
			}
			for j := range classes {
				if j != self && same(&classes[j], it) {
					return j
				}
			}
		}
		return -1
	}
	for i := 0; i < len(classes) && len(classes) > 1; i++ {
		if !classes[i].b.loopHead {
			continue
		}
		it := item{b: classes[i].b, regs: clone(classes[i].regs), mask: classes[i].mask}
		joined := rejoin(&it, i, 64, 3)
		if joined >= 0 {
			classes[joined].mask = classes[joined].mask.or(it.mask)
			classes = append(classes[:i], classes[i+1:]...)
			i = -1
		}
	}
	w.spec--
	w.dom[v] = d
	w.steps += int64(total) * 4
	ci := 0
	if len(classes) > 1 {
		ci = int(w.pick(func() []int64 {
			o := make([]int64, len(classes))
			for i := range o {
				o[i] = int64(i)
			}
			return o
		}))
		w.addTrue(w.ts.inMask(int(v), classes[ci].mask))
	}
	c := &classes[ci]
	copy(fr.regs, c.regs)
	w.sp = sp0
	return c.b, true
}

// specCall performs a call inside a speculated region, if it has no effect.
func (w *W) specCall(fr *Frame, in *Instr) bool {
	cell := in.aux.(*fnCell)
	fn := cell.Load()
	if fn == nil {
		fn = w.p.fn(in.fn)
		cell.Store(fn)
	}
	if fn.scalar < 0 || len(in.args) > 3 || len(fn.results) == 0 {
		return false
	}
	var buf [3]V
	args := buf[:0]
	sym := false
	for _, r := range in.args {
		a := w.get(fr, r)
		if a.p != nil {
			if _, ok := a.p.(*Term); !ok {
				return false
			}
			sym = true
		}
		args = append(args, a)
	}
	if sym {
		v, ok := w.summary(fn, args)
		if ok && in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		return ok
	}
	if fn.scalar == 0 {
		if !w.p.summarisable(fn, 0) {
			fn.scalar = -1
			return false
		}
		fn.scalar = 1
	}
	v, ok := w.tryCall(fn, args)
	if ok && in.dst >= 0 {
		fr.regs[in.dst] = v
	}
	return ok
}

type sumKey struct {
	fn *Fn
	a  [3]V
}
type sumVal struct {
	ok  bool
	res []*Term
}

// summary tabulates calls to small effect-free functions of one symbolic byte.
func (w *W) summary(fn *Fn, args []V) (V, bool) {
	if fn.scalar < 0 || len(args) == 0 || len(args) > 3 || len(fn.results) == 0 {
		return V{}, false
	}
	v := int32(-1)
	for i := range args {
		if t, ok := args[i].p.(*Term); ok {
			if t.v < 0 || (v >= 0 && v != t.v) {
				return V{}, false
			}
			v = t.v
		} else if args[i].p != nil {
			return V{}, false
		}
	}
	if v < 0 {
		return V{}, false
	}
	if fn.scalar == 0 {
		// racy but idempotent
		if w.p.summarisable(fn, 0) {
			fn.scalar = 1
		} else {
			fn.scalar = -1
			return V{}, false
		}
	}
	var key sumKey
	key.fn = fn
	copy(key.a[:], args)
	sv := w.sums[key]
	if sv == nil {
		sv = &sumVal{}
		w.sums[key] = sv
		var tabs [][256]uint64 = make([][256]uint64, len(fn.results))
		ok := true
		for x := 0; x < 256 && ok; x++ {
			cargs := make([]V, len(args))
			for i := range args {
				if t, isT := args[i].p.(*Term); isT {
					cargs[i] = fromTerm(w.ts.konst(t.w, t.values()[x]), fn.params[i])
				} else {
					cargs[i] = args[i]
				}
			}
			r, k := w.tryCall(fn, cargs)
			if !k {
				ok = false
				break
			}
			if len(fn.results) == 1 {
				tabs[0][x] = r.n & wmask(fn.results[0].w)
				if r.p != nil {
					ok = false
				}
			} else {
				for i, q := range r.p.(*Tup).s {
					tabs[i][x] = q.n & wmask(fn.results[i].w)
					if q.p != nil {
						ok = false
					}
				}
			}
		}
		if ok {
			sv.ok = true
			for i := range tabs {
				sv.res = append(sv.res, w.ts.table(int(v), fn.results[i].w, &tabs[i]))
			}
		}
	}
	if !sv.ok {
		return V{}, false
	}
	if !w.fnSeen[fn] {
		w.fnSeen[fn] = true
	}
	if len(sv.res) == 1 {
		return fromTerm(sv.res[0], fn.results[0]), true
	}
	t := &Tup{}
	for i, r := range sv.res {
		t.s = append(t.s, fromTerm(r, fn.results[i]))
	}
	return V{p: t}, true
}

func (w *W) tryCall(fn *Fn, args []V) (res V, ok bool) {
	save, lim, sp, depth := w.steps, w.limit, w.sp, w.depth
	w.limit = w.steps + 400
	defer func() {
		w.steps, w.limit, w.sp, w.depth = save, lim, sp, depth
		if r := recover(); r != nil {
			ok = false
		}
	}()
	regs := make([]V, fn.nregs)
	copy(regs, args)
	fr := Frame{fn: fn, regs: regs}
	return w.run(&fr, 0, -1), true
}

// summarisable: scalar parameters and results, no memory effects, calls only to
// functions of the same kind.
func (p *Prog) summarisable(fn *Fn, depth int) bool {
	return summarisable(fn, depth, p.fn)
}

func summarisable(fn *Fn, depth int, get func(*ssa.Function) *Fn) bool {
	if depth > 3 || fn.noBody || fn.hasDef || fn.nfree > 0 || len(fn.blocks) > 40 || fn.intr != nil {
		return false
	}
	for _, t := range fn.params {
		if t.kind != KInt && t.kind != KBool {
			return false
		}
	}
	for _, t := range fn.results {
		if t.kind != KInt && t.kind != KBool {
			return false
		}
	}
	for _, b := range fn.blocks {
		for i := range b.ins {
			in := &b.ins[i]
			switch in.op {
			case opReturn:
			case opLoad, opGlobal, opLookup:
				return false
			case opCallStatic:
				g := get(in.fn)
				if g == nil || !summarisable(g, depth+1, get) {
					return false
				}
			default:
				if !in.pure {
					return false
				}
			}
		}
	}
	return true
}

var debugForks = os.Getenv("VENGINE_FORKS") != ""
var forkMu sync.Mutex
var forkSites = map[string]int{}

func (w *W) noteFork(n int) {
	s := ""
	if w.lastFn != nil {
		s = w.lastFn.name
	}
	if w.curFn != nil {
		s += " / " + w.curFn.name
		for _, in := range w.curBlk.ins {
			if in.pos.IsValid() {
				p := w.p.prog.Fset.Position(in.pos)
				s += fmt.Sprintf(" %s:%d", filepath.Base(p.Filename), p.Line)
				break
			}
		}
	}
	forkMu.Lock()
	forkSites[s] += n
	forkMu.Unlock()
}
