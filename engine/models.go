package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// intrinsic models a function; it returns false to run the real body instead.
type intrinsic func(w *W, fn *Fn, args []V) (V, bool)

var intrinsics map[string]intrinsic

var skipInit = map[string]bool{
	"os": true, "syscall": true, "runtime": true, "internal/poll": true, "os/exec": true, "net": true,
	"reflect": true, "internal/godebug": true, "time": true, "internal/cpu": true, "context": true, "os/signal": true,
	"internal/syscall/unix": true, "internal/testlog": true, "internal/oserror": false, "fmt": true, "io/fs": true,
	"path/filepath": true, "io/ioutil": true, "log": true, "testing": true, "math/rand": true,
}

func isHarness(fn *Fn) bool { return strings.HasPrefix(fn.pkg, "jinverif") }

func tup(vs ...V) V { return V{p: &Tup{s: vs}} }

func (w *W) newByte(m Mask) V {
	i := len(w.dom)
	w.dom = append(w.dom, m)
	w.dom0 = append(w.dom0, m)
	w.ent = append(w.ent, false)
	if m.empty() {
		panic(endPath{"infeasible", ""})
	}
	if m != fullMask {
		w.pc = append(w.pc, w.ts.inMask(i, m))
	}
	w.inputs = append(w.inputs, input{v: i})
	return V{p: w.ts.varT(i)}
}

func setMask(s string) (m Mask) {
	for i := 0; i < len(s); i++ {
		m.set(int(s[i]))
	}
	return
}

// model runs a function of the model package.
func (w *W) model(name string, args ...V) V {
	m := w.ex.models[name]
	if m == nil {
		w.incomplete("no model %s", name)
	}
	return w.callFn(m, args, nil)
}

func (w *W) cstr(v V) string {
	s, ok := v.str().concrete()
	if !ok {
		w.incomplete("symbolic string where a constant is needed")
	}
	return s
}

func (w *W) assertTerm(t *Term, label string) {
	if t.v == -2 {
		t = w.simp(t)
	}
	if t.isConst() && t.k != 0 {
		w.foldedN++
		return
	}
	w.asserts = append(w.asserts, assertRec{t, label})
	if t.isConst() {
		panic(endPath{"fail", label})
	}
}

var pow10 = func() (p [20]uint64) {
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return
}()

func stripExt(t *Term) *Term {
	for t.op == OZext || t.op == OSext || t.op == OTrunc {
		t = t.a
	}
	return t
}

// denotes tells whether t, converted from a number in lo..hi, still is that
// number when read as a value of its width.
func denotes(t *Term, signed bool, lo, hi int64) bool {
	fits := func(w uint8, signed bool) bool {
		switch {
		case signed && w >= 64:
			return true
		case signed:
			return lo >= -(1<<(w-1)) && hi < 1<<(w-1)
		case w >= 63:
			return lo >= 0
		}
		return lo >= 0 && hi < 1<<w
	}
	if !fits(t.w, signed) {
		return false
	}
	for t.op == OZext || t.op == OSext || t.op == OTrunc {
		if t.op == OZext && !fits(t.a.w, false) || t.op == OSext && !fits(t.a.w, true) {
			return false
		}
		t = t.a
	}
	return true
}

func (w *W) formatInt(v V, ti *TI, base int) V {
	if t, ok := v.p.(*Term); ok {
		if base == 10 {
			if r, ok := w.decs[stripExt(t).id]; ok && denotes(t, ti.signed, r.lo, r.hi) {
				return r.v
			}
		}
		v = V{n: w.concretize(v, ti)}
	}
	if v.p != nil {
		w.incomplete("formatting a reference")
	}
	if base < 2 || base > 36 {
		panic(&TPanic{v: w.mkErr(mkStr("strconv: illegal AppendInt/FormatInt base")), msg: "strconv: illegal AppendInt/FormatInt base"})
	}
	if ti.signed {
		return mkStr(strconv.FormatInt(int64(v.n), base))
	}
	return mkStr(strconv.FormatUint(v.n, base))
}

// decRec is the text of a symbolic number and the range the number has.
type decRec struct {
	v      V
	lo, hi int64
}

func (w *W) tiOf(k types.BasicKind) *TI { return w.p.ti(types.Typ[k]) }

// native converts a concrete interface value to a Go value for fmt.
func (w *W) native(ifc *Iface) (any, bool) {
	v := ifc.v
	if v.p != nil && ifc.t.kind != KString {
		return nil, false
	}
	switch ifc.t.kind {
	case KString:
		s, ok := v.str().concrete()
		return s, ok
	case KBool:
		return v.n != 0, true
	case KInt:
		switch ifc.t.u.(*types.Basic).Kind() {
		case types.Int:
			return int(v.n), true
		case types.Int8:
			return int8(v.n), true
		case types.Int16:
			return int16(v.n), true
		case types.Int32:
			return int32(v.n), true
		case types.Int64:
			return int64(v.n), true
		case types.Uint:
			return uint(v.n), true
		case types.Uint8:
			return uint8(v.n), true
		case types.Uint16:
			return uint16(v.n), true
		case types.Uint32:
			return uint32(v.n), true
		case types.Uint64:
			return v.n, true
		case types.Uintptr:
			return uintptr(v.n), true
		}
	case KFloat:
		if ifc.t.w == 32 {
			return math.Float32frombits(uint32(v.n)), true
		}
		return f64(v), true
	}
	return nil, false
}

func (w *W) fmtArg(spec string, a V) V {
	verb := spec[len(spec)-1]
	ifc, _ := a.p.(*Iface)
	if ifc == nil {
		return mkStr(fmt.Sprintf(spec, nil))
	}
	// error and Stringer
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, name := range []string{"Error", "String"} {
			w.p.mu.Lock()
			sel := w.p.prog.MethodSets.MethodSet(ifc.t.t).Lookup(nil, name)
			w.p.mu.Unlock()
			if sel == nil {
				continue
			}
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				continue
			}
			fn := w.p.method(ifc.t, sel.Obj().(*types.Func))
			if fn != nil {
				a = V{p: &Iface{t: w.tiOf(types.String), v: w.callFn(fn, []V{ifc.v}, nil)}}
				ifc = a.p.(*Iface)
				break
			}
		}
		if verb == 'w' {
			spec = spec[:len(spec)-1] + "v"
			verb = 'v'
		}
	}
	if ifc.t.kind == KString && (verb == 'v' || verb == 's') && len(spec) == 2 {
		return ifc.v
	}
	if w0, err := strconv.Atoi(strings.TrimPrefix(spec[1:len(spec)-1], "-")); err == nil && w0 > 0 && w0 < 64 && spec[1] == '-' && ifc.t.kind == KString && (verb == 'v' || verb == 's') {
		// padded to a width counted in runes
		n := int(w.conc(w.model("RuneCount", ifc.v), w.tiOf(types.Int)))
		var out []V
		for i, t := 0, ifc.v.str(); i < t.len(); i++ {
			out = append(out, t.at(i))
		}
		for ; n < w0; n++ {
			out = append(out, V{n: ' '})
		}
		return strOfSlots(out)
	}
	if ifc.t.kind == KInt && (verb == 'v' || verb == 'd') && len(spec) == 2 {
		return w.formatInt(ifc.v, ifc.t, 10)
	}
	if ifc.t.kind == KSlice && (verb == 's') && len(spec) == 2 {
		if sl, ok := ifc.v.p.(*Slice); ok && w.p.elemOf(ifc.t).w == 8 {
			return strOfSlots(sl.obj.slots(sl))
		}
	}
	if ifc.t.kind == KSlice {
		et := w.p.elemOf(ifc.t)
		sl, _ := ifc.v.p.(*Slice)
		if et.kind == KInt && et.w == 8 && !et.signed && (verb == 's' || verb == 'q' || verb == 'x') {
			var b []V
			if sl != nil {
				b = sl.obj.slots(sl)
			}
			return w.fmtArg(spec, V{p: &Iface{t: w.tiOf(types.String), v: strOfSlots(b)}})
		}
		if verb == 'v' && len(spec) == 2 {
			out := mkStr("[")
			if sl != nil {
				for i := 0; i < sl.len; i++ {
					if i > 0 {
						out = concat(out.str(), mkStr(" ").str())
					}
					x := w.load(sl.obj, sl.off+i*et.size, et)
					if et.kind != KIface {
						x = V{p: &Iface{t: et, v: x}}
					}
					out = concat(out.str(), w.fmtArg(spec, x).str())
				}
			}
			return concat(out.str(), mkStr("]").str())
		}
	}
	if ifc.t.kind == KString && spec == "%q" {
		return w.model("Quote", ifc.v)
	}
	if t, ok := ifc.v.p.(*Term); ok {
		if ifc.t.kind == KBool {
			ifc = &Iface{t: ifc.t, v: b2n(w.decideBool(t))}
		} else {
			ifc = &Iface{t: ifc.t, v: V{n: w.concretize(ifc.v, ifc.t)}}
		}
	}
	n, ok := w.native(ifc)
	if !ok {
		w.incomplete("fmt %s of %v", spec, ifc.t.t)
	}
	return mkStr(fmt.Sprintf(spec, n))
}

func (w *W) sprintf(format V, rest V) V {
	f := w.cstr(format)
	var args []V
	if sl, ok := rest.p.(*Slice); ok {
		args = sl.obj.slots(sl)
	}
	out := V{}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = concat(out.str(), mkStr(f[i:i+j]).str())
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || f[j] == '*' || f[j] == '[' {
			w.incomplete("fmt format %q", f)
		}
		spec := f[i : j+1]
		i = j + 1
		if f[j] == '%' {
			out = concat(out.str(), mkStr("%").str())
			continue
		}
		if ai >= len(args) {
			out = concat(out.str(), mkStr("%!"+string(f[j])+"(MISSING)").str())
			continue
		}
		out = concat(out.str(), w.fmtArg(spec, args[ai]).str())
		ai++
	}
	if ai < len(args) {
		w.incomplete("fmt: extra arguments")
	}
	return out
}

// errorf wraps the operand of the first %w.
func (w *W) errorf(format, rest V) V {
	msg := w.sprintf(format, rest)
	f := w.cstr(format)
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i+1 < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if f[i] == 'w' {
			if sl, ok := rest.p.(*Slice); ok && n < sl.len {
				return w.model("WrapErr", msg, sl.obj.slots(sl)[n])
			}
		}
		if f[i] != '%' {
			n++
		}
	}
	return w.mkErr(msg)
}

func (w *W) bytesOf(v V) []V {
	switch x := v.p.(type) {
	case *Slice:
		return x.obj.slots(x)
	case *Str:
		r := make([]V, x.len())
		for i := range r {
			r[i] = x.at(i)
		}
		return r
	}
	return nil
}

func (w *W) byteEq(a, b V) bool {
	if a.p == nil && b.p == nil {
		return byte(a.n) == byte(b.n)
	}
	return w.decideBool(w.ts.mk(OEq, 0, w.byteTerm(a), w.byteTerm(b)))
}

func (w *W) indexByte(s []V, c V) V {
	for i := range s {
		if w.byteEq(s[i], c) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) lastIndexByte(s []V, c V) V {
	for i := len(s) - 1; i >= 0; i-- {
		if w.byteEq(s[i], c) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) indexSub(s, sub V) V {
	a, b := strOfSlots(w.bytesOf(s)).str(), strOfSlots(w.bytesOf(sub)).str()
	for i := 0; i+b.len() <= a.len(); i++ {
		if w.decideBool(w.eqStr(a.slice(i, i+b.len()).str(), b)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func nop(w *W, fn *Fn, args []V) (V, bool) { return V{}, true }

func identity(w *W, fn *Fn, args []V) (V, bool) { return args[0], true }

func (w *W) ptrObj(v V) (*Obj, int) {
	o, ok := v.p.(*Obj)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	return o, int(v.n)
}

func natF(f func(float64) float64) intrinsic {
	return func(w *W, fn *Fn, args []V) (V, bool) {
		if args[0].p != nil {
			w.incomplete("symbolic float in %s", fn.name)
		}
		return V{n: math.Float64bits(f(f64(args[0])))}, true
	}
}

func natF2(f func(a, b float64) float64) intrinsic {
	return func(w *W, fn *Fn, args []V) (V, bool) {
		if args[0].p != nil || args[1].p != nil {
			w.incomplete("symbolic float in %s", fn.name)
		}
		return V{n: math.Float64bits(f(f64(args[0]), f64(args[1])))}, true
	}
}

// methodOf finds a method by its name.
func (w *W) methodOf(t *TI, name string) (*Fn, *types.Signature) {
	w.p.mu.Lock()
	sel := w.p.prog.MethodSets.MethodSet(t.t).Lookup(nil, name)
	w.p.mu.Unlock()
	if sel == nil {
		return nil, nil
	}
	return w.p.method(t, sel.Obj().(*types.Func)), sel.Type().(*types.Signature)
}

// sprint is fmt.Sprint and fmt.Sprintln.
func (w *W) sprint(rest V, ln bool) V {
	var args []V
	if sl, ok := rest.p.(*Slice); ok {
		args = sl.obj.slots(sl)
	}
	isStr := func(v V) bool { i, _ := v.p.(*Iface); return i != nil && i.t.kind == KString }
	out := V{}
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			out = concat(out.str(), mkStr(" ").str())
		}
		out = concat(out.str(), w.fmtArg("%v", a).str())
	}
	if ln {
		out = concat(out.str(), mkStr("\n").str())
	}
	return out
}

func (w *W) fprint(to, text V) V {
	ifc, _ := to.p.(*Iface)
	if ifc == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	m, _ := w.methodOf(ifc.t, "Write")
	if m == nil {
		w.incomplete("fmt.Fprint to %v", ifc.t.t)
	}
	return w.callFn(m, []V{ifc.v, w.appendStr(V{}, text)}, nil)
}

// errorsAs is errors.As.
func (w *W) errorsAs(err, target V) V {
	ti, _ := target.p.(*Iface)
	if ti == nil {
		panic(&TPanic{v: w.mkErr(mkStr("errors: target cannot be nil")), msg: "errors: target cannot be nil"})
	}
	pt, ok := ti.t.u.(*types.Pointer)
	if !ok {
		panic(&TPanic{v: w.mkErr(mkStr("errors: target must be a non-nil pointer")), msg: "errors: target must be a non-nil pointer"})
	}
	o, off := w.ptrObj(ti.v)
	want := w.p.ti(pt.Elem())
	for {
		e, _ := err.p.(*Iface)
		if e == nil {
			return V{}
		}
		if want.kind == KIface {
			w.p.mu.Lock()
			ok = types.Implements(e.t.t, want.u.(*types.Interface))
			w.p.mu.Unlock()
			if ok {
				w.store(o, off, err, want)
				return V{n: 1}
			}
		} else if e.t == want {
			w.store(o, off, e.v, want)
			return V{n: 1}
		}
		if m, _ := w.methodOf(e.t, "As"); m != nil {
			w.incomplete("errors.As of %v", e.t.t)
		}
		m, sig := w.methodOf(e.t, "Unwrap")
		if m == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return V{}
		}
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
			w.incomplete("errors.As of %v", e.t.t)
		}
		err = w.callFn(m, []V{e.v}, nil)
	}
}

func init() {
	intrinsics = map[string]intrinsic{
		"jinverif/vf.ByteIn": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.newByte(setMask(w.cstr(args[0]))), true
		},
		"jinverif/vf.ByteNotIn": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.newByte(fullMask.andnot(setMask(w.cstr(args[0])))), true
		},
		"jinverif/vf.Choose": func(w *W, fn *Fn, args []V) (V, bool) {
			n := int64(args[0].n)
			if n <= 0 {
				panic(endPath{"infeasible", ""})
			}
			k := int64(0)
			if n > 1 {
				k = w.pick(func() []int64 {
					o := make([]int64, n)
					for i := range o {
						o[i] = int64(i)
					}
					return o
				})
			}
			w.inputs = append(w.inputs, input{v: -1, k: k})
			return V{n: uint64(k)}, true
		},
		"jinverif/vf.Assume": func(w *W, fn *Fn, args []V) (V, bool) {
			if t, ok := args[0].p.(*Term); ok {
				if t.v >= 0 {
					w.addTrue(t)
				} else {
					if ct, cf, known := w.quick(t); known {
						if !ct {
							panic(endPath{"infeasible", ""})
						}
						if !cf {
							return V{}, true
						}
					}
					w.addTrue(t)
				}
			} else if args[0].n == 0 {
				panic(endPath{"infeasible", ""})
			}
			return V{}, true
		},
		"jinverif/vf.Assert": func(w *W, fn *Fn, args []V) (V, bool) {
			w.assertTerm(w.toTerm(args[0], w.tiOf(types.Bool)), w.cstr(args[1]))
			return V{}, true
		},
		"jinverif/vf.Eq": func(w *W, fn *Fn, args []V) (V, bool) {
			a, b := w.bytesOf(args[1]), w.bytesOf(args[2])
			w.assertTerm(w.eqStr(strOfSlots(a).str(), strOfSlots(b).str()), w.cstr(args[0]))
			for i := range a {
				ta, oka := a[i].p.(*Term)
				tb, okb := b[i].p.(*Term)
				if oka && okb && ta == tb {
					w.raw = append(w.raw, ta)
				}
			}
			return V{}, true
		},
		"jinverif/vf.Fail": func(w *W, fn *Fn, args []V) (V, bool) {
			w.assertTerm(w.ts.ff, w.cstr(args[0]))
			return V{}, true
		},
		"jinverif/vf.Obs": func(w *W, fn *Fn, args []V) (V, bool) {
			w.obs = append(w.obs, obsRec{w.cstr(args[0]), strOfSlots(w.bytesOf(args[1]))})
			return V{}, true
		},
		"jinverif/vf.Cover": func(w *W, fn *Fn, args []V) (V, bool) {
			w.covers[w.cstr(args[0])] = true
			return V{}, true
		},
		"jinverif/vf.Steps": func(w *W, fn *Fn, args []V) (V, bool) {
			w.limit = w.ex.stepLimit * int64(args[0].n)
			return V{}, true
		},
		"jinverif/vf.Thorough": func(w *W, fn *Fn, args []V) (V, bool) {
			return b2n(w.ex.thorough), true
		},
		"jinverif/vf.Dec": func(w *W, fn *Fn, args []V) (V, bool) {
			nd := int(args[0].n)
			neg := args[1].n != 0
			ts := w.ts
			sum := ts.konst(64, 0)
			st := &Str{}
			if neg {
				st.b = append(st.b, '-')
				st.t = append(st.t, nil)
			}
			for i := 0; i < nd; i++ {
				set := "0123456789"
				if i == 0 && (nd > 1 || neg) {
					set = "123456789"
				}
				d := w.newByte(setMask(set)).p.(*Term)
				st.b = append(st.b, 0)
				st.t = append(st.t, d)
				x := ts.mk(OAdd, 64, ts.mk(OZext, 64, d, nil), ts.konst(64, ^uint64(47)))
				sum = ts.mk(OAdd, 64, ts.mk(OMul, 64, sum, ts.konst(64, 10)), x)
			}
			if neg {
				sum = ts.mk(OSub, 64, ts.konst(64, 0), sum)
			}
			r := decRec{v: V{p: st}, hi: 1}
			for i := 0; i < nd; i++ {
				r.hi *= 10
			}
			r.hi--
			if neg {
				r.lo, r.hi = -r.hi, -1
			}
			if nd > 18 {
				w.incomplete("a symbolic number of more than 18 digits")
			}
			w.decs[sum.id] = r
			return tup(V{p: sum}, V{p: st}), true
		},
		"jinverif/vf.Par": func(w *W, fn *Fn, args []V) (V, bool) {
			w.runPar(args)
			return V{}, true
		},
		// fmt and errors
		"fmt.Errorf": func(w *W, fn *Fn, args []V) (V, bool) { return w.errorf(args[0], args[1]), true },
		"fmt.Sprintf": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.sprintf(args[0], args[1]), true
		},
		"fmt.Sprint":   func(w *W, fn *Fn, a []V) (V, bool) { return w.sprint(a[0], false), true },
		"fmt.Sprintln": func(w *W, fn *Fn, a []V) (V, bool) { return w.sprint(a[0], true), true },
		"fmt.Appendf":  func(w *W, fn *Fn, a []V) (V, bool) { return w.appendStr(a[0], w.sprintf(a[1], a[2])), true },
		"fmt.Append":   func(w *W, fn *Fn, a []V) (V, bool) { return w.appendStr(a[0], w.sprint(a[1], false)), true },
		"fmt.Appendln": func(w *W, fn *Fn, a []V) (V, bool) { return w.appendStr(a[0], w.sprint(a[1], true)), true },
		"fmt.Fprintf":  func(w *W, fn *Fn, a []V) (V, bool) { return w.fprint(a[0], w.sprintf(a[1], a[2])), true },
		"fmt.Fprint":   func(w *W, fn *Fn, a []V) (V, bool) { return w.fprint(a[0], w.sprint(a[1], false)), true },
		"fmt.Fprintln": func(w *W, fn *Fn, a []V) (V, bool) { return w.fprint(a[0], w.sprint(a[1], true)), true },
		"errors.As":    func(w *W, fn *Fn, a []V) (V, bool) { return w.errorsAs(a[0], a[1]), true },
		"fmt.Printf":   nop, "fmt.Println": nop, "fmt.Print": nop, "log.Printf": nop, "log.Println": nop,
		// strconv
		"strconv.Itoa": func(w *W, fn *Fn, args []V) (V, bool) { return w.formatInt(args[0], w.tiOf(types.Int), 10), true },
		"strconv.FormatInt": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.formatInt(args[0], w.tiOf(types.Int64), int(args[1].n)), true
		},
		"strconv.FormatUint": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.formatInt(args[0], w.tiOf(types.Uint64), int(args[1].n)), true
		},
		"strconv.AppendInt": func(w *W, fn *Fn, args []V) (V, bool) {
			s := w.formatInt(args[1], w.tiOf(types.Int64), int(args[2].n))
			return w.appendStr(args[0], s), true
		},
		"strconv.AppendUint": func(w *W, fn *Fn, args []V) (V, bool) {
			s := w.formatInt(args[1], w.tiOf(types.Uint64), int(args[2].n))
			return w.appendStr(args[0], s), true
		},
		"strconv.FormatFloat": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.formatFloat(args), true
		},
		"strconv.AppendFloat": func(w *W, fn *Fn, args []V) (V, bool) {
			return w.appendStr(args[0], w.formatFloat(args[1:])), true
		},
		"strconv.ParseFloat":    parseFloat,
		"errors.Is":             func(w *W, fn *Fn, a []V) (V, bool) { return w.model("ErrorsIs", a...), true },
		"encoding/json.Marshal": func(w *W, fn *Fn, a []V) (V, bool) { return w.model("Marshal", a...), true },
		// bytealg
		"internal/bytealg.IndexByte":       func(w *W, fn *Fn, a []V) (V, bool) { return w.indexByte(w.bytesOf(a[0]), a[1]), true },
		"internal/bytealg.IndexByteString": func(w *W, fn *Fn, a []V) (V, bool) { return w.indexByte(w.bytesOf(a[0]), a[1]), true },
		"bytes.IndexByte":                  func(w *W, fn *Fn, a []V) (V, bool) { return w.indexByte(w.bytesOf(a[0]), a[1]), true },
		"strings.IndexByte":                func(w *W, fn *Fn, a []V) (V, bool) { return w.indexByte(w.bytesOf(a[0]), a[1]), true },
		"bytes.LastIndexByte":              func(w *W, fn *Fn, a []V) (V, bool) { return w.lastIndexByte(w.bytesOf(a[0]), a[1]), true },
		"strings.LastIndexByte":            func(w *W, fn *Fn, a []V) (V, bool) { return w.lastIndexByte(w.bytesOf(a[0]), a[1]), true },
		"internal/bytealg.LastIndexByte":   func(w *W, fn *Fn, a []V) (V, bool) { return w.lastIndexByte(w.bytesOf(a[0]), a[1]), true },
		"bytes.Index":                      func(w *W, fn *Fn, a []V) (V, bool) { return w.indexSub(a[0], a[1]), true },
		"strings.Index":                    func(w *W, fn *Fn, a []V) (V, bool) { return w.indexSub(a[0], a[1]), true },
		"internal/stringslite.Index":       func(w *W, fn *Fn, a []V) (V, bool) { return w.indexSub(a[0], a[1]), true },
		"internal/stringslite.Clone":       identity,
		"strings.Clone":                    identity,
		"internal/bytealg.Count":           countByte,
		"internal/bytealg.CountString":     countByte,
		"internal/bytealg.Equal":           bytesEqual,
		"bytes.Equal":                      bytesEqual,
		"internal/bytealg.Compare":         bytesCompare,
		"internal/bytealg.CompareString":   bytesCompare,
		"bytes.Compare":                    bytesCompare,
		"strings.Compare":                  bytesCompare,
		"internal/bytealg.MakeNoZero": func(w *W, fn *Fn, a []V) (V, bool) {
			n := int(w.conc(a[0], w.tiOf(types.Int)))
			return V{p: &Slice{obj: w.newObj(roundupBytes(n)), len: n, cap: roundupBytes(n)}}, true
		},
		"internal/abi.NoEscape":   identity,
		"internal/abi.Escape":     identity,
		"strings.noescape":        identity,
		"runtime.KeepAlive":       nop,
		"runtime.GC":              nop,
		"runtime.Gosched":         nop,
		"math.Float64bits":        identity,
		"math.Float64frombits":    identity,
		"math.Float32bits":        identity,
		"math.Float32frombits":    identity,
		"math.Floor":              natF(math.Floor),
		"math.Ceil":               natF(math.Ceil),
		"math.Trunc":              natF(math.Trunc),
		"math.Sqrt":               natF(math.Sqrt),
		"math.Abs":                natF(math.Abs),
		"math.Round":              natF(math.Round),
		"math.Log":                natF(math.Log),
		"math.Log2":               natF(math.Log2),
		"math.Log10":              natF(math.Log10),
		"math.Exp":                natF(math.Exp),
		"math.Max":                natF2(math.Max),
		"math.Min":                natF2(math.Min),
		"math.Pow":                natF2(math.Pow),
		"math.Mod":                natF2(math.Mod),
		"(*sync.Mutex).Lock":      lockIn(false),
		"(*sync.Mutex).Unlock":    unlockIn(false),
		"(*sync.RWMutex).Lock":    lockIn(false),
		"(*sync.RWMutex).Unlock":  unlockIn(false),
		"(*sync.RWMutex).RLock":   lockIn(true),
		"(*sync.RWMutex).RUnlock": unlockIn(true),
		"(*sync.Once).Do":         onceDo,
		"(*sync.Pool).Get":        poolGet,
		"(*sync.Pool).Put":        poolPut,
		"(*sync.WaitGroup).Add":   nop,
		"(*sync.WaitGroup).Done":  nop,
		"(*sync.WaitGroup).Wait":  nop,
		"sort.Slice":              sortSlice,
		"sort.SliceStable":        sortSlice,
		"strings.Repeat": func(w *W, fn *Fn, a []V) (V, bool) {
			n := int64(w.conc(a[1], w.tiOf(types.Int)))
			if n < 0 {
				panic(&TPanic{v: w.mkErr(mkStr("strings: negative Repeat count")), msg: "strings: negative Repeat count"})
			}
			out := V{}
			for i := int64(0); i < n; i++ {
				out = concat(out.str(), a[0].str())
			}
			return out, true
		},
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+ty] = func(w *W, fn *Fn, a []V) (V, bool) {
			o, i := w.ptrObj(a[0])
			w.syncPoint()
			w.acquire(o, i)
			return o.s[i], true
		}
		intrinsics["sync/atomic.Store"+ty] = func(w *W, fn *Fn, a []V) (V, bool) {
			o, i := w.ptrObj(a[0])
			w.syncPoint()
			w.release(o, i)
			w.touch(o)
			o.s[i] = a[1]
			return V{}, true
		}
		intrinsics["sync/atomic.Swap"+ty] = func(w *W, fn *Fn, a []V) (V, bool) {
			o, i := w.ptrObj(a[0])
			w.syncPoint()
			w.syncPoint()
			w.acquire(o, i)
			w.release(o, i)
			w.touch(o)
			old := o.s[i]
			o.s[i] = a[1]
			return old, true
		}
		intrinsics["sync/atomic.Add"+ty] = func(w *W, fn *Fn, a []V) (V, bool) {
			o, i := w.ptrObj(a[0])
			w.syncPoint()
			w.acquire(o, i)
			w.release(o, i)
			w.touch(o)
			ti := fn.results[0]
			v := fromTerm(w.ts.mk(OAdd, ti.w, w.toTerm(o.s[i], ti), w.toTerm(a[1], ti)), ti)
			o.s[i] = v
			return v, true
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty] = func(w *W, fn *Fn, a []V) (V, bool) {
			o, i := w.ptrObj(a[0])
			w.syncPoint()
			w.acquire(o, i)
			w.release(o, i)
			if o.s[i].n == a[1].n && o.s[i].p == a[1].p {
				w.touch(o)
				o.s[i] = a[2]
				return V{n: 1}, true
			}
			return V{}, true
		}
	}
}

func (w *W) appendStr(dst V, s V) V {
	ti := w.p.ti(types.NewSlice(types.Typ[types.Uint8]))
	w.p.elemOf(ti)
	return w.appendV(&Instr{ti: ti, ti2: w.tiOf(types.String)}, []V{dst, s})
}

func (w *W) formatFloat(args []V) V {
	if t, ok := args[0].p.(*Term); ok {
		if t.op == OUF {
			w.incomplete("formatting an opaque float")
		}
	}
	if args[0].p != nil {
		w.incomplete("formatting a symbolic float")
	}
	if bits := int(int64(args[3].n)); bits != 32 && bits != 64 {
		const msg = "strconv: illegal AppendFloat/FormatFloat bitSize"
		panic(&TPanic{v: w.mkErr(mkStr(msg)), msg: msg})
	}
	return mkStr(strconv.FormatFloat(f64(args[0]), byte(args[1].n), int(int64(args[2].n)), int(int64(args[3].n))))
}

func countByte(w *W, fn *Fn, a []V) (V, bool) {
	n := 0
	for _, b := range w.bytesOf(a[0]) {
		if w.byteEq(b, a[1]) {
			n++
		}
	}
	return V{n: uint64(n)}, true
}

func bytesEqual(w *W, fn *Fn, a []V) (V, bool) {
	return w.boolV(w.eqStr(strOfSlots(w.bytesOf(a[0])).str(), strOfSlots(w.bytesOf(a[1])).str())), true
}

func bytesCompare(w *W, fn *Fn, a []V) (V, bool) {
	return V{n: uint64(int64(w.cmpStr(strOfSlots(w.bytesOf(a[0])).str(), strOfSlots(w.bytesOf(a[1])).str())))}, true
}

func onceDo(w *W, fn *Fn, a []V) (V, bool) {
	o, i := w.ptrObj(a[0])
	w.syncPoint()
	id := lockID{o, i}
	p := w.par
	if p != nil && p.cur == nil {
		p = nil
	}
	for p != nil && p.once[id] {
		t, other := p.cur, p.other(p.cur)
		if other.done || other.block != nil {
			panic(endPath{"steps", "deadlock"})
		}
		t.block = &id
		p.swap(w, other)
		t.block = nil
	}
	if o.s[i].n == 0 {
		w.touch(o)
		o.s[i] = V{n: 1}
		if p == nil {
			w.callClosure(a[1], nil)
			return V{}, true
		}
		p.once[id] = true
		w.callClosure(a[1], nil)
		delete(p.once, id)
		w.release(o, i)
		if x := p.other(p.cur); x.block != nil && *x.block == id {
			x.block = nil
		}
	}
	w.acquire(o, i)
	return V{}, true
}

// poolGet: a pooled object (the most recent one) or a new one.
func poolGet(w *W, fn *Fn, a []V) (V, bool) {
	o, i := w.ptrObj(a[0])
	w.syncPoint()
	w.acquire(o, i)
	if l := w.pools[o]; len(l) > 0 {
		if w.pick(func() []int64 { return []int64{1, 0} }) == 1 {
			v := l[len(l)-1]
			w.pools[o] = l[:len(l)-1]
			return v, true
		}
	}
	n := len(o.s)
	_ = n
	// New is the last field of sync.Pool
	el := w.p.elemOf(fn.params[0])
	newf := o.s[i+el.foff[len(el.foff)-1]]
	if newf.p == nil {
		return V{}, true
	}
	return w.callClosure(newf, nil), true
}

func poolPut(w *W, fn *Fn, a []V) (V, bool) {
	o, i := w.ptrObj(a[0])
	if a[1].p == nil {
		return V{}, true
	}
	w.syncPoint()
	w.release(o, i)
	w.pools[o] = append(w.pools[o][:len(w.pools[o]):len(w.pools[o])], a[1])
	return V{}, true
}

func sortSlice(w *W, fn *Fn, a []V) (V, bool) {
	ifc, _ := a[0].p.(*Iface)
	if ifc == nil {
		return V{}, true
	}
	sl, _ := ifc.v.p.(*Slice)
	if sl == nil {
		return V{}, true
	}
	es := w.p.elemOf(ifc.t).size
	w.touch(sl.obj)
	swap := func(i, j int) {
		for k := 0; k < es; k++ {
			x, y := sl.off+i*es+k, sl.off+j*es+k
			sl.obj.s[x], sl.obj.s[y] = sl.obj.s[y], sl.obj.s[x]
		}
	}
	for i := 1; i < sl.len; i++ {
		for j := i; j > 0; j-- {
			r := w.callClosure(a[1], []V{{n: uint64(j)}, {n: uint64(j - 1)}})
			less := r.n != 0
			if t, ok := r.p.(*Term); ok {
				less = w.decideBool(t)
			}
			if !less {
				break
			}
			swap(j, j-1)
		}
	}
	return V{}, true
}

// parseFloat: concrete text runs the real function's result through a native
// call; symbolic text is classified by the harness model (the float syntax of
// strconv) and its value is opaque, equal for equal text.
func parseFloat(w *W, fn *Fn, args []V) (V, bool) {
	s := args[0].str()
	if c, ok := s.concrete(); ok {
		f, err := strconv.ParseFloat(c, int(args[1].n))
		if err == nil {
			return tup(V{n: math.Float64bits(f)}, V{}), true
		}
		rng := V{}
		if errors.Is(err, strconv.ErrRange) {
			rng.n = 1
		}
		return tup(V{n: math.Float64bits(f)}, w.model("FloatErr", args[0], rng)), true
	}
	r := w.model("ParseFloat", args[0])
	k := w.conc(r, w.tiOf(types.Int))
	switch k {
	case 0:
		return tup(V{}, w.model("FloatErr", args[0], V{})), true
	case 2, 3:
		w.incomplete("float text that may be out of range")
	}
	// opaque value keyed by the text
	key := "f"
	for i := range s.b {
		v := s.at(i)
		if t, ok := v.p.(*Term); ok {
			key += fmt.Sprintf("t%d,", t.id)
		} else {
			key += fmt.Sprintf("%d,", v.n)
		}
	}
	id, ok := w.ex.ufID(w.id, key)
	_ = ok
	t := w.ts.intern(OUF, 64, nil, nil, nil, uint64(id))
	return tup(V{p: t}, V{}), true
}
