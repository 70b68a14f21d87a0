package main

import (
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (w *W) binop(in *Instr, a, b V, spec bool) (V, bool) {
	ti := in.ti
	switch ti.kind {
	case KInt:
		return w.intop(in, a, b, spec)
	case KBool:
		if a.p == nil && b.p == nil {
			switch in.tok {
			case token.EQL:
				return b2n(a.n == b.n), true
			case token.NEQ:
				return b2n(a.n != b.n), true
			case token.AND:
				return V{n: a.n & b.n}, true
			case token.OR:
				return V{n: a.n | b.n}, true
			}
		}
		x, y := w.toTerm(a, ti), w.toTerm(b, ti)
		switch in.tok {
		case token.EQL:
			return w.boolV(w.ts.mk(OEq, 0, x, y)), true
		case token.NEQ:
			return w.boolV(w.ts.not(w.ts.mk(OEq, 0, x, y))), true
		case token.AND:
			return w.boolV(w.ts.and(x, y)), true
		case token.OR:
			return w.boolV(w.ts.or(x, y)), true
		}
	case KFloat:
		return w.floatop(in, a, b, spec)
	case KString:
		switch in.tok {
		case token.ADD:
			return concat(a.str(), b.str()), true
		case token.EQL:
			return w.boolV(w.eqStr(a.str(), b.str())), true
		case token.NEQ:
			return w.boolV(w.ts.not(w.eqStr(a.str(), b.str()))), true
		}
		if spec {
			if _, ok := a.str().concrete(); !ok {
				return V{}, false
			}
			if _, ok := b.str().concrete(); !ok {
				return V{}, false
			}
		}
		c := w.cmpStr(a.str(), b.str())
		switch in.tok {
		case token.LSS:
			return b2n(c < 0), true
		case token.LEQ:
			return b2n(c <= 0), true
		case token.GTR:
			return b2n(c > 0), true
		case token.GEQ:
			return b2n(c >= 0), true
		}
	default:
		// pointers, interfaces, structs, nil comparisons
		ka, kb := in.ti, in.ti2
		if ka.kind == KIface && kb.kind != KIface && b.p != nil {
			b = V{p: &Iface{t: kb, v: b}}
		} else if kb.kind == KIface && ka.kind != KIface && a.p != nil {
			a = V{p: &Iface{t: ka, v: a}}
			ka = kb
		}
		t := w.eqTerm(a, b, ka)
		switch in.tok {
		case token.EQL:
			return w.boolV(t), true
		case token.NEQ:
			return w.boolV(w.ts.not(t)), true
		}
	}
	if spec {
		return V{}, false
	}
	w.incomplete("binop %v on kind %d", in.tok, ti.kind)
	return V{}, false
}

func (w *W) cmpStr(a, b *Str) int {
	n := a.len()
	if b.len() < n {
		n = b.len()
	}
	for i := 0; i < n; i++ {
		x, y := a.at(i), b.at(i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				if x.n < y.n {
					return -1
				}
				return 1
			}
			continue
		}
		tx, ty := w.byteTerm(x), w.byteTerm(y)
		if w.decideBool(w.ts.mk(OEq, 0, tx, ty)) {
			continue
		}
		if w.decideBool(w.ts.mk(OUlt, 0, tx, ty)) {
			return -1
		}
		return 1
	}
	switch {
	case a.len() < b.len():
		return -1
	case a.len() > b.len():
		return 1
	}
	return 0
}

func (w *W) byteTerm(v V) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return w.ts.konst(8, v.n)
}

func (w *W) eqStr(a, b *Str) *Term {
	if a.len() != b.len() {
		return w.ts.ff
	}
	if a == b {
		return w.ts.tt
	}
	res := w.ts.tt
	for i := range a.b {
		x, y := a.at(i), b.at(i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				return w.ts.ff
			}
			continue
		}
		res = w.ts.and(res, w.ts.mk(OEq, 0, w.byteTerm(x), w.byteTerm(y)))
		if res.isConst() && res.k == 0 {
			return res
		}
	}
	return res
}

func (w *W) intop(in *Instr, a, b V, spec bool) (V, bool) {
	ti := in.ti
	if in.tok == token.SHL || in.tok == token.SHR {
		return w.shift(in, a, b, spec)
	}
	if a.p == nil && b.p == nil {
		x, y := a.n, b.n
		switch in.tok {
		case token.ADD:
			return V{n: normK(x+y, ti.w, ti.signed)}, true
		case token.SUB:
			return V{n: normK(x-y, ti.w, ti.signed)}, true
		case token.MUL:
			return V{n: normK(x*y, ti.w, ti.signed)}, true
		case token.QUO, token.REM:
			if y == 0 {
				if spec {
					return V{}, false
				}
				w.rtPanic("integer divide by zero")
			}
			if ti.signed {
				if int64(y) == -1 {
					if in.tok == token.QUO {
						return V{n: normK(-x, ti.w, true)}, true
					}
					return V{}, true
				}
				if in.tok == token.QUO {
					return V{n: normK(uint64(int64(x)/int64(y)), ti.w, true)}, true
				}
				return V{n: normK(uint64(int64(x)%int64(y)), ti.w, true)}, true
			}
			if in.tok == token.QUO {
				return V{n: x / y}, true
			}
			return V{n: x % y}, true
		case token.AND:
			return V{n: x & y}, true
		case token.OR:
			return V{n: x | y}, true
		case token.XOR:
			return V{n: normK(x^y, ti.w, ti.signed)}, true
		case token.AND_NOT:
			return V{n: normK(x&^y, ti.w, ti.signed)}, true
		case token.EQL:
			return b2n(x == y), true
		case token.NEQ:
			return b2n(x != y), true
		}
		var r bool
		if ti.signed {
			p, q := int64(x), int64(y)
			switch in.tok {
			case token.LSS:
				r = p < q
			case token.LEQ:
				r = p <= q
			case token.GTR:
				r = p > q
			case token.GEQ:
				r = p >= q
			}
		} else {
			switch in.tok {
			case token.LSS:
				r = x < y
			case token.LEQ:
				r = x <= y
			case token.GTR:
				r = x > y
			case token.GEQ:
				r = x >= y
			}
		}
		return b2n(r), true
	}
	if _, ok := a.p.(*Obj); ok { // uintptr arithmetic on pointers
		if b.p == nil && b.n == 0 && (in.tok == token.XOR || in.tok == token.ADD) {
			return a, true
		}
	}
	if _, ok := a.p.(*Term); !ok && a.p != nil {
		if spec {
			return V{}, false
		}
		w.incomplete("pointer arithmetic")
	}
	if _, ok := b.p.(*Term); !ok && b.p != nil {
		if spec {
			return V{}, false
		}
		w.incomplete("pointer arithmetic")
	}
	x, y := w.toTerm(a, ti), w.toTerm(b, ti)
	ts := w.ts
	cmp := func(t *Term) (V, bool) { return w.boolV(t), true }
	lt, le := OUlt, OUle
	if ti.signed {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.EQL:
		return cmp(ts.mk(OEq, 0, x, y))
	case token.NEQ:
		return cmp(ts.not(ts.mk(OEq, 0, x, y)))
	case token.LSS:
		return cmp(ts.mk(lt, 0, x, y))
	case token.LEQ:
		return cmp(ts.mk(le, 0, x, y))
	case token.GTR:
		return cmp(ts.mk(lt, 0, y, x))
	case token.GEQ:
		return cmp(ts.mk(le, 0, y, x))
	}
	var op Op
	switch in.tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		return fromTerm(ts.mk(OAnd, ti.w, x, ts.mk(OXor, ti.w, y, ts.konst(ti.w, ^uint64(0)))), ti), true
	case token.QUO, token.REM:
		if y.isConst() {
			if y.k == 0 {
				if spec {
					return V{}, false
				}
				w.rtPanic("integer divide by zero")
			}
		} else {
			if spec {
				return V{}, false
			}
			if w.decideBool(ts.mk(OEq, 0, y, ts.konst(ti.w, 0))) {
				w.rtPanic("integer divide by zero")
			}
		}
		switch {
		case in.tok == token.QUO && ti.signed:
			op = OSDiv
		case in.tok == token.QUO:
			op = OUDiv
		case ti.signed:
			op = OSRem
		default:
			op = OURem
		}
	default:
		if spec {
			return V{}, false
		}
		w.incomplete("int op %v", in.tok)
	}
	return fromTerm(ts.mk(op, ti.w, x, y), ti), true
}

func (w *W) shift(in *Instr, a, b V, spec bool) (V, bool) {
	ti, si := in.ti, in.ti2
	if b.p == nil {
		if si.signed && int64(b.n) < 0 {
			if spec {
				return V{}, false
			}
			w.rtPanic("negative shift amount")
		}
		c := b.n
		if c > 64 {
			c = 64
		}
		if a.p == nil {
			if in.tok == token.SHL {
				return V{n: normK(a.n<<c, ti.w, ti.signed)}, true
			}
			if ti.signed {
				return V{n: uint64(int64(a.n) >> c)}, true
			}
			return V{n: a.n >> c}, true
		}
		if _, ok := a.p.(*Term); !ok {
			if spec {
				return V{}, false
			}
			w.incomplete("shift of pointer")
		}
		x := w.toTerm(a, ti)
		if c >= uint64(ti.w) {
			if in.tok == token.SHR && ti.signed {
				c = uint64(ti.w) - 1
			} else {
				return V{}, true
			}
		}
		k := w.ts.konst(ti.w, c)
		op := OShl
		if in.tok == token.SHR {
			op = OLshr
			if ti.signed {
				op = OAshr
			}
		}
		return fromTerm(w.ts.mk(op, ti.w, x, k), ti), true
	}
	// symbolic count: only same or smaller widths
	x, c := w.toTerm(a, ti), w.toTerm(b, si)
	if si.signed {
		if spec {
			return V{}, false
		}
		if w.decideBool(w.ts.mk(OSlt, 0, c, w.ts.konst(si.w, 0))) {
			w.rtPanic("negative shift amount")
		}
	}
	if si.w < ti.w {
		c = w.ts.mk(OZext, ti.w, c, nil)
	} else if si.w > ti.w {
		big := w.ts.mk(OUle, 0, w.ts.konst(si.w, uint64(ti.w)), c)
		c = w.ts.ite(big, w.ts.konst(ti.w, uint64(ti.w)), w.ts.mk(OTrunc, ti.w, c, nil))
	}
	op := OShl
	if in.tok == token.SHR {
		op = OLshr
		if ti.signed {
			op = OAshr
		}
	}
	return fromTerm(w.ts.mk(op, ti.w, x, c), ti), true
}

func (w *W) floatop(in *Instr, a, b V, spec bool) (V, bool) {
	ta, oka := a.p.(*Term)
	tb, okb := b.p.(*Term)
	if oka || okb {
		var x, y *Term
		x, y = ta, tb
		if x == nil {
			x = w.ts.konst(64, a.n)
		}
		if y == nil {
			y = w.ts.konst(64, b.n)
		}
		// equality of opaque (non-NaN) values only
		switch in.tok {
		case token.EQL:
			return w.boolV(w.ts.mk(OEq, 0, x, y)), true
		case token.NEQ:
			return w.boolV(w.ts.not(w.ts.mk(OEq, 0, x, y))), true
		}
		if spec {
			return V{}, false
		}
		w.incomplete("symbolic float %v", in.tok)
	}
	if in.ti.w == 32 {
		x, y := math.Float32frombits(uint32(a.n)), math.Float32frombits(uint32(b.n))
		r := float32(0)
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.EQL:
			return b2n(x == y), true
		case token.NEQ:
			return b2n(x != y), true
		case token.LSS:
			return b2n(x < y), true
		case token.LEQ:
			return b2n(x <= y), true
		case token.GTR:
			return b2n(x > y), true
		case token.GEQ:
			return b2n(x >= y), true
		}
		return V{n: uint64(math.Float32bits(r))}, true
	}
	x, y := f64(a), f64(b)
	r := float64(0)
	switch in.tok {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	case token.EQL:
		return b2n(x == y), true
	case token.NEQ:
		return b2n(x != y), true
	case token.LSS:
		return b2n(x < y), true
	case token.LEQ:
		return b2n(x <= y), true
	case token.GTR:
		return b2n(x > y), true
	case token.GEQ:
		return b2n(x >= y), true
	}
	return V{n: math.Float64bits(r)}, true
}

// eqTerm is Go's == on two values of type ti, as a Boolean term.
func (w *W) eqTerm(a, b V, ti *TI) *Term {
	switch ti.kind {
	case KString:
		return w.eqStr(a.str(), b.str())
	case KInt, KBool:
		if a.p == nil && b.p == nil {
			return w.ts.boolT(a.n == b.n)
		}
		return w.ts.mk(OEq, 0, w.toTerm(a, ti), w.toTerm(b, ti))
	case KFloat:
		if a.p == nil && b.p == nil {
			if ti.w == 32 {
				return w.ts.boolT(math.Float32frombits(uint32(a.n)) == math.Float32frombits(uint32(b.n)))
			}
			return w.ts.boolT(f64(a) == f64(b))
		}
		return w.ts.mk(OEq, 0, w.toTerm(a, ti), w.toTerm(b, ti))
	case KPtr, KUnsafe, KChan:
		if _, ok := a.p.(*SymPtr); ok {
			w.incomplete("comparison of symbolic pointers")
		}
		return w.ts.boolT(a.p == b.p && (a.p == nil || a.n == b.n))
	case KSlice, KMap, KFunc:
		if a.p == nil || b.p == nil {
			return w.ts.boolT(a.p == nil && b.p == nil)
		}
		w.rtPanic("comparing uncomparable type %v", ti.t)
	case KIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return w.ts.boolT(x == nil && y == nil)
		}
		if x.t != y.t {
			return w.ts.ff
		}
		return w.eqTerm(x.v, y.v, x.t)
	case KStruct:
		res := w.ts.tt
		for i, f := range ti.fields {
			res = w.ts.and(res, w.eqTerm(aggGet(a, ti.foff[i], f), aggGet(b, ti.foff[i], f), f))
		}
		return res
	case KArray:
		res := w.ts.tt
		for i := 0; i < ti.alen; i++ {
			res = w.ts.and(res, w.eqTerm(aggGet(a, i*ti.elem.size, ti.elem), aggGet(b, i*ti.elem.size, ti.elem), ti.elem))
		}
		return res
	}
	w.incomplete("== on kind %d", ti.kind)
	return nil
}

func aggGet(v V, off int, ti *TI) V {
	g, ok := v.p.(*Agg)
	if !ok {
		return V{}
	}
	if ti.kind == KStruct || ti.kind == KArray {
		return V{p: &Agg{s: g.s[off : off+ti.size]}}
	}
	return g.s[off]
}

func (w *W) convert(in *Instr, a V, spec bool) (V, bool) {
	f, t := in.ti, in.ti2
	switch {
	case f.kind == KInt && t.kind == KInt:
		if tm, ok := a.p.(*Term); ok {
			if t.w == f.w {
				return a, true
			}
			if t.w < f.w {
				return fromTerm(w.ts.mk(OTrunc, t.w, tm, nil), t), true
			}
			if f.signed {
				return fromTerm(w.ts.mk(OSext, t.w, tm, nil), t), true
			}
			return fromTerm(w.ts.mk(OZext, t.w, tm, nil), t), true
		}
		if a.p != nil { // pointer in a uintptr
			return a, true
		}
		return V{n: normK(a.n, t.w, t.signed)}, true
	case f.kind == KInt && t.kind == KFloat:
		if a.p != nil {
			if spec {
				return V{}, false
			}
			a = V{n: w.concretize(a, f)}
		}
		var x float64
		if f.signed {
			x = float64(int64(a.n))
			if t.w == 32 {
				return V{n: uint64(math.Float32bits(float32(int64(a.n))))}, true
			}
		} else {
			x = float64(a.n)
			if t.w == 32 {
				return V{n: uint64(math.Float32bits(float32(a.n)))}, true
			}
		}
		return V{n: math.Float64bits(x)}, true
	case f.kind == KFloat && t.kind == KInt:
		if a.p != nil {
			if spec {
				return V{}, false
			}
			w.incomplete("conversion of a symbolic float")
		}
		x := f64(a)
		if f.w == 32 {
			x = float64(math.Float32frombits(uint32(a.n)))
		}
		if t.signed {
			return V{n: normK(uint64(int64(x)), t.w, true)}, true
		}
		return V{n: normK(uint64(x), t.w, false)}, true
	case f.kind == KFloat && t.kind == KFloat:
		if f.w == t.w || a.p != nil {
			return a, true
		}
		if t.w == 32 {
			return V{n: uint64(math.Float32bits(float32(f64(a))))}, true
		}
		return V{n: math.Float64bits(float64(math.Float32frombits(uint32(a.n))))}, true
	case f.kind == KString && t.kind == KString:
		return a, true
	case f.kind == KString && t.kind == KSlice:
		if spec {
			return V{}, false
		}
		if t.elem.w == 8 {
			s := a.str()
			return w.sliceOfStr(s, roundupBytes(s.len())), true
		}
		// []rune
		s := a.str()
		var rs []V
		for i := 0; i < s.len(); {
			r, n := w.decodeRune(s, i)
			rs = append(rs, r)
			i += n
		}
		o := w.newObj(len(rs))
		copy(o.s, rs)
		return V{p: &Slice{obj: o, len: len(rs), cap: len(rs)}}, true
	case f.kind == KSlice && t.kind == KString:
		if f.elem.w == 8 {
			sl, _ := a.p.(*Slice)
			if sl == nil {
				return V{}, true
			}
			return strOfSlots(sl.obj.slots(sl)), true
		}
		if spec {
			return V{}, false
		}
		sl, _ := a.p.(*Slice)
		if sl == nil {
			return V{}, true
		}
		out := &emptyStr
		for _, r := range sl.obj.slots(sl) {
			out = concat(out, w.runeStr(r).str()).str()
		}
		if out.len() == 0 {
			return V{}, true
		}
		return V{p: out}, true
	case f.kind == KInt && t.kind == KString:
		if spec {
			return V{}, false
		}
		return w.runeStrT(a, f), true
	case f.kind == KUnsafe || t.kind == KUnsafe:
		return a, true
	case f.kind == KPtr && t.kind == KPtr:
		return a, true
	case f.kind == KSlice && t.kind == KSlice, f.kind == KMap && t.kind == KMap, f.kind == KFunc && t.kind == KFunc, f.kind == KStruct && t.kind == KStruct, f.kind == KBool && t.kind == KBool:
		return a, true
	}
	if spec {
		return V{}, false
	}
	w.incomplete("convert %v to %v", f.t, t.t)
	return V{}, false
}

func (w *W) runeStr(r V) V { return w.runeStrT(r, w.p.ti(types.Typ[types.Int32])) }

func (w *W) runeStrT(r V, ti *TI) V {
	if t, ok := r.p.(*Term); ok {
		if w.decideBool(w.ts.mk(OUlt, 0, t, w.ts.konst(ti.w, 0x80))) {
			var b *Term
			if ti.w > 8 {
				b = w.ts.mk(OTrunc, 8, t, nil)
			} else {
				b = t
			}
			return V{p: &Str{b: []byte{0}, t: []*Term{b}}}
		}
		r = V{n: w.concretize(r, ti)}
	}
	return mkStr(string(rune(int64(r.n))))
}

// decodeRune decodes one rune of s at position i, concretising multi-byte runes.
func (w *W) decodeRune(s *Str, i int) (V, int) {
	c := s.at(i)
	if t, ok := c.p.(*Term); ok {
		if w.decideBool(w.ts.mk(OUlt, 0, t, w.ts.konst(8, 0x80))) {
			return fromTerm(w.ts.mk(OZext, 32, t, nil), w.p.ti(types.Typ[types.Int32])), 1
		}
	} else if c.n < 0x80 {
		return c, 1
	}
	u8 := w.p.ti(types.Typ[types.Uint8])
	n := s.len() - i
	if n > 4 {
		n = 4
	}
	buf := make([]byte, 0, 4)
	for j := 0; j < n; j++ {
		b := s.at(i + j)
		if j > 0 && b.p != nil {
			// only continuation bytes matter
			if !w.decideBool(w.ts.mk(OEq, 0, w.ts.mk(OAnd, 8, b.p.(*Term), w.ts.konst(8, 0xC0)), w.ts.konst(8, 0x80))) {
				buf = append(buf, 'x')
				break
			}
		}
		buf = append(buf, byte(w.conc(b, u8)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, k := utf8.DecodeRune(buf)
	return V{n: normK(uint64(r), 32, true)}, k
}

func (w *W) conc(v V, ti *TI) uint64 {
	if v.p == nil {
		return v.n
	}
	return w.concretize(v, ti)
}

func (w *W) symIndex(o *Obj, off, es, n int, b V, in *Instr, spec bool) (V, bool) {
	t, ok := b.p.(*Term)
	if !ok {
		if spec {
			return V{}, false
		}
		w.incomplete("index is not an integer")
	}
	ti := in.ti2
	if t.v >= 0 {
		// bounds decided over the domain
		if t.op == OVar && n >= 256 && !ti.signed {
			return V{p: &SymPtr{obj: o, off: off, es: es, n: n, idx: t, sgn: ti.signed, elem: in.ti}}, true
		}
		vals := t.values()
		var inb Mask
		for x := 0; x < 256; x++ {
			k := vals[x]
			if ti.signed {
				if s := sext(k, t.w); s >= 0 && s < int64(n) {
					inb.set(x)
				}
			} else if k < uint64(n) {
				inb.set(x)
			}
		}
		d := w.dom[t.v]
		if !d.andnot(inb).empty() {
			if spec {
				return V{}, false
			}
			if !w.decideBool(w.ts.inMask(int(t.v), inb)) {
				w.rtPanic("index out of range [symbolic] with length %d", n)
			}
		}
		return V{p: &SymPtr{obj: o, off: off, es: es, n: n, idx: t, sgn: ti.signed, elem: in.ti}}, true
	}
	if spec {
		return V{}, false
	}
	lo := w.ts.mk(OUlt, 0, t, w.ts.konst(t.w, uint64(n)))
	if t.w < 64 && uint64(n) > wmask(t.w) && !ti.signed {
		lo = w.ts.tt
	}
	if !lo.isConst() {
		if !w.decideBool(lo) {
			w.rtPanic("index out of range [symbolic] with length %d", n)
		}
	}
	k := w.concretize(b, ti)
	return V{n: uint64(off + int(k)*es), p: o}, true
}

func (w *W) resolve(sp *SymPtr) V {
	ti := w.p.ti(types.Typ[types.Int])
	if sp.idx.w != 64 {
		ti = w.p.ti(map[uint8]types.Type{8: types.Typ[types.Uint8], 16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32]}[sp.idx.w])
	}
	k := w.concretize(V{p: sp.idx}, ti)
	return V{n: uint64(sp.off + int(k)*sp.es), p: sp.obj}
}

func (w *W) loadSym(sp *SymPtr, ti *TI, spec bool) (V, bool) {
	if sp.es == 1 && (ti.kind == KInt || ti.kind == KBool) && sp.idx.v >= 0 {
		var vals [256]uint64
		idx := sp.idx.values()
		ok := true
		wd := ti.w
		d := w.dom[sp.idx.v]
		if wd == 0 && sp.idx.op == OVar && sp.n >= 256 {
			var m Mask
			plain := true
			all := sp.obj.s[sp.off : sp.off+256]
			for x := range all {
				if all[x].p != nil {
					plain = false
					break
				}
				if all[x].n != 0 {
					m.set(x)
				}
			}
			if plain {
				m = m.and(d)
				if m == d {
					return fromTerm(w.ts.tt, ti), true
				}
				if f := d.first(); f >= 0 && m.has(f) {
					m = m.or(Mask{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}.andnot(d))
				}
				return fromTerm(w.ts.inMask(int(sp.idx.v), m), ti), true
			}
		}
		for x := 0; x < 256; x++ {
			k := idx[x]
			if !d.has(x) || k >= uint64(sp.n) {
				continue
			}
			e := sp.obj.s[sp.off+int(k)]
			switch p := e.p.(type) {
			case nil:
				vals[x] = e.n & wmask(wd)
			case *Term:
				if p.v != sp.idx.v {
					ok = false
				} else {
					vals[x] = p.values()[x]
				}
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok {
			// outside the domain the value is irrelevant: repeat a domain value
			// so that equal tables stay equal
			f := d.first()
			if f >= 0 {
				for x := 0; x < 256; x++ {
					if !d.has(x) || idx[x] >= uint64(sp.n) {
						vals[x] = vals[f]
					}
				}
			}
			return fromTerm(w.ts.table(int(sp.idx.v), wd, &vals), ti), true
		}
	}
	if spec {
		return V{}, false
	}
	p := w.resolve(sp)
	return w.load(p.p.(*Obj), int(p.n), ti), true
}

func (w *W) symStrIndex(s *Str, t *Term, ti *TI, spec bool) (V, bool) {
	if spec && t.v < 0 {
		return V{}, false
	}
	o := &Obj{s: make([]V, s.len())}
	for i := range s.b {
		o.s[i] = s.at(i)
	}
	u8 := w.p.ti(types.Typ[types.Uint8])
	pv, ok := w.symIndex(o, 0, 1, s.len(), V{p: t}, &Instr{ti: u8, ti2: ti}, spec)
	if !ok {
		return V{}, false
	}
	if sp, ok := pv.p.(*SymPtr); ok {
		return w.loadSym(sp, u8, spec)
	}
	return o.s[pv.n], true
}

func (w *W) mapOrder(fn *Fn, n int) []int {
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if n < 2 || w.baseMode || isHarness(fn) {
		return perm
	}
	if n <= 3 {
		// every order
		left := append([]int(nil), perm...)
		for i := 0; i < n-1; i++ {
			opts := make([]int64, len(left))
			for j := range opts {
				opts[j] = int64(j)
			}
			j := int(w.pick(func() []int64 { return opts }))
			perm[i] = left[j]
			left = append(left[:j], left[j+1:]...)
		}
		perm[n-1] = left[0]
		return perm
	}
	if w.pick(func() []int64 { return []int64{0, 1} }) == 1 {
		for i := range perm {
			perm[i] = n - 1 - i
		}
	}
	return perm
}

func (w *W) builtin(in *Instr, args []V) V {
	switch in.aux.(string) {
	case "len":
		switch x := args[0].p.(type) {
		case nil:
			if in.ti.kind == KArray {
				return V{n: uint64(in.ti.alen)}
			}
			return V{}
		case *Slice:
			return V{n: uint64(x.len)}
		case *Str:
			return V{n: uint64(x.len())}
		case *MapV:
			return V{n: uint64(len(x.keys))}
		case *Agg:
			return V{n: uint64(in.ti.alen)}
		}
	case "cap":
		switch x := args[0].p.(type) {
		case nil:
			return V{}
		case *Slice:
			return V{n: uint64(x.cap)}
		}
	case "append":
		return w.appendV(in, args)
	case "copy":
		d, _ := args[0].p.(*Slice)
		if d == nil {
			return V{}
		}
		es := in.ti.elem.size
		if in.ti2.kind == KString {
			s := args[1].str()
			n := min(d.len, s.len())
			w.sharedWrite(d.obj, d.off, n)
			w.touch(d.obj)
			for i := 0; i < n; i++ {
				d.obj.s[d.off+i] = s.at(i)
			}
			return V{n: uint64(n)}
		}
		s, _ := args[1].p.(*Slice)
		if s == nil {
			return V{}
		}
		n := min(d.len, s.len)
		if n > 0 {
			w.sharedRead(s.obj, s.off, n*es)
			w.sharedWrite(d.obj, d.off, n*es)
		}
		w.touch(d.obj)
		copy(d.obj.s[d.off:d.off+n*es], s.obj.s[s.off:s.off+n*es])
		return V{n: uint64(n)}
	case "delete":
		m, _ := args[0].p.(*MapV)
		if m == nil {
			return V{}
		}
		if i := w.mapFind(m, args[1], in.ti.key); i >= 0 {
			if w.par != nil {
				w.par.accessMap(w, m, true)
			}
			w.touchMap(m)
			m.keys = append(append([]V(nil), m.keys[:i]...), m.keys[i+1:]...)
			m.vals = append(append([]V(nil), m.vals[:i]...), m.vals[i+1:]...)
		}
		return V{}
	case "clear":
		switch x := args[0].p.(type) {
		case *MapV:
			w.touchMap(x)
			x.keys, x.vals = nil, nil
		case *Slice:
			w.touch(x.obj)
			es := in.ti.elem.size
			for i := 0; i < x.len*es; i++ {
				x.obj.s[x.off+i] = V{}
			}
		}
		return V{}
	case "print", "println", "ssa:wrapnilchk":
		if in.aux.(string) == "ssa:wrapnilchk" {
			if args[0].p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			return args[0]
		}
		return V{}
	case "recover":
		if len(w.panics) == 0 || w.panics[len(w.panics)-1].recovered {
			return V{}
		}
		p := w.panics[len(w.panics)-1]
		p.recovered = true
		return p.v
	case "min", "max":
		r := args[0]
		tok := token.LSS
		if in.aux.(string) == "max" {
			tok = token.GTR
		}
		for _, x := range args[1:] {
			c, _ := w.binop(&Instr{tok: tok, ti: in.ti, ti2: in.ti}, x, r, false)
			if t, ok := c.p.(*Term); ok {
				if in.ti.kind == KInt {
					r = fromTerm(w.ts.ite(t, w.toTerm(x, in.ti), w.toTerm(r, in.ti)), in.ti)
					continue
				}
				if w.decideBool(t) {
					r = x
				}
				continue
			}
			if c.n != 0 {
				r = x
			}
		}
		return r
	case "String": // unsafe.String
		n := int(w.conc(args[1], w.p.ti(types.Typ[types.Int])))
		if n == 0 {
			return V{}
		}
		switch o := args[0].p.(type) {
		case *Obj:
			return strOfSlots(o.s[args[0].n : int(args[0].n)+n])
		case *Str:
			return o.slice(int(args[0].n), int(args[0].n)+n)
		}
	case "StringData":
		s := args[0].str()
		if s.len() == 0 {
			return V{}
		}
		o := &Obj{s: make([]V, s.len())}
		for i := range s.b {
			o.s[i] = s.at(i)
		}
		return V{p: o}
	case "SliceData":
		s, _ := args[0].p.(*Slice)
		if s == nil {
			return V{}
		}
		return V{p: s.obj, n: uint64(s.off)}
	case "Slice":
		n := int(w.conc(args[1], w.p.ti(types.Typ[types.Int])))
		if o, ok := args[0].p.(*Obj); ok {
			return V{p: &Slice{obj: o, off: int(args[0].n), len: n, cap: n}}
		}
		return V{}
	case "close":
	}
	w.incomplete("builtin %v", in.aux)
	return V{}
}

func (w *W) appendV(in *Instr, args []V) V {
	el := in.ti.elem
	es := el.size
	s, _ := args[0].p.(*Slice)
	var add []V
	n := 0
	if in.ti2.kind == KString {
		st := args[1].str()
		n = st.len()
		add = make([]V, n)
		for i := range add {
			add[i] = st.at(i)
		}
	} else {
		t, _ := args[1].p.(*Slice)
		if t != nil {
			n = t.len
			add = t.obj.s[t.off : t.off+n*es]
			if n > 0 {
				w.sharedRead(t.obj, t.off, n*es)
			}
		}
	}
	if s == nil {
		if args[0].p != nil {
			w.incomplete("append to reinterpreted value")
		}
		if n == 0 {
			return V{}
		}
		c := growCap(el, 0, 0, n)
		o := w.newObj(c * es)
		copy(o.s, add)
		return V{p: &Slice{obj: o, len: n, cap: c}}
	}
	if n == 0 {
		return args[0]
	}
	if s.len+n <= s.cap {
		w.sharedWrite(s.obj, s.off+s.len*es, n*es)
		w.touch(s.obj)
		copy(s.obj.s[s.off+s.len*es:s.off+(s.len+n)*es], add)
		return V{p: &Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap}}
	}
	c := growCap(el, s.len, s.cap, n)
	o := w.newObj(c * es)
	copy(o.s, s.obj.s[s.off:s.off+s.len*es])
	copy(o.s[s.len*es:], add)
	return V{p: &Slice{obj: o, len: s.len + n, cap: c}}
}
