package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Symbolic terms. Width w is the bit width; w == 0 is the Boolean sort.
type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OZext
	OSext
	OTrunc
	OTable // function of one byte variable given by a 256-entry table
	OUF    // opaque value (float parse result), identified by k
)

type Mask [4]uint64

func (m *Mask) has(b int) bool { return m[b>>6]>>(uint(b)&63)&1 != 0 }
func (m *Mask) set(b int)      { m[b>>6] |= 1 << (uint(b) & 63) }
func (m Mask) and(o Mask) Mask {
	return Mask{m[0] & o[0], m[1] & o[1], m[2] & o[2], m[3] & o[3]}
}
func (m Mask) or(o Mask) Mask {
	return Mask{m[0] | o[0], m[1] | o[1], m[2] | o[2], m[3] | o[3]}
}
func (m Mask) andnot(o Mask) Mask {
	return Mask{m[0] &^ o[0], m[1] &^ o[1], m[2] &^ o[2], m[3] &^ o[3]}
}
func (m Mask) empty() bool { return m[0]|m[1]|m[2]|m[3] == 0 }
func (m Mask) count() int {
	return bits.OnesCount64(m[0]) + bits.OnesCount64(m[1]) + bits.OnesCount64(m[2]) + bits.OnesCount64(m[3])
}
func (m Mask) first() int {
	for i := 0; i < 4; i++ {
		if m[i] != 0 {
			return i*64 + bits.TrailingZeros64(m[i])
		}
	}
	return -1
}

var fullMask = Mask{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Term struct {
	id      int32
	op      Op
	w       uint8
	v       int32 // -1 constant, >=0 the only variable, -2 several variables
	a, b, c *Term
	k       uint64
	vec     *[256]uint64
	mask    Mask
	hasMask bool
	vars    []int32
	smtName string
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
}

// Terms is a hash-consing table, one per worker.
type Terms struct {
	m      map[tkey]*Term
	tabs   map[string]*Term
	btabs  map[btKey]*Term
	seps   map[*Term]*Sep
	n      int32
	tt, ff *Term
}

func newTerms() *Terms {
	ts := &Terms{m: map[tkey]*Term{}, tabs: map[string]*Term{}, btabs: map[btKey]*Term{}, seps: map[*Term]*Sep{}}
	ts.tt = ts.konst(0, 1)
	ts.ff = ts.konst(0, 0)
	return ts
}

func wmask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(x uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(x)
	}
	sh := 64 - w
	return int64(x<<sh) >> sh
}

func (ts *Terms) intern(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, a, b, c, k}
	if t := ts.m[key]; t != nil {
		return t
	}
	t := &Term{id: ts.n, op: op, w: w, a: a, b: b, c: c, k: k, v: -1}
	ts.n++
	if op == OVar {
		t.v = int32(k)
	} else if op == OUF {
		t.v = -2
	} else {
		for _, s := range [3]*Term{a, b, c} {
			if s == nil || s.v == -1 {
				continue
			}
			if t.v == -1 {
				t.v = s.v
			} else if t.v != s.v {
				t.v = -2
			}
		}
	}
	if t.v == -2 {
		t.vars = mergeVars(a, b, c)
	}
	ts.m[key] = t
	return t
}

func (t *Term) varList() []int32 {
	if t == nil || t.v == -1 {
		return nil
	}
	if t.v >= 0 {
		return []int32{t.v}
	}
	return t.vars
}

func mergeVars(ts ...*Term) []int32 {
	var out []int32
	for _, t := range ts {
		for _, v := range t.varList() {
			i := 0
			for i < len(out) && out[i] < v {
				i++
			}
			if i < len(out) && out[i] == v {
				continue
			}
			out = append(out, 0)
			copy(out[i+1:], out[i:])
			out[i] = v
		}
	}
	return out
}

func (ts *Terms) konst(w uint8, k uint64) *Term {
	return ts.intern(OConst, w, nil, nil, nil, k&wmask(w))
}
func (ts *Terms) varT(i int) *Term { return ts.intern(OVar, 8, nil, nil, nil, uint64(i)) }
func (ts *Terms) boolT(b bool) *Term {
	if b {
		return ts.tt
	}
	return ts.ff
}

func (t *Term) isConst() bool { return t.op == OConst }

func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	m := wmask(w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return (a / b) & m
	case OURem:
		if b == 0 {
			return a
		}
		return (a % b) & m
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OEq:
		return bo(a == b)
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sext(a, aw) < sext(b, aw))
	case OSle:
		return bo(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b & 1
	case OBOr:
		return (a | b) & 1
	case OBNot:
		return a ^ 1
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OTrunc:
		return a & m
	}
	panic("evalOp")
}

// vector of values of a single-variable term
func (t *Term) values() *[256]uint64 {
	if t.vec != nil {
		return t.vec
	}
	v := new([256]uint64)
	switch t.op {
	case OVar:
		for i := range v {
			v[i] = uint64(i)
		}
	case OConst:
		for i := range v {
			v[i] = t.k
		}
	default:
		var a, b, c *[256]uint64
		if t.a != nil {
			a = t.a.values()
		}
		if t.b != nil {
			b = t.b.values()
		} else {
			b = a
		}
		if t.c != nil {
			c = t.c.values()
		} else {
			c = a
		}
		for i := range v {
			v[i] = evalOp(t.op, t.w, t.a.w, a[i], b[i], c[i])
		}
	}
	if t.op != OConst {
		t.vec = v
	}
	return v
}

func (t *Term) bmask() Mask {
	if !t.hasMask {
		var m Mask
		v := t.values()
		for i := 0; i < 256; i++ {
			if v[i] != 0 {
				m.set(i)
			}
		}
		t.mask = m
		t.hasMask = true
	}
	return t.mask
}

func (ts *Terms) mk(op Op, w uint8, a, b *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) {
		var bk uint64
		if b != nil {
			bk = b.k
		}
		return ts.konst(w, evalOp(op, w, a.w, a.k, bk, 0))
	}
	switch op {
	case OEq:
		if a == b {
			return ts.tt
		}
		if a.isConst() {
			a, b = b, a
		}
		if a.w == 0 && b.isConst() {
			if b.k == 1 {
				return a
			}
			return ts.not(a)
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OUlt, OSlt:
		if a == b {
			return ts.ff
		}
	case OUle, OSle:
		if a == b {
			return ts.tt
		}
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return ts.mk(OAdd, w, a.a, ts.konst(w, a.b.k+b.k))
			}
		}
	case OSub:
		if a == b {
			return ts.konst(w, 0)
		}
		if b.isConst() {
			return ts.mk(OAdd, w, a, ts.konst(w, -b.k))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OAnd:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == wmask(w) {
				return a
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
	case OXor:
		if a == b {
			return ts.konst(w, 0)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
	case OZext, OSext, OTrunc:
		if a.w == w {
			return a
		}
		if op == OTrunc && (a.op == OZext || a.op == OSext) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return ts.mk(OTrunc, w, a.a, nil)
			}
			return ts.mk(a.op, w, a.a, nil)
		}
		if op == OZext && a.op == OZext {
			return ts.mk(OZext, w, a.a, nil)
		}
	}
	t := ts.intern(op, w, a, b, nil, 0)
	if t.v >= 0 && w == 0 {
		m := t.bmask()
		if m.empty() {
			return ts.ff
		}
		if m == fullMask {
			return ts.tt
		}
	}
	return t
}

func (ts *Terms) not(a *Term) *Term {
	if a.isConst() {
		return ts.boolT(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return ts.intern(OBNot, 0, a, nil, nil, 0)
}

func (ts *Terms) and(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return ts.mk(OBAnd, 0, a, b)
}

func (ts *Terms) or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return ts.mk(OBOr, 0, a, b)
}

func (ts *Terms) ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return ts.intern(OIte, a.w, c, a, b, 0)
}

// table makes the term "f(v)" for a byte variable v and an explicit table.
func (ts *Terms) table(v int, w uint8, vals *[256]uint64) *Term {
	same := true
	ident := w == 8
	for i := 0; i < 256; i++ {
		if vals[i] != vals[0] {
			same = false
		}
		if vals[i] != uint64(i) {
			ident = false
		}
	}
	if same {
		return ts.konst(w, vals[0])
	}
	if ident {
		return ts.varT(v)
	}
	if w == 0 {
		var m Mask
		for i := 0; i < 256; i++ {
			if vals[i] != 0 {
				m.set(i)
			}
		}
		return ts.inMask(v, m)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d:", v, w)
	for i := 0; i < 256; i++ {
		x := vals[i]
		for x >= 0x80 {
			sb.WriteByte(byte(x) | 0x80)
			x >>= 7
		}
		sb.WriteByte(byte(x))
	}
	key := sb.String()
	if t := ts.tabs[key]; t != nil {
		return t
	}
	cp := *vals
	t := &Term{id: ts.n, op: OTable, w: w, v: int32(v), vec: &cp, a: ts.varT(v), k: uint64(len(ts.tabs))}
	ts.n++
	ts.tabs[key] = t
	return t
}

type btKey struct {
	v int
	m Mask
}

func (ts *Terms) inMask(v int, m Mask) *Term {
	if m.empty() {
		return ts.ff
	}
	if m[0]&m[1]&m[2]&m[3] == ^uint64(0) {
		return ts.tt
	}
	key := btKey{v, m}
	if t := ts.btabs[key]; t != nil {
		return t
	}
	var vals [256]uint64
	for i := 0; i < 256; i++ {
		if m.has(i) {
			vals[i] = 1
		}
	}
	t := &Term{id: ts.n, op: OTable, w: 0, v: int32(v), vec: &vals, a: ts.varT(v), k: uint64(len(ts.tabs) + len(ts.btabs))}
	ts.n++
	ts.btabs[key] = t
	return t
}

// evaluate a term under a full assignment
func (t *Term) eval(asg []byte) uint64 {
	switch t.op {
	case OVar:
		if int(t.k) < len(asg) {
			return uint64(asg[t.k])
		}
		return 0
	case OConst:
		return t.k
	case OUF:
		return t.k
	}
	if t.v >= 0 {
		x := byte(0)
		if int(t.v) < len(asg) {
			x = asg[t.v]
		}
		return t.values()[x]
	}
	var a, b, c uint64
	a = t.a.eval(asg)
	if t.b != nil {
		b = t.b.eval(asg)
	}
	if t.c != nil {
		c = t.c.eval(asg)
	}
	return evalOp(t.op, t.w, t.a.w, a, b, c)
}
