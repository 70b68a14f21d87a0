package main

import "math/big"

// Sep is a term written as a sum of functions of one byte each, modulo 2^w.
type Sep struct {
	vs   []int32
	tabs []*[256]uint64
	k    uint64
}

// sepOf gives the separable form of t, or nil.
func (ts *Terms) sepOf(t *Term) *Sep {
	if s, ok := ts.seps[t]; ok {
		return s
	}
	var s *Sep
	switch {
	case t.isConst():
		s = &Sep{k: t.k}
	case t.v >= 0:
		s = &Sep{vs: []int32{t.v}, tabs: []*[256]uint64{t.values()}}
	case t.op == OAdd || t.op == OSub:
		a, b := ts.sepOf(t.a), ts.sepOf(t.b)
		if a != nil && b != nil {
			f := uint64(1)
			if t.op == OSub {
				f = ^uint64(0)
			}
			s = a.plus(b, f)
		}
	case t.op == OMul && t.b.isConst():
		if a := ts.sepOf(t.a); a != nil {
			s = (&Sep{}).plus(a, t.b.k)
		}
	case t.op == OShl && t.b.isConst() && t.b.k < 64:
		if a := ts.sepOf(t.a); a != nil {
			s = (&Sep{}).plus(a, 1<<t.b.k)
		}
	}
	if len(ts.seps) > 20000 {
		ts.seps = map[*Term]*Sep{}
	}
	ts.seps[t] = s
	return s
}

// plus is a + f*b.
func (a *Sep) plus(b *Sep, f uint64) *Sep {
	r := &Sep{k: a.k + f*b.k}
	i, j := 0, 0
	for i < len(a.vs) || j < len(b.vs) {
		switch {
		case j == len(b.vs) || i < len(a.vs) && a.vs[i] < b.vs[j]:
			r.vs = append(r.vs, a.vs[i])
			r.tabs = append(r.tabs, a.tabs[i])
			i++
		default:
			t := new([256]uint64)
			for x := range t {
				t[x] = f * b.tabs[j][x]
			}
			if i < len(a.vs) && a.vs[i] == b.vs[j] {
				for x := range t {
					t[x] += a.tabs[i][x]
				}
				i++
			}
			r.vs = append(r.vs, b.vs[j])
			r.tabs = append(r.tabs, t)
			j++
		}
	}
	return r
}

// span is the range of the sum over the integers, with every summand and the
// constant read as signed w-bit numbers.
func (s *Sep) span(w *W, wd uint8) (lo, hi *big.Int) {
	l, h := big.NewInt(sext(s.k&wmask(wd), wd)), big.NewInt(sext(s.k&wmask(wd), wd))
	for i, v := range s.vs {
		first := true
		var mn, mx int64
		d := w.dom[v]
		for x := 0; x < 256; x++ {
			if !d.has(x) {
				continue
			}
			y := sext(s.tabs[i][x]&wmask(wd), wd)
			if first || y < mn {
				mn = y
			}
			if first || y > mx {
				mx = y
			}
			first = false
		}
		l.Add(l, big.NewInt(mn))
		h.Add(h, big.NewInt(mx))
	}
	return l, h
}

// simp rewrites a Boolean term using the current byte domains; the result is
// equivalent to t on every assignment the domains allow.
func (w *W) simp(t *Term) *Term {
	if t.isConst() || t.v >= 0 {
		return t
	}
	ts := w.ts
	switch t.op {
	case OBNot:
		return ts.not(w.simp(t.a))
	case OBAnd:
		return ts.and(w.simp(t.a), w.simp(t.b))
	case OBOr:
		return ts.or(w.simp(t.a), w.simp(t.b))
	case OEq, OUlt, OUle, OSlt, OSle:
	default:
		return t
	}
	wd := t.a.w
	if wd <= 8 || t.a.op == OUF || t.b.op == OUF {
		return t
	}
	a, b := ts.sepOf(t.a), ts.sepOf(t.b)
	if a == nil || b == nil {
		return t
	}
	d := a.plus(b, ^uint64(0))
	m := wmask(wd)
	// drop the bytes the difference does not depend on
	k := d.k
	var free []int
	for i, v := range d.vs {
		dom := w.dom[v]
		f := dom.first()
		if f < 0 {
			return t
		}
		c := d.tabs[i][f] & m
		same := true
		for x := f; x < 256; x++ {
			if dom.has(x) && d.tabs[i][x]&m != c {
				same = false
				break
			}
		}
		if same {
			k += c
		} else {
			free = append(free, i)
		}
	}
	k &= m
	if t.op == OEq {
		if len(free) == 0 {
			return ts.boolT(k == 0)
		}
		if len(free) == 1 {
			i := free[0]
			var mk Mask
			for x := 0; x < 256; x++ {
				if w.dom[d.vs[i]].has(x) && (d.tabs[i][x]+k)&m == 0 {
					mk.set(x)
				}
			}
			return w.maskTerm(d.vs[i], mk)
		}
		lo, hi := d.span(w, wd)
		mod := new(big.Int).Lsh(big.NewInt(1), uint(wd))
		// no multiple of 2^w in [lo,hi]
		q := new(big.Int).Div(hi, mod) // floor
		q.Mul(q, mod)
		if q.Cmp(lo) < 0 {
			return ts.ff
		}
		return t
	}
	// comparisons: both sides must stay within the type over the integers
	al, ah := a.span(w, wd)
	bl, bh := b.span(w, wd)
	mn, mx := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(wd))
	if t.op == OSlt || t.op == OSle {
		mx.Rsh(mx, 1)
		mn.Neg(mx)
	}
	mx.Sub(mx, big.NewInt(1))
	in := func(lo, hi *big.Int) bool { return lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 }
	shift := func(lo, hi *big.Int, s *Sep) {
		// an unsigned constant reads as a negative number: move it up
		if lo.Sign() < 0 && (t.op == OUlt || t.op == OUle) {
			mod := new(big.Int).Lsh(big.NewInt(1), uint(wd))
			lo.Add(lo, mod)
			hi.Add(hi, mod)
		}
	}
	shift(al, ah, a)
	shift(bl, bh, b)
	if !in(al, ah) || !in(bl, bh) {
		return t
	}
	strict := t.op == OUlt || t.op == OSlt
	if c := ah.Cmp(bl); c < 0 || c == 0 && !strict {
		return ts.tt
	}
	if c := al.Cmp(bh); c > 0 || c == 0 && strict {
		return ts.ff
	}
	// the difference over the integers equals a-b up to a multiple of 2^w;
	// both lie in one window of that size, so only a small span decides
	dl, dh := d.span(w, wd)
	half := new(big.Int).Lsh(big.NewInt(1), uint(wd)-1)
	if !(dl.Cmp(new(big.Int).Neg(half)) > 0 && dh.Cmp(half) < 0) {
		return t
	}
	// a-b over the integers: |a-b| must be below 2^(w-1) too
	w1 := new(big.Int).Sub(ah, bl)
	w2 := new(big.Int).Sub(bh, al)
	if w1.Cmp(half) >= 0 || w2.Cmp(half) >= 0 {
		return t
	}
	zero := new(big.Int)
	if strict && dh.Cmp(zero) < 0 || !strict && dh.Cmp(zero) <= 0 {
		return ts.tt
	}
	if strict && dl.Cmp(zero) >= 0 || !strict && dl.Cmp(zero) > 0 {
		return ts.ff
	}
	if len(free) == 1 {
		i := free[0]
		var mk Mask
		for x := 0; x < 256; x++ {
			if !w.dom[d.vs[i]].has(x) {
				continue
			}
			y := sext((d.tabs[i][x]+k)&m, wd)
			if y < 0 || !strict && y == 0 {
				mk.set(x)
			}
		}
		return w.maskTerm(d.vs[i], mk)
	}
	return t
}

// maskTerm says that byte v lies in mk, within its domain.
func (w *W) maskTerm(v int32, mk Mask) *Term {
	if mk.empty() {
		return w.ts.ff
	}
	if w.dom[v].andnot(mk).empty() {
		return w.ts.tt
	}
	return w.ts.inMask(int(v), mk)
}
