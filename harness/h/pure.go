package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// more lists the operations without a path.
func more() []call {
	return []call{
		{name: "Flatten", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.Flatten(b); return }},
		{name: "Indent", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.Indent(b); return }},
		{name: "ParseArray", f: func(b []byte, a *args) (o out) { o.doc = b; o.ss = jin.ParseArray(string(b)); return }},
		{name: "Parse", f: func(b []byte, a *args) (o out) {
			o.doc = b
			p, err := jin.Parse(b)
			if o.err = err; err == nil {
				o.b = p.GetNew(a.path...)
				o.s = p.Tree()
				o.ss = append(o.ss, p.TreeFull())
			}
			return
		}},
		{name: "MakeArrayString", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.MakeArrayString(a.keys); return }},
		{name: "MakeArrayBytes", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.MakeArrayBytes(a.v, a.v); return }},
		{name: "MakeArrayInt", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.MakeArrayInt([]int{1, 2}); return }},
		{name: "MakeArrayBool", f: func(b []byte, a *args) (o out) {
			o.doc = b
			o.b = jin.MakeArrayBool([]bool{a.t, false})
			return
		}},
		{name: "MakeArrayFloat", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.MakeArrayFloat([]float64{a.f}); return }},
		{name: "MakeArray", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.MakeArray(a.s, 3, true); return }},
		{name: "MakeJson", f: func(b []byte, a *args) (o out) {
			o.doc = b
			o.b = jin.MakeJson(a.keys, []interface{}{a.s, 3}[:len(a.keys)%3])
			return
		}},
		{name: "MakeJsonString", f: func(b []byte, a *args) (o out) { o.doc = b; o.b = jin.MakeJsonString(a.keys, a.keys); return }},
		{name: "MakeJsonWithMap", f: func(b []byte, a *args) (o out) {
			o.doc = b
			o.b = jin.MakeJsonWithMap(map[string]string{"k": a.s})
			return
		}},
		{name: "MakeEmpty", f: func(b []byte, a *args) (o out) {
			o.doc = b
			o.b = append(jin.MakeEmptyJson(), jin.MakeEmptyArray()...)
			return
		}},
		{name: "Scheme", f: func(b []byte, a *args) (o out) {
			o.doc = b
			s := jin.MakeScheme(a.keys...)
			s.Add("zz")
			o.b = s.MakeJsonString(append(a.keys[:len(a.keys):len(a.keys)], "v")...)
			s.Save()
			s.Remove("zz")
			o.ss = s.GetCurrentKeys()
			s.Restore()
			o.s2 = s.GetOriginalKeys()
			o.t = s.Check(b) != s.CheckAbs(b)
			m, err := s.MutateJson(b)
			o.s, o.err = string(m), err
			return
		}},
		{name: "Scheme.Check", f: func(b []byte, a *args) (o out) {
			o.doc = b
			ks, err := jin.GetKeys(b)
			if o.err = err; err != nil {
				return
			}
			s := jin.MakeScheme(ks...)
			o.ts = []bool{s.Check(b), s.CheckAbs(b)}
			if len(ks) > 0 && s.Remove(ks[len(ks)-1]) && s.Add("zz") {
				o.ts = append(o.ts, s.CheckAbs(b), s.Check(b))
			}
			m, err := s.MutateJsonAbs(b)
			o.b, o.err = m, err
			return
		}},
	}
}

var codes = []int{
	jin.ErrCodeNullPath, jin.ErrCodeEmptyArray, jin.ErrCodeIndexExpected, jin.ErrCodeObjectExpected,
	jin.ErrCodeArrayExpected, jin.ErrCodeIndexOutOfRange, jin.ErrCodeKeyNotFound, jin.ErrCodeBadJSON,
	jin.ErrCodeKeyAlreadyExist, jin.ErrCodeIntegerParse, jin.ErrCodeFloatParse, jin.ErrCodeBoolParse,
	jin.ErrCodeNullKey, jin.ErrCodeEmpty,
}

func sameErr(a, b error) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil || a == b {
		return true
	}
	for _, c := range codes {
		if jin.ErrEqual(a, c) != jin.ErrEqual(b, c) {
			return false
		}
	}
	return true
}

// sameOut asserts that two calls returned the same; b may have been kept.
func sameOut(a, b *out, doc bool, label string) {
	if b.said != "" && a.err != nil {
		vf.Assert(a.err.Error() == b.said, label+" (error)")
	} else {
		vf.Assert(sameErr(a.err, b.err), label+" (error)")
	}
	if doc {
		vf.Eq(label+" (document)", a.doc, b.doc)
	}
	vf.Assert((a.b == nil) == (b.b == nil), label)
	vf.Eq(label, a.b, b.b)
	vf.Assert(a.s == b.s && a.n == b.n && a.t == b.t, label)
	vf.Assert(a.f == b.f, label)
	vf.Assert(len(a.ss) == len(b.ss) && len(a.s2) == len(b.s2) && len(a.ns) == len(b.ns), label)
	vf.Assert(len(a.fs) == len(b.fs) && len(a.ts) == len(b.ts) && len(a.m) == len(b.m), label)
	for i := range a.ss {
		vf.Assert(i < len(b.ss) && a.ss[i] == b.ss[i], label)
	}
	for i := range a.s2 {
		vf.Assert(i < len(b.s2) && a.s2[i] == b.s2[i], label)
	}
	for i := range a.ns {
		vf.Assert(i < len(b.ns) && a.ns[i] == b.ns[i], label)
	}
	for i := range a.fs {
		vf.Assert(i < len(b.fs) && a.fs[i] == b.fs[i], label)
	}
	for i := range a.ts {
		vf.Assert(i < len(b.ts) && a.ts[i] == b.ts[i], label)
	}
	for k, v := range a.m {
		w, ok := b.m[k]
		vf.Assert(ok && v == w, label)
	}
}

// keep copies a result into memory of its own.
func (o out) keep() *out {
	if o.b != nil {
		o.b = append([]byte{}, o.b...)
	}
	o.doc = cp(o.doc)
	if o.err != nil {
		o.said = string(cp([]byte(o.err.Error())))
	}
	o.s = string(cp([]byte(o.s)))
	ss := make([]string, len(o.ss))
	for i := range o.ss {
		ss[i] = string(cp([]byte(o.ss[i])))
	}
	s2 := make([]string, len(o.s2))
	for i := range o.s2 {
		s2[i] = string(cp([]byte(o.s2[i])))
	}
	o.ss, o.s2 = ss, s2
	o.ns = append([]int(nil), o.ns...)
	o.fs = append([]float64(nil), o.fs...)
	o.ts = append([]bool(nil), o.ts...)
	m := map[string]string{}
	for k, v := range o.m {
		m[string(cp([]byte(k)))] = string(cp([]byte(v)))
	}
	o.m = m
	return &o
}

// forPath lists the argument sets to use with one path.
func (d *D) forPath(path []string, n *N, x, y byte) []*args {
	a := args{v: []byte{'"', x, '"'}, s: string([]byte{'s', x}), n: 42, f: 1.5, t: true, i: 0, key: "newk", path: path, stop: plan{-1, 0}}
	a.keys = []string{"none", "newk"}
	b := a
	b.v, b.s, b.n, b.f, b.t, b.i, b.stop = []byte{'[', y, ']'}, "0x1", -7, -0.25, false, -1, plan{0, 1}
	b.key = "0"
	out := []*args{&a, &b}
	if n != nil {
		c := b
		c.i = len(n.Kids)
		c.f = 1e22
		c.stop = plan{0, 2}
		c.v, c.s = []byte{'{', '"', x, '"', ':', y, '}'}, ""
		if len(n.Keys) > 0 {
			c.key = string(n.Keys[len(n.Keys)-1])
			c.keys = []string{c.key}
			a.keys = []string{string(n.Keys[0])}
		} else {
			c.key = ""
			c.keys = nil
			if len(n.Kids) > 0 {
				c.key = strconv.Itoa(len(n.Kids))
			}
		}
		out = append(out, &c)
		if n.K == 'a' && len(n.Kids) > 1 {
			e := a
			e.i = 1
			e.key = "1"
			e.f = 1.5e-7
			out = append(out, &e)
		}
	}
	return out
}

// sites lists arguments for every node of a document and some missing paths.
func (d *D) sites(full bool) []*args {
	x, y := sc(), dig()
	var out []*args
	for _, a := range d.nodes() {
		out = append(out, d.forPath(a.path, a.n, x, y)...)
	}
	for _, m := range d.misses(full) {
		out = append(out, d.forPath(m.path, nil, x, y)...)
	}
	return out
}

// edits lists the operations that edit.
func edits() []call {
	var out []call
	for _, c := range catalogue() {
		if c.edit {
			out = append(out, c)
		}
	}
	return out
}

func checkRefused(d *D, full bool) {
	cs := edits()
	sites := d.sites(full)
	checkRefusedAt(d, cs[vf.Choose(len(cs))], sites)
}

func checkRefusedAt(d *D, c call, sites []*args) {
	paths := d.nodes()
	for _, a := range sites {
		o := c.f(d.B, a)
		if o.err != nil {
			vf.Eq(c.name+": a refused edit hands the document back", o.doc, d.B)
		}
		if c.j != nil {
			j := jin.New(cp(d.B))
			o := c.j(j, a)
			if o.err != nil {
				vf.Eq(c.name+": a refused edit leaves the JSON object", j.JSON(), d.B)
			}
		}
		if c.p != nil {
			p, err := jin.Parse(cp(d.B))
			vf.Assert(err == nil, "a well-formed document does not parse")
			if err != nil {
				return
			}
			o := c.p(p, a)
			if o.err != nil {
				vf.Eq(c.name+": a refused edit leaves the parsed document", p.JSON(), d.B)
				for _, x := range paths {
					if len(x.path) == 0 {
						continue
					}
					v, err := p.Get(x.path...)
					vf.Assert(err == nil, c.name+": a refused edit loses a value of the parsed document")
					vf.Eq(c.name+": a refused edit changes a value of the parsed document", v, d.val(x.n))
				}
				vf.Eq(c.name+": a refused edit changes the tree", squeeze(p.GetNew()), squeeze(d.B))
			}
		}
	}
}

func H_C10_full()   { checkRefused(doc(stylesFew, 1, 2, 2), true) }
func H_C10_shapes() { checkRefused(doc(stylesFew[:3], 2, 1, 1), false) }

// guard copies b into a buffer that goes on behind its end.
func guard(b []byte) (whole, view []byte) {
	whole = make([]byte, len(b)+6)
	copy(whole, b)
	for i := len(b); i < len(whole); i++ {
		whole[i] = '#'
	}
	return whole, whole[:len(b)]
}

func guardS(s []string) (whole, view []string) {
	whole = make([]string, len(s)+3)
	copy(whole, s)
	for i := len(s); i < len(whole); i++ {
		whole[i] = "#"
	}
	return whole, whole[:len(s)]
}

func eqS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// guarded runs one call with all its arguments guarded.
func guarded(c call, d *D, a *args, run func(b []byte, a *args) out) {
	bw, b := guard(d.B)
	vw, v := guard(a.v)
	pw, p := guardS(a.path)
	kw, k := guardS(a.keys)
	b0, v0, p0, k0 := cp(bw), cp(vw), append([]string{}, pw...), append([]string{}, kw...)
	g := *a
	g.v, g.path, g.keys = v, p, k
	o := run(b, &g)
	intact := func(when string) {
		vf.Eq(c.name+when+" the document", bw, b0)
		vf.Eq(c.name+when+" the value", vw, v0)
		vf.Assert(eqS(pw, p0), c.name+when+" the path")
		vf.Assert(eqS(kw, k0), c.name+when+" the names")
	}
	intact(" changes")
	if o.err == nil && c.edit {
		r := o.doc[:cap(o.doc)]
		for i := range r {
			r[i] = '~'
		}
		intact(" returns memory shared with")
	}
}

func checkGuarded(d *D, full bool) {
	cs := append(catalogue(), more()...)
	sites := d.sites(full)
	checkGuardedAt(d, cs[vf.Choose(len(cs))], sites)
}

func checkGuardedAt(d *D, c call, sites []*args) {
	sites = trim(c, d, sites)
	for _, a := range sites {
		guarded(c, d, a, c.f)
		if c.j != nil {
			guarded(c, d, a, func(b []byte, a *args) out { return c.j(jin.New(b), a) })
		}
		if c.p != nil {
			guarded(c, d, a, func(b []byte, a *args) out {
				p, err := jin.Parse(b)
				if err != nil {
					return out{err: err}
				}
				return c.p(p, a)
			})
		}
	}
}

func H_C11_full()   { checkGuarded(doc(stylesFew[:9], 1, 2, 2), false) }
func H_C11_shapes() { checkGuarded(doc(stylesFew[:3], 2, 1, 1), true) }

// H_C11_deep: long paths, as append would have room for.
func H_C11_deep() {
	c := ctx{}
	n := &N{K: 'o', Keys: [][]byte{{'x'}}, Kids: []*N{c.leaf(1)}}
	if vf.Choose(2) == 1 {
		n = &N{K: 'a', Kids: []*N{c.leaf(1)}}
	}
	for i := vf.Choose(3); i >= 0; i-- {
		if vf.Choose(2) == 1 {
			n = &N{K: 'a', Kids: []*N{n}}
		} else {
			n = &N{K: 'o', Keys: [][]byte{c.name(i)}, Kids: []*N{n}}
		}
	}
	checkGuarded(render(n, c), false)
}

// rich is a document with something of everything.
func rich(c ctx, arr bool) *D {
	num := func() *N { return &N{K: 'v', T: []byte{dig()}} }
	str := func() *N { return &N{K: 's', T: []byte{sc()}} }
	k := func(s string) []byte { return []byte(s) }
	in := &N{K: 'o', Keys: [][]byte{k("p"), k("q")}, Kids: []*N{num(), {K: 'v', T: k("true")}}}
	kids := []*N{{K: 'a', Kids: []*N{num(), num()}}, str(), in, {K: 'a', Kids: []*N{str()}}}
	if arr {
		return render(&N{K: 'a', Kids: kids}, c)
	}
	return render(&N{K: 'o', Keys: [][]byte{k("a"), k("b"), k("c"), k("p")}, Kids: kids}, c)
}

// history runs a call in all its forms over all sites.
func history(c call, d *D, sites []*args) []out {
	var os []out
	for _, a := range sites {
		os = append(os, c.f(d.B, a))
		if c.j != nil {
			os = append(os, c.j(jin.New(d.B), a))
		}
		if c.p != nil {
			if p, err := jin.Parse(d.B); err == nil {
				os = append(os, c.p(p, a))
			}
		}
	}
	return os
}

// fewSites is one set of arguments per node, and a missing path.
func (d *D) fewSites() []*args {
	x, y := sc(), dig()
	var out []*args
	for _, a := range d.nodes() {
		out = append(out, d.forPath(a.path, a.n, x, y)[0])
	}
	return append(out, d.forPath([]string{"none"}, nil, x, y)[1])
}

// pairs picks two calls and documents for them, of the same paths but with
// everything in other places, or of other paths.
func pairs() (c1, c2 call, d1, d2 *D) {
	cs := append(catalogue(), more()...)
	c1, c2 = cs[vf.Choose(len(cs))], cs[vf.Choose(len(cs))]
	d1 = rich(ctx{}, false)
	d2 = rich(ctx{ws: 1}, vf.Thorough() && vf.Choose(2) == 1)
	return
}

// H_C12_history: a call after another one.
func H_C12_history() {
	c1, c2, d1, d2 := pairs()
	s1, s2 := d1.sites(false), d2.fewSites()
	before := history(c2, d2, s2)
	kept := make([]*out, len(before))
	for i := range before {
		kept[i] = before[i].keep()
	}
	history(c1, d1, s1)
	for i := range before {
		sameOut(&before[i], kept[i], true, c1.name+" changes what "+c2.name+" has returned")
	}
	after := history(c2, d2, s2)
	vf.Assert(len(after) == len(before), "another number of results")
	for i := range after {
		sameOut(&after[i], kept[i], true, c2.name+" returns something else after "+c1.name)
	}
}

// short is one of a few short documents of the same length.
func short(k int) *D {
	return fill([]string{
		`{"a":["~",#],"p":{"q":#,"c":#}}`,
		`{"p":["~",#],"a":{"c":#,"q":#}}`,
		`[["~",#,{"a":#}],{"q":#,"c":#}]`,
	}[k])
}

// H_C12_short: calls on short documents, whose results are kept, and on a
// buffer that its owner fills with another document in between.
func H_C12_short() {
	cs := append(catalogue(), more()...)
	i, k := pick2(len(cs), 0, 7, 19, len(cs)/2, len(cs)-3)
	c1, c2 := cs[i], cs[k]
	n := 1 + vf.Choose(2)
	d1, d2 := short(0), short(n)
	sites := append(d1.fewSites(), d2.fewSites()...)
	same := func(got, want []out, what string) {
		vf.Assert(len(got) == len(want), "another number of results")
		for i := range got {
			sameOut(&got[i], &want[i], true, what)
		}
	}
	keep := func(list []out) (k []out) {
		for i := range list {
			k = append(k, *list[i].keep())
		}
		return
	}
	w1 := history(c1, d1, sites)
	k1 := keep(w1)
	w2 := history(c2, d2, sites)
	k2 := keep(w2)
	same(w1, k1, c2.name+" changes what "+c1.name+" has returned")
	buf := cp(d1.B)
	r := history(c1, &D{B: buf, R: d1.R}, sites)
	same(r, k1, c1.name+" returns something else for another copy")
	copy(buf, d2.B)
	for i := range r {
		k := *k1[i].keep()
		r[i].b, k.b = nil, nil
		sameOut(&r[i], &k, false, "a string "+c1.name+" returned changes with the document")
	}
	r = history(c2, &D{B: buf, R: d2.R}, sites)
	same(r, k2, c2.name+" returns something else where "+c1.name+" had another document before")
	same(w1, k1, "later calls change what "+c1.name+" has returned")
	same(w2, k2, "later calls change what "+c2.name+" has returned")
}

// H_C12_concurrent: a call during another one.
func H_C12_concurrent() {
	c1, c2, d1, d2 := pairs()
	s1, s2 := d1.fewSites(), d2.fewSites()
	w1, w2 := history(c1, d1, s1), history(c2, d2, s2)
	k1, k2 := make([]*out, len(w1)), make([]*out, len(w2))
	for i := range w1 {
		k1[i] = w1[i].keep()
	}
	for i := range w2 {
		k2[i] = w2[i].keep()
	}
	var r1, r2 []out
	vf.Par(func() { r1 = history(c1, d1, s1) }, func() { r2 = history(c2, d2, s2) })
	for i := range r1 {
		sameOut(&r1[i], k1[i], true, c1.name+" returns something else during "+c2.name)
	}
	for i := range r2 {
		sameOut(&r2[i], k2[i], true, c2.name+" returns something else during "+c1.name)
	}
}

// ends is the first, one in the middle and the last of a list.
func ends(s []*args) []*args { return []*args{s[0], s[len(s)/2], s[len(s)-1]} }

func checkMirror(d *D, full bool) {
	cs := catalogue()
	sites := d.sites(full)
	checkMirrorAt(d, cs[vf.Choose(len(cs))], sites)
}

func checkMirrorAt(d *D, c call, sites []*args) {
	sites = trim(c, d, sites)
	if c.j == nil {
		return
	}
	for _, a := range sites {
		b := cp(d.B)
		o := c.f(cp(d.B), a)
		j := jin.New(b)
		r := c.j(j, a)
		sameOut(&r, &o, true, "the method "+c.name+" differs from the function")
		vf.Assert(j.String() == string(o.doc), "String is the content")
		// and once more, on the content the method left
		o = c.f(o.doc, a)
		r = c.j(j, a)
		sameOut(&r, &o, true, "a second call of the method "+c.name+" differs from the function")
	}
}

func H_C27_full()   { checkMirror(doc(stylesFew, 1, 2, 2), true) }
func H_C27_shapes() { checkMirror(doc(stylesFew[:3], 2, 1, 1), false) }

// H_C27_new: new objects.
func H_C27_new() {
	j := jin.NewJSON()
	vf.Assert(j.String() == "{}" && string(j.JSON()) == "{}", "a new JSON object is not the empty object")
	k := jin.NewJSON()
	vf.Assert(j.AddKeyValueInt("a", 1) == nil, "a member cannot be added to a new JSON object")
	vf.Assert(j.String() == `{"a":1}`, "a member is added wrongly")
	b := j.JSON()
	for i := range b {
		b[i] = '~'
	}
	vf.Assert(k.String() == "{}", "new JSON objects share memory")
	vf.Assert(jin.NewJSON().String() == "{}", "a new JSON object is not the empty object any more")
	c := jin.MakeEmptyJson()
	c[0] = '~'
	e := jin.MakeEmptyArray()
	e[0] = '~'
	vf.Assert(string(jin.MakeEmptyJson()) == "{}" && string(jin.MakeEmptyArray()) == "[]", "empty documents share memory")
	x := strconv.Itoa(vf.Choose(3))
	vf.Assert(jin.New([]byte("["+x+"]")).String() == "["+x+"]", "a JSON object does not hold its document")
}
