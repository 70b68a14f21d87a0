package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// common is what several readers look at.
type common struct {
	b []byte
	j *jin.JO
	p *jin.Parser
	s *jin.Scheme
}

func newCommon(d *D) *common { return newCommonFor(d, true, true) }

func newCommonFor(d *D, parser, scheme bool) *common {
	c := &common{b: cp(d.B), j: jin.New(cp(d.B))}
	if scheme {
		c.s = jin.MakeScheme("a", "p", "c")
		c.s.Add("b")
	}
	if !parser {
		return c
	}
	p, err := jin.Parse(cp(d.B))
	vf.Assert(err == nil, "a well-formed document does not parse")
	c.p = p
	return c
}

// reader is a call that only reads.
type reader2 struct {
	name string
	f    func(c *common, a *args) out
}

func allReaders() []reader2 {
	var rs []reader2
	for _, c := range catalogue() {
		if c.edit {
			continue
		}
		c := c
		rs = append(rs, reader2{c.name, func(x *common, a *args) out { return c.f(x.b, a) }})
		if c.j != nil {
			rs = append(rs, reader2{"method " + c.name, func(x *common, a *args) out { return c.j(x.j, a) }})
		}
		if c.p != nil {
			rs = append(rs, reader2{"parser's " + c.name, func(x *common, a *args) out { return c.p(x.p, a) }})
		}
	}
	return append(rs,
		reader2{"Flatten", func(x *common, a *args) (o out) { o.b = jin.Flatten(x.b); return }},
		reader2{"Indent", func(x *common, a *args) (o out) { o.b = jin.Indent(x.b); return }},
		reader2{"Parse", func(x *common, a *args) (o out) {
			p, err := jin.Parse(x.b)
			if o.err = err; err == nil {
				o.b = p.JSON()
			}
			return
		}},
		reader2{"edits of the text", func(x *common, a *args) (o out) {
			r, err := jin.AddKeyValue(x.b, "newest", a.v, a.path...)
			o.b, o.err = cp(r), err
			r, _ = jin.Set(x.b, a.v, a.path...)
			o.b = append(o.b, r...)
			r, _ = jin.Delete(x.b, a.path...)
			o.b = append(o.b, r...)
			return
		}},
		reader2{"method JSON", func(x *common, a *args) (o out) { o.b = x.j.JSON(); return }},
		reader2{"method String", func(x *common, a *args) (o out) { o.s = x.j.String(); return }},
		reader2{"parser's JSON", func(x *common, a *args) (o out) { o.b = x.p.JSON(); return }},
		reader2{"parser's GetNew", func(x *common, a *args) (o out) { o.b = x.p.GetNew(a.path...); return }},
		reader2{"parser's Tree", func(x *common, a *args) (o out) { o.s = x.p.Tree(); return }},
		reader2{"parser's TreeFull", func(x *common, a *args) (o out) { o.s = x.p.TreeFull(); return }},
		reader2{"scheme's MakeJson", func(x *common, a *args) (o out) { o.b = x.s.MakeJson(a.s, 1, true, a.n); return }},
		reader2{"scheme's MakeJsonString", func(x *common, a *args) (o out) { o.b = x.s.MakeJsonString(a.s, "x", "", "y"); return }},
		reader2{"scheme's keys", func(x *common, a *args) (o out) {
			o.ss = x.s.GetCurrentKeys()
			o.s2 = x.s.GetOriginalKeys()
			return
		}},
		reader2{"scheme's checks", func(x *common, a *args) (o out) {
			o.t = x.s.Check(x.b)
			if x.s.CheckAbs(x.b) {
				o.n = 1
			}
			return
		}},
		reader2{"scheme's mutations", func(x *common, a *args) (o out) {
			r, err := x.s.MutateJson(x.b)
			o.b, o.err = r, err
			r, err = x.s.MutateJsonAbs(x.b)
			o.b = append(cp(o.b), r...)
			return
		}},
	)
}

// H_C32_first: the first two calls of a program, at the same time.
func H_C32_first() {
	rs := allReaders()
	i := vf.Choose(len(rs))
	k := i
	if vf.Choose(2) == 1 {
		k = (i + 1 + len(rs)/3) % len(rs)
	}
	r1, r2 := rs[i], rs[k]
	needs := func(what string) bool { return begins(r1.name, what) || begins(r2.name, what) }
	d := rich(ctx{ws: 1}, false)
	s := ends(d.fewSites())
	c := newCommonFor(d, needs("parser"), needs("scheme"))
	run := func(r reader2) (os []out) {
		for _, a := range s {
			os = append(os, r.f(c, a))
		}
		return
	}
	var g1, g2 []out
	vf.Par(func() { g1 = run(r1) }, func() { g2 = run(r2) })
	w1, w2 := run(r1), run(r2)
	vf.Assert(len(g1) == len(w1) && len(g2) == len(w2), "a reader returns nothing")
	for i := range g1 {
		sameOut(&g1[i], &w1[i], true, r1.name+" returns something else as the first call of a program, beside "+r2.name)
	}
	for i := range g2 {
		sameOut(&g2[i], &w2[i], true, r2.name+" returns something else as the first call of a program, beside "+r1.name)
	}
}

// H_C32_pairs: two readers of the same thing at once.
func H_C32_pairs() {
	rs := allReaders()
	i := vf.Choose(len(rs))
	k := vf.Choose(len(rs) - i)
	r1, r2 := rs[i], rs[i+k]
	d := rich(ctx{ws: 1}, vf.Thorough() && vf.Choose(2) == 1)
	readBoth(d, r1, r2, d.fewSites(), d.fewSites())
}

func readBoth(d *D, r1, r2 reader2, s1, s2 []*args) {
	alone, both := newCommon(d), newCommon(d)
	run := func(r reader2, c *common, s []*args) []out {
		var os []out
		for _, a := range s {
			os = append(os, r.f(c, a))
		}
		return os
	}
	w1, w2 := run(r1, alone, s1), run(r2, newCommon(d), s2)
	k1, k2 := make([]*out, len(w1)), make([]*out, len(w2))
	for i := range w1 {
		k1[i] = w1[i].keep()
	}
	for i := range w2 {
		k2[i] = w2[i].keep()
	}
	var g1, g2 []out
	vf.Par(func() { g1 = run(r1, both, s1) }, func() { g2 = run(r2, both, s2) })
	vf.Assert(len(g1) == len(k1) && len(g2) == len(k2), "a reader returns nothing")
	for i := range g1 {
		sameOut(&g1[i], k1[i], true, r1.name+" returns something else during "+r2.name)
	}
	for i := range g2 {
		sameOut(&g2[i], k2[i], true, r2.name+" returns something else during "+r1.name)
	}
	vf.Eq("reading changes the document", both.b, d.B)
	vf.Eq("reading changes the JSON object", both.j.JSON(), d.B)
	vf.Eq("reading changes the parsed document", both.p.JSON(), d.B)
}
