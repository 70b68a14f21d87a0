package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// survive makes one call, in one of its forms; that it returns is all there
// is to it.
func survive(c call, form int, b []byte, a *args) {
	switch form {
	case 0:
		c.f(b, a)
	case 1:
		if c.j != nil {
			c.j(jin.New(b), a)
		}
	case 2:
		if c.p != nil {
			if p, err := jin.Parse(b); err == nil {
				c.p(p, a)
				p.GetNew(a.path...)
				p.Tree()
				p.TreeFull()
			}
		}
	}
}

// anyArgs are arguments to try on documents of any content.
func anyArgs() []*args {
	P := func(s ...string) []string { return s }
	paths := [][]string{nil, P("a"), P("0"), P("0", "0"), P("a", "a"), P("a", "0"), P(""), P("-1"), P("1")}
	var out []*args
	for i, p := range paths {
		a := &args{v: []byte("1"), s: "x", n: 1, f: 1, t: true, i: i%3 - 1, key: []string{"a", "b", ""}[i%3], keys: P("a"), path: p, stop: plan{-1, 0}}
		if i%2 == 1 {
			a.v, a.s, a.keys = nil, "", nil
			a.stop = plan{0, 1}
		}
		out = append(out, a)
	}
	e := *out[0]
	e.i = 0
	e.v = []byte("{")
	return append(out, &e)
}

// allOf makes a call in all its forms with all arguments.
func allOf(c call, b []byte, as []*args) {
	for _, a := range as {
		for form := 0; form < 3; form++ {
			survive(c, form, b, a)
		}
	}
}

func anyCall() call {
	cs := append(catalogue(), more()...)
	return cs[vf.Choose(len(cs))]
}

// H_C25_any: every short byte string.
func H_C25_any() {
	n := vf.Choose(4)
	c := anyCall()
	as := anyArgs()
	a := as[vf.Choose(len(as))]
	form := 0
	if c.p != nil && n > 1 && vf.Choose(2) == 1 {
		form = 2
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteNotIn("")
	}
	survive(c, form, b, a)
}

// H_C25_struct: longer strings of characters that mean something.
func H_C25_struct() {
	n := 4
	if vf.Thorough() {
		n = 5
	}
	c := anyCall()
	as := anyArgs()
	a := as[vf.Choose(len(as))]
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("{}[]\",:\\ a0")
	}
	if b[0] != '{' && b[0] != '[' && b[0] != ' ' {
		return
	}
	survive(c, 0, b, a)
}

// broken is a well-formed document and arguments for all its nodes.
func broken(d *D) []*args {
	var as []*args
	for i, a := range d.nodes() {
		k := i % 2
		fs := d.forPath(a.path, a.n, 'x', '1')
		as = append(as, fs[k], fs[2])
	}
	return append(as, &args{v: []byte("1"), key: "k", path: []string{"none"}, stop: plan{-1, 0}}, &args{v: []byte("1"), key: "k", path: []string{"9"}, stop: plan{-1, 0}})
}

// H_C25_truncated: documents cut off anywhere, at either end.
func H_C25_truncated() {
	st := []int{2, 4, 1, 4, 3, 0}
	if vf.Thorough() {
		st = stylesFew
	}
	d := doc(st, 1, 2, 2)
	if !vf.Thorough() || vf.Choose(2) == 1 {
		k := vf.Choose(len(d.B) + 1)
		d.B = d.B[:k:k]
	} else {
		k := vf.Choose(len(d.B) + 1)
		d.B = d.B[k:]
	}
	allOf(anyCall(), d.B, broken(d))
}

// H_C25_deep: nested documents cut off anywhere.
func H_C25_deep() {
	d := rich(ctx{ws: vf.Choose(2)}, vf.Choose(2) == 1)
	k := vf.Choose(len(d.B) + 1)
	d.B = d.B[:k:k]
	allOf(anyCall(), d.B, broken(d))
}

// H_C25_changed: documents with any one byte in place of another, put in
// between or left out.
func H_C25_changed() {
	c := style([]int{0, 8, 0, 0, 8, 1})
	d := render(c.root(1, 2, 2), c)
	how := vf.Choose(3)
	k := vf.Choose(len(d.B))
	call := anyCall()
	if how == 2 {
		d.B = d.with(k, k+1, nil)
	} else {
		x := vf.ByteNotIn("")
		d.B = d.with(k, k+how, []byte{x})
	}
	allOf(call, d.B, broken(d))
}

// H_C25_swapped: documents with two of their characters exchanged for others
// that mean something.
func H_C25_swapped() {
	kids := []*N{{K: 'a', Kids: []*N{{K: 'v', T: []byte("1")}}}, {K: 's', T: []byte("x")}}
	r := &N{K: 'a', Kids: kids}
	if vf.Choose(2) == 1 {
		r = &N{K: 'o', Keys: [][]byte{{'a'}, {'b'}}, Kids: kids}
	}
	d := render(r, ctx{})
	i := vf.Choose(len(d.B))
	j := vf.Choose(len(d.B))
	if j <= i {
		return
	}
	call := anyCall()
	b := cp(d.B)
	set := "{]\",:"
	if vf.Thorough() {
		set = "{}[]\",:\\ "
	}
	b[i] = vf.ByteIn(set)
	b[j] = vf.ByteIn(set)
	allOf(call, b, broken(d))
}

// H_C25_odd: odd paths, positions and names on well-formed documents.
func H_C25_odd() {
	d := rich(ctx{}, vf.Choose(2) == 1)
	c := anyCall()
	odd := []string{"", "-1", "-0", "+1", "01", "00", " 0", "0 ", "1e0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "\"", "\\", "\\\"", "[", "{", "\x00", "\xff"}
	o := odd[vf.Choose(len(odd))]
	for _, n := range d.nodes() {
		for _, p := range [][]string{ext(n.path, o), ext(n.path, o, o), ext(n.path, o, "0")} {
			a := &args{v: []byte("1"), s: o, key: o, keys: []string{o, o}, path: p, i: 1 << 62, stop: plan{-1, 0}}
			for form := 0; form < 3; form++ {
				survive(c, form, d.B, a)
			}
			a.path = n.path
			a.i = -1 << 62
			for form := 0; form < 3; form++ {
				survive(c, form, d.B, a)
			}
		}
	}
}

// H_C25_pathbyte: paths of any one or two bytes.
func H_C25_pathbyte() {
	d := rich(ctx{}, vf.Choose(2) == 1)
	c := anyCall()
	n := vf.Choose(2) + 1
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteNotIn("")
	}
	s := string(b)
	for _, p := range [][]string{{s}, {"a", s}, {"0", s}} {
		a := &args{v: []byte("1"), s: s, key: s, keys: []string{s}, path: p, stop: plan{-1, 0}}
		survive(c, vf.Choose(3), d.B, a)
	}
	_ = strconv.Itoa
}
