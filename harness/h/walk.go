package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

func checkWalk(d *D, full, jo bool) {
	var leaves []at
	for _, a := range append([]at{{nil, d.R, nil, 0}}, d.every()...) {
		if a.n.K != 'o' && a.n.K != 'a' {
			leaves = append(leaves, a)
		}
	}
	for i, p := range plans(len(leaves), full) {
		if d.vast && i == 3 {
			break
		}
		calls := 0
		var kept [][]string
		var vals [][]byte
		f := func(k string, v []byte, path []string) (bool, error) {
			if calls < len(leaves) {
				a := leaves[calls]
				vf.Assert(len(path) == len(a.path), "Walk hands over a path of another depth")
				for i := range a.path {
					vf.Assert(path[i] == a.path[i], "Walk hands over another path")
				}
				if len(a.path) > 0 {
					vf.Assert(k == a.path[len(a.path)-1], "Walk hands over another name")
				}
				vf.Eq("Walk hands over another value", v, d.val(a.n))
				kept = append(kept, path)
				vals = append(vals, v)
			}
			calls++
			return p.answer(calls - 1)
		}
		var err error
		if jo {
			err = jin.New(cp(d.B)).Walk(f)
		} else {
			err = jin.Walk(d.B, f)
		}
		p.verdict(len(leaves), calls, err, "Walk")
		for i, path := range kept {
			for j, s := range leaves[i].path {
				vf.Assert(path[j] == s, "a path handed out earlier has changed")
			}
			vf.Eq("a value handed out earlier has changed", vals[i], d.val(leaves[i].n))
		}
	}
}

func H_C26_full()   { checkWalk(doc(stylesAll, 1, 3, 4), true, true) }
func H_C26_shapes() { checkWalk(doc(stylesAll, 2, 2, 2), false, false) }
func H_C26_deep()   { checkWalk(doc([]int{1, 2, 0, 4, 3, 1}, 3, 1, 2), true, false) }

// H_C26_wide: many siblings at several depths.
func H_C26_wide() {
	c := style(stylesFew)
	mk := func(n, depth int) *N {
		r := &N{K: 'o'}
		if vf.Choose(2) == 1 {
			r.K = 'a'
		}
		for i := 0; i < n; i++ {
			if r.K == 'o' {
				r.Keys = append(r.Keys, c.name(i))
			}
			r.Kids = append(r.Kids, c.leaf(1))
		}
		return r
	}
	a := mk(12, 0)
	b := mk(3, 0)
	if b.K == 'o' {
		b.Keys = append(b.Keys, c.name(3))
	}
	b.Kids = append(b.Kids, a)
	e := mk(2, 0)
	if e.K == 'o' {
		e.Keys = append(e.Keys, c.name(2))
	}
	e.Kids = append(e.Kids, b)
	checkWalk(render(e, c), false, false)
}
