package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// runes counts the characters of a name, a stray byte being one.
func runes(b []byte) int {
	n := 0
	for i := 0; i < len(b); n++ {
		k := 1
		c := b[i]
		switch {
		case c >= 0xf0 && c < 0xf5:
			k = 4
		case c >= 0xe0 && c < 0xf0:
			k = 3
		case c >= 0xc2 && c < 0xe0:
			k = 2
		}
		whole := i+k <= len(b)
		for j := 1; whole && j < k; j++ {
			whole = b[i+j]&0xc0 == 0x80
		}
		if !whole {
			k = 1
		}
		i += k
	}
	return n
}

// label is the start of a node's line.
func (a at) label() []byte {
	var out []byte
	depth := len(a.path) - 1
	if depth == 0 {
		out = append(out, "\u2500 "...)
	} else {
		for i := 0; i < depth; i++ {
			out = append(out, '\t')
		}
		out = append(out, "\u2514  "...)
	}
	return append(out, a.path[depth]...)
}

// listing is the tree of a document, one line for each node.
func (d *D) listing() []byte {
	var out []byte
	for _, a := range d.every() {
		out = append(append(out, a.label()...), '\n')
	}
	return out
}

// showsAll asserts that a listing shows the names and values of a document.
// There may be whitespace around values.
func (d *D) showsAll(list []byte) {
	i := 0
	take := func(what []byte, label string) bool {
		ok := i+len(what) <= len(list)
		vf.Assert(ok, label)
		if ok {
			vf.Eq(label, list[i:i+len(what)], what)
			i += len(what)
		}
		return ok
	}
	blank := func() int {
		j := i
		for i < len(list) && (list[i] == ' ' || list[i] == '\t' || list[i] == '\n' || list[i] == '\r') {
			i++
		}
		return j
	}
	for _, a := range d.every() {
		l := a.label()
		for k := runes([]byte(a.path[len(a.path)-1])); k < 6; k++ {
			l = append(l, ' ')
		}
		if !take(append(l, " : "...), "the full listing shows every name, in order, at its depth") {
			return
		}
		blank()
		if !take(d.src(a.n), "the full listing shows every value") {
			return
		}
		for j := blank(); i > j && list[i-1] == '\t'; {
			i--
		}
		vf.Assert(i > 0 && list[i-1] == '\n', "every node has a line of its own")
	}
	vf.Assert(i == len(list), "the full listing shows nothing else")
}

func checkTree(d *D) {
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	vf.Eq("the listing shows every name once, in order, at its depth", []byte(p.Tree()), d.listing())
	d.showsAll([]byte(p.TreeFull()))
	vf.Eq("listing leaves the document alone", p.JSON(), d.B)
}

func H_C30_full()   { checkTree(doc(stylesAll, 1, 3, 4)) }
func H_C30_shapes() { checkTree(doc(stylesAll, 2, 2, 2)) }
func H_C30_big()    { checkTree(big()) }

// H_C30_edited: the listing after an edit is that of the edited text.
func H_C30_edited() {
	c := style([]int{0, 0, 0, 1, 3, 1})
	d := render(c.root(2, 2, 1), c)
	e := someEdit(d, seqVals()[1:3], 0)
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	if e.tree(p) != nil {
		vf.Eq("a refused edit leaves the listing", []byte(p.Tree()), d.listing())
		d.showsAll([]byte(p.TreeFull()))
		return
	}
	r := scan(p.JSON())
	vf.Assert(r != nil, "the document is not well-formed any more")
	if r == nil {
		return
	}
	vf.Eq("the listing shows the edited document", []byte(p.Tree()), r.listing())
	r.showsAll([]byte(p.TreeFull()))
}
