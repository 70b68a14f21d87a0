package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// scan builds the tree of a well-formed document.
func scan(b []byte) *D {
	d := &D{B: b, read: true}
	i := 0
	sp := func() {
		for i < len(b) && (b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || b[i] == '\r') {
			i++
		}
	}
	is := func(c byte) bool { return i < len(b) && b[i] == c }
	str := func() {
		i++
		for i < len(b) && b[i] != '"' {
			if b[i] == '\\' {
				i++
			}
			i++
		}
		i++
	}
	ok := true
	var val func() *N
	val = func() *N {
		sp()
		n := &N{S: i, K: 'v'}
		switch {
		case is('{'), is('['):
			n.K = 'a'
			cl := byte(']')
			if is('{') {
				n.K, cl = 'o', '}'
			}
			i++
			sp()
			for ok && !is(cl) {
				if n.K == 'o' {
					sp()
					ok = ok && is('"')
					k := i + 1
					str()
					n.KS = append(n.KS, k)
					ok = ok && i <= len(b)
					if !ok {
						return n
					}
					n.Keys = append(n.Keys, b[k:i-1])
					sp()
					ok = ok && is(':')
					i++
				}
				n.Kids = append(n.Kids, val())
				sp()
				if !is(',') {
					break
				}
				i++
				sp()
				ok = ok && !is(cl)
			}
			ok = ok && is(cl)
			i++
		case is('"'):
			n.K = 's'
			str()
			if i <= len(b) {
				n.T = b[n.S+1 : i-1]
			}
		default:
			for i < len(b) && b[i] != ',' && b[i] != ']' && b[i] != '}' && b[i] != ':' && b[i] != '"' && b[i] != ' ' && b[i] != '\t' && b[i] != '\n' && b[i] != '\r' {
				i++
			}
			n.T = b[n.S:i]
			ok = ok && i > n.S && word(n.T)
		}
		n.E = i
		return n
	}
	d.R = val()
	sp()
	if !ok || i != len(b) {
		return nil
	}
	return d
}

// word tells whether b is a number or one of the three words.
func word(b []byte) bool {
	switch string(b) {
	case "true", "false", "null":
		return true
	}
	i := 0
	at := func(c byte) bool { return i < len(b) && b[i] == c }
	run := func() bool {
		j := i
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
		}
		return i > j
	}
	if at('-') {
		i++
	}
	if at('0') {
		i++
	} else if !run() {
		return false
	}
	if at('.') {
		i++
		if !run() {
			return false
		}
	}
	if at('e') || at('E') {
		i++
		if at('+') || at('-') {
			i++
		}
		if !run() {
			return false
		}
	}
	return i == len(b)
}

// same compares all lookups of a parsed document with those of the text.
func same(p *jin.Parser, b []byte) *D {
	d := scan(b)
	vf.Assert(d != nil, "the document is not well-formed any more")
	if d == nil {
		return nil
	}
	for _, a := range d.nodes() {
		if len(a.path) == 0 {
			continue
		}
		v, err := p.Get(a.path...)
		vf.Assert(err == nil, "the parsed document does not find a value")
		vf.Eq("the parsed document finds the value", v, d.val(a.n))
		w, err := jin.Get(b, a.path...)
		vf.Assert(err == nil, "the interpreter does not find a value")
		vf.Eq("parser and interpreter find the same value", v, w)
		vf.Eq("the value written out again is the value", squeeze(p.GetNew(a.path...)), squeeze(v))
	}
	for _, m := range d.misses(false) {
		_, err := p.Get(m.path...)
		vf.Assert(err != nil, "the parsed document finds something at a missing path")
		vf.Assert(p.GetNew(m.path...) == nil, "the parsed document writes something out at a missing path")
	}
	return d
}

func checkParse(d *D, full bool) {
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	vf.Eq("the parsed document serialises to the document", p.JSON(), d.B)
	root, err := p.Get()
	vf.Assert(err == nil, "the root is not found")
	w, _ := jin.Get(d.B)
	vf.Eq("parser and interpreter agree on the root", root, w)
	vf.Eq("the root written out again is the document", squeeze(p.GetNew()), squeeze(d.B))
	for _, a := range d.all() {
		v, err := p.Get(a.path...)
		vf.Assert(err == nil, "the parsed document does not find a value")
		vf.Eq("the parsed document finds the value", v, d.val(a.n))
		w, err := jin.Get(d.B, a.path...)
		vf.Assert(err == nil, "the interpreter does not find a value")
		vf.Eq("parser and interpreter find the same value", v, w)
		vf.Eq("the value written out again is the value", squeeze(p.GetNew(a.path...)), squeeze(v))
		s, err := p.GetString(a.path...)
		vf.Assert(err == nil && s == string(v), "GetString is Get as a string")
	}
	for _, m := range d.misses(full) {
		_, err := p.Get(m.path...)
		vf.Assert(err != nil, "the parsed document finds something at a missing path")
		vf.Assert(p.GetNew(m.path...) == nil, "the parsed document writes something out at a missing path")
	}
	vf.Eq("lookups leave the serialisation alone", p.JSON(), d.B)
}

func H_C21_full()   { checkParse(doc(stylesAll, 1, 3, 4), true) }
func H_C21_shapes() { checkParse(doc(stylesAll, 2, 2, 2), vf.Thorough()) }

// edit is one edit, to be done both ways.
type edit struct {
	op   int
	path []string
	val  []byte
	idx  int
	key  string
}

const nOps = 6

func (e edit) text(b []byte) ([]byte, error) {
	switch e.op {
	case 0:
		return jin.Set(b, e.val, e.path...)
	case 1:
		return jin.SetKey(b, e.key, e.path...)
	case 2:
		return jin.AddKeyValue(b, e.key, e.val, e.path...)
	case 3:
		return jin.Add(b, e.val, e.path...)
	case 4:
		return jin.Insert(b, e.idx, e.val, e.path...)
	}
	return jin.Delete(b, e.path...)
}

func (e edit) tree(p *jin.Parser) error {
	switch e.op {
	case 0:
		return p.Set(e.val, e.path...)
	case 1:
		return p.SetKey(e.key, e.path...)
	case 2:
		return p.AddKeyValue(e.key, e.val, e.path...)
	case 3:
		return p.Add(e.val, e.path...)
	case 4:
		return p.Insert(e.idx, e.val, e.path...)
	}
	return p.Delete(e.path...)
}

// both does an edit both ways and compares.
func (e edit) both(p *jin.Parser, b []byte) []byte {
	r, err0 := e.text(b)
	err1 := e.tree(p)
	vf.Assert((err0 == nil) == (err1 == nil), "parser and interpreter disagree whether an edit is refused")
	vf.Eq("the parsed document serialises to the edited text", p.JSON(), r)
	return r
}

// someEdit picks an edit that fits the document, or one that is refused.
func someEdit(d *D, vs [][]byte, i int) edit {
	e := edit{op: vf.Choose(nOps), key: "new" + strconv.Itoa(i)}
	ns := d.nodes()
	k := vf.Choose(len(ns) + 1)
	if k == len(ns) {
		e.path = []string{"none"}
		if d.R.K == 'a' {
			e.path = []string{strconv.Itoa(len(d.R.Kids))}
		}
	} else {
		e.path = ns[k].path
	}
	if e.op != 1 && e.op != 5 {
		e.val = vs[vf.Choose(len(vs))]
	}
	if e.op == 4 {
		if k < len(ns) && ns[k].n.K == 'a' {
			e.idx = vf.Choose(len(ns[k].n.Kids) + 1)
		}
	}
	if e.op == 1 || e.op == 2 {
		if vf.Choose(3) == 0 && k < len(ns) {
			n := ns[k].n
			if e.op == 1 {
				n = ns[k].up
			}
			if n != nil && len(n.Keys) > 0 {
				e.key = string(n.Keys[len(n.Keys)-1])
			}
		}
	}
	return e
}

// editSeq does a number of edits in a row.
func editSeq(d *D, vs [][]byte, n int) {
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	b := d.B
	for i := 0; i < n; i++ {
		e := someEdit(d, vs, i)
		b = e.both(p, b)
		d = same(p, b)
		if d == nil {
			return
		}
		d.c = ctx{}
	}
}

func seqVals() [][]byte {
	x, y := sc(), dig()
	return [][]byte{
		{'"', x, '"'},
		{'[', y, ',', '{', '"', 'q', '"', ':', y, '}', ']'},
		{'{', '"', 'q', '"', ':', '"', '}', x, '"', '}'},
		{'[', ']'},
	}
}

// H_C22_one: every edit of every small document.
func H_C22_one() {
	d := doc(stylesFew, 1, 2, 2)
	vs := append(seqVals(), []byte{'7'}, []byte("{}"), []byte(`""`), []byte("[5]"))
	editSeq(d, vs, 1)
}

// H_C22_shapes: every edit of every nested document.
func H_C22_shapes() {
	if vf.Thorough() {
		editSeq(doc(stylesFew[:6], 2, 2, 1), seqVals()[:2], 1)
		return
	}
	editSeq(doc([]int{1, 3, 1}, 2, 2, 1), seqVals()[1:2], 1)
}

// H_C22_two: two edits in a row.
func H_C22_two() {
	c := style([]int{0, 0, 0, 1, 3, 1})
	d := render(c.root(1, 1, 2), c)
	editSeq(d, seqVals()[1:3], 2)
}

// H_C22_three: three edits in a row, from the smallest documents.
func H_C22_three() {
	c := ctx{}
	d := render(c.root(0, 0, 0), c)
	vs := seqVals()[1:2]
	if vf.Thorough() {
		vs = seqVals()[:2]
	}
	editSeq(d, vs, 3)
}
