package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// M is a value of the reference model: a document as a tree, without text.
type M struct {
	K    byte
	T    []byte // source text of a scalar
	Keys [][]byte
	Kids []*M
}

// model is the tree of a node.
func (d *D) model(n *N) *M {
	m := &M{K: n.K}
	if n.K == 's' || n.K == 'v' {
		m.T = cp(d.src(n))
		return m
	}
	for i, k := range n.Kids {
		if n.K == 'o' {
			m.Keys = append(m.Keys, cp(n.Keys[i]))
		}
		m.Kids = append(m.Kids, d.model(k))
	}
	return m
}

// scanned is the model of a text.
func scanned(b []byte) *M {
	d := scan(b)
	if d == nil {
		return nil
	}
	return d.model(d.R)
}

// find returns the child a step leads to, and its position.
func (m *M) find(step string) (*M, int) {
	for i, k := range m.Kids {
		if m.K == 'o' && string(m.Keys[i]) == step || m.K == 'a' && strconv.Itoa(i) == step {
			return k, i
		}
	}
	return nil, -1
}

// walkTo returns the value a path designates, what holds it and where.
func (m *M) walkTo(path []string) (at, up *M, i int) {
	at, i = m, -1
	for _, s := range path {
		up = at
		at, i = up.find(s)
		if at == nil {
			return nil, nil, -1
		}
	}
	return
}

// apply does an edit; it tells whether the edit is possible.
func (m *M) apply(op int, path []string, key string, val []byte, idx int) bool {
	at, up, i := m.walkTo(path)
	if at == nil {
		return false
	}
	put := func(i int) {
		at.Kids = append(at.Kids, nil)
		copy(at.Kids[i+1:], at.Kids[i:])
		at.Kids[i] = scanned(val)
	}
	switch op {
	case 0: // set
		if up == nil {
			return false
		}
		up.Kids[i] = scanned(val)
	case 1: // rename
		if up == nil || up.K != 'o' {
			return false
		}
		if _, j := up.find(key); j >= 0 {
			return false
		}
		up.Keys[i] = []byte(key)
	case 2: // new member
		if at.K != 'o' {
			return false
		}
		if _, j := at.find(key); j >= 0 {
			return false
		}
		put(len(at.Kids))
		at.Keys = append(at.Keys, []byte(key))
	case 3: // new last element
		if at.K != 'a' {
			return false
		}
		put(len(at.Kids))
	case 4: // new element
		if at.K != 'a' || idx < 0 || idx >= len(at.Kids) {
			return false
		}
		put(idx)
	case 5: // delete
		if up == nil {
			return false
		}
		up.Kids = append(up.Kids[:i:i], up.Kids[i+1:]...)
		if up.K == 'o' {
			up.Keys = append(up.Keys[:i:i], up.Keys[i+1:]...)
		}
	case 6: // store
		_, j := at.find(key)
		switch {
		case j >= 0:
			at.Kids[j] = scanned(val)
		case at.K == 'o':
			put(len(at.Kids))
			at.Keys = append(at.Keys, []byte(key))
		default:
			return false
		}
	}
	return true
}

const nEdits = 7

// run does the edit with the library.
func (e edit) run(b []byte) ([]byte, error) {
	if e.op == 6 {
		return jin.Store(b, e.key, e.val, e.path...)
	}
	return e.text(b)
}

func (e edit) method(j *jin.JO) error {
	switch e.op {
	case 0:
		return j.Set(e.val, e.path...)
	case 1:
		return j.SetKey(e.key, e.path...)
	case 2:
		return j.AddKeyValue(e.key, e.val, e.path...)
	case 3:
		return j.Add(e.val, e.path...)
	case 4:
		return j.Insert(e.idx, e.val, e.path...)
	case 5:
		return j.Delete(e.path...)
	}
	return j.Store(e.key, e.val, e.path...)
}

// meets asserts that a document has the contents of the model, by the
// reference parser and by lookups.
func (m *M) meets(b []byte, paths bool) {
	d := scan(b)
	vf.Assert(d != nil, "the document is not well-formed any more")
	if d == nil {
		return
	}
	var rec func(m *M, n *N)
	rec = func(m *M, n *N) {
		vf.Assert(m.K == n.K, "a value is of another kind")
		vf.Assert(len(m.Kids) == len(n.Kids), "the document has too much or too little")
		if m.K == 's' || m.K == 'v' {
			vf.Eq("a value is another one", d.src(n), m.T)
		}
		if m.K != n.K || len(m.Kids) != len(n.Kids) {
			return
		}
		for i := range m.Kids {
			if m.K == 'o' {
				vf.Eq("a name is another one", n.Keys[i], m.Keys[i])
			}
			rec(m.Kids[i], n.Kids[i])
		}
	}
	rec(m, d.R)
	if !paths {
		return
	}
	var at func(m *M, path []string)
	at = func(m *M, path []string) {
		for i, k := range m.Kids {
			s := strconv.Itoa(i)
			if m.K == 'o' {
				s = string(m.Keys[i])
			}
			p := ext(path, s)
			v, err := jin.Get(b, p...)
			vf.Assert(err == nil, "a value is not found")
			if k.K == 's' || k.K == 'v' {
				vf.Eq("another value is found", v, unq(k.T))
			} else {
				c := scanned(v)
				vf.Assert(c != nil && c.K == k.K && len(c.Kids) == len(k.Kids), "another value is found")
			}
			at(k, p)
		}
	}
	at(m, nil)
}

// step does an edit on the document and on the model and compares.
func (e edit) step(b []byte, j *jin.JO, m *M, paths bool) []byte {
	could := m.apply(e.op, e.path, e.key, e.val, e.idx)
	var err error
	if j != nil {
		err = e.method(j)
		b = j.JSON()
	} else {
		b, err = e.run(b)
	}
	if could {
		vf.Assert(err == nil, "an edit that is possible is refused")
	} else {
		vf.Assert(err != nil, "an edit that is not possible is accepted")
	}
	m.meets(b, paths)
	return b
}

// H_C31_short: all histories of a few edits of small documents.
func H_C31_short() {
	starts := []string{`{}`, `[]`, ` { "a" : [ 1 ,_"~" ] } `, `[{"a":"~","b":#}]`, `{"a":{"b":{}},"c":[[]]}`, `["~",_[#]_]`}
	d := fill(starts[vf.Choose(len(starts))])
	vs := [][]byte{{'"', sc(), '"'}, []byte(`[ 1,{"q":[]}]`), []byte(`{"q": "}" }`)}
	n := 2
	if vf.Thorough() && len(d.B) < 4 {
		n = 3
	}
	m, b := d.model(d.R), d.B
	var j *jin.JO
	if vf.Choose(2) == 1 {
		j = jin.New(b)
	}
	for i := 0; i < n; i++ {
		d = scan(b)
		if d == nil {
			vf.Fail("the document is not well-formed any more")
			return
		}
		e := edit{op: vf.Choose(nEdits), key: "k" + strconv.Itoa(i)}
		ns := d.nodes()
		a := ns[vf.Choose(len(ns))]
		e.path = a.path
		if e.op != 1 && e.op != 5 {
			e.val = vs[vf.Choose(len(vs))]
		}
		if e.op == 4 {
			e.idx = vf.Choose(len(a.n.Kids) + 1)
		}
		if (e.op == 2 || e.op == 6) && len(a.n.Kids) > 0 && vf.Choose(2) == 1 {
			e.key = step(a.n, len(a.n.Kids)-1)
		}
		b = e.step(b, j, m, i == n-1)
	}
}

// H_C31_long: long histories of edits.
func H_C31_long() {
	starts := []string{`{}`, `[]`, "{\n\t\"a\": [1, {\"b\" : \"~\"}] ,\r\n\"c\":{ \"d\":# }\n}", `[{"a":1},[#,[2]],"~"]`, templates[2], templates[5], templates[10]}
	d := fill(starts[vf.Choose(len(starts))])
	turn, skip := vf.Choose(4), vf.Choose(3)
	vs := append(seqVals(), []byte(`{"r":[{"s":1},2,[3]], "t":{"u":{}}}`), []byte("7"), []byte(`"\",{["`))
	m, b := d.model(d.R), d.B
	var j *jin.JO
	if turn%2 == 1 {
		j = jin.New(b)
	}
	n := 20
	if vf.Thorough() {
		n = 60
	}
	for i := 0; i < n; i++ {
		d = scan(b)
		if d == nil {
			vf.Fail("the document is not well-formed any more")
			return
		}
		ns := d.nodes()
		a := ns[(i*(5+2*turn)+skip)%len(ns)]
		e := edit{key: "n" + strconv.Itoa(i), val: vs[(i+turn)%len(vs)], path: a.path}
		switch {
		case i%4 == 3:
			e.op = 5
		case i%7 == 5:
			e.op = 0
		case i%7 == 6:
			e.op = 1
		case i%9 == 8:
			e.op = 6
			if len(a.n.Kids) > 0 {
				e.key = step(a.n, skip%len(a.n.Kids))
			}
		case a.n.K == 'o':
			e.op = 2 + 4*(i%2)
		case a.n.K == 'a':
			e.op = 3 + i%2
			e.idx = (i + skip) % (len(a.n.Kids) + 1)
		}
		b = e.step(b, j, m, i%5 == 4)
	}
}

// H_C31_undo: an edit and the edit that takes it back.
func H_C31_undo() {
	d := big()
	m := d.model(d.R)
	v := []byte{'[', '"', sc(), '"', ']'}
	for _, a := range d.nodes() {
		if len(a.path) > 0 {
			r, err := jin.Set(d.B, v, a.path...)
			vf.Assert(err == nil, "a value cannot be set")
			r, err = jin.Set(r, d.src(a.n), a.path...)
			vf.Assert(err == nil, "a value cannot be set back")
			vf.Eq("setting a value back", r, d.B)
		}
		switch a.n.K {
		case 'o':
			r, err := jin.AddKeyValue(d.B, "newest", v, a.path...)
			vf.Assert(err == nil, "a member cannot be added")
			r, err = jin.Delete(r, ext(a.path, "newest")...)
			vf.Assert(err == nil, "a new member cannot be deleted")
			m.meets(r, false)
			for i, k := range a.n.Keys {
				if len(k) == 0 {
					continue
				}
				r, err := jin.SetKey(d.B, "newest", ext(a.path, string(k))...)
				vf.Assert(err == nil, "a member cannot be renamed")
				r, err = jin.SetKey(r, string(k), ext(a.path, "newest")...)
				vf.Assert(err == nil, "a member cannot be renamed back")
				vf.Eq("renaming a member back", r, d.B)
				if i == 5 {
					break
				}
			}
		case 'a':
			r, err := jin.Add(d.B, v, a.path...)
			vf.Assert(err == nil, "an element cannot be added")
			r, err = jin.Delete(r, ext(a.path, strconv.Itoa(len(a.n.Kids)))...)
			vf.Assert(err == nil, "a new element cannot be deleted")
			m.meets(r, false)
			for i := range a.n.Kids {
				r, err := jin.Insert(d.B, i, v, a.path...)
				vf.Assert(err == nil, "an element cannot be inserted")
				r, err = jin.Delete(r, ext(a.path, strconv.Itoa(i))...)
				vf.Assert(err == nil, "an inserted element cannot be deleted")
				m.meets(r, false)
				if i == 5 {
					break
				}
			}
		}
	}
}
