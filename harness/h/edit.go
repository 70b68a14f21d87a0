package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// vals lists values to write, over shared symbolic bytes.
func vals() [][]byte {
	x, y, e := sc(), dig(), es()
	return [][]byte{
		{y},
		{'"', x, '"'},
		{'[', y, ',', '{', '"', 'q', '"', ':', y, '}', ']'},
		{'{', '"', 'q', '"', ':', '"', '}', x, '"', '}'},
		{'n', 'u', 'l', 'l'},
		{'"', '\\', e, '"'},
		{'"', '"'},
		{'[', ']'},
		{'{', '}'},
		{'-', y, '.', y},
	}
}

// text is what a lookup of a value of this source text returns.
func unq(v []byte) []byte {
	if len(v) > 1 && v[0] == '"' {
		return v[1 : len(v)-1]
	}
	return v
}

// pick gives the value for the i-th edit of a run.
type pick struct {
	v [][]byte
	i int
}

func newPick(shift int) *pick { return &pick{vals(), shift} }

func (p *pick) next() []byte {
	p.i++
	return p.v[p.i%len(p.v)]
}

// unchanged asserts that a refused edit hands the document back.
func unchanged(d *D, r []byte, err error, label string) {
	vf.Assert(err != nil, label)
	vf.Eq("a refused edit hands the document back", r, d.B)
}

func reads(r []byte, path []string, v []byte) {
	got, err := jin.Get(r, path...)
	vf.Assert(err == nil, "the written value cannot be looked up")
	vf.Eq("the written value reads back", got, unq(v))
}

func checkSet(d *D, full bool) {
	p := newPick(0)
	k := 1
	if full {
		k = len(p.v)
	}
	for _, a := range d.all() {
		for j := 0; j < k; j++ {
			v := p.next()
			r, err := jin.Set(d.B, v, a.path...)
			vf.Assert(err == nil, "setting an existing path fails")
			vf.Eq("Set replaces exactly the value", r, d.with(a.n.S, a.n.E, v))
			reads(r, a.path, v)
		}
	}
	v := p.next()
	for _, m := range d.misses(full) {
		r, err := jin.Set(d.B, v, m.path...)
		unchanged(d, r, err, "setting a missing path succeeds")
	}
	r, err := jin.Set(d.B, v)
	unchanged(d, r, err, "setting without a path succeeds")
}

// newNames are names the object lacks, though others may have them.
func (d *D) newNames(n *N) []string {
	if d.vast {
		return []string{"newk", "newm"}
	}
	if d.near {
		return d.nearNames(n)
	}
	x := sc()
	other := string(d.c.name(len(n.Keys)))
	if d.read {
		other = "newm"
	}
	return []string{"newk", other, string([]byte{'q', x, 'N'}), string([]byte{'\\', es(), 'N'})}
}

func checkSetKey(d *D, full bool) {
	for _, a := range d.all() {
		if a.up.K == 'a' {
			r, err := jin.SetKey(d.B, "newk", a.path...)
			unchanged(d, r, err, "renaming an array element succeeds")
			continue
		}
		ks := a.up.KS[a.i]
		ke := ks + len(a.up.Keys[a.i])
		names := d.newNames(a.up)
		if !full {
			names = names[:2]
		}
		for _, nn := range names {
			r, err := jin.SetKey(d.B, nn, a.path...)
			vf.Assert(err == nil, "renaming an existing member fails")
			vf.Eq("SetKey replaces exactly the name", r, d.with(ks, ke, []byte(nn)))
			p2 := append(ext(a.path[:len(a.path)-1]), nn)
			reads(r, p2, d.src(a.n))
			_, err = jin.Get(r, a.path...)
			vf.Assert(err != nil, "the old name is still found")
		}
		r, err := jin.SetKey(d.B, "", a.path...)
		unchanged(d, r, err, "an empty name is accepted")
		for i, k := range a.up.Keys {
			if d.skip(i, len(a.up.Keys)) {
				continue
			}
			r, err := jin.SetKey(d.B, string(k), a.path...)
			unchanged(d, r, err, "a name the object has is accepted")
		}
	}
	for _, m := range d.misses(full) {
		r, err := jin.SetKey(d.B, "newk", m.path...)
		unchanged(d, r, err, "renaming a missing path succeeds")
	}
	r, err := jin.SetKey(d.B, "newk")
	unchanged(d, r, err, "renaming without a path succeeds")
}

// inserted asserts that r is the document with ins put between lo and hi,
// which holds nothing but whitespace.
func inserted(d *D, r, ins []byte, lo, hi int, label string) {
	for p := hi; p > lo; p-- {
		w := d.with(p, p, ins)
		if len(r) == len(w) && eqB(r, w) {
			return
		}
	}
	vf.Eq(label, r, d.with(lo, lo, ins))
}

// tail is the gap after the last child of a container.
func (d *D) tail(n *N) (int, int) {
	lo := n.S + 1
	if len(n.Kids) > 0 {
		lo = n.Kids[len(n.Kids)-1].E
	}
	return lo, n.E - 1
}

func comma(n *N, b []byte) []byte {
	if len(n.Kids) == 0 {
		return b
	}
	return append([]byte{','}, b...)
}

func member(k string, v []byte) []byte {
	b := append([]byte{'"'}, k...)
	b = append(b, '"', ':')
	return append(b, v...)
}

func checkAddKeyValue(d *D, full bool) {
	p := newPick(1)
	for _, a := range d.nodes() {
		v := p.next()
		if a.n.K != 'o' {
			r, err := jin.AddKeyValue(d.B, "newk", v, a.path...)
			unchanged(d, r, err, "a member is added to something that is not an object")
			continue
		}
		lo, hi := d.tail(a.n)
		names := d.newNames(a.n)
		if !full {
			names = names[:2]
		}
		for _, nn := range names {
			v = p.next()
			r, err := jin.AddKeyValue(d.B, nn, v, a.path...)
			vf.Assert(err == nil, "adding a member fails")
			inserted(d, r, comma(a.n, member(nn, v)), lo, hi, "AddKeyValue inserts exactly the member")
			reads(r, ext(a.path, nn), v)
		}
		for i, k := range a.n.Keys {
			if d.skip(i, len(a.n.Keys)) {
				continue
			}
			r, err := jin.AddKeyValue(d.B, string(k), v, a.path...)
			unchanged(d, r, err, "a second member of the same name is added")
			vf.Assert(jin.ErrEqual(err, jin.ErrCodeKeyAlreadyExist), "the error code is not key-already-exist")
		}
	}
	v := p.next()
	for _, m := range d.misses(full) {
		r, err := jin.AddKeyValue(d.B, "newk", v, m.path...)
		unchanged(d, r, err, "a member is added at a missing path")
	}
}

func checkAdd(d *D, full bool) {
	p := newPick(2)
	k := 1
	if full {
		k = len(p.v)
	}
	for _, a := range d.nodes() {
		if a.n.K != 'a' {
			r, err := jin.Add(d.B, p.next(), a.path...)
			unchanged(d, r, err, "an element is added to something that is not an array")
			continue
		}
		lo, hi := d.tail(a.n)
		for j := 0; j < k; j++ {
			v := p.next()
			r, err := jin.Add(d.B, v, a.path...)
			vf.Assert(err == nil, "adding an element fails")
			inserted(d, r, comma(a.n, v), lo, hi, "Add inserts exactly the element")
			reads(r, ext(a.path, strconv.Itoa(len(a.n.Kids))), v)
		}
	}
	v := p.next()
	for _, m := range d.misses(full) {
		r, err := jin.Add(d.B, v, m.path...)
		unchanged(d, r, err, "an element is added at a missing path")
	}
}

// squeeze drops the whitespace outside strings.
func squeeze(b []byte) []byte {
	out := make([]byte, 0, len(b))
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			out = append(out, c)
			if c == '\\' && i+1 < len(b) {
				i++
				out = append(out, b[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			continue
		}
		if c == '"' {
			in = true
		}
		out = append(out, c)
	}
	return out
}

// within asserts that an edit of container n kept everything outside it and
// is, but for whitespace inside, the document want.
func within(d *D, n *N, r, want []byte, label string) {
	post := len(d.B) - (n.E - 1)
	vf.Assert(len(r) >= n.S+1+post, label)
	vf.Eq(label+" (before the container)", r[:n.S+1], d.B[:n.S+1])
	vf.Eq(label+" (after the container)", r[len(r)-post:], d.B[n.E-1:])
	vf.Eq(label, squeeze(r), squeeze(want))
}

func checkInsert(d *D, full bool) {
	p := newPick(3)
	for _, a := range d.nodes() {
		v := p.next()
		if a.n.K != 'a' {
			for _, i := range []int{0, 1, -1} {
				r, err := jin.Insert(d.B, i, v, a.path...)
				unchanged(d, r, err, "an element is inserted into something that is not an array")
			}
			continue
		}
		for i, k := range a.n.Kids {
			if d.skip(i, len(a.n.Kids)) {
				continue
			}
			v := p.next()
			r, err := jin.Insert(d.B, i, v, a.path...)
			vf.Assert(err == nil, "inserting at an existing position fails")
			ins := append(cp(v), ',')
			within(d, a.n, r, d.with(k.S, k.S, ins), "Insert places exactly the element")
			reads(r, ext(a.path, strconv.Itoa(i)), v)
			if full {
				for j, s := range a.n.Kids {
					at := j
					if j >= i {
						at++
					}
					reads(r, ext(a.path, strconv.Itoa(at)), d.src(s))
				}
			}
		}
		n := len(a.n.Kids)
		out := []int{-1, n, n + 1, -2}
		if d.near {
			out = far(n)
		}
		for _, i := range out {
			r, err := jin.Insert(d.B, i, v, a.path...)
			unchanged(d, r, err, "a position outside the array is accepted")
		}
	}
	v := p.next()
	for _, m := range d.misses(full) {
		r, err := jin.Insert(d.B, 0, v, m.path...)
		unchanged(d, r, err, "an element is inserted at a missing path")
	}
}

// without is the document without one node and one separating comma.
func (d *D) without(a at) []byte {
	begin := func(i int) int {
		if a.up.K == 'o' {
			return a.up.KS[i] - 1
		}
		return a.up.Kids[i].S
	}
	n := len(a.up.Kids)
	switch {
	case a.i+1 < n:
		return d.with(begin(a.i), begin(a.i+1), nil)
	case a.i > 0:
		return d.with(a.up.Kids[a.i-1].E, a.n.E, nil)
	}
	return d.with(begin(0), a.n.E, nil)
}

func checkDelete(d *D, full bool) {
	for _, a := range d.all() {
		r, err := jin.Delete(d.B, a.path...)
		vf.Assert(err == nil, "deleting an existing path fails")
		within(d, a.up, r, d.without(a), "Delete removes exactly the member")
		if a.up.K == 'o' {
			_, err = jin.Get(r, a.path...)
			vf.Assert(err != nil, "the deleted member is still found")
		}
		if full {
			for i, k := range a.up.Kids {
				if i == a.i {
					continue
				}
				s := step(a.up, i)
				if a.up.K == 'a' && i > a.i {
					s = strconv.Itoa(i - 1)
				}
				reads(r, append(ext(a.path[:len(a.path)-1]), s), d.src(k))
			}
		}
	}
	for _, m := range d.misses(full) {
		r, err := jin.Delete(d.B, m.path...)
		unchanged(d, r, err, "deleting a missing path succeeds")
	}
	r, err := jin.Delete(d.B)
	unchanged(d, r, err, "deleting without a path succeeds")
}

func checkStore(d *D, full bool) {
	p := newPick(4)
	store := func(key string, path []string) ([]byte, []byte, error) {
		v := p.next()
		r, err := jin.Store(d.B, key, v, path...)
		if !d.vast {
			j := jin.New(cp(d.B))
			errj := j.Store(key, v, path...)
			vf.Assert((err == nil) == (errj == nil), "Store and the method disagree about the error")
			if err == nil {
				vf.Eq("Store and the method disagree", j.JSON(), r)
			} else {
				vf.Eq("a failed Store changes the object", j.JSON(), d.B)
			}
		}
		return v, r, err
	}
	for _, a := range d.nodes() {
		if a.n.K != 'o' && a.n.K != 'a' {
			_, r, err := store("newk", a.path)
			unchanged(d, r, err, "a scalar takes a member")
			_, r, err = store("0", a.path)
			unchanged(d, r, err, "a scalar takes an element")
			continue
		}
		for i, k := range a.n.Kids {
			if d.skip(i, len(a.n.Kids)) {
				continue
			}
			v, r, err := store(step(a.n, i), a.path)
			vf.Assert(err == nil, "storing an existing member fails")
			vf.Eq("Store sets exactly the value", r, d.with(k.S, k.E, v))
		}
		if a.n.K == 'a' {
			_, r, err := store(strconv.Itoa(len(a.n.Kids)), a.path)
			unchanged(d, r, err, "an element is stored past the end")
			_, r, err = store("newk", a.path)
			unchanged(d, r, err, "an array takes a member")
			if d.near {
				for _, t := range farTexts(len(a.n.Kids)) {
					_, r, err = store(t, a.path)
					unchanged(d, r, err, "an element is stored outside the array")
				}
			}
			continue
		}
		lo, hi := d.tail(a.n)
		names := d.newNames(a.n)
		if !full {
			names = names[:2]
		}
		for _, nn := range names {
			v, r, err := store(nn, a.path)
			vf.Assert(err == nil, "storing a new member fails")
			inserted(d, r, comma(a.n, member(nn, v)), lo, hi, "Store adds exactly the member")
			reads(r, ext(a.path, nn), v)
		}
	}
	for _, m := range d.misses(full) {
		for _, k := range []string{"newk", "0"} {
			_, r, err := store(k, m.path)
			unchanged(d, r, err, "a value is stored below a missing path")
		}
	}
}

// checkStoreTyped compares each typed variant with Store of the same text.
func checkStoreTyped(d *D) {
	n, txt := vf.Dec(2, false)
	x := sc()
	str := string([]byte{'s', x})
	for _, a := range d.nodes() {
		keys := []string{"newk", "0"}
		for i := range a.n.Kids {
			keys = append(keys, step(a.n, i))
		}
		for _, k := range keys {
			same := func(name, v string, r []byte, err error) {
				r0, err0 := jin.Store(d.B, k, []byte(v), a.path...)
				vf.Assert((err == nil) == (err0 == nil), name+" and Store disagree about the error")
				vf.Eq(name+" is Store of the text", r, r0)
			}
			r, err := jin.StoreInt(d.B, k, int(n), a.path...)
			same("StoreInt", txt, r, err)
			r, err = jin.StoreBool(d.B, k, true, a.path...)
			same("StoreBool", "true", r, err)
			r, err = jin.StoreBool(d.B, k, false, a.path...)
			same("StoreBool", "false", r, err)
			r, err = jin.StoreFloat(d.B, k, -0.25, a.path...)
			same("StoreFloat", "-0.25", r, err)
			r, err = jin.StoreString(d.B, k, str, a.path...)
			same("StoreString", `"`+str+`"`, r, err)
		}
	}
}

func H_C03_full()   { checkSet(doc(stylesAll, 1, 2, 3), true) }
func H_C03_shapes() { checkSet(doc(stylesAll, 2, 2, 2), false) }

func H_C04_full()   { checkSetKey(doc(stylesAll, 1, 2, 3), true) }
func H_C04_shapes() { checkSetKey(doc(stylesAll, 2, 2, 2), false) }

func H_C05_full()   { checkAddKeyValue(doc(stylesAll, 1, 2, 3), true) }
func H_C05_shapes() { checkAddKeyValue(doc(stylesAll, 2, 2, 2), false) }

func H_C06_full()   { checkAdd(doc(stylesAll, 1, 2, 3), true) }
func H_C06_shapes() { checkAdd(doc(stylesAll, 2, 2, 2), false) }

func H_C07_full()   { checkInsert(doc(stylesAll, 1, 3, 3), true) }
func H_C07_shapes() { checkInsert(doc(stylesAll, 2, 2, 2), false) }

func H_C08_full()   { checkDelete(doc(stylesAll, 1, 3, 3), true) }
func H_C08_shapes() { checkDelete(doc(stylesAll, 2, 2, 2), false) }

func H_C09_full()   { checkStore(doc(stylesAll, 1, 2, 3), true) }
func H_C09_shapes() { checkStore(doc(stylesAll, 2, 2, 2), false) }
func H_C09_typed()  { checkStoreTyped(doc(stylesFew, 1, 2, 2)) }
