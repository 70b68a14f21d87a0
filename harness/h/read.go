package h

import (
	"errors"
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

var errStop = errors.New("stop")

// plan says what an iteration callback does: at call number at it declines
// (how 1), fails (how 2) or declines and fails (how 3).
type plan struct{ at, how int }

func plans(n int, full bool) []plan {
	out := []plan{{-1, 0}}
	if n > 0 {
		out = append(out, plan{n - 1, 2}, plan{0, 1})
	}
	if full || n > 2 {
		for i := 0; i < n; i++ {
			if n > 6 && i != n/2 && i != n-1 {
				continue
			}
			out = append(out, plan{i, 1}, plan{i, 2}, plan{i, 3})
		}
	}
	return out
}

func (p plan) answer(call int) (bool, error) {
	if call == p.at {
		switch p.how {
		case 1:
			return false, nil
		case 2:
			return true, errStop
		case 3:
			return false, errStop
		}
	}
	return true, nil
}

// verdict checks number of calls and the error of a finished iteration.
func (p plan) verdict(n, calls int, err error, what string) {
	want := n
	if p.at >= 0 && p.at < n {
		want = p.at + 1
	}
	vf.Assert(calls == want, what+": the callback is not called once per element until it stops")
	if p.at >= 0 && p.how >= 2 {
		vf.Assert(err == errStop, what+": the callback's error is not returned")
	} else {
		vf.Assert(err == nil, what+": an error comes from nowhere")
	}
}

func checkIterArray(d *D, full bool) {
	for _, a := range d.nodes() {
		calls := 0
		if a.n.K != 'a' {
			err := jin.IterateArray(d.B, func([]byte) (bool, error) { calls++; return true, nil }, a.path...)
			vf.Assert(err != nil && calls == 0, "IterateArray accepts something that is not an array")
			continue
		}
		for _, p := range plans(len(a.n.Kids), full) {
			calls = 0
			var kept [][]byte
			err := jin.IterateArray(d.B, func(v []byte) (bool, error) {
				if calls < len(a.n.Kids) {
					vf.Eq("IterateArray hands over the element", v, d.val(a.n.Kids[calls]))
					kept = append(kept, v)
				}
				calls++
				return p.answer(calls - 1)
			}, a.path...)
			p.verdict(len(a.n.Kids), calls, err, "IterateArray")
			for i, v := range kept {
				vf.Eq("an element IterateArray handed over has changed", v, d.val(a.n.Kids[i]))
			}
		}
	}
	for _, m := range d.misses(full) {
		calls := 0
		err := jin.IterateArray(d.B, func([]byte) (bool, error) { calls++; return true, nil }, m.path...)
		vf.Assert(err != nil && calls == 0, "IterateArray accepts a missing path")
	}
}

// emptyOK allows the empty-object error for an object without members.
func emptyOK(n *N, err error) bool {
	return err == nil || len(n.Kids) == 0 && jin.ErrEqual(err, jin.ErrCodeEmpty)
}

func checkIterKV(d *D, full bool) {
	for _, a := range d.nodes() {
		calls := 0
		if a.n.K != 'o' {
			err := jin.IterateKeyValue(d.B, func(_, _ []byte) (bool, error) { calls++; return true, nil }, a.path...)
			vf.Assert(err != nil && calls == 0, "IterateKeyValue accepts something that is not an object")
			continue
		}
		for _, p := range plans(len(a.n.Kids), full) {
			calls = 0
			var kept [][]byte
			err := jin.IterateKeyValue(d.B, func(k, v []byte) (bool, error) {
				if calls < len(a.n.Kids) {
					kept = append(kept, k, v)
					vf.Eq("IterateKeyValue hands over the name", k, a.n.Keys[calls])
					vf.Eq("IterateKeyValue hands over the value", v, d.val(a.n.Kids[calls]))
				}
				calls++
				return p.answer(calls - 1)
			}, a.path...)
			if len(a.n.Kids) == 0 {
				vf.Assert(calls == 0 && emptyOK(a.n, err), "IterateKeyValue on an empty object")
				continue
			}
			p.verdict(len(a.n.Kids), calls, err, "IterateKeyValue")
			for i := 0; i < len(kept); i += 2 {
				vf.Eq("a name IterateKeyValue handed over has changed", kept[i], a.n.Keys[i/2])
				vf.Eq("a value IterateKeyValue handed over has changed", kept[i+1], d.val(a.n.Kids[i/2]))
			}
		}
	}
	for _, m := range d.misses(full) {
		calls := 0
		err := jin.IterateKeyValue(d.B, func(_, _ []byte) (bool, error) { calls++; return true, nil }, m.path...)
		vf.Assert(err != nil && calls == 0, "IterateKeyValue accepts a missing path")
	}
}

func list(label string, got []string, n int, want func(i int) []byte) {
	vf.Assert(len(got) == n, label+": wrong number of entries")
	for i := 0; i < n; i++ {
		vf.Eq(label+": wrong entry", []byte(got[i]), want(i))
	}
}

func checkBulk(d *D, full bool) {
	for _, a := range d.nodes() {
		n := a.n
		key := func(i int) []byte { return n.Keys[i] }
		val := func(i int) []byte { return d.val(n.Kids[i]) }
		ks, err1 := jin.GetKeys(d.B, a.path...)
		vs, err2 := jin.GetValues(d.B, a.path...)
		ks2, vs2, err3 := jin.GetKeysValues(d.B, a.path...)
		m, err4 := jin.GetMap(d.B, a.path...)
		if n.K == 'o' {
			vf.Assert(emptyOK(n, err1), "GetKeys fails on an object")
			vf.Assert(emptyOK(n, err2), "GetValues fails on an object")
			vf.Assert(emptyOK(n, err3), "GetKeysValues fails on an object")
			list("GetKeys", ks, len(n.Kids), key)
			list("GetValues", vs, len(n.Kids), val)
			list("GetKeysValues names", ks2, len(n.Kids), key)
			list("GetKeysValues values", vs2, len(n.Kids), val)
		} else {
			vf.Assert(err1 != nil && err2 != nil && err3 != nil, "a name or value list comes from something that is not an object")
			vf.Assert(len(ks) == 0 && len(vs) == 0 && len(ks2) == 0 && len(vs2) == 0, "an error comes with a list")
		}
		if n.K != 'o' && n.K != 'a' {
			vf.Assert(err4 != nil && len(m) == 0, "GetMap accepts a scalar")
			continue
		}
		vf.Assert(emptyOK(n, err4), "GetMap fails")
		vf.Assert(len(m) == len(n.Kids), "GetMap has the wrong number of entries")
		names := []string{}
		for i := range n.Kids {
			s := step(n, i)
			names = append(names, s)
			v, ok := m[s]
			vf.Assert(ok, "GetMap lacks a name")
			vf.Eq("GetMap has a wrong value", []byte(v), val(i))
		}
		if len(names) == 2 { // the order asked for counts
			names[0], names[1] = names[1], names[0]
		}
		ref := func(i int) []byte {
			if len(names) == 2 {
				return val(1 - i)
			}
			return val(i)
		}
		all, err := jin.GetAll(d.B, names, a.path...)
		vf.Assert(err == nil, "GetAll fails")
		list("GetAll", all, len(names), ref)
		am, err := jin.GetAllMap(d.B, names, a.path...)
		vf.Assert(err == nil && len(am) == len(names), "GetAllMap fails")
		for i, s := range names {
			v, ok := am[s]
			vf.Assert(ok, "GetAllMap lacks a name")
			vf.Eq("GetAllMap has a wrong value", []byte(v), ref(i))
		}
		lost := "none"
		if n.K == 'a' {
			lost = strconv.Itoa(len(n.Kids))
		}
		all, err = jin.GetAll(d.B, ext(names, lost), a.path...)
		vf.Assert(err != nil && len(all) == 0, "GetAll ignores a missing name")
		am, err = jin.GetAllMap(d.B, ext(names, lost), a.path...)
		vf.Assert(err != nil && len(am) == 0, "GetAllMap ignores a missing name")
	}
	for _, m := range d.misses(full) {
		_, err1 := jin.GetKeys(d.B, m.path...)
		_, err2 := jin.GetValues(d.B, m.path...)
		_, _, err3 := jin.GetKeysValues(d.B, m.path...)
		_, err4 := jin.GetMap(d.B, m.path...)
		_, err5 := jin.GetAll(d.B, []string{"none"}, m.path...)
		_, err6 := jin.GetAllMap(d.B, []string{"none"}, m.path...)
		vf.Assert(err1 != nil && err2 != nil && err3 != nil && err4 != nil && err5 != nil && err6 != nil, "a bulk reader accepts a missing path")
	}
}

func checkLength(d *D, full bool) {
	for _, a := range d.nodes() {
		e, err1 := jin.IsEmpty(d.B, a.path...)
		if a.n.K != 'o' && a.n.K != 'a' {
			vf.Assert(!e, "a scalar is an empty container")
			continue
		}
		l, err := jin.Length(d.B, a.path...)
		vf.Assert(err == nil, "Length fails")
		vf.Assert(l == len(a.n.Kids), "Length is not the number of elements")
		vf.Assert(err1 == nil, "IsEmpty fails")
		vf.Assert(e == (len(a.n.Kids) == 0), "IsEmpty disagrees with the number of elements")
	}
	for _, m := range d.misses(full) {
		_, err := jin.Length(d.B, m.path...)
		vf.Assert(err != nil, "Length accepts a missing path")
		e, err := jin.IsEmpty(d.B, m.path...)
		vf.Assert(err != nil && !e, "IsEmpty accepts a missing path")
	}
}

// kind is the type name of a node.
func (n *N) kind() string {
	switch n.K {
	case 'o':
		return jin.TypeObject
	case 'a':
		return jin.TypeArray
	case 's':
		return jin.TypeString
	}
	switch string(n.T) {
	case "true", "false":
		return jin.TypeBoolean
	case "null":
		return jin.TypeNull
	}
	return jin.TypeNumber
}

func checkTypes(d *D, full bool) {
	for _, a := range d.nodes() {
		t, err := jin.GetType(d.B, a.path...)
		o, err1 := jin.IsObject(d.B, a.path...)
		r, err2 := jin.IsArray(d.B, a.path...)
		v, err3 := jin.IsValue(d.B, a.path...)
		vf.Assert(err == nil && err1 == nil && err2 == nil && err3 == nil, "a type query fails")
		vf.Assert(t == a.n.kind(), "GetType names the wrong type")
		vf.Assert(o == (a.n.K == 'o'), "IsObject is wrong")
		vf.Assert(r == (a.n.K == 'a'), "IsArray is wrong")
		vf.Assert(v == (a.n.K != 'o' && a.n.K != 'a'), "IsValue is wrong")
	}
	for _, m := range d.misses(full) {
		_, err := jin.GetType(d.B, m.path...)
		o, err1 := jin.IsObject(d.B, m.path...)
		r, err2 := jin.IsArray(d.B, m.path...)
		v, err3 := jin.IsValue(d.B, m.path...)
		vf.Assert(err != nil && err1 != nil && err2 != nil && err3 != nil, "a type query accepts a missing path")
		vf.Assert(!o && !r && !v, "a failing type query says yes")
	}
}

func H_C13_full()   { checkIterArray(doc(stylesAll, 1, 3, 3), true) }
func H_C13_shapes() { checkIterArray(doc(stylesAll, 2, 2, 2), false) }

func H_C14_full()   { checkIterKV(doc(stylesAll, 1, 3, 3), true) }
func H_C14_shapes() { checkIterKV(doc(stylesAll, 2, 2, 2), false) }

func H_C15_full()   { checkBulk(doc(stylesAll, 1, 2, 3), true) }
func H_C15_shapes() { checkBulk(doc(stylesAll, 2, 2, 2), false) }

func H_C16_full()   { checkLength(doc(stylesAll, 1, 3, 3), true) }
func H_C16_shapes() { checkLength(doc(stylesAll, 2, 2, 2), true) }

func H_C17_full()   { checkTypes(doc(stylesAll, 1, 2, 7), true) }
func H_C17_shapes() { checkTypes(doc(stylesAll, 2, 2, 2), false) }

// H_C17_strings: strings with the text of other things.
func H_C17_strings() {
	texts := []string{"true", "false", "null", "1", "-1.5", "1e3", "[]", "{}", "[1]", "{\\\"a\\\":1}", "", " ", "\\\"", "NaN", "0x1", "1 ", " 1"}
	nums := []string{"0", "-0", "1e999", "-1e999", "12345678901234567890123", "1E5", "-1.5e-3", "0.1", "1e-999", "9223372036854775807", "9223372036854775808"}
	c := &ctx{key: 1}
	k := vf.Choose(len(texts) + len(nums))
	var n *N
	if k < len(texts) {
		n = &N{K: 's', T: []byte(texts[k])}
	} else {
		n = &N{K: 'v', T: []byte(nums[k-len(texts)])}
	}
	c.ws = vf.Choose(4)
	r := &N{K: 'o'}
	if vf.Choose(2) == 1 {
		r.K = 'a'
	}
	for i := 0; i < 2; i++ {
		if r.K == 'o' {
			r.Keys = append(r.Keys, c.name(i))
		}
		r.Kids = append(r.Kids, n)
		n = &N{K: n.K, T: n.T}
	}
	checkTypes(render(r, *c), true)
}
