package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// element is the i-th string to build with: its text, and what its source
// text has to be if that is certain.
func element(kind, i int, c *ctx) string {
	switch kind {
	case 0:
		return string([]byte{c.K(), byte('a' + i)})
	case 1:
		return string([]byte{'\\', c.E(), byte('a' + i)})
	case 2:
		return ""
	case 3:
		return []string{"true", "null", "false", "nil"}[i%4]
	case 4:
		return string([]byte{c.K()})
	case 5:
		return []string{"01", "NaN", "-5", "1.5e3"}[i%4]
	case 6:
		return []string{"0x1F", "+Inf", "1_0", ".5"}[i%4]
	}
	return string([]byte{byte('a' + i), ' ', c.K()})
}

const nElements = 8

// built scans a document that has been built and returns its root.
func built(r []byte, kind byte, n int, what string) *D {
	d := scan(r)
	vf.Assert(d != nil, what+": the document is not well-formed")
	if d == nil {
		return nil
	}
	vf.Assert(d.R.K == kind, what+": the document is of another kind")
	vf.Assert(len(d.R.Kids) == n, what+": the document has another number of elements")
	if d.R.K != kind || len(d.R.Kids) != n {
		return nil
	}
	return d
}

// holds asserts that the i-th child has the text, and for members the name.
func (d *D) holds(i int, name *string, text string, kind byte, what string) {
	n := d.R.Kids[i]
	vf.Assert(string(d.val(n)) == text, what+": an element reads back as something else")
	if kind != 0 {
		vf.Assert(n.K == kind, what+": an element is of another kind")
	}
	if name != nil {
		vf.Assert(string(d.R.Keys[i]) == *name, what+": a name is another one")
	}
	p := strconv.Itoa(i)
	if name != nil {
		p = *name
	}
	v, err := jin.GetString(d.B, p)
	vf.Assert(err == nil && v == text, what+": an element cannot be looked up")
}

func someStrings(max int) []string {
	n := vf.Choose(max + 1)
	kind := vf.Choose(nElements)
	c := &ctx{}
	s := make([]string, 0, n)
	for i := 0; i < n; i++ {
		s = append(s, element(kind, i, c))
	}
	if n == 0 && vf.Choose(2) == 1 {
		return nil
	}
	return s
}

// top is the largest number of elements.
func top() int {
	if vf.Thorough() {
		return 6
	}
	return 4
}

// H_C23_strings: arrays of strings.
func H_C23_strings() {
	s := someStrings(top())
	r := jin.MakeArrayString(s)
	if d := built(r, 'a', len(s), "MakeArrayString"); d != nil {
		for i := range s {
			d.holds(i, nil, s[i], 0, "MakeArrayString")
		}
	}
	var is []interface{}
	for _, x := range s {
		is = append(is, x)
	}
	r = jin.MakeArray(is...)
	if d := built(r, 'a', len(s), "MakeArray"); d != nil {
		for i := range s {
			d.holds(i, nil, s[i], 0, "MakeArray")
		}
	}
}

// H_C23_ints: arrays of integers.
func H_C23_ints() {
	n := vf.Choose(top() + 1)
	nd := []int{1, 3, 18}[vf.Choose(3)]
	neg := vf.Choose(2) == 1
	v := make([]int, n)
	is := make([]interface{}, n)
	s := make([]string, n)
	for i := range v {
		x, t := vf.Dec(nd, neg)
		v[i], s[i], is[i] = int(x), t, int(x)
	}
	if d := built(jin.MakeArrayInt(v), 'a', n, "MakeArrayInt"); d != nil {
		for i := range s {
			d.holds(i, nil, s[i], 'v', "MakeArrayInt")
		}
	}
	if d := built(jin.MakeArray(is...), 'a', n, "MakeArray"); d != nil {
		for i := range s {
			d.holds(i, nil, s[i], 'v', "MakeArray")
		}
	}
	if n == 0 {
		vf.Assert(string(jin.MakeArrayInt(nil)) == "[]", "MakeArrayInt: no list is no empty array")
	}
}

// H_C23_edges: the first and last integers.
func H_C23_edges() {
	v := []int{-9223372036854775808, 9223372036854775807, 0, -1, 2147483648, -2147483649}
	if d := built(jin.MakeArrayInt(v), 'a', len(v), "MakeArrayInt"); d != nil {
		for i := range v {
			d.holds(i, nil, strconv.Itoa(v[i]), 'v', "MakeArrayInt")
		}
	}
}

// H_C23_bools: arrays of booleans.
func H_C23_bools() {
	n := vf.Choose(top() + 1)
	v := make([]bool, n)
	is := make([]interface{}, n)
	for i := range v {
		v[i] = vf.Choose(2) == 1
		is[i] = v[i]
	}
	for _, r := range [][]byte{jin.MakeArrayBool(v), jin.MakeArray(is...)} {
		if d := built(r, 'a', n, "MakeArrayBool"); d != nil {
			for i := range v {
				d.holds(i, nil, strconv.FormatBool(v[i]), 'v', "MakeArrayBool")
			}
		}
	}
	if n == 0 {
		vf.Assert(string(jin.MakeArrayBool(nil)) == "[]", "MakeArrayBool: no list is no empty array")
	}
}

// H_C23_floats: arrays of floats.
func H_C23_floats() {
	fs := []float64{0, 1, -1, 0.5, -0.1, 100, 1e21, -1e-7, 123456789.125, 9007199254740993, 1.7976931348623157e308, 5e-324, 3, 10}
	n := vf.Choose(4)
	v := make([]float64, n)
	is := make([]interface{}, n)
	for i := range v {
		v[i] = fs[vf.Choose(len(fs))]
		is[i] = v[i]
	}
	for _, r := range [][]byte{jin.MakeArrayFloat(v), jin.MakeArray(is...)} {
		if d := built(r, 'a', n, "MakeArrayFloat"); d != nil {
			for i := range v {
				k := d.R.Kids[i]
				f, err := strconv.ParseFloat(string(d.src(k)), 64)
				vf.Assert(err == nil && f == v[i] && k.K == 'v', "MakeArrayFloat: an element reads back as something else")
				f, err = jin.GetFloat(d.B, strconv.Itoa(i))
				vf.Assert(err == nil && f == v[i], "MakeArrayFloat: an element cannot be looked up")
			}
		}
	}
	if n == 0 {
		vf.Assert(string(jin.MakeArrayFloat(nil)) == "[]", "MakeArrayFloat: no list is no empty array")
	}
}

// H_C23_bytes: arrays of ready-made values.
func H_C23_bytes() {
	n := vf.Choose(top() + 1)
	vs := vals()
	k := vf.Choose(len(vs))
	var v [][]byte
	for i := 0; i < n; i++ {
		v = append(v, vs[(k+i)%len(vs)])
	}
	if n == 0 && vf.Choose(2) == 1 {
		v = [][]byte{}
	}
	if d := built(jin.MakeArrayBytes(v...), 'a', n, "MakeArrayBytes"); d != nil {
		for i := range v {
			vf.Eq("MakeArrayBytes: an element is another one", d.src(d.R.Kids[i]), v[i])
			g, err := jin.Get(d.B, strconv.Itoa(i))
			vf.Assert(err == nil, "MakeArrayBytes: an element cannot be looked up")
			vf.Eq("MakeArrayBytes: an element is another one", g, unq(v[i]))
		}
	}
}

func someNames(n int) []string {
	c := &ctx{key: []int{0, 1, 2, 3, 5}[vf.Choose(5)]}
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, string(c.name(i)))
	}
	return s
}

// H_C23_objects: objects from names and values.
func H_C23_objects() {
	v := someStrings(top())
	k := someNames(len(v))
	if d := built(jin.MakeJsonString(k, v), 'o', len(v), "MakeJsonString"); d != nil {
		for i := range v {
			d.holds(i, &k[i], v[i], 0, "MakeJsonString")
		}
	}
	is := make([]interface{}, len(v))
	for i, x := range v {
		is[i] = x
	}
	if d := built(jin.MakeJson(k, is), 'o', len(v), "MakeJson"); d != nil {
		for i := range v {
			d.holds(i, &k[i], v[i], 0, "MakeJson")
		}
	}
	if d := built(jin.MakeScheme(k...).MakeJson(is...), 'o', len(v), "Scheme.MakeJson"); d != nil {
		for i := range v {
			d.holds(i, &k[i], v[i], 0, "Scheme.MakeJson")
		}
	}
	m := map[string]string{}
	for i := range v {
		m[k[i]] = v[i]
	}
	if len(v) == 0 && vf.Choose(2) == 1 {
		m = nil
	}
	if d := built(jin.MakeJsonWithMap(m), 'o', len(v), "MakeJsonWithMap"); d != nil {
		for i := range v {
			g, err := jin.GetString(d.B, k[i])
			vf.Assert(err == nil && g == v[i], "MakeJsonWithMap: a value reads back as something else")
		}
	}
}

// H_C23_mixed: objects of values of several types.
func H_C23_mixed() {
	x, t := vf.Dec(3, vf.Choose(2) == 1)
	b := vf.Choose(2) == 1
	is := []interface{}{int(x), b, string([]byte{sc(), 'z'}), 2.5}
	want := []string{t, strconv.FormatBool(b), is[2].(string), "2.5"}
	kind := []byte{'v', 'v', 's', 'v'}
	k := someNames(4)
	r := vf.Choose(4)
	for i := 0; i < r; i++ {
		is, want, kind = append(is[1:], is[0]), append(want[1:], want[0]), append(kind[1:], kind[0])
	}
	if d := built(jin.MakeJson(k, is), 'o', 4, "MakeJson"); d != nil {
		for i := range is {
			d.holds(i, &k[i], want[i], kind[i], "MakeJson")
		}
	}
	if d := built(jin.MakeArray(is...), 'a', 4, "MakeArray"); d != nil {
		for i := range is {
			d.holds(i, nil, want[i], kind[i], "MakeArray")
		}
	}
}

// H_C23_lengths: name and value lists of different length.
func H_C23_lengths() {
	n, m := vf.Choose(4), vf.Choose(4)
	k, v := someNames(n), someNames(m)
	is := make([]interface{}, m)
	for i := range v {
		is[i] = v[i]
	}
	if n == 0 && vf.Choose(2) == 1 {
		k = []string{}
	}
	for _, r := range [][]byte{jin.MakeJsonString(k, v), jin.MakeJson(k, is), jin.MakeScheme(k...).MakeJson(is...), jin.MakeScheme(k...).MakeJsonString(v...)} {
		if n != m {
			vf.Assert(r == nil, "a document is built of lists of different length")
		} else {
			built(r, 'o', n, "MakeJson")
		}
	}
}

// H_C23_long: more elements than fit into the first buffer.
func H_C23_long() {
	n := []int{12, 33, 64, 65, 130}[vf.Choose(5)]
	x := sc()
	var s, k []string
	for i := 0; i < n; i++ {
		s = append(s, string([]byte{x, byte('a' + i%26), 'v'}))
		k = append(k, "k"+strconv.Itoa(i))
	}
	if d := built(jin.MakeArrayString(s), 'a', n, "MakeArrayString"); d != nil {
		for i := range s {
			vf.Assert(string(d.val(d.R.Kids[i])) == s[i], "MakeArrayString: an element reads back as something else")
		}
	}
	if d := built(jin.MakeJsonString(k, s), 'o', n, "MakeJsonString"); d != nil {
		for i := range s {
			vf.Assert(string(d.val(d.R.Kids[i])) == s[i] && string(d.R.Keys[i]) == k[i], "MakeJsonString: a member reads back as something else")
		}
	}
}

// H_C23_empty: the empty documents.
func H_C23_empty() {
	vf.Assert(string(jin.MakeEmptyArray()) == "[]", "MakeEmptyArray")
	vf.Assert(string(jin.MakeEmptyJson()) == "{}", "MakeEmptyJson")
	vf.Assert(string(jin.MakeArray()) == "[]", "MakeArray")
	vf.Assert(string(jin.MakeArrayBytes()) == "[]", "MakeArrayBytes")
}

func has(s []string, k string) bool {
	for _, x := range s {
		if x == k {
			return true
		}
	}
	return false
}

// watch is a list with the contents it had when it was obtained.
type watch struct{ list, was []string }

func watched(s []string) watch { return watch{s, append([]string{}, s...)} }

// histories runs every sequence of n operations on a scheme.
func histories(n int, style int) {
	c := &ctx{key: style}
	uni := []string{string(c.name(0)), string(c.name(1)), string(c.name(2))}
	init := append(make([]string, 0, 5), uni[:vf.Choose(4)]...)
	var lists []watch
	lists = append(lists, watched(init[:cap(init)]))
	s := jin.MakeScheme(init...)
	cur := append([]string{}, init...)
	orig := append([]string{}, init...)
	for i := 0; ; i++ {
		lists = append(lists, watched(s.GetCurrentKeys()), watched(s.GetOriginalKeys()))
		vf.Assert(eqS(s.GetCurrentKeys(), cur), "the current keys are other ones")
		vf.Assert(eqS(s.GetOriginalKeys(), orig), "the saved keys are other ones")
		for _, l := range lists {
			vf.Assert(eqS(l.list, l.was), "a list the caller holds has changed")
		}
		if i == n {
			break
		}
		op := vf.Choose(8)
		switch {
		case op < 3:
			k := uni[op]
			got := s.Add(k)
			vf.Assert(got == !has(cur, k), "Add reports something else than it did")
			if !has(cur, k) {
				cur = append(cur, k)
			}
		case op < 6:
			k := uni[op-3]
			got := s.Remove(k)
			vf.Assert(got == has(cur, k), "Remove reports something else than it did")
			var left []string
			for _, x := range cur {
				if x != k {
					left = append(left, x)
				}
			}
			cur = left
		case op == 6:
			s.Save()
			orig = append([]string{}, cur...)
		case op == 7:
			s.Restore()
			cur = append([]string{}, orig...)
		}
	}
	// what the caller does to its lists is its own business
	for _, l := range lists {
		for i := range l.list {
			l.list[i] = "~"
		}
	}
	vf.Assert(eqS(s.GetCurrentKeys(), cur), "the current keys share memory with a list of the caller")
	vf.Assert(eqS(s.GetOriginalKeys(), orig), "the saved keys share memory with a list of the caller")
	fits(s, cur, c)
	s.Restore()
	vf.Assert(eqS(s.GetCurrentKeys(), orig), "Restore brings back other keys")
}

// fits checks what a scheme of known keys makes and accepts.
func fits(s *jin.Scheme, cur []string, c *ctx) {
	v := make([]string, len(cur))
	is := make([]interface{}, len(cur))
	for i := range v {
		v[i] = "v" + strconv.Itoa(i)
		is[i] = v[i]
	}
	for _, r := range [][]byte{s.MakeJson(is...), s.MakeJsonString(v...)} {
		if d := built(r, 'o', len(cur), "an instance of the scheme"); d != nil {
			for i := range v {
				d.holds(i, &cur[i], v[i], 0, "an instance of the scheme")
			}
			vf.Assert(s.Check(r), "an instance does not fit its scheme")
			vf.Assert(s.CheckAbs(r), "an instance does not fit its scheme absolutely")
		}
	}
	vf.Assert(s.MakeJsonString(append(v, "more")...) == nil, "an instance has more values than keys")
}

func H_C24_history() {
	if vf.Thorough() {
		histories(6, 1)
		return
	}
	histories(5, 1)
}

func H_C24_styles() { histories(2, []int{0, 2, 3, 5}[vf.Choose(4)]) }

// H_C24_fit: the fit checks on documents with any of the names.
func H_C24_fit() {
	c := ctx{key: []int{0, 1, 3, 5}[vf.Choose(4)], ws: []int{0, 1}[vf.Choose(2)]}
	// a name no scheme has: another one, or the empty one.
	odd := string(c.name(3))
	if vf.Choose(2) == 1 {
		odd = ""
	}
	uni := []string{string(c.name(0)), string(c.name(1)), string(c.name(2))}
	var keys []string
	for _, k := range uni {
		if vf.Choose(2) == 1 {
			keys = append(keys, k)
		}
	}
	if len(keys) > 1 && vf.Choose(2) == 1 {
		keys[0], keys[len(keys)-1] = keys[len(keys)-1], keys[0]
	}
	d := &N{K: 'o'}
	var names []string
	in := &N{K: 'o'}
	for i, k := range uni {
		in.Keys = append(in.Keys, []byte(k))
		in.Kids = append(in.Kids, &N{K: 'v', T: []byte{byte('0' + i)}})
	}
	decoy := vf.Choose(3)
	for i, k := range append(uni, odd) {
		if vf.Choose(2) == 1 {
			names = append(names, k)
			d.Keys = append(d.Keys, []byte(k))
			n := &N{K: 's', T: []byte(uni[(i+1)%3])}
			if decoy == 1 {
				n = in
			} else if decoy == 2 && i > 0 {
				n = &N{K: 'a', Kids: []*N{in, {K: 'v', T: []byte("1")}}}
			}
			d.Kids = append(d.Kids, n)
		}
	}
	all, abs := true, len(keys) == len(names)
	for _, k := range keys {
		all = all && has(names, k)
	}
	for _, k := range names {
		abs = abs && has(keys, k)
	}
	r := render(d, c)
	s := jin.MakeScheme(keys...)
	vf.Assert(s.Check(r.B) == all, "the fit check is wrong")
	vf.Assert(s.CheckAbs(r.B) == (all && abs), "the absolute fit check is wrong")
	m, err := s.MutateJsonAbs(r.B)
	vf.Assert((err == nil) == all, "MutateJsonAbs is wrong about missing names")
	ms := [][]byte{m}
	if !all {
		ms = nil
	}
	m, err = s.MutateJson(r.B)
	vf.Assert(err == nil, "MutateJson fails")
	for _, m := range append(ms, m) {
		if e := built(m, 'o', len(keys), "MutateJson"); e != nil {
			for i, k := range keys {
				want := ""
				if has(names, k) {
					for _, a := range r.all() {
						if len(a.path) == 1 && a.path[0] == k {
							want = string(r.val(a.n))
						}
					}
				}
				e.holds(i, &keys[i], want, 0, "MutateJson")
			}
		}
	}
}
