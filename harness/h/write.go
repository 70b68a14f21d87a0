package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// place is where a family of typed writers puts its value.
type place struct {
	path []string // argument
	key  string
	i    int
	read []string // where the value is found afterwards
}

// family tells where the operations of a family write in target.
func family(name string) []place {
	has := func(p string) bool { return len(name) >= len(p) && name[:len(p)] == p }
	P := func(s ...string) []string { return s }
	switch {
	case has("AddKeyValue"):
		return []place{
			{nil, "nw", 0, P("nw")},
			{P("o"), "nw", 0, P("o", "nw")},
			{P("e"), "nw", 0, P("e", "nw")},
			{P("a", "1"), "nw", 0, P("a", "1", "nw")},
		}
	case has("Add"):
		return []place{{P("a"), "", 0, P("a", "2")}, {P("l"), "", 0, P("l", "0")}, {P("o", "b"), "", 0, P("o", "b", "1")}}
	case has("Insert"):
		return []place{{P("a"), "", 0, P("a", "0")}, {P("a"), "", 1, P("a", "1")}, {P("o", "b"), "", 0, P("o", "b", "0")}}
	case has("Store"):
		return []place{
			{nil, "s", 0, P("s")},
			{nil, "nw", 0, P("nw")},
			{P("a"), "1", 0, P("a", "1")},
			{P("o"), "nw", 0, P("o", "nw")},
			{P("e"), "nw", 0, P("e", "nw")},
		}
	}
	return []place{{P("s"), "", 0, P("s")}, {P("o"), "", 0, P("o")}, {P("a", "0"), "", 0, P("a", "0")}, {P("a", "1", "z"), "", 0, P("a", "1", "z")}}
}

func target() []byte {
	ws := ""
	if vf.Choose(2) == 1 {
		ws = string([]byte{vf.ByteIn(wsSet)})
	}
	return []byte(`{` + ws + `"s":"old"` + ws + `,"o":{"b":[` + ws + `"x"]},"a":[1,` + ws + `{"z":null}],"e":{},"l":[]` + ws + `}`)
}

// writers picks an operation of one type and a form of it; the result is the
// document afterwards.
func writers(suffix ...string) (string, func(b []byte, a *args) ([]byte, error)) {
	var cs []call
	for _, c := range edits() {
		for _, s := range suffix {
			if len(c.name) > len(s) && c.name[len(c.name)-len(s):] == s {
				if s != "Int" || c.name != "AddKeyValueUint" && c.name != "AddUint" && c.name != "InsertUint" {
					cs = append(cs, c)
				}
			}
		}
	}
	c := cs[vf.Choose(len(cs))]
	forms := []int{0}
	if c.j != nil {
		forms = append(forms, 1)
	}
	if c.p != nil {
		forms = append(forms, 2)
	}
	switch forms[vf.Choose(len(forms))] {
	case 1:
		return c.name, func(b []byte, a *args) ([]byte, error) { o := c.j(jin.New(b), a); return o.doc, o.err }
	case 2:
		return c.name, func(b []byte, a *args) ([]byte, error) {
			p, err := jin.Parse(b)
			if err != nil {
				return nil, err
			}
			o := c.p(p, a)
			if o.err == nil {
				v, err := p.Get(a.keys...)
				w, _ := jin.Get(o.doc, a.keys...)
				vf.Assert(err == nil, c.name+": the parsed document does not find what was written")
				vf.Eq(c.name+": the parsed document finds something else than was written", v, w)
			}
			return o.doc, o.err
		}
	}
	return c.name, func(b []byte, a *args) ([]byte, error) { o := c.f(b, a); return o.doc, o.err }
}

// write does the write at every place and asserts that text comes back.
func write(name string, run func(b []byte, a *args) ([]byte, error), a args, text string, quoted int) {
	for _, p := range family(name) {
		b := target()
		a.path, a.key, a.i, a.keys = p.path, p.key, p.i, p.read
		r, err := run(b, &a)
		vf.Assert(err == nil, name+": a write fails")
		if err != nil {
			continue
		}
		d := scan(r)
		vf.Assert(d != nil, name+": the document is not well-formed any more")
		if d == nil {
			continue
		}
		v, err := jin.GetString(r, p.read...)
		vf.Assert(err == nil, name+": what was written cannot be read")
		vf.Assert(v == text, name+": what was written reads back as something else")
		for _, x := range d.all() {
			if len(x.path) == len(p.read) && eqS(x.path, p.read) {
				switch quoted {
				case 0:
					vf.Assert(x.n.K == 'v', name+": a number or boolean is written as a string")
				case 1:
					vf.Assert(x.n.K == 's', name+": a string is not written as a string")
				}
			}
		}
	}
}

// H_C28_int: integers of every width.
func H_C28_int() {
	name, run := writers("Int", "Int32", "Int64", "Uint", "Uint32", "Uint64")
	nd := []int{1, 2, 5, 9, 10, 18}[vf.Choose(6)]
	uns := len(name) > 6 && (name[len(name)-4:] == "Uint" || name[len(name)-6:] == "Uint32" || name[len(name)-6:] == "Uint64")
	if nd > 9 && name[len(name)-2:] == "32" {
		return
	}
	n, txt := vf.Dec(nd, !uns && vf.Choose(2) == 1)
	write(name, run, args{n: int(n)}, txt, 0)
}

// H_C28_edges: the first and last numbers of every width.
func H_C28_edges() {
	b := target()
	p := []string{"o"}
	check := func(name string, r []byte, err error, want string) {
		vf.Assert(err == nil, name+": a write fails")
		v, err := jin.GetString(r, "o", "nw")
		vf.Assert(err == nil && v == want, name+": what was written reads back as something else")
	}
	i64 := []int64{-9223372036854775808, 9223372036854775807, -2147483649, 4294967296, 0}[vf.Choose(5)]
	s := strconv.FormatInt(i64, 10)
	r, err := jin.AddKeyValueInt64(b, "nw", i64, p...)
	check("AddKeyValueInt64", r, err, s)
	r, err = jin.AddKeyValueInt(b, "nw", int(i64), p...)
	check("AddKeyValueInt", r, err, s)
	r, err = jin.StoreInt(b, "nw", int(i64), p...)
	check("StoreInt", r, err, s)
	u64 := []uint64{18446744073709551615, 9223372036854775808, 4294967295, 0, 4294967296}[vf.Choose(5)]
	s = strconv.FormatUint(u64, 10)
	r, err = jin.AddKeyValueUint64(b, "nw", u64, p...)
	check("AddKeyValueUint64", r, err, s)
	r, err = jin.AddKeyValueUint(b, "nw", uint(u64), p...)
	check("AddKeyValueUint", r, err, s)
	i32 := []int32{-2147483648, 2147483647, 0, -1}[vf.Choose(4)]
	r, err = jin.AddKeyValueInt32(b, "nw", i32, p...)
	check("AddKeyValueInt32", r, err, strconv.FormatInt(int64(i32), 10))
	u32 := []uint32{4294967295, 2147483648, 0}[vf.Choose(3)]
	r, err = jin.AddKeyValueUint32(b, "nw", u32, p...)
	check("AddKeyValueUint32", r, err, strconv.FormatUint(uint64(u32), 10))
	last := func(name string, r []byte, err error, want string) {
		vf.Assert(err == nil, name+": a write fails")
		v, err := jin.GetString(r, "a", "2")
		vf.Assert(err == nil && v == want, name+": what was written reads back as something else")
	}
	p = []string{"a"}
	r, err = jin.AddInt64(b, i64, p...)
	last("AddInt64", r, err, strconv.FormatInt(i64, 10))
	r, err = jin.AddInt(b, int(i64), p...)
	last("AddInt", r, err, strconv.FormatInt(i64, 10))
	r, err = jin.AddUint64(b, u64, p...)
	last("AddUint64", r, err, s)
	r, err = jin.AddUint(b, uint(u64), p...)
	last("AddUint", r, err, s)
	r, err = jin.AddInt32(b, i32, p...)
	last("AddInt32", r, err, strconv.FormatInt(int64(i32), 10))
	r, err = jin.AddUint32(b, u32, p...)
	last("AddUint32", r, err, strconv.FormatUint(uint64(u32), 10))
	first := func(name string, r []byte, err error, want string) {
		vf.Assert(err == nil, name+": a write fails")
		v, err := jin.GetString(r, "a", "1")
		vf.Assert(err == nil && v == want, name+": what was written reads back as something else")
	}
	r, err = jin.InsertInt64(b, 1, i64, p...)
	first("InsertInt64", r, err, strconv.FormatInt(i64, 10))
	r, err = jin.InsertInt(b, 1, int(i64), p...)
	first("InsertInt", r, err, strconv.FormatInt(i64, 10))
	r, err = jin.InsertUint64(b, 1, u64, p...)
	first("InsertUint64", r, err, s)
	r, err = jin.InsertUint(b, 1, uint(u64), p...)
	first("InsertUint", r, err, s)
	r, err = jin.InsertInt32(b, 1, i32, p...)
	first("InsertInt32", r, err, strconv.FormatInt(int64(i32), 10))
	r, err = jin.InsertUint32(b, 1, u32, p...)
	first("InsertUint32", r, err, strconv.FormatUint(uint64(u32), 10))
}

// H_C28_float: floats, in decimal notation.
func H_C28_float() {
	fs := []float64{0, 1, -1, 0.5, -0.1, 100, 1e21, 1e22, -1e-7, 123456789.125, 9007199254740993, 1.7976931348623157e308, 5e-324, 3.4028234663852886e38, 0.30000000000000004, 16777217}
	f := fs[vf.Choose(len(fs))]
	name, run := writers("Float")
	txt := strconv.FormatFloat(f, 'f', -1, 64)
	g, err := strconv.ParseFloat(txt, 64)
	vf.Assert(err == nil && g == f, "the oracle is wrong")
	write(name, run, args{f: f}, txt, 0)
}

// H_C28_bool: booleans.
func H_C28_bool() {
	name, run := writers("Bool")
	t := vf.Choose(2) == 1
	txt := "false"
	if t {
		txt = "true"
	}
	write(name, run, args{t: t}, txt, 0)
}

// H_C28_text: strings of any characters.
func H_C28_text() {
	name, run := writers("String")
	n := vf.Choose(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = sc()
	}
	// what looks like a container is taken for one
	if n > 1 {
		vf.Assume(!(b[0] == '[' && b[n-1] == ']') && !(b[0] == '{' && b[n-1] == '}'))
	}
	write(name, run, args{s: string(b)}, string(b), -1)
}

// H_C28_escaped: strings with escapes.
func H_C28_escaped() {
	name, run := writers("String")
	var b []byte
	switch vf.Choose(5) {
	case 0:
		b = []byte{'\\', es()}
	case 1:
		b = []byte{'\\', es(), sc()}
	case 2:
		b = []byte{sc(), '\\', es()}
	case 3:
		b = []byte{'\\', es(), '\\', es()}
	case 4:
		b = []byte{'{', '\\', es(), sc()}
		vf.Assume(b[3] != '}')
	}
	write(name, run, args{s: string(b)}, string(b), 1)
}

// H_C28_numlike: strings that look like numbers, more or less.
func H_C28_numlike() {
	name, run := writers("String")
	n := vf.Choose(3) + 2
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("019+-.eE")
	}
	if !vf.Thorough() && n == 4 {
		b[1] = vf.ByteIn("0.e")
	}
	write(name, run, args{s: string(b)}, string(b), -1)
}

// H_C28_words: strings that look like words of JSON or Go.
func H_C28_words() {
	words := []string{"true", "false", "null", "True", "NULL", "nil", "NaN", "nan", "Inf", "+Inf", "-inf", "Infinity", "-Infinity", "0x1F", "0X1p-2", "0x1p4", "0b1", "0o7", "1_000", "0x_1p0", "1e999", "-1e999", "1e5", "1E+5", "01", "007", "-01", "00", "-00", "0123456789012", "00.5", "2147483648", "-2147483649", "9223372036854775808", "99999999999999999999999", "-0", "1.", ".1", "-.5", "+1", "1e", "1e+", "--1", "-", "+", ".", "e", "1 ", " 1", "1 2", "0.1.2", "t", "tru", "truee", "nulll", "1true", "undefined", ",", ":", "1,2", "a:b", "[", "]", "{", "}", "{]", "[}", "'", "1d", "1f", "0.10", "1e-07"}
	w := words[vf.Choose(len(words))]
	name, run := writers("String")
	write(name, run, args{s: w}, w, -1)
}
