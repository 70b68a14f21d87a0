package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// reader is one of the three ways to read typed values.
type reader struct {
	name string
	get  func(...string) ([]byte, error)
	str  func(...string) (string, error)
	i    func(...string) (int, error)
	f    func(...string) (float64, error)
	b    func(...string) (bool, error)
	sa   func(...string) ([]string, error)
	ia   func(...string) ([]int, error)
	fa   func(...string) ([]float64, error)
	ba   func(...string) ([]bool, error)
}

func readers(b []byte) []reader {
	rs := []reader{{
		"function",
		func(p ...string) ([]byte, error) { return jin.Get(b, p...) },
		func(p ...string) (string, error) { return jin.GetString(b, p...) },
		func(p ...string) (int, error) { return jin.GetInt(b, p...) },
		func(p ...string) (float64, error) { return jin.GetFloat(b, p...) },
		func(p ...string) (bool, error) { return jin.GetBool(b, p...) },
		func(p ...string) ([]string, error) { return jin.GetStringArray(b, p...) },
		func(p ...string) ([]int, error) { return jin.GetIntArray(b, p...) },
		func(p ...string) ([]float64, error) { return jin.GetFloatArray(b, p...) },
		func(p ...string) ([]bool, error) { return jin.GetBoolArray(b, p...) },
	}}
	j := jin.New(cp(b))
	rs = append(rs, reader{"JSON object", j.Get, j.GetString, j.GetInt, j.GetFloat, j.GetBool, j.GetStringArray, j.GetIntArray, j.GetFloatArray, j.GetBoolArray})
	p, err := jin.Parse(cp(b))
	vf.Assert(err == nil, "a well-formed document does not parse")
	return append(rs, reader{"parser", p.Get, p.GetString, p.GetInt, p.GetFloat, p.GetBool, p.GetStringArray, p.GetIntArray, p.GetFloatArray, p.GetBoolArray})
}

// holder wraps one value in a document and gives its path.
func holder(text string) (*D, []string) {
	c := ctx{key: 1, ws: []int{0, 1, 2, 9, 10}[vf.Choose(5)]}
	n := &N{K: 'v', T: []byte(text)}
	o := func(k ...*N) *N {
		r := &N{K: 'o', Kids: k}
		for i := range k {
			r.Keys = append(r.Keys, c.name(i))
		}
		return r
	}
	one := &N{K: 'v', T: []byte("7")}
	var r *N
	var p []string
	switch vf.Choose(5) {
	case 0:
		r, p = o(n), []string{string(c.name(0))}
	case 1:
		r, p = &N{K: 'a', Kids: []*N{n}}, []string{"0"}
	case 2:
		r, p = o(one, n), []string{string(c.name(1))}
	case 3:
		r, p = &N{K: 'a', Kids: []*N{o(one), {K: 'a', Kids: []*N{one, n, one}}}}, []string{"1", "1"}
	case 4:
		r, p = o(o(n, one), one), []string{string(c.name(0)), string(c.name(0))}
	}
	return render(r, c), p
}

func digits(n int) []byte {
	b := []byte{vf.ByteIn("123456789")}
	for i := 1; i < n; i++ {
		b = append(b, dig())
	}
	return b
}

// H_C18_int: every integer text of up to 19 digits.
func H_C18_int() {
	nd := vf.Choose(19) + 1
	neg := vf.Choose(2) == 1
	var ds []byte
	if nd < 19 {
		ds = digits(nd)
	} else {
		ds = []byte("922337203685477")
		for len(ds) < nd {
			ds = append(ds, dig())
		}
	}
	var want uint64
	for _, c := range ds {
		want = want*10 + uint64(c-'0')
	}
	limit := "9223372036854775807"
	txt := string(ds)
	if neg {
		limit = "9223372036854775808"
		txt = "-" + txt
	}
	fits := nd < 19 || string(ds) <= limit
	if neg {
		want = -want
	}
	d, p := holder(txt)
	for _, r := range readers(d.B) {
		v, err := r.i(p...)
		if fits {
			vf.Assert(err == nil, r.name+": GetInt refuses an integer")
			vf.Assert(uint64(v) == want, r.name+": GetInt returns another number")
		} else {
			vf.Assert(jin.ErrEqual(err, jin.ErrCodeIntegerParse), r.name+": GetInt accepts an overflow")
		}
	}
}

// H_C18_notint: texts that denote no integer, or a known one.
func H_C18_notint() {
	texts := []string{"1.5", "1e2", "0.0", "true", "null", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999", `""`, `"x"`, `"1 "`, `" 1"`, `"1.0"`, "[]", "{}", "[1]", `{"a":1}`, `"0x10"`, `"1_000"`, `"-"`}
	good := []string{"0", "-0", "9223372036854775807", "-9223372036854775808"}
	vals := []int{0, 0, 9223372036854775807, -9223372036854775808}
	k := vf.Choose(len(texts) + len(good))
	if k < len(texts) {
		d, p := holder(texts[k])
		for _, r := range readers(d.B) {
			_, err := r.i(p...)
			vf.Assert(jin.ErrEqual(err, jin.ErrCodeIntegerParse), r.name+": GetInt accepts what is no integer")
		}
		return
	}
	k -= len(texts)
	d, p := holder(good[k])
	for _, r := range readers(d.B) {
		v, err := r.i(p...)
		vf.Assert(err == nil && v == vals[k], r.name+": GetInt returns another number")
	}
}

// H_C18_strint: strings of any characters read as integers.
func H_C18_strint() {
	n := vf.Choose(4) + 1
	b := make([]byte, n)
	for i := range b {
		b[i] = sc()
	}
	vf.Assume(b[0] != '+')
	is := true
	want := 0
	for i, c := range b {
		if c >= '0' && c <= '9' {
			want = want*10 + int(c-'0')
		} else if i > 0 || c != '-' || n == 1 {
			is = false
		}
	}
	if b[0] == '-' {
		want = -want
	}
	d, p := holder(`"` + string(b) + `"`)
	for _, r := range readers(d.B) {
		v, err := r.i(p...)
		if is {
			vf.Assert(err == nil && v == want, r.name+": GetInt returns another number")
		} else {
			vf.Assert(jin.ErrEqual(err, jin.ErrCodeIntegerParse), r.name+": GetInt accepts what is no integer")
		}
	}
}

func floatIs(r reader, p []string, txt string) {
	want, e := strconv.ParseFloat(txt, 64)
	v, err := r.f(p...)
	if e != nil {
		vf.Assert(jin.ErrEqual(err, jin.ErrCodeFloatParse), r.name+": GetFloat accepts what is no number")
	} else {
		vf.Assert(err == nil, r.name+": GetFloat refuses a number")
		vf.Assert(v == want, r.name+": GetFloat returns another number")
	}
}

// H_C18_float: number texts of every form.
func H_C18_float() {
	var b []byte
	if vf.Choose(2) == 1 {
		b = append(b, '-')
	}
	b = append(b, digits(vf.Choose(3)+1)...)
	if k := vf.Choose(3); k > 0 {
		b = append(b, '.')
		for i := 0; i < k; i++ {
			b = append(b, dig())
		}
	}
	switch vf.Choose(3) {
	case 1:
		b = append(b, vf.ByteIn("eE"), dig())
	case 2:
		b = append(b, vf.ByteIn("eE"), vf.ByteIn("+-"), dig(), dig())
	}
	d, p := holder(string(b))
	for _, r := range readers(d.B) {
		floatIs(r, p, string(b))
	}
}

func H_C18_floatlist() {
	texts := []string{"0", "-0", "0.1", "1e308", "1.7976931348623157e308", "1e309", "-1e309", "5e-324", "1e-400", "0.30000000000000004", "123456789012345678901234567890", "9007199254740993", "true", "null", `"x"`, `""`, "[]", "{}", "[1]", `"1.5.2"`, `"1,5"`, `"1 "`, `"--1"`, `"1e"`}
	t := texts[vf.Choose(len(texts))]
	d, p := holder(t)
	for _, r := range readers(d.B) {
		floatIs(r, p, string(unq([]byte(t))))
	}
}

// H_C18_bool: any text of up to five characters.
func H_C18_bool() {
	n := vf.Choose(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = sc()
	}
	d, p := holder(`"` + string(b) + `"`)
	s := string(b)
	for _, r := range readers(d.B) {
		v, err := r.b(p...)
		switch {
		case s == "true":
			vf.Assert(err == nil && v, r.name+": GetBool of true")
		case s == "false":
			vf.Assert(err == nil && !v, r.name+": GetBool of false")
		default:
			vf.Assert(jin.ErrEqual(err, jin.ErrCodeBoolParse) && !v, r.name+": GetBool accepts what is no truth value")
		}
	}
}

func H_C18_boollist() {
	texts := []string{"true", "false", "null", "0", "1", "[]", "[true]", "{}", `{"a":true}`, `"true "`, `"True"`}
	k := vf.Choose(len(texts))
	d, p := holder(texts[k])
	for _, r := range readers(d.B) {
		v, err := r.b(p...)
		if k < 2 {
			vf.Assert(err == nil && v == (k == 0), r.name+": GetBool of a truth value")
		} else {
			vf.Assert(jin.ErrEqual(err, jin.ErrCodeBoolParse) && !v, r.name+": GetBool accepts what is no truth value")
		}
	}
}

// H_C18_missing: a path to nothing gives an error from every getter.
func H_C18_missing() {
	d := doc(stylesFew, 1, 2, 2)
	for _, r := range readers(d.B) {
		for _, m := range d.misses(false) {
			_, err1 := r.i(m.path...)
			_, err2 := r.f(m.path...)
			_, err3 := r.b(m.path...)
			_, err4 := r.str(m.path...)
			vf.Assert(err1 != nil && err2 != nil && err3 != nil && err4 != nil, r.name+": a scalar getter accepts a missing path")
		}
		for _, a := range d.all() {
			s, err := r.str(a.path...)
			vf.Assert(err == nil, r.name+": GetString fails")
			vf.Eq(r.name+": GetString returns the value's text", []byte(s), d.val(a.n))
		}
	}
}

// arrayDoc puts an array of the given elements into a document.
func arrayDoc(c ctx, kids []*N) (*D, at) {
	arr := &N{K: 'a', Kids: kids}
	one := &N{K: 'v', T: []byte("7")}
	var r *N
	var p []string
	switch vf.Choose(3) {
	case 0:
		r = arr
	case 1:
		r, p = &N{K: 'o', Keys: [][]byte{c.name(0)}, Kids: []*N{arr}}, []string{string(c.name(0))}
	case 2:
		r, p = &N{K: 'a', Kids: []*N{one, arr, {K: 'a', Kids: []*N{one}}}}, []string{"1"}
	}
	return render(r, c), at{path: p, n: arr}
}

// readersAt drops the readers that do not offer the whole document: Get
// without a path hands back the text with its outer whitespace.
func arrayReaders(d *D, a at) []reader {
	if len(a.path) == 0 && (d.B[0] != '[' || d.B[len(d.B)-1] != ']') {
		return nil
	}
	return readers(d.B)
}

func checkStrArray(c ctx, kids []*N) {
	d, a := arrayDoc(c, kids)
	n := a.n
	for _, r := range arrayReaders(d, a) {
		v, err := r.sa(a.path...)
		vf.Assert(err == nil, r.name+": GetStringArray fails")
		list(r.name+": GetStringArray", v, len(n.Kids), func(i int) []byte { return d.val(n.Kids[i]) })
	}
	v := jin.ParseArray(string(d.src(n)))
	list("ParseArray", v, len(n.Kids), func(i int) []byte { return d.val(n.Kids[i]) })
}

func H_C19_strings() {
	c := style(stylesAll)
	var kids []*N
	for i := vf.Choose(4); i > 0; i-- {
		kids = append(kids, c.tree(0, 0, 4))
	}
	checkStrArray(c, kids)
}

func H_C19_nested() {
	c := style(stylesAll)
	var kids []*N
	for i := vf.Choose(3); i > 0; i-- {
		kids = append(kids, c.tree(1, 2, 1))
	}
	checkStrArray(c, kids)
}

// wsStyles are the whitespace styles that matter inside arrays.
var wsStyles = []int{0, 1, 2, 5, 8, 9, 10, 12}

func wsCtx() ctx { return ctx{key: 1, ws: wsStyles[vf.Choose(len(wsStyles))]} }

func H_C19_ints() {
	c := wsCtx()
	var kids []*N
	var want []int
	for i := vf.Choose(4); i > 0; i-- {
		n, t := vf.Dec(vf.Choose(3)+1, vf.Choose(2) == 1)
		kids = append(kids, &N{K: 'v', T: []byte(t)})
		want = append(want, int(n))
	}
	d, a := arrayDoc(c, kids)
	for _, r := range arrayReaders(d, a) {
		v, err := r.ia(a.path...)
		vf.Assert(err == nil, r.name+": GetIntArray fails")
		vf.Assert(len(v) == len(want), r.name+": GetIntArray has the wrong number of entries")
		for i := range want {
			vf.Assert(v[i] == want[i], r.name+": GetIntArray has a wrong entry")
		}
	}
}

func H_C19_floats() {
	c := wsCtx()
	var kids []*N
	var want []float64
	for i := vf.Choose(4); i > 0; i-- {
		b := []byte{dig()}
		switch vf.Choose(3) {
		case 1:
			b = []byte{'-', dig(), '.', dig()}
		case 2:
			b = []byte{dig(), 'e', dig()}
		}
		kids = append(kids, &N{K: 'v', T: b})
		f, _ := strconv.ParseFloat(string(b), 64)
		want = append(want, f)
	}
	d, a := arrayDoc(c, kids)
	for _, r := range arrayReaders(d, a) {
		v, err := r.fa(a.path...)
		vf.Assert(err == nil, r.name+": GetFloatArray fails")
		vf.Assert(len(v) == len(want), r.name+": GetFloatArray has the wrong number of entries")
		for i := range want {
			vf.Assert(v[i] == want[i], r.name+": GetFloatArray has a wrong entry")
		}
	}
}

func H_C19_bools() {
	c := wsCtx()
	var kids []*N
	var want []bool
	for i := vf.Choose(4); i > 0; i-- {
		t := vf.Choose(2) == 1
		want = append(want, t)
		kids = append(kids, &N{K: 'v', T: []byte(strconv.FormatBool(t))})
	}
	d, a := arrayDoc(c, kids)
	for _, r := range arrayReaders(d, a) {
		v, err := r.ba(a.path...)
		vf.Assert(err == nil, r.name+": GetBoolArray fails")
		vf.Assert(len(v) == len(want), r.name+": GetBoolArray has the wrong number of entries")
		for i := range want {
			vf.Assert(v[i] == want[i], r.name+": GetBoolArray has a wrong entry")
		}
	}
}

// H_C19_texts: elements that are strings of any characters, read as numbers
// exactly as the scalar getters' texts are.
func H_C19_texts() {
	c := ctx{key: 1, ws: vf.Choose(2)}
	n := vf.Choose(3) + 1
	at := vf.Choose(n)
	var kids []*N
	for i := 0; i < n; i++ {
		kids = append(kids, &N{K: 'v', T: []byte("7")})
	}
	b := make([]byte, vf.Choose(4)+1)
	for i := range b {
		b[i] = sc()
	}
	// a spelled plus and a bracketed text are outside the claims.
	vf.Assume(b[0] != '+')
	kids[at] = &N{K: 's', T: b}
	is := true
	want := 0
	for i, x := range b {
		if x >= '0' && x <= '9' {
			want = want*10 + int(x-'0')
		} else if i > 0 || x != '-' || len(b) == 1 {
			is = false
		}
	}
	if b[0] == '-' {
		want = -want
	}
	s := string(b)
	d, a := arrayDoc(c, kids)
	for _, r := range arrayReaders(d, a) {
		v, err := r.ia(a.path...)
		vf.Assert((err == nil) == is, r.name+": GetIntArray is wrong about what is an integer")
		if is {
			vf.Assert(len(v) == n && v[at] == want, r.name+": GetIntArray has a wrong entry")
		}
		_, err = r.ba(a.path...)
		vf.Assert((err == nil) == (n == 1 && (s == "true" || s == "false")), r.name+": GetBoolArray is wrong about what is a truth value")
		e, err := r.sa(a.path...)
		vf.Assert(err == nil && len(e) == n && e[at] == s, r.name+": GetStringArray has a wrong entry")
	}
}

// H_C19_lists: elements whose text is one of a list, as floats and integers.
func H_C19_lists() {
	c := ctx{key: 1, ws: vf.Choose(2)}
	n := vf.Choose(3) + 1
	at := vf.Choose(n)
	var kids []*N
	for i := 0; i < n; i++ {
		kids = append(kids, &N{K: 'v', T: []byte{dig()}})
	}
	texts := []string{"0", "-0", "0.1", "1e2", "1e308", "1e309", "5e-324", "0.30000000000000004", "9007199254740993", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "true", "null", `"x"`, `""`, `"1.5.2"`, `"1 "`, `"--1"`, `"1e"`, `"0x1F"`, `"010"`, `"0b1"`, `"0o7"`, `"1_0"`}
	t := texts[vf.Choose(len(texts))]
	kids[at] = &N{K: 'v', T: []byte(t)}
	x := string(unq([]byte(t)))
	f, e1 := strconv.ParseFloat(x, 64)
	k, e2 := strconv.Atoi(x)
	d, a := arrayDoc(c, kids)
	for _, r := range arrayReaders(d, a) {
		v, err := r.fa(a.path...)
		vf.Assert((err == nil) == (e1 == nil), r.name+": GetFloatArray is wrong about what is a number")
		if err == nil {
			vf.Assert(len(v) == n && v[at] == f, r.name+": GetFloatArray has a wrong entry")
		}
		w, err := r.ia(a.path...)
		vf.Assert((err == nil) == (e2 == nil), r.name+": GetIntArray is wrong about what is an integer")
		if err == nil {
			vf.Assert(len(w) == n && w[at] == k, r.name+": GetIntArray has a wrong entry")
		}
	}
}

// H_C19_bad: one element that does not convert, at any place.
func H_C19_bad() {
	c := wsCtx()
	n := vf.Choose(3) + 1
	at := vf.Choose(n)
	bad := []string{"x", "[1]", "{}", "[]", "null", ""}[vf.Choose(6)]
	kind := vf.Choose(3)
	var kids []*N
	for i := 0; i < n; i++ {
		k := &N{K: 'v', T: []byte{dig()}}
		if kind == 2 {
			k.T = []byte("true")
		}
		if i == at {
			k = &N{K: 'v', T: []byte(bad)}
			if bad == "x" || bad == "" {
				k.K = 's'
			}
		}
		kids = append(kids, k)
	}
	d, a := arrayDoc(c, kids)
	for _, r := range arrayReaders(d, a) {
		var err error
		switch kind {
		case 0:
			_, err = r.ia(a.path...)
		case 1:
			_, err = r.fa(a.path...)
		case 2:
			_, err = r.ba(a.path...)
		}
		vf.Assert(err != nil, r.name+": an element that does not convert is accepted")
	}
}

// H_C19_notarray: anything but an array, and paths to nothing.
func H_C19_notarray() {
	d := doc(stylesFew, 2, 2, 3)
	for _, r := range readers(d.B) {
		for _, a := range d.all() {
			if a.n.K == 'a' {
				continue
			}
			// what a string that holds an array's text gives is unspecified.
			if t := a.n.T; a.n.K == 's' && len(t) > 1 && t[0] == '[' && t[len(t)-1] == ']' {
				continue
			}
			_, err1 := r.sa(a.path...)
			_, err2 := r.ia(a.path...)
			_, err3 := r.fa(a.path...)
			_, err4 := r.ba(a.path...)
			vf.Assert(err1 != nil && err2 != nil && err3 != nil && err4 != nil, r.name+": an array comes from something that is not one")
		}
		for _, m := range d.misses(false) {
			_, err1 := r.sa(m.path...)
			_, err2 := r.ia(m.path...)
			_, err3 := r.fa(m.path...)
			_, err4 := r.ba(m.path...)
			vf.Assert(err1 != nil && err2 != nil && err3 != nil && err4 != nil, r.name+": an array comes from a missing path")
		}
	}
}
