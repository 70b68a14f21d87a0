package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// long is n bytes of text.
func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return string(b)
}

// nested puts in inside n arrays or objects, one in the other.
func nested(n int, open, in, shut string) string {
	b := make([]byte, 0, n*(len(open)+len(shut))+len(in))
	for i := 0; i < n; i++ {
		b = append(b, open...)
	}
	b = append(b, in...)
	for i := 0; i < n; i++ {
		b = append(b, shut...)
	}
	return string(b)
}

// enum lists n things made of a number, with something else in place of one.
func enum(n int, f func(i int) string, at int, other string) string {
	var b []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if i == at {
			b = append(b, other...)
		} else {
			b = append(b, f(i)...)
		}
	}
	return string(b)
}

// pretty puts every element on a line of its own.
func pretty(s, nl, tab string) string {
	var b []byte
	in, level := false, 0
	line := func() {
		b = append(b, nl...)
		for i := 0; i < level; i++ {
			b = append(b, tab...)
		}
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in {
			b = append(b, c)
			if c == '\\' {
				i++
				b = append(b, s[i])
			}
			in = c != '"'
			continue
		}
		switch c {
		case '"':
			in = true
			b = append(b, c)
		case '[', '{':
			b = append(b, c)
			level++
			line()
		case ']', '}':
			level--
			line()
			b = append(b, c)
		case ',':
			b = append(b, c)
			line()
		case ':':
			b = append(b, ": "...)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

const nVast = 17

// vastText is a template of a document beyond every small bound.
func vastText(k int) string {
	num := func(i int) string { return strconv.Itoa(i) }
	switch k {
	case 0: // elements
		return `[` + enum(260, num, 128, `["~",{"a":#}]`) + `]`
	case 1: // members
		return `{` + enum(260, func(i int) string { return `"m` + num(i) + `":` + num(i) }, 129, `"x~":{"a":["~"]}`) + `}`
	case 2: // strings
		return `{"a":"` + long(300) + `~","b":["` + long(140) + `\"` + long(140) + `~",#],"c":{"d":"` + long(1100) + `","e":#}}`
	case 3: // names
		return `{"` + long(300) + `":{"` + long(299) + `":#,"` + long(130) + `~":["~"]},"` + long(301) + `":2,"z":"~"}`
	case 4: // levels of arrays
		return nested(260, `[`, `"~",#`, `,1]`)
	case 5: // levels of objects
		return nested(260, `{"k":`, `["~",#]`, `,"l":1}`)
	case 6: // whitespace
		w := "\n" + nested(270, "", "", " \t")
		return w + `{` + w + `"a"` + w + `:` + w + `[` + w + `"~"` + w + `,` + w + `#` + w + `]` + w + `,` + w + `"b"` + w + `:` + w + `{}` + w + `}` + w
	case 7: // escapes
		return `{"a":"` + nested(140, `\\`, "", "") + `","` + nested(140, `\"`, "~", "") + `":["` + nested(140, `\"`, "~", `\\`) + `","` + nested(131, `\\`, "", "") + `\"",#],"b":1}`
	case 8: // strings of many structural characters
		return `{"a":"` + nested(140, `{`, `~`, `[`) + `","` + nested(140, `}`, ``, `],`) + `":["` + nested(270, `:,`, `~`, ``) + `",{"b":#}],"c":{"b":"~"}}`
	case 9: // many arrays and objects side by side
		return `[` + enum(70, func(i int) string { return `{"a":[` + num(i) + `,{}],"b":{"a":[]}}` }, 66, `{"a":["~"],"b":{"a":#}}`) + `]`
	case 10: // values beyond 64 kilobytes of others
		return `{"a":"` + long(66000) + `","b":["~",{"c":#}],"d":1}`
	case 13: // fewer levels
		return nested(70, `{"k":`, `["~",#]`, `,"l":1}`)
	case 14: // kilobytes of escapes, at odd and at even positions
		return `{"ab":"` + nested(2100, `\"`, `~`, ``) + `","b":["` + nested(2101, `\\`, ``, ``) + `~",#]}`
	case 15: // long values, each on a line of its own
		return pretty(`{"a":["`+long(150)+`","~`+long(130)+`",[#,"`+long(200)+`"],{"b":"`+long(129)+`","c":"~"}],"d":{"e":"`+long(260)+`","f":[]},"g":#}`, "\n", "  ")
	case 16: // the same with other line ends and empty lines
		return pretty(`[["`+long(140)+`~"],{"a":"`+long(128)+`","`+long(131)+`":{"c":"~","d":#}},[],"`+long(300)+`",#]`, "\r\n\r\n", "\t")
	case 11: // many elements, each a line
		return `[` + enum(1030, func(i int) string { return num(i) + "\n" }, 1001, `[#,"~"]`) + `]`
	}
	// several kilobytes of values in front
	return `{"a":[` + enum(300, func(i int) string { return `"text number ` + num(i) + `"` }, 256, `"~"`) + `],"b":{"c":"~","d":[1,#]},"e":[]}`
}

// some10 are those that are not too large.
var some10 = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16}

// vast is one of these documents.
func vast() *D { return vastOf(vf.Choose(nVast)) }

func vastOf(k int) *D {
	d := fill(vastText(k))
	d.vast = true
	vf.Steps(10)
	return d
}

// huge is a document of more elements or members than 16 bits can number.
func huge(obj bool) *D {
	n := 65538
	b := make([]byte, 0, 14*n)
	if !obj {
		b = append(b, '[')
		for i := 0; i < n; i++ {
			b = append(b, byte('0'+i%10), ',')
		}
		b = append(b, `"~",{"a":#}]`...)
	} else {
		b = append(b, `{"a":{`...)
		for i := 0; i < n; i++ {
			b = append(b, '"', byte('a'+i%16), byte('a'+i>>4%16), byte('a'+i>>8%16), byte('a'+i>>12%16), byte('a'+i>>16), '"', ':', '1', ',')
		}
		b = append(b, `"z~":"~"},"b":[#]}`...)
	}
	vf.Steps(100)
	d := fill(string(b))
	d.vast = true
	return d
}

func H_C01_huge() { checkLookups(huge(vf.Choose(2) == 1)) }
func H_C02_huge() { checkMisses(huge(vf.Choose(2) == 1), false) }
func H_C03_huge() { checkSet(huge(vf.Choose(2) == 1), false) }
func H_C05_huge() { checkAddKeyValue(huge(true), false) }
func H_C06_huge() { checkAdd(huge(false), false) }
func H_C07_huge() { checkInsert(huge(false), false) }
func H_C08_huge() { checkDelete(huge(vf.Choose(2) == 1), false) }
func H_C09_huge() { checkStore(huge(vf.Choose(2) == 1), false) }
func H_C13_huge() { checkIterArray(huge(false), false) }
func H_C14_huge() { checkIterKV(huge(true), false) }
func H_C16_huge() { checkLength(huge(vf.Choose(2) == 1), false) }
func H_C17_huge() { checkTypes(huge(vf.Choose(2) == 1), false) }
func H_C20_huge() { checkFormat(huge(vf.Choose(2) == 1)) }
func H_C21_huge() { checkParse(huge(vf.Choose(2) == 1), false) }

// H_C04_huge: renaming the last members of that many.
func H_C04_huge() {
	d := huge(true)
	n := d.R.Kids[0]
	i := len(n.Kids) - 1 - vf.Choose(2)
	ks, old := n.KS[i], string(n.Keys[i])
	for _, nn := range []string{"newk", "aaaac"} {
		r, err := jin.SetKey(d.B, nn, "a", old)
		vf.Assert(err == nil, "renaming an existing member fails")
		vf.Eq("SetKey replaces exactly the name", r, d.with(ks, ks+len(old), []byte(nn)))
		reads(r, []string{"a", nn}, d.src(n.Kids[i]))
	}
	for _, k := range []int{0, 255, 65535, 65536, i} {
		r, err := jin.SetKey(d.B, string(n.Keys[k]), "a", old)
		unchanged(d, r, err, "a name the object has is accepted")
	}
}

// H_C15_huge: bulk readers of an object of that many members.
func H_C15_huge() {
	d := huge(true)
	n := d.R.Kids[0]
	ks, err1 := jin.GetKeys(d.B, "a")
	vs, err2 := jin.GetValues(d.B, "a")
	ks2, vs2, err3 := jin.GetKeysValues(d.B, "a")
	m, err4 := jin.GetMap(d.B, "a")
	vf.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil, "a bulk reader fails")
	list("GetKeys", ks, len(n.Kids), func(i int) []byte { return n.Keys[i] })
	list("GetValues", vs, len(n.Kids), func(i int) []byte { return d.val(n.Kids[i]) })
	list("GetKeysValues names", ks2, len(n.Kids), func(i int) []byte { return n.Keys[i] })
	list("GetKeysValues values", vs2, len(n.Kids), func(i int) []byte { return d.val(n.Kids[i]) })
	vf.Assert(len(m) == len(n.Kids), "GetMap has the wrong number of entries")
	var names []string
	for i, k := range n.Keys {
		if i > len(n.Kids)-3 || i == 255 {
			v, ok := m[string(k)]
			vf.Assert(ok && v == string(d.val(n.Kids[i])), "GetMap has a wrong value")
			names = append(names, string(k))
		}
	}
	all, err := jin.GetAll(d.B, names, "a")
	vf.Assert(err == nil && len(all) == 3, "GetAll fails")
	for i, v := range all {
		vf.Assert(v == string(d.val(n.Kids[[]int{255, len(n.Kids) - 2, len(n.Kids) - 1}[i]])), "GetAll has a wrong value")
	}
}

// H_C19_huge: arrays of that many elements.
func H_C19_huge() {
	n := 65538
	vf.Steps(100)
	y := dig()
	vf.Assume(y != '0')
	b := []byte(`{"a":[` + enum(n, func(i int) string { return string([]byte{'1', byte('0' + i%10)}) }, -1, "") + `]}`)
	d := scan(b)
	arr := d.R.Kids[0]
	b[arr.Kids[n-1].S] = y
	for _, r := range readers(b) {
		v, err := r.sa("a")
		vf.Assert(err == nil, r.name+": GetStringArray fails")
		list(r.name+": GetStringArray", v, n, func(i int) []byte { return d.val(arr.Kids[i]) })
		is, err1 := r.ia("a")
		fs, err2 := r.fa("a")
		vf.Assert(err1 == nil && err2 == nil && len(is) == n && len(fs) == n, r.name+": a number array is not read")
		for i := range is {
			x := 10 + i%10
			if i == n-1 {
				x = int(y-'0')*10 + i%10
			}
			vf.Assert(is[i] == x, r.name+": GetIntArray has a wrong entry")
			vf.Assert(i == n-1 || i < len(fs) && fs[i] == float64(x), r.name+": GetFloatArray has a wrong entry")
		}
	}
}

// H_C22_huge: edits of a parsed array of that many elements.
func H_C22_huge() {
	d := huge(false)
	n := len(d.R.Kids)
	op := []int{0, 3, 4, 5}[vf.Choose(4)]
	e := edit{op: op, val: []byte(`[1,{"q":"}"}]`), idx: n - 1}
	if op == 0 || op == 5 {
		e.path = []string{strconv.Itoa(n - 2)}
	}
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	r := e.both(p, d.B)
	s := scan(r)
	vf.Assert(s != nil, "the document is not well-formed any more")
	if s == nil {
		return
	}
	for _, i := range []int{0, 1, 255, 65535, 65536, len(s.R.Kids) - 3, len(s.R.Kids) - 2, len(s.R.Kids) - 1} {
		v, err := p.Get(strconv.Itoa(i))
		vf.Assert(err == nil, "the parsed document does not find a value")
		vf.Eq("the parsed document finds the value", v, s.val(s.R.Kids[i]))
	}
	vf.Eq("the document written out again is the document", squeeze(p.GetNew()), squeeze(r))
}

// H_C23_huge: builders of that many elements.
func H_C23_huge() {
	n := 65538
	vf.Steps(100)
	x := sc()
	ns, s, bs := make([]int, n), make([]string, n), make([][]byte, n)
	ts, fs, is := make([]bool, n), make([]float64, n), make([]interface{}, n)
	for i := range ns {
		ns[i], s[i], bs[i], ts[i], fs[i], is[i] = i%10, "v", []byte("[]"), true, 1.5, 7
	}
	ns[n-1], s[n-1], bs[n-1], ts[n-1], fs[n-1], is[n-1] = 1234567, string([]byte{x, 'w'}), []byte(`{"a":1}`), false, -0.25, "z"
	ends := func(what string, r []byte, first, last string) {
		d := built(r, 'a', n, what)
		if d != nil {
			vf.Assert(string(d.val(d.R.Kids[0])) == first && string(d.val(d.R.Kids[n-1])) == last, what+": an element reads back as something else")
		}
	}
	switch vf.Choose(6) {
	case 0:
		ends("MakeArrayInt", jin.MakeArrayInt(ns), "0", "1234567")
	case 1:
		ends("MakeArrayString", jin.MakeArrayString(s), "v", s[n-1])
	case 2:
		ends("MakeArrayBytes", jin.MakeArrayBytes(bs...), "[]", `{"a":1}`)
	case 3:
		ends("MakeArrayBool", jin.MakeArrayBool(ts), "true", "false")
	case 4:
		ends("MakeArrayFloat", jin.MakeArrayFloat(fs), "1.5", "-0.25")
	case 5:
		ends("MakeArray", jin.MakeArray(is...), "7", "z")
	}
}

func H_C01_vast() { checkLookups(vast()) }
func H_C02_vast() { checkMisses(vast(), false) }
func H_C03_vast() { checkSet(vast(), false) }
func H_C04_vast() { checkSetKey(vast(), false) }
func H_C05_vast() { checkAddKeyValue(vast(), false) }
func H_C06_vast() { checkAdd(vast(), false) }
func H_C07_vast() { checkInsert(vast(), false) }
func H_C08_vast() { checkDelete(vast(), false) }
func H_C09_vast() { checkStore(vast(), false) }
func H_C13_vast() { checkIterArray(vast(), false) }
func H_C14_vast() { checkIterKV(vast(), false) }
func H_C15_vast() { checkBulk(vastOf(some10[vf.Choose(len(some10))]), false) }
func H_C16_vast() { checkLength(vast(), false) }
func H_C17_vast() { checkTypes(vast(), false) }
func H_C20_vast() { checkFormat(vast()) }
func H_C21_vast() { checkParse(vast(), false) }
func H_C26_vast() { checkWalk(vast(), false, false) }
func H_C30_vast() { checkTree(vast()) }

// vastSites are a few places of a vast document, and places that are not.
func (d *D) vastSites() []*args {
	var out []*args
	ns := d.nodes()
	for i, a := range ns {
		if i > 3 && i < len(ns)-2 && i%5 != 0 {
			continue
		}
		out = append(out, d.forPath(a.path, a.n, 'x', '5')[i%2])
	}
	for i, m := range d.misses(false) {
		if i < 3 {
			out = append(out, d.forPath(m.path, nil, 'x', '5')[0])
		}
	}
	return out
}

// trim leaves out most sites where a call looks at everything anyway.
func trim(c call, d *D, s []*args) []*args {
	if d.vast && c.name == "Walk" {
		return s[:2]
	}
	return s
}

// vastFew is one of the vast documents that are not too large.
func vastFew() *D { return vastOf([]int{0, 2, 3, 13, 7, 9, 15}[vf.Choose(7)]) }

// H_C10_vast: refused edits of vast documents.
func H_C10_vast() {
	d := vastFew()
	cs := edits()
	checkRefusedAt(d, cs[vf.Choose(len(cs))], d.vastSites())
}

// H_C11_vast: the arguments of calls on vast documents.
func H_C11_vast() {
	d := vastFew()
	cs := append(catalogue(), more()...)
	checkGuardedAt(d, cs[vf.Choose(len(cs))], d.vastSites())
}

// H_C27_vast: the methods on vast documents.
func H_C27_vast() {
	d := vastFew()
	cs := catalogue()
	checkMirrorAt(d, cs[vf.Choose(len(cs))], d.vastSites())
}

// H_C29_vast: the causes of errors on vast documents.
func H_C29_vast() { checkCauses(vastOf([]int{0, 13, 9}[vf.Choose(3)]), false) }

// H_C18_vast: scalars all over vast documents.
func H_C18_vast() {
	d := vastFew()
	for _, r := range readers(d.B) {
		for _, a := range d.all() {
			s, err := r.str(a.path...)
			vf.Assert(err == nil, r.name+": GetString fails")
			vf.Eq(r.name+": GetString returns the value's text", []byte(s), d.val(a.n))
			n, err := r.i(a.path...)
			f, err2 := r.f(a.path...)
			if a.n.K == 'v' {
				k, e := strconv.Atoi(string(d.src(a.n)))
				x, e2 := strconv.ParseFloat(string(d.src(a.n)), 64)
				vf.Assert(err == nil && err2 == nil && e == nil && e2 == nil && n == k && f == x, r.name+": a number reads as another one")
			} else if a.n.K != 's' {
				vf.Assert(err != nil && err2 != nil, r.name+": a number comes from something that is not one")
			}
			_, err = r.b(a.path...)
			vf.Assert(err != nil, r.name+": a truth value comes from something that is not one")
		}
	}
}

// H_C19_vast: long arrays.
func H_C19_vast() {
	k := vf.Choose(4)
	n := []int{17, 66, 129, 258, 1026}[vf.Choose(5)]
	if k > 0 && n > 300 {
		return
	}
	at := []int{0, n / 2, n - 1}[vf.Choose(3)]
	y := dig()
	item := func(i int) string {
		switch k {
		case 1:
			return `"` + long(i%67) + `"`
		case 2:
			return []string{"true", "false"}[i%3%2]
		case 3:
			return strconv.Itoa(i) + ".5"
		}
		return strconv.Itoa(i * 77777)
	}
	b := []byte(`{"a":[` + enum(n, item, -1, "") + `],"b":[[` + enum(n, item, -1, "") + "]]}")
	d := scan(b)
	arr := d.R.Kids[0]
	if k == 0 {
		for _, e := range []*N{arr, d.R.Kids[1].Kids[0]} {
			b[e.Kids[at].S] = y
		}
		vf.Assume(y != '0')
	}
	vf.Steps(10)
	for _, r := range readers(b) {
		for _, p := range [][]string{{"a"}, {"b", "0"}} {
			v, err := r.sa(p...)
			vf.Assert(err == nil, r.name+": GetStringArray fails")
			list(r.name+": GetStringArray", v, n, func(i int) []byte { return d.val(arr.Kids[i]) })
			is, err1 := r.ia(p...)
			fs, err2 := r.fa(p...)
			ts, err3 := r.ba(p...)
			vf.Assert((err1 == nil) == (k == 0) && (err2 == nil) == (k == 0 || k == 3) && (err3 == nil) == (k == 2), r.name+": an array is taken for one of another type")
			for i := 0; i < n; i++ {
				t := string(d.val(arr.Kids[i]))
				switch k {
				case 0:
					x, _ := strconv.Atoi(t)
					vf.Assert(i < len(is) && is[i] == x, r.name+": GetIntArray has a wrong entry")
					vf.Assert(i == at || i < len(fs) && fs[i] == float64(x), r.name+": GetFloatArray has a wrong entry")
				case 2:
					vf.Assert(i < len(ts) && ts[i] == (t == "true"), r.name+": GetBoolArray has a wrong entry")
				case 3:
					x, _ := strconv.ParseFloat(t, 64)
					vf.Assert(i < len(fs) && fs[i] == x, r.name+": GetFloatArray has a wrong entry")
				}
			}
		}
	}
}

// H_C22_vast: one edit of every kind at notable places of vast documents.
func H_C22_vast() {
	d := vastOf(some10[vf.Choose(len(some10))])
	op := vf.Choose(nOps)
	ns := d.nodes()
	done := 0
	for i, a := range ns {
		if i > 2 && i < len(ns)-3 && i%7 != 0 || op == 1 && (a.up == nil || a.up.K != 'o') || op == 2 && a.n.K != 'o' || op > 2 && op < 5 && a.n.K != 'a' {
			continue
		}
		if done++; done > 6 {
			break
		}
		e := edit{op: op, key: "new", val: []byte(`[1,{"q":"}"}]`), path: a.path, idx: len(a.n.Kids) / 2}
		p, err := jin.Parse(d.B)
		vf.Assert(err == nil, "a well-formed document does not parse")
		if err != nil {
			return
		}
		r := e.both(p, d.B)
		s := scan(r)
		vf.Assert(s != nil, "the document is not well-formed any more")
		if s == nil {
			return
		}
		s.vast = true
		for j, b := range s.nodes() {
			if len(b.path) == 0 || j%4 != 0 && j < len(ns)-3 {
				continue
			}
			v, err := p.Get(b.path...)
			vf.Assert(err == nil, "the parsed document does not find a value")
			vf.Eq("the parsed document finds the value", v, s.val(b.n))
		}
		vf.Eq("the document written out again is the document", squeeze(p.GetNew()), squeeze(r))
	}
}

// H_C23_vast: builders of many and of long elements.
func H_C23_vast() {
	n := []int{129, 257, 1025}[vf.Choose(3)]
	x := sc()
	vf.Steps(10)
	var s, k []string
	var is []interface{}
	var ns []int
	var ts []bool
	var fs []float64
	var bs [][]byte
	for i := 0; i < n; i++ {
		s = append(s, string([]byte{x, byte('a' + i%26), 'v'}))
		k = append(k, "k"+strconv.Itoa(i))
		is = append(is, i*99991)
		ns = append(ns, i*99991)
		ts = append(ts, i%3 == 0)
		fs = append(fs, float64(i)+0.5)
		bs = append(bs, []byte("["+strconv.Itoa(i)+"]"))
	}
	s[n-1] = long(n)
	is[n/2] = long(n)
	same := func(what string, r []byte, kind byte, names []string, text func(i int) string) {
		d := built(r, kind, n, what)
		if d == nil {
			return
		}
		for i := 0; i < n; i++ {
			vf.Assert(string(d.val(d.R.Kids[i])) == text(i), what+": an element reads back as something else")
			if names != nil {
				vf.Assert(string(d.R.Keys[i]) == names[i], what+": a name is another one")
			}
		}
	}
	str := func(i int) string { return s[i] }
	num := func(i int) string { return strconv.Itoa(ns[i]) }
	mix := func(i int) string {
		if i == n/2 {
			return s[n-1]
		}
		return num(i)
	}
	same("MakeArrayString", jin.MakeArrayString(s), 'a', nil, str)
	same("MakeArrayInt", jin.MakeArrayInt(ns), 'a', nil, num)
	same("MakeArray", jin.MakeArray(is...), 'a', nil, mix)
	same("MakeArrayBool", jin.MakeArrayBool(ts), 'a', nil, func(i int) string { return strconv.FormatBool(ts[i]) })
	same("MakeArrayFloat", jin.MakeArrayFloat(fs), 'a', nil, func(i int) string { return strconv.Itoa(i) + ".5" })
	same("MakeArrayBytes", jin.MakeArrayBytes(bs...), 'a', nil, func(i int) string { return string(bs[i]) })
	if n > 300 {
		return
	}
	same("MakeJson", jin.MakeJson(k, is), 'o', k, mix)
	same("MakeJsonString", jin.MakeJsonString(k, s), 'o', k, str)
	same("Scheme.MakeJson", jin.MakeScheme(k...).MakeJson(is...), 'o', k, mix)
	same("Scheme.MakeJsonString", jin.MakeScheme(k...).MakeJsonString(s...), 'o', k, str)
}

// H_C24_vast: schemes of many keys.
func H_C24_vast() {
	n := []int{9, 17, 33, 65, 130, 257}[vf.Choose(6)]
	c := &ctx{key: 1}
	x := string([]byte{c.K()})
	vf.Steps(10)
	var cur []string
	for i := 0; i < n/2; i++ {
		cur = append(cur, x+strconv.Itoa(i))
	}
	s := jin.MakeScheme(cur...)
	cur = append([]string{}, cur...)
	for i := n / 2; i < n; i++ {
		k := x + strconv.Itoa(i)
		vf.Assert(s.Add(k), "a new key is not added")
		cur = append(cur, k)
	}
	keys := func(when string) {
		vf.Assert(eqS(s.GetCurrentKeys(), cur), when+": the current keys are other ones")
	}
	keys("after additions")
	for _, i := range []int{0, n / 2, n - 1} {
		vf.Assert(!s.Add(cur[i]), "a key is added twice")
	}
	keys("after refused additions")
	s.Save()
	saved := append([]string{}, cur...)
	for _, i := range []int{n - 1, n / 2, 0} {
		vf.Assert(s.Remove(cur[i]), "a key is not removed")
		vf.Assert(!s.Remove(cur[i]), "a key is removed twice")
		cur = append(append([]string{}, cur[:i]...), cur[i+1:]...)
		keys("after removals")
	}
	vf.Assert(eqS(s.GetOriginalKeys(), saved), "the saved keys are other ones")
	v := make([]string, len(cur))
	is := make([]interface{}, len(cur))
	for i := range v {
		v[i] = "v" + strconv.Itoa(i)
		is[i] = v[i]
	}
	for _, r := range [][]byte{s.MakeJson(is...), s.MakeJsonString(v...)} {
		d := built(r, 'o', len(cur), "an instance of the scheme")
		if d == nil {
			return
		}
		for i := range v {
			vf.Assert(string(d.val(d.R.Kids[i])) == v[i] && string(d.R.Keys[i]) == cur[i], "an instance has other contents")
		}
		vf.Assert(s.Check(r) && s.CheckAbs(r), "an instance does not fit its scheme")
		// one member more, less, or another
		last := cur[len(cur)-1]
		more := d.with(d.R.E-1, d.R.E-1, []byte(`,"other":1`))
		vf.Assert(s.Check(more) && !s.CheckAbs(more), "a document with a member more")
		less := d.with(d.R.Kids[len(cur)-2].E, d.R.E-1, nil)
		vf.Assert(!s.Check(less) && !s.CheckAbs(less), "a document with a member less")
		ks := d.R.KS[len(cur)-1]
		odd := d.with(ks, ks+len(last), []byte("other"))
		vf.Assert(!s.Check(odd) && !s.CheckAbs(odd), "a document with another member")
		_, err := s.MutateJsonAbs(odd)
		vf.Assert(err != nil, "MutateJsonAbs accepts a missing name")
		m, err := s.MutateJson(odd)
		vf.Assert(err == nil, "MutateJson fails")
		if e := built(m, 'o', len(cur), "MutateJson"); e != nil {
			for i := range v {
				want := v[i]
				if i == len(cur)-1 {
					want = ""
				}
				vf.Assert(string(e.val(e.R.Kids[i])) == want && string(e.R.Keys[i]) == cur[i], "a changed document has other contents")
			}
		}
		m, err = s.MutateJsonAbs(more)
		vf.Assert(err == nil && scan(m) != nil && len(scan(m).R.Kids) == len(cur), "MutateJsonAbs fails")
	}
	s.Restore()
	cur = saved
	keys("after Restore")
}

// H_C25_vast: vast documents cut off or with something else in one place.
func H_C25_vast() {
	d := vastOf([]int{0, 2, 13, 7}[vf.Choose(4)])
	k := len(d.B) * (vf.Choose(3)*2 + 1) / 6
	if vf.Choose(2) == 0 {
		d.B = d.B[:k:k]
	} else {
		d.B = d.with(k, k+1, []byte{vf.ByteIn("\"\\]{")})
	}
	as := d.vastSites()
	c := anyCall()
	vf.Steps(4)
	for i, a := range as {
		if i%3 == 0 || i > len(as)-4 {
			survive(c, i%3, d.B, a)
		}
	}
}

// H_C28_vast: long strings, written and read back.
func H_C28_vast() {
	name, run := writers("String")
	n := []int{31, 64, 127, 255, 256, 1000, 1024, 4097}[vf.Choose(8)]
	b := []byte(long(n))
	b[n-1] = sc()
	b[n/2] = sc()
	write(name, run, args{s: string(b)}, string(b), 1)
}

// H_C31_vast: documents that grow large and shrink again.
func H_C31_vast() {
	n := 140
	vf.Steps(10)
	obj, j := vf.Choose(2) == 1, (*jin.JO)(nil)
	b := []byte(`{"a":[],"b":{"x":1}}`)
	if vf.Choose(2) == 1 {
		j = jin.New(b)
	}
	m := scanned(b)
	v := []byte{'[', '"', sc(), '"', ']'}
	do := func(e edit, look bool) {
		could := m.apply(e.op, e.path, e.key, e.val, e.idx)
		var err error
		if j != nil {
			err = e.method(j)
			b = j.JSON()
		} else {
			b, err = e.run(b)
		}
		vf.Assert((err == nil) == could, "an edit is possible and refused, or the reverse")
		if look {
			m.meets(b, false)
		}
	}
	for i := 0; i < n; i++ {
		look := i%20 == 19 || notable(i)
		switch {
		case obj:
			do(edit{op: 2 + 4*(i%2), path: []string{"b"}, key: "k" + strconv.Itoa(i), val: v}, look)
		case i%3 == 2:
			do(edit{op: 4, path: []string{"a"}, idx: i / 2, val: v}, look)
		default:
			do(edit{op: 3, path: []string{"a"}, val: []byte(strconv.Itoa(i))}, look)
		}
	}
	m.meets(b, false)
	for i := 0; i < n; i++ {
		look := i%20 == 19 || n-i < 4
		if obj {
			do(edit{op: 5, path: []string{"b", "k" + strconv.Itoa((i*37)%n)}}, look)
		} else {
			do(edit{op: 5, path: []string{"a", strconv.Itoa((i * 37) % (n - i))}}, look)
		}
	}
	m.meets(b, true)
}

// pick2 is a call and one to go with it.
func pick2(n int, often ...int) (int, int) {
	i := vf.Choose(n)
	k := vf.Choose(1 + len(often))
	if k == 0 {
		return i, i
	}
	return i, often[k-1] % n
}

// longer are documents with long strings, many elements and deep nesting,
// alike but for the contents.
func longer(k int) *D {
	t := `{"a":[` + enum(40, strconv.Itoa, 33+k, `"~"`) + `],"b":"` + long(90+k) + `","c":` + nested(20, `[`, `{"p":#}`, `,1]`) + `,"p":{"` + long(70-k) + `":"~","q":true}}`
	d := fill(t)
	d.vast = true
	vf.Steps(4)
	return d
}

// H_C12_vast: a call after and during another one, on longer documents.
func H_C12_vast() {
	cs := append(catalogue(), more()...)
	i, k := pick2(len(cs), 0, 7, 19, len(cs)/2, len(cs)-3)
	c1, c2 := cs[i], cs[k]
	d1, d2 := longer(0), longer(3)
	s1, s2 := d1.vastSites(), d2.vastSites()
	s1, s2 = trim(c1, d1, s1), trim(c2, d2, s2)
	w1, w2 := history(c1, d1, s1), history(c2, d2, s2)
	k1, k2 := make([]*out, len(w1)), make([]*out, len(w2))
	for i := range w1 {
		k1[i] = w1[i].keep()
	}
	for i := range w2 {
		k2[i] = w2[i].keep()
	}
	var r1, r2 []out
	vf.Par(func() { r1 = history(c1, d1, s1) }, func() { r2 = history(c2, d2, s2) })
	for i := range r1 {
		sameOut(&r1[i], k1[i], true, c1.name+" returns something else during "+c2.name)
	}
	for i := range r2 {
		sameOut(&r2[i], k2[i], true, c2.name+" returns something else during "+c1.name)
		sameOut(&w2[i], k2[i], true, c1.name+" changes what "+c2.name+" has returned")
	}
}

// H_C32_vast: two readers of the same longer thing at once.
func H_C32_vast() {
	rs := allReaders()
	i, k := pick2(len(rs), 0, 1, 2, len(rs)/2)
	d := longer(1)
	readBoth(d, rs[i], rs[k], d.vastSites(), d.vastSites())
}
