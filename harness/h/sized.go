package h

import (
	"strconv"
	"strings"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// sized is a document with names and values of one length.
func sized() *D {
	n := 2 + vf.Choose(40)
	if n > 35 {
		n = []int{62, 63, 64, 65, 127, 128}[n-36]
	}
	return sizedOf(n, vf.Choose(2) == 1)
}

// sizedFew are half of them.
func sizedFew() *D {
	n := 2 + vf.Choose(36)
	if n > 33 {
		n = []int{63, 64, 127, 128}[n-34]
	}
	return sizedOf(n, n/2%2 == 1)
}

func sizedOf(n int, arr bool) *D {
	t := long(n - 1)
	num := nested(n, "1", "", "")
	a := `{"~` + t + `":"` + t + `~","b":{"` + t + `x":[` + num + `,"` + t + `y"],"` + t + `#":[]},"` + t + `z":` + num + `}`
	if arr {
		a = `["` + t + `~",` + num + `,[{"` + t + `~":"` + t + `x"},"` + t + `x"],` + num + `.5]`
	}
	return fill(a)
}

func H_C01_sized() { checkLookups(sized()) }
func H_C02_sized() { checkMisses(sized(), false) }
func H_C03_sized() { checkSet(sized(), false) }
func H_C04_sized() { checkSetKey(sized(), false) }
func H_C05_sized() { checkAddKeyValue(sized(), false) }
func H_C06_sized() { checkAdd(sized(), false) }
func H_C07_sized() { checkInsert(sized(), false) }
func H_C08_sized() { checkDelete(sized(), false) }
func H_C09_sized() { checkStore(sized(), false) }
func H_C13_sized() { checkIterArray(sized(), false) }
func H_C14_sized() { checkIterKV(sized(), false) }
func H_C15_sized() { checkBulk(sized(), false) }
func H_C16_sized() { checkLength(sized(), false) }
func H_C17_sized() { checkTypes(sized(), false) }
func H_C20_sized() { checkFormat(sized()) }
func H_C21_sized() { checkParse(sized(), false) }
func H_C26_sized() { checkWalk(sized(), false, false) }
func H_C30_sized() { checkTree(sized()) }
func H_C29_sized() { checkCauses(sizedFew(), false) }

// H_C25_sized: names and values of every length.
func H_C25_sized() {
	d := sizedFew()
	c := anyCall()
	for i, a := range d.fewSites() {
		survive(c, i%3, d.B, a)
	}
}

// H_C28_sized: strings of every length, in every place.
func H_C28_sized() {
	name, run := writers("String")
	n := 2 + vf.Choose(70)
	b := []byte(long(n))
	b[n-1] = sc()
	write(name, run, args{s: string(b)}, string(b), 1)
}

// H_C26_near, H_C30_near: names that join up to others.
func H_C26_near() { checkWalk(nearDoc(), false, true) }
func H_C30_near() { checkTree(nearDoc()) }

// H_C27_near: the methods with names like others.
func H_C27_near() {
	d := nearDoc()
	cs := catalogue()
	c := cs[vf.Choose(len(cs))]
	var sites []*args
	skip := vf.Choose(2)
	for i, m := range d.misses(false) {
		if i%32 == skip*16 {
			sites = append(sites, d.forPath(m.path, nil, 'x', '5')[i/32%2])
		}
	}
	for _, a := range d.nodes() {
		sites = append(sites, d.forPath(a.path, a.n, 'x', '5')...)
	}
	if c.name == "Walk" {
		sites = sites[:2]
	}
	checkMirrorAt(d, c, sites)
}

// H_C24_near: schemes of names that are like others.
func H_C24_near() {
	d := nearDoc()
	c := &ctx{}
	for _, a := range d.nodes() {
		if a.n.K != 'o' || len(a.n.Kids) == 0 {
			continue
		}
		keys := d.names(a.n)
		s := jin.MakeScheme(keys...)
		doc := d.src(a.n)
		vf.Assert(s.Check(doc) && s.CheckAbs(doc), "a document with the names of the scheme does not fit")
		fits(s, keys, c)
		for i, k := range keys {
			for _, v := range variants(k, keys, true) {
				vf.Assert(!s.Remove(v), "a key is removed that the scheme does not have")
				vf.Assert(s.Add(v), "a new key is not added")
				vf.Assert(!s.Check(doc) && !s.CheckAbs(doc), "a document without a name of the scheme fits")
				vf.Assert(s.Remove(v), "a key is not removed")
				other := append([]string{}, keys...)
				other[i] = v
				o := jin.MakeScheme(other...)
				vf.Assert(!o.Check(doc) && !o.CheckAbs(doc), "a document with another name fits")
				_, err := o.MutateJsonAbs(doc)
				vf.Assert(err != nil, "MutateJsonAbs accepts a missing name")
			}
			vf.Assert(!s.Add(k), "a key is added twice")
		}
		vf.Assert(eqS(s.GetCurrentKeys(), keys), "the current keys are other ones")
	}
}

// H_C23_names: members of names that are like others.
func H_C23_names() {
	{
		d := fill(nearTexts[vf.Choose(len(nearTexts))])
		ns := d.nodes()
		for _, a := range ns[vf.Choose(len(ns)):] {
			if a.n.K != 'o' || len(a.n.Kids) == 0 {
				return
			}
			names := d.names(a.n)
			k := names[len(names)-1]
			keys := append([]string{k}, variants(k, []string{k}, true)...)
			v, is := make([]string, len(keys)), make([]interface{}, len(keys))
			m := map[string]string{}
			for i := range keys {
				v[i], is[i] = "v"+strconv.Itoa(i), "v"+strconv.Itoa(i)
				m[keys[i]] = v[i]
			}
			for _, r := range [][]byte{jin.MakeJson(keys, is), jin.MakeJsonString(keys, v)} {
				if b := built(r, 'o', len(keys), "an object of such names"); b != nil {
					for i := range keys {
						b.holds(i, &keys[i], v[i], 0, "an object of such names")
					}
				}
			}
			r := jin.MakeJsonWithMap(m)
			for i := range keys {
				got, err := jin.GetString(r, keys[i])
				vf.Assert(err == nil && got == v[i], "MakeJsonWithMap: a member reads back as something else")
			}
			n, err := jin.Length(r)
			vf.Assert(err == nil && n == len(keys), "MakeJsonWithMap: another number of members")
			return
		}
	}
}

// H_C23_maps: maps are gone through in any order.
func H_C23_maps() {
	x := string([]byte{'k', vf.ByteIn("abc")})
	m := map[string]string{x: "1", "l": "two", "m": "[3]", "": "e"}
	delete(m, []string{"l", "m", "", "none"}[vf.Choose(4)])
	for i := 0; i < 3; i++ {
		r := jin.MakeJsonWithMap(m)
		d := built(r, 'o', len(m), "MakeJsonWithMap")
		if d == nil {
			return
		}
		for j, k := range d.R.Keys {
			v, ok := m[string(k)]
			vf.Assert(ok && v == string(d.val(d.R.Kids[j])), "MakeJsonWithMap: a member reads back as something else")
		}
	}
}

// H_C15_repeated: names asked for more than once.
func H_C15_repeated() {
	d := fill(`{"a":"~","b":{"a":#,"c":["~"]},"c":[#,"x"]}`)
	k := vf.Choose(4) + 2
	pick := make([]int, k)
	for i := range pick {
		pick[i] = vf.Choose(2) * (1 + vf.Choose(2))
	}
	for _, a := range d.nodes() {
		n := a.n
		if n.K != 'o' && n.K != 'a' {
			continue
		}
		var names []string
		for _, i := range pick {
			names = append(names, step(n, i%len(n.Kids)))
		}
		all, err := jin.GetAll(d.B, names, a.path...)
		vf.Assert(err == nil, "GetAll fails")
		list("GetAll", all, k, func(i int) []byte { return d.val(n.Kids[pick[i]%len(n.Kids)]) })
		m, err := jin.GetAllMap(d.B, names, a.path...)
		vf.Assert(err == nil, "GetAllMap fails")
		for i, s := range names {
			v, ok := m[s]
			vf.Assert(ok && v == string(d.val(n.Kids[pick[i]%len(n.Kids)])), "GetAllMap has a wrong value")
		}
		for s := range m {
			vf.Assert(has(names, s), "GetAllMap has a name that was not asked for")
		}
	}
}

// H_C17_numbers: number texts of every form.
func H_C17_numbers() {
	var b []byte
	if vf.Choose(2) == 1 {
		b = append(b, '-')
	}
	if vf.Choose(2) == 1 {
		b = append(b, '0')
	} else {
		b = append(b, digits(vf.Choose(4)+1)...)
	}
	if k := vf.Choose(4); k > 0 {
		b = append(b, '.')
		for i := 0; i < k; i++ {
			b = append(b, dig())
		}
	}
	if k := vf.Choose(5); k > 0 {
		b = append(b, "eE"[k%2])
		if s := vf.Choose(3); s > 0 {
			b = append(b, "+-"[s-1])
		}
		for i := 0; i < (k+1)/2; i++ {
			b = append(b, dig())
		}
	}
	n := &N{K: 'v', T: b}
	c := ctx{ws: vf.Choose(3)}
	r := &N{K: 'a', Kids: []*N{n, {K: 'o', Keys: [][]byte{[]byte("a")}, Kids: []*N{n}}}}
	checkTypes(render(r, c), false)
}

// moreFloats are number texts with many digits.
var moreFloats = []string{
	"0.1234567890123456", "0.12345678901234567", "1234567.1234567", "12345678.12345678", "123456789.123456789", "9007199254740993.0", "9007199254740992.5", "900719925474099.3",
	"0.007", "100.000", "1.10", "3.141592653589793", "2.718281828459045", "0.000001", "0.0000001", "123456.789e3", "1e22", "1e23", "1e-7", "5e-324", "2.2250738585072011e-308", "2.2250738585072014e-308",
	"0.1e1", "1E+5", "1.5E+10", "1e+05", "1E-05", "4503599627370496.5", "4503599627370497.5", "8.5e15", "179769313486231570000.5", "1.0000000000000002", "0.9999999999999999", "99999999999999.99", "4.35", "0.285", "1.005", "2.675", "1.15", "8.41", "0.57",
	"72057594037927935.0", "72057594037927936.1", "1844674407370955.1615", "1844674407370955161.5", "184467440737095516.15", "0.0000000000000000001", "0.9223372036854775807", "922337203.6854775807", "7.2057594037927933e16", "0.3", "0.7", "1.1", "33.333333333333336", "66.66666666666667", "123.4560", "-0.0", "-12.50", "-123456.7890123456",
	"43.98765432109876", "5.0e-1", "6.02214076e23", "6.62607015e-34", "299792458.000000001", "0.00012345678901234567",
}

// H_C18_digits: numbers of many digits.
func H_C18_digits() {
	t := moreFloats[vf.Choose(len(moreFloats))]
	d := fill(`{"a":` + t + `,"b":["~",` + t + `],"c":"` + t + `"}`)
	for _, r := range readers(d.B) {
		floatIs(r, []string{"a"}, t)
		floatIs(r, []string{"b", "1"}, t)
		floatIs(r, []string{"c"}, t)
	}
}

// H_C19_digits: arrays of such numbers.
func H_C19_digits() {
	k := vf.Choose(len(moreFloats) - 3)
	b := `{"a":[`
	var want []float64
	for i := k; i < k+3; i++ {
		f, _ := strconv.ParseFloat(moreFloats[i], 64)
		want = append(want, f)
		if i > k {
			b += ","
		}
		b += moreFloats[i]
	}
	for _, r := range readers([]byte(b + `],"b":[]}`)) {
		fs, err := r.fa("a")
		vf.Assert(err == nil && len(fs) == 3, r.name+": GetFloatArray fails")
		for i := range want {
			vf.Assert(i < len(fs) && fs[i] == want[i], r.name+": GetFloatArray has a wrong entry")
		}
	}
}

// session reads and edits the same object in turn.
func session(edit, read call, n int, jo bool) {
	d := short(n)
	sites := d.fewSites()
	var j *jin.JO
	var p *jin.Parser
	var err error
	if jo {
		j = jin.New(cp(d.B))
	} else {
		p, err = jin.Parse(cp(d.B))
		vf.Assert(err == nil, "a well-formed document does not parse")
		if err != nil {
			return
		}
	}
	b := cp(d.B)
	shift := vf.Choose(3)
	look := func(last int, back bool, when string) {
		for i := range sites {
			k := last + 1 + i
			if back {
				k = last + len(sites) - i
			}
			a := sites[k%len(sites)]
			o := read.f(b, a)
			var r out
			if jo {
				r = read.j(j, a)
				sameOut(&r, &o, true, when+" the method "+read.name+" differs from the function")
			} else if len(a.path) > 0 && !(o.err == nil && o.b != nil && len(o.b) > 0 && (o.b[0] == '{' || o.b[0] == '[')) {
				r = read.p(p, a)
				vf.Assert((r.err == nil) == (o.err == nil), when+" the parser's "+read.name+" fails and the function does not, or the reverse")
				r.doc, o.doc, r.err, o.err = nil, nil, nil, nil
				sameOut(&r, &o, true, when+" the parser's "+read.name+" differs from the function")
			}
		}
	}
	for i := len(sites) - 1; i >= 0; i-- { // inner ones first
		a := sites[i]
		last := (i + shift*(len(sites)-1)) % len(sites)
		look(last, false, "before "+edit.name)
		o := edit.f(b, a)
		var r out
		if jo {
			r = edit.j(j, a)
			sameOut(&r, &o, true, "the method "+edit.name+" differs from the function")
		} else {
			r = edit.p(p, a)
			vf.Assert((r.err == nil) == (o.err == nil), "the parser's "+edit.name+" differs from the function")
			vf.Eq("the parser's "+edit.name+" differs from the function", r.doc, o.doc)
		}
		b = cp(o.doc)
		look(last, true, "after "+edit.name)
	}
}

func sessionCalls(jo bool) (edit, read call) {
	var es, rs []call
	for _, c := range catalogue() {
		if jo && c.j == nil || !jo && c.p == nil || c.name == "Walk" {
			continue
		}
		if c.edit {
			es = append(es, c)
		} else {
			rs = append(rs, c)
		}
	}
	return es[vf.Choose(len(es))], rs[vf.Choose(len(rs))]
}

// H_C27_session: reading, editing and reading again.
func H_C27_session() {
	e, r := sessionCalls(true)
	session(e, r, vf.Choose(2)*2, true)
}

// H_C22_session: the same with a parsed document.
func H_C22_session() {
	e, r := sessionCalls(false)
	session(e, r, vf.Choose(2)*2, false)
}

// sameLength is a document of n members with names of the same length.
func sameLength(n int) *D {
	b := []byte(`{`)
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, '"', byte('a'+i%10), byte('k'+i/10%10), byte('a'+i/100), '"', ':')
		b = strconv.AppendInt(b, int64(i), 10)
	}
	return fill(string(append(b, '}')))
}

// H_C12_many: many names, and one operation after the other.
func H_C12_many() {
	vf.Steps(30)
	d := sameLength(1100)
	x := vf.Choose(3)
	look := func(i int, from string) {
		k := string(d.R.Keys[i])
		v, err := jin.Get(d.B, k)
		vf.Assert(err == nil && string(v) == strconv.Itoa(i), from+": a value is not found")
	}
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	for i := 3 * x; i < 1100; i += 1 + i%47*(1+x) {
		look(i, "Get")
		v, err := p.Get(string(d.R.Keys[i]))
		vf.Assert(err == nil && string(v) == strconv.Itoa(i), "Parser.Get: a value is not found")
	}
	// small documents with names used before, and new ones
	for i := 0; i < 1000; i += 61 + x {
		for _, j := range []int{i + 1, i + 64, i + 100} {
			a, b := string(d.R.Keys[i]), string(d.R.Keys[j])
			t := []byte(`{"` + a + `":1,"` + b + `":2}`)
			v, err := jin.Get(t, b)
			vf.Assert(err == nil && string(v) == "2", "Get: a value is not found")
			q, err := jin.Parse(t)
			vf.Assert(err == nil, "a well-formed document does not parse")
			if err != nil {
				return
			}
			v, err = q.Get(b)
			vf.Assert(err == nil && string(v) == "2", "Parser.Get: a value is not found")
		}
	}
	for i := 0; i < 1100; i += 89 {
		look(i, "Get, afterwards")
	}
}

// H_C12_missing: the errors for many names, one after the other. Names are as
// long as the first one and made of the same kinds of characters, so an error
// that spells the first name spells the others.
func H_C12_missing() {
	vf.Steps(30)
	b := []byte(`{"a":1,"b":{"c":2},"l":[1,2]}`)
	j := jin.New(b)
	p, err := jin.Parse(b)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	var ops = []func(k string) error{
		func(k string) error { _, err := jin.Get(b, k); return err },
		func(k string) error { _, err := jin.GetInt(b, "b", k); return err },
		func(k string) error { _, err := j.Get(k); return err },
		func(k string) error { _, err := p.Get("b", k); return err },
		func(k string) error { _, err := jin.Delete(b, k); return err },
		func(k string) error { _, err := jin.Get(b, "l", k); return err },
		func(k string) error { return p.Set([]byte("1"), k) },
	}
	x := vf.Choose(2)
	name := func(i int) string {
		n := []byte("k000k")
		for at := 3; at > 0; at-- {
			n[at] = byte('0' + i%10)
			i /= 10
		}
		n[4] = byte('k' + x)
		return string(n)
	}
	op := ops[vf.Choose(len(ops))]
	e0 := op(name(0))
	vf.Assert(e0 != nil, "a missing name is found")
	if e0 == nil {
		return
	}
	at := strings.Index(e0.Error(), name(0))
	text := func(i int) string {
		if at < 0 {
			return e0.Error()
		}
		return e0.Error()[:at] + name(i) + e0.Error()[at+5:]
	}
	for i := 1; i < 1000; i++ {
		e := op(name(i))
		vf.Assert(e != nil, "a missing name is found")
		if e != nil {
			vf.Assert(e.Error() == text(i), "the error for a missing name is another one after other calls")
		}
	}
	vf.Assert(e0.Error() == text(0), "an error changes")
}

// H_C21_many: all the names of a large object.
func H_C21_many() {
	vf.Steps(30)
	d := sameLength(1100)
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	for i := 1099 - vf.Choose(3); i >= 0; i -= 7 {
		v, err := p.Get(string(d.R.Keys[i]))
		vf.Assert(err == nil && string(v) == strconv.Itoa(i), "a value is not found")
	}
}

// nested calls: an operation in the callback of another one.
func calledBack(cb string, d *D, a *args, run func()) (got []string, err error) {
	add := func(s ...[]byte) {
		for _, x := range s {
			got = append(got, string(x))
		}
	}
	switch cb {
	case "IterateArray":
		err = jin.IterateArray(d.B, func(v []byte) (bool, error) { run(); add(v); return true, nil }, a.path...)
	case "IterateKeyValue":
		err = jin.IterateKeyValue(d.B, func(k, v []byte) (bool, error) { run(); add(k, v); return true, nil }, a.path...)
	case "Walk":
		err = jin.Walk(d.B, func(k string, v []byte, p []string) (bool, error) {
			run()
			add([]byte(k), v)
			got = append(got, p...)
			return true, nil
		})
	}
	return
}

// H_C12_nested: operations called from callbacks.
func H_C12_nested() {
	cb := []string{"IterateArray", "IterateKeyValue", "Walk"}[vf.Choose(3)]
	c := anyCall()
	d1, d2 := rich(ctx{}, false), rich(ctx{ws: 1}, true)
	s2 := d2.fewSites()
	s2 = []*args{s2[0], s2[1], s2[len(s2)-2]}
	want := history(c, d2, s2)
	kept := make([]*out, len(want))
	for i := range want {
		kept[i] = want[i].keep()
	}
	for _, a := range d1.fewSites() {
		plain, err1 := calledBack(cb, d1, a, func() {})
		for i := range plain {
			plain[i] = string(cp([]byte(plain[i])))
		}
		first := true
		got, err2 := calledBack(cb, d1, a, func() {
			r := history(c, d2, s2)
			for i := range r {
				sameOut(&r[i], kept[i], true, c.name+" returns something else inside "+cb)
			}
			if first {
				first = false
				calledBack(cb, d2, s2[0], func() {})
			}
		})
		vf.Assert((err1 == nil) == (err2 == nil), cb+" fails with "+c.name+" in its callback")
		vf.Assert(eqS(plain, got), cb+" hands over something else with "+c.name+" in its callback")
		if cb == "Walk" {
			break
		}
	}
}

// H_C31_sized: edits with names and values of many lengths.
func H_C31_sized() {
	n := []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 1025}[vf.Choose(16)]
	d := sizedOf(n, vf.Choose(2) == 1)
	m, b := d.model(d.R), d.B
	var j *jin.JO
	if vf.Choose(2) == 1 {
		j = jin.New(b)
	}
	vf.Steps(4)
	for i := 0; i < 2*nEdits; i++ {
		d = scan(b)
		if d == nil {
			vf.Fail("the document is not well-formed any more")
			return
		}
		ns := d.nodes()
		a := ns[(i*5+1)%len(ns)]
		e := edit{op: i % nEdits, key: long(n+i) + "k", val: []byte(`"` + long(n-i%2) + `"`), path: a.path}
		if e.op == 1 { // one that has a name
			for k := range ns {
				if x := ns[(k+i)%len(ns)]; x.up != nil && x.up.K == 'o' {
					e.path = x.path
					break
				}
			}
		}
		b = e.step(b, j, m, i%3 == 2)
	}
}

// H_C27_file: objects read from files.
func H_C27_file() {
	w := []string{"", " ", "\n", "\t\r\n ", "\xef\xbb\xbf"}
	pre, post := w[vf.Choose(5)], w[vf.Choose(4)]
	t := `{"a":["~",#],"b":{"c":"~ \\u00e9 ` + "\xc3\xa9\xff" + `"}}`
	switch vf.Choose(7) {
	case 1:
		t = `["` + long(510) + `",#]`
	case 2:
		t = `["` + long(4094) + `","~"]`
	case 3:
		t = `{"a":"` + long(70000) + `","b":[#]}`
	case 4:
		t = ``
	case 5:
		t = `{"a":` // whatever it holds
	case 6:
		t = "[1]\n{\"a\":\"~\"}\n[#]"
	}
	b := []byte(pre)
	for _, c := range []byte(t) {
		switch c {
		case '~':
			c = sc()
		case '#':
			c = dig()
		}
		b = append(b, c)
	}
	b = append(b, post...)
	name, other := vf.File(b), vf.File([]byte(`{"x":1}`))
	read := []func(string) (*jin.JO, error){jin.ReadFile, jin.ReadJSONFile}
	k := vf.Choose(2)
	j, err := read[k](name)
	vf.Assert(err == nil && j != nil, "a file is not read")
	o, err2 := read[1-k](other)
	vf.Assert(err2 == nil && o != nil, "a file is not read")
	if j == nil || o == nil {
		return
	}
	vf.Eq("the object holds what the file holds", j.JSON(), b)
	vf.Assert(j.String() == string(b), "String is the content")
	vf.Assert(o.String() == `{"x":1}`, "the object holds what the other file holds")
	x, err := j.Get("b", "0")
	y, err2 := jin.Get(b, "b", "0")
	vf.Assert(sameErr(err, err2) && string(x) == string(y), "Get differs from the function")
	vf.Assert(o.AddKeyValueInt("y", 2) == nil && o.String() == `{"x":1,"y":2}`, "an object that was read cannot be edited")
	r, err := jin.AddKeyValueInt(b, "y", 2)
	err2 = j.AddKeyValueInt("y", 2)
	vf.Assert(sameErr(err, err2), "the method AddKeyValueInt differs from the function")
	if err == nil {
		vf.Eq("the method AddKeyValueInt differs from the function", j.JSON(), r)
	}
	z, err := read[k](name)
	vf.Assert(err == nil && z != nil && string(z.JSON()) == string(b), "a file that is read again is another one")
	n, err := read[k](name + ".none")
	vf.Assert(err != nil && n == nil, "a file that is not there is read")
}
