package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// fill makes a document of a template: ~ stands for any string character,
// ^ for any escape letter, # for any digit, _ for any whitespace.
func fill(t string) *D {
	b := []byte(t)
	marks := make([]byte, len(b))
	for i, c := range b {
		switch c {
		case '~':
			marks[i], b[i] = c, 'x'
		case '^':
			marks[i], b[i] = c, 'n'
		case '#':
			marks[i], b[i] = c, '7'
		case '_':
			marks[i], b[i] = c, ' '
		}
	}
	d := scan(b)
	for i, m := range marks {
		switch m {
		case '~':
			b[i] = sc()
		case '^':
			b[i] = es()
		case '#':
			b[i] = dig()
		case '_':
			b[i] = vf.ByteIn(wsSet)
		}
	}
	return d
}

func rep(n int, s string) string {
	out := ""
	for i := 0; i < n; i++ {
		out += s
	}
	return out
}

// numbers lists lo..hi-1.
func numbers(lo, hi int) string {
	out := ""
	for i := lo; i < hi; i++ {
		out += strconv.Itoa(i) + ","
	}
	return out
}

// templates are documents with something long, deep, wide or misleading.
var templates = []string{
	// more than ten elements
	`["~0",#,[1,#],{"k~":2},"",null,[],{},"\^x",-#.5,"~]","b,[",12,{"a":[#,"~"]}]`,
	// more than ten members, some names used elsewhere
	`{"a":"~","b":#,"c":[1,"~"],"d":{"a":"~","e":#},"e":"","f":null,"g":[],"h":{},"i":"\^","j":true,"k":"{~","l":"a","m":{"b":[{"c":"~"}]},"aa":"n"}`,
	// names that appear as text, as values and at other depths
	`{"x":"\"a\":1,","y":{"a":"b","b":{"a":{"b":"~"},"c":"a"},"c":{"b":"a"}},"a":{"y":{"b":"x"},"b":[{"a":1},{"a":[2,{"a":"~"}]}]},"b":"a","0":{"1":["0",{"0":"~"}]},"1":[{"1":"0"}]}`,
	// long strings and names
	`{"` + "0123456789abcdefghijklmnopqrstuvwxyz~0123456789" + `":"` + "The quick brown {fox} jumps: over [the], lazy dog~ and then some more of that~" + `","k":["` + "0123456789abcdefghijklmnopqrstuvwxyz~" + `",{"0123456789abcdefghijklmnopqrstuvwxyz0123456789":#}],"z":1}`,
	// runs of backslashes
	`{"a":"\\","b":"~\\\\","c":"\\\"","d\\":"\^\\","e\"":["\\","\"","\\\\\\","\\\\\"",1],"f\^":{"g":"\\\\\"","h\\\\":2},"i":"\\\\\\\\","j":[0]}`,
	// layout with runs of whitespace
	"\r\n\t {\r\n\t\"a\" \t: \r\n[ \n\n1 , \t\r\n\"~ \" \n,\t\t{ \"b\"  :  null  }\n ,  [ \r\n ] , {\t} \t\t]  ,  \n\t\"c c\"\t:\t{\n\n\"d\"\n:\n\" ~\"\n,\n\"e\"\n:\n-#\n}\n,\n\"f\"   :   true   \n}\r\n\t ",
	// empty containers everywhere
	`[[],[[]],{},{"a":{}},"",[{}],[[[]],[]],{"b":[]},{"":""},[ ],{ },[[_],{_}],"~"]`,
	// words and numbers, and strings that look like them
	`{"a":true,"b":"true","c":null,"d":"null","e":-0,"f":1e5,"g":"1","h":12345678901234567890,"i":0.00000#,"j":-1.5E-10,"k":"-","l":false,"m":"[1]","n":"{\"a\":1}","o":"[","p":"}","q":"false"}`,
	// beyond ASCII
	"{\"\xc3\xa9\":\"\xc3\xbc~\",\"\\u00e9\":\"\\ud83d\\ude00\",\"\xe6\x97\xa5\xe6\x9c\xac\":[\"\xe8\xaa\x9e~\",{\"\xe6\x97\xa5\":\"\xe6\x9c\xac\"}],\"\xf0\x9f\x98\x80\":1,\"\xc3\":[\"\xff\xfe\",\"~\"]}",
	// names that begin or end alike
	`{"abc":1,"abd":"~","bbc":["abc"],"ab":#,"abcd":{"abc":"~","ab":{"a":1}},"a":["ab",{"abc":2}],"":{"":"x","b":{"":#}},"bc":"","c":0}`,
	// strings full of structure
	`{"a":"},{","b":["],[",",","{","~"],"c":{"}":"{","]":"[",",":":",":":","},"{":1,"[":{"]":"~"},"\":":[{"{\"":":\""}],"d":"\",\"a\":\""}`,
	// much before and after the place looked at
	`{"a":{"b":{"c":1}},"d":{"b":{"c":"~"},"a":{"b":{}}},"b":{"c":2},"c":[[1,[2]],[3,[4,{"b":5,"c":[6]}]],"c"],"e":[{"a":1},{"a":2},{"a":{"b":3}}]}`,
	// a large array
	`[` + numbers(0, 34) + `["~"],{"a":#}]`,
	// levels of arrays, of objects, and of both
	`["~",` + rep(17, `["a",`) + `[#]` + rep(17, `,2]`) + `,3]`,
	rep(10, `{"a":"b","b":`) + `{"a":"~","b":#}` + rep(10, `,"c":{"b":1}}`),
	rep(5, `[{"x":0},{"a":`) + `[1,"~"]` + rep(5, `,"b":[]},"z"]`),
	rep(5, `{"a":1,"k~":[[],`) + `{"b":#}` + rep(5, `,"]"],"n":{}}`),
}

// big is one of the templates.
func big() *D { return fill(templates[vf.Choose(len(templates))]) }

func H_C01_big() { checkLookups(big()) }
func H_C02_big() { checkMisses(big(), false) }
func H_C03_big() { checkSet(big(), false) }
func H_C04_big() { checkSetKey(big(), false) }
func H_C05_big() { checkAddKeyValue(big(), false) }
func H_C06_big() { checkAdd(big(), false) }
func H_C07_big() { checkInsert(big(), false) }
func H_C08_big() { checkDelete(big(), false) }
func H_C09_big() { checkStore(big(), false) }
func H_C13_big() { checkIterArray(big(), false) }
func H_C14_big() { checkIterKV(big(), false) }
func H_C15_big() { checkBulk(big(), false) }
func H_C16_big() { checkLength(big(), false) }
func H_C17_big() { checkTypes(big(), false) }
func H_C20_big() { checkFormat(big()) }
func H_C21_big() { checkParse(big(), false) }
func H_C26_big() { checkWalk(big(), false, false) }

// H_C19_big: every array of the large documents.
func H_C19_big() {
	d := big()
	for _, a := range d.all() {
		if a.n.K != 'a' {
			continue
		}
		val := func(i int) []byte { return d.val(a.n.Kids[i]) }
		for _, r := range readers(d.B) {
			v, err := r.sa(a.path...)
			vf.Assert(err == nil, r.name+": GetStringArray fails")
			list(r.name+": GetStringArray", v, len(a.n.Kids), val)
		}
		list("ParseArray", jin.ParseArray(string(d.src(a.n))), len(a.n.Kids), val)
	}
}

// near compares the lookups around a path with those of the text.
func near(p *jin.Parser, b []byte, path []string) {
	d := scan(b)
	vf.Assert(d != nil, "the document is not well-formed any more")
	if d == nil {
		return
	}
	up := 0
	if len(path) > 0 {
		up = len(path) - 1
	}
	left := 16
	for _, a := range d.nodes() {
		if len(a.path) == 0 || len(a.path) < up || left == 0 {
			continue
		}
		in := true
		for i := 0; i < up; i++ {
			in = in && a.path[i] == path[i]
		}
		if !in {
			continue
		}
		left--
		v, err := p.Get(a.path...)
		vf.Assert(err == nil, "the parsed document does not find a value")
		vf.Eq("the parsed document finds the value", v, d.val(a.n))
		vf.Eq("the value written out again is the value", squeeze(p.GetNew(a.path...)), squeeze(v))
	}
}

// H_C22_big: one edit of every kind at every place of the large documents.
func H_C22_big() {
	d := big()
	op := vf.Choose(nOps)
	v := seqVals()[1]
	try := func(e edit) {
		p, err := jin.Parse(d.B)
		vf.Assert(err == nil, "a well-formed document does not parse")
		if err == nil {
			near(p, e.both(p, d.B), e.path)
		}
	}
	for _, a := range d.nodes() {
		e := edit{op: op, key: "new", val: v, path: a.path}
		try(e)
		if op == 4 && a.n.K == 'a' {
			for e.idx = 1; e.idx <= len(a.n.Kids); e.idx++ {
				try(e)
			}
		}
		if op == 2 && len(a.n.Keys) > 0 {
			e.key = string(a.n.Keys[0])
			try(e)
		}
		if op == 1 && len(a.path) > 0 && a.up.K == 'o' {
			for _, k := range []int{0, len(a.up.Keys) - 1} {
				e.key = string(a.up.Keys[k])
				try(e)
			}
		}
	}
}

// H_C22_long: long histories of edits of one document.
func H_C22_long() {
	starts := []string{`{}`, `[]`, `{"a":[1,{"b":"~"}],"c":{"d":#}}`, `[{"a":1},[#,[2]],"~"]`}
	d := fill(starts[vf.Choose(len(starts))])
	turn, skip := vf.Choose(3), vf.Choose(3)
	vs := append(seqVals(), []byte(`{"r":[{"s":1},2,[3]],"t":{"u":{}}}`), []byte("7"))
	p, err := jin.Parse(d.B)
	vf.Assert(err == nil, "a well-formed document does not parse")
	if err != nil {
		return
	}
	b := d.B
	n := 14
	if vf.Thorough() {
		n = 40
	}
	for i := 0; i < n; i++ {
		d = same(p, b)
		if d == nil {
			return
		}
		ns := d.nodes()
		a := ns[(i*(5+2*turn)+skip)%len(ns)]
		e := edit{key: "n" + strconv.Itoa(i), val: vs[(i+turn)%len(vs)], path: a.path}
		switch {
		case i%4 == 3:
			e.op = 5
		case i%7 == 5:
			e.op = 0
		case i%7 == 6:
			e.op = 1
		case a.n.K == 'o':
			e.op = 2
		case a.n.K == 'a':
			e.op = 3 + i%2
			e.idx = (i + skip) % (len(a.n.Kids) + 1)
		}
		b = e.both(p, b)
	}
	same(p, b)
}

// bigOf is one of the templates listed, or any of them in the thorough tier.
func bigOf(list ...int) *D {
	if vf.Thorough() {
		return big()
	}
	return fill(templates[list[vf.Choose(len(list))]])
}

// H_C10_big: refused edits of the large documents.
func H_C10_big() {
	d := bigOf(1, 2, 5, 10, 13, 15)
	cs := edits()
	c := cs[vf.Choose(len(cs))]
	sites := d.fewSites()
	for _, m := range d.misses(false) {
		sites = append(sites, d.forPath(m.path, nil, 'x', '5')[0])
	}
	for _, a := range sites {
		o := c.f(d.B, a)
		if o.err != nil {
			vf.Eq(c.name+": a refused edit hands the document back", o.doc, d.B)
		}
		if c.j != nil {
			j := jin.New(cp(d.B))
			if o := c.j(j, a); o.err != nil {
				vf.Eq(c.name+": a refused edit leaves the JSON object", j.JSON(), d.B)
			}
		}
		if c.p != nil {
			p, err := jin.Parse(cp(d.B))
			vf.Assert(err == nil, "a well-formed document does not parse")
			if err != nil {
				return
			}
			if o := c.p(p, a); o.err != nil {
				vf.Eq(c.name+": a refused edit leaves the parsed document", p.JSON(), d.B)
				vf.Eq(c.name+": a refused edit changes the tree", squeeze(p.GetNew()), squeeze(d.B))
			}
		}
	}
}

// H_C11_big: the arguments of calls on the large documents.
func H_C11_big() {
	d := bigOf(1, 3, 5, 8, 10, 15)
	cs := append(catalogue(), more()...)
	c := cs[vf.Choose(len(cs))]
	for _, a := range d.fewSites() {
		guarded(c, d, a, c.f)
		if c.j != nil {
			guarded(c, d, a, func(b []byte, a *args) out { return c.j(jin.New(b), a) })
		}
		if c.p != nil {
			guarded(c, d, a, func(b []byte, a *args) out {
				p, err := jin.Parse(b)
				if err != nil {
					return out{err: err}
				}
				return c.p(p, a)
			})
		}
	}
}

// H_C27_big: the methods on the large documents.
func H_C27_big() {
	d := bigOf(1, 3, 5, 8, 10, 15)
	cs := catalogue()
	c := cs[vf.Choose(len(cs))]
	if c.j == nil {
		return
	}
	for _, a := range d.fewSites() {
		j := jin.New(cp(d.B))
		o := c.f(cp(d.B), a)
		r := c.j(j, a)
		sameOut(&r, &o, true, "the method "+c.name+" differs from the function")
		o = c.f(o.doc, a)
		r = c.j(j, a)
		sameOut(&r, &o, true, "a second call of the method "+c.name+" differs from the function")
	}
}
