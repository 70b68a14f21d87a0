package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

var allCodes = append([]int{
	jin.ErrCodeStringArrayParse, jin.ErrCodeIntegerArrayParse, jin.ErrCodeFloatArrayParse, jin.ErrCodeBoolArrayParse,
}, codes...)

func begins(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// orEmpty lists a code; an empty container may be called empty as well.
func orEmpty(n *N, code int) []int {
	if n.K != 's' && n.K != 'v' && len(n.Kids) == 0 {
		return []int{code, jin.ErrCodeEmpty}
	}
	return []int{code}
}

// causes lists the codes an error of the operation may have at a place that
// exists; nil stands for any.
func causes(name string, n *N, up *N, a *args) []int {
	switch {
	case name == "SetKey":
		switch {
		case a.key == "" && up == nil:
			return []int{jin.ErrCodeNullKey, jin.ErrCodeNullPath}
		case a.key == "":
			return []int{jin.ErrCodeNullKey}
		case up == nil:
			return []int{jin.ErrCodeNullPath}
		case up.K == 'a':
			return []int{jin.ErrCodeIndexExpected, jin.ErrCodeObjectExpected, jin.ErrCodeIndexOutOfRange, jin.ErrCodeKeyAlreadyExist}
		}
		return []int{jin.ErrCodeKeyAlreadyExist}
	case begins(name, "Set"), name == "Delete":
		return []int{jin.ErrCodeNullPath}
	case begins(name, "AddKeyValue"):
		switch {
		case a.key == "":
			return []int{jin.ErrCodeNullKey, jin.ErrCodeObjectExpected, jin.ErrCodeKeyAlreadyExist}
		case n.K != 'o':
			return []int{jin.ErrCodeObjectExpected}
		}
		return []int{jin.ErrCodeKeyAlreadyExist}
	case begins(name, "Add"):
		return []int{jin.ErrCodeArrayExpected}
	case begins(name, "Insert"):
		switch {
		case n.K != 'a' && a.i < 0:
			return []int{jin.ErrCodeArrayExpected, jin.ErrCodeIndexOutOfRange}
		case n.K != 'a':
			return []int{jin.ErrCodeArrayExpected}
		case len(n.Kids) == 0:
			return []int{jin.ErrCodeIndexOutOfRange, jin.ErrCodeEmptyArray}
		}
		return []int{jin.ErrCodeIndexOutOfRange}
	case begins(name, "Store"):
		switch n.K {
		case 'o':
			return []int{jin.ErrCodeNullKey}
		case 'a':
			return []int{jin.ErrCodeIndexExpected, jin.ErrCodeIndexOutOfRange, jin.ErrCodeEmptyArray}
		}
		return []int{jin.ErrCodeObjectExpected, jin.ErrCodeKeyNotFound, jin.ErrCodeIndexOutOfRange}
	case name == "GetInt":
		return []int{jin.ErrCodeIntegerParse}
	case name == "GetFloat":
		return []int{jin.ErrCodeFloatParse}
	case name == "GetBool":
		return []int{jin.ErrCodeBoolParse}
	case name == "GetStringArray":
		return []int{jin.ErrCodeStringArrayParse}
	case name == "GetIntArray":
		return []int{jin.ErrCodeIntegerArrayParse, jin.ErrCodeIntegerParse}
	case name == "GetFloatArray":
		return []int{jin.ErrCodeFloatArrayParse, jin.ErrCodeFloatParse}
	case name == "GetBoolArray":
		return []int{jin.ErrCodeBoolArrayParse, jin.ErrCodeBoolParse}
	case name == "GetKeys", name == "GetValues", name == "GetKeysValues":
		if n.K == 'o' {
			return []int{jin.ErrCodeEmpty}
		}
		return orEmpty(n, jin.ErrCodeObjectExpected)
	case name == "IterateArray":
		if n.K == 'a' {
			return []int{jin.ErrCodeEmpty, jin.ErrCodeEmptyArray}
		}
		return orEmpty(n, jin.ErrCodeArrayExpected)
	case name == "IterateKeyValue":
		if n.K == 'o' {
			return []int{jin.ErrCodeEmpty}
		}
		return orEmpty(n, jin.ErrCodeObjectExpected)
	case name == "GetAll", name == "GetAllMap":
		if n.K == 'o' {
			return []int{jin.ErrCodeKeyNotFound}
		}
		return []int{jin.ErrCodeKeyNotFound, jin.ErrCodeIndexExpected, jin.ErrCodeIndexOutOfRange, jin.ErrCodeEmptyArray}
	}
	return nil
}

// named asserts that an error has exactly one code, and one of those listed.
func named(name string, err error, want []int) {
	if err == nil {
		return
	}
	n, fits := 0, want == nil
	for _, c := range allCodes {
		if jin.ErrEqual(err, c) {
			n++
			for _, w := range want {
				fits = fits || w == c
			}
		}
	}
	vf.Assert(n == 1, name+": an error has not exactly one code")
	vf.Assert(fits, name+": an error names another cause")
}

// forms runs a call in its three forms.
func (c call) forms(b []byte, a *args, use func(form string, o *out)) {
	o := c.f(b, a)
	use(c.name, &o)
	if c.j != nil {
		o := c.j(jin.New(cp(b)), a)
		use("method "+c.name, &o)
	}
	if c.p != nil {
		p, err := jin.Parse(cp(b))
		vf.Assert(err == nil, "a well-formed document does not parse")
		if err == nil {
			o := c.p(p, a)
			use("parser's "+c.name, &o)
		}
	}
}

func checkCauses(d *D, full bool) {
	cs := catalogue()
	c := cs[vf.Choose(len(cs))]
	if c.name == "Walk" {
		return
	}
	x, y := sc(), dig()
	for i, t := range d.nodes() {
		if d.vast && i > 4 && i%6 != 0 {
			continue
		}
		as := d.forPath(t.path, t.n, x, y)
		if !full {
			as = as[:2]
		}
		for _, a := range as {
			a.stop = plan{-1, 0}
			want := causes(c.name, t.n, t.up, a)
			c.forms(d.B, a, func(form string, o *out) { named(form, o.err, want) })
		}
		if c.edit {
			e := d.forPath(t.path, t.n, x, y)[0]
			e.key = ""
			want := causes(c.name, t.n, t.up, e)
			c.forms(d.B, e, func(form string, o *out) { named(form, o.err, want) })
		}
	}
	for _, m := range d.misses(full) {
		a := d.forPath(m.path, nil, x, y)[0]
		a.stop = plan{-1, 0}
		c.forms(d.B, a, func(form string, o *out) {
			vf.Assert(o.err != nil, form+": a path that designates nothing is accepted")
			want := []int{jin.ErrCodeKeyNotFound, jin.ErrCodeIndexExpected, jin.ErrCodeIndexOutOfRange, jin.ErrCodeEmptyArray}
			switch {
			case m.code < 0 || c.name == "SetKey" || c.name == "GetAll" || c.name == "GetAllMap" || begins(c.name, "Store"):
			case form[0] == 'p':
				want = []int{m.code, jin.ErrCodeKeyNotFound}
			case m.code == jin.ErrCodeIndexOutOfRange:
				want = []int{m.code, jin.ErrCodeEmptyArray}
			default:
				want = []int{m.code}
			}
			if form[0] == 'p' && m.code == jin.ErrCodeIndexOutOfRange {
				want = append(want, jin.ErrCodeEmptyArray)
			}
			if len(d.R.Kids) == 0 {
				want = append(want, jin.ErrCodeEmpty)
			}
			named(form, o.err, want)
		})
	}
}

func H_C29_full()   { checkCauses(doc(stylesFew, 1, 2, 3), true) }
func H_C29_shapes() { checkCauses(doc(stylesFew[:3], 2, 1, 1), false) }
func H_C29_big()    { checkCauses(bigOf(1, 2, 8, 10, 14), false) }

// H_C29_equal: ErrEqual tells codes from everything else.
func H_C29_equal() {
	for _, c := range allCodes {
		vf.Assert(!jin.ErrEqual(nil, c), "ErrEqual takes nil for an error")
	}
	doc := []byte(`{"a":1}`)
	n := vf.Choose(4)
	k := make([]byte, n)
	for i := range k {
		k[i] = vf.ByteNotIn("")
	}
	vf.Assume(!eqB(k, []byte("a")))
	_, err := jin.Get(doc, string(k))
	vf.Assert(err != nil, "a missing name is found")
	named("Get", err, []int{jin.ErrCodeKeyNotFound})
	vf.Assert(!jin.ErrEqual(err, 1) && !jin.ErrEqual(err, -8) && !jin.ErrEqual(err, 88), "ErrEqual takes a number that is no code for one")
}
