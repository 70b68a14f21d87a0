// Package h holds the verification harnesses: each H_Cxx_name function builds
// symbolic inputs, runs the real code on them and asserts the property.
package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// N is a node of a document under construction.
type N struct {
	K    byte // 'o' object, 'a' array, 's' string, 'v' other scalar
	T    []byte
	Keys [][]byte
	Kids []*N
	S, E int   // span of the text, quotes included
	KS   []int // start of the text of each name
}

// D is a rendered document.
type D struct {
	R *N
	B []byte
	c ctx
	// the document was read back, its names are not those of c
	read bool
	// the document is so large that only notable nodes are looked at
	vast bool
	// names and positions like those of the document are tried
	near bool
}

// ctx holds the symbolic bytes and style of a document.
type ctx struct {
	key, str, ws int
	k0, e0       byte
	w0, w1       byte
	hasK, hasE   bool
	hasW         bool
	gapNo        int
}

const quoteBackslash = "\"\\\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f"
const escSet = "\"\\/bfnrt"
const wsSet = " \t\n\r"

// sc is any byte a JSON string may hold as it is.
func sc() byte { return vf.ByteNotIn(quoteBackslash) }

// es is any one-letter escape.
func es() byte { return vf.ByteIn(escSet) }

func dig() byte { return vf.ByteIn("0123456789") }

func (c *ctx) K() byte {
	if !c.hasK {
		c.hasK = true
		c.k0 = sc()
	}
	return c.k0
}

func (c *ctx) E() byte {
	if !c.hasE {
		c.hasE = true
		c.e0 = es()
	}
	return c.e0
}

// name is the i-th member name in the document's style.
func (c *ctx) name(i int) []byte {
	l := byte('a' + i)
	switch c.key {
	case 1:
		return []byte{c.K(), l}
	case 2:
		return []byte{l, c.K()}
	case 3:
		return []byte{'\\', c.E(), l}
	case 4:
		return []byte{l, '\\', c.E()}
	case 5:
		b := make([]byte, i+1)
		for j := range b {
			b[j] = c.K()
		}
		return b
	case 6:
		if i == 0 {
			return []byte{}
		}
		return []byte{l}
	case 7:
		return []byte{byte('0' + i)}
	case 8:
		return []byte{'\\', c.E(), '\\', c.E(), l, c.K()}
	case 9: // many backslashes
		return append([]byte{l, c.K()}, slashes...)
	}
	return []byte{l}
}

// slashes is a long run of escaped backslashes.
const slashes = `\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\`

// text is a string content in the document's style.
func (c *ctx) text() []byte {
	switch c.str {
	case 0:
		return []byte{sc()}
	case 1:
		return []byte{}
	case 2:
		return []byte{sc(), sc()}
	case 3:
		return []byte{'\\', es()}
	case 4:
		return []byte{sc(), '\\', es()}
	case 5:
		return []byte{'\\', es(), sc()}
	case 6:
		return []byte{'\\', es(), '\\', es()}
	case 7:
		return []byte{'\\', 'u', '0', vf.ByteIn("0123456789abcdefABCDEF"), '4', vf.ByteIn("0123456789abcdefABCDEF")}
	case 8:
		return []byte{'x', 'y'}
	case 9: // looks like a container
		return []byte{'{', sc(), '}'}
	case 10:
		return []byte{'[', sc(), ']'}
	case 11:
		return []byte{sc(), '\\', es(), '\\', es(), sc()}
	case 12:
		return append([]byte{sc()}, slashes...)
	case 13:
		return append([]byte(slashes), '\\', '"')
	}
	return []byte{'z'}
}

// gap classes
const (
	gLead = 1 << iota
	gOpen
	gPreColon
	gPostColon
	gPreComma
	gPostComma
	gClose
	gTrail
	gEmpty
	gAll = 1<<iota - 1
)

func (c *ctx) gap(b []byte, class int) []byte {
	two := false
	mask := 0
	switch {
	case c.ws == 0:
		return b
	case c.ws == 1:
		mask = gAll
	case c.ws == 2:
		mask, two = gAll, true
	case c.ws == 3:
		mask = gAll &^ (gLead | gTrail)
	default:
		mask = 1 << uint(c.ws-4)
	}
	if mask&class == 0 {
		return b
	}
	if !c.hasW {
		c.hasW = true
		c.w0 = vf.ByteIn(wsSet)
		if two {
			c.w1 = vf.ByteIn(wsSet)
		}
	}
	b = append(b, c.w0)
	if two {
		b = append(b, c.w1)
	}
	return b
}

const nWS = 4 + 9

func (d *D) put(n *N) {
	n.S = len(d.B)
	switch n.K {
	case 's':
		d.B = append(d.B, '"')
		d.B = append(d.B, n.T...)
		d.B = append(d.B, '"')
	case 'v':
		d.B = append(d.B, n.T...)
	case 'o', 'a':
		op, cl := byte('{'), byte('}')
		if n.K == 'a' {
			op, cl = '[', ']'
		}
		d.B = append(d.B, op)
		n.KS = nil
		for i, k := range n.Kids {
			if i > 0 {
				d.B = d.c.gap(d.B, gPreComma)
				d.B = append(d.B, ',')
				d.B = d.c.gap(d.B, gPostComma)
			} else {
				d.B = d.c.gap(d.B, gOpen)
			}
			if n.K == 'o' {
				d.B = append(d.B, '"')
				n.KS = append(n.KS, len(d.B))
				d.B = append(d.B, n.Keys[i]...)
				d.B = append(d.B, '"')
				d.B = d.c.gap(d.B, gPreColon)
				d.B = append(d.B, ':')
				d.B = d.c.gap(d.B, gPostColon)
			}
			d.put(k)
		}
		if len(n.Kids) == 0 {
			d.B = d.c.gap(d.B, gEmpty)
		} else {
			d.B = d.c.gap(d.B, gClose)
		}
		d.B = append(d.B, cl)
	}
	n.E = len(d.B)
}

// render writes the document; extra is spare capacity after its end.
func render(r *N, c ctx) *D {
	d := &D{R: r, c: c, B: make([]byte, 0, 64)}
	d.B = d.c.gap(d.B, gLead)
	d.put(r)
	d.B = d.c.gap(d.B, gTrail)
	return d
}

// src is the source text of a node.
func (d *D) src(n *N) []byte { return d.B[n.S:n.E] }

// val is what a lookup of the node has to return.
func (d *D) val(n *N) []byte {
	if n.K == 's' {
		return d.B[n.S+1 : n.E-1]
	}
	return d.B[n.S:n.E]
}

// at is one node with its path.
type at struct {
	path []string
	n    *N
	up   *N
	i    int
}

func step(n *N, i int) string {
	if n.K == 'o' {
		return string(n.Keys[i])
	}
	return strconv.Itoa(i)
}

// all lists the nodes below the root in document order, with their paths: of
// a vast document the notable ones, else every one.
func (d *D) all() []at { return d.list(d.vast) }

// every lists every node below the root.
func (d *D) every() []at { return d.list(false) }

func (d *D) list(some bool) []at {
	var out []at
	deep := 0
	if some {
		deep = d.R.depth()
	}
	var rec func(n *N, path []string)
	rec = func(n *N, path []string) {
		for i, k := range n.Kids {
			if some && skip(i, len(n.Kids)) {
				continue
			}
			p := make([]string, 0, len(path)+1)
			p = append(append(p, path...), step(n, i))
			if !some || len(p) < 4 || len(p) > deep-2 || notable(len(p)) {
				out = append(out, at{p, k, n, i})
			}
			rec(k, p)
		}
	}
	rec(d.R, nil)
	return out
}

func (n *N) depth() int {
	m := 0
	for _, k := range n.Kids {
		if l := k.depth() + 1; l > m {
			m = l
		}
	}
	return m
}

// notable numbers are those next to powers of two and of ten.
func notable(i int) bool {
	switch i {
	case 0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536:
		return true
	}
	return false
}

// skip tells whether the i-th of n is left out of vast documents.
func skip(i, n int) bool { return n > 12 && i < n-1 && !notable(i) }

func (d *D) skip(i, n int) bool { return d.vast && skip(i, n) }

// nodes is all plus the root.
func (d *D) nodes() []at {
	return append([]at{{nil, d.R, nil, 0}}, d.all()...)
}

func eqB(a, b []byte) bool { return string(a) == string(b) }

func cp(b []byte) []byte { return append([]byte(nil), b...) }

// with is the document with the bytes s..e replaced.
func (d *D) with(s, e int, mid []byte) []byte {
	out := make([]byte, 0, len(d.B)+len(mid))
	out = append(out, d.B[:s]...)
	out = append(out, mid...)
	return append(out, d.B[e:]...)
}

// leaf makes a scalar: kind 0 string, 1 number, 2.. words.
func (c *ctx) leaf(kind int) *N {
	switch kind {
	case 0:
		return &N{K: 's', T: c.text()}
	case 1:
		return &N{K: 'v', T: []byte{dig()}}
	case 2:
		return &N{K: 'v', T: []byte("true")}
	case 3:
		return &N{K: 'v', T: []byte("null")}
	case 4:
		return &N{K: 'v', T: []byte{'-', dig(), '.', dig(), 'e', vf.ByteIn("+-"), dig()}}
	case 5:
		return &N{K: 'v', T: []byte("false")}
	}
	return &N{K: 'v', T: []byte{vf.ByteIn("123456789"), dig()}}
}

// tree enumerates every tree of at most the given depth and fan-out. With
// leaves == 1 every leaf is a string, with 2 string or number, and so on.
func (c *ctx) tree(depth, fan, leaves int) *N {
	n := leaves
	if depth > 0 {
		n += 2 * (fan + 1)
	}
	k := vf.Choose(n)
	if k < leaves {
		return c.leaf(k)
	}
	return c.branch(k-leaves, depth, fan, leaves)
}

// branch makes a container; k encodes kind and number of children.
func (c *ctx) branch(k, depth, fan, leaves int) *N {
	r := &N{K: 'o'}
	if k&1 != 0 {
		r.K = 'a'
	}
	for i := 0; i < k>>1; i++ {
		if r.K == 'o' {
			r.Keys = append(r.Keys, c.name(i))
		}
		r.Kids = append(r.Kids, c.tree(depth-1, fan, leaves))
	}
	return r
}

// root enumerates containers.
func (c *ctx) root(depth, fan, leaves int) *N {
	return c.branch(vf.Choose(2*(fan+1)), depth, fan, leaves)
}

// style picks one of the listed (key, string, whitespace) styles.
func style(list []int) ctx {
	k := vf.Choose(len(list) / 3)
	return ctx{key: list[3*k], str: list[3*k+1], ws: list[3*k+2]}
}

// stylesAll varies one dimension at a time around a base style and adds pairs.
var stylesAll = []int{
	1, 2, 0,
	0, 0, 1,
	1, 3, 2,
	2, 4, 3,
	3, 5, 0,
	4, 6, 1,
	5, 7, 0,
	6, 1, 1,
	7, 8, 2,
	8, 11, 0,
	9, 12, 0,
	9, 13, 1,
	1, 9, 1,
	2, 10, 0,
	0, 3, 4,
	0, 3, 5,
	0, 0, 6,
	0, 0, 7,
	0, 3, 8,
	0, 3, 9,
	0, 1, 10,
	0, 0, 11,
	0, 0, 12,
}

// stylesFew is a small selection.
var stylesFew = []int{
	1, 2, 0,
	2, 4, 1,
	4, 6, 3,
	5, 3, 0,
	6, 1, 0,
	9, 12, 0,
}

func doc(styles []int, depth, fan, leaves int) *D {
	c := style(styles)
	r := c.root(depth, fan, leaves)
	return render(r, c)
}

// miss is a path that designates nothing, with the error code it calls for;
// code < 0 stands for any error.
type miss struct {
	path []string
	code int
}

func ext(p []string, s ...string) []string {
	out := make([]string, 0, len(p)+len(s))
	return append(append(out, p...), s...)
}

// hasName tells whether an object has a member of that name. The names of a
// document are distinct by construction, so that comparing positions will do.
func (d *D) names(n *N) []string {
	var out []string
	for _, k := range n.Keys {
		out = append(out, string(k))
	}
	return out
}

// misses lists paths that designate nothing: below every node a name or
// position it lacks, among them the ones other nodes have.
func (d *D) misses(full bool) []miss {
	var out []miss
	if d.near {
		return d.nearMisses()
	}
	for _, a := range d.nodes() {
		switch a.n.K {
		case 'o':
			n := len(a.n.Keys)
			names := []string{string(d.c.name(n)), "none"}
			if d.read {
				names = []string{"none", "nonesuch"}
			} else if full {
				names = append(names, string(d.c.name(n+1)), "0x", "")
				if d.c.key == 6 && n > 0 {
					names = names[:len(names)-1]
				}
				if n > 0 {
					names = append(names, string(a.n.Keys[0])+"xyz")
				}
			}
			for _, m := range names {
				out = append(out, miss{ext(a.path, m), jin.ErrCodeKeyNotFound})
			}
			if full {
				out = append(out, miss{ext(a.path, "none", string(d.c.name(0))), jin.ErrCodeKeyNotFound})
				out = append(out, miss{ext(a.path, "none", "0"), jin.ErrCodeKeyNotFound})
			}
		case 'a':
			n := len(a.n.Kids)
			code := jin.ErrCodeIndexOutOfRange
			out = append(out, miss{ext(a.path, strconv.Itoa(n)), code})
			out = append(out, miss{ext(a.path, "a"), jin.ErrCodeIndexExpected})
			if full {
				out = append(out, miss{ext(a.path, strconv.Itoa(n+1)), code})
				out = append(out, miss{ext(a.path, strconv.Itoa(n+9)), code})
				out = append(out, miss{ext(a.path, "-1"), -1})
				out = append(out, miss{ext(a.path, ""), -1})
				out = append(out, miss{ext(a.path, strconv.Itoa(n), "0"), -1})
				out = append(out, miss{ext(a.path, strconv.Itoa(n), string(d.c.name(0))), -1})
			}
		default:
			out = append(out, miss{ext(a.path, string(d.c.name(0))), -1})
			out = append(out, miss{ext(a.path, "0"), -1})
			if full {
				out = append(out, miss{ext(a.path, string(d.c.name(1))), -1})
				out = append(out, miss{ext(a.path, "1"), -1})
				out = append(out, miss{ext(a.path, ""), -1})
				out = append(out, miss{ext(a.path, string(d.c.name(0)), string(d.c.name(0))), -1})
			}
		}
	}
	return out
}

// refused checks that an error is the one called for.
func (m miss) refused(err error) bool {
	if err == nil {
		return false
	}
	if m.code < 0 {
		return true
	}
	if jin.ErrEqual(err, m.code) {
		return true
	}
	return m.code == jin.ErrCodeIndexOutOfRange && jin.ErrEqual(err, jin.ErrCodeEmptyArray)
}
