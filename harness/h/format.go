package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// layout writes the indented form of a node: every element on its own line.
func (d *D) layout(out []byte, n *N, level int) []byte {
	if n.K != 'o' && n.K != 'a' {
		return append(out, d.src(n)...)
	}
	op, cl := byte('{'), byte('}')
	if n.K == 'a' {
		op, cl = '[', ']'
	}
	line := func(l int) {
		out = append(out, '\n')
		for i := 0; i < l; i++ {
			out = append(out, '\t')
		}
	}
	out = append(out, op)
	for i, k := range n.Kids {
		if i > 0 {
			out = append(out, ',')
		}
		line(level + 1)
		if n.K == 'o' {
			out = append(out, '"')
			out = append(out, n.Keys[i]...)
			out = append(out, '"', ':')
		}
		out = d.layout(out, k, level+1)
	}
	if len(n.Kids) > 0 {
		line(level)
	}
	return append(out, cl)
}

// normal drops what the layout leaves open: blanks after a colon and
// whitespace inside an empty container.
func normal(b []byte) []byte {
	var out []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		out = append(out, c)
		if in {
			if c == '\\' && i+1 < len(b) {
				i++
				out = append(out, b[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		switch c {
		case '"':
			in = true
		case ':':
			for i+1 < len(b) && b[i+1] == ' ' {
				i++
			}
		case '[', '{':
			j := i + 1
			for j < len(b) && (b[j] == ' ' || b[j] == '\t' || b[j] == '\n' || b[j] == '\r') {
				j++
			}
			if j < len(b) && b[j] == c+2 {
				i = j - 1
			}
		}
	}
	return out
}

func checkFormat(d *D) {
	f := jin.Flatten(d.B)
	vf.Eq("Flatten drops exactly the whitespace outside strings", f, squeeze(d.B))
	vf.Eq("Flatten of a flat document", jin.Flatten(f), f)
	in := jin.Indent(d.B)
	vf.Eq("Indent adds only whitespace outside strings", squeeze(in), f)
	vf.Eq("Flatten undoes Indent", jin.Flatten(in), f)
	vf.Eq("Indent puts every element on its own line", normal(in), d.layout(nil, d.R, 0))
	vf.Eq("Indent of an indented document", jin.Indent(in), in)
}

func H_C20_full()   { checkFormat(doc(stylesAll, 1, 3, 6)) }
func H_C20_shapes() { checkFormat(doc(stylesAll, 2, 2, 2)) }

// H_C20_strings: long strings of free characters and escapes.
func H_C20_strings() {
	c := ctx{key: 0, ws: vf.Choose(3)}
	var t []byte
	for i := vf.Choose(5); i > 0; i-- {
		if vf.Choose(2) == 0 {
			t = append(t, sc())
		} else {
			t = append(t, '\\', es())
		}
	}
	s := &N{K: 's', T: t}
	r := &N{K: 'o', Keys: [][]byte{t}, Kids: []*N{s}}
	if vf.Choose(2) == 1 {
		r = &N{K: 'a', Kids: []*N{s, {K: 'a', Kids: []*N{{K: 's', T: t}}}}}
	}
	checkFormat(render(r, c))
}
