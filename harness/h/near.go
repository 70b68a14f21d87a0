package h

import (
	"strconv"

	"jinverif/vf"

	"github.com/ecoshub/jin"
)

// nearTexts are documents whose names are easily taken for one another.
var nearTexts = []string{
	`{"ab":[1,"~"],"Cd":{"k":#,"is":[],"` + "\xc3\xa9" + `":{"x y":[[#],2]},"z":{}},"e\n":"~","0":[true],"A":{"ab":1,"a":{"b":"~"}}}`,
	`[{"ab":1,"aB":"~"},[#,[],{"ID":#,"id":"~"}],"~"]`,
	`{"error_code: 11":{"a":#},"a.b":["~"],"a":{"b":#,"/a":"~"},"aa":1,"ba":[2]}`,
	`{"100%d":[#],"first_rather_long_name":{"it_is_another_long_name":"~","%s":1},"name/with/steps":#,"name":{"with":{"steps":"~"}},"x,y":[]}`,
}

func nearDoc() *D {
	d := fill(nearTexts[vf.Choose(len(nearTexts))])
	d.near = true
	return d
}

// replaced is s with every old replaced.
func replaced(s, old, new string) string {
	out := ""
	for i := 0; i < len(s); {
		if i+len(old) <= len(s) && s[i:i+len(old)] == old {
			out += new
			i += len(old)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

// cases is s with its letters in lower case, in upper case, and each in the
// other one.
func cases(s string) []string {
	lo, up, sw := []byte(s), []byte(s), []byte(s)
	for i, c := range []byte(s) {
		switch {
		case c >= 'a' && c <= 'z':
			up[i], sw[i] = c-32, c-32
		case c >= 'A' && c <= 'Z':
			lo[i], sw[i] = c+32, c+32
		}
	}
	one := append([]byte{sw[0]}, s[1:]...)
	return []string{string(lo), string(up), string(sw), string(one)}
}

// variants are names like k that none of the others is; plain ones need no
// escapes.
func variants(k string, others []string, plain bool) []string {
	if k == "" {
		return nil
	}
	list := cases(k)
	list = append(list, k+" ", " "+k, k+k, k[:len(k)-1], k[1:], k+"0", "0"+k, k+".", "."+k, "$."+k, "/"+k, "["+k+"]", k+":", "'"+k+"'",
		replaced(k, "k", "\xe2\x84\xaa"), replaced(k, "s", "\xc5\xbf"), replaced(k, "\xc3\xa9", "e\xcc\x81"), replaced(k, "\xc3\xa9", "\xc3\x89"), replaced(k, "\xc3\xa9", "\xe9"), "\xef\xbb\xbf"+k, k+"\xe2\x80\x8b", k+"\xff", k+"*", "*")
	r := ""
	for i := range k {
		r = k[i:i+1] + r
	}
	list = append(list, r, k+"%d", "%s"+k, "%"+k)
	for _, i := range []int{0, len(k) / 2, len(k) - 2} {
		if i < 0 || i+1 >= len(k) {
			continue
		}
		list = append(list, k[:i]+k[i+1:i+2]+k[i:i+1]+k[i+2:])
		if k[i] < 'z' && k[i+1] > 'a' {
			list = append(list, k[:i]+string([]byte{k[i] + 1, k[i+1] - 1})+k[i+2:])
		}
	}
	if len(k) > 2 {
		i := len(k) / 2
		list = append(list, k[:i]+"_"+k[i+1:], k[:i]+k[i+1:], k[i:]+k[:i], k[len(k)-1:]+k[1:len(k)-1]+k[:1])
	}
	if !plain {
		list = append(list, k+"\x00", "\x00"+k, k+"\n", "\t"+k, `"`+k+`"`, k+`"`, k+`\`, `\u00`+hex(k[0])+k[1:], replaced(k, `\n`, "\n"), replaced(k, `\n`, `n`), replaced(k, `\n`, `\\n`), replaced(k, `\n`, ``))
	}
	var out []string
	for _, v := range list {
		if v == "" || has(others, v) || has(out, v) || plain && hasByte(v, '\\') {
			continue
		}
		out = append(out, v)
	}
	return out
}

func hasByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

func hex(c byte) string {
	const d = "0123456789abcdef"
	return d[c>>4:c>>4+1] + d[c&15:c&15+1]
}

// errTexts are what errors say.
func errTexts() []string {
	d := []byte(`{"a":[1],"b":{"c":"x"}}`)
	var out []string
	add := func(err error) {
		if err != nil && !has(out, err.Error()) {
			out = append(out, err.Error())
		}
	}
	for _, p := range [][]string{{}, {"n"}, {"a"}, {"a", "x"}, {"a", "7"}, {"b", "c"}, {"b", "c", "d"}} {
		_, err := jin.Get(d, p...)
		add(err)
		_, err = jin.Set(d, []byte("1"), p...)
		add(err)
		_, err = jin.SetKey(d, "b", p...)
		add(err)
		_, err = jin.SetKey(d, "", p...)
		add(err)
		_, err = jin.AddKeyValue(d, "c", []byte("1"), p...)
		add(err)
		_, err = jin.Add(d, []byte("1"), p...)
		add(err)
		_, err = jin.GetInt(d, p...)
		add(err)
		_, err = jin.GetFloat(d, p...)
		add(err)
		_, err = jin.GetBool(d, p...)
		add(err)
		add(jin.IterateArray(d, func([]byte) (bool, error) { return false, nil }, p...))
		add(jin.IterateKeyValue(d, func(_, _ []byte) (bool, error) { return false, nil }, p...))
	}
	out = append(out, "%d", "%v%s", "100%", "%%", "%[1]d", "%!d", "%", "a%02d")
	for _, c := range codes {
		out = append(out, "error_code: "+strconv.Itoa(c), "error code: "+strconv.Itoa(c), "#"+strconv.Itoa(c))
	}
	return out
}

// nearNames are new names for an object that are like one it has.
func (d *D) nearNames(n *N) []string {
	has := d.names(n)
	out := []string{"newk"}
	for _, k := range has {
		out = append(out, variants(k, append(has, out...), true)...)
	}
	return out
}

// far are positions that an array of n elements does not have but would
// have in fewer bits.
func far(n int) []int {
	out := []int{-1, -2, n + 1}
	for _, w := range []uint{7, 8, 15, 16, 31, 32, 33, 62} {
		out = append(out, 1<<w, 1<<w+1, 1<<w-1)
		if n > 0 {
			out = append(out, 1<<w+n-1, -(1<<w)+n-1, -(1 << w))
		}
	}
	const top = 1<<63 - 1
	out = append(out, top, top-1, -top-1, -top)
	var some []int
	for _, i := range out {
		if i < 0 || i > n {
			some = append(some, i)
		}
	}
	return some
}

// farTexts are texts that are no position.
func farTexts(n int) []string {
	var out []string
	for _, i := range far(n) {
		out = append(out, strconv.Itoa(i))
	}
	return append(out, "18446744073709551616", "18446744073709551617", "9223372036854775808", "-9223372036854775809", "36893488147419103232", "340282366920938463463374607431768211456", "0.0", "1e0", "0x0", "0_0", " 0", "0 ", "\xd9\xa0", "#0", "-", "last", "*")
}

func (d *D) nearMisses() []miss {
	var out []miss
	for _, a := range d.nodes() {
		switch a.n.K {
		case 'o':
			names := d.names(a.n)
			for _, k := range names {
				for _, v := range variants(k, names, false) {
					out = append(out, miss{ext(a.path, v), jin.ErrCodeKeyNotFound})
				}
			}
		case 'a':
			for _, t := range farTexts(len(a.n.Kids)) {
				out = append(out, miss{ext(a.path, t), -1})
			}
		}
	}
	return out
}

func H_C02_near() { checkMisses(nearDoc(), false) }
func H_C03_near() { checkSet(nearDoc(), false) }
func H_C04_near() { checkSetKey(nearDoc(), true) }
func H_C05_near() { checkAddKeyValue(nearDoc(), true) }
func H_C06_near() { checkAdd(nearDoc(), false) }
func H_C07_near() { checkInsert(nearDoc(), false) }
func H_C08_near() { checkDelete(nearDoc(), false) }
func H_C09_near() { checkStore(nearDoc(), true) }
func H_C13_near() { checkIterArray(nearDoc(), false) }
func H_C14_near() { checkIterKV(nearDoc(), false) }
func H_C15_near() { checkBulk(nearDoc(), false) }
func H_C16_near() { checkLength(nearDoc(), false) }
func H_C17_near() { checkTypes(nearDoc(), false) }
func H_C21_near() { checkParse(nearDoc(), false) }
func H_C29_near() {
	d := fill(nearTexts[1+vf.Choose(3)])
	d.near = true
	checkCauses(d, false)
}

// H_C29_texts: names that read like errors.
func H_C29_texts() {
	d := fill(`{"a":{"b":[#,"~"],"c":1},"d":[]}`)
	cs := catalogue()
	c := cs[vf.Choose(len(cs))]
	if c.name == "Walk" {
		return
	}
	at := [][]string{{}, {"a"}, {"a", "b"}, {"a", "c"}, {"d"}}
	for _, t := range errTexts() {
		for i, p := range at {
			a := d.forPath(ext(p, t), nil, 'x', '5')[0]
			var want []int
			if i < 2 && c.name != "SetKey" && !begins(c.name, "Store") {
				want = []int{jin.ErrCodeKeyNotFound}
			}
			c.forms(d.B, a, func(form string, o *out) {
				vf.Assert(o.err != nil || c.name == "AddKeyValue", form+": a path that designates nothing is accepted")
				named(form, o.err, want)
			})
			b := d.forPath(p, nil, 'x', '5')[0]
			b.key, b.s, b.v, b.keys = t, t, []byte(`"x"`), []string{t}
			c.forms(d.B, b, func(form string, o *out) { named(form, o.err, nil) })
		}
	}
	// the same text as an existing name
	for _, t := range errTexts() {
		if hasByte(t, '"') || hasByte(t, '\\') {
			continue
		}
		b := jin.MakeJson([]string{t, "z"}, []interface{}{"x", 1})
		_, err := jin.AddKeyValue(b, t, []byte("1"))
		named("AddKeyValue", err, []int{jin.ErrCodeKeyAlreadyExist})
		vf.Assert(err != nil, "a name is added twice")
		_, err = jin.SetKey(b, t, "z")
		named("SetKey", err, []int{jin.ErrCodeKeyAlreadyExist})
		vf.Assert(err != nil, "a name is given twice")
		_, err = jin.GetInt(b, t)
		named("GetInt", err, []int{jin.ErrCodeIntegerParse})
		_, err = jin.Get(b, t, "0")
		named("Get", err, nil)
		vf.Assert(err != nil, "a scalar has an element")
	}
}
