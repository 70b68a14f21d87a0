package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

func checkLookups(d *D) {
	in := cp(d.B)
	for _, a := range d.all() {
		v, err := jin.Get(d.B, a.path...)
		if err != nil {
			vf.Obs("path", []byte(a.path[len(a.path)-1]))
			vf.Fail("lookup of an existing path fails")
		}
		vf.Eq("lookup returns the value's text", v, d.val(a.n))
		vf.Obs("v", v)
	}
	v, err := jin.Get(d.B)
	vf.Assert(err == nil && eqB(v, in), "empty path returns the document")
}

func H_C01_shapes() {
	checkLookups(doc(stylesAll, 2, 2, 2))
}

func H_C01_deep() {
	checkLookups(doc(stylesFew, 3, 2, 1))
}
