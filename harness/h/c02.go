package h

import (
	"jinverif/vf"

	"github.com/ecoshub/jin"
)

func checkMisses(d *D, full bool) {
	for _, m := range d.misses(full) {
		v, err := jin.Get(d.B, m.path...)
		if err == nil {
			vf.Obs("value", v)
			vf.Fail("a path that designates nothing yields a value")
		}
		vf.Assert(len(v) == 0, "an error comes with a value")
		vf.Assert(m.refused(err), "the error code does not fit")
	}
}

func H_C02_shapes() { checkMisses(doc(stylesAll, 2, 2, 2), true) }
func H_C02_deep()   { checkMisses(doc(stylesFew, 3, 2, 1), false) }
