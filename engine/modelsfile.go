package main

import "strconv"

// Files: what a harness puts into one is what reading it gives.

func init() {
	intrinsics["jinverif/vf.File"] = func(w *W, fn *Fn, a []V) (V, bool) {
		if w.files == nil {
			w.files = map[string]*Str{}
		}
		name := "/vf/file" + strconv.Itoa(len(w.files)) + ".json"
		w.files[name] = strOfSlots(append([]V(nil), w.bytesOf(a[0])...)).str()
		return mkStr(name), true
	}
	read := func(w *W, fn *Fn, a []V) (V, bool) {
		name := w.cstr(a[0])
		s := w.files[name]
		if s == nil {
			return tup(V{}, w.mkErr(mkStr("open "+name+": no such file or directory"))), true
		}
		// os.ReadFile reads into room for the file and a byte more, and no
		// less than 512
		n := s.len() + 1
		if n < 512 {
			n = 512
		}
		return tup(w.sliceOfStr(s, n), V{}), true
	}
	intrinsics["io/ioutil.ReadFile"] = read
	intrinsics["os.ReadFile"] = read
}
