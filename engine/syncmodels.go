package main

import (
	"go/types"
)

// Models of package sync beyond locks: maps, values, and locks outside Par.

func (w *W) anyTI() *TI { return w.p.ti(types.NewInterfaceType(nil, nil)) }

// smap is the map behind a sync.Map, kept in its first slot.
func (w *W) smap(v V) *MapV {
	o, i := w.ptrObj(v)
	if m, ok := o.s[i].p.(*MapV); ok {
		return m
	}
	w.touch(o)
	m := &MapV{base: w.baseMode, th: w.thID}
	o.s[i] = V{p: m}
	return m
}

func (w *W) smapSet(m *MapV, i int, k, v V) {
	w.touchMap(m)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (w *W) smapDel(m *MapV, i int) {
	w.touchMap(m)
	m.keys = append(append([]V(nil), m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]V(nil), m.vals[:i]...), m.vals[i+1:]...)
}

func syncMap(f func(w *W, m *MapV, at func(V) int, a []V) V) intrinsic {
	return func(w *W, fn *Fn, a []V) (V, bool) {
		w.syncPoint()
		o, i := w.ptrObj(a[0])
		w.acquire(o, i)
		w.release(o, i)
		m := w.smap(a[0])
		kt := w.anyTI()
		return f(w, m, func(k V) int { return w.mapFind(m, k, kt) }, a[1:]), true
	}
}

// heldLocks: locks are taken outside Par as well, so that one that is never
// given back stops the next call.
func (w *W) lockSeq(id lockID, read, try bool) bool {
	n := w.locks[id]
	if n == -1 || n > 0 && !read {
		if try {
			return false
		}
		panic(endPath{"steps", "lock taken twice"})
	}
	if w.locks == nil {
		w.locks = map[lockID]int{}
	}
	if read {
		w.locks[id]++
	} else {
		w.locks[id] = -1
	}
	return true
}

func (w *W) unlockSeq(id lockID, read bool) {
	n := w.locks[id]
	if read && n <= 0 || !read && n != -1 {
		panic(&TPanic{v: w.mkErr(mkStr("sync: unlock of unlocked mutex")), msg: "sync: unlock of unlocked mutex"})
	}
	if read {
		w.locks[id]--
	} else {
		w.locks[id] = 0
	}
}

func init() {
	intrinsics["(*sync.Map).Load"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		if i := at(a[0]); i >= 0 {
			return tup(m.vals[i], V{n: 1})
		}
		return tup(V{}, V{})
	})
	intrinsics["(*sync.Map).Store"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		w.smapSet(m, at(a[0]), a[0], a[1])
		return V{}
	})
	intrinsics["(*sync.Map).LoadOrStore"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		if i := at(a[0]); i >= 0 {
			return tup(m.vals[i], V{n: 1})
		}
		w.smapSet(m, -1, a[0], a[1])
		return tup(a[1], V{})
	})
	intrinsics["(*sync.Map).LoadAndDelete"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		if i := at(a[0]); i >= 0 {
			v := m.vals[i]
			w.smapDel(m, i)
			return tup(v, V{n: 1})
		}
		return tup(V{}, V{})
	})
	intrinsics["(*sync.Map).Delete"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		if i := at(a[0]); i >= 0 {
			w.smapDel(m, i)
		}
		return V{}
	})
	intrinsics["(*sync.Map).Swap"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		i := at(a[0])
		old := tup(V{}, V{})
		if i >= 0 {
			old = tup(m.vals[i], V{n: 1})
		}
		w.smapSet(m, i, a[0], a[1])
		return old
	})
	intrinsics["(*sync.Map).CompareAndSwap"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		i := at(a[0])
		if i < 0 || !w.decideBool(w.eqTerm(m.vals[i], a[1], w.anyTI())) {
			return V{}
		}
		w.smapSet(m, i, a[0], a[2])
		return V{n: 1}
	})
	intrinsics["(*sync.Map).Range"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		keys, vals := append([]V(nil), m.keys...), append([]V(nil), m.vals...)
		for i := range keys {
			if r := w.callClosure(a[0], []V{keys[i], vals[i]}); !w.truth(r) {
				break
			}
		}
		return V{}
	})
	intrinsics["(*sync.Map).Clear"] = syncMap(func(w *W, m *MapV, at func(V) int, a []V) V {
		w.touchMap(m)
		m.keys, m.vals = nil, nil
		return V{}
	})
	// atomic.Value: the interface is kept in the first slot.
	intrinsics["(*sync/atomic.Value).Load"] = func(w *W, fn *Fn, a []V) (V, bool) {
		o, i := w.ptrObj(a[0])
		w.syncPoint()
		w.acquire(o, i)
		return o.s[i], true
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(w *W, fn *Fn, a []V) (V, bool) {
		o, i := w.ptrObj(a[0])
		if a[1].p == nil {
			panic(&TPanic{v: w.mkErr(mkStr("sync/atomic: store of nil value into Value")), msg: "sync/atomic: store of nil value into Value"})
		}
		w.syncPoint()
		w.release(o, i)
		w.touch(o)
		o.s[i] = a[1]
		return V{}, true
	}
	intrinsics["(*sync/atomic.Value).Swap"] = func(w *W, fn *Fn, a []V) (V, bool) {
		o, i := w.ptrObj(a[0])
		w.syncPoint()
		w.acquire(o, i)
		w.release(o, i)
		w.touch(o)
		old := o.s[i]
		o.s[i] = a[1]
		return old, true
	}
	try := func(read bool) intrinsic {
		return func(w *W, fn *Fn, a []V) (V, bool) {
			if w.par != nil && w.par.cur != nil {
				w.incomplete("TryLock in two calls at once")
			}
			o, i := w.ptrObj(a[0])
			return b2n(w.lockSeq(lockID{o, i}, read, true)), true
		}
	}
	intrinsics["(*sync.Mutex).TryLock"] = try(false)
	intrinsics["(*sync.RWMutex).TryLock"] = try(false)
	intrinsics["(*sync.RWMutex).TryRLock"] = try(true)
	for _, n := range []string{"(*sync.Cond).Signal", "(*sync.Cond).Broadcast", "runtime.SetFinalizer", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock"} {
		intrinsics[n] = nop
	}
}

// spawn runs a goroutine to its end at once: one of its schedules.
func (w *W) spawn(d deferred) {
	w.ex.note("go statements are run to their end where they stand")
	w.runDeferred(d)
}

func (w *W) truth(r V) bool {
	if t, ok := r.p.(*Term); ok {
		return w.decideBool(t)
	}
	return r.n != 0
}
