package main

import "fmt"

// Two calls running concurrently (vf.Par). Each thread runs on its own
// goroutine, one at a time. Control may change hands at synchronisation
// operations only, as a decision of the path; every access to memory the
// threads can share is recorded with the locks held, and two conflicting
// accesses without a common lock are a data race. Threads whose accesses do
// not conflict commute, so that for them one schedule stands for all.

const maxSwitches = 3

type slotAcc struct {
	r, w [2]bool
	lr   [2]map[lockID]bool // locks held at every read so far
	lw   [2]map[lockID]bool
	er   [2]int // the thread's clock at its last read and write
	ew   [2]int
}

type access struct {
	slots map[int]*slotAcc
}

type lockID struct {
	o *Obj
	i int
}

type pthread struct {
	id     int32
	resume chan bool
	fn     V
	stk    []V
	sp     int
	depth  int
	panics []*TPanic
	held   map[lockID]int
	block  *lockID
	done   bool
	err    any
	vc     [2]int // what of both threads has happened before
}

type parState struct {
	th       [2]*pthread
	cur      *pthread
	yield    chan *pthread
	want     *pthread
	switches int
	syncs    int
	owner    map[lockID]*pthread
	readers  map[lockID]map[*pthread]int
	race     string
	maps     map[*MapV]*slotAcc
	accs     []*Obj
	once     map[lockID]bool   // the functions of sync.Once that run
	clk      map[lockID][2]int // what had happened when a place was released last
}

type killed struct{}

func copyLocks(h map[lockID]int) map[lockID]bool {
	m := map[lockID]bool{}
	for k, n := range h {
		if n > 0 {
			m[k] = true
		}
	}
	return m
}

func inter(a map[lockID]bool, h map[lockID]int) map[lockID]bool {
	for k := range a {
		if h[k] <= 0 {
			delete(a, k)
		}
	}
	return a
}

func disjoint(a, b map[lockID]bool) bool {
	for k := range a {
		if b[k] {
			return false
		}
	}
	return true
}

func (p *parState) rec(s *slotAcc, write bool, what string) {
	i := int(p.cur.id) - 1
	if write {
		if !s.w[i] {
			s.w[i], s.lw[i] = true, copyLocks(p.cur.held)
		} else {
			s.lw[i] = inter(s.lw[i], p.cur.held)
		}
	} else {
		if !s.r[i] {
			s.r[i], s.lr[i] = true, copyLocks(p.cur.held)
		} else {
			s.lr[i] = inter(s.lr[i], p.cur.held)
		}
	}
	if write {
		s.ew[i] = p.cur.vc[i]
	} else {
		s.er[i] = p.cur.vc[i]
	}
	// the other's accesses, if they have not happened before this one.
	j := 1 - i
	bad := s.w[j] && s.ew[j] > p.cur.vc[j] && (write && disjoint(s.lw[i], s.lw[j]) || !write && disjoint(s.lr[i], s.lw[j])) ||
		write && s.r[j] && s.er[j] > p.cur.vc[j] && disjoint(s.lw[i], s.lr[j])
	if bad && p.race == "" {
		p.race = what
	}
}

// acquire orders what comes after what was released at a place.
func (w *W) acquire(o *Obj, i int) {
	p := w.par
	if p == nil || p.cur == nil {
		return
	}
	c := p.clk[lockID{o, i}]
	for k := range c {
		if c[k] > p.cur.vc[k] {
			p.cur.vc[k] = c[k]
		}
	}
}

// release orders what has happened before what acquires the place later.
func (w *W) release(o *Obj, i int) {
	p := w.par
	if p == nil || p.cur == nil {
		return
	}
	c := p.clk[lockID{o, i}]
	for k := range c {
		if p.cur.vc[k] > c[k] {
			c[k] = p.cur.vc[k]
		}
	}
	p.clk[lockID{o, i}] = c
	p.cur.vc[p.cur.id-1]++
}

func (p *parState) access(w *W, o *Obj, off int, write bool) {
	if p.cur == nil || (!o.base && o.th == p.cur.id) {
		return
	}
	if o.acc == nil {
		o.acc = &access{slots: map[int]*slotAcc{}}
		p.accs = append(p.accs, o)
	}
	s := o.acc.slots[off]
	if s == nil {
		s = &slotAcc{}
		o.acc.slots[off] = s
	}
	where := ""
	if w.curFn != nil {
		where = " in " + w.curFn.name
	}
	p.rec(s, write, "two calls access the same memory, at least one of them writing"+where)
}

func (p *parState) accessN(w *W, o *Obj, off, n int, write bool) {
	for i := 0; i < n; i++ {
		p.access(w, o, off+i, write)
	}
}

func (p *parState) accessMap(w *W, m *MapV, write bool) {
	if p.cur == nil || (!m.base && m.th == p.cur.id) {
		return
	}
	s := p.maps[m]
	if s == nil {
		s = &slotAcc{}
		p.maps[m] = s
	}
	p.rec(s, write, "two calls access the same map, at least one of them writing")
}

// point is a place where the other thread may take over.
func (p *parState) point(w *W) {
	if p.cur == nil {
		return
	}
	p.syncs++
	o := p.other(p.cur)
	if o.done || o.block != nil || p.switches >= maxSwitches {
		return
	}
	if w.pick(func() []int64 { return []int64{0, 1} }) == 1 {
		p.switches++
		p.swap(w, o)
	}
}

func (p *parState) other(t *pthread) *pthread { return p.th[1-(int(t.id)-1)] }

// swap suspends the running thread in favour of o.
func (p *parState) swap(w *W, o *pthread) {
	t := p.cur
	t.stk, t.sp, t.depth, t.panics = w.stk, w.sp, w.depth, w.panics
	p.want = o
	p.yield <- t
	if !<-t.resume {
		panic(killed{})
	}
}

func (p *parState) kill() {
	for _, t := range p.th {
		if t != nil && !t.done {
			t.resume <- false
			<-p.yield
		}
	}
	for _, o := range p.accs {
		o.acc = nil
	}
}

func (w *W) runPar(args []V) {
	if w.par != nil {
		w.incomplete("nested Par")
	}
	p := &parState{yield: make(chan *pthread), owner: map[lockID]*pthread{}, readers: map[lockID]map[*pthread]int{}, maps: map[*MapV]*slotAcc{}, clk: map[lockID][2]int{}, once: map[lockID]bool{}}
	w.par = p
	stk, sp, depth, panics, th := w.stk, w.sp, w.depth, w.panics, w.thID
	for i := range p.th {
		t := &pthread{id: int32(i + 1), resume: make(chan bool), fn: args[i], held: map[lockID]int{}, depth: depth}
		t.vc[i] = 1
		if i == 0 {
			t.stk, t.sp = stk, sp
		} else {
			if w.stk2 == nil {
				w.stk2 = make([]V, 1<<15)
			}
			t.stk, t.sp = w.stk2, 0
		}
		p.th[i] = t
		go func() {
			if !<-t.resume {
				t.done = true
				p.yield <- t
				return
			}
			func() {
				defer func() { t.err = recover() }()
				w.callClosure(t.fn, nil)
			}()
			t.done = true
			p.yield <- t
		}()
	}
	next := p.th[0]
	for next != nil {
		p.cur = next
		w.stk, w.sp, w.depth, w.panics, w.thID = next.stk, next.sp, next.depth, next.panics, next.id
		next.resume <- true
		t := <-p.yield
		if t.err != nil {
			w.stk, w.sp, w.depth, w.panics, w.thID = stk, sp, depth, panics, th
			p.cur = nil
			panic(t.err)
		}
		next = nil
		switch {
		case !t.done && p.want != nil:
			next = p.want
		case !p.other(t).done:
			next = p.other(t)
		}
		p.want = nil
		if next != nil && next.block != nil {
			w.stk, w.sp, w.depth, w.panics, w.thID = stk, sp, depth, panics, th
			p.cur = nil
			w.incomplete("deadlock")
		}
	}
	w.stk, w.sp, w.depth, w.panics, w.thID = stk, sp, depth, panics, th
	p.cur = nil
	// locks the calls have not given back
	for id, t := range p.owner {
		if t != nil {
			w.lockSeq(id, false, true)
		}
	}
	for id, rs := range p.readers {
		for _, n := range rs {
			if n > 0 {
				w.lockSeq(id, true, true)
			}
		}
	}
	if p.race != "" && w.race == "" {
		w.race = p.race
	}
	if p.switches > 0 {
		w.schedSwitched = true
	}
	p.kill()
	w.par = nil
}

func (w *W) sharedRead(o *Obj, off, n int) {
	if w.par != nil && o != nil {
		w.par.accessN(w, o, off, n, false)
	}
}

func (w *W) sharedWrite(o *Obj, off, n int) {
	if w.par != nil && o != nil {
		w.par.accessN(w, o, off, n, true)
	}
}

func (w *W) syncPoint() {
	if w.par != nil {
		w.par.point(w)
	}
}

func lockIn(read bool) intrinsic {
	return func(w *W, fn *Fn, a []V) (V, bool) {
		p := w.par
		o, i := w.ptrObj(a[0])
		id := lockID{o, i}
		if p == nil || p.cur == nil {
			w.lockSeq(id, read, false)
			return V{}, true
		}
		if n := w.locks[id]; n == -1 || n > 0 && !read {
			panic(endPath{"steps", "lock never given back"})
		}
		p.point(w)
		for {
			t := p.cur
			busy := p.owner[id] != nil
			if !read {
				for x, n := range p.readers[id] {
					if n > 0 && x != t {
						busy = true
					}
				}
			}
			if !busy {
				break
			}
			if p.owner[id] == t {
				panic(endPath{"steps", "lock taken twice"})
			}
			other := p.other(t)
			if other.done || other.block != nil {
				panic(endPath{"steps", "deadlock"})
			}
			t.block = &id
			p.swap(w, other)
			t.block = nil
		}
		if read {
			if p.readers[id] == nil {
				p.readers[id] = map[*pthread]int{}
			}
			p.readers[id][p.cur]++
		} else {
			p.owner[id] = p.cur
		}
		p.cur.held[id]++
		w.acquire(o, i)
		return V{}, true
	}
}

func unlockIn(read bool) intrinsic {
	return func(w *W, fn *Fn, a []V) (V, bool) {
		p := w.par
		o, i := w.ptrObj(a[0])
		id := lockID{o, i}
		if p == nil || p.cur == nil {
			w.unlockSeq(id, read)
			return V{}, true
		}
		if read {
			p.readers[id][p.cur]--
		} else {
			p.owner[id] = nil
		}
		p.cur.held[id]--
		w.release(o, i)
		if o := p.other(p.cur); o.block != nil && *o.block == id {
			o.block = nil
		}
		p.point(w)
		return V{}, true
	}
}

func (p *parState) String() string { return fmt.Sprintf("%d syncs %d switches", p.syncs, p.switches) }
