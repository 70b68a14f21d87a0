package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Task is one path prefix still to be explored.
type Task struct {
	h      *Harness
	prefix []int64
}

// Harness is one verification entry point.
type Harness struct {
	name  string
	fn    *Fn
	stack []*Task
	used  time.Duration

	paths, infeasible, incompleteN, failPaths int64
	steps, asserts, folded, queries           int64
	decisions, nodes                          int64
	maxPicks, maxVars                         int
	covers                                    map[string]bool
	incomplete                                map[string]int
	truncated                                 bool
	samples                                   []*sample
	cands                                     map[string][]*sample
	ncand                                     int
}

type sample struct {
	h      *Harness
	kind   string
	label  string
	inputs []int64
	obs    []obsVal
	sched  bool
}

type obsVal struct {
	Label string `json:"l"`
	Val   string `json:"v"`
}

// Explorer coordinates the workers.
type Explorer struct {
	p          *Prog
	mu         sync.Mutex
	cond       *sync.Cond
	hs         []*Harness
	active     int
	stopped    bool
	deadline   time.Time
	thorough   bool
	models     map[string]*Fn
	folded     int64
	notes      []string
	ufs        map[string]int
	fnSeen     map[*Fn]bool
	start      time.Time
	stepLimit  int64
	workers    []*W
	candMax    int
	sampleMax  int
	confirm    func(c *sample) bool // native replay of a candidate
	confirmed  []*violation
	unconf     []string
	crossN     int64
	crossBad   int64
	pcChecks   int64
	pcUnsat    int64
	unkQueries int64
	batches    int64
	batchPaths int64
	batchBad   int64
}

type violation struct {
	s      *sample
	native string
}

func (e *Explorer) note(s string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, n := range e.notes {
		if n == s {
			return
		}
	}
	e.notes = append(e.notes, s)
}

func (e *Explorer) noteIncomplete(h *Harness, reason string) {
	e.mu.Lock()
	h.incomplete[reason]++
	e.mu.Unlock()
}

func (e *Explorer) stat(p *int64) { atomic.AddInt64(p, 1) }

func (e *Explorer) ufID(worker int, key string) (int, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key = fmt.Sprint(worker, ":", key)
	if id, ok := e.ufs[key]; ok {
		return id, true
	}
	id := len(e.ufs) + 1
	e.ufs[key] = id
	return id, false
}

func (e *Explorer) push(t *Task) {
	e.mu.Lock()
	t.h.stack = append(t.h.stack, t)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() *Task {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped {
			return nil
		}
		if time.Now().After(e.deadline) {
			for _, h := range e.hs {
				if len(h.stack) > 0 {
					h.truncated = true
				}
			}
			e.stopped = true
			e.cond.Broadcast()
			return nil
		}
		var best *Harness
		for _, h := range e.hs {
			if len(h.stack) > 0 && (best == nil || h.used < best.used) {
				best = h
			}
		}
		if best != nil {
			n := len(best.stack)
			t := best.stack[n-1]
			best.stack[n-1] = nil
			best.stack = best.stack[:n-1]
			e.active++
			return t
		}
		if e.active == 0 {
			e.stopped = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done(h *Harness, d time.Duration) {
	e.mu.Lock()
	e.active--
	h.used += d
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) run(nw int) {
	e.cond = sync.NewCond(&e.mu)
	e.start = time.Now()
	for _, h := range e.hs {
		h.stack = append(h.stack, &Task{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		w := newW(i, e)
		e.workers = append(e.workers, w)
	}
	for _, w := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t := e.pop()
				if t == nil {
					break
				}
				t0 := time.Now()
				w.runTask(t)
				e.done(t.h, time.Since(t0))
			}
			w.flush()
			w.z.stop()
			if w.z2 != nil {
				w.z2.stop()
			}
		}()
	}
	wg.Wait()
}

func newW(i int, e *Explorer) *W {
	w := &W{id: i, p: e.p, ex: e}
	w.stk = make([]V, 1<<16)
	w.z = newSolver("z3", "-in")
	w.inited = nil
	w.resetTables()
	w.resetHeap()
	return w
}

type batchItem struct {
	pc, raw []*Term
}

// flush asks the solver, for a batch of finished paths, whether any of them has
// an assignment that breaks one of the equalities asserted on it.
func (w *W) flush() {
	if len(w.batch) == 0 {
		return
	}
	r := w.z.checkBatch(w.batch)
	atomic.AddInt64(&w.ex.batches, 1)
	atomic.AddInt64(&w.ex.batchPaths, int64(len(w.batch)))
	switch r {
	case "sat":
		w.ex.note("the solver refutes an equality decided by rewriting")
		atomic.AddInt64(&w.ex.batchBad, 1)
	case "unknown":
		atomic.AddInt64(&w.ex.unkQueries, 1)
	}
	w.batch = w.batch[:0]
}

func (w *W) resetTables() {
	if w.ts != nil {
		w.flush()
	}
	w.ts = newTerms()
	w.sums = map[sumKey]*sumVal{}
	w.z.stop()
	if w.z2 != nil {
		w.z2.stop()
	}
}

func (w *W) resetHeap() {
	w.globs = nil
	w.inited = map[pkgKey]bool{}
}

func (w *W) runTask(t *Task) {
	if len(w.ts.m) > 600000 {
		w.resetTables()
	}
	w.task = t
	w.epoch++
	w.prefix = append([]int64(nil), t.prefix...)
	w.npick = 0
	w.picks = w.picks[:0]
	w.dom = w.dom[:0]
	w.dom0 = w.dom0[:0]
	w.ent = w.ent[:0]
	w.pc = w.pc[:0]
	w.multi = w.multi[:0]
	w.eqs = w.eqs[:0]
	w.asserts = w.asserts[:0]
	w.inputs = w.inputs[:0]
	w.obs = w.obs[:0]
	w.covers = map[string]bool{}
	w.steps = 0
	w.limit = w.ex.stepLimit
	w.depth = 0
	w.spec = 0
	w.sp = 0
	w.fnSeen = map[*Fn]bool{}
	w.decs = map[int32]decRec{}
	w.panics = nil
	w.thID = 0
	w.race = ""
	w.raw = w.raw[:0]
	w.schedSwitched = false
	w.par = nil
	w.pools = map[*Obj][]V{}
	w.locks = nil
	w.files = nil
	w.foldedN = 0

	kind, why := "done", ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case endPath:
				kind, why = x.kind, x.reason
			case *TPanic:
				kind, why = "panic", x.msg
			default:
				kind, why = "incomplete", fmt.Sprintf("engine: %v", r)
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}()
		w.callFn(t.h.fn, nil, nil)
	}()
	if w.par != nil {
		w.par.kill()
		w.par = nil
	}
	w.baseMode = false
	for i := len(w.journal) - 1; i >= 0; i-- {
		copy(w.journal[i].o.s, w.journal[i].save)
	}
	w.journal = w.journal[:0]
	for i := len(w.mjournal) - 1; i >= 0; i-- {
		w.mjournal[i].m.keys, w.mjournal[i].m.vals = w.mjournal[i].k, w.mjournal[i].v
	}
	w.mjournal = w.mjournal[:0]
	// clear the register stack so that old heaps can be collected
	if w.npath++; w.npath%256 == 0 {
		clear(w.stk)
	}
	w.finish(t.h, kind, why)
}

func hashInputs(in []int64) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range in {
		for i := 0; i < 8; i++ {
			h ^= uint64(byte(x >> (8 * i)))
			h *= 1099511628211
		}
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

func (w *W) finish(h *Harness, kind, why string) {
	e := w.ex
	pick := hashInputs(w.picks)
	var verdicts []string
	var cand *sample
	q0 := w.z.queries
	switch kind {
	case "infeasible":
	case "incomplete":
	default:
		// the solver's verdict on this path
		var neg *Term
		label := ""
		for _, a := range w.asserts {
			n := w.ts.not(a.t)
			if neg == nil {
				neg = n
			} else {
				neg = w.ts.or(neg, n)
			}
		}
		_ = label
		nv := len(w.dom)
		if neg != nil {
			r, model := w.z.check(append(append([]*Term{}, w.pc...), neg), nv)
			verdicts = append(verdicts, r)
			switch r {
			case "sat":
				lab := "assert"
				for _, a := range w.asserts {
					if a.t.eval(model) == 0 {
						lab = a.label
						break
					}
				}
				cand = w.mkSample(h, "fail", lab, model)
			case "unknown":
				atomic.AddInt64(&e.unkQueries, 1)
				e.noteIncomplete(h, "solver gave no answer")
			default:
				if e.thorough && pick%16 == 0 {
					w.cross(append(append([]*Term{}, w.pc...), neg), "unsat")
				}
			}
		}
		if kind == "done" && len(w.raw) > 0 {
			it := batchItem{pc: append([]*Term(nil), w.pc...)}
			seen := map[*Term]bool{}
			for _, t := range w.raw {
				if !seen[t] {
					seen[t] = true
					it.raw = append(it.raw, t)
				}
			}
			w.batch = append(w.batch, it)
			if len(w.batch) >= 64 {
				w.flush()
			}
		}
		if kind == "panic" || kind == "steps" {
			r, model := w.z.check(w.pc, nv)
			if r == "sat" {
				cand = w.mkSample(h, kind, why, model)
			} else if r == "unknown" {
				e.noteIncomplete(h, "solver gave no answer")
			}
		}
		if kind == "done" && cand == nil && w.race != "" {
			r, model := w.z.check(w.pc, nv)
			if r == "sat" {
				cand = w.mkSample(h, "race", w.race, model)
			}
		}
		if cand != nil && w.schedSwitched {
			cand.sched = true
		}
		if kind == "done" && cand == nil {
			want := len(h.samples) < e.sampleMax && (h.paths < 40 || pick%uint64(1+h.paths/40) == 0)
			if !want && pick%64 == 0 {
				// is the path condition satisfiable at all?
				r, _ := w.z.check(w.pc, 0)
				atomic.AddInt64(&e.pcChecks, 1)
				if r == "unsat" {
					atomic.AddInt64(&e.pcUnsat, 1)
				}
			}
			if want {
				r, model := w.z.check(w.pc, nv)
				atomic.AddInt64(&e.pcChecks, 1)
				if r == "sat" {
					s := w.mkSample(h, "done", "", model)
					for _, o := range w.obs {
						if v, ok := evalStr(o.v.str(), model); ok {
							s.obs = append(s.obs, obsVal{o.label, v})
						}
					}
					e.mu.Lock()
					h.samples = append(h.samples, s)
					e.mu.Unlock()
				} else if r == "unsat" {
					atomic.AddInt64(&e.pcUnsat, 1)
				}
			}
		}
	}
	e.mu.Lock()
	h.steps += w.steps
	h.decisions += int64(len(w.picks))
	h.nodes += int64(1 + len(w.picks) - len(w.task.prefix))
	h.queries += w.z.queries - q0
	if len(w.picks) > h.maxPicks {
		h.maxPicks = len(w.picks)
	}
	if len(w.dom) > h.maxVars {
		h.maxVars = len(w.dom)
	}
	switch kind {
	case "infeasible":
		h.infeasible++
	case "incomplete":
		h.incompleteN++
		h.incomplete[why]++
	default:
		h.paths++
		h.asserts += int64(len(w.asserts)) + w.foldedN
		h.folded += w.foldedN
		if kind == "done" {
			for c := range w.covers {
				h.covers[c] = true
			}
		}
	}
	for f := range w.fnSeen {
		e.fnSeen[f] = true
	}
	var try *sample
	if cand != nil {
		h.ncand++
		key := cand.kind + ":" + cand.label
		if len(h.cands[key]) < e.candMax {
			h.cands[key] = append(h.cands[key], cand)
			try = cand
		}
	}
	e.mu.Unlock()
	if try != nil && e.confirm != nil {
		e.confirm(try)
	}
}

func (w *W) cross(ts []*Term, want string) {
	if w.z2 == nil {
		if w.id%2 == 0 {
			w.z2 = newSolver("cvc5", "--incremental", "--lang=smt2", "--tlimit-per=5000")
		} else {
			w.z2 = newSolver("z3-new", "-in")
		}
	}
	r, _ := w.z2.check(ts, 0)
	if r == "unknown" {
		return
	}
	atomic.AddInt64(&w.ex.crossN, 1)
	if r != want {
		atomic.AddInt64(&w.ex.crossBad, 1)
		w.ex.note("solvers disagree")
	}
}

func evalStr(s *Str, model []byte) (string, bool) {
	b := make([]byte, len(s.b))
	copy(b, s.b)
	for i := range s.t {
		if t := s.t[i]; t != nil {
			if t.op == OUF {
				return "", false
			}
			b[i] = byte(t.eval(model))
		}
	}
	return string(b), true
}

func (w *W) mkSample(h *Harness, kind, label string, model []byte) *sample {
	s := &sample{h: h, kind: kind, label: label}
	for _, in := range w.inputs {
		if in.v < 0 {
			s.inputs = append(s.inputs, in.k)
		} else {
			s.inputs = append(s.inputs, int64(model[in.v]))
		}
	}
	return s
}

func (e *Explorer) functions(prefix string) []string {
	var out []string
	for f := range e.fnSeen {
		if f.pkg == prefix {
			out = append(out, strings.TrimPrefix(f.name, prefix+"."))
		}
	}
	sort.Strings(out)
	return out
}
