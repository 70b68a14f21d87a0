package main

import (
	"go/types"
	"math"
	"reflect"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// V is a value. Concrete scalars live in n with p == nil. A symbolic scalar has
// p == *Term. A pointer has p == *Obj and n == slot offset. V{} is the zero
// value of every type.
type V struct {
	n uint64
	p any
}

type Obj struct {
	s     []V
	base  bool
	epoch int64 // path that journalled it (base objects)
	th    int32 // thread that allocated it (during Par), 0 otherwise
	acc   *access
}

type Slice struct {
	obj           *Obj
	off, len, cap int
}

type Str struct {
	b []byte
	t []*Term // nil, or parallel to b
}

type Agg struct{ s []V }
type Tup struct{ s []V }

type Iface struct {
	t *TI
	v V
}

type Closure struct {
	fn   *Fn
	ssa  *ssa.Function
	bind []V
	nat  func(w *W, args []V) V
}

type SymPtr struct {
	obj  *Obj
	off  int
	es   int
	n    int
	idx  *Term
	sgn  bool
	elem *TI
}

type MapV struct {
	keys  []V
	vals  []V
	base  bool
	epoch int64
	th    int32
}

type Iter struct {
	str  *Str
	pos  int
	m    *MapV
	perm []int
	ti   *TI
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: &Str{b: []byte(s)}}
}

func (v V) str() *Str {
	if v.p == nil {
		return &emptyStr
	}
	return v.p.(*Str)
}

var emptyStr Str

func (s *Str) len() int { return len(s.b) }
func (s *Str) at(i int) V {
	if s.t != nil && s.t[i] != nil {
		return V{p: s.t[i]}
	}
	return V{n: uint64(s.b[i])}
}
func (s *Str) concrete() (string, bool) {
	for _, t := range s.t {
		if t != nil {
			return "", false
		}
	}
	return string(s.b), true
}
func (s *Str) slice(i, j int) V {
	if i == j {
		return V{}
	}
	r := &Str{b: s.b[i:j]}
	if s.t != nil {
		r.t = s.t[i:j]
	}
	return V{p: r}
}

func concat(a, b *Str) V {
	if len(a.b) == 0 {
		if len(b.b) == 0 {
			return V{}
		}
		return V{p: b}
	}
	if len(b.b) == 0 {
		return V{p: a}
	}
	r := &Str{b: make([]byte, 0, len(a.b)+len(b.b))}
	r.b = append(append(r.b, a.b...), b.b...)
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.b))
		copy(r.t, a.t)
		copy(r.t[len(a.b):], b.t)
	}
	return V{p: r}
}

func strOfSlots(s []V) V {
	if len(s) == 0 {
		return V{}
	}
	r := &Str{b: make([]byte, len(s))}
	for i := range s {
		if t, ok := s[i].p.(*Term); ok {
			if r.t == nil {
				r.t = make([]*Term, len(s))
			}
			r.t[i] = t
		} else {
			r.b[i] = byte(s[i].n)
		}
	}
	return V{p: r}
}

func (w *W) sliceOfStr(s *Str, capn int) V {
	o := w.newObj(capn)
	for i := range s.b {
		o.s[i] = s.at(i)
	}
	return V{p: &Slice{obj: o, len: len(s.b), cap: capn}}
}

func (w *W) newObj(n int) *Obj {
	return &Obj{s: make([]V, n), base: w.baseMode, th: w.thID}
}

func (o *Obj) slots(s *Slice) []V { return o.s[s.off : s.off+s.len] }

func f64(v V) float64 { return math.Float64frombits(v.n) }

// roundup returns the capacity Go's allocator gives to n bytes.
func roundupBytes(n int) int {
	if n == 0 {
		return 0
	}
	return cap(append([]byte(nil), make([]byte, n)...))
}

var realSize = types.SizesFor("gc", "amd64")

func growCap(elem *TI, oldLen, oldCap, add int) int {
	sz := int(realSize.Sizeof(elem.t))
	switch sz {
	case 0:
		return oldLen + add
	case 1:
		return cap(append(make([]byte, oldLen, oldCap), make([]byte, add)...))
	case 8:
		return cap(append(make([]uint64, oldLen, oldCap), make([]uint64, add)...))
	case 16:
		return cap(append(make([]string, oldLen, oldCap), make([]string, add)...))
	case 24:
		return cap(append(make([][]byte, oldLen, oldCap), make([][]byte, add)...))
	}
	t := reflect.SliceOf(reflect.ArrayOf(sz, reflect.TypeOf(byte(0))))
	s := reflect.MakeSlice(t, oldLen, oldCap)
	return reflect.AppendSlice(s, reflect.MakeSlice(t, add, add)).Cap()
}

type fnCell = atomic.Pointer[Fn]
