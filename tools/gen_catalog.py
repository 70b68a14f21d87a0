# writes harness/h/catalog.go: every operation in its three forms
edits=[ # name, extra args after json for function / method (same), JO?, Parser?
 ("Set","a.v",1,1),("SetString","a.s",1,1),("SetInt","a.n",1,1),("SetFloat","a.f",1,1),("SetBool","a.t",1,1),("SetKey","a.key",1,1),
 ("Store","a.key, a.v",1,0),("StoreString","a.key, a.s",1,0),("StoreInt","a.key, a.n",1,0),("StoreFloat","a.key, a.f",1,0),("StoreBool","a.key, a.t",1,0),
 ("AddKeyValue","a.key, a.v",1,1),("AddKeyValueString","a.key, a.s",1,1),("AddKeyValueInt","a.key, a.n",1,1),("AddKeyValueFloat","a.key, a.f",1,1),("AddKeyValueBool","a.key, a.t",1,1),
 ("AddKeyValueUint","a.key, uint(a.n)",0,0),("AddKeyValueInt32","a.key, int32(a.n)",0,0),("AddKeyValueInt64","a.key, int64(a.n)",0,0),("AddKeyValueUint32","a.key, uint32(a.n)",0,0),("AddKeyValueUint64","a.key, uint64(a.n)",0,0),
 ("Add","a.v",1,1),("AddString","a.s",1,1),("AddInt","a.n",1,1),("AddFloat","a.f",1,1),("AddBool","a.t",1,1),
 ("AddUint","uint(a.n)",0,0),("AddInt32","int32(a.n)",0,0),("AddInt64","int64(a.n)",0,0),("AddUint32","uint32(a.n)",0,0),("AddUint64","uint64(a.n)",0,0),
 ("Insert","a.i, a.v",1,1),("InsertString","a.i, a.s",1,1),("InsertInt","a.i, a.n",1,1),("InsertFloat","a.i, a.f",1,1),("InsertBool","a.i, a.t",1,1),
 ("InsertUint","a.i, uint(a.n)",0,0),("InsertInt32","a.i, int32(a.n)",0,0),("InsertInt64","a.i, int64(a.n)",0,0),("InsertUint32","a.i, uint32(a.n)",0,0),("InsertUint64","a.i, uint64(a.n)",0,0),
 ("Delete","",1,1),
]
reads=[ # name, lhs, extra
 ("Get","o.b","",1,1),("GetString","o.s","",1,1),("GetInt","o.n","",1,1),("GetFloat","o.f","",1,1),("GetBool","o.t","",1,1),
 ("GetStringArray","o.ss","",1,1),("GetIntArray","o.ns","",1,1),("GetFloatArray","o.fs","",1,1),("GetBoolArray","o.ts","",1,1),
 ("GetKeys","o.ss","",1,0),("GetValues","o.ss","",1,0),("GetKeysValues","o.ss, o.s2","",1,0),("GetMap","o.m","",1,0),
 ("GetAll","o.ss","a.keys",1,0),("GetAllMap","o.m","a.keys",1,0),
 ("GetType","o.s","",1,0),("IsObject","o.t","",1,0),("IsArray","o.t","",1,0),("IsValue","o.t","",1,0),("IsEmpty","o.t","",1,0),("Length","o.n","",0,0),
]
L=[]
w=L.append
w('''// Code generated by tools/gen_catalog.py; edit that instead.

package h

import "github.com/ecoshub/jin"

// args are the arguments of a catalogued call.
type args struct {
	v    []byte
	s    string
	n    int
	f    float64
	t    bool
	i    int
	key  string
	keys []string
	path []string
	stop plan
}

// out is whatever a catalogued call returns.
type out struct {
	doc []byte // the document afterwards
	b   []byte
	s   string
	n   int
	f   float64
	t   bool
	ss  []string
	s2  []string
	ns  []int
	fs  []float64
	ts  []bool
	m   map[string]string
	err error
	said string // what the error of a kept result said
}

// call is one operation in its three forms.
type call struct {
	name string
	edit bool
	f    func(b []byte, a *args) (o out)
	j    func(j *jin.JO, a *args) (o out)
	p    func(p *jin.Parser, a *args) (o out)
}

func catalogue() []call {
	return []call{''')
def arg(x): return (x+', ') if x else ''
for n,x,j,p in edits:
    w('\t\t{name: "%s", edit: true,'%n)
    w('\t\t\tf: func(b []byte, a *args) (o out) { o.doc, o.err = jin.%s(b, %sa.path...); return },'%(n,arg(x)))
    if j: w('\t\t\tj: func(j *jin.JO, a *args) (o out) { o.err = j.%s(%sa.path...); o.doc = j.JSON(); return },'%(n,arg(x)))
    if p: w('\t\t\tp: func(p *jin.Parser, a *args) (o out) { o.err = p.%s(%sa.path...); o.doc = p.JSON(); return },'%(n,arg(x)))
    w('\t\t},')
for n,l,x,j,p in reads:
    w('\t\t{name: "%s",'%n)
    w('\t\t\tf: func(b []byte, a *args) (o out) { %s, o.err = jin.%s(b, %sa.path...); o.doc = b; return },'%(l,n,arg(x)))
    if j: w('\t\t\tj: func(j *jin.JO, a *args) (o out) { %s, o.err = j.%s(%sa.path...); o.doc = j.JSON(); return },'%(l,n,arg(x)))
    if p: w('\t\t\tp: func(p *jin.Parser, a *args) (o out) { %s, o.err = p.%s(%sa.path...); o.doc = p.JSON(); return },'%(l,n,arg(x)))
    w('\t\t},')
w('''		{name: "IterateArray",
			f: func(b []byte, a *args) (o out) { o.doc = b; o.err = jin.IterateArray(b, o.each(a), a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.IterateArray(o.each(a), a.path...); o.doc = j.JSON(); return },
		},
		{name: "IterateKeyValue",
			f: func(b []byte, a *args) (o out) { o.doc = b; o.err = jin.IterateKeyValue(b, o.pairs(a), a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.IterateKeyValue(o.pairs(a), a.path...); o.doc = j.JSON(); return },
		},
		{name: "Walk",
			f: func(b []byte, a *args) (o out) { o.doc = b; o.err = jin.Walk(b, o.leaf(a)); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Walk(o.leaf(a)); o.doc = j.JSON(); return },
		},
	}
}

func (o *out) each(a *args) func([]byte) (bool, error) {
	k := 0
	return func(v []byte) (bool, error) {
		o.ss = append(o.ss, string(v))
		k++
		return a.stop.answer(k - 1)
	}
}

func (o *out) pairs(a *args) func([]byte, []byte) (bool, error) {
	k := 0
	return func(n, v []byte) (bool, error) {
		o.ss = append(o.ss, string(v))
		o.s2 = append(o.s2, string(n))
		k++
		return a.stop.answer(k - 1)
	}
}

func (o *out) leaf(a *args) func(string, []byte, []string) (bool, error) {
	k := 0
	return func(n string, v []byte, path []string) (bool, error) {
		o.ss = append(o.ss, string(v))
		o.s2 = append(o.s2, path...)
		o.s2 = append(o.s2, n)
		k++
		return a.stop.answer(k - 1)
	}
}''')
open('/verif/harness/h/catalog.go','w').write('\n'.join(L)+'\n')
