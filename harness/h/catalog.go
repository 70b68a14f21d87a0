// Code generated by tools/gen_catalog.py; edit that instead.

package h

import "github.com/ecoshub/jin"

// args are the arguments of a catalogued call.
type args struct {
	v    []byte
	s    string
	n    int
	f    float64
	t    bool
	i    int
	key  string
	keys []string
	path []string
	stop plan
}

// out is whatever a catalogued call returns.
type out struct {
	doc  []byte // the document afterwards
	b    []byte
	s    string
	n    int
	f    float64
	t    bool
	ss   []string
	s2   []string
	ns   []int
	fs   []float64
	ts   []bool
	m    map[string]string
	err  error
	said string // what the error of a kept result said
}

// call is one operation in its three forms.
type call struct {
	name string
	edit bool
	f    func(b []byte, a *args) (o out)
	j    func(j *jin.JO, a *args) (o out)
	p    func(p *jin.Parser, a *args) (o out)
}

func catalogue() []call {
	return []call{
		{name: "Set", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.Set(b, a.v, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Set(a.v, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.Set(a.v, a.path...); o.doc = p.JSON(); return },
		},
		{name: "SetString", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.SetString(b, a.s, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.SetString(a.s, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.SetString(a.s, a.path...); o.doc = p.JSON(); return },
		},
		{name: "SetInt", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.SetInt(b, a.n, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.SetInt(a.n, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.SetInt(a.n, a.path...); o.doc = p.JSON(); return },
		},
		{name: "SetFloat", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.SetFloat(b, a.f, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.SetFloat(a.f, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.SetFloat(a.f, a.path...); o.doc = p.JSON(); return },
		},
		{name: "SetBool", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.SetBool(b, a.t, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.SetBool(a.t, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.SetBool(a.t, a.path...); o.doc = p.JSON(); return },
		},
		{name: "SetKey", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.SetKey(b, a.key, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.SetKey(a.key, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.SetKey(a.key, a.path...); o.doc = p.JSON(); return },
		},
		{name: "Store", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.Store(b, a.key, a.v, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Store(a.key, a.v, a.path...); o.doc = j.JSON(); return },
		},
		{name: "StoreString", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.StoreString(b, a.key, a.s, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.StoreString(a.key, a.s, a.path...)
				o.doc = j.JSON()
				return
			},
		},
		{name: "StoreInt", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.StoreInt(b, a.key, a.n, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.StoreInt(a.key, a.n, a.path...); o.doc = j.JSON(); return },
		},
		{name: "StoreFloat", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.StoreFloat(b, a.key, a.f, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.StoreFloat(a.key, a.f, a.path...)
				o.doc = j.JSON()
				return
			},
		},
		{name: "StoreBool", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.StoreBool(b, a.key, a.t, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.StoreBool(a.key, a.t, a.path...); o.doc = j.JSON(); return },
		},
		{name: "AddKeyValue", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddKeyValue(b, a.key, a.v, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.AddKeyValue(a.key, a.v, a.path...)
				o.doc = j.JSON()
				return
			},
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.AddKeyValue(a.key, a.v, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "AddKeyValueString", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.AddKeyValueString(b, a.key, a.s, a.path...)
				return
			},
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.AddKeyValueString(a.key, a.s, a.path...)
				o.doc = j.JSON()
				return
			},
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.AddKeyValueString(a.key, a.s, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "AddKeyValueInt", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddKeyValueInt(b, a.key, a.n, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.AddKeyValueInt(a.key, a.n, a.path...)
				o.doc = j.JSON()
				return
			},
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.AddKeyValueInt(a.key, a.n, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "AddKeyValueFloat", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddKeyValueFloat(b, a.key, a.f, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.AddKeyValueFloat(a.key, a.f, a.path...)
				o.doc = j.JSON()
				return
			},
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.AddKeyValueFloat(a.key, a.f, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "AddKeyValueBool", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddKeyValueBool(b, a.key, a.t, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.AddKeyValueBool(a.key, a.t, a.path...)
				o.doc = j.JSON()
				return
			},
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.AddKeyValueBool(a.key, a.t, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "AddKeyValueUint", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.AddKeyValueUint(b, a.key, uint(a.n), a.path...)
				return
			},
		},
		{name: "AddKeyValueInt32", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.AddKeyValueInt32(b, a.key, int32(a.n), a.path...)
				return
			},
		},
		{name: "AddKeyValueInt64", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.AddKeyValueInt64(b, a.key, int64(a.n), a.path...)
				return
			},
		},
		{name: "AddKeyValueUint32", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.AddKeyValueUint32(b, a.key, uint32(a.n), a.path...)
				return
			},
		},
		{name: "AddKeyValueUint64", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.AddKeyValueUint64(b, a.key, uint64(a.n), a.path...)
				return
			},
		},
		{name: "Add", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.Add(b, a.v, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Add(a.v, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.Add(a.v, a.path...); o.doc = p.JSON(); return },
		},
		{name: "AddString", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddString(b, a.s, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.AddString(a.s, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.AddString(a.s, a.path...); o.doc = p.JSON(); return },
		},
		{name: "AddInt", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddInt(b, a.n, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.AddInt(a.n, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.AddInt(a.n, a.path...); o.doc = p.JSON(); return },
		},
		{name: "AddFloat", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddFloat(b, a.f, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.AddFloat(a.f, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.AddFloat(a.f, a.path...); o.doc = p.JSON(); return },
		},
		{name: "AddBool", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddBool(b, a.t, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.AddBool(a.t, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.AddBool(a.t, a.path...); o.doc = p.JSON(); return },
		},
		{name: "AddUint", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddUint(b, uint(a.n), a.path...); return },
		},
		{name: "AddInt32", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddInt32(b, int32(a.n), a.path...); return },
		},
		{name: "AddInt64", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddInt64(b, int64(a.n), a.path...); return },
		},
		{name: "AddUint32", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddUint32(b, uint32(a.n), a.path...); return },
		},
		{name: "AddUint64", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.AddUint64(b, uint64(a.n), a.path...); return },
		},
		{name: "Insert", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.Insert(b, a.i, a.v, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Insert(a.i, a.v, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.Insert(a.i, a.v, a.path...); o.doc = p.JSON(); return },
		},
		{name: "InsertString", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertString(b, a.i, a.s, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.InsertString(a.i, a.s, a.path...)
				o.doc = j.JSON()
				return
			},
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.InsertString(a.i, a.s, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "InsertInt", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertInt(b, a.i, a.n, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.InsertInt(a.i, a.n, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.InsertInt(a.i, a.n, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "InsertFloat", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertFloat(b, a.i, a.f, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.InsertFloat(a.i, a.f, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.InsertFloat(a.i, a.f, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "InsertBool", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertBool(b, a.i, a.t, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.InsertBool(a.i, a.t, a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) {
				o.err = p.InsertBool(a.i, a.t, a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "InsertUint", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertUint(b, a.i, uint(a.n), a.path...); return },
		},
		{name: "InsertInt32", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertInt32(b, a.i, int32(a.n), a.path...); return },
		},
		{name: "InsertInt64", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.InsertInt64(b, a.i, int64(a.n), a.path...); return },
		},
		{name: "InsertUint32", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.InsertUint32(b, a.i, uint32(a.n), a.path...)
				return
			},
		},
		{name: "InsertUint64", edit: true,
			f: func(b []byte, a *args) (o out) {
				o.doc, o.err = jin.InsertUint64(b, a.i, uint64(a.n), a.path...)
				return
			},
		},
		{name: "Delete", edit: true,
			f: func(b []byte, a *args) (o out) { o.doc, o.err = jin.Delete(b, a.path...); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Delete(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.err = p.Delete(a.path...); o.doc = p.JSON(); return },
		},
		{name: "Get",
			f: func(b []byte, a *args) (o out) { o.b, o.err = jin.Get(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.b, o.err = j.Get(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.b, o.err = p.Get(a.path...); o.doc = p.JSON(); return },
		},
		{name: "GetString",
			f: func(b []byte, a *args) (o out) { o.s, o.err = jin.GetString(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.s, o.err = j.GetString(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.s, o.err = p.GetString(a.path...); o.doc = p.JSON(); return },
		},
		{name: "GetInt",
			f: func(b []byte, a *args) (o out) { o.n, o.err = jin.GetInt(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.n, o.err = j.GetInt(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.n, o.err = p.GetInt(a.path...); o.doc = p.JSON(); return },
		},
		{name: "GetFloat",
			f: func(b []byte, a *args) (o out) { o.f, o.err = jin.GetFloat(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.f, o.err = j.GetFloat(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.f, o.err = p.GetFloat(a.path...); o.doc = p.JSON(); return },
		},
		{name: "GetBool",
			f: func(b []byte, a *args) (o out) { o.t, o.err = jin.GetBool(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.t, o.err = j.GetBool(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.t, o.err = p.GetBool(a.path...); o.doc = p.JSON(); return },
		},
		{name: "GetStringArray",
			f: func(b []byte, a *args) (o out) { o.ss, o.err = jin.GetStringArray(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.ss, o.err = j.GetStringArray(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) {
				o.ss, o.err = p.GetStringArray(a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "GetIntArray",
			f: func(b []byte, a *args) (o out) { o.ns, o.err = jin.GetIntArray(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.ns, o.err = j.GetIntArray(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) { o.ns, o.err = p.GetIntArray(a.path...); o.doc = p.JSON(); return },
		},
		{name: "GetFloatArray",
			f: func(b []byte, a *args) (o out) { o.fs, o.err = jin.GetFloatArray(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.fs, o.err = j.GetFloatArray(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) {
				o.fs, o.err = p.GetFloatArray(a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "GetBoolArray",
			f: func(b []byte, a *args) (o out) { o.ts, o.err = jin.GetBoolArray(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.ts, o.err = j.GetBoolArray(a.path...); o.doc = j.JSON(); return },
			p: func(p *jin.Parser, a *args) (o out) {
				o.ts, o.err = p.GetBoolArray(a.path...)
				o.doc = p.JSON()
				return
			},
		},
		{name: "GetKeys",
			f: func(b []byte, a *args) (o out) { o.ss, o.err = jin.GetKeys(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.ss, o.err = j.GetKeys(a.path...); o.doc = j.JSON(); return },
		},
		{name: "GetValues",
			f: func(b []byte, a *args) (o out) { o.ss, o.err = jin.GetValues(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.ss, o.err = j.GetValues(a.path...); o.doc = j.JSON(); return },
		},
		{name: "GetKeysValues",
			f: func(b []byte, a *args) (o out) {
				o.ss, o.s2, o.err = jin.GetKeysValues(b, a.path...)
				o.doc = b
				return
			},
			j: func(j *jin.JO, a *args) (o out) {
				o.ss, o.s2, o.err = j.GetKeysValues(a.path...)
				o.doc = j.JSON()
				return
			},
		},
		{name: "GetMap",
			f: func(b []byte, a *args) (o out) { o.m, o.err = jin.GetMap(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.m, o.err = j.GetMap(a.path...); o.doc = j.JSON(); return },
		},
		{name: "GetAll",
			f: func(b []byte, a *args) (o out) { o.ss, o.err = jin.GetAll(b, a.keys, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.ss, o.err = j.GetAll(a.keys, a.path...); o.doc = j.JSON(); return },
		},
		{name: "GetAllMap",
			f: func(b []byte, a *args) (o out) { o.m, o.err = jin.GetAllMap(b, a.keys, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) {
				o.m, o.err = j.GetAllMap(a.keys, a.path...)
				o.doc = j.JSON()
				return
			},
		},
		{name: "GetType",
			f: func(b []byte, a *args) (o out) { o.s, o.err = jin.GetType(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.s, o.err = j.GetType(a.path...); o.doc = j.JSON(); return },
		},
		{name: "IsObject",
			f: func(b []byte, a *args) (o out) { o.t, o.err = jin.IsObject(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.t, o.err = j.IsObject(a.path...); o.doc = j.JSON(); return },
		},
		{name: "IsArray",
			f: func(b []byte, a *args) (o out) { o.t, o.err = jin.IsArray(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.t, o.err = j.IsArray(a.path...); o.doc = j.JSON(); return },
		},
		{name: "IsValue",
			f: func(b []byte, a *args) (o out) { o.t, o.err = jin.IsValue(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.t, o.err = j.IsValue(a.path...); o.doc = j.JSON(); return },
		},
		{name: "IsEmpty",
			f: func(b []byte, a *args) (o out) { o.t, o.err = jin.IsEmpty(b, a.path...); o.doc = b; return },
			j: func(j *jin.JO, a *args) (o out) { o.t, o.err = j.IsEmpty(a.path...); o.doc = j.JSON(); return },
		},
		{name: "Length",
			f: func(b []byte, a *args) (o out) { o.n, o.err = jin.Length(b, a.path...); o.doc = b; return },
		},
		{name: "IterateArray",
			f: func(b []byte, a *args) (o out) { o.doc = b; o.err = jin.IterateArray(b, o.each(a), a.path...); return },
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.IterateArray(o.each(a), a.path...)
				o.doc = j.JSON()
				return
			},
		},
		{name: "IterateKeyValue",
			f: func(b []byte, a *args) (o out) {
				o.doc = b
				o.err = jin.IterateKeyValue(b, o.pairs(a), a.path...)
				return
			},
			j: func(j *jin.JO, a *args) (o out) {
				o.err = j.IterateKeyValue(o.pairs(a), a.path...)
				o.doc = j.JSON()
				return
			},
		},
		{name: "Walk",
			f: func(b []byte, a *args) (o out) { o.doc = b; o.err = jin.Walk(b, o.leaf(a)); return },
			j: func(j *jin.JO, a *args) (o out) { o.err = j.Walk(o.leaf(a)); o.doc = j.JSON(); return },
		},
	}
}

func (o *out) each(a *args) func([]byte) (bool, error) {
	k := 0
	return func(v []byte) (bool, error) {
		o.ss = append(o.ss, string(v))
		k++
		return a.stop.answer(k - 1)
	}
}

func (o *out) pairs(a *args) func([]byte, []byte) (bool, error) {
	k := 0
	return func(n, v []byte) (bool, error) {
		o.ss = append(o.ss, string(v))
		o.s2 = append(o.s2, string(n))
		k++
		return a.stop.answer(k - 1)
	}
}

func (o *out) leaf(a *args) func(string, []byte, []string) (bool, error) {
	k := 0
	return func(n string, v []byte, path []string) (bool, error) {
		o.ss = append(o.ss, string(v))
		o.s2 = append(o.s2, path...)
		o.s2 = append(o.s2, n)
		k++
		return a.stop.answer(k - 1)
	}
}
