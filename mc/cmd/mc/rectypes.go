package main

import (
	"fmt"
	"reflect"
	"sync"

	"verifmc/core"
	"verifmc/kit"
)

// Recursive types, through every constructor.
type (
	rNode struct {
		V    int
		Next *rNode
	}
	rTree struct {
		L, R *rTree `json:",omitempty"`
		V    int    `json:"v,string"`
	}
	rSl   []rSl
	rMap  map[string]rMap
	rPtr  *rPtr
	rArr  [2]*rArr
	rArr1 [1]*rArr1
	rStSl struct {
		V int
		K []rStSl
	}
	rStMap struct {
		K map[string]rStMap `json:"k,omitempty"`
		V string
	}
	rStArr struct {
		K [2]*rStArr `json:"k"`
		V int8
	}
	rIface struct {
		V interface{}
		W int
	}
	rSlP    []*rSlP
	rMapP   map[string]*rMapP
	rMapSl  map[string][]rMapSl
	rSlMap  []map[int]rSlMap
	rPP     struct{ N **rPP }
	rP1     struct{ N *rP1 }
	rNamedP *rNamedS
	rNamedS struct {
		P rNamedP
		Q []rNamedP
	}
	rEmb struct {
		V int
		*rEmb
	}
	rEmbM struct {
		*rEmbN
		A int
	}
	rEmbN struct {
		M rEmbMs
		B int
	}
	rEmbMs []rEmbM
	rMA    struct {
		B *rMB
		V int `json:",omitempty"`
	}
	rMB struct {
		C []rMC
		D rMC `json:"d,omitempty"`
	}
	rMC   map[string]*rMA
	rMeth interface{ rec() }
	rMI   struct {
		M rMeth
		N []rMeth `json:",omitempty"`
	}
	rMS   []rMeth
	rMM   map[string]rMeth
	rMut1 []rMut2
	rMut2 map[string]rMut3
	rMut3 [2]rMut4
	rMut4 *rMut1
	rKey  map[textKey]rVal
	rVal  struct {
		K rKey
		P *rKey
	}
	rArrSt [1]struct{ P *rArrSt }
	rDeepV struct {
		A struct {
			B struct {
				C []struct{ D map[string]rDeepV }
			}
		}
	}
	rMar struct { // a recursive type with a marshaler inside
		P *rMar
		T kit.Int_NNPN
		U kit.Int_NNNV
		S kit.Str_NVNN `json:",omitempty"`
	}
	rSM struct {
		M *sync.Map
		N *rSM
	}
)

func (rMI) rec()  {}
func (rMS) rec()  {}
func (rMM) rec()  {}
func (*rMA) rec() {}

var recTypes = []reflect.Type{}

func recType(v interface{}) { recTypes = append(recTypes, reflect.TypeOf(v).Elem()) }

func init() {
	for _, v := range []interface{}{new(rNode), new(rTree), new(rSl), new(rMap), new(rPtr), new(rArr), new(rArr1), new(rStSl), new(rStMap), new(rStArr), new(rIface), new(rSlP), new(rMapP), new(rMapSl), new(rSlMap), new(rPP), new(rP1), new(rNamedP), new(rNamedS), new(rEmb), new(rEmbM), new(rEmbN), new(rEmbMs),
		new(rMA), new(rMB), new(rMC), new(rMI), new(rMS), new(rMM), new(rMut1), new(rMut2), new(rMut3), new(rMut4), new(rKey), new(rVal), new(rArrSt), new(rDeepV), new(rMar)} {
		recType(v)
	}
}

// fillRec fills v, a value of a recursive type, in one of all the ways of a
// given depth: at each nil-able part the explorer decides how many children
// it has.
// With no x the choices go by the count of values filled.
func fillRec(x *core.X, v reflect.Value, depth int, n *int) {
	*n++
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(sync.Map{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			}
			fillRec(x, f, depth, n)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillRec(x, v.Index(i), depth, n)
		}
	case reflect.Ptr:
		if depth == 0 || fillChoice(x, "ptr", 2, n) == 0 {
			return
		}
		p := reflect.New(v.Type().Elem())
		fillRec(x, p.Elem(), depth-1, n)
		v.Set(p.Convert(v.Type()))
	case reflect.Slice:
		if depth == 0 {
			return
		}
		k := fillChoice(x, "slice", 4, n)
		if k == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), k-1, k-1))
		for i := 0; i < k-1; i++ {
			fillRec(x, v.Index(i), depth-1, n)
		}
	case reflect.Map:
		if depth == 0 {
			return
		}
		k := fillChoice(x, "map", 4, n)
		if k == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < k-1; i++ {
			key := reflect.New(v.Type().Key()).Elem()
			switch key.Kind() {
			case reflect.String:
				key.SetString(fmt.Sprint("k", k-i))
			case reflect.Int:
				key.SetInt(int64(k - i))
			default:
				key.Set(reflect.ValueOf(textKey{fmt.Sprint("k", k-i)}))
			}
			e := reflect.New(v.Type().Elem()).Elem()
			fillRec(x, e, depth-1, n)
			v.SetMapIndex(key, e)
		}
	case reflect.Interface:
		if depth == 0 {
			return
		}
		var l []reflect.Type
		for _, t := range []reflect.Type{reflect.TypeOf(rIface{}), reflect.TypeOf(&rIface{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(rMI{}), reflect.TypeOf(&rMI{}), reflect.TypeOf(rMS{}), reflect.TypeOf(rMM{}), reflect.TypeOf(&rMA{})} {
			if t.Implements(v.Type()) {
				l = append(l, t)
			}
		}
		k := fillChoice(x, "interface", len(l)+1, n)
		if k == 0 {
			return
		}
		e := reflect.New(l[k-1]).Elem()
		if e.Kind() == reflect.Ptr {
			e.Set(reflect.New(e.Type().Elem()))
			fillRec(x, e.Elem(), depth-1, n)
		} else {
			fillRec(x, e, depth-1, n)
		}
		v.Set(e)
	default:
		v.Set(kit.FillN(v.Type(), *n))
	}
}

// A link makes a value of a recursive kind that holds the inner one.
type link struct {
	name string
	wrap func(in interface{}) interface{}
}

// anyLinks wrap any value in an interface, keeping the kinds on the way.
var anyLinks = []link{
	{"[]interface{}", func(in interface{}) interface{} { return []interface{}{in} }},
	{"*interface{}", func(in interface{}) interface{} { return &in }},
	{"map[string]interface{}", func(in interface{}) interface{} { return map[string]interface{}{"k": in} }},
	{"rIface", func(in interface{}) interface{} { return rIface{in, 1} }},
	{"*rIface", func(in interface{}) interface{} { return &rIface{in, 1} }},
	{"[1]interface{}", func(in interface{}) interface{} { return [1]interface{}{in} }},
	{"*[2]interface{}", func(in interface{}) interface{} { return &[2]interface{}{nil, in} }},
	{"*sync.Map", func(in interface{}) interface{} { return syncMapOf("k", in) }},
	{"embedded", func(in interface{}) interface{} { return struct{ *rIface }{&rIface{in, 2}} }},
}

// chains of a single recursive type with d levels.
var recChains = []struct {
	name string
	mk   func(d int) interface{}
}{
	{"rNode", func(d int) interface{} {
		var n *rNode
		for i := 0; i < d; i++ {
			n = &rNode{i, n}
		}
		return n
	}},
	{"rTree", func(d int) interface{} {
		var n *rTree
		for i := 0; i < d; i++ {
			if i%2 == 0 {
				n = &rTree{L: n}
			} else {
				n = &rTree{R: n, V: i}
			}
		}
		return n
	}},
	{"rSl", func(d int) interface{} {
		var n rSl
		for i := 0; i < d; i++ {
			n = rSl{nil, n}
		}
		return n
	}},
	{"rMap", func(d int) interface{} {
		var n rMap
		for i := 0; i < d; i++ {
			n = rMap{"k": n}
		}
		return n
	}},
	{"rPtr", func(d int) interface{} {
		var n rPtr
		for i := 0; i < d; i++ {
			m := n
			n = &m
		}
		return n
	}},
	{"rArr", func(d int) interface{} {
		var n rArr
		for i := 0; i < d; i++ {
			m := n
			n = rArr{nil, &m}
		}
		return n
	}},
	{"rArr1", func(d int) interface{} {
		var n rArr1
		for i := 0; i < d; i++ {
			m := n
			n = rArr1{&m}
		}
		return n
	}},
	{"rStSl", func(d int) interface{} {
		var n rStSl
		for i := 0; i < d; i++ {
			n = rStSl{i, []rStSl{n}}
		}
		return n
	}},
	{"rStMap", func(d int) interface{} {
		var n rStMap
		for i := 0; i < d; i++ {
			n = rStMap{map[string]rStMap{"x": n}, "v"}
		}
		return n
	}},
	{"rStArr", func(d int) interface{} {
		var n rStArr
		for i := 0; i < d; i++ {
			m := n
			n = rStArr{K: [2]*rStArr{nil, &m}}
		}
		return &n
	}},
	{"rPP", func(d int) interface{} {
		var n rPP
		for i := 0; i < d; i++ {
			p := &rPP{n.N}
			n = rPP{&p}
		}
		return n
	}},
	{"rP1", func(d int) interface{} {
		var n rP1
		for i := 0; i < d; i++ {
			n = rP1{&rP1{n.N}}
		}
		return n
	}},
	{"rMA", func(d int) interface{} {
		n := &rMA{}
		for i := 0; i < d; i++ {
			n = &rMA{&rMB{[]rMC{{"m": n}}, nil}, i}
		}
		return n
	}},
	{"rMut1", func(d int) interface{} {
		n := rMut1{}
		for i := 0; i < d; i++ {
			m := n
			n = rMut1{{"q": {nil, &m}}}
		}
		return n
	}},
	{"rVal", func(d int) interface{} {
		n := rVal{}
		for i := 0; i < d; i++ {
			n = rVal{K: rKey{{"t"}: n}}
		}
		return n
	}},
	{"rMI", func(d int) interface{} {
		var n rMeth
		for i := 0; i < d; i++ {
			if i%3 == 0 {
				n = rMI{M: n}
			} else if i%3 == 1 {
				n = rMS{n}
			} else {
				n = rMM{"k": n}
			}
		}
		return n
	}},
	{"rArrSt", func(d int) interface{} {
		var n rArrSt
		for i := 0; i < d; i++ {
			m := n
			n[0].P = &m
		}
		return n
	}},
	{"rMar", func(d int) interface{} {
		n := &rMar{}
		for i := 0; i < d; i++ {
			n = &rMar{P: n, T: 3, S: "s"}
		}
		return n
	}},
	{"any", func(d int) interface{} {
		var n interface{}
		for i := 0; i < d; i++ {
			n = anyLinks[i%7].wrap(n)
		}
		return n
	}},
}

// recCycles make values that contain themselves, with a cycle of n links.
var recCycles = []struct {
	name string
	mk   func(n int) interface{}
}{
	{"rNode", func(n int) interface{} {
		f := &rNode{}
		l := f
		for i := 1; i < n; i++ {
			l = &rNode{i, l}
		}
		f.Next = l
		return f
	}},
	{"rTree", func(n int) interface{} {
		f := &rTree{}
		l := f
		for i := 1; i < n; i++ {
			l = &rTree{L: &rTree{}, R: l}
		}
		f.L = l
		return l
	}},
	{"rSl", func(n int) interface{} {
		f := make(rSl, 1)
		l := f
		for i := 1; i < n; i++ {
			l = rSl{nil, l}
		}
		f[0] = l
		return f
	}},
	{"rMap", func(n int) interface{} {
		f := rMap{}
		l := f
		for i := 1; i < n; i++ {
			l = rMap{"k": l, "j": nil}
		}
		f["x"] = l
		return f
	}},
	{"rPtr", func(n int) interface{} {
		var f rPtr
		l := rPtr(&f)
		for i := 1; i < n; i++ {
			m := l
			l = &m
		}
		f = l
		return f
	}},
	{"rArr", func(n int) interface{} {
		f := &rArr{}
		l := f
		for i := 1; i < n; i++ {
			l = &rArr{nil, l}
		}
		f[1] = l
		return *f
	}},
	{"rArr1", func(n int) interface{} {
		f := &rArr1{}
		l := f
		for i := 1; i < n; i++ {
			l = &rArr1{l}
		}
		f[0] = l
		return *f
	}},
	{"rStSl", func(n int) interface{} {
		f := rStSl{0, make([]rStSl, 1)}
		l := f
		for i := 1; i < n; i++ {
			l = rStSl{i, []rStSl{l}}
		}
		f.K[0] = l
		return f
	}},
	{"rStMap", func(n int) interface{} {
		f := rStMap{map[string]rStMap{}, ""}
		l := f
		for i := 1; i < n; i++ {
			l = rStMap{map[string]rStMap{"k": l}, ""}
		}
		f.K["z"] = l
		return f
	}},
	{"rStArr", func(n int) interface{} {
		f := &rStArr{}
		l := f
		for i := 1; i < n; i++ {
			l = &rStArr{K: [2]*rStArr{nil, l}}
		}
		f.K[1] = l
		return *f
	}},
	{"rIface", func(n int) interface{} {
		f := &rIface{}
		var l interface{} = f
		for i := 1; i < n; i++ {
			l = rIface{l, 1}
		}
		f.V = l
		return *f
	}},
	{"rPP", func(n int) interface{} {
		f := &rPP{}
		l := f
		for i := 1; i < n; i++ {
			m := l
			l = &rPP{&m}
		}
		f.N = &l
		return *f
	}},
	{"rP1", func(n int) interface{} {
		f := &rP1{}
		l := f
		for i := 1; i < n; i++ {
			l = &rP1{l}
		}
		f.N = l
		return *f
	}},
	{"rMapSl", func(n int) interface{} {
		f := rMapSl{}
		l := f
		for i := 1; i < n; i++ {
			l = rMapSl{"a": {nil, l}}
		}
		f["b"] = []rMapSl{l}
		return f
	}},
	{"rMA", func(n int) interface{} {
		f := &rMA{}
		l := f
		for i := 1; i < n; i++ {
			l = &rMA{&rMB{nil, rMC{"c": l}}, i}
		}
		f.B = &rMB{[]rMC{{"m": l}}, nil}
		return *f
	}},
	{"rMI", func(n int) interface{} {
		f := make(rMS, 1)
		var l rMeth = f
		for i := 1; i < n; i++ {
			l = rMI{M: rMM{"k": l}}
		}
		f[0] = l
		return f
	}},
	{"rMut1", func(n int) interface{} {
		f := make(rMut1, 1)
		l := f
		for i := 1; i < n; i++ {
			m := l
			l = rMut1{{"q": {nil, &m}}}
		}
		f[0] = rMut2{"r": {&l}}
		return f
	}},
	{"rVal", func(n int) interface{} {
		f := rKey{}
		l := f
		for i := 1; i < n; i++ {
			m := l
			l = rKey{{"a"}: {P: &m}}
		}
		f[textKey{"b"}] = rVal{K: l}
		return f
	}},
	{"rNamedS", func(n int) interface{} {
		f := &rNamedS{}
		l := f
		for i := 1; i < n; i++ {
			l = &rNamedS{Q: []rNamedP{nil, l}}
		}
		f.P = l
		return f
	}},
	{"rEmbM", func(n int) interface{} {
		f := &rEmbN{M: make(rEmbMs, 1)}
		l := f
		for i := 1; i < n; i++ {
			l = &rEmbN{M: rEmbMs{{l, 1}}}
		}
		f.M[0] = rEmbM{l, 2}
		return rEmbM{f, 3}
	}},
	{"rMar", func(n int) interface{} {
		f := &rMar{}
		l := f
		for i := 1; i < n; i++ {
			l = &rMar{P: l}
		}
		f.P = l
		return f
	}},
	{"sync.Map", func(n int) interface{} {
		f := new(sync.Map)
		l := f
		for i := 1; i < n; i++ {
			l = syncMapOf("k", l)
		}
		f.Store("f", l)
		return f
	}},
	{"rSM", func(n int) interface{} {
		f := new(sync.Map)
		l := f
		for i := 1; i < n; i++ {
			l = syncMapOf("k", rSM{N: &rSM{M: l}})
		}
		f.Store("f", rSM{M: l})
		return rSM{f, nil}
	}},
	{"[]interface{}", func(n int) interface{} {
		f := make([]interface{}, 1)
		l := f
		for i := 1; i < n; i++ {
			l = []interface{}{1, l}
		}
		f[0] = l
		return f
	}},
	{"*interface{}", func(n int) interface{} {
		var f interface{}
		l := &f
		for i := 1; i < n; i++ {
			var m interface{} = l
			l = &m
		}
		f = l
		return f
	}},
	{"map[string]interface{}", func(n int) interface{} {
		f := map[string]interface{}{}
		l := f
		for i := 1; i < n; i++ {
			l = map[string]interface{}{"k": l}
		}
		f["f"] = l
		return f
	}},
}

func fillChoice(x *core.X, label string, k int, n *int) int {
	if x == nil {
		return k - 1 - *n%3%k
	}
	return x.Choose(label, k)
}
