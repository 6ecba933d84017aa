package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"

	"verifmc/core"

	"github.com/wI2L/jettison"
)

var (
	anyT  = reflect.TypeOf((*interface{})(nil)).Elem()
	strT  = reflect.TypeOf("")
	intT  = reflect.TypeOf(0)
	i8T   = reflect.TypeOf(int8(0))
	boolT = reflect.TypeOf(true)

	ctxT  = reflect.TypeOf((*jettison.AppendMarshalerCtx)(nil)).Elem()
	appT  = reflect.TypeOf((*jettison.AppendMarshaler)(nil)).Elem()
	jsonT = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	textT = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
)

// A place is a position at which a value of type t can stand.
type place struct {
	name string
	mk   func(v reflect.Value) (reflect.Value, bool)
}

func sf(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

func ptrV(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func mkStruct(v reflect.Value, tag string, fs ...string) reflect.Value {
	var l []reflect.StructField
	for _, f := range fs {
		switch f {
		case "a":
			l = append(l, sf("A", i8T, `json:"a"`))
		case "v":
			l = append(l, sf("V", v.Type(), tag))
		case "w":
			l = append(l, sf("W", v.Type(), `json:"w"`))
		case "c":
			l = append(l, sf("C", strT, `json:"c<"`))
		}
	}
	s := reflect.New(reflect.StructOf(l)).Elem()
	for i := range l {
		switch l[i].Name {
		case "A":
			s.Field(i).SetInt(5)
		case "C":
			s.Field(i).SetString("z")
		default:
			s.Field(i).Set(v)
		}
	}
	return s
}

func mkSlice(t reflect.Type, vs ...reflect.Value) reflect.Value {
	return reflect.Append(reflect.MakeSlice(reflect.SliceOf(t), 0, len(vs)), vs...)
}

func mkArray(vs ...reflect.Value) reflect.Value {
	a := reflect.New(reflect.ArrayOf(len(vs), vs[0].Type())).Elem()
	for i, v := range vs {
		a.Index(i).Set(v)
	}
	return a
}

func mkMap(k, v reflect.Value) reflect.Value {
	m := reflect.MakeMap(reflect.MapOf(k.Type(), v.Type()))
	m.SetMapIndex(k, v)
	return m
}

func inIface(it reflect.Type, v reflect.Value) (reflect.Value, bool) {
	if !v.Type().Implements(it) {
		return v, false
	}
	s := reflect.New(it).Elem()
	s.Set(v)
	return s, true
}

type stringerI interface{ String() string }

// places lists all of them.
var places = func() []place {
	ok := func(f func(v reflect.Value) reflect.Value) func(reflect.Value) (reflect.Value, bool) {
		return func(v reflect.Value) (reflect.Value, bool) { return f(v), true }
	}
	l := []place{
		{"value", ok(func(v reflect.Value) reflect.Value { return v })},
		{"pointer", ok(ptrV)},
		{"pointer-pointer", ok(func(v reflect.Value) reflect.Value { return ptrV(ptrV(v)) })},
		{"any-slice", ok(func(v reflect.Value) reflect.Value { return mkSlice(anyT, v, reflect.ValueOf(1), v) })},
		{"any-ptr-slice", ok(func(v reflect.Value) reflect.Value { return mkSlice(anyT, ptrV(v), ptrV(v)) })},
		{"slice", ok(func(v reflect.Value) reflect.Value { return mkSlice(v.Type(), v, v) })},
		{"ptr-slice", ok(func(v reflect.Value) reflect.Value {
			return mkSlice(reflect.PtrTo(v.Type()), ptrV(v), reflect.Zero(reflect.PtrTo(v.Type())))
		})},
		{"array1", ok(func(v reflect.Value) reflect.Value { return mkArray(v) })},
		{"array2", ok(func(v reflect.Value) reflect.Value { return mkArray(v, v) })},
		{"pointer-array1", ok(func(v reflect.Value) reflect.Value { return ptrV(mkArray(v)) })},
		{"pointer-array2", ok(func(v reflect.Value) reflect.Value { return ptrV(mkArray(v, v)) })},
		{"array-in-slice", ok(func(v reflect.Value) reflect.Value { a := mkArray(v, v); return mkSlice(a.Type(), a) })},
		{"ptr-array1", ok(func(v reflect.Value) reflect.Value { return mkArray(ptrV(v)) })},
		{"map-value", ok(func(v reflect.Value) reflect.Value { return mkMap(reflect.ValueOf("k"), v) })},
		{"map-ptr-value", ok(func(v reflect.Value) reflect.Value { return mkMap(reflect.ValueOf("k"), ptrV(v)) })},
		{"map-any-value", ok(func(v reflect.Value) reflect.Value {
			return mkMap(reflect.ValueOf(int8(3)), ptrV(mkSlice(anyT, v)).Elem())
		})},
		{"pointer-map-value", ok(func(v reflect.Value) reflect.Value { return ptrV(mkMap(reflect.ValueOf("k"), v)) })},
		{"map-key", func(v reflect.Value) (reflect.Value, bool) {
			if !v.Type().Comparable() || !v.Comparable() {
				return v, false
			}
			return mkMap(v, reflect.ValueOf(1)), true
		}},
		{"map-ptr-key", ok(func(v reflect.Value) reflect.Value { return mkMap(ptrV(v), reflect.ValueOf(1)) })},
		{"syncmap-value", ok(func(v reflect.Value) reflect.Value {
			m := new(sync.Map)
			m.Store("k", v.Interface())
			return reflect.ValueOf(m)
		})},
		{"syncmap-ptr-value", ok(func(v reflect.Value) reflect.Value {
			m := new(sync.Map)
			m.Store(1, ptrV(v).Interface())
			return reflect.ValueOf(m)
		})},
		{"syncmap-key", func(v reflect.Value) (reflect.Value, bool) {
			if !v.Comparable() {
				return v, false
			}
			m := new(sync.Map)
			m.Store(v.Interface(), 1)
			return reflect.ValueOf(m), true
		}},
		{"slice-in-map", ok(func(v reflect.Value) reflect.Value { return mkMap(reflect.ValueOf("k"), mkSlice(v.Type(), v)) })},
		{"array-in-map", ok(func(v reflect.Value) reflect.Value { return mkMap(reflect.ValueOf("k"), mkArray(v)) })},
	}
	for _, tag := range []string{"", `json:"v,omitempty"`, `json:"v,string"`, `json:"v,omitnil"`} {
		tag := tag
		for _, fs := range [][]string{{"v"}, {"a", "v", "c"}, {"v", "w"}} {
			fs := fs
			n := fmt.Sprint("struct", fs, tag)
			if len(fs) != 3 && tag == `json:"v,string"` {
				continue
			}
			l = append(l,
				place{n, ok(func(v reflect.Value) reflect.Value { return mkStruct(v, tag, fs...) })},
				place{"pointer-" + n, ok(func(v reflect.Value) reflect.Value { return ptrV(mkStruct(v, tag, fs...)) })})
			if tag == "" {
				l = append(l,
					place{"any-" + n, ok(func(v reflect.Value) reflect.Value { return mkSlice(anyT, mkStruct(v, tag, fs...)) })},
					place{"map-" + n, ok(func(v reflect.Value) reflect.Value { return mkMap(reflect.ValueOf("k"), mkStruct(v, tag, fs...)) })},
					place{"slice-" + n, ok(func(v reflect.Value) reflect.Value { s := mkStruct(v, tag, fs...); return mkSlice(s.Type(), s) })},
					place{"array-" + n, ok(func(v reflect.Value) reflect.Value { s := mkStruct(v, tag, fs...); return mkArray(s) })},
					place{"ptrfield-" + n, ok(func(v reflect.Value) reflect.Value { return mkStruct(ptrV(v), tag, fs...) })},
					place{"pointer-ptrfield-" + n, ok(func(v reflect.Value) reflect.Value { return ptrV(mkStruct(ptrV(v), tag, fs...)) })},
					place{"struct-" + n, ok(func(v reflect.Value) reflect.Value { return mkStruct(mkStruct(v, tag, fs...), "", "v") })},
				)
			}
			l = append(l, place{"anyfield-" + n, ok(func(v reflect.Value) reflect.Value {
				e := reflect.New(anyT).Elem()
				e.Set(v)
				return mkStruct(e, tag, fs...)
			})})
		}
	}
	for _, i := range []struct {
		n string
		t reflect.Type
	}{{"Ctx", ctxT}, {"App", appT}, {"JSON", jsonT}, {"Text", textT}} {
		i := i
		for _, p := range []bool{false, true} {
			p := p
			wrap := func(f func(reflect.Value) reflect.Value) func(reflect.Value) (reflect.Value, bool) {
				return func(v reflect.Value) (reflect.Value, bool) {
					if p {
						v = ptrV(v)
					}
					s, ok := inIface(i.t, v)
					if !ok {
						return v, false
					}
					return f(s), true
				}
			}
			n := i.n
			if p {
				n += "-ptr"
			}
			l = append(l,
				place{"iface-slice-" + n, wrap(func(v reflect.Value) reflect.Value { return mkSlice(i.t, v, reflect.Zero(i.t), v) })},
				place{"iface-array-" + n, wrap(func(v reflect.Value) reflect.Value { return mkArray(v) })},
				place{"iface-field-" + n, wrap(func(v reflect.Value) reflect.Value { return mkStruct(v, `json:"v,omitempty"`, "v", "w", "c") })},
				place{"iface-field-pointer-" + n, wrap(func(v reflect.Value) reflect.Value { return ptrV(mkStruct(v, `json:"v,omitnil"`, "a", "v")) })},
				place{"iface-map-" + n, wrap(func(v reflect.Value) reflect.Value { return mkMap(reflect.ValueOf("k"), v) })},
				place{"iface-pointer-" + n, wrap(ptrV)},
				place{"iface-key-" + n, func(v reflect.Value) (reflect.Value, bool) {
					if p {
						v = ptrV(v)
					}
					s, ok := inIface(i.t, v)
					if !ok || !v.Comparable() {
						return v, false
					}
					return mkMap(s, reflect.ValueOf(1)), true
				}},
			)
		}
	}
	return l
}()

// at puts v at every place, one per execution.
func at(x *core.X, v reflect.Value, in []place) (interface{}, string) {
	p := in[x.Choose("place", len(in))]
	w, ok := p.mk(v)
	if !ok {
		x.Skip()
	}
	return w.Interface(), p.name
}
