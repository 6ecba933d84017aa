package kit

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"verifmc/core"
)

// Expr is a type expression together with the way its values are built.
type Expr struct {
	Op   string
	T    reflect.Type
	Kids []*Expr
	Vals []interface{} // domain of a leaf; the first one is the default
}

func (e *Expr) String() string {
	if len(e.Kids) == 0 {
		return e.Op
	}
	var s []string
	for _, k := range e.Kids {
		s = append(s, k.String())
	}
	return e.Op + "(" + strings.Join(s, ",") + ")"
}

// Leaf makes a leaf expression from a domain of values of one type.
func Leaf(op string, vals ...interface{}) *Expr {
	return &Expr{Op: op, T: reflect.TypeOf(vals[0]), Vals: vals}
}

// BasicLeaves are the built-in scalar kinds.
func BasicLeaves() []*Expr {
	return []*Expr{
		Leaf("bool", true, false),
		Leaf("int", 42, 0, -1, math.MinInt64, math.MaxInt64),
		Leaf("int8", int8(5), int8(0), int8(-128), int8(127)),
		Leaf("int16", int16(-300), int16(0), int16(-32768), int16(32767)),
		Leaf("int32", int32(70000), int32(0), int32(math.MinInt32), int32(math.MaxInt32)),
		Leaf("int64", int64(1)<<40, int64(0), int64(math.MinInt64)),
		Leaf("uint", uint(7), uint(0), uint(math.MaxUint64)),
		Leaf("uint8", uint8(200), uint8(0), uint8(255)),
		Leaf("uint16", uint16(60000), uint16(0), uint16(65535)),
		Leaf("uint32", uint32(4000000000), uint32(0)),
		Leaf("uint64", uint64(1)<<63, uint64(0), uint64(math.MaxUint64)),
		Leaf("uintptr", uintptr(9), uintptr(0)),
		Leaf("float32", float32(1.5), float32(0), float32(1e-7), float32(3.4028235e38), float32(16777216)),
		Leaf("float64", 2.25, 0.0, math.Copysign(0, -1), 1e21, 1e-7, 5e-324, math.NaN(), math.Inf(1)),
		Leaf("string", "a<\"\u2028\xffé", "", "x", "\x00\t\n\r\\/"),
		Leaf("bytes", []byte("\x00\xffab"), []byte(nil), []byte{}, []byte("x"), []byte("xy"), []byte("xyz")),
		Leaf("bytearr", [3]byte{1, 0, 255}, [3]byte{}),
	}
}

// StdLeaves are the types of the standard library with special treatment.
func StdLeaves() []*Expr {
	return []*Expr{
		Leaf("Time", time.Date(2021, 3, 4, 5, 6, 7, 89, time.UTC), time.Time{}, time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("X", -3600*5))),
		Leaf("Number", json.Number("1.5e3"), json.Number(""), json.Number("-0"), json.Number("1x")),
		Leaf("RawMessage", json.RawMessage(` {"a" : [1 , "<\u2028"]} `), json.RawMessage(nil), json.RawMessage(`null`), json.RawMessage(`{`)),
	}
}

// DurLeaf is time.Duration.
func DurLeaf() *Expr {
	return Leaf("Duration", 1500*time.Millisecond, time.Duration(0), time.Duration(math.MinInt64), time.Nanosecond)
}

// UnsupportedLeaves have no JSON representation.
func UnsupportedLeaves() []*Expr {
	return []*Expr{
		Leaf("chan", make(chan int), (chan int)(nil)),
		Leaf("func", func() {}, (func())(nil)),
		Leaf("complex", complex(1, 2)),
	}
}

var anyT = reflect.TypeOf((*interface{})(nil)).Elem()

func fld(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

// Mk builds a composite expression.
func Mk(op string, k ...*Expr) *Expr {
	e := &Expr{Op: op, Kids: k}
	var t reflect.Type
	if len(k) > 0 {
		t = k[0].T
	}
	switch op {
	case "ptr":
		e.T = reflect.PointerTo(t)
	case "slice":
		e.T = reflect.SliceOf(t)
	case "array0":
		e.T = reflect.ArrayOf(0, t)
	case "array1":
		e.T = reflect.ArrayOf(1, t)
	case "array2":
		e.T = reflect.ArrayOf(2, t)
	case "map":
		e.T = reflect.MapOf(reflect.TypeOf(""), t)
	case "mapint":
		e.T = reflect.MapOf(reflect.TypeOf(int8(0)), t)
	case "mapuint":
		e.T = reflect.MapOf(reflect.TypeOf(uint64(0)), t)
	case "any":
		e.T = anyT
	case "struct0":
		e.T = reflect.StructOf(nil)
	case "struct1":
		e.T = reflect.StructOf([]reflect.StructField{fld("A", t, "")})
	case "structB": // value between others of smaller alignment
		e.T = reflect.StructOf([]reflect.StructField{fld("A", reflect.TypeOf(int8(0)), `json:"a"`), fld("B", t, ""), fld("C", reflect.TypeOf(""), `json:"c<"`)})
	case "structO":
		e.T = reflect.StructOf([]reflect.StructField{fld("A", t, `json:"a,omitempty"`), fld("B", t, `json:",omitempty"`), fld("Z", reflect.TypeOf(true), "")})
	case "structQ":
		e.T = reflect.StructOf([]reflect.StructField{fld("A", t, `json:"a,string"`), fld("B", t, `json:"B"`)})
	case "structN":
		e.T = reflect.StructOf([]reflect.StructField{fld("A", t, `json:"a,omitnil"`), fld("B", t, `json:"b,omitnil,omitempty"`), fld("Z", reflect.TypeOf(true), "")})
	case "syncmap":
		e.T = reflect.TypeOf((*sync.Map)(nil))
	default:
		panic("kit: op " + op)
	}
	return e
}

// StdOps are the composites that encoding/json knows too.
var StdOps = []string{"ptr", "slice", "array1", "map", "any", "struct1", "structB", "structO", "structQ", "array2", "array0", "mapint", "mapuint"}

// GenExpr enumerates the type expressions of at most the given depth.
func GenExpr(x *core.X, leaves []*Expr, ops []string, depth int) *Expr {
	n := len(leaves)
	if depth > 0 {
		n += len(ops)
	}
	i := x.Choose("type", n)
	if i < len(leaves) {
		return leaves[i]
	}
	return Mk(ops[i-len(leaves)], GenExpr(x, leaves, ops, depth-1))
}

// Value enumerates values of the expression; everything but the default
// value of every part is a deviation.
func (e *Expr) Value(x *core.X) reflect.Value {
	v := reflect.New(e.T).Elem()
	set := func(k *Expr, d reflect.Value) {
		d.Set(k.Value(x))
	}
	if len(e.Kids) == 0 && e.Vals != nil {
		return reflect.ValueOf(e.Vals[x.Dev(e.Op, len(e.Vals))])
	}
	switch e.Op {
	case "ptr":
		if x.Dev("ptr", 2) == 0 {
			p := reflect.New(e.Kids[0].T)
			set(e.Kids[0], p.Elem())
			v.Set(p)
		}
	case "slice":
		switch n := x.Dev("slice", 5); n {
		case 0, 3, 4:
			l := []int{2, 0, 0, 1, 5}[n]
			s := reflect.MakeSlice(e.T, l, l+1)
			for i := 0; i < l; i++ {
				set(e.Kids[0], s.Index(i))
			}
			v.Set(s)
		case 2:
			v.Set(reflect.MakeSlice(e.T, 0, 3))
		}
	case "array0", "array1", "array2":
		for i := 0; i < e.T.Len(); i++ {
			set(e.Kids[0], v.Index(i))
		}
	case "map", "mapint", "mapuint":
		n := x.Dev("map", 4)
		if n == 1 {
			break
		}
		m := reflect.MakeMap(e.T)
		keys := map[string][]interface{}{"map": {"k2", "k10", "<"}, "mapint": {int8(-3), int8(20), int8(7)}, "mapuint": {uint64(1) << 63, uint64(9), uint64(10)}}[e.Op]
		for i := 0; i < []int{2, 0, 0, 3}[n]; i++ {
			m.SetMapIndex(reflect.ValueOf(keys[i]), e.Kids[0].Value(x))
		}
		v.Set(m)
	case "any":
		if x.Dev("any", 2) == 0 {
			v.Set(e.Kids[0].Value(x))
		}
	case "struct0":
	case "syncmap":
		m := new(sync.Map)
		n := x.Dev("syncmap", 3)
		for i := 0; i < []int{2, 0, 1}[n]; i++ {
			m.Store([]string{"k2", "k10"}[i], e.Kids[0].Value(x).Interface())
		}
		v.Set(reflect.ValueOf(m))
	default:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == e.Kids[0].T {
				set(e.Kids[0], f)
				continue
			}
			switch f.Kind() {
			case reflect.Int8:
				f.SetInt(3)
			case reflect.String:
				f.SetString("é>")
			case reflect.Bool:
				f.SetBool(true)
			}
		}
	}
	return v
}

// Describe prints a value compactly, for samples and messages.
func Describe(v interface{}) string {
	s := fmt.Sprintf("%T %+v", v, v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// Fill returns a value of t without zero parts.
func Fill(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	fill(v, 1)
	return v
}

// FillN is Fill with other content for every n.
func FillN(t reflect.Type, n int) reflect.Value {
	v := reflect.New(t).Elem()
	fill(v, n)
	return v
}

func fill(v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n%2 == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(n)*3 + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(n)*5 + 2)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(n) + 0.25)
	case reflect.String:
		v.SetString(fmt.Sprint("s", n, "<"))
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		fill(p.Elem(), n+1)
		v.Set(p)
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 2, 2)
		fill(s.Index(0), n+1)
		fill(s.Index(1), n+2)
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), n+i)
		}
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		fill(k, n+1)
		fill(e, n+2)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), n+i)
			}
		}
	case reflect.Func:
		v.Set(reflect.MakeFunc(v.Type(), func([]reflect.Value) []reflect.Value {
			return []reflect.Value{reflect.ValueOf(n)}
		}))
	}
}
