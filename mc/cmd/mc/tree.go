package main

import (
	"encoding/json"
	"math"
	"reflect"
	"time"

	"verifmc/core"
	"verifmc/kit"
)

// tree generates values made of recording marshalers and containers.
type tree struct {
	x      *core.X
	n      int  // leaves so far; every one is different
	errs   bool // leaves may be values that cannot be encoded (one deviation each)
	binary bool // the second child of a container may be a container, too
}

var treeLeaves = []string{"Int NVNN", "Int VNNN", "Int NNVN", "Int NNNV", "Int NNPN", "St1p VNNN", "St2 NPNN", "Map NNNV", "nil", "Sl NNPN"}

// badLeaves cannot be encoded.
var badLeaves = []interface{}{
	func() {}, make(chan int), complex64(1), math.NaN(), float32(math.Inf(-1)), json.Number("1."), json.RawMessage(`{]`), rawMarshaler("[1,]"), map[bool]int{true: 1}, map[float64]int{},
	time.Date(10001, 1, 1, 0, 0, 0, 0, time.UTC), syncMapOf(1.5, 2), syncMapOf([2]int{}, 1), struct{ F func() }{}, []chan int{nil}, map[failKey]int{{"x"}: 1}, fails{}, (func())(nil), [1]complex128{}, &struct{ N json.Number }{"-"}, rawMarshaler(nil), map[textKey]func(){{"a"}: nil}, failText{},
}

type failText struct{}

func (failText) MarshalText() ([]byte, error) { return nil, errBoom }

func (t *tree) leaf() reflect.Value {
	t.n++
	if t.errs {
		if k := t.x.Dev("bad", len(badLeaves)+1); k > 0 {
			return reflect.ValueOf(badLeaves[k-1])
		}
	}
	l := treeLeaves[t.x.Choose("leaf", len(treeLeaves))]
	if l == "nil" {
		return reflect.Zero(reflect.PtrTo(kit.Lookup("Int", "NNVN").T))
	}
	for i := 0; i < len(l); i++ {
		if l[i] == ' ' {
			return kit.FillN(kit.Lookup(l[:i], l[i+1:]).T, t.n*10)
		}
	}
	panic(l)
}

// simple is a leaf that needs no choice.
func (t *tree) simple() reflect.Value {
	t.n++
	if t.errs {
		if k := t.x.Dev("bad", len(badLeaves)+1); k > 0 {
			return reflect.ValueOf(badLeaves[k-1])
		}
	}
	return kit.FillN(kit.Lookup("Int", []string{"NVNN", "NNPN"}[t.n%2]).T, t.n*10)
}

const treeOps = 14

func (t *tree) gen(depth int) reflect.Value {
	if depth == 0 {
		return t.leaf()
	}
	op := t.x.Choose("op", treeOps)
	if op == 0 {
		return t.leaf()
	}
	a := t.gen(depth - 1)
	second := func() reflect.Value {
		if t.binary {
			return t.gen(depth - 1)
		}
		return t.simple()
	}
	switch op {
	case 1:
		return mkSlice(anyT, a, second())
	case 2:
		b := second()
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", a.Type(), ""), sf("B", b.Type(), `json:"b,omitempty"`)})).Elem()
		s.Field(0).Set(a)
		s.Field(1).Set(b)
		return s
	case 3:
		b := second()
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("D", a.Type(), `json:"deny"`), sf("A", a.Type(), `json:",omitempty"`), sf("I", a.Type(), `json:"-"`), sf("B", b.Type(), `json:",omitnil"`)}))
		s.Elem().Field(0).Set(a)
		s.Elem().Field(1).Set(a)
		s.Elem().Field(2).Set(a)
		s.Elem().Field(3).Set(b)
		return s
	case 4:
		return mkMap(reflect.ValueOf("k"), a)
	case 5:
		return mkSlice(a.Type(), a, a)
	case 6:
		return mkArray(a)
	case 7:
		return ptrV(a)
	case 8:
		return mkMap(kit.FillN(kit.Lookup("Int", "NNNV").T, t.n*10+1), a)
	case 9:
		return reflect.ValueOf(syncMapOf("k", a.Interface()))
	case 10:
		return mkMap(reflect.ValueOf(7), mkSlice(anyT, a).Index(0))
	case 11:
		b := second()
		return reflect.ValueOf([2]interface{}{a.Interface(), b.Interface()})
	case 12:
		return ptrV(mkArray(a, a))
	default:
		return reflect.ValueOf(syncMapOf(kit.FillN(kit.Lookup("Int", "NNNV").T, t.n*10+2).Interface(), a.Interface()))
	}
}
