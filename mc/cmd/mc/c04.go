package main

import (
	"context"
	"fmt"
	"reflect"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"
)

// kitKinds are the generated kinds; the first ones have all 81 combinations
// of methods and receivers, the others 17.
var kitKinds = []string{"Int", "St2", "St1p", "Map", "Str", "U8", "Sl", "Arr1p", "Fn", "St0", "F64", "Bool", "Arr2", "Big"}

// kitVals are the values of a generated type: filled, zero.
func kitVal(x *core.X, t reflect.Type) reflect.Value {
	if x.Bool("zero") {
		return reflect.Zero(t)
	}
	return kit.Fill(t)
}

type (
	mbase  struct{ N int }
	mV     struct{ N int } // MarshalJSON by value
	mP     struct{ N int } // MarshalJSON by pointer
	mT     struct{ N int } // MarshalText by pointer
	mA     struct{ N int } // AppendJSON by value
	promV  struct{ mV }
	promPV struct{ *mV }
	promP  struct{ mP }
	promPP struct{ *mP }
	promT  struct {
		mbase
		*mT
	}
	promTwo struct { // ambiguous: no promotion
		mV
		mP
	}
	promMix struct { // JSON of one, text of the other
		mT
		mV
	}
	promOver struct {
		mV
		X int
	}
	promDeep struct {
		promPP
		Y int
	}
	fieldsOf struct {
		A mV
		B *mV
		C mP
		D *mP
		E mT
		F *mT
		G mA
		H *mA
		I interface{}
		J []mP
		K [2]mP
		L map[string]mP
		M map[string]*mP
		N struct{ mP }
		O struct{ *mP }
	}
	wrapIn struct {
		*fieldsOf
		Z int
	}
	mbChan chan int
	mbFn   func()
)

func (m mV) MarshalJSON() ([]byte, error)  { return []byte(fmt.Sprintf(`{"mV":%d}`, m.N)), nil }
func (m *mP) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"mP":%d}`, m.N)), nil }
func (m *mT) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf(`mT%d`, m.N)), nil }
func (m mA) AppendJSON(b []byte) ([]byte, error) {
	return append(b, fmt.Sprintf(`{"mA":%d}`, m.N)...), nil
}
func (m promOver) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf(`over%d`, m.X)), nil }
func (m mbChan) MarshalJSON() ([]byte, error)   { return []byte(fmt.Sprint(cap(m))), nil }
func (m mbFn) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, fmt.Sprint(m == nil)...), nil
}

var promTypes = []interface{}{new(promV), new(promPV), new(promP), new(promPP), new(promT), new(promTwo), new(promMix), new(promOver), new(promDeep), new(fieldsOf), new(wrapIn), new(mbChan), new(mbFn)}

func init() {
	drive.Describe("C04", "Types with every combination of the four marshaling methods, each absent, on the value or on the pointer, stand at every kind of position; the calls made and the output are compared with a reflection model of the documented rules.")
	pick := func(x *core.X, kinds []string) reflect.Value {
		l := kit.ByKind(kinds[x.Choose("kind", len(kinds))])
		i := l[x.Choose("methods", len(l))]
		return kitVal(x, i.T)
	}
	drive.Add("C04",
		&core.Scenario{Name: "places", Doc: "14 kinds of types x their combinations of methods and receivers (81 for 4 kinds, 17 for the others) x filled and zero x every one of the positions (by value, pointer, in interfaces, slices, arrays, maps, sync.Map, struct fields with every tag option, interface-typed slots)",
			SplitDepth: 2,
			Run: func(x *core.X) {
				v := pick(x, kitKinds)
				w, _ := at(x, v, places)
				checkCalls(x, w, nil, true)
			}},
		&core.Scenario{Name: "nested-places", Doc: "methods NNNN,NNVN,NNPN,NNNP,PVNN,... (8 combinations) of 3 (6) kinds at every pair of positions, one inside the other",
			SplitDepth: 3,
			Run: func(x *core.X) {
				masks := []string{"NNPN", "NNNP", "PVNN", "NNVN"}
				kinds := []string{"St1p", "Int"}
				if x.Thorough {
					masks = []string{"NNPN", "NNNP", "PVNN", "NNVN", "NPVN", "VNNP", "NNNV", "PNNN"}
					kinds = []string{"Int", "St1p", "Map", "St2", "Sl", "St0"}
				}
				kind, mask := kinds[x.Choose("kind", len(kinds))], masks[x.Choose("mask", len(masks))]
				var i kit.Info
				for _, k := range kit.ByKind(kind) {
					if k.Mask == mask {
						i = k
					}
				}
				if i.T == nil {
					x.Skip() // not every kind has every combination
				}
				p := places[x.Choose("inner", len(places))]
				v, ok := p.mk(kit.Fill(i.T))
				if !ok || (!x.Thorough && p.name[0] == 'i' && p.name[1] == 'f') {
					x.Skip()
				}
				w, _ := at(x, v, places)
				checkCalls(x, w, nil, true)
			}},
		&core.Scenario{Name: "context", Doc: "the same positions with a context and with a marker in the context option, and pointer chains up to 4 deep with a nil at every level",
			SplitDepth: 2,
			Run: func(x *core.X) {
				kinds := kitKinds[:4]
				l := kit.ByKind(kinds[x.Choose("kind", len(kinds))])
				i := l[x.Choose("methods", len(l))]
				n := x.Choose("pointers", 5)
				nilAt := x.Choose("nil at", n+1) // n: none
				v := kit.Fill(i.T)
				for k := n - 1; k >= 0; k-- {
					if k == nilAt {
						v = reflect.Zero(reflect.PtrTo(v.Type()))
						continue
					}
					v = ptrV(v)
				}
				for _, w := range []reflect.Value{v, mkSlice(anyT, v), mkStruct(v, "", "a", "v"), ptrV(mkStruct(v, "", "v")), mkArray(v), mkMap(reflect.ValueOf("k"), v)} {
					checkCalls(x, w.Interface(), &ref.Opts{Ctx: context.WithValue(context.Background(), ctxKey{}, 1)}, true)
				}
			}},
		&core.Scenario{Name: "promoted", Doc: "structs with methods promoted from embedded fields (by value, pointer, ambiguous, overridden, through nil pointers), channel and function types with methods, zero and filled, at every position",
			MaxDev: 2, ThoroughDev: 4, SplitDepth: 2,
			Run: func(x *core.X) {
				p := reflect.New(reflect.TypeOf(promTypes[x.Choose("type", len(promTypes))]).Elem())
				n := 0
				filled := x.Bool("filled")
				if filled {
					fillAny(x, p.Elem(), &n, 4)
				}
				pl := places[x.Choose("place", len(places))]
				var w reflect.Value
				ok := true
				func() {
					defer func() {
						if recover() != nil {
							ok = false // reflect cannot build it
						}
					}()
					w, ok = pl.mk(p.Elem())
				}()
				if !ok {
					x.Skip()
				}
				if promPanics(w) {
					x.Skip() // the method itself dereferences the nil embedded pointer
				}
				check(x, w.Interface(), nil)
			}},
	)
}

type ctxKey struct{}

// promPanics tells whether encoding w calls a promoted method through a nil
// embedded pointer, which panics in the method's wrapper.
func promPanics(w reflect.Value) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	ref.Encode(w.Interface(), nil)
	return false
}
