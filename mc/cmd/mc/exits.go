package main

import (
	"context"
	"fmt"
	"reflect"
	"runtime"

	"github.com/wI2L/jettison"
	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"
)

// Methods that do not return.
type (
	exJ struct{ N int }
	exT struct{ N int }
	exA struct{ N int }
	exC struct{ N int }
)

var exNow func()

func (exJ) MarshalJSON() ([]byte, error)        { exNow(); return []byte("0"), nil }
func (exT) MarshalText() ([]byte, error)        { exNow(); return []byte("t"), nil }
func (exA) AppendJSON(b []byte) ([]byte, error) { exNow(); return append(b, '0'), nil }
func (*exC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	exNow()
	return append(b, '0'), nil
}

type exError struct{ s string }

func (e *exError) Error() string { return e.s }

func init() {
	ways := []struct {
		name string
		f    func()
	}{
		{"Goexit", runtime.Goexit},
		{"panic with nil", func() { panic(nil) }}, //nolint
		{"panic with a string", func() { panic("s") }},
		{"panic with an error", func() { panic(&exError{"e"}) }},
		{"index out of range", func() { var l []int; _ = l[len(l)] }},
		{"nil dereference", func() { var e *exError; _ = e.s }},
		{"map write", func() { var m map[int]int; m[1] = 2 }},
		{"panic with an error of the package", func() { panic(&jettison.UnsupportedTypeError{}) }},
		{"panic in a deferred call", func() { defer func() { panic("second") }(); panic("first") }},
		{"panic in a nested call", func() {
			_, _ = jettison.Marshal(map[string]interface{}{"in": panics{}})
		}},
		{"Goexit in a nested call", func() {
			now := exNow
			exNow = runtime.Goexit
			defer func() { exNow = now }()
			_, _ = jettison.Marshal(map[string]interface{}{"in": []interface{}{exJ{1}}})
		}},
	}
	vals := []interface{}{exJ{1}, exT{2}, exA{3}, exC{4}}
	drive.Add("C17", &core.Scenario{Name: "exits", Doc: fmt.Sprintf("each of 4 kinds of methods ends in one of %d ways other than returning - exits of the goroutine, panics with nil, strings, errors, of the runtime, in deferred and nested calls - at each of %d places: the way out is not changed, and later calls are not affected", len(ways), len(places)),
		SplitDepth: 2,
		Run: func(x *core.X) {
			v := vals[x.Choose("method", len(vals))]
			w := ways[x.Choose("way", len(ways))]
			p := places[x.Choose("place", len(places))]
			pv, ok := mkPlace(p, reflect.ValueOf(v))
			if !ok {
				x.Skip()
			}
			var opts []jettison.Option
			if x.Bool("unsorted") {
				opts = (&ref.Opts{UnsortedMap: true}).Options()
			}
			// in reports how f ends: it returns, or exits, or panics.
			in := func(f func()) (end string) {
				done := make(chan string)
				go func() {
					end := "exits"
					defer func() {
						if r := recover(); r != nil {
							end = fmt.Sprintf("panics with a %T, %v", r, r)
						}
						done <- end
					}()
					f()
					end = "returns"
				}()
				return <-done
			}
			calls := 0
			exNow = func() { calls++; w.f() }
			defer func() { exNow = nil }()
			want := in(w.f)
			var b []byte
			var err error
			got := in(func() { b, err = jettison.MarshalOpts(pv.Interface(), opts...) })
			if calls == 0 {
				if got != "returns" {
					x.Failf("%s %s: no method was called, and the call %s", p.name, describe(v), got)
				}
				x.Skip()
			}
			if got != want || calls != 1 {
				x.Failf("%s %s, %s: the call %s (%q, %v) after %d calls of the method; want that it %s after one", p.name, describe(v), w.name, got, b, err, calls, want)
			}
			in(func() { b, err = jettison.AppendOpts(make([]byte, 1, 100), pv.Interface(), opts...) })
			exNow = func() {}
			for k := 0; k < 2; k++ {
				histOps[8+k*4].f(x)
				for _, h := range histOps {
					if h.name == "re-entrant" || h.name == "map" || h.name == "sync.Map" {
						h.f(x)
					}
				}
				check(x, pv.Interface(), nil)
			}
		}})

	drive.Add("C20", &core.Scenario{Name: "farther", Doc: "structs with n unseen bytes before their members, by pointer, embedded, nested and in slices and arrays of 3 by pointer, for n around the powers of two from 2^21 to 2^26 (2^29): every member where it is",
		SplitDepth: 2,
		Run: func(x *core.X) {
			l := edges(1<<21, 1<<26)
			if x.Thorough {
				l = edges(1<<21, 1<<29)
			}
			n := l[x.Choose("offset", len(l))]
			t := []reflect.Type{intT, reflect.TypeOf(byte(0)), reflect.TypeOf(kit.Int_NVNN(0)), strT}[x.Choose("type", 4)]
			pad := sf("Pad", reflect.ArrayOf(n, reflect.TypeOf(byte(0))), `json:"-"`)
			st := reflect.StructOf([]reflect.StructField{sf("A", t, ""), pad, sf("B", t, ""), sf("C", t, `json:",omitempty"`)})
			fill := func(v reflect.Value, k int) {
				v.Field(0).Set(kit.FillN(t, k))
				v.Field(2).Set(kit.FillN(t, k+1))
				v.Field(3).Set(kit.FillN(t, k+2))
			}
			cmp := func(v interface{}) {
				nd, want := ref.Encode(v, nil)
				if want != nil {
					x.Failf("MODEL: %v", want)
				}
				b, err := jettison.Marshal(v)
				sameBytes(x, fmt.Sprintf("%d bytes before members of %v (%s)", n, t, reflect.TypeOf(v).Kind()), b, nd.Bytes(), err)
				x.Beat()
			}
			switch x.Choose("form", 3) {
			case 0:
				s := reflect.New(st)
				fill(s.Elem(), 1)
				cmp(s.Interface())
			case 1:
				a := reflect.New(reflect.ArrayOf(3, st))
				for i := 0; i < 3; i++ {
					fill(a.Elem().Index(i), 4*i+2)
				}
				cmp(a.Interface())
				cmp(a.Elem().Slice(0, 3).Interface())
				cmp(a.Elem().Slice(1, 3).Interface())
			case 2:
				out := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: st, Anonymous: true}, sf("D", t, ""), sf("S", st, ""), sf("F", t, "")}))
				fill(out.Elem().Field(0), 3)
				fill(out.Elem().Field(2), 7)
				out.Elem().Field(1).Set(kit.FillN(t, 20))
				out.Elem().Field(3).Set(kit.FillN(t, 21))
				cmp(out.Interface())
			}
			runtime.GC()
		}})
}
