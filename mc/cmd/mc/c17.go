package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// histForms are the forms in which a type can reach the encoder; they build
// different instructions for it, or share them.
var histForms = func() []place {
	var l []place
	for _, n := range []string{"value", "pointer", "slice", "array1", "array2", "pointer-array2", "map-value", "struct[a v c]", "pointer-struct[a v c]", "struct[v]", "ptrfield-struct[v]",
		"map-key", "syncmap-value", "any-slice", "pointer-pointer", `struct[v]json:"v,string"`, `pointer-struct[a v c]json:"v,omitnil"`, `struct[a v c]json:"v,omitempty"`, "ptr-slice", "syncmap-key"} {
		found := false
		for _, p := range places {
			if p.name == n {
				l = append(l, p)
				found = true
			}
		}
		if !found {
			for _, p := range places {
				if strings.ReplaceAll(p.name, " ", "") == strings.ReplaceAll(n, " ", "") {
					l = append(l, p)
					found = true
				}
			}
		}
		if !found && !strings.Contains(n, `"v,string"`) {
			panic("no place " + n)
		}
	}
	return l
}()

var uniqueTag int64

// freshTypes build struct types that no earlier execution of this process
// used: the tag of a field has a new number.
var freshTypes = []struct {
	name string
	mk   func(tag string) reflect.Type
}{
	{"{int}", func(g string) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("A", intT, g)}) }},
	{"{*int}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", reflect.PtrTo(intT), g)})
	}},
	{"{map}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(map[string]int{}), g)})
	}},
	{"{pointer marshaler}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(kit.Int_NNPN(0)), g), sf("B", reflect.TypeOf(kit.St2_NNNP{}), "")})
	}},
	{"{marshalers}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(kit.Map_NVNN(nil)), g), sf("B", reflect.TypeOf(new(kit.Int_VNNN)), "")})
	}},
	{"{{pointer marshaler}}", func(g string) reflect.Type {
		in := reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(kit.Int_NPNN(0)), g)})
		return reflect.StructOf([]reflect.StructField{sf("X", in, ""), sf("Y", reflect.PtrTo(in), ""), sf("Z", reflect.SliceOf(in), "")})
	}},
	{"{[2]struct}", func(g string) reflect.Type {
		in := reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(kit.Str_NNNP("")), g)})
		return reflect.StructOf([]reflect.StructField{sf("X", reflect.ArrayOf(2, in), ""), sf("Y", reflect.MapOf(strT, in), "")})
	}},
	{"{}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(struct{}{}), g)})
	}},
	{"{any string}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", anyT, g), sf("B", strT, `json:",string"`), sf("C", reflect.TypeOf(time.Duration(0)), `json:",string,omitempty"`)})
	}},
	{"{func}", func(g string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", intT, g), sf("F", reflect.TypeOf(func() {}), "")})
	}},
	{"{one pointer struct}", func(g string) reflect.Type {
		in := reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(kit.St1p_NNPN{}), g)})
		return reflect.StructOf([]reflect.StructField{sf("P", reflect.PtrTo(in), `json:",omitnil"`), sf("Q", in, `json:",omitnil"`)})
	}},
}

// static families: values of declared types.
func histValues() []interface{} {
	var l []interface{}
	for _, k := range kitKinds {
		for _, i := range kit.ByKind(k) {
			l = append(l, kit.Fill(i.T).Interface())
		}
	}
	for _, c := range recChains {
		l = append(l, c.mk(2))
	}
	for _, p := range embTypes {
		v := reflect.New(reflect.TypeOf(p()).Elem())
		n := 0
		fillAny(nil, v.Elem(), &n, 3)
		l = append(l, v.Elem().Interface())
	}
	for _, f := range namesakes {
		for _, t := range f.ts {
			l = append(l, namesake(t, 1).Interface())
		}
	}
	return l
}

// namesake returns a value of one of the namesakes; of interface types, one in
// a slice.
func namesake(t reflect.Type, n int) reflect.Value {
	v := reflect.New(t).Elem()
	fillAny(nil, v, &n, 3)
	if t.Kind() == reflect.Interface {
		return mkSlice(t, v, reflect.Zero(t))
	}
	return v
}

func init() {
	drive.Env("C17", "GOMAXPROCS=1")
	drive.Describe("C17", "First uses of types in every order of forms, in this process with fresh types and in fresh processes with declared types; histories of calls that succeed, fail, panic and re-enter, after which a battery of values must encode as if nothing had happened.")
	drive.Add("C17",
		&core.Scenario{Name: "fresh-types", Doc: "11 kinds of struct types, new in every execution, encoded in every ordered pair (triple, on the first 12 forms) of 19 forms, by themselves and as parts: every result as the model's, and all forms again at the end",
			SplitDepth: 2,
			Run: func(x *core.X) {
				f := freshTypes[x.Choose("type", len(freshTypes))]
				a := x.Choose("first", len(histForms))
				b := x.Choose("second", len(histForms))
				seq := []int{a, b}
				if x.Thorough && a < 8 && b < 8 {
					if c := x.Choose("third", 9); c < 8 {
						seq = append(seq, c)
					}
				}
				t := f.mk(fmt.Sprintf(`json:"a" u:"%d.%d"`, os.Getpid(), atomic.AddInt64(&uniqueTag, 1)))
				v := kit.Fill(t)
				name := f.name
				for i, k := range append(seq, 1, 0, a) {
					w, ok := histForms[k].mk(v)
					if !ok {
						x.Skip()
					}
					name += " " + histForms[k].name
					n, want := ref.Encode(w.Interface(), nil)
					got, err := jettison.Marshal(w.Interface())
					judge2(x, fmt.Sprintf("%s (step %d)", name, i), got, err, n, want)
				}
				x.Sample(func() string { return name })
			}},
		&core.Scenario{Name: "fresh-processes", Doc: "for every ordered pair (triple, 12 forms) of 19 forms a fresh process that encodes about 630 declared types (kit types with every method set, recursive types, embedded structs, types of the same name) first in the one form, then in the other; types in both orders",
			SplitDepth: 2,
			Run: func(x *core.X) {
				a := x.Choose("first", len(histForms))
				b := x.Choose("second", len(histForms))
				c, rev := -1, x.Bool("reverse")
				if x.Thorough {
					if c = x.Choose("third", len(histForms)+1) - 1; c >= 10 {
						x.Skip()
					}
				}
				self, err := os.Executable()
				if err != nil {
					x.Skip()
				}
				x.Beat()
				cmd := exec.Command(self, "hist", strconv.Itoa(a), strconv.Itoa(b), strconv.Itoa(c), fmt.Sprint(rev))
				out, err := cmd.CombinedOutput()
				if n, ok := histOK(out); err == nil && ok {
					x.ObsN(int64(n))
					x.Obs([]byte(fmt.Sprint(a, b, c, rev)))
					x.Sample(func() string {
						return fmt.Sprintf("%s, then %s: %d encodings", histForms[a].name, histForms[b].name, n)
					})
					return
				}
				if len(out) > 3000 {
					out = out[:3000]
				}
				x.Failf("fresh process, forms %s, %s, %d, reversed %v: %v %s", histForms[a].name, histForms[b].name, c, rev, err, out)
			}},
		&core.Scenario{Name: "namesakes", Doc: "52 local types that all print as main.T and differ in kind, in the names, order, types or tags of their members, or in those of a type that prints alike again; 5 x 3 types of the same name from 3 packages of the same name, with other methods: every ordered pair within a family in every form, after each other and together",
			SplitDepth: 2,
			Run: func(x *core.X) {
				f := namesakes[x.Choose("family", len(namesakes))]
				a := namesake(f.ts[x.Choose("first", len(f.ts))], 1)
				b := namesake(f.ts[x.Choose("second", len(f.ts))], 3)
				var l []interface{}
				for _, p := range histForms {
					for _, v := range []reflect.Value{a, b} {
						if w, ok := mkPlace(p, v); ok {
							n, want := ref.Encode(w.Interface(), nil)
							got, err := jettison.Marshal(w.Interface())
							judge2(x, fmt.Sprintf("%s: %v, then %v, in %s", f.name, a.Type(), b.Type(), p.name), got, err, n, want)
							l = append(l, w.Interface())
						}
					}
				}
				check(x, l, nil)
				t := reflect.StructOf([]reflect.StructField{sf("A", a.Type(), `json:"a"`), sf("B", b.Type(), `json:"b,omitempty"`), sf("C", a.Type(), `json:",string"`), sf("D", reflect.PtrTo(b.Type()), ""), sf("E", reflect.SliceOf(a.Type()), ""), sf("F", reflect.SliceOf(b.Type()), "")})
				s := reflect.New(t).Elem()
				s.Field(0).Set(a)
				s.Field(1).Set(b)
				s.Field(2).Set(a)
				s.Field(3).Set(ptrV(b))
				s.Field(4).Set(mkSlice(a.Type(), a))
				s.Field(5).Set(mkSlice(b.Type(), b, b))
				check(x, s.Interface(), nil)
				check(x, s.Addr().Interface(), nil)
			}},
		&core.Scenario{Name: "histories", Doc: "all histories of 3 (4) calls out of 17 (success, maps, errors and panics at every kind of place, re-entry, options, unsupported types, collections), then a battery of 12 values",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 3
				if x.Thorough {
					n = 4
				}
				var h []string
				for i := 0; i < n; i++ {
					k := x.Choose("call", len(histOps))
					h = append(h, histOps[k].name)
					histOps[k].f(x)
				}
				x.Notef("history %v", h)
				battery(x, fmt.Sprint("after ", h))
				x.Sample(func() string { return fmt.Sprint(h) })
			}},
		&core.Scenario{Name: "history-of-type", Doc: "a type whose first encoding fails or panics (inside its own method, in a map value, in a key, re-entrantly encoding the same type), new in every execution, then encoded normally in every form",
			SplitDepth: 2,
			Run: func(x *core.X) {
				m := []string{"NVNN", "NNVN", "NNNV", "VNNN", "NNPN", "NPNN"}[x.Choose("methods", 6)]
				kt := kit.Lookup([]string{"Int", "St1p"}[x.Choose("kind", 2)], m).T
				in := reflect.StructOf([]reflect.StructField{sf("A", intT, fmt.Sprintf(`json:"a" u:"h%d.%d"`, os.Getpid(), atomic.AddInt64(&uniqueTag, 1))), sf("T", kt, ""), sf("P", reflect.PtrTo(kt), "")})
				v := kit.Fill(in)
				f1 := histForms[x.Choose("first", len(histForms))]
				act := x.Choose("action", 4)
				w1, ok := f1.mk(v)
				if !ok {
					x.Skip()
				}
				busy := false
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					if busy {
						return out, nil
					}
					busy = true
					defer func() { busy = false }()
					switch act {
					case 0:
						return nil, errBoom
					case 1:
						panic(errBoom)
					case 2:
						for _, f := range histForms {
							if w, ok := f.mk(v); ok {
								n, want := ref.Encode(w.Interface(), nil)
								got, err := jettison.Marshal(w.Interface())
								judge2(x, "re-entrant "+f1.name+" "+f.name, got, err, n, want)
							}
						}
					case 3:
						runtime.GC()
					}
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				func() {
					defer func() {
						if r := recover(); r != nil && r != interface{}(errBoom) {
							panic(r)
						}
					}()
					jettison.Marshal(w1.Interface())
				}()
				kit.Hook = nil
				for _, f := range histForms {
					if w, ok := f.mk(v); ok {
						n, want := ref.Encode(w.Interface(), nil)
						got, err := jettison.Marshal(w.Interface())
						judge2(x, fmt.Sprintf("%s %v, action %d, then %s", f1.name, kt, act, f.name), got, err, n, want)
					}
				}
			}},
		&core.Scenario{Name: "option-histories", Doc: "a type, new in every execution, first encoded under one of 24 option settings and then under another and none",
			SplitDepth: 2,
			Run: func(x *core.X) {
				f := freshTypes[x.Choose("type", len(freshTypes))]
				a, b := x.Choose("first", 11), x.Choose("second", 11)
				t := f.mk(fmt.Sprintf(`json:"a<" u:"o%d.%d"`, os.Getpid(), atomic.AddInt64(&uniqueTag, 1)))
				fs := reflect.StructOf([]reflect.StructField{sf("V", t, ""), sf("M", reflect.MapOf(strT, t), ""), sf("T", reflect.TypeOf(time.Time{}), ""), sf("R", reflect.TypeOf(json.RawMessage{}), ""), sf("B", reflect.TypeOf([2]byte{}), "")})
				v := reflect.New(fs).Elem()
				v.Field(0).Set(kit.Fill(t))
				v.Field(2).Set(reflect.ValueOf(time.Unix(5, 6).UTC()))
				v.Field(3).Set(reflect.ValueOf(json.RawMessage(` "<" `)))
				for _, o := range []*ref.Opts{(&ref.Opts{HasDeny: true, Deny: []string{"B"}}).SetFlags(1 << uint(a)), (&ref.Opts{TimeLayout: time.Kitchen}).SetFlags(1 << uint(b)), nil, {HasAllow: true, Allow: []string{"V", "a<", "X"}}} {
					check(x, v.Interface(), o)
					check(x, v.Addr().Interface(), o)
				}
			}},
	)
}

// judge2 is judge without printing the value, which may have a huge type.
func judge2(x *core.X, what string, b []byte, err error, n *ref.Node, want *ref.Error) {
	if want != nil {
		if m := ref.CheckErr(err, want); m != "" || b != nil {
			x.Failf("%s: got %q: %s", what, b, m)
		}
		x.Obs([]byte("E" + what))
		return
	}
	if err != nil || !bytes.Equal(b, n.Bytes()) {
		x.Failf("%s:\n got %q, %v\nwant %q", what, b, err, n.Bytes())
	}
	x.Obs(b)
}

func histOK(out []byte) (int, bool) {
	s := strings.TrimSpace(string(out))
	if !strings.HasPrefix(s, "HISTORY OK ") {
		return 0, false
	}
	n, err := strconv.Atoi(s[len("HISTORY OK "):])
	return n, err == nil
}

// histMain is the fresh process.
func histMain(args []string) int {
	a, _ := strconv.Atoi(args[0])
	b, _ := strconv.Atoi(args[1])
	c, _ := strconv.Atoi(args[2])
	vals := histValues()
	if args[3] == "true" {
		for i, j := 0, len(vals)-1; i < j; i, j = i+1, j-1 {
			vals[i], vals[j] = vals[j], vals[i]
		}
	}
	seq := []int{a, b}
	if c >= 0 {
		seq = append(seq, c)
	}
	n := 0
	for _, v := range vals {
		for i, k := range seq {
			w, ok := mkPlace(histForms[k], reflect.ValueOf(v))
			if !ok {
				continue
			}
			nd, want := ref.Encode(w.Interface(), nil)
			got, err := jettison.Marshal(w.Interface())
			n++
			if want != nil {
				if m := ref.CheckErr(err, want); m != "" || got != nil {
					fmt.Printf("%T as %s (step %d): got %q: %s\n", v, histForms[k].name, i, got, m)
					return 1
				}
			} else if err != nil || !bytes.Equal(got, nd.Bytes()) {
				fmt.Printf("%T as %s (step %d): got %q, %v, want %q\n", v, histForms[k].name, i, got, err, nd.Bytes())
				return 1
			}
		}
	}
	fmt.Println("HISTORY OK", n)
	return 0
}

// mkPlace is p.mk, which fails where reflect cannot build the type.
func mkPlace(p place, v reflect.Value) (w reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return p.mk(v)
}

var histOps = []struct {
	name string
	f    func(x *core.X)
}{
	{"struct", func(x *core.X) { check(x, struct{ A, B int }{1, 2}, nil) }},
	{"large", func(x *core.X) { check(x, []string{ownLong, "x"}, nil) }},
	{"map", func(x *core.X) {
		check(x, map[string]interface{}{"b": map[int]string{2: "x", 10: "y"}, "a": nil, "c": ownLong[:50]}, nil)
	}},
	{"sync.Map", func(x *core.X) {
		check(x, syncMapOf("b", syncMapOf("d", 1, "c", 2), "a", map[string]int{"y": 1, "x": 2}), nil)
	}},
	{"unsorted map", func(x *core.X) {
		check(x, map[string]interface{}{"b": map[string]int{"q": 1}, "a": syncMapOf("r", 2)}, &ref.Opts{UnsortedMap: true})
	}},
	{"error in map value", func(x *core.X) { failing(x, map[string]interface{}{"a": "leftover", "b": fails{}, "c": 1}) }},
	{"error in sync.Map value", func(x *core.X) { failing(x, syncMapOf("a", "leftover", "b", math.NaN(), "c", "more")) }},
	{"error in map key", func(x *core.X) { failing(x, map[failKey]string{{"a"}: "x", {"b"}: "y"}) }},
	{"error in unsorted nested map", func(x *core.X) {
		if _, err := jettison.MarshalOpts(map[string]interface{}{"k": map[string]interface{}{"l": math.Inf(1), "m": 1}}, jettison.UnsortedMap()); err == nil {
			x.Failf("infinity accepted")
		}
	}},
	{"error in slice", func(x *core.X) { failing(x, []interface{}{ownLong, json.Number("1x")}) }},
	{"panic in slice", func(x *core.X) { panicking(x, []interface{}{"leftover", panics{}}) }},
	{"panic in map value", func(x *core.X) {
		panicking(x, map[string]interface{}{"a": "leftover", "b": map[string]interface{}{"c": panics{}}})
	}},
	{"panic in sync.Map value", func(x *core.X) { panicking(x, syncMapOf("a", "leftover", "b", syncMapOf("c", panics{}))) }},
	{"panic in key", func(x *core.X) { panicking(x, map[panicKey]int{{"a"}: 1, {"b"}: 2}) }},
	{"re-entrant", func(x *core.X) {
		check(x, map[string]interface{}{"m": appInto{map[string]interface{}{"n": appInto{syncMapOf("k", appInto{[]int{1}})}, "a": 1}}, "l": kit.Map_NVNN{"k": 1}}, nil)
	}},
	{"unsupported type", func(x *core.X) {
		for _, v := range []interface{}{make(chan int), map[bool]int{}, []func(){nil}, struct{ C complex64 }{}} {
			failing(x, v)
		}
	}},
	{"collection", func(x *core.X) { runtime.GC(); runtime.GC() }},
}

type failKey struct{ s string }

func (k failKey) MarshalText() ([]byte, error) { return nil, errBoom }

type panicKey struct{ s string }

func (k panicKey) MarshalText() ([]byte, error) { panic(errBoom) }

func failing(x *core.X, v interface{}) {
	b, err := jettison.Marshal(v)
	if b != nil || err == nil {
		x.Failf("%s: got %q, %v; want an error", describe(v), b, err)
	}
}

func panicking(x *core.X, v interface{}) {
	defer func() {
		if r := recover(); r == nil || !errors.Is(r.(error), errBoom) {
			x.Failf("%s: recovered %v; want the panic of the method", describe(v), r)
		}
	}()
	b, err := jettison.Marshal(v)
	x.Failf("%s: got %q, %v; want a panic", describe(v), b, err)
}

// battery encodes values that use all shared state of the package.
func battery(x *core.X, what string) {
	for _, v := range batteryVals {
		n, want := ref.Encode(v, nil)
		got, err := jettison.Marshal(v)
		judge2(x, fmt.Sprintf("%s: %s", what, describe(v)), got, err, n, want)
		got, err = jettison.Append(nil, v)
		if err == nil {
			judge2(x, fmt.Sprintf("%s: Append %s", what, describe(v)), got, err, n, want)
		}
		n, want = ref.Encode(v, &ref.Opts{UnsortedMap: true})
		u, err := jettison.MarshalOpts(v, jettison.UnsortedMap())
		if (err != nil) != (want != nil) || err == nil && !n.Match(u) {
			x.Failf("%s: %s unsorted: got %q, %v", what, describe(v), u, err)
		}
	}
}

var batteryVals = []interface{}{
	"s", 1, map[string]int{"b": 1, "a": 2}, syncMapOf("b", 1, "a", 2), map[int]map[string]int{1: {"d": 1, "c": 2}, 0: nil}, map[string]interface{}{},
	[]interface{}{map[string]int{"k": 1}, "t", syncMapOf("k", map[string]int{"x": 1})}, map[textKey]int{{"b"}: 1, {"a"}: 2}, syncMapOf("k", syncMapOf()), &struct {
		A map[string]int
		B *sync.Map
		C []byte
	}{map[string]int{"z": 1}, syncMapOf("y", 2), []byte("x")}, map[string]interface{}{"a": kit.Int_NVNN(1), "b": appInto{map[string]int{"q": 1, "p": 2}}}, map[string]int(nil),
}
