package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"sync"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

func init() {
	drive.Describe("C21", "Declared recursive types through every type constructor and through several mutually recursive types; every value of them up to a depth, chains up to 100000 levels deep, values sharing parts, and values with cycles of every kind, compared with encoding/json.",
		"the depth of acyclic values is bounded by the goroutine stack (limited to 1 GB by the runtime)",
		"cycles closed by a marshaling method that calls the package again are out of scope: encoding/json does not detect them either")
	drive.Add("C21",
		&core.Scenario{Name: "shapes", Doc: "38 recursive types: every value with at most 2 children per slice or map up to depth 2, 3 or 4, by value and by pointer, in an interface, slice, array, map and struct",
			SplitDepth: 3,
			Run: func(x *core.X) {
				t := recTypes[x.Choose("type", len(recTypes))]
				f := x.Choose("form", 8)
				depth := 2
				switch t.Kind() {
				case reflect.Ptr, reflect.Array:
					depth = 3
				}
				if t.Name() == "rNode" || t.Name() == "rP1" || t.Name() == "rPP" || t.Name() == "rEmb" || t.Name() == "rMA" {
					depth = 4
				}
				if f != 0 && f != 1 && !x.Thorough {
					depth = 1
				} else if x.Thorough && f < 2 {
					switch t.Name() {
					case "rMS", "rMM", "rMI", "rVal", "rMB", "rTree", "rStArr", "rArr", "rDeepV", "rMut1", "rMut2", "rMut3", "rMut4", "rKey", "rNamedS", "rNamedP":
					default:
						depth++
					}
				}
				v := reflect.New(t).Elem()
				n := 0
				fillRec(x, v, depth, &n)
				var w interface{}
				switch f {
				case 0:
					w = v.Interface()
				case 1:
					w = ptrTo(v)
				case 2:
					w = []interface{}{v.Interface(), v.Interface()}
				case 3:
					w = mkSlice(t, v, v).Interface()
				case 4:
					w = mkArray(v).Interface()
				case 5:
					w = mkMap(reflect.ValueOf("m"), v).Interface()
				case 6:
					w = mkStruct(v, `json:"v,omitempty"`, "a", "v", "c").Interface()
				default:
					w = ptrTo(mkArray(v, v))
				}
				if t.Name() == "rMar" {
					check(x, w, nil)
					return
				}
				checkStd(x, w)
			}},
		&core.Scenario{Name: "options", Doc: "the same types with values of depth 2 (first choices varied), under 5 option sets",
			SplitDepth: 2, MaxDev: 3,
			Run: func(x *core.X) {
				t := recTypes[x.Choose("type", len(recTypes))]
				v := reflect.New(t).Elem()
				n := 0
				fillRec(x, v, 1+x.Choose("depth", 2), &n)
				if len(x.Labels) > 40 {
					x.Skip()
				}
				for _, o := range []*ref.Opts{{NilMapEmpty: true, NilSliceEmpty: true}, {UnsortedMap: true}, {HasDeny: true, Deny: []string{"V", "B"}}, {HasAllow: true, Allow: []string{"K", "k", "N", "L"}}, {NoHTMLEscaping: true, ByteArrayAsString: true}} {
					check(x, v.Interface(), o)
					check(x, ptrTo(v), o)
				}
			}},
		&core.Scenario{Name: "deep", Doc: "19 kinds of chains with 1..8, 998..1003, 1500, 5000, 30000 (100000) levels (through maps 5000 (30000)), acyclic, by value and by pointer, first used at that depth or before: same bytes as the model",
			SplitDepth: 2,
			Run: func(x *core.X) {
				debug.SetMaxStack(1 << 30)
				c := recChains[x.Choose("chain", len(recChains))]
				ds := []int{1, 2, 3, 4, 5, 6, 7, 8, 332, 333, 334, 335, 498, 499, 500, 501, 502, 998, 999, 1000, 1001, 1002, 1003, 1500, 5000, 30000}
				if x.Thorough {
					ds = append(ds, 100000)
				}
				d := ds[x.Choose("depth", len(ds))]
				switch c.name {
				case "rMap", "rStMap", "rMA", "rMut1", "rVal":
					// sorted maps copy what they contain: the cost is quadratic
					if d > 30000 || d > 5000 && !x.Thorough {
						x.Skip()
					}
				}
				v := c.mk(d)
				if x.Bool("pointer") {
					v = ptrTo(reflect.ValueOf(v))
				}
				b, err := jettison.Marshal(v)
				var want []byte
				var werr error
				if c.name == "rMar" || c.name == "any" {
					want, werr = marshalDeep(v)
				} else {
					want, werr = json.Marshal(v)
				}
				if werr != nil {
					x.Failf("MODEL: %s: %v", c.name, werr)
				}
				if err != nil || string(b) != string(want) {
					x.Failf("%s with %d levels: got %d bytes, error %v, want %d bytes", c.name, d, len(b), err, len(want))
				}
				x.Obs(b)
				x.Sample(func() string { return fmt.Sprintf("%s with %d levels -> %d bytes", c.name, d, len(b)) })
			}},
		&core.Scenario{Name: "shared", Doc: "values that share parts without cycles, below and above 1000 levels: the same pointer, slice, sub-slice, map, struct several times side by side, in nested and in overlapping slices",
			SplitDepth: 2,
			Run: func(x *core.X) {
				c := recChains[x.Choose("chain", len(recChains))]
				d := []int{1, 2, 3, 500, 999, 1000, 1001, 1200}[x.Choose("depth", 8)]
				up := []int{0, 1, 2, 998, 1000, 1500}[x.Choose("above", 6)]
				v := c.mk(d)
				var w interface{} = []interface{}{v, v, map[string]interface{}{"a": v, "b": &v, "c": v}, rIface{V: v}, rIface{V: &v}}
				for i := 0; i < up; i++ {
					w = []interface{}{w}
				}
				b, err := jettison.Marshal(w)
				want, werr := marshalDeep(w)
				if werr != nil {
					x.Failf("MODEL: %s: %v", c.name, werr)
				}
				if err != nil || string(b) != string(want) {
					x.Failf("%s with %d levels, shared below %d: got %d bytes, error %v, want %d bytes", c.name, d, up, len(b), err, len(want))
				}
				x.Obs(b)
			}},
		&core.Scenario{Name: "overlaps", Doc: "slices that contain slices of their own storage (empty, shorter, longer than what they contain) without being cyclic, at 1..2000 levels",
			SplitDepth: 1,
			Run: func(x *core.X) {
				up := []int{0, 1, 997, 998, 999, 1000, 1001, 2000}[x.Choose("above", 8)]
				n := 1 + x.Choose("len", 4)
				s := make(rSl, n)
				// element i may hold any sub-slice that begins after it
				for i := 0; i < n; i++ {
					lo := i + 1 + x.Choose("lo", n-i)
					if lo > n {
						lo = n
					}
					s[i] = s[lo : lo+x.Choose("n", n-lo+1)]
				}
				s[n-1] = s[:0] // the same storage, but empty
				v := s
				for i := 0; i < up; i++ {
					v = rSl{v}
				}
				b, err := jettison.Marshal(v)
				want, werr := json.Marshal(v)
				if werr != nil {
					x.Failf("MODEL: %v", werr)
				}
				if err != nil || string(b) != string(want) {
					x.Failf("overlapping slices %v below %d levels: got %q, error %v, want %q", s, up, tail(b), err, tail(want))
				}
				x.Obs(b)
			}},
		&core.Scenario{Name: "own-parts", Doc: "values that point to, slice or hold parts of themselves (members, elements, beginnings of any length, at the same address and others) without being cyclic, at 1..2000 levels, every set of up to 2 (3) parts",
			SplitDepth: 2,
			Run: func(x *core.X) {
				up := []int{0, 1, 997, 998, 999, 1000, 1001, 2000}[x.Choose("above", 8)]
				n := 2
				if x.Thorough {
					n = 3
				}
				var v interface{}
				if x.Bool("slice") {
					// element i may hold any slice of the elements before it
					n++
					s := make([]interface{}, n)
					s[0] = 1
					for i := 1; i < n; i++ {
						lo := x.Choose("lo", i+1)
						hi := lo + x.Choose("n", i-lo+1)
						switch x.Choose("as", 4) {
						case 0:
							s[i] = s[lo:hi]
						case 1:
							s[i] = s[lo:hi:hi]
						case 2:
							h := s[lo:hi]
							s[i] = &h
						case 3:
							if hi == lo {
								x.Skip()
							}
							s[i] = &s[hi-1]
						}
					}
					v = s
				} else {
					o := &rOuter{}
					o.A.B[0].C.N, o.A.B[1].S = 5, []int{1, 2}
					parts := []interface{}{&o.A, &o.A.B, &o.A.B[0], &o.A.B[0].C, &o.A.B[0].C.N, o.A.B[:1], o.A.B[:], o.A.B[:0], &o.A.B[1], &o.A.B[1].S, o.A.B[1].S[:1], &o.A.B[1].S[0], &o.L, &o.M}
					o.L = []interface{}{}
					o.M = map[string]interface{}{}
					m := map[string]interface{}{}
					for i := 0; i < n; i++ {
						p := parts[x.Choose("part", len(parts))]
						switch x.Choose("at", 5) {
						case 0:
							o.I = append(o.I, p)
						case 1:
							o.Last = p
						case 2:
							o.J = append(o.J, &p)
						case 3:
							m[fmt.Sprint(i)] = p
						case 4:
							o.Any = []interface{}{[]interface{}{p}, p, m}
						}
					}
					o.P, o.Q = &o.A, &o.A.B
					v = o
				}
				for i := 0; i < up; i++ {
					v = []interface{}{v}
				}
				b, err := jettison.Marshal(v)
				want, werr := json.Marshal(v)
				if werr != nil {
					x.Failf("MODEL: %v", werr)
				}
				if err != nil || string(b) != string(want) {
					x.Failf("a value that shares its parts below %d levels: got %q, error %v, want %q", up, tail(b), err, tail(want))
				}
				x.Obs(b)
			}},
		&core.Scenario{Name: "cycles", Doc: "25 kinds of cycles of 1..4, 400, 1001 links below 0..3 wrappers of 9 kinds and at 13 positions, with UnsortedMap and without: an error, no data, no crash, and correct results afterwards",
			SplitDepth: 2,
			Run: func(x *core.X) {
				debug.SetMaxStack(256 << 20)
				c := recCycles[x.Choose("cycle", len(recCycles))]
				n := []int{1, 2, 3, 4, 400, 1001}[x.Choose("links", 6)]
				v := c.mk(n)
				depth := x.Choose("wrappers", 3)
				if x.Thorough && depth == 2 {
					depth = 2 + x.Choose("more", 2)
				}
				if n > 4 && depth > 1 {
					x.Skip()
				}
				for i := 0; i < depth; i++ {
					v = anyLinks[x.Choose("wrap", len(anyLinks))].wrap(v)
				}
				name := fmt.Sprintf("cycle of %d %s below %d wrappers", n, c.name, depth)
				opts := []jettison.Option{}
				if x.Bool("unsorted") {
					opts = append(opts, jettison.UnsortedMap())
				}
				for _, w := range []interface{}{v, &v} {
					b, err := jettison.MarshalOpts(w, opts...)
					if err == nil || b != nil {
						x.Failf("%s: got %d bytes, error %v; want an error", name, len(b), err)
					}
					x.Obs([]byte(name))
				}
				for _, w := range []interface{}{map[string]interface{}{"b": 1, "a": rSl{nil, {}}}, rNode{1, &rNode{2, nil}}, syncMapOf("k", rIface{})} {
					check(x, w, nil)
				}
				x.Sample(func() string { return name + " -> error" })
			}},
		&core.Scenario{Name: "cycle-positions", Doc: "25 kinds of cycles of 1 and 2 links at every position",
			SplitDepth: 2,
			Run: func(x *core.X) {
				debug.SetMaxStack(256 << 20)
				c := recCycles[x.Choose("cycle", len(recCycles))]
				n := 1 + x.Choose("links", 2)
				p := places[x.Choose("place", len(places))]
				if len(p.name) > 9 && p.name[len(p.name)-4:] == "-key" || p.name == "map-key" {
					x.Skip() // cannot be encoded anyway
				}
				w, ok := p.mk(reflect.ValueOf(c.mk(n)))
				if !ok {
					x.Skip()
				}
				b, err := jettison.Marshal(w.Interface())
				if err == nil || b != nil {
					x.Failf("cycle of %d %s at %s: got %d bytes, error %v; want an error", n, c.name, p.name, len(b), err)
				}
				x.Obs([]byte(fmt.Sprint(c.name, n, p.name)))
			}},
		&core.Scenario{Name: "cycle-errors", Doc: "values that contain themselves and fail or call methods on the way",
			SplitDepth: 1,
			Run: func(x *core.X) {
				debug.SetMaxStack(256 << 20)
				c := recCycles[x.Choose("cycle", len(recCycles))]
				calls := 0
				v := []interface{}{kit.Int_NVNN(1), c.mk(1 + x.Choose("links", 2)), kit.Int_NVNN(2)}
				kit.Hook = func(cl *kit.Call, out []byte) ([]byte, error) {
					if cl.Type == "Int_NVNN" {
						calls++
					}
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				b, err := jettison.Marshal(v)
				if err == nil || b != nil || calls != 1 {
					x.Failf("cycle of %s: got %d bytes, error %v, %d calls of methods beside it; want an error after 1", c.name, len(b), err, calls)
				}
				x.Obs([]byte(c.name))
			}},
	)
}

type rOuter struct {
	A struct {
		B [2]struct {
			C struct{ N int }
			S []int
		}
	}
	P    interface{}
	Q    interface{}
	I    []interface{}
	J    []*interface{}
	L    interface{}
	M    interface{}
	Any  []interface{}
	Last interface{}
}

func tail(b []byte) []byte {
	if len(b) > 60 {
		return b[len(b)/2-30 : len(b)/2+30]
	}
	return b
}

// marshalDeep encodes a value with encoding/json, sync.Maps and append
// marshalers with the model.
func marshalDeep(v interface{}) ([]byte, error) {
	b, err := ref.EncodeBytes(v, nil)
	if err != nil {
		return b, err
	}
	return b, nil
}

var _ = sync.Map{}
