package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
)

func basicLeaves() []*kit.Expr {
	return append(kit.BasicLeaves(), kit.StdLeaves()...)
}

// ladder are the sizes at which buffers, batches and shortcuts could change
// behaviour.
func ladder(dense, max int) []int {
	var r []int
	for i := 0; i <= dense; i++ {
		r = append(r, i)
	}
	for p := 1; p <= max; p *= 2 {
		for d := -1; d <= 1; d++ {
			if n := p + d; n > dense {
				r = append(r, n)
			}
		}
	}
	for p := 10; p <= max; p *= 10 {
		for d := -1; d <= 1; d++ {
			if n := p + d; n > dense {
				r = append(r, n)
			}
		}
	}
	return r
}

func init() {
	drive.Describe("C01", "All type expressions over the leaves and constructors up to the stated depth are enumerated; parts of a value leave their default one deviation at a time.",
		"encoding/json of the Go toolchain in use is the oracle; the reference model is checked against it on every execution",
		"Go 1.23 runtime layout")
	few := func() []*kit.Expr {
		b := kit.BasicLeaves()
		return []*kit.Expr{b[1], b[0], b[12], b[13], b[14], b[15], b[16], kit.UnsupportedLeaves()[0]}
	}
	drive.Add("C01",
		&core.Scenario{Name: "types", Doc: "every type expression to depth 2 (quick) or 3 (thorough) over 23 leaves and 13 constructors, values within the deviation bound, by value, by pointer and nested in 4 containers; oracle encoding/json",
			MaxDev: 2, ThoroughDev: 3, SplitDepth: 3,
			Run: func(x *core.X) {
				l := append(basicLeaves(), kit.UnsupportedLeaves()...)
				d := 2
				e := kit.GenExpr(x, l, kit.StdOps, d)
				v := e.Value(x)
				if !v.IsValid() {
					return
				}
				w, how := form(x, v, 3)
				x.Notef("%s as %s", e, how)
				checkStd(x, w)
			}},
		&core.Scenario{Name: "types-deep", Doc: "every type expression to depth 3 (quick: default values; thorough: depth 4 with values within the bound) over 8 leaves",
			MaxDev: 0, ThoroughDev: 1, SplitDepth: 3,
			Run: func(x *core.X) {
				d := 3
				if x.Thorough {
					d = 4
				}
				ops := kit.StdOps[:9]
				l := few()
				if !x.Thorough {
					l = []*kit.Expr{l[0], l[4], l[5]}
				} else {
					l = []*kit.Expr{l[0], l[4], l[5], l[2]}
				}
				e := kit.GenExpr(x, l, ops, d)
				v := e.Value(x)
				checkStd(x, ptrTo(v))
				checkStd(x, v.Interface())
			}},
		&core.Scenario{Name: "two-fields", Doc: "every pair of field types, with every pair of tag options, in one struct (by value and by pointer)",
			MaxDev: 2, ThoroughDev: 4, SplitDepth: 2,
			Run: func(x *core.X) {
				l := few()
				for _, o := range []string{"ptr", "slice", "array1", "map", "any", "struct1"} {
					l = append(l, kit.Mk(o, l[0]), kit.Mk(o, kit.Mk("ptr", l[4])))
				}
				a, b := l[x.Choose("A", len(l))], l[x.Choose("B", len(l))]
				tags := []string{"", ",omitempty", ",string"}
				t := reflect.StructOf([]reflect.StructField{
					{Name: "A", Type: a.T, Tag: reflect.StructTag(fmt.Sprintf(`json:"a%s"`, tags[x.Choose("tagA", 3)]))},
					{Name: "B", Type: b.T, Tag: reflect.StructTag(fmt.Sprintf(`json:"b<%s"`, tags[x.Choose("tagB", 3)]))}})
				v := reflect.New(t).Elem()
				v.Field(0).Set(a.Value(x))
				v.Field(1).Set(b.Value(x))
				checkStd(x, v.Interface())
				checkStd(x, v.Addr().Interface())
			}},
		&core.Scenario{Name: "sizes", Doc: "every container and string at every size of a ladder (all sizes to 130 or 600, then around powers of 2 and 10 up to 2^13 or 2^17)",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(130, 1<<13)
				if x.Thorough {
					l = ladder(600, 1<<17)
				}
				n := l[x.Choose("size", len(l))]
				switch x.Choose("kind", 9) {
				case 0:
					checkStd(x, strings.Repeat("a", n))
				case 1:
					checkStd(x, strings.Repeat("é\"", n))
				case 2:
					s := make([]int, n)
					for i := range s {
						s[i] = i * i
					}
					checkStd(x, s)
				case 3:
					s := make([]interface{}, n)
					for i := range s {
						s[i] = []interface{}{i, nil, "x"}[i%3]
					}
					checkStd(x, s)
				case 4:
					m := map[int]string{}
					for i := 0; i < n; i++ {
						m[i*7919] = fmt.Sprint(i)
					}
					checkStd(x, m)
				case 5:
					m := map[string]interface{}{}
					for i := 0; i < n; i++ {
						m[fmt.Sprint("k", i, strings.Repeat("<", i%5))] = i
					}
					checkStd(x, m)
				case 6:
					checkStd(x, make([]byte, n))
				case 7: // array
					if n > 5000 {
						x.Skip()
					}
					v := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(uint16(0)))).Elem()
					for i := 0; i < n; i++ {
						v.Index(i).SetUint(uint64(i))
					}
					checkStd(x, v.Interface())
				case 8: // struct fields
					if n > 1100 {
						x.Skip()
					}
					var f []reflect.StructField
					for i := 0; i < n; i++ {
						f = append(f, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(int8(0))}[i%3]})
					}
					v := reflect.New(reflect.StructOf(f)).Elem()
					for i := 0; i < n; i++ {
						switch g := v.Field(i); g.Kind() {
						case reflect.String:
							g.SetString(fmt.Sprint("v", i))
						default:
							g.SetInt(int64(i % 100))
						}
					}
					checkStd(x, v.Interface())
				}
			}},
		&core.Scenario{Name: "depth", Doc: "every constructor nested in itself and in every other one to every depth up to 40 (quick) or 150 (thorough)",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ops := []string{"ptr", "slice", "array1", "map", "any", "struct1", "structB"}
				n := 25
				if x.Thorough {
					n = 100
				}
				n = 1 + x.Choose("depth", n)
				a, b := ops[x.Choose("outer", len(ops))], ops[x.Choose("inner", len(ops))]
				e := kit.Leaf("int", 7)
				for i := 0; i < n; i++ {
					if a == "slice" && b == "slice" && i > 9 || (a == "slice" || b == "slice" || a == "map" || b == "map") && i > 12 || (a == "map" && b == "map" && i > 8) {
						e = kit.Mk("ptr", e)
						continue
					}
					e = kit.Mk([]string{a, b}[i%2], e)
				}
				checkStd(x, e.Value(x).Interface())
			}},
	)
}
