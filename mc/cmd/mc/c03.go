package main

import (
	"fmt"
	"reflect"
	"strconv"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"
)

// checkBoth compares with encoding/json and, escaping aside, with the model.
func checkBoth(x *core.X, v interface{}) {
	checkStd(x, v)
	check(x, v, &ref.Opts{NoHTMLEscaping: true})
}

// embGen builds struct types with embedded structs.
type embGen struct {
	x *core.X
}

var leafTypes = []reflect.Type{i8T, strT, boolT, reflect.TypeOf((*int)(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf(float32(0)), anyT}

// leaf: 0 A, 1 B, 2 named A by tag, 3 named B by tag, 4 ignored, 5 invalid tag name (A)
func (g embGen) leaf(kind, slot, level int) reflect.StructField {
	t := leafTypes[(slot*3+level*2)%len(leafTypes)]
	switch kind {
	case 0:
		return sf("A", t, "")
	case 1:
		return sf("B", t, "")
	case 2:
		return sf(fmt.Sprint("X", slot), t, `json:"A"`)
	case 3:
		return sf(fmt.Sprint("Y", slot), t, `json:"B,omitempty"`)
	case 4:
		return sf(fmt.Sprint("Z", slot), t, `json:"-"`)
	}
	return sf("A", t, `json:"\\,"`)
}

// strct enumerates a struct with at most n fields; embedded ones while depth > 0.
func (g embGen) strct(n, depth, leaves, level int, sub func(d int) reflect.Type) reflect.Type {
	var fs []reflect.StructField
	have := map[string]bool{}
	k := 1 + g.x.Choose("fields", n)
	for i := 0; i < k; i++ {
		m := leaves
		if depth > 0 {
			m += 3
		}
		c := g.x.Choose("field", m)
		var f reflect.StructField
		if c < leaves {
			f = g.leaf(c, i, level)
		} else {
			t := sub(depth - 1)
			if c-leaves >= 1 {
				t = reflect.PtrTo(t)
			}
			f = sf(fmt.Sprint("E", i), t, "")
			f.Anonymous = true
			if c-leaves == 2 {
				f.Name, f.Tag = fmt.Sprint("F", i), `json:"A"`
			}
		}
		if have[f.Name] {
			g.x.Skip()
		}
		have[f.Name] = true
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// fillDistinct gives every leaf a value of its own; embedded pointers are nil
// when the scenario says so.
func fillDistinct(x *core.X, v reflect.Value, n *int) {
	*n++
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct {
				if x.Dev("nil", 2) == 1 {
					continue
				}
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			fillDistinct(x, f, n)
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Interface:
		v.Set(reflect.ValueOf(fmt.Sprint("i", *n)))
	default:
		v.Set(kit.FillN(v.Type(), *n))
	}
}

func init() {
	drive.Describe("C03", "Struct types are made with reflect.StructOf; embedded fields with unexported names are covered by the written types.",
		"encoding/json of the Go toolchain in use is the oracle for the field rules")
	run := func(x *core.X, t reflect.Type) {
		v := reflect.New(t)
		n := 0
		fillDistinct(x, v.Elem(), &n)
		checkStd(x, v.Interface())
		checkStd(x, v.Elem().Interface())
	}
	drive.Add("C03",
		&core.Scenario{Name: "embedding-2", Doc: "every struct with up to 2 (3) fields - plain, renamed, ignored, or embedded by value, by pointer or with a tag - whose embedded structs have up to 2 fields of the same kinds; up to 1 (2) nil embedded pointers",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				g := embGen{x}
				n := 2
				if x.Thorough {
					n = 3
				}
				l := 4
				run(x, g.strct(n, 1, l, 0, func(d int) reflect.Type { return g.strct(2, 0, l, 1, nil) }))
			}},
		&core.Scenario{Name: "embedding-3", Doc: "every struct over three levels of embedding: an embedded struct by value or pointer with an optional plain or embedded sibling (thorough: any two fields), then up to two fields, then one of 4 kinds",
			MaxDev: 0, SplitDepth: 4,
			Run: func(x *core.X) {
				g := embGen{x}
				l := 2
				var sub func(d int) reflect.Type
				sub = func(d int) reflect.Type {
					if d == 0 {
						return g.strct(1, 0, l+2, 2, nil)
					}
					return g.strct(2, d, l, 1, sub)
				}
				if x.Thorough {
					run(x, g.strct(2, 2, l, 0, sub))
					return
				}
				t := reflect.StructOf([]reflect.StructField{{Name: "E", Type: sub(1), Anonymous: true}, sf("L", boolT, "")})
				if x.Bool("pointer") {
					t = reflect.StructOf([]reflect.StructField{{Name: "E", Type: reflect.PtrTo(t.Field(0).Type), Anonymous: true}, sf("L", boolT, "")})
				}
				switch x.Choose("sibling", 4) {
				case 1:
					t = reflect.StructOf([]reflect.StructField{t.Field(0), g.leaf(x.Choose("leaf", 4), 1, 0)})
				case 2:
					t = reflect.StructOf([]reflect.StructField{t.Field(0), {Name: "F", Type: sub(0), Anonymous: true}})
				case 3:
					t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.PtrTo(sub(0)), Anonymous: true}, t.Field(0)})
				}
				run(x, t)
			}},
		&core.Scenario{Name: "embedding-deep", Doc: "chains of embedded structs up to 5 (7) levels deep, every level by value or pointer, with a plain, a renamed and a shadowing field at any two levels, a second embedded sibling at any level, up to 1 (2) of the by-pointer, by-name and nil-pointer choices away from the default",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 2,
			Run: func(x *core.X) {
				max := 5
				if x.Thorough {
					max = 7
				}
				d := 1 + x.Choose("levels", max)
				la := x.Choose("A at", d+1)
				lb := x.Choose("A2 at", d+1)
				ls := x.Choose("sibling at", d+1)
				var t reflect.Type
				for i := d; i >= 0; i-- {
					fs := []reflect.StructField{sf(fmt.Sprint("L", i), leafTypes[i%len(leafTypes)], "")}
					if i == la {
						fs = append(fs, sf("A", strT, ""))
					}
					if i == lb {
						fs = append(fs, sf("B", i8T, []string{`json:"A"`, `json:"b"`}[x.Dev("tag", 2)]))
					}
					if t != nil {
						e := t
						if x.Dev("pointer", 2) == 1 {
							e = reflect.PtrTo(t)
						}
						fs = append(fs, reflect.StructField{Name: "E", Type: e, Anonymous: true})
					}
					if i == ls {
						s := reflect.StructOf([]reflect.StructField{sf("S1", i8T, ""), sf("S2", strT, "")})
						s = reflect.StructOf([]reflect.StructField{sf("P", boolT, ""), {Name: "G", Type: s, Anonymous: true}, sf("Q", boolT, "")})
						fs = append(fs, reflect.StructField{Name: "H", Type: s, Anonymous: true})
					}
					fs = append(fs, sf(fmt.Sprint("M", i), leafTypes[(i+3)%len(leafTypes)], ""))
					t = reflect.StructOf(fs)
				}
				run(x, t)
			}},
		&core.Scenario{Name: "multiplicity", Doc: "every choice of up to 4 (6) embedded structs (in any order up to 2 (3)) among 8 that promote a field X and a field Y once, twice, under a tag or one level deeper, each embedded by value or (one of them) by pointer, with no, a plain or a tagged X beside them: fields that occur 1 to 12 times at the same or at different depths",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				emb := func(name string, t reflect.Type) reflect.StructField {
					return reflect.StructField{Name: name, Type: t, Anonymous: true}
				}
				leaf := reflect.StructOf([]reflect.StructField{sf("X", i8T, ""), sf("Y", strT, "")})
				tagged := reflect.StructOf([]reflect.StructField{sf("Z", i8T, `json:"X"`)})
				kinds := []func(u reflect.StructField) reflect.Type{
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{sf("X", i8T, ""), u})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{u, sf("Q", strT, `json:"X"`)})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{emb("L", leaf), u})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{u, emb("L", tagged)})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{emb("L", leaf), u, emb("T", tagged)})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{emb("L", leaf), u, sf("Y", i8T, "")})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{u, emb("M", reflect.StructOf([]reflect.StructField{emb("L", leaf)}))})
					},
					func(u reflect.StructField) reflect.Type {
						return reflect.StructOf([]reflect.StructField{emb("L", reflect.PtrTo(leaf)), u})
					},
				}
				max := 4
				if x.Thorough {
					max = 6
				}
				k := 1 + x.Choose("embedded", max)
				var fs []reflect.StructField
				own := x.Choose("own", 4)
				if own == 1 {
					fs = append(fs, sf("X", boolT, ""))
				}
				same := x.Choose("unique fields", 2)
				last := 0
				for i := 0; i < k; i++ {
					// the order of the embedded ones matters only when two of them have the same type
					if k > 3 || k > 2 && !x.Thorough {
						last += x.Choose("kind", len(kinds)-last)
					} else {
						last = x.Choose("kind", len(kinds))
					}
					u := sf(fmt.Sprint("U", i), i8T, "")
					if same == 1 {
						u = sf("U", i8T, "")
					}
					t := kinds[last](u)
					if x.Dev("pointer", 2) == 1 {
						t = reflect.PtrTo(t)
					}
					fs = append(fs, emb(fmt.Sprint("E", i), t))
				}
				switch own {
				case 2:
					fs = append(fs, sf("O", boolT, `json:"X"`))
				case 3:
					fs = append(fs, sf("X", boolT, `json:"Y"`))
				}
				v := reflect.New(reflect.StructOf(fs))
				n := 0
				fillAny(nil, v.Elem(), &n, 9)
				checkStd(x, v.Interface())
			}},
		&core.Scenario{Name: "names", Doc: "every ASCII character, the letters and marks of other scripts, and every pair from 16 classes as (part of) the name in the tag, alone and between fields, escaped and with NoHTMLEscaping",
			SplitDepth: 2,
			Run: func(x *core.X) {
				name := tagName(x)
				tag := reflect.StructTag("json:" + strconv.Quote(name+[]string{"", ",omitempty", ", string", ",,omitempty,"}[x.Choose("options", 4)]))
				t := reflect.StructOf([]reflect.StructField{sf("A", i8T, ""), sf("B", intT, string(tag)), sf("C", strT, "")})
				v := reflect.New(t).Elem()
				v.Field(1).SetInt(int64(7 * (1 - x.Choose("zero", 2))))
				checkBoth(x, v.Interface())
				t = reflect.StructOf([]reflect.StructField{sf("B", intT, string(tag))})
				checkBoth(x, ptrTo(kit.Fill(t)))
			}},
		&core.Scenario{Name: "tags", Doc: "tags of every shape: malformed, repeated, other keys, spaces, unknown and repeated options",
			SplitDepth: 1,
			Run: func(x *core.X) {
				tags := []string{``, `json`, `json:`, `json:"`, `json:"a`, `json:a`, `json:""`, `json:","`, `json:"-"`, `json:"-,"`, `json:"-,omitempty"`, `xml:"b" json:"a"`, `json:"a" json:"b"`, `json:"a"json:"b"`,
					`json: "a"`, ` json:"a"`, `json :"a"`, `JSON:"a"`, `json:"a,unknown,omitempty"`, `json:"a,omitempty,omitempty"`, `json:"a,OmitEmpty"`, `json:"a, omitempty"`, `json:"a,string,omitempty"`,
					`json:"a,omitempty,string"`, `json:",string"`, `json:"\u0061"`, `json:"a\tb"`, `json:"a\\b"`, `json:"\"a\""`, "json:\"a\x00\"", `json:"é,omitempty"`, `json:"a,b,c,d"`, `json:"string"`, `json:"omitempty"`}
				tg := tags[x.Choose("tag", len(tags))]
				tg2 := tags[x.Choose("tag2", len(tags))]
				t := reflect.StructOf([]reflect.StructField{sf("A", []reflect.Type{intT, strT, reflect.PtrTo(intT), reflect.TypeOf([]string{})}[x.Choose("type", 4)], tg), sf("B", strT, tg2), sf("C", boolT, "")})
				checkBoth(x, kit.Fill(t).Interface())
				checkBoth(x, reflect.Zero(t).Interface())
			}},
		&core.Scenario{Name: "written", Doc: "43 written struct types with unexported, non-struct, interface, recursive, generic and conflicting embedded fields, zero and filled, each part nil or not, by value, by pointer and nested",
			MaxDev: 2, ThoroughDev: 4, SplitDepth: 2,
			Run: func(x *core.X) {
				mk := embTypes[x.Choose("type", len(embTypes))]
				v := reflect.ValueOf(mk())
				n := 0
				if x.Bool("filled") {
					fillAny(x, v.Elem(), &n, 4)
				}
				var w interface{}
				switch x.Choose("form", 5) {
				case 0:
					w = v.Interface()
				case 1:
					w = v.Elem().Interface()
				case 2:
					w = mkSlice(v.Elem().Type(), v.Elem()).Interface()
				case 3:
					w = mkMap(reflect.ValueOf("k"), v.Elem()).Interface()
				case 4:
					w = mkStruct(v.Elem(), "", "a", "v", "c").Interface()
				}
				checkBoth(x, w)
			}},
	)
}

// fillAny fills a value through unexported fields too.
func fillAny(x *core.X, v reflect.Value, n *int, depth int) {
	*n++
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillAny(x, v.Field(i), n, depth)
		}
	case reflect.Ptr:
		if depth == 0 || x != nil && x.Dev("nil", 2) == 1 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fillAny(x, v.Elem(), n, depth-1)
	case reflect.Interface:
		if x == nil || x.Dev("nil", 2) == 0 {
			for _, c := range []interface{}{fmt.Sprint("i", *n), &embStr{*n}} {
				if reflect.TypeOf(c).Implements(v.Type()) {
					v.Set(reflect.ValueOf(c))
					return
				}
			}
		}
	case reflect.Slice:
		if depth > 0 {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			fillAny(x, v.Index(0), n, depth-1)
		}
	case reflect.Map:
		if depth > 0 {
			m := reflect.MakeMap(v.Type())
			e := reflect.New(v.Type().Elem()).Elem()
			fillAny(x, e, n, depth-1)
			k := reflect.New(v.Type().Key()).Elem()
			if k.Kind() == reflect.String {
				k.SetString(fmt.Sprint("k", *n))
			} else {
				fillAny(x, k, n, depth-1)
			}
			m.SetMapIndex(k, e)
			v.Set(m)
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Func, reflect.Chan:
	default:
		v.Set(kit.FillN(v.Type(), *n))
	}
}

// tagName enumerates names for fields, valid and not.
func tagName(x *core.X) string {
	var name string
	switch x.Choose("shape", 3) {
	case 0:
		name = string(rune(1 + x.Choose("char", 127)))
	case 1:
		name = []string{"é", "世", "ß", "٣", "´", "\u2028", "😀", "\xff", "\u0301", "a b", "a-b", "_", "$%", "A", "Ⅷ", "½", "x\xffy", "\xe2\x80", "\xed\xa0\x80", "\ufffd", "é\xc3"}[x.Choose("char", 21)]
	case 2:
		c := []string{"a", "<", "é", "\"", "\\", "'", ";", "%", " ", "-", ".", "&", "\u2028", "/", "`", ">", "\xff"}
		name = c[x.Choose("c0", len(c))] + c[x.Choose("c1", len(c))]
	}
	return name
}
