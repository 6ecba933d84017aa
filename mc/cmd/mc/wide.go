package main

import (
	"fmt"
	"reflect"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
)

// widths are the numbers of members of the wide structs: either side of the
// sizes of machine words, bytes and small tables.
var widths = []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 513, 1025}

var quickWidths = 24 // the widths of the quick tier

type wideKey struct{ n, kind, emb, tag int }

var wideTypes = map[wideKey]reflect.Type{}

// wideType is a struct of n members: all of one type (kind 0: int; 1: *int, 2:
// string, 3: mixed), plain or half of them in an embedded struct (emb 1), or in
// one embedded by pointer (emb 2), with tags: 0 none, 1 omitempty, 2 omitnil, 3
// string on one member of every two.
func wideType(n, kind, emb, tag int) reflect.Type {
	k := wideKey{n, kind, emb, tag}
	if t := wideTypes[k]; t != nil {
		return t
	}
	field := func(i int) reflect.StructField {
		ts := []reflect.Type{intT, reflect.PtrTo(intT), strT}
		t := ts[i%3]
		if kind < 3 {
			t = ts[kind]
		}
		tg := ""
		switch tag {
		case 1:
			tg = `json:",omitempty"`
		case 2:
			tg = `json:",omitnil"`
		case 3:
			if i%2 == 1 {
				tg = `json:",string"`
			}
		}
		return sf(fmt.Sprintf("F%d", i), t, tg)
	}
	var fs, in []reflect.StructField
	for i := 0; i < n; i++ {
		if emb > 0 && i >= n/4 && i < n-n/4 {
			in = append(in, field(i))
			if i == n-n/4-1 {
				t := reflect.StructOf(in)
				if emb == 2 {
					t = reflect.PtrTo(t)
				}
				fs = append(fs, reflect.StructField{Name: "Emb", Type: t, Anonymous: true})
			}
			continue
		}
		fs = append(fs, field(i))
	}
	t := reflect.StructOf(fs)
	wideTypes[k] = t
	return t
}

// wideVal is a value of it; set says which members are not zero.
func wideVal(t reflect.Type, set func(i int) bool) reflect.Value {
	v := reflect.New(t).Elem()
	var fill func(v reflect.Value)
	fill = func(v reflect.Value) {
		for j := 0; j < v.NumField(); j++ {
			f := v.Field(j)
			if v.Type().Field(j).Anonymous {
				if f.Kind() == reflect.Ptr {
					f.Set(reflect.New(f.Type().Elem()))
					f = f.Elem()
				}
				fill(f)
				continue
			}
			var i int
			fmt.Sscanf(v.Type().Field(j).Name, "F%d", &i)
			if !set(i) {
				continue
			}
			switch f.Kind() {
			case reflect.Int:
				f.SetInt(int64(i + 1))
			case reflect.String:
				f.SetString(fmt.Sprint("s", i))
			case reflect.Ptr:
				f.Set(reflect.ValueOf(&i))
			}
		}
	}
	fill(v)
	return v
}

func wide(x *core.X) int {
	n := quickWidths
	if x.Thorough {
		n = len(widths)
	}
	return widths[x.Choose("width", n)]
}

func all(int) bool { return true }

func init() {
	drive.Add("C03",
		&core.Scenario{Name: "wide", Doc: "structs of 24 (27) widths from 1 to 300 (1025) members, plain, with half of them in an embedded struct or in one embedded by pointer, of one type or mixed: every member under its name and in its place; wide structs as elements, as members of each other, and two levels of embedding",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := wide(x)
				kind, emb := x.Choose("kind", 4), x.Choose("embedding", 3)
				t := wideType(n, kind, emb, 0)
				v := wideVal(t, all)
				checkStd(x, v.Interface())
				checkStd(x, v.Addr().Interface())
				checkStd(x, wideVal(t, func(i int) bool { return i%5 == 2 }).Interface())
				if emb == 2 {
					checkStd(x, reflect.Zero(t).Interface())
				}
				w := reflect.New(reflect.StructOf([]reflect.StructField{sf("X", t, ""), {Name: "E", Type: t, Anonymous: true}, sf("Y", reflect.PtrTo(t), ""), sf("Z", reflect.SliceOf(t), "")})).Elem()
				w.Field(0).Set(v)
				w.Field(1).Set(v)
				w.Field(2).Set(v.Addr())
				w.Field(3).Set(mkSlice(t, v, v))
				checkStd(x, w.Interface())
				// every member shadowed in turn: the promoted one is not written
				if x.Thorough || n < 70 || n > 250 && n < 260 {
					for i := 0; i < n; i++ {
						u := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: t, Anonymous: true}, sf(fmt.Sprint("F", i), boolT, "")})).Elem()
						u.Field(0).Set(v)
						checkStd(x, u.Interface())
						if emb > 0 {
							break
						}
					}
				}
			}},
		&core.Scenario{Name: "nil-embedded", Doc: "two or three embedded pointers beside each other, with a plain member before, between or after them, at the top or 1 to 3 levels down in structs embedded by value or by pointer, the embedded ones of one or two members, plain or again embedded pointers: every subset of all the pointers nil",
			SplitDepth: 3,
			Run: func(x *core.X) {
				emb := func(name string, t reflect.Type) reflect.StructField {
					return reflect.StructField{Name: name, Type: t, Anonymous: true}
				}
				id := 0
				leaf := func() reflect.StructField { id++; return sf(fmt.Sprint("L", id), leafTypes[id%len(leafTypes)], "") }
				pl := x.Choose("plain", 5)
				k := 2 + x.Choose("siblings", 2)
				shape := x.Choose("shape", 4)
				var fs []reflect.StructField
				for i := 0; i < k; i++ {
					if pl == 1 && i == 0 || pl == 2 && i == 1 || pl == 4 {
						fs = append(fs, leaf())
					}
					in := []reflect.StructField{leaf()}
					switch shape {
					case 1:
						in = append(in, leaf())
					case 2:
						in = append(in, emb("Q", reflect.PtrTo(reflect.StructOf([]reflect.StructField{leaf()}))))
					case 3:
						in = append([]reflect.StructField{emb("Q", reflect.PtrTo(reflect.StructOf([]reflect.StructField{leaf(), leaf()}))), emb("R", reflect.StructOf([]reflect.StructField{leaf()}))}, in...)
					}
					fs = append(fs, emb(fmt.Sprint("P", i), reflect.PtrTo(reflect.StructOf(in))))
				}
				if pl >= 3 {
					fs = append(fs, leaf())
				}
				t := reflect.StructOf(fs)
				for d := x.Choose("levels", 4); d > 0; d-- {
					e := t
					if x.Bool("by pointer") {
						e = reflect.PtrTo(t)
					}
					fs := []reflect.StructField{leaf(), emb("E", e), leaf()}
					if d == 2 {
						fs = fs[1:]
					}
					t = reflect.StructOf(fs)
				}
				// all subsets of pointers, found by walking the value
				for m := 0; ; m++ {
					v := reflect.New(t)
					n, bits := 0, 0
					var fill func(v reflect.Value)
					fill = func(v reflect.Value) {
						for i := 0; i < v.NumField(); i++ {
							f := v.Field(i)
							if !v.Type().Field(i).Anonymous {
								n++
								fillAny(nil, f, &n, 1)
								continue
							}
							if f.Kind() == reflect.Ptr {
								bits++
								if m>>uint(bits-1)&1 == 1 {
									continue
								}
								f.Set(reflect.New(f.Type().Elem()))
								f = f.Elem()
							}
							fill(f)
						}
					}
					fill(v.Elem())
					if bits > 10 {
						x.Failf("MODEL: %d pointers", bits)
					}
					if m>>uint(bits) == 0 {
						checkStd(x, v.Interface())
						checkStd(x, v.Elem().Interface())
					}
					if m == 1023 || m > 0 && m>>uint(maxBits(t)) != 0 {
						break
					}
				}
			}},
	)
	drive.Add("C13",
		&core.Scenario{Name: "wide", Doc: "structs of 24 (27) widths from 1 to 300 (1025) members, plain or embedded, all of them omitempty or omitnil: all zero, all set, each single member set and each single member zero",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := wide(x)
				kind, emb, tag := x.Choose("kind", 4), x.Choose("embedding", 3), 1+x.Choose("tag", 2)
				t := wideType(n, kind, emb, tag)
				one := func(set func(i int) bool) {
					v := wideVal(t, set)
					if tag == 1 {
						checkStd(x, v.Interface())
					} else {
						check(x, v.Interface(), nil)
					}
				}
				one(all)
				one(func(int) bool { return false })
				one(func(i int) bool { return i%2 == 0 })
				for i := 0; i < n; i++ {
					if n > 70 && !x.Thorough && (i+kind+emb)%7 != 0 && i > 2 && i < n-2 && i%64 > 1 && i%64 < 63 {
						continue
					}
					one(func(j int) bool { return i == j })
					one(func(j int) bool { return i != j })
				}
			}},
	)
	drive.Add("C14",
		&core.Scenario{Name: "wide", Doc: "structs of 24 (27) widths from 1 to 300 (1025) members, plain or embedded: each single member denied, allowed, or the only one allowed and denied; halves; lists longer than the struct",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := wide(x)
				kind, emb := x.Choose("kind", 4), x.Choose("embedding", 3)
				v := wideVal(wideType(n, kind, emb, 0), all).Interface()
				name := func(i int) string { return fmt.Sprint("F", i) }
				list := func(f func(i int) bool) []string {
					l := []string{}
					for i := 0; i < n; i++ {
						if f(i) {
							l = append(l, name(i))
						}
					}
					return l
				}
				check(x, v, &ref.Opts{HasDeny: true, Deny: list(all)})
				check(x, v, &ref.Opts{HasAllow: true, Allow: append(list(all), "G", "H", name(n))})
				check(x, v, &ref.Opts{HasAllow: true, Allow: list(func(i int) bool { return i%2 == 0 })})
				check(x, v, &ref.Opts{HasDeny: true, Deny: list(func(i int) bool { return i%3 == 0 }), HasAllow: true, Allow: list(func(i int) bool { return i%2 == 0 })})
				for i := 0; i < n; i++ {
					if n > 70 && !x.Thorough && (i+kind+emb)%7 != 0 && i > 2 && i < n-2 && i%64 > 1 && i%64 < 63 {
						continue
					}
					check(x, v, &ref.Opts{HasDeny: true, Deny: []string{name(i)}})
					check(x, v, &ref.Opts{HasAllow: true, Allow: []string{name(i)}})
					check(x, v, &ref.Opts{HasAllow: true, Allow: []string{name(i), name((i + 64) % n)}, HasDeny: true, Deny: []string{name(i)}})
				}
			}},
	)
	drive.Add("C23",
		&core.Scenario{Name: "wide", Doc: "structs of 24 (27) widths from 1 to 300 (1025) members, plain or embedded, with the option on every second member, or on a single one, each in turn: as encoding/json",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := wide(x)
				kind, emb := x.Choose("kind", 4), x.Choose("embedding", 3)
				checkStd(x, wideVal(wideType(n, kind, emb, 3), all).Interface())
				if emb > 0 || n > 70 && !x.Thorough && n != 257 || kind == 3 {
					return
				}
				for i := 0; i < n; i++ {
					var fs []reflect.StructField
					for j := 0; j < n; j++ {
						f := sf(fmt.Sprint("F", j), []reflect.Type{intT, reflect.PtrTo(intT), strT}[kind], "")
						if i == j {
							f.Tag = `json:",string"`
						}
						fs = append(fs, f)
					}
					checkStd(x, wideVal(reflect.StructOf(fs), all).Interface())
				}
			}},
	)
}

// maxBits is the number of embedded pointers of t when none is nil.
func maxBits(t reflect.Type) int {
	n := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.Anonymous {
			continue
		}
		e := f.Type
		if e.Kind() == reflect.Ptr {
			n++
			e = e.Elem()
		}
		n += maxBits(e)
	}
	return n
}
