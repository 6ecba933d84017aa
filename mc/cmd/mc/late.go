package main

import (
	"fmt"
	"reflect"
	"sync"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
)

// Keys and elements without size, with methods.
type (
	zkStruct struct{}
	zkArray  [0]int
	zkNested struct{ _ struct{} }
	zkArr2   [3]struct{}
	zkPtr    struct{}
	zkStr    struct{ _ [0]string }
	zkJ      struct{}
)

func (zkStruct) MarshalText() ([]byte, error) { return []byte("s<"), nil }
func (zkArray) MarshalText() ([]byte, error)  { return []byte(""), nil }
func (zkNested) MarshalText() ([]byte, error) { return []byte("n"), nil }
func (zkArr2) MarshalText() ([]byte, error)   { return []byte("a\xff"), nil }
func (*zkPtr) MarshalText() ([]byte, error)   { return []byte("p"), nil }
func (zkStr) MarshalText() ([]byte, error)    { return nil, errBoom }
func (zkJ) MarshalJSON() ([]byte, error)      { return []byte("1"), nil }

// Embedded structs, with tags that do not name them.
type (
	EtIn  struct{ A, B int }
	etIn  struct{ A, C int }
	etTag struct {
		Z    int
		etIn `json:",omitempty"`
		B    string
	}
	etTag2 struct {
		etIn `json:","`
		A    bool
	}
	etTag3 struct {
		etIn  `json:",string"`
		*EtIn `json:",omitempty,omitnil"`
	}
	etTag4 struct {
		*etIn `json:",omitnil"`
		EtIn  `json:"in"`
	}
	etTag5 struct {
		etIn `json:"-"`
		EtIn `json:"-,"`
	}
	etTag6 struct {
		etIn `json:"\"bad\""`
		EtIn `xml:"x" json:",omitempty"`
	}
)

func init() {
	tags := []string{"", `json:""`, `json:","`, `json:",omitempty"`, `json:",omitnil"`, `json:",string"`, `json:",omitempty,string,omitnil"`, `json:" "`, `json:"-"`, `json:"-,"`, `json:"-,omitempty"`, `json:"in"`, `json:"in,omitempty"`, `json:"\"\",omitempty"`, `json:"A"`, `json:"A,omitempty"`, `xml:"in"`, `JSON:"in"`, `json:in`, `xml:"x" json:"in"`, `json:"é"`, `json:",omitempty" json:"in"`, `json:"in\\"`}
	drive.Add("C03",
		&core.Scenario{Name: "embedded-tags", Doc: fmt.Sprintf("a struct embedded by value, by pointer or by nil pointer with each of %d tags, before, between and after members that are and are not named like its own or like it, and another struct embedded beside it with each tag; and embedded structs that are not exported; as encoding/json and the model's", len(tags)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				tag := tags[x.Choose("tag", len(tags))]
				form := x.Choose("form", 3)
				if tag == tags[0] && form == 0 {
					a, b := etIn{1, 2}, EtIn{3, 4}
					for _, v := range []interface{}{etTag{1, a, "b"}, etTag2{a, true}, etTag3{a, &b}, etTag3{}, etTag4{&a, b}, etTag4{}, etTag5{a, b}, etTag6{a, b}} {
						for _, p := range places {
							if w, ok := mkPlace(p, reflect.ValueOf(v)); ok {
								check(x, w.Interface(), nil)
							}
						}
					}
				}
				mk := func(t reflect.Type, tag string) (reflect.StructField, reflect.Value) {
					v := reflect.New(t)
					for i := 0; i < t.NumField(); i++ {
						v.Elem().Field(i).SetInt(int64(i + 1))
					}
					f := reflect.StructField{Name: t.Name(), Type: t, Anonymous: true, Tag: reflect.StructTag(tag)}
					if form == 0 {
						return f, v.Elem()
					}
					f.Type = reflect.PtrTo(t)
					if form == 2 {
						v = reflect.Zero(f.Type)
					}
					return f, v
				}
				for _, tag2 := range append([]string{"none"}, tags...) {
					for _, near := range []string{"A", "EtIn", "in", "Q"} {
						for at := 0; at < 3; at++ {
							var fs []reflect.StructField
							var vs []reflect.Value
							add := func(f reflect.StructField, v reflect.Value) {
								fs = append(fs, f)
								vs = append(vs, v)
							}
							f, v := mk(reflect.TypeOf(EtIn{}), tag)
							ms := []func(){
								func() { add(sf("N", strT, fmt.Sprintf(`json:"%s"`, near)), reflect.ValueOf("near")) },
								func() { add(sf("W", intT, ""), reflect.ValueOf(9)) },
							}
							for k := 0; k < 3; k++ {
								if k == at {
									add(f, v)
								} else {
									ms[0]()
									ms = ms[1:]
								}
							}
							if tag2 != "none" {
								f, v := mk(reflect.TypeOf(EtOther{}), tag2)
								add(f, v)
							}
							s := reflect.New(reflect.StructOf(fs)).Elem()
							for i := range vs {
								s.Field(i).Set(vs[i])
							}
							check(x, s.Interface(), nil)
							check(x, s.Addr().Interface(), nil)
							if tag != `json:",omitnil"` {
								check(x, mkSlice(s.Type(), s).Interface(), &ref.Opts{NoHTMLEscaping: true})
							}
						}
					}
				}
				x.Beat()
			}},
		&core.Scenario{Name: "many-members", Doc: "structs of n members in a row, in an embedded struct and around one, for n to 40 (130) and around the powers of two and ten to 4096 (8192), of which all, none or every third is left out as empty: all others in their order",
			SplitDepth: 1,
			Run: func(x *core.X) {
				l := ladder(40, 1<<12)
				if x.Thorough {
					l = ladder(130, 1<<13)
				}
				n := l[x.Choose("members", len(l))]
				var fs []reflect.StructField
				for i := 0; i < n; i++ {
					tag := ""
					if i%3 == 1 {
						tag = fmt.Sprintf(`json:"t%d,omitempty"`, n-i)
					}
					fs = append(fs, sf(fmt.Sprintf("M%d", (i*7919)%100003), intT, tag))
				}
				st := reflect.StructOf(fs)
				fill := func(v reflect.Value, k int) {
					for i := 0; i < n; i++ {
						if k != 1 && (k == 0 || i%3 == 0) {
							v.Field(i).SetInt(int64(i + 1))
						}
					}
				}
				in := reflect.StructOf([]reflect.StructField{sf("First", intT, ""), {Name: "E", Type: st, Anonymous: true}, sf("M0", strT, ""), sf("Last", intT, "")})
				for k := 0; k < 3; k++ {
					v := reflect.New(st)
					fill(v.Elem(), k)
					check(x, v.Interface(), nil)
					check(x, v.Elem().Interface(), nil)
					w := reflect.New(in)
					fill(w.Elem().Field(1), k)
					check(x, w.Interface(), nil)
					x.Beat()
				}
			}},
	)
	many := func(max int) func(x *core.X) {
		return func(x *core.X) {
			l := ladder(20, 1<<14)
			if x.Thorough {
				l = ladder(130, 1<<max)
			}
			n := l[x.Choose("entries", len(l))]
			kind := x.Choose("key", 4)
			m, im, tm, sm := map[string]int{}, map[int64]*int{}, map[textKey]string{}, new(sync.Map)
			one := 1
			for i := 0; i < n; i++ {
				k := (i * 7919) % 1000003
				switch kind {
				case 0:
					m[fmt.Sprint("k", k)] = i
					sm.Store(fmt.Sprint("k", k), i)
				case 1:
					im[int64(k-500)] = &one
					sm.Store(int64(k-500), &one)
				case 2:
					tm[textKey{fmt.Sprint(k)}] = "v"
					sm.Store(textKey{fmt.Sprint(k)}, "v")
				case 3:
					if i%2 == 0 {
						sm.Store(uint8(i), i)
					} else {
						sm.Store(fmt.Sprint("x", k), nil)
					}
					m[fmt.Sprint(k)] = 0
				}
			}
			for _, o := range []*ref.Opts{nil, {UnsortedMap: true}} {
				for _, v := range []interface{}{m, im, tm, sm} {
					check(x, v, o)
					x.Beat()
				}
			}
		}
	}
	drive.Add("C06", &core.Scenario{Name: "entries", Doc: "maps and sync.Maps of n entries for all n to 20 (130) and around the powers of two and ten to 2^14 (2^17), of 4 kinds of keys, sorted and not: every entry is written", SplitDepth: 2, Run: many(17)})
	drive.Add("C07", &core.Scenario{Name: "entries", Doc: "sync.Maps of n entries, and the maps with the same ones, for all n to 20 (130) and around the powers of two and ten to 2^14 (2^17), of 4 kinds of keys, sorted and not: every entry is written", SplitDepth: 2, Run: many(17)})

	zero := func(x *core.X) {
		vals := []interface{}{zkStruct{}, zkArray{}, zkNested{}, zkArr2{}, zkPtr{}, &zkPtr{}, &zkStruct{}, zkStr{}, zkJ{}, struct{}{}, [0]int{}, [1]zkStruct{}, struct{ zkStruct }{}, struct{ zkArray }{}, struct {
			zkStruct
			N int
		}{}, struct{ *zkPtr }{&zkPtr{}}}
		k := reflect.ValueOf(vals[x.Choose("key", len(vals))])
		o := []*ref.Opts{nil, {UnsortedMap: true}, {NoStringEscaping: true}}[x.Choose("options", 3)]
		m := mkMap(k, reflect.ValueOf("v"))
		check(x, m.Interface(), o)
		check(x, syncMapOf(k.Interface(), "v"), o)
		check(x, syncMapOf("a", 1, k.Interface(), k.Interface()), o)
		check(x, mkMap(reflect.ValueOf("k"), m).Interface(), o)
		check(x, mkMap(k, k).Interface(), o)
		for _, p := range places {
			if w, ok := mkPlace(p, k); ok {
				check(x, w.Interface(), o)
			}
		}
	}
	drive.Add("C06", &core.Scenario{Name: "keys-without-size", Doc: "16 keys without size, or with a member without size, with and without methods, as keys of maps and sync.Maps: as the model's", SplitDepth: 2, Run: zero})
	drive.Add("C07", &core.Scenario{Name: "keys-without-size", Doc: "16 keys without size, or with a member without size, with and without methods, as keys of sync.Maps: as those of maps", SplitDepth: 2, Run: zero})

	drive.Add("C13", &core.Scenario{Name: "spare-capacity", Doc: "slices of 16 types of elements, of length 0 to 2 with capacity 0 to 9, made, cut from the start or the end of another, and maps of size 0 to 2 with room for 0 to 100 or from which all was deleted, with each omission: as the model's",
		SplitDepth: 2,
		Run: func(x *core.X) {
			ts := []reflect.Type{intT, strT, anyT, reflect.TypeOf(struct{}{}), reflect.TypeOf([0]int{}), reflect.TypeOf(byte(0)), boolT, reflect.PtrTo(intT), reflect.TypeOf(zkStruct{}), reflect.TypeOf(zkJ{}), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf([4]struct{}{}), reflect.TypeOf(struct{ A, B int }{}), reflect.TypeOf(int8(0)), reflect.TypeOf(float32(0))}
			t := ts[x.Choose("element", len(ts))]
			tag := []string{"", `json:",omitempty"`, `json:",omitnil"`, `json:",omitempty,omitnil"`}[x.Choose("tag", 4)]
			run := func(v reflect.Value) {
				for _, s := range []reflect.Value{tagStruct([]string{tag}, v), tagStruct([]string{"", tag, tag}, reflect.ValueOf(1), v, v)} {
					check(x, s.Interface(), nil)
					check(x, ptrV(s).Interface(), &ref.Opts{NilSliceEmpty: true, NilMapEmpty: true})
				}
			}
			for n := 0; n <= 2; n++ {
				for c := n; c < 10; c++ {
					b := reflect.MakeSlice(reflect.SliceOf(t), c, c)
					run(b.Slice(0, n))
					run(b.Slice3(0, n, n))
					run(b.Slice(c-n, c))
					run(b.Slice3(c-n, c, c))
				}
				for _, room := range []int{0, 1, 9, 100} {
					for _, del := range []bool{false, true} {
						m := reflect.MakeMapWithSize(reflect.MapOf(strT, t), room)
						for i := 0; i < n; i++ {
							m.SetMapIndex(reflect.ValueOf(fmt.Sprint(i)), reflect.Zero(t))
						}
						if del {
							for _, k := range m.MapKeys() {
								m.SetMapIndex(k, reflect.Value{})
							}
						}
						run(m)
					}
				}
			}
			run(reflect.Zero(reflect.SliceOf(t)))
			run(reflect.Zero(reflect.MapOf(strT, t)))
		}})
}

type EtOther struct{ B, D int }
