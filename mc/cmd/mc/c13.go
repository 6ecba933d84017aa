package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

type (
	nullV  struct{ N int }    // MarshalJSON returns null when N is 0
	nullP  struct{ N int }    // the same, by pointer
	nullM  map[string]int     // a map marshaler
	nullS  []int              // a slice marshaler
	nullI  int                // an int marshaler
	nullA  struct{ N int }    // an append marshaler, not a json.Marshaler
	nullT  struct{ N int }    // a text marshaler returning null
	nullAJ struct{ N int }    // append and JSON marshaler
	zeroer struct{ T string } // IsZero is not consulted
	efn    func()
)

func nullOr(n int) []byte {
	if n == 0 {
		return []byte("null")
	}
	return []byte(fmt.Sprintf(`[%d,null]`, n))
}
func (n nullV) MarshalJSON() ([]byte, error) { return nullOr(n.N), nil }
func (n *nullP) MarshalJSON() ([]byte, error) {
	if n == nil {
		return []byte("null"), nil
	}
	return []byte(" " + string(nullOr(n.N)) + "\n"), nil
}
func (n nullM) MarshalJSON() ([]byte, error)         { return nullOr(len(n)), nil }
func (n nullS) MarshalJSON() ([]byte, error)         { return nullOr(len(n)), nil }
func (n nullI) MarshalJSON() ([]byte, error)         { return nullOr(int(n)), nil }
func (n nullA) AppendJSON(b []byte) ([]byte, error)  { return append(b, nullOr(n.N)...), nil }
func (n nullT) MarshalText() ([]byte, error)         { return nullOr(n.N), nil }
func (n nullAJ) AppendJSON(b []byte) ([]byte, error) { return append(b, nullOr(n.N)...), nil }
func (n nullAJ) MarshalJSON() ([]byte, error)        { return []byte(`"unused"`), nil }
func (z zeroer) IsZero() bool                        { return true }

// omitVals are values of the types of fields: zero, empty and others.
var omitVals = func() [][]interface{} {
	one, zero, s := 1, 0, ""
	pn := &one
	var nilAny interface{}
	_ = nilAny
	return [][]interface{}{
		{false, true}, {0, 5}, {int8(0), int8(-1)}, {uint16(0), uint16(1)}, {uintptr(0), uintptr(1)}, {float32(0), float32(1)}, {0.0, 1.5, negZero}, {"", "x"},
		{(*int)(nil), pn, &zero}, {(*string)(nil), &s}, {[]int(nil), []int{}, []int{0}}, {[0]int{}}, {[1]int{}, [1]int{1}}, {[2]*int{}},
		{map[string]int(nil), map[string]int{}, map[string]int{"a": 0}}, {struct{}{}}, {struct{ A int }{}, struct{ A int }{1}}, {(*struct{})(nil), &struct{}{}},
		{[]byte(nil), []byte{}, []byte("b")}, {time.Time{}, time.Unix(0, 0).UTC()}, {time.Duration(0), time.Second}, {json.Number(""), json.Number("0")}, {json.RawMessage(nil), json.RawMessage{}, json.RawMessage("null"), json.RawMessage("[null]")},
		{nullV{}, nullV{1}}, {(*nullV)(nil), &nullV{}, &nullV{1}}, {nullP{}, nullP{1}}, {(*nullP)(nil), &nullP{}, &nullP{2}}, {nullM(nil), nullM{}, nullM{"a": 1}}, {nullS(nil), nullS{}, nullS{1}}, {nullI(0), nullI(1)}, {nullA{}, nullA{1}}, {nullT{}, nullT{1}}, {nullAJ{}, nullAJ{1}},
		{zeroer{}, zeroer{"t"}}, {time.Month(0), time.Month(1)}, {&pn, (**int)(nil)}, {[]interface{}(nil), []interface{}{nil}}, {map[int]interface{}(nil), map[int]interface{}{1: nil}},
		{[3]struct{}{}}, {[2][0]int{}}, {[0]struct{}{}}, {struct{ A [0]int }{}}, {[1]string{}, [1]string{"x"}}, {[]struct{}(nil), []struct{}{}, make([]struct{}, 2)}, {map[string]struct{}(nil), map[string]struct{}{"": {}}}, {[0]func(){}}, {[0]*int{}}, {[1]map[string]int{}}, {[1]interface{}{}},
		{int16(0), int16(256), int16(-32768)}, {int32(0), int32(1 << 16)}, {int64(0), int64(1 << 32), int64(math.MinInt64)}, {uint(0), uint(1 << 63)}, {uint8(0), uint8(128)}, {uint32(0), uint32(1 << 31)}, {uint64(0), uint64(1 << 40)}, {math.Float32frombits(1 << 31), math.Float32frombits(1), math.Float32frombits(1 << 16)}, {math.Float64frombits(1), math.Float64frombits(1 << 32)}, {int(1 << 32)}, {uintptr(1 << 48)},
		{time.Duration(1 << 32)}, {shapeStr(""), shapeStr("\x00")}, {(*[0]int)(nil), &[0]int{}}, {(*[]int)(nil), new([]int)}, {(*map[string]int)(nil), new(map[string]int)}, {(*interface{})(nil), new(interface{})}, {sync.Map{}}, {(*sync.Map)(nil), new(sync.Map)}, {[][]int(nil), [][]int{}, [][]int{nil}}, {nBytes(nil), nBytes{}, nBytes{0}},
	}
}()

var negZero = func() float64 { z := 0.0; return -z }()

// ifaceVals are values of fields of interface types.
var ifaceVals = []struct {
	t reflect.Type
	v []interface{}
}{
	{anyT, []interface{}{nil, 0, (*int)(nil), "", []int(nil), nullV{}, false}},
	{jsonT, []interface{}{nil, nullV{}, nullV{1}, (*nullP)(nil), nullM(nil)}},
	{reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), []interface{}{nil, time.Duration(0), time.Second}},
	{textT, []interface{}{nil, nullT{}, nullT{1}}},
	{appT, []interface{}{nil, nullA{}, nullA{1}, nullAJ{}}},
}

var omitTags = []string{"", ",omitempty", ",omitnil", ",omitempty,omitnil"}

// omitField draws a field: type, value and tag.
func omitField(x *core.X, name string, types []int) (reflect.StructField, reflect.Value) {
	k := types[x.Choose("type", len(types))]
	tag := fmt.Sprintf(`json:"%s%s"`, name, omitTags[x.Choose("tag", 4)])
	if k < len(omitVals) {
		vs := omitVals[k]
		v := reflect.ValueOf(vs[x.Choose("value", len(vs))])
		return sf("F"+name, v.Type(), tag), v
	}
	iv := ifaceVals[k-len(omitVals)]
	v := reflect.New(iv.t).Elem()
	if y := iv.v[x.Choose("value", len(iv.v))]; y != nil {
		v.Set(reflect.ValueOf(y))
	}
	return sf("F"+name, iv.t, tag), v
}

func hasOmitNil(fs []reflect.StructField) bool {
	for _, f := range fs {
		if t := string(f.Tag); len(t) > 10 && (t[len(t)-8:] == `omitnil"`) {
			return true
		}
	}
	return false
}

func structVal(fs []reflect.StructField, vs []reflect.Value) reflect.Value {
	v := reflect.New(reflect.StructOf(fs)).Elem()
	for i := range vs {
		v.Field(i).Set(vs[i])
	}
	return v
}

func init() {
	drive.Describe("C13", "Every combination of field type, value and tag for one and two fields, and every pattern of omitted members for more; encoding/json is the oracle where omitnil is not involved.",
		"omitnil on a member whose type is a json.Marshaler is decided by the bytes it contributes")
	var all []int
	for i := 0; i < len(omitVals)+len(ifaceVals); i++ {
		all = append(all, i)
	}
	both := func(x *core.X, fs []reflect.StructField, v reflect.Value) {
		for _, w := range []interface{}{v.Interface(), ptrTo(v)} {
			check(x, w, nil)
			if !hasOmitNil(fs) && !hasJettison(fs) {
				checkStd(x, w)
			}
		}
	}
	drive.Add("C13",
		&core.Scenario{Name: "one", Doc: "one field of each of 75 types, each value, each tag, alone, first, last and between others, under 5 option sets",
			SplitDepth: 3,
			Run: func(x *core.X) {
				f, v := omitField(x, "a", all)
				pre, post := x.Bool("before"), x.Bool("after")
				fs, vs := []reflect.StructField{f}, []reflect.Value{v}
				if pre {
					fs, vs = append([]reflect.StructField{sf("P", i8T, "")}, fs...), append([]reflect.Value{reflect.ValueOf(int8(1))}, vs...)
				}
				if post {
					fs, vs = append(fs, sf("Q", strT, "")), append(vs, reflect.ValueOf("q"))
				}
				s := structVal(fs, vs)
				both(x, fs, s)
				for _, o := range []*ref.Opts{{NilMapEmpty: true, NilSliceEmpty: true}, {NoHTMLEscaping: true, UnsortedMap: true}, {UnixTime: true}, {HasDeny: true, Deny: []string{"P"}}, {RawByteSlice: true, ByteArrayAsString: true}} {
					check(x, s.Interface(), o)
					check(x, ptrTo(s), o)
				}
				check(x, mkSlice(s.Type(), s, s).Interface(), nil)
				check(x, []interface{}{s.Interface(), 1}, nil)
			}},
		&core.Scenario{Name: "two", Doc: "every pair of fields out of 8 (75) types with each value and tag",
			SplitDepth: 3,
			Run: func(x *core.X) {
				types := []int{1, 7, 8, 10, 14, 23, 25, len(omitVals)}
				if x.Thorough {
					types = all
				}
				var fs []reflect.StructField
				var vs []reflect.Value
				for _, n := range []string{"a", "b"} {
					f, v := omitField(x, n, types)
					fs, vs = append(fs, f), append(vs, v)
				}
				both(x, fs, structVal(fs, vs))
			}},
		&core.Scenario{Name: "patterns", Doc: "structs of 1 to 6 (9) members, each one of: always written, omitempty omitted or kept, omitnil omitted, null marshaler omitted or kept, denied, or behind an embedded pointer; all patterns",
			SplitDepth: 4,
			Run: func(x *core.X) {
				max := 5
				if x.Thorough {
					max = 7
				}
				n := 1 + x.Choose("members", max)
				var fs []reflect.StructField
				var vs []reflect.Value
				o := &ref.Opts{HasDeny: true}
				for i := 0; i < n; i++ {
					nm := fmt.Sprint("m", i)
					switch x.Choose("member", 7) {
					case 0:
						fs, vs = append(fs, sf("A"+nm, intT, "")), append(vs, reflect.ValueOf(i))
					case 1:
						fs, vs = append(fs, sf("B"+nm, intT, `json:",omitempty"`)), append(vs, reflect.ValueOf(0))
					case 2:
						fs, vs = append(fs, sf("C"+nm, strT, `json:",omitempty"`)), append(vs, reflect.ValueOf("c"))
					case 3:
						fs, vs = append(fs, sf("D"+nm, reflect.TypeOf((*int)(nil)), `json:",omitnil"`)), append(vs, reflect.Zero(reflect.TypeOf((*int)(nil))))
					case 4:
						fs, vs = append(fs, sf("E"+nm, reflect.TypeOf(nullV{}), `json:",omitnil"`)), append(vs, reflect.ValueOf(nullV{}))
					case 5:
						fs, vs = append(fs, sf("F"+nm, reflect.TypeOf(nullV{}), `json:",omitnil"`)), append(vs, reflect.ValueOf(nullV{i + 1}))
					case 6:
						fs, vs = append(fs, sf("G"+nm, i8T, "")), append(vs, reflect.ValueOf(int8(i)))
						o.Deny = append(o.Deny, "G"+nm)
					}
				}
				s := structVal(fs, vs)
				check(x, s.Interface(), nil)
				check(x, ptrTo(s), o)
				check(x, []interface{}{map[string]interface{}{"k": s.Interface()}, ptrTo(s)}, o)
			}},
		&core.Scenario{Name: "embedded", Doc: "omitted members behind embedded structs (value, pointer, nil pointer), first or last, in all patterns of 3 embedded members and 2 outer ones",
			SplitDepth: 3,
			Run: func(x *core.X) {
				draw := func(p string, n int) reflect.Value {
					var fs []reflect.StructField
					var vs []reflect.Value
					for i := 0; i < n; i++ {
						nm := fmt.Sprint(p, i)
						switch x.Choose("member", 5) {
						case 0:
							fs, vs = append(fs, sf("A"+nm, i8T, "")), append(vs, reflect.ValueOf(int8(i)))
						case 1:
							fs, vs = append(fs, sf("B"+nm, reflect.TypeOf([]int{}), `json:",omitempty"`)), append(vs, reflect.ValueOf([]int{}))
						case 2:
							fs, vs = append(fs, sf("D"+nm, reflect.TypeOf(map[string]int{}), `json:",omitnil"`)), append(vs, reflect.Zero(reflect.TypeOf(map[string]int{})))
						case 3:
							fs, vs = append(fs, sf("E"+nm, reflect.TypeOf(nullP{}), `json:",omitnil"`)), append(vs, reflect.ValueOf(nullP{}))
						case 4:
							fs, vs = append(fs, sf("F"+nm, jsonT, `json:",omitnil"`)), append(vs, ptrV(reflect.Zero(jsonT)).Elem())
							vs[i].Set(reflect.ValueOf(nullV{i % 2}))
						}
					}
					return structVal(fs, vs)
				}
				e := draw("e", 2)
				if x.Thorough {
					e = draw("e", 3)
				}
				o := draw("o", 2)
				et := e.Type()
				kind := x.Choose("embedding", 3)
				if kind > 0 {
					et = reflect.PtrTo(et)
					if kind == 2 {
						e = reflect.Zero(et)
					} else {
						e = ptrV(e)
					}
				}
				ef := reflect.StructField{Name: "Emb", Type: et, Anonymous: true}
				of := reflect.StructField{Name: "Out", Type: o.Type(), Anonymous: true}
				fs, vs := []reflect.StructField{ef, of}, []reflect.Value{e, o}
				if x.Bool("last") {
					fs, vs = []reflect.StructField{of, ef}, []reflect.Value{o, e}
				}
				s := structVal(fs, vs)
				check(x, s.Interface(), nil)
				check(x, ptrTo(s), nil)
			}},
	)
	_ = kit.Describe
	_ = jettison.Marshal
}

func hasJettison(fs []reflect.StructField) bool {
	for _, f := range fs {
		for _, t := range []reflect.Type{f.Type, reflect.PtrTo(f.Type)} {
			if t.Implements(ctxT) || t.Implements(appT) {
				return true
			}
		}
		if f.Type == reflect.TypeOf((*fmt.Stringer)(nil)).Elem() || f.Type == anyT {
			return true
		}
	}
	return false
}
