package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// optionSets adds a scenario that encodes the values a property is about under
// every set of the flags, with lists and valued options, and with and without
// calls of the methods compared.
func optionSets(id string, calls bool, subjects func() []interface{}) {
	var (
		once sync.Once
		subj []interface{}
	)
	get := func() []interface{} {
		once.Do(func() { subj = subjects() })
		return subj
	}
	deepAdd(id, calls, get)
	drive.Add(id, &core.Scenario{Name: "option-sets", Doc: fmt.Sprintf("values that show the property, each under all 2048 sets of the flags x no list, allow list, deny list, both x 4 settings of layout, duration format and context"),
		SplitDepth: 2,
		Run: func(x *core.X) {
			l := get()
			v := l[x.Choose("value", len(l))]
			hi := x.Choose("flags high", 32)
			for lo := 0; lo < 64; lo++ {
				n := hi<<6 | lo
				for k := 0; k < 4; k++ {
					o := (&ref.Opts{}).SetFlags(n)
					o.HasAllow, o.HasDeny = k&1 != 0, k&2 != 0
					o.Allow, o.Deny = []string{"a", "A", "v", "V", "W", "B", "b", "b<", "n", "N", "in", "X", "Y", "E", "k", "C", "T", "", "H"}, []string{"A", "b", "in", "c<", "Y", "S", "u"}
					for d := 0; d < 4; d++ {
						c := *o
						o := &c
						switch d {
						case 1:
							o.TimeLayout, o.HasDur, o.Dur = time.RFC1123, true, jettison.DurationString
						case 2:
							o.TimeLayout, o.HasDur, o.Dur = "2006 \"MST\"<\xff", true, jettison.DurationSeconds
						case 3:
							o.TimeLayout, o.HasDur, o.Dur, o.Ctx = time.RFC3339, true, jettison.DurationMicroseconds, context.Background()
						}
						if calls {
							checkCalls(x, v, o, true)
						} else {
							check(x, v, o)
						}
					}
				}
			}
		}})
}

// around puts a value into a few positions that differ in how it is reached.
func around(vs ...interface{}) []interface{} {
	var r []interface{}
	for i, v := range vs {
		rv := reflect.ValueOf(v)
		r = append(r, v, []interface{}{v, "<", ptrTo(rv)}, map[string]interface{}{"k<": v}, mkStruct(rv, `json:"v,omitempty"`, "a", "v", "c").Interface(), syncMapOf("s", v))
		if i%2 == 0 {
			r = append(r, ptrTo(mkStruct(rv, `json:",string"`, "v", "w")), mkMap(reflect.ValueOf(3), rv).Interface())
		}
	}
	return r
}

type (
	crEmb struct {
		X int8 `json:",string"`
		crIn
		*CrPtr
		H string `json:"h<,omitnil"`
	}
	crIn struct {
		Y []byte
		T time.Time `json:"t,omitempty"`
		X string
	}
	// CrPtr is embedded by pointer.
	CrPtr struct {
		Z map[string]crIn `json:",omitempty"`
		A interface{}
	}
)

func init() {
	optionSets("C03", false, func() []interface{} {
		l := []interface{}{crEmb{H: "<"}, &crEmb{CrPtr: &CrPtr{Z: map[string]crIn{"<k": {}}, A: crIn{}}}, []crEmb{{X: 1}}, map[string]*crEmb{"a": {CrPtr: &CrPtr{}}}}
		for i := 0; i < len(embTypes); i += 4 {
			v := reflect.ValueOf(embTypes[i]())
			n := 0
			fillAny(nil, v.Elem(), &n, 2)
			l = append(l, v.Interface())
		}
		return l
	})
	optionSets("C04", true, func() []interface{} {
		var l []interface{}
		for i, m := range []string{"VNNN", "PNNN", "NVNN", "NPNN", "NNVN", "NNPN", "NNNV", "NNNP", "PNNV", "NPVN", "NNVP", "NNPV", "VVVV", "PPPP"} {
			k := []string{"Int", "St1p", "Map", "Str", "Sl", "Arr1p"}[i%6]
			v := kit.Fill(kit.Lookup(k, m).T)
			l = append(l, []interface{}{v.Interface(), ptrTo(v), mkSlice(v.Type(), v).Interface(), mkMap(reflect.ValueOf("k"), v).Interface(), syncMapOf(1, v.Interface())}, ptrTo(mkStruct(v, `json:"v,omitempty"`, "a", "v", "c")), mkStruct(v, ``, "v", "w").Interface())
		}
		d, n := new(promDeep), 0
		fillAny(nil, reflect.ValueOf(d).Elem(), &n, 4)
		return append(l, d, promOver{}, map[kit.Int_NNNV][]kit.Str_NNPN{1: {"a"}})
	})
	optionSets("C05", false, func() []interface{} {
		s := "<a>&\"\\/\n\t\b\f\x00\x1f\x7fé\u2028\u2029\ufffd\xff\xe2\x80\U0001F600"
		return append(around(s, textStr(s), "\xff", "\u2028", "<", textStr("\"")),
			map[textKey]string{{s}: s}, struct {
				A string   `json:"<&>,string"`
				B *string  `json:"é\u2028"`
				C textStr  `json:",string"`
				D [][]byte `json:"d"`
			}{s, &s, textStr(s), [][]byte{[]byte(s)}}, map[string]map[string]string{s: {s: s, "": ""}}, [3]byte{'<', 0xff, '"'})
	})
	maps := func(sm bool) []interface{} {
		var l []interface{}
		for i, ks := range keySets {
			m := reflect.MakeMap(reflect.MapOf(ks.t, anyT))
			s := new(sync.Map)
			for j, k := range ks.keys {
				var v interface{}
				switch (i + j) % 5 {
				case 0:
					v = map[string]int(nil)
				case 1:
					v = map[string]interface{}{"b": 1, "a<": []int(nil)}
				case 2:
					v = struct {
						A int
						B string `json:"b"`
					}{j, "<"}
				case 3:
					v = syncMapOf("z", nil, "y", j)
				}
				kv := reflect.New(ks.t).Elem()
				kv.Set(reflect.ValueOf(k))
				m.SetMapIndex(kv, reflect.New(anyT).Elem())
				if v != nil {
					m.SetMapIndex(kv, reflect.ValueOf(v))
				}
				if k != nil {
					s.Store(k, v)
				}
			}
			if sm {
				l = append(l, s)
			} else {
				l = append(l, m.Interface())
			}
		}
		if sm {
			return append(l, &struct {
				A sync.Map `json:"a"`
				N *sync.Map
			}{}, []*sync.Map{syncMapOf(), nil, syncMapOf("<", 1)}, map[string]*sync.Map{"k": syncMapOf(textKey{"<"}, 1, 5, "x")})
		}
		return append(l, map[string]map[int]map[textKey][]byte{"o": {1: {{"<"}: []byte("x"), {""}: nil}, 2: nil, 10: {}}, "": nil}, []map[string]int{nil, {}, {"<": 1, "&": 2}})
	}
	optionSets("C06", false, func() []interface{} { return maps(false) })
	optionSets("C07", false, func() []interface{} { return maps(true) })
	optionSets("C08", false, func() []interface{} {
		f := 1.5
		return append(around(json.Number("-0.10e+5"), json.Number("x"), json.Number(""), json.Number("1<"), math.MaxInt64, float32(1e21), 5e-324, uint64(math.MaxUint64), math.NaN()),
			map[int64]uint64{math.MinInt64: math.MaxUint64}, map[uint8]float32{255: 0.1, 9: -0}, struct {
				A json.Number  `json:",string"`
				B *json.Number `json:"b,string"`
				C *float64     `json:"n,omitempty,string"`
				V int8         `json:",string"`
			}{A: "1e5", C: &f, V: -128}, []json.Number{"", "1", "bad"})
	})
	optionSets("C09", false, func() []interface{} {
		t := time.Date(2021, 2, 3, 4, 5, 6, 70, time.FixedZone("Z<", -3601))
		return append(around(t, time.Time{}, time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)), map[time.Time]time.Time{t: t}, []*time.Time{&t, nil}, syncMapOf(t, &t), [1]time.Time{t})
	})
	optionSets("C10", false, func() []interface{} {
		d := time.Duration(math.MinInt64)
		return append(around(d, time.Duration(0), time.Duration(1500), 90*time.Second), map[time.Duration]time.Duration{d: d, 0: 1}, []*time.Duration{&d, nil}, struct {
			A time.Duration  `json:",string"`
			B *time.Duration `json:"b,string"`
			C time.Duration  `json:"c<,omitempty"`
			N []time.Duration
		}{A: 5, B: &d, N: []time.Duration{1e6, 1e3}}, syncMapOf(d, d))
	})
	optionSets("C11", false, func() []interface{} {
		b := []byte("<\"\xff\u2028bytes\x00")
		return append(around(b, [4]byte{'<', '"', 0xff, 0}, []byte(nil), []byte{}, [0]byte{}, []int8{1, -1}, [2]int8{3, 4}, [1]byte{'&'}, nBytes("<x")), [][]byte{b, nil, {}}, [2][2]byte{{'a', '<'}, {0, 1}}, map[string][3]byte{"k": {1, 2, 3}}, []kit.U8_NNVN{1, 2}, [2]kit.U8_NNNV{3, 4}, []kit.U8_NNPN{5}, &[2]kit.U8_NPNN{6, 7})
	})
	optionSets("C12", true, func() []interface{} {
		r := json.RawMessage(" { \"<\\\\\" : [ 1 , \"\u2028 \\\" x\" ] , \"a\" : \" \" } \n")
		return append(around(r, json.RawMessage(nil), json.RawMessage(`{`), json.RawMessage(``), rawMarshaler(r), rawMarshaler(`[ "<" , 1`)), map[string]json.RawMessage{"<": r, "n": nil}, []*json.RawMessage{&r, nil}, syncMapOf("k", r), struct {
			A json.RawMessage `json:"a,omitempty"`
			B json.RawMessage `json:"b,omitnil"`
			C *json.RawMessage
			V rawMarshaler `json:",string"`
		}{A: r, C: &r, V: rawMarshaler(r)})
	})
	optionSets("C13", false, func() []interface{} {
		var l []interface{}
		for _, tag := range omitTags[1:] {
			for s := 0; s < 2; s++ {
				for k := 0; k+3 <= len(omitVals); k += 7 {
					var fs []reflect.StructField
					var vs []reflect.Value
					for i := k; i < k+7 && i < len(omitVals); i++ {
						v := reflect.ValueOf(omitVals[i][(s+i)%2%len(omitVals[i])])
						fs = append(fs, sf(fmt.Sprint("F", i), v.Type(), fmt.Sprintf(`json:"%s%s"`, []string{"A", "b", "c<", "W", "X", "Y", "N"}[i-k], tag)))
						vs = append(vs, v)
					}
					l = append(l, structVal(fs, vs).Interface())
				}
			}
		}
		for _, iv := range ifaceVals {
			for _, y := range iv.v {
				if s, ok := y.(string); ok && s == "" {
					continue
				}
				v := reflect.New(iv.t).Elem()
				if y != nil {
					v.Set(reflect.ValueOf(y))
				}
				l = append(l, structVal([]reflect.StructField{sf("A", iv.t, `json:"a,omitempty"`), sf("B", iv.t, `json:"b,omitnil"`), sf("C", intT, "")}, []reflect.Value{v, v, reflect.ValueOf(1)}).Interface())
			}
		}
		return l
	})
	optionSets("C14", false, func() []interface{} {
		return []interface{}{alValue(true), alValue(false), map[string]interface{}{"a": alValue(false), "A": 1}, syncMapOf("A", alValue(false), "b", alIn{B: "<"}), []interface{}{alVal{}, &alIn{C: &alIn{}}}, ptrTo(reflect.ValueOf(alValue(true)))}
	})
	optionSets("C19", true, func() []interface{} {
		var l []interface{}
		for i, b := range badLeaves {
			v := reflect.ValueOf(b)
			c := kit.FillN(kit.Lookup("Int", []string{"NVNN", "NNNV", "NNVN"}[i%3]).T, i+1).Interface()
			l = append(l, []interface{}{c, b, c})
			switch i % 5 {
			case 0:
				l = append(l, map[string]interface{}{"k": b})
			case 1:
				l = append(l, syncMapOf("k", b))
			case 2:
				l = append(l, mkStruct(v, `json:"v,omitempty"`, "a", "v", "c").Interface())
			case 3:
				l = append(l, mkMap(reflect.ValueOf(1), ptrV(v)).Interface())
			case 4:
				l = append(l, struct {
					B interface{} `json:"b"`
					V interface{}
					C interface{}
				}{c, b, c})
			}
		}
		return l
	})
	optionSets("C20", false, func() []interface{} {
		ls := layouts()
		var l []interface{}
		for i := 0; i+4 < len(ls); i += 4 {
			var g []interface{}
			for _, v := range ls[i : i+4] {
				switch reflect.TypeOf(v).Kind() {
				case reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Complex128:
					continue
				}
				g = append(g, v, map[string]interface{}{"k": v})
			}
			l = append(l, g)
		}
		return l
	})
	optionSets("C21", false, func() []interface{} {
		var l []interface{}
		for i, t := range recTypes {
			v := reflect.New(t).Elem()
			n := i
			fillRec(nil, v, 3, &n)
			l = append(l, v.Interface())
		}
		return l
	})
	optionSets("C22", true, func() []interface{} {
		var l []interface{}
		for i, m := range []string{"VNNN", "NVNN", "NNVN", "NNNV", "PNNN", "NPNN", "NNPN", "NNNP"} {
			v := kit.Fill(kit.Lookup([]string{"Int", "St2", "Map"}[i%3], m).T)
			w := kit.FillN(kit.Lookup("Int", m).T, 7)
			l = append(l, []interface{}{v.Interface(), ptrTo(w), w.Interface()}, mkStruct(mkSlice(w.Type(), w, w), `json:"b"`, "a", "v", "w").Interface(), syncMapOf("k", ptrTo(v)), map[string]interface{}{"k": mkArray(ptrV(w), ptrV(w)).Interface()})
		}
		return append(l, map[kit.Int_NNNV]kit.Int_NNVN{1: 2}, syncMapOf(kit.Int_NNNV(3), kit.Int_VNNN(4)))
	})
	optionSets("C23", false, func() []interface{} {
		var l []interface{}
		for i := 0; i < len(sqValues); i += 6 {
			var fs []reflect.StructField
			var vs []reflect.Value
			for j := i; j < i+6 && j < len(sqValues); j++ {
				v := reflect.ValueOf(sqValues[j])
				if v.Kind() >= reflect.Float32 && v.Kind() <= reflect.Float64 && (math.IsNaN(v.Float()) || math.IsInf(v.Float(), 0)) || v.Type() == reflect.TypeOf(json.Number("")) && strings.ContainsAny(v.String(), "x\"") {
					continue
				}
				fs = append(fs, sf(fmt.Sprint("F", j), v.Type(), fmt.Sprintf(`json:"%s,string"`, []string{"A", "b", "c<", "W", "X", "Y"}[j-i])), sf(fmt.Sprint("P", j), reflect.PtrTo(v.Type()), `json:",string,omitempty"`))
				vs = append(vs, v, ptrV(v))
			}
			l = append(l, structVal(fs, vs).Interface())
		}
		return append(l, struct {
			A json.Number `json:"a,string"`
			B int         `json:"b,string"`
		}{"bad\"", 1})
	})
}
