package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

type (
	sqBool bool
	sqI16  int16
	sqU32  uint32
	sqF32  float32
	sqF64  float64
	sqStr  string
	sqNum  json.Number // no special meaning: a string
	sqDur  time.Duration
	sqUp   uintptr
	sqPtr  *int // a named pointer type: not looked through
	sqPStr *string
	sqAny  interface{}
	sqEmb  struct {
		V int8 `json:",string"`
	}
	sqInner struct {
		I int
		S string
	}
)

// sqValues lists scalars and their boundary values.
var sqValues = []interface{}{
	false, true, sqBool(true),
	int8(0), int8(-128), int8(127), int16(-32768), sqI16(12), int32(math.MinInt32), int64(math.MinInt64), int64(math.MaxInt64), 0, -1, math.MaxInt64,
	uint8(255), uint16(65535), uint32(math.MaxUint32), sqU32(0), uint64(math.MaxUint64), uint(0), uint(10), uintptr(1), uintptr(0), sqUp(99),
	float32(0), float32(0.1), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(1e21), sqF32(-1e-7), 0.0, math.Copysign(0, -1), 1e20, 1e21, 1e-6, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, sqF64(-2.5), math.NaN(), float32(math.Inf(1)), math.Inf(-1),
	"", "a", "\"", "\\", "<>&", "\n", "\x00", "é", "\u2028", "\U0001F600", "\"a\\\"", sqStr("n<"), sqStr(""), "1", "null", "true", "\xff", "\ufffd", "\x7f", "a b", "/",
	json.Number("0"), json.Number("-1.5e+300"), json.Number("12345678901234567890"), json.Number(""), json.Number("x"), json.Number("01"), json.Number("\"1\""), sqNum("7"), sqNum("x\""),
	time.Duration(0), time.Duration(1), time.Duration(math.MinInt64), time.Duration(90 * time.Minute), sqDur(5),
}

// sqTags are the ways the option is written, or not.
var sqTags = []struct {
	tag string
	on  bool
}{
	{`json:",string"`, true}, {`json:"n,string"`, true}, {`json:"n,omitempty,string"`, true}, {`json:",string,omitempty"`, true}, {`json:"n,string,string"`, true},
	{``, false}, {`json:"string"`, false}, {`json:",String"`, false}, {`json:",strings"`, false}, {`json:",str"`, false}, {`json:", string"`, false}, {`json:",string "`, false}, {`json:"n,omitempty"`, false}, {`string`, false}, {`json:"-,string"`, true}, {`xml:",string"`, false},
}

// sqRoundTrip decodes b and compares the result with the value encoded.
func sqRoundTrip(x *core.X, v reflect.Value, b []byte) {
	p := reflect.New(v.Type())
	if err := json.Unmarshal(b, p.Interface()); err != nil {
		x.Failf("%s: %s does not decode: %v", describe(v.Interface()), b, err)
	}
	if !reflect.DeepEqual(p.Elem().Interface(), v.Interface()) {
		x.Failf("%s: %s decodes to %s", describe(v.Interface()), b, describe(p.Elem().Interface()))
	}
}

// decodable tells if a scalar comes back as it went.
func decodable(v reflect.Value) bool {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return true
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.String:
		return utf8.ValidString(v.String()) && !(v.Type() == reflect.TypeOf(json.Number("")) && v.Len() == 0)
	case reflect.Float32, reflect.Float64:
		return !(v.Float() == 0 && math.Signbit(v.Float()))
	}
	return true
}

func isInf(v reflect.Value) bool {
	return (v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64) && (math.IsNaN(v.Float()) || math.IsInf(v.Float(), 0))
}

func init() {
	drive.Describe("C23", "Every scalar kind with its boundary values, all short strings over the characters that matter, every spelling of the tag, pointers and other types around the scalar, and the option in every kind of position; the text is compared with encoding/json and decoded again with it.",
		"encoding/json of the Go toolchain is the oracle for the text and the way back",
		"time.Duration in text formats and the options that change strings are compared with the reference model")
	drive.Add("C23",
		&core.Scenario{Name: "scalars", Doc: "76 scalars x pointer depth 0..3 or nil x 16 spellings of the tag x alone or between other members x 3 ways to pass the struct: text as encoding/json, decoded with the same tag to the same value; without the option or on other types the text is that of the untagged field",
			SplitDepth: 1,
			Run: func(x *core.X) {
				s := reflect.ValueOf(sqValues[x.Choose("scalar", len(sqValues))])
				depth := x.Choose("pointers", 5)
				v := s
				if depth == 4 {
					v = reflect.Zero(reflect.PtrTo(s.Type()))
				} else {
					for i := 0; i < depth; i++ {
						v = ptrV(v)
					}
				}
				tag := sqTags[x.Choose("tag", len(sqTags))]
				var st reflect.Value
				switch x.Choose("members", 3) {
				case 0:
					st = mkStruct(v, tag.tag, "v")
				case 1:
					st = mkStruct(v, tag.tag, "a", "v", "c")
				default:
					st = mkStruct(v, tag.tag, "a", "v", "w", "c")
				}
				var in interface{}
				switch x.Choose("form", 3) {
				case 0:
					in = st.Interface()
				case 1:
					in = ptrTo(st)
				default:
					in = mkSlice(st.Type(), st, st).Interface()
				}
				if s.Type() == reflect.TypeOf(time.Duration(0)) {
					// The default format is text; the numeric ones are those
					// of encoding/json.
					check(x, in, nil)
					ns := jettison.DurationFmt(jettison.DurationNanoseconds)
					b, err := jettison.MarshalOpts(in, jettison.DurationFormat(ns))
					sb, serr := json.Marshal(in)
					if err != nil || serr != nil || !bytes.Equal(b, sb) {
						x.Failf("%s: got %q, %v; encoding/json %q, %v", describe(in), b, err, sb, serr)
					}
					if reflect.ValueOf(in).Type() == st.Type() && !(strings.Contains(tag.tag, "omitempty") && depth == 4) {
						sqRoundTrip(x, st, b)
					}
					return
				}
				checkStd(x, in)
				if reflect.TypeOf(in) != st.Type() || isInf(s) && depth != 4 {
					return
				}
				b, err := jettison.Marshal(in)
				if err == nil && decodable(v) {
					sqRoundTrip(x, st, b)
				}
				if err == nil && tag.on && depth < 2 && st.NumField() == 1 && !strings.Contains(tag.tag, "omitempty") {
					// A string that contains the encoding of the value.
					w := mkStruct(v, strings.Replace(tag.tag, "string", "x", 2), "v")
					pb, _ := jettison.Marshal(w.Interface())
					var q map[string]string
					var p map[string]json.RawMessage
					if json.Unmarshal(b, &q) != nil || json.Unmarshal(pb, &p) != nil || len(q) != 1 {
						x.Failf("%s: %s is not an object with one string (plain: %s)", describe(in), b, pb)
					}
					for k := range q {
						if q[k] != string(p[k]) {
							x.Failf("%s: the string holds %q, the encoding of the value is %q", describe(in), q[k], p[k])
						}
					}
				}
			}},
		&core.Scenario{Name: "strings", Doc: "every string of up to 3 (4) of 26 bytes and runes that matter, quoted, by value and by pointer: as encoding/json by default and as the model under 6 option sets; decoded again",
			SplitDepth: 2,
			Run: func(x *core.X) {
				al := []string{"", "\"", "\\", "<", "&", ">", "\n", "\t", "\b", "\f", "\r", "\x00", "\x1f", "\x7f", "a", "/", "'", "é", "\u2028", "\u2029", "\ufffd", "\U0001F600", "\xff", "\xc3", "\x80", "u"}
				n := 3
				if x.Thorough {
					n = 4
				}
				s := ""
				for i := 0; i < n-1; i++ {
					s += al[x.Choose("char", len(al))]
				}
				for _, c := range al {
					s := s + c
					v := struct {
						A string  `json:",string"`
						B *string `json:"b,omitempty,string"`
						C sqStr   `json:",string,omitempty"`
						D string
					}{s, &s, sqStr(s), s}
					if strings.ContainsAny(s, "\b\f") { // other, equivalent escapes there
						check(x, v, nil)
					} else {
						checkStd(x, v)
					}
					if utf8.ValidString(s) {
						b, _ := jettison.Marshal(v)
						sqRoundTrip(x, reflect.ValueOf(v), b)
						b, _ = jettison.MarshalOpts(v, jettison.NoHTMLEscaping())
						sqRoundTrip(x, reflect.ValueOf(v), b)
						b, _ = jettison.MarshalOpts(v, jettison.NoUTF8Coercion())
						sqRoundTrip(x, reflect.ValueOf(v), b)
					}
					for _, o := range []*ref.Opts{{NoHTMLEscaping: true}, {NoUTF8Coercion: true}, {NoHTMLEscaping: true, NoUTF8Coercion: true}, {NoStringEscaping: true}, {NoStringEscaping: true, NoHTMLEscaping: true}, {NoStringEscaping: true, NoUTF8Coercion: true}} {
						check(x, v, o)
					}
					x.ObsN(10)
				}
			}},
		&core.Scenario{Name: "small-integers", Doc: "every value of the 8- and 16-bit integer types quoted, by value and by pointer, as the plain one in quotes",
			SplitDepth: 1,
			Run: func(x *core.X) {
				ts := []reflect.Type{i8T, reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(sqI16(0))}
				t := ts[x.Choose("type", len(ts))]
				st := reflect.StructOf([]reflect.StructField{sf("V", t, `json:",string"`), sf("P", reflect.PtrTo(t), `json:",string"`), sf("W", t, ""), sf("O", t, `json:",omitempty,string"`)})
				n := 1 << t.Bits()
				for i := 0; i < n; i++ {
					p := reflect.New(st)
					v := p.Elem().Field(0)
					if v.CanInt() {
						v.SetInt(int64(i) << (64 - t.Bits()) >> (64 - t.Bits()))
					} else {
						v.SetUint(uint64(i))
					}
					p.Elem().Field(1).Set(v.Addr())
					p.Elem().Field(2).Set(v)
					p.Elem().Field(3).Set(v)
					s := intText(v)
					want := fmt.Sprintf(`{"V":"%s","P":"%s","W":%s,"O":"%s"}`, s, s, s, s)
					if v.IsZero() {
						want = `{"V":"0","P":"0","W":0}`
					}
					b, err := jettison.Marshal(p.Interface())
					if err != nil || string(b) != want {
						x.Failf("%v: got %q, %v; want %q", t, b, err, want)
					}
				}
				x.ObsN(int64(n))
				x.Obs([]byte(t.String()))
			}},
		&core.Scenario{Name: "floats", Doc: "every power of two and of ten of both float kinds with 5 neighbours on each side, quoted: as encoding/json, decoded to the same bits",
			SplitDepth: 1,
			Run: func(x *core.X) {
				big := x.Bool("64")
				neg := x.Bool("negative")
				type r struct {
					F float32  `json:",string"`
					G *float64 `json:",string"`
					H float64  `json:",string,omitempty"`
				}
				one := func(f float64) {
					if neg {
						f = -f
					}
					v := r{F: 1}
					if big {
						v.H = f
					} else {
						v.F = float32(f)
						f = float64(v.F)
					}
					v.G = &f
					if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 {
						return
					}
					sb, _ := json.Marshal(v)
					b, err := jettison.Marshal(v)
					if err != nil || !bytes.Equal(b, sb) {
						x.Failf("%s: got %q, %v; encoding/json %q", describe(v), b, err, sb)
					}
					sqRoundTrip(x, reflect.ValueOf(v), b)
					x.Obs(b)
				}
				for e := -1074; e < 1024; e++ {
					if !big && (e < -149 || e > 127) {
						continue
					}
					f := math.Ldexp(1, e)
					for d := -5; d <= 5; d++ {
						if big {
							one(math.Float64frombits(uint64(int64(math.Float64bits(f)) + int64(d))))
						} else {
							one(float64(math.Float32frombits(uint32(int32(math.Float32bits(float32(f))) + int32(d)))))
						}
					}
				}
				for e := -340; e < 309; e++ {
					f := math.Pow(10, float64(e))
					for d := -5; d <= 5; d++ {
						if big {
							one(math.Float64frombits(uint64(int64(math.Float64bits(f)) + int64(d))))
						} else if e > -46 && e < 39 {
							one(float64(math.Float32frombits(uint32(int32(math.Float32bits(float32(f))) + int32(d)))))
						}
					}
				}
			}},
		&core.Scenario{Name: "durations", Doc: "10 durations, quoted and not, in every format by value, pointer and nil pointer, alone and with omitempty: quoted exactly in the numeric formats, once in the text formats",
			SplitDepth: 2,
			Run: func(x *core.X) {
				d := []time.Duration{0, 1, -1, 1e9, 1500 * time.Millisecond, math.MinInt64, math.MaxInt64, time.Hour + 3, -90 * time.Second, 123456789012}[x.Choose("duration", 10)]
				fm := jettison.DurationFmt(x.Choose("format", 6))
				v := struct {
					A time.Duration            `json:",string"`
					B *time.Duration           `json:",string"`
					C *time.Duration           `json:",string"`
					D time.Duration            `json:",string,omitempty"`
					E time.Duration            `json:",omitempty"`
					F sqDur                    `json:",string"`
					G []time.Duration          `json:",string"`
					H map[string]time.Duration `json:",string"`
					I interface{}              `json:",string"`
					J [1]time.Duration         `json:",string"`
					K **time.Duration          `json:",string"`
				}{A: d, B: &d, D: d, E: d, F: sqDur(d), G: []time.Duration{d}, H: map[string]time.Duration{"k": d}, I: d, J: [1]time.Duration{d}}
				v.K = &v.B
				o := &ref.Opts{HasDur: true, Dur: fm}
				if x.Bool("unsorted") {
					o.UnsortedMap = true
				}
				for _, w := range []interface{}{v, &v, []interface{}{v}} {
					check(x, w, o)
				}
			}},
		&core.Scenario{Name: "other-types", Doc: "every in-memory form, 20 kinds of marshalers and all trees of depth 1 (2) as a member with the option and without, by value, by pointer and as interface: the option changes the text of scalars only, as in encoding/json",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var v reflect.Value
				l := layouts()
				switch k := x.Choose("source", 3); k {
				case 0:
					v = reflect.ValueOf(l[x.Choose("layout", len(l))])
				case 1:
					kk := kit.ByKind(kitKinds[x.Choose("kind", len(kitKinds))])
					v = kit.Fill(kk[x.Choose("methods", len(kk))].T)
				default:
					d := 1
					if x.Thorough {
						d = 2
					}
					t := &tree{x: x}
					v = t.gen(d)
				}
				switch x.Choose("as", 3) {
				case 1:
					v = ptrV(v)
				case 2:
					e := reflect.New(anyT).Elem()
					e.Set(v)
					v = e
				}
				tags := []string{`json:"v,string"`, `json:"v,omitempty,string"`, `json:"v,omitnil,string"`}
				tag := tags[x.Choose("tag", 3)]
				st := mkStruct(v, tag, "a", "v", "w")
				var in, plain interface{}
				pl := mkStruct(v, strings.Replace(tag, ",string", "", 1), "a", "v", "w")
				if x.Bool("pointer") {
					in, plain = ptrTo(st), ptrTo(pl)
				} else {
					in, plain = st.Interface(), pl.Interface()
				}
				check(x, in, nil)
				et := v.Type()
				if et.Kind() == reflect.Ptr && et.Name() == "" {
					et = et.Elem()
				}
				switch et.Kind() {
				case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
					return
				}
				b1, e1 := jettison.Marshal(in)
				b2, e2 := jettison.Marshal(plain)
				if (e1 != nil) != (e2 != nil) || !bytes.Equal(b1, b2) {
					x.Failf("%v: with the option %q, %v; without %q, %v", v.Type(), b1, e1, b2, e2)
				}
			}},
		&core.Scenario{Name: "named-pointers", Doc: "8 named pointer types, and pointers, arrays, slices, maps and interfaces of them, nil and not, as a member with each of 16 spellings of the tag: as encoding/json, for which they are no scalars to be quoted",
			SplitDepth: 2,
			Run: func(x *core.X) {
				i, s, yes, fl, jn, d := 42, "q\"<", true, -0.5, json.Number("1e3"), time.Duration(9)
				npi := lzNPI(&i)
				ni := sqI16(3)
				type npNI *sqI16
				type npDur *time.Duration
				l := []interface{}{npi, lzNPS(&s), lzNPB(&yes), lzNPF(&fl), lzNPN(&jn), npNI(&ni), lzNPP(&npi), npDur(&d)}
				k := x.Choose("type", len(l))
				v := reflect.ValueOf(l[k])
				if x.Bool("nil") {
					v = reflect.Zero(v.Type())
				}
				switch x.Choose("as", 7) {
				case 1:
					v = ptrV(v)
				case 2:
					v = ptrV(ptrV(v))
				case 3:
					a := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
					a.Index(0).Set(v)
					v = a
				case 4:
					v = mkSlice(v.Type(), v, v)
				case 5:
					m := reflect.MakeMap(reflect.MapOf(strT, v.Type()))
					m.SetMapIndex(reflect.ValueOf("k"), v)
					v = m
				case 6:
					e := reflect.New(anyT).Elem()
					e.Set(v)
					v = e
				}
				tag := sqTags[x.Choose("tag", len(sqTags))]
				names := [][]string{{"v"}, {"a", "v", "w", "c"}}[x.Choose("members", 2)]
				st := mkStruct(v, tag.tag, names...)
				in := st.Interface()
				if x.Bool("pointer") {
					in = ptrTo(st)
				}
				check(x, in, nil)
				ns := jettison.DurationFmt(jettison.DurationNanoseconds)
				b, err := jettison.MarshalOpts(in, jettison.DurationFormat(ns))
				sb, serr := json.Marshal(in)
				if (err != nil) != (serr != nil) || !bytes.Equal(b, sb) {
					x.Failf("%s: got %q, %v; encoding/json %q, %v", describe(in), b, err, sb, serr)
				}
			}},
		&core.Scenario{Name: "members", Doc: "structs of 3 (4) members, each of 15 types with or without the option, plain, nested and embedded: each member as encoding/json writes it, the option of one has no effect on another; decoded again",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 3
				if x.Thorough {
					n = 4
				}
				i, s, f, b := 5, "q\"", 1.5, true
				pi := &i
				vals := []interface{}{7, "s<", true, 2.5, json.Number("3"), &i, &s, &f, &b, sqInner{1, "in"}, &sqInner{2, "p"}, []int{1}, []string{"e"}, map[string]int{"k": 1}, map[int]string{-1: "m"}, [2]bool{true}, &pi, (*string)(nil)}
				var fs []reflect.StructField
				var vs []reflect.Value
				for k := 0; k < n; k++ {
					v := reflect.ValueOf(vals[x.Choose("type", len(vals))])
					tag := ""
					if x.Bool("string") {
						tag = `json:",string"`
					}
					fs = append(fs, sf(string(rune('A'+k)), v.Type(), tag))
					vs = append(vs, v)
				}
				st := reflect.New(reflect.StructOf(fs)).Elem()
				for k := range vs {
					st.Field(k).Set(vs[k])
				}
				sb, serr := json.Marshal(st.Interface())
				jb, jerr := jettison.Marshal(st.Interface())
				if serr != nil || jerr != nil || !bytes.Equal(sb, jb) {
					x.Failf("%s: got %q, %v; encoding/json %q, %v", describe(st.Interface()), jb, jerr, sb, serr)
				}
				x.Obs(jb)
				sqRoundTrip(x, st, jb)
			}},
		&core.Scenario{Name: "shared-types", Doc: "one type used with and without the option in both orders of first use, in one struct or in two, by value and by pointer, named and not, directly and below named structs, arrays, slices and maps",
			SplitDepth: 2,
			Run: func(x *core.X) {
				// A new type each time keeps the caches cold.
				kind := x.Choose("kind", 9)
				freshTag := fmt.Sprintf(`json:"f%d"`, freshN())
				vals := []interface{}{3, "x", true, 0.5, json.Number("9"), sqI16(4), sqStr("y"), time.Duration(7), uint8(1)}
				v := reflect.ValueOf(vals[kind])
				if x.Bool("pointer") {
					v = ptrV(v)
				}
				wrap := func(how int, v reflect.Value, tag string) reflect.Value {
					switch how {
					case 0:
						return v
					case 1:
						s := reflect.New(reflect.StructOf([]reflect.StructField{sf("Z", v.Type(), tag), sf("Y", i8T, freshTag)})).Elem()
						s.Field(0).Set(v)
						return s
					case 2:
						return mkSlice(v.Type(), v)
					case 3:
						return mkArray(v, v)
					case 4:
						return mkMap(reflect.ValueOf("k"), v)
					default:
						return ptrV(ptrV(v))
					}
				}
				h1, h2 := x.Choose("first", 6), x.Choose("second", 6)
				t1, t2 := `json:",string"`, ``
				if x.Bool("order") {
					t1, t2 = t2, t1
				}
				a, b := wrap(h1, v, t1), wrap(h2, v, t2)
				if x.Bool("one") {
					s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", a.Type(), t1), sf("B", b.Type(), t2), sf("N", i8T, freshTag)})).Elem()
					s.Field(0).Set(a)
					s.Field(1).Set(b)
					check(x, s.Interface(), nil)
					check(x, ptrTo(s), nil)
					return
				}
				s := mkStruct(a, t1, "v")
				check(x, s.Interface(), nil)
				s2 := mkStruct(b, t2, "v")
				check(x, s2.Interface(), nil)
				s3 := mkStruct(b, t1, "v")
				check(x, ptrTo(s3), nil)
				check(x, s.Interface(), nil)
			}},
		&core.Scenario{Name: "embedded", Doc: "the option on promoted members (embedded by value, by pointer, nil) and on embedded members themselves",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var v interface{}
				switch x.Choose("form", 10) {
				case 0:
					v = struct{ sqEmb }{sqEmb{5}}
				case 1:
					v = struct{ *sqEmb }{&sqEmb{6}}
				case 2:
					v = struct{ *sqEmb }{}
				case 3:
					v = struct {
						sqEmb `json:",string"`
						W     int
					}{sqEmb{7}, 1}
				case 4:
					v = struct {
						sqEmb `json:"e,string"`
						W     string `json:",string"`
					}{sqEmb{8}, "w"}
				case 5:
					v = struct {
						sqEmb
						V int8
					}{sqEmb{9}, 10}
				case 6:
					v = struct {
						sqEmb
						V int16 `json:"V,string"`
					}{sqEmb{11}, 12}
				case 7:
					v = struct {
						Int     sqI16 `json:",string"`
						sqInner `json:",string"`
					}{13, sqInner{14, "x"}}
				case 8:
					v = struct {
						SqStr `json:",string"`
						*SqI  `json:"i,string"`
					}{"q", new(SqI)}
				default:
					v = struct {
						SqStr
						*SqI `json:",string,omitempty"`
					}{"q", nil}
				}
				switch x.Choose("as", 3) {
				case 1:
					v = ptrTo(reflect.ValueOf(v))
				case 2:
					v = map[string]interface{}{"k": v}
				}
				checkStd(x, v)
			}},
	)
}

// SqStr and SqI are embedded.
type (
	SqStr string
	SqI   int
)

var freshCount int

func freshN() int { freshCount++; return freshCount }
