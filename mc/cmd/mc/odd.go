package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
	dupa "verifmc/same/a/dup"
	dupb "verifmc/same/b/dup"
	dupc "verifmc/same/c/dup"

	"github.com/wI2L/jettison"
)

// Keys of which some are not equal to themselves.
type (
	nanF struct{ F float64 }
	nanA [2]float32
	nanI struct{ V interface{} }
	nan6 float64
	nan3 float32
	nanC complex64
)

func bits(f float64) string {
	b := math.Float64bits(f)
	return strconv.FormatUint(b&^(1<<51), 16)
}

func (k nanF) MarshalText() ([]byte, error) { return []byte("F" + bits(k.F)), nil }
func (k nanA) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("%x<%x", math.Float32bits(k[0]), math.Float32bits(k[1]))), nil
}
func (k nanI) MarshalText() ([]byte, error) {
	f, _ := k.V.(float64)
	return []byte("I" + bits(f)), nil
}
func (k nan6) MarshalText() ([]byte, error) { return []byte(bits(float64(k))), nil }
func (k nan3) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("%x", math.Float32bits(float32(k)))), nil
}
func (k nanC) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("C%x", math.Float32bits(real(k)))), nil
}

// nanKeys are the types, and what makes a key of each of some bits.
var nanKeys = []func(i int) interface{}{
	func(i int) interface{} { return nan6(oddFloats[i]) },
	func(i int) interface{} { return nan3(oddFloats32[i]) },
	func(i int) interface{} { return nanF{oddFloats[i]} },
	func(i int) interface{} { return nanA{oddFloats32[i], 1} },
	func(i int) interface{} { return nanA{1, oddFloats32[i]} },
	func(i int) interface{} { return nanI{oddFloats[i]} },
	func(i int) interface{} { return nanC(complex(oddFloats32[i], 0)) },
	nil, // an interface type with those of any of the other types
}

// The first four are not equal to themselves, the two zeros are equal.
var oddFloats = []float64{math.NaN(), math.Float64frombits(0x7ff8000000000002), math.Float64frombits(0xfff8000000000003), math.Float64frombits(0x7ff800000000beef), 0, math.Copysign(0, -1), 1, math.Inf(1)}
var oddFloats32 = []float32{float32(math.NaN()), math.Float32frombits(0x7fc00002), math.Float32frombits(0xffc00003), math.Float32frombits(0x7fc0beef), 0, float32(math.Copysign(0, -1)), 1, float32(math.Inf(1))}

// A keeper hands out memory that it keeps.
type (
	keepJ struct{ b []byte }
	keepT struct{ b []byte }
)

func (k keepJ) MarshalJSON() ([]byte, error)  { return k.b, nil }
func (k *keepT) MarshalText() ([]byte, error) { return k.b, nil }

// Links of a chain of marshalers, each of which returns the error of the call
// that it makes for the next.
type (
	linkJ   struct{ l *errLink }
	linkT   struct{ l *errLink }
	linkA   struct{ l *errLink }
	linkC   struct{ l *errLink }
	linkPJ  struct{ l *errLink }
	linkPA  struct{ l *errLink }
	errLink struct {
		next interface{}
		how  int
		wrap int
		err  error // returned last
	}
)

func (l *errLink) call() error {
	var err error
	switch {
	case l.next == nil:
		err = errBoom
	case l.how == 0:
		_, err = jettison.Marshal(l.next)
	case l.how == 1:
		_, err = jettison.AppendOpts([]byte("x"), l.next, jettison.NoCompact())
	case l.how == 2:
		_, err = json.Marshal(l.next)
	case l.how == 3:
		_, err = jettison.MarshalOpts([]interface{}{1, l.next}, jettison.UnixTime())
	}
	if err == nil {
		err = errBoom // encoding/json does not know the method
	}
	switch l.wrap {
	case 1:
		err = fmt.Errorf("link: %w", err)
	case 2:
		err = &methodErr{l.how}
	}
	l.err = err
	return err
}
func (l linkJ) MarshalJSON() ([]byte, error)          { return nil, l.l.call() }
func (l linkT) MarshalText() ([]byte, error)          { return nil, l.l.call() }
func (l linkA) AppendJSON(b []byte) ([]byte, error)   { return b, l.l.call() }
func (l *linkPJ) MarshalJSON() ([]byte, error)        { return nil, l.l.call() }
func (l *linkPA) AppendJSON(b []byte) ([]byte, error) { return b, l.l.call() }
func (l linkC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return b, l.l.call()
}

var linkKinds = []struct {
	name string
	mk   func(*errLink) interface{}
}{
	{"MarshalJSON", func(l *errLink) interface{} { return linkJ{l} }},
	{"MarshalText", func(l *errLink) interface{} { return linkT{l} }},
	{"AppendJSON", func(l *errLink) interface{} { return linkA{l} }},
	{"AppendJSONContext", func(l *errLink) interface{} { return linkC{l} }},
	{"MarshalJSON", func(l *errLink) interface{} { return &linkPJ{l} }},
	{"AppendJSON", func(l *errLink) interface{} { return &linkPA{l} }},
	{"MarshalJSON", func(l *errLink) interface{} { return &linkJ{l} }},
}

// Key types that print alike.
var likeKeys = []interface{}{
	func() interface{} { type K int8; return K(-1) }(),
	func() interface{} { type K uint8; return K(200) }(),
	func() interface{} { type K int16; return K(-300) }(),
	func() interface{} { type K uint16; return K(65000) }(),
	func() interface{} { type K int32; return K(-70000) }(),
	func() interface{} { type K uint32; return K(4000000000) }(),
	func() interface{} { type K int64; return K(-1 << 40) }(),
	func() interface{} { type K uint64; return K(1 << 63) }(),
	func() interface{} { type K int; return K(-5) }(),
	func() interface{} { type K uint; return K(5) }(),
	func() interface{} { type K uintptr; return K(6) }(),
	func() interface{} { type K string; return K("s<") }(),
	func() interface{} { type K float64; return K(1.5) }(),
	func() interface{} { type K bool; return K(true) }(),
	func() interface{} { type K struct{ kStT }; return K{kStT{"a", "b"}} }(),
	func() interface{} { type K struct{ *kPtrT }; return K{&kPtrT{"p"}} }(),
	func() interface{} { type K struct{ A int }; return K{1} }(),
	func() interface{} { type K [2]byte; return K{1, 2} }(),
	func() interface{} { type K chan int; return K(nil) }(),
	dupa.K("a"), dupb.K("b"), dupc.K("c"), dupa.N(7), dupb.N(8), dupc.N(9),
}

type (
	chainP struct{ N *chainP }
	chainS []chainS
	chainM map[string]chainM
	chainI struct {
		V interface{} `json:"v"`
	}
	chainE struct {
		N []*chainE `json:"n,omitempty"`
	}
)

// longChains build a chain of n links, and say how it is encoded.
var longChains = []struct {
	name string
	mk   func(n int) (v interface{}, open, core, close string)
}{
	{"pointers to structs", func(n int) (interface{}, string, string, string) {
		var p *chainP
		for i := 0; i < n; i++ {
			p = &chainP{p}
		}
		return p, `{"N":`, "null", "}"
	}},
	{"slices", func(n int) (interface{}, string, string, string) {
		s := chainS{}
		for i := 0; i < n; i++ {
			s = chainS{s}
		}
		return s, "[", "[]", "]"
	}},
	{"maps", func(n int) (interface{}, string, string, string) {
		m := chainM{}
		for i := 0; i < n; i++ {
			m = chainM{"k": m}
		}
		return m, `{"k":`, "{}", "}"
	}},
	{"interfaces in slices", func(n int) (interface{}, string, string, string) {
		var v interface{} = "core"
		for i := 0; i < n; i++ {
			v = []interface{}{v}
		}
		return v, "[", `"core"`, "]"
	}},
	{"interfaces in structs", func(n int) (interface{}, string, string, string) {
		var v interface{} = 1.5
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = chainI{v}
			} else {
				v = &chainI{v}
			}
		}
		return v, `{"v":`, "1.5", "}"
	}},
	{"interfaces in maps", func(n int) (interface{}, string, string, string) {
		var v interface{} = true
		for i := 0; i < n; i++ {
			v = map[string]interface{}{"k": v}
		}
		return v, `{"k":`, "true", "}"
	}},
	{"slices of pointers", func(n int) (interface{}, string, string, string) {
		p := &chainE{}
		for i := 0; i < n; i++ {
			p = &chainE{[]*chainE{p}}
		}
		return p, `{"n":[`, "{}", "]}"
	}},
	{"pointers in interfaces", func(n int) (interface{}, string, string, string) {
		var v interface{} = "p"
		for i := 0; i < n; i++ {
			w := v
			v = &w
		}
		return v, "", `"p"`, ""
	}},
}

// tagStruct has the values as members A, B, ... with the tags.
func tagStruct(tags []string, vs ...reflect.Value) reflect.Value {
	var fs []reflect.StructField
	for i, v := range vs {
		fs = append(fs, sf(string(rune('A'+i)), v.Type(), tags[i]))
	}
	s := reflect.New(reflect.StructOf(fs)).Elem()
	for i, v := range vs {
		s.Field(i).Set(v)
	}
	return s
}

// Bytes with methods that do not matter.
type (
	obString   uint8
	obError    uint8
	obFormat   uint8
	obBinary   uint8
	obPString  uint8
	obPBinary  uint8
	obWrongJ   uint8
	obWrongT   uint8
	obWrongA   uint8
	obUnmarsh  uint8
	obMany     uint8
	obJ        uint8
	obPJ       uint8
	obT        uint8
	obPT       uint8
	obA        uint8
	obPA       uint8
	obC        uint8
	obPC       uint8
	obPlain    uint8
	obOfString obString
)

func (obString) String() string                            { return "s" }
func (obError) Error() string                              { return "e" }
func (obFormat) Format(fmt.State, rune)                    {}
func (obBinary) MarshalBinary() ([]byte, error)            { return nil, errBoom }
func (*obPString) String() string                          { return "s" }
func (*obPBinary) MarshalBinary() ([]byte, error)          { return nil, errBoom }
func (obWrongJ) MarshalJSON() string                       { return "wrong" }
func (*obWrongT) MarshalText() []byte                      { return nil }
func (obWrongA) AppendJSON() ([]byte, error)               { return nil, errBoom }
func (*obUnmarsh) UnmarshalJSON([]byte) error              { return errBoom }
func (*obUnmarsh) UnmarshalText([]byte) error              { return errBoom }
func (obMany) String() string                              { return "s" }
func (obMany) Error() string                               { return "s" }
func (*obMany) MarshalBinary() ([]byte, error)             { return nil, errBoom }
func (*obMany) AppendJSONContext(b []byte) ([]byte, error) { return nil, errBoom }
func (obJ) MarshalJSON() ([]byte, error)                   { return []byte("[]"), nil }
func (*obPJ) MarshalJSON() ([]byte, error)                 { return []byte("[]"), nil }
func (obT) MarshalText() ([]byte, error)                   { return []byte("t"), nil }
func (*obPT) MarshalText() ([]byte, error)                 { return []byte("t"), nil }
func (obA) AppendJSON(b []byte) ([]byte, error)            { return append(b, '1'), nil }
func (*obPA) AppendJSON(b []byte) ([]byte, error)          { return append(b, '1'), nil }
func (obC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, '2'), nil
}
func (*obPC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	return append(b, '2'), nil
}

var oddBytes = []reflect.Type{
	reflect.TypeOf(obString(0)), reflect.TypeOf(obError(0)), reflect.TypeOf(obFormat(0)), reflect.TypeOf(obBinary(0)), reflect.TypeOf(obPString(0)), reflect.TypeOf(obPBinary(0)), reflect.TypeOf(obWrongJ(0)), reflect.TypeOf(obWrongT(0)), reflect.TypeOf(obWrongA(0)), reflect.TypeOf(obUnmarsh(0)), reflect.TypeOf(obMany(0)),
	reflect.TypeOf(obJ(0)), reflect.TypeOf(obPJ(0)), reflect.TypeOf(obT(0)), reflect.TypeOf(obPT(0)), reflect.TypeOf(obA(0)), reflect.TypeOf(obPA(0)), reflect.TypeOf(obC(0)), reflect.TypeOf(obPC(0)), reflect.TypeOf(obPlain(0)), reflect.TypeOf(obOfString(0)), reflect.TypeOf(uint8(0)),
}

func init() {
	nanMap := func(x *core.X, kind int, sub int, vt reflect.Type, sync *sync.Map) interface{} {
		kt := textTT
		if nanKeys[kind] != nil {
			kt = reflect.TypeOf(nanKeys[kind](0))
		}
		m := reflect.MakeMap(reflect.MapOf(kt, vt))
		n := 0
		for i := range oddFloats {
			if sub>>uint(i)&1 == 0 {
				continue
			}
			k := nanKeys[kind]
			if k == nil {
				k = nanKeys[i%(len(nanKeys)-1)]
			}
			kv := reflect.New(kt).Elem()
			kv.Set(reflect.ValueOf(k(i)))
			n++
			v := elemValue(n, vt)
			m.SetMapIndex(kv, v)
			if sync != nil {
				sync.Store(k(i), v.Interface())
			}
		}
		return m.Interface()
	}
	nanVals := []reflect.Type{intT, strT, anyT, reflect.TypeOf(struct{}{}), reflect.TypeOf([17]int64{}), reflect.TypeOf((*int)(nil)), reflect.TypeOf(map[string]int{})}
	drive.Add("C06",
		&core.Scenario{Name: "unequal-keys", Doc: "8 key types with MarshalText over floats - plain, in structs, arrays, interfaces - with all subsets of 8 keys, of which 4 are not equal to themselves and 2 are equal though encoded differently, with 7 types of values, sorted and unsorted: every entry is there with its own value",
			SplitDepth: 2,
			Run: func(x *core.X) {
				m := nanMap(x, x.Choose("keys", len(nanKeys)), x.Choose("subset", 1<<8), nanVals[x.Choose("value", len(nanVals))], nil)
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}, {NilSliceEmpty: true}} {
					check(x, m, o)
				}
				check(x, []interface{}{m, struct{ M interface{} }{m}}, nil)
			}},
		&core.Scenario{Name: "keys-alike", Doc: fmt.Sprintf("every ordered pair of %d key types that print as main.K, dup.K or dup.N and differ in kind or methods, usable or not, after each other: each map as the model's", len(likeKeys)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				a, b := likeKeys[x.Choose("first", len(likeKeys))], likeKeys[x.Choose("second", len(likeKeys))]
				for _, k := range []interface{}{a, b, a} {
					kv := reflect.ValueOf(k)
					check(x, mkMap(kv, reflect.ValueOf(1)).Interface(), nil)
					check(x, mkMap(kv, reflect.ValueOf([]string{"v"})).Interface(), &ref.Opts{UnsortedMap: true})
				}
				check(x, []interface{}{mkMap(reflect.ValueOf(b), reflect.ValueOf(1)).Interface(), mkMap(reflect.ValueOf(a), reflect.ValueOf(1)).Interface()}, nil)
			}},
	)
	drive.Add("C07",
		&core.Scenario{Name: "unequal-keys", Doc: "sync.Maps and Go maps with the same entries under keys of 8 types over floats - all subsets of 8 keys, of which 4 are not equal to themselves - sorted and unsorted: every entry is there with its own value",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var sm sync.Map
				kind, sub := x.Choose("keys", len(nanKeys)), x.Choose("subset", 1<<8)
				if sub&0x30 == 0x30 {
					x.Skip() // a map keeps the last of two equal keys, a sync.Map the first
				}
				m := nanMap(x, kind, sub, nanVals[x.Choose("value", len(nanVals))], &sm)
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}} {
					n, want := ref.Encode(m, o)
					b, err := enc(&sm, o)
					judge(x, m, o, b, err, n, want)
					check(x, []interface{}{&sm, 1}, o)
				}
			}},
		&core.Scenario{Name: "keys-alike", Doc: fmt.Sprintf("every ordered pair of keys of %d types that print as main.K, dup.K or dup.N and differ in kind or methods, usable or not, in sync.Maps after each other and in one together: as the model's", len(likeKeys)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				a, b := likeKeys[x.Choose("first", len(likeKeys))], likeKeys[x.Choose("second", len(likeKeys))]
				for _, k := range []interface{}{a, b, a} {
					check(x, syncMapOf(k, 1), nil)
					check(x, syncMapOf(k, []string{"v"}), &ref.Opts{UnsortedMap: true})
				}
				_, e1 := ref.Encode(syncMapOf(a, 1), nil)
				_, e2 := ref.Encode(syncMapOf(b, 1), nil)
				if e1 == nil || e2 == nil {
					check(x, syncMapOf(a, 1, b, "two"), nil)
				}
			}},
	)

	// what methods return and raw messages hold, with something before and
	// after it
	cores := []string{"", "1", `"a"`, `"<"`, "{}", "[]", "null", "true", "-0.5e+7", `{"a":1}`, "[1,2]", `" "`, "\"\u2028\"", `"\""`, `"\\"`, "\"", "{", "nul", `"a" "b"`, "\"\xff\"", `""`}
	special := []string{"", " ", "\n", "\t", "\r", "\r\n", "\x00", "\x0b", "\xa0", "\u00a0", "\u2028", "\ufeff", ",", "\"", "\\", "}", "]", "/", "#", ";", "\xff", "\x7f", "  ", "\n\n", " \n "}
	ends := func(x *core.X, only string) {
		c := cores[x.Choose("content", len(cores))]
		before, after := "", ""
		switch k := x.Choose("ends", 256+256+len(special)*len(special)); {
		case k < 256:
			before = string([]byte{byte(k)})
		case k < 512:
			after = string([]byte{byte(k - 256)})
		default:
			before, after = special[(k-512)%len(special)], special[(k-512)/len(special)]
		}
		s := before + c + after
		for _, spare := range []int{0, 8} {
			room := make([]byte, len(s)+spare+16)
			for i := range room {
				room[i] = '~'
			}
			b := room[8 : 8+len(s) : 8+len(s)+spare]
			copy(b, s)
			clean := string(room)
			rm := json.RawMessage(b)
			for i, v := range []interface{}{keepJ{b}, &keepT{b}, rm, &rm, b, map[string]interface{}{"k": keepJ{b}, "l": &keepT{b}}, struct {
				A json.RawMessage `json:"a,omitempty"`
				B []byte          `json:"b,omitempty"`
				C *keepT          `json:",string"`
				D keepJ
			}{rm, b, &keepT{b}, keepJ{b}}} {
				if only == "C02" && (i == 4 || i == 1) {
					continue
				}
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true, RawByteSlice: true, NoUTF8Coercion: true}, {NoCompact: true, NoStringEscaping: true}} {
					if only == "C02" {
						if o != nil && o.NoCompact {
							continue
						}
						o2 := &ref.Opts{}
						if o != nil {
							o2.NoHTMLEscaping = true
						}
						got, err := enc(v, o2)
						if err == nil && !json.Valid(got) {
							x.Failf("%T %q %s: the output %q is no JSON", v, s, o2, got)
						}
						x.Obs(got)
						continue
					}
					got, err := enc(v, o)
					if string(room) != clean {
						x.Failf("%T %q %s: the memory it belongs to was changed to %q", v, s, o, room)
					}
					n, want := ref.Encode(v, o)
					judge(x, v, o, got, err, n, want)
				}
			}
		}
	}
	doc := fmt.Sprintf("%d texts that are JSON, part of it or like it, with each byte before, each byte after, and every two of %d separators around, in memory that methods hand out, raw messages and byte slices keep, alone and as members", len(cores), len(special))
	for _, p := range []string{"C02", "C20", "C22"} {
		p := p
		drive.Add(p, &core.Scenario{Name: "ends", SplitDepth: 1, Doc: doc + map[string]string{"C02": ": the output is JSON, or an error", "C20": ": as the model's, and the memory unchanged", "C22": ": as the model's; what looks like JSON is still a text where it is one"}[p],
			Run: func(x *core.X) { ends(x, p) }})
	}

	drive.Add("C19",
		&core.Scenario{Name: "chained-errors", Doc: "chains of 1 to 3 (4) marshalers of 7 kinds, also of the same type again, each of which marshals the next in one of 4 ways and returns its error as it is, wrapped or replaced: every level of the error names its type and method and holds what that method returned",
			SplitDepth: 3,
			Run: func(x *core.X) {
				max := 3
				if x.Thorough {
					max = 4
				}
				n := 1 + x.Choose("links", max)
				var v interface{}
				ls, vs := make([]*errLink, n), make([]interface{}, n)
				for i := 0; i < n; i++ {
					ls[i] = &errLink{next: v}
					k := x.Choose("kind", len(linkKinds))
					if i > 0 {
						ls[i].how = x.Choose("call", 4)
						ls[i].wrap = x.Choose("wrap", 3)
					}
					v = linkKinds[k].mk(ls[i])
					vs[i] = v
					ls[i].err = nil
					// the error of the call for this link
					var err error
					if i%2 == 0 {
						_, err = jettison.Marshal(v)
					} else {
						_, err = jettison.Append(nil, []interface{}{v})
					}
					e, ok := err.(*jettison.MarshalerError)
					if !ok {
						x.Failf("chain of %d: error %T %v, want a *MarshalerError", i+1, err, err)
					}
					t := reflect.TypeOf(v)
					if e.Err != ls[i].err {
						x.Failf("chain of %d %T: the error holds %T %v, the method returned %T %v", i+1, v, e.Err, e.Err, ls[i].err, ls[i].err)
					}
					if e.Type != t && !(t.Kind() == reflect.Ptr && e.Type == t.Elem()) {
						x.Failf("chain of %d: the error is of type %v, the method that failed of %v", i+1, e.Type, t)
					}
					if want := fmt.Sprintf("json: error calling %s for type %s: %s", linkKinds[k].name, e.Type, ls[i].err); e.Error() != want {
						x.Failf("chain of %d: error %q, want %q", i+1, e, want)
					}
					if errors.Unwrap(err) != ls[i].err {
						x.Failf("chain of %d: unwrapped to %v", i+1, errors.Unwrap(err))
					}
					x.Obs([]byte(err.Error()))
				}
			}},
	)

	// units of text, valid and not
	units := []string{"a", "<", "\"", "\n", "\x00", "\x7f", "é", "\u07ff", "\u0800", "€", "\u2028", "\u2029", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff",
		"\xed\xa0\xbd", "\xed\xb8\x80", "\xed\xbf\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80",
		"\x80", "\xbf", "\xc3", "\xe2", "\xe2\x80", "\xf0\x9f", "\xf0\x9f\x98", "\xfe", "\xff", "\xe2\x28\xa8", "\xe2\x80\x28", "\xef\xbb\xbf", "\xef\xbf\xbd"}
	unitDoc := fmt.Sprintf("every text of up to 4 of %d units - characters at the ends of the ranges of each length, overlong forms, halves of surrogate pairs, values out of range, lone and truncated bytes", len(units))
	text := func(x *core.X) string {
		s := ""
		for n := 1 + x.Choose("units", 4); n > 0; n-- {
			s += units[x.Choose("unit", len(units))]
		}
		return s
	}
	drive.Add("C02", &core.Scenario{Name: "units", SplitDepth: 2, Doc: unitDoc + ": strings, keys, texts, raw and other bytes, results of MarshalJSON: valid JSON and UTF-8, or an error",
		Run: func(x *core.X) {
			s := text(x)
			for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true, RawByteSlice: true}} {
				wellFormed(x, []interface{}{s, map[string]string{s: s}, []byte(s), textStr(s)}, o)
			}
			if s != "" {
				b, err := jettison.Marshal([]interface{}{json.RawMessage("\"" + s + "\""), rawMarshaler("[\"" + s + "\"]")})
				if err == nil && !json.Valid(b) {
					x.Failf("%q as raw JSON: %q", s, b)
				}
			}
		}})
	drive.Add("C05",
		&core.Scenario{Name: "units", SplitDepth: 2, Doc: unitDoc + ": under the 8 sets of escaping options, decoded again",
			Run: func(x *core.X) {
				s := text(x)
				escapes(x, s, true)
				x.Obs([]byte(s))
			}},
		&core.Scenario{Name: "long-names", SplitDepth: 2, Doc: "member names and map keys of every length to 130 (600) and around the powers of two and ten to 4096 (65536), with each of <, >, &, a letter of 2 to 4 bytes or none at the front, in the middle, at the end or all along, with and without NoHTMLEscaping",
			Run: func(x *core.X) {
				l := ladder(130, 1<<12)
				if x.Thorough {
					l = ladder(600, 1<<16)
				}
				n := l[x.Choose("length", len(l))]
				if n == 0 {
					x.Skip()
				}
				c := []string{"<", ">", "&", "é", "漢", "𝒜", "n"}[x.Choose("character", 7)]
				at := []int{0, n / 2, n - 1, -1}[x.Choose("place", 4)]
				s := ""
				if at < 0 {
					s = strings.Repeat(c, (n+len(c)-1)/len(c))
				} else {
					s = strings.Repeat("n", at) + c + strings.Repeat("n", n-1-at)
				}
				in := reflect.StructOf([]reflect.StructField{sf("A", intT, fmt.Sprintf("json:%q", s))})
				v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: in, Anonymous: true}, sf("B", in, ""), sf("C", intT, fmt.Sprintf("json:%q", s+"C,omitempty"))})).Elem()
				v.Field(2).SetInt(1)
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true}, {NoStringEscaping: true, NoHTMLEscaping: true}} {
					for _, w := range []interface{}{v.Interface(), v.Addr().Interface(), map[string]int{s: 1, s + "x": 2}} {
						nd, want := ref.Encode(w, o)
						if want != nil {
							x.Failf("MODEL: %v", want)
						}
						got, err := enc(w, o)
						sameBytes(x, fmt.Sprintf("%d bytes with %q at %d, %T %s", n, c, at, w, o), got, nd.Bytes(), err)
					}
				}
				x.Beat()
			}},
	)

	zeroSize := []reflect.Type{reflect.TypeOf(struct{}{}), reflect.TypeOf([0]int{}), reflect.TypeOf([0]string{}), reflect.TypeOf([2]struct{}{}), reflect.TypeOf(struct{ A struct{} }{}), reflect.TypeOf([1][0]byte{}), reflect.TypeOf([0]func(){}), intT, strT, anyT, reflect.TypeOf(uint8(0))}
	drive.Add("C13",
		&core.Scenario{Name: "array-sizes", Doc: fmt.Sprintf("arrays of length 0 to 4, 7 and 16 of %d types of elements, most of size zero, their structs, pointers, slices and maps, with omitempty: every ordered pair, after each other and as members of one struct", len(zeroSize)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				var ts []reflect.Type
				for _, e := range zeroSize {
					for _, n := range []int{0, 1, 2, 3, 4, 7, 16} {
						ts = append(ts, reflect.ArrayOf(n, e))
					}
					ts = append(ts, reflect.StructOf([]reflect.StructField{sf("Z", e, "")}), reflect.PtrTo(e), reflect.SliceOf(e), reflect.MapOf(strT, e), e)
				}
				a, b := ts[x.Choose("first", len(ts))], ts[x.Choose("second", len(ts))]
				for _, t := range []reflect.Type{a, b, a} {
					check(x, tagStruct([]string{`json:"a,omitempty"`}, reflect.Zero(t)).Interface(), nil)
				}
				s := tagStruct([]string{`json:"a,omitempty"`, `json:",omitempty"`, `json:",omitempty"`}, reflect.Zero(a), reflect.Zero(b), reflect.ValueOf(int8(1)))
				check(x, s.Interface(), nil)
				check(x, ptrTo(s), &ref.Opts{ByteArrayAsString: true})
			}},
	)

	for _, p := range []string{"C01", "C21"} {
		drive.Add(p, &core.Scenario{Name: "long-chains", Doc: fmt.Sprintf("%d kinds of chains without a cycle, of n links, for n around 1000, 5000, 10000, 20000, 50000, 100000 and the powers of two from 1024 to 2^16 (2^17): encoded whole (maps to 10001)", len(longChains)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				top := 1 << 16
				if x.Thorough {
					top = 1 << 17
				}
				l := edges(1<<10, top)
				for _, n := range []int{1000, 5000, 10000, 20000, 50000, 100000} {
					l = append(l, n-1, n, n+1)
				}
				n := l[x.Choose("length", len(l))]
				c := longChains[x.Choose("chain", len(longChains))]
				if n > 11000 && strings.Contains(c.name, "maps") {
					x.Skip() // the time to sort maps is the square of their depth
				}
				v, open, core, close := c.mk(n)
				want := []byte(strings.Repeat(open, n) + core + strings.Repeat(close, n))
				x.Beat()
				got, err := jettison.Marshal(v)
				sameBytes(x, fmt.Sprintf("%s, %d links", c.name, n), got, want, err)
				x.Beat()
				got, err = jettison.AppendOpts([]byte("p"), v, jettison.UnsortedMap())
				if err == nil {
					sameBytes(x, fmt.Sprintf("%s, %d links, appended", c.name, n), got, append([]byte("p"), want...), err)
				} else {
					x.Failf("%s, %d links: %v", c.name, n, err)
				}
				v = nil
				if n > 1<<15 {
					runtime.GC()
				}
			}})
	}

	drive.Add("C11",
		&core.Scenario{Name: "element-methods", Doc: fmt.Sprintf("slices, arrays, named ones, their pointers and slices and maps of them, of 0 to 4 elements of %d byte types - with each kind of marshaling method by value or pointer, with other methods, with methods of those names that have another signature - under 8 sets of options: as the model's", len(oddBytes)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				t := oddBytes[x.Choose("element", len(oddBytes))]
				n := x.Choose("length", 5)
				s := reflect.MakeSlice(reflect.SliceOf(t), n, n+1)
				a := reflect.New(reflect.ArrayOf(n, t)).Elem()
				for i := 0; i < n; i++ {
					s.Index(i).SetUint(uint64(i*60 + 'a'))
					a.Index(i).SetUint(uint64(i*60 + '<'))
				}
				v := []reflect.Value{s, a, reflect.Zero(s.Type())}[x.Choose("container", 3)]
				var o *ref.Opts
				if k := x.Choose("options", 8); k > 0 {
					o = &ref.Opts{RawByteSlice: k&1 != 0, ByteArrayAsString: k&2 != 0, NilSliceEmpty: k&4 != 0}
				}
				for _, p := range places {
					if w, ok := mkPlace(p, v); ok {
						check(x, w.Interface(), o)
					}
				}
				if n > 0 {
					check(x, []interface{}{s.Index(0).Interface(), s.Index(0).Addr().Interface(), mkMap(reflect.ValueOf("k"), s.Index(0)).Interface()}, o)
				}
			}},
	)

	drive.Add("C24",
		&core.Scenario{Name: "long-lines", Doc: "benchmark names, run names, further columns and titles of n bytes, for n around the powers of two and ten from 64 to 60000, in the first, second or last section; all lines are shorter than 64 KiB and are read",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := []int{60000}
				for _, n := range ladder(0, 60000) {
					if n >= 63 {
						l = append(l, n)
					}
				}
				n := l[x.Choose("length", len(l))]
				s := strings.Repeat("r", n)
				secs := []bpSection{}
				where := x.Choose("where", 4)
				at := x.Choose("section", 3)
				for i, u := range bpUnits[:3] {
					sec := bpSection{unit: u}
					for r := 0; r < 3; r++ {
						row := bpRow{bench: "B", run: fmt.Sprint("run", r), suffix: "-8", val: fmt.Sprint(i*10 + r)}
						switch {
						case where == 0 && r == at:
							row.bench = "B" + s
						case where == 1 && r == at:
							row.run = s
						case where == 2 && r == at:
							row.more = "," + s
						case where == 3 && r == at && i == 1:
							row.suffix = "-" + strings.Repeat("8", n)
						}
						sec.rows = append(sec.rows, row)
					}
					secs = append(secs, sec)
				}
				want, _ := bpWant(secs, [3]bool{})
				out, se, ok := bpRun(x, bpText(bpLines(secs)), [3]bool{})
				if !ok {
					x.Failf("line of about %d bytes: %s", n, se)
				}
				bpCompare(x, fmt.Sprintf("line of about %d bytes", n), out, want)
			}},
	)

	drive.Add("C09",
		&core.Scenario{Name: "clock-readings", Doc: "times with a clock reading, moved to every second month of 1900..2150 and to range ends of a clock reading, in 22 local zones, by value and pointer under 6 layouts and UnixTime; as those without",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var locs []*time.Location
				for _, z := range []string{"UTC", "Europe/Paris", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Africa/Monrovia", "Pacific/Apia", "America/St_Johns", "Europe/Dublin"} {
					l, err := time.LoadLocation(z)
					if err != nil {
						x.Failf("MODEL: %v", err)
					}
					locs = append(locs, l)
				}
				for _, o := range []int{0, 1, -1, 3600, -3600, 5*3600 + 1800, -12 * 3600, 14 * 3600, 59} {
					locs = append(locs, time.FixedZone("Local<", o))
				}
				loc := locs[x.Choose("zone", len(locs))]
				y := []int{1885, 1900, 1969, 1970, 2000, 2021, 2038, 2100, 2150, 2157}[x.Choose("year", 10)]
				old := time.Local
				time.Local = loc
				defer func() { time.Local = old }()
				now := time.Now()
				for m := time.Month(1); m <= 12; m++ {
					for _, ns := range []int{0, 1, 999999999, 120000000} {
						to := time.Date(y, m, 2+int(m)*2, int(m)*2-1, 4, 5, ns, time.UTC)
						// differences are limited to 292 years
						t := now.Add(to.Sub(now))
						if !t.Equal(to) {
							x.Failf("MODEL: %v, want %v", t, to)
						}
						plain := t.Round(0)
						for _, o := range []*ref.Opts{nil, {UnixTime: true}, {TimeLayout: time.RFC3339}, {TimeLayout: time.RFC850}, {TimeLayout: "MST -07:00:00 Z07 15:04"}, {TimeLayout: time.Stamp}} {
							want, err := ref.EncodeBytes(plain, o)
							if err != nil {
								x.Failf("MODEL: %v", err)
							}
							got, err2 := enc(t, o)
							sameBytes(x, fmt.Sprintf("%v %s", t, o), got, want, err2)
							got, err2 = enc(&t, o)
							sameBytes(x, fmt.Sprintf("pointer to %v %s", t, o), got, want, err2)
							got, err2 = enc(map[string]interface{}{"t": t}, o)
							sameBytes(x, fmt.Sprintf("%v in a map %s", t, o), got, []byte(`{"t":`+string(want)+"}"), err2)
						}
					}
				}
			}},
	)

	drive.Add("C16",
		&core.Scenario{Name: "failing-destinations", Doc: "appending 12 values that cannot be encoded - at once, after 10 bytes or after 6000, in methods, maps and sync.Maps - to slices of every length to 40 (300) and around the powers of two and ten to 2^17 (2^21), with 0 to 8000 bytes of spare capacity: the old content is there, in the result and in place",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(40, 1<<17)
				if x.Thorough {
					l = ladder(300, 1<<21)
				}
				n := l[x.Choose("length", len(l))]
				long := strings.Repeat("long \" text ", 500)
				bad := []interface{}{make(chan int), failJ{errBoom}, failA{errBoom}, failT{errBoom}, failC{errBoom}}
				vals := []interface{}{bad[0], []interface{}{1, "ten bytes", bad[0]}, []interface{}{long, math.NaN()}, map[string]interface{}{"a": 1, "b": bad[1]}, syncMapOf("a", bad[2]), json.RawMessage("{"), []interface{}{json.Number("1."), 1}, bad[1], bad[2], bad[4], struct {
					A string
					B interface{}
				}{long, bad[3]}, []map[failT]int{{failT{errBoom}: 1}}}
				v := vals[x.Choose("value", len(vals))]
				for _, spare := range []int{0, 1, 12, 100, 8000} {
					back := make([]byte, n+spare+16)
					for i := range back {
						back[i] = byte(i*7 + i>>8)
					}
					keep := append([]byte(nil), back...)
					for k := 0; k < 2; k++ {
						var got []byte
						var err error
						dst := back[: n : n+spare]
						if k == 0 {
							got, err = jettison.Append(dst, v)
						} else {
							got, err = jettison.AppendOpts(dst, v, jettison.NoHTMLEscaping(), jettison.UnsortedMap())
						}
						if err == nil {
							x.Failf("%T appended to %d bytes: no error", v, n)
						}
						if len(got) < n || !bytes.Equal(got[:n], keep[:n]) {
							x.Failf("%T appended to %d bytes with %d spare failed with %v: the destination is lost, %d bytes were returned", v, n, spare, err, len(got))
						}
						if !bytes.Equal(back[:n], keep[:n]) || !bytes.Equal(back[n+spare:], keep[n+spare:]) {
							x.Failf("%T appended to %d bytes with %d spare: the storage outside the result has changed", v, n, spare)
						}
						x.Obs([]byte(err.Error()))
					}
				}
				x.Beat()
			}},
	)
}
