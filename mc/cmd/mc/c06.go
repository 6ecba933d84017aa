package main

import (
	"encoding"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

type (
	kI8  int8
	kU64 uint64
	kStr string
	// a string kind with MarshalText is still a verbatim string
	kStrT string
	// an integer kind with MarshalText is text
	kIntT int
	// MarshalText on the pointer does not count for a value key
	kIntPT int
	kStT   struct{ A, B string }
	kPtrT  struct{ s string }
	kArrT  [2]byte
	kBig   [40]int64
	kF64T  float64
	kBoolT bool
	kChanT chan int
)

func (k kStrT) MarshalText() ([]byte, error)   { return []byte("T" + string(k)), nil }
func (k kIntT) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("t%d<", int(k))), nil }
func (k *kIntPT) MarshalText() ([]byte, error) { return []byte("pt"), nil }
func (k kStT) MarshalText() ([]byte, error)    { return []byte(k.A + k.B), nil }
func (k *kPtrT) MarshalText() ([]byte, error)  { return []byte(k.s), nil }
func (k kArrT) MarshalText() ([]byte, error)   { return k[:], nil }
func (k kBig) MarshalText() ([]byte, error)    { return []byte(fmt.Sprint(k[39], k[0])), nil }
func (k kF64T) MarshalText() ([]byte, error)   { return []byte(fmt.Sprint(float64(k))), nil }
func (k kBoolT) MarshalText() ([]byte, error)  { return []byte(fmt.Sprint("b", bool(k))), nil }

var textTT = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()

type textStringer interface {
	encoding.TextMarshaler
	Extra() int
}

func (k kStT) Extra() int { return 1 }

// keySets are alphabets of keys, each of one type.
var keySets = []struct {
	t    reflect.Type
	keys []interface{}
}{
	{strT, []interface{}{"a", "", "ab", "a\"", "<", "\xff", "é", "Z"}},
	{reflect.TypeOf(kStr("")), []interface{}{kStr("a<"), kStr("a"), kStr("a;"), kStr("A"), kStr("\u2028")}},
	{reflect.TypeOf(kStrT("")), []interface{}{kStrT("a"), kStrT(""), kStrT("T"), kStrT("\n")}},
	{i8T, []interface{}{int8(-1), int8(0), int8(9), int8(10), int8(100), int8(-128)}},
	{reflect.TypeOf(kI8(0)), []interface{}{kI8(-1), kI8(0), kI8(127)}},
	{reflect.TypeOf(int16(0)), []interface{}{int16(-32768), int16(2), int16(10)}},
	{reflect.TypeOf(int32(0)), []interface{}{int32(-1), int32(2), int32(math.MinInt32)}},
	{reflect.TypeOf(int64(0)), []interface{}{int64(math.MinInt64), int64(0), int64(math.MaxInt64), int64(-9), int64(1) << 40}},
	{intT, []interface{}{math.MinInt64, 0, 5, 50, 500, 49}},
	{reflect.TypeOf(uint8(0)), []interface{}{uint8(255), uint8(2), uint8(10)}},
	{reflect.TypeOf(uint16(0)), []interface{}{uint16(65535), uint16(9), uint16(10)}},
	{reflect.TypeOf(uint32(0)), []interface{}{uint32(math.MaxUint32), uint32(0), uint32(7)}},
	{reflect.TypeOf(uint64(0)), []interface{}{uint64(math.MaxUint64), uint64(1 << 63), uint64(3)}},
	{reflect.TypeOf(kU64(0)), []interface{}{kU64(math.MaxUint64), kU64(0)}},
	{reflect.TypeOf(uint(0)), []interface{}{uint(math.MaxUint64), uint(0), uint(20)}},
	{reflect.TypeOf(uintptr(0)), []interface{}{uintptr(1), uintptr(0), uintptr(10)}},
	{reflect.TypeOf(kIntT(0)), []interface{}{kIntT(1), kIntT(10), kIntT(-1), kIntT(2)}},
	{reflect.TypeOf(kIntPT(0)), []interface{}{kIntPT(1), kIntPT(10), kIntPT(2)}},
	{reflect.TypeOf(kStT{}), []interface{}{kStT{"a", "b"}, kStT{"a", ""}, kStT{"", ""}, kStT{"<", "\""}}},
	{reflect.TypeOf((*kPtrT)(nil)), []interface{}{&kPtrT{"p"}, &kPtrT{"q<"}, (*kPtrT)(nil), &kPtrT{"pp"}}},
	{reflect.TypeOf((*kStT)(nil)), []interface{}{&kStT{"p", ""}, (*kStT)(nil), &kStT{"", "\xff"}}},
	{reflect.TypeOf(kArrT{}), []interface{}{kArrT{'a', 'b'}, kArrT{0, '<'}, kArrT{0xff, 0xe2}}},
	{reflect.TypeOf(kBig{}), []interface{}{kBig{39: 5}, kBig{0: 1}, kBig{0: 10, 39: 7}}},
	{reflect.TypeOf(kF64T(0)), []interface{}{kF64T(1.5), kF64T(-1), kF64T(10)}},
	{reflect.TypeOf(kBoolT(false)), []interface{}{kBoolT(true), kBoolT(false)}},
	{textTT, []interface{}{kIntT(1), kStT{"x", "y"}, kStrT("s"), &kPtrT{"p"}, kArrT{'z', 'z'}}},
	{reflect.TypeOf((*textStringer)(nil)).Elem(), []interface{}{kStT{"x", "y"}, kStT{"", ""}, &kStT{"k", ""}}},
	{reflect.TypeOf(time.Duration(0)), []interface{}{time.Second, time.Duration(0), -time.Hour}},
	{reflect.TypeOf(time.Time{}), []interface{}{time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC), time.Date(2019, 1, 2, 3, 4, 5, 0, time.UTC)}},
}

func elemValue(i int, t reflect.Type) reflect.Value { return kit.FillN(t, i+1) }

func init() {
	drive.Describe("C06", "All subsets of key alphabets of every usable key type; maps of every size and insertion history of a ladder; the iteration order the runtime picks is observed and must not matter.")
	sizes := []reflect.Type{reflect.TypeOf(struct{}{}), i8T, intT, strT, reflect.TypeOf([3]int64{}), reflect.TypeOf([17]int64{}), reflect.TypeOf([]byte{}), reflect.TypeOf(map[string]int{}), anyT, reflect.TypeOf((*int)(nil))}
	drive.Add("C06",
		&core.Scenario{Name: "key-types", Doc: "29 key types x all subsets of 2-8 keys x 10 types of values x 8 sets of options",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ks := keySets[x.Choose("keys", len(keySets))]
				sub := x.Choose("subset", 1<<uint(len(ks.keys)))
				vt := sizes[x.Choose("value", len(sizes))]
				m := reflect.MakeMap(reflect.MapOf(ks.t, vt))
				for i, k := range ks.keys {
					if sub>>uint(i)&1 == 1 {
						kv := reflect.New(ks.t).Elem()
						kv.Set(reflect.ValueOf(k))
						m.SetMapIndex(kv, elemValue(i, vt))
					}
				}
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}, {NoHTMLEscaping: true}, {NoStringEscaping: true}, {NoStringEscaping: true, UnsortedMap: true}, {NilMapEmpty: true, NoUTF8Coercion: true}} {
					check(x, m.Interface(), o)
				}
				if ks.t != reflect.TypeOf(time.Time{}) && ks.t != reflect.TypeOf(time.Duration(0)) {
					checkStd(x, m.Interface())
				}
				check(x, mkStruct(m, `json:"m,omitempty"`, "a", "v", "w").Interface(), nil)
				check(x, mkSlice(m.Type(), m, reflect.Zero(m.Type()), m).Interface(), &ref.Opts{NilMapEmpty: true})
			}},
		&core.Scenario{Name: "sizes", Doc: "maps of every size to 70 (270) and around powers of two to 4096, with 6 key types and 10 types of values, built by 5 histories (inserted, presized, partly deleted, refilled, in the middle of growing)",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(70, 1<<10)
				if x.Thorough {
					l = ladder(270, 1<<12)
				}
				n := l[x.Choose("size", len(l))]
				hist := x.Choose("history", 5)
				kt := []reflect.Type{i8T, intT, strT, reflect.TypeOf(uint32(0)), reflect.TypeOf(kBig{}), textTT}[x.Choose("key", 6)]
				if kt == i8T && n > 256 || n > 300 && kt == reflect.TypeOf(kBig{}) && !x.Thorough {
					x.Skip()
				}
				key := func(i int) reflect.Value {
					switch kt.Kind() {
					case reflect.Int8:
						return reflect.ValueOf(int8(i * 7))
					case reflect.Int:
						return reflect.ValueOf(i*7919 - 50)
					case reflect.Uint32:
						return reflect.ValueOf(uint32(i) * 2654435761)
					case reflect.String:
						return reflect.ValueOf(strings.Repeat("k", i%3) + fmt.Sprint(i))
					case reflect.Array:
						return reflect.ValueOf(kBig{int64(i), 39: int64(i % 3)})
					}
					v := reflect.New(kt).Elem()
					v.Set(reflect.ValueOf(kIntT(i)))
					return v
				}
				for _, vt := range sizes {
					if !x.Thorough && (n+len(vt.String()))%3 != 0 && n > 20 {
						continue
					}
					mt := reflect.MapOf(kt, vt)
					m := reflect.MakeMap(mt)
					if hist == 1 {
						m = reflect.MakeMapWithSize(mt, n)
					}
					for i := 0; i < n; i++ {
						m.SetMapIndex(key(i), elemValue(i, vt))
					}
					switch hist {
					case 2: // delete two thirds
						for i := 0; i < n; i++ {
							if i%3 != 0 {
								m.SetMapIndex(key(i), reflect.Value{})
							}
						}
					case 3: // delete, then insert again
						for i := 0; i < n; i += 2 {
							m.SetMapIndex(key(i), reflect.Value{})
						}
						for i := n - 1; i >= 0; i -= 3 {
							m.SetMapIndex(key(i), elemValue(i+1, vt))
						}
					case 4: // one more entry starts the growth at full load
						if kt == i8T && n >= 256 {
							continue
						}
						m.SetMapIndex(key(n), elemValue(n, vt))
						m.SetMapIndex(key(0), reflect.Value{})
					}
					check(x, m.Interface(), nil)
					if n < 100 || x.Thorough && n < 300 {
						check(x, m.Interface(), &ref.Opts{UnsortedMap: true})
					}
				}
				x.Beat()
			}},
		&core.Scenario{Name: "nested", Doc: "maps of maps of maps: all subsets of 3 keys at the outer and 2 at the inner levels, sorted and unsorted, nil inner maps",
			SplitDepth: 2,
			Run: func(x *core.X) {
				inner := func(i int) map[int8]map[string]int {
					m := map[int8]map[string]int{}
					switch x.Choose("inner", 5) {
					case 0:
						return nil
					case 2:
						m[10] = map[string]int{"<": i}
					case 3:
						m[10], m[9] = nil, map[string]int{"b": i, "a": i, "": 3}
					case 4:
						m[10], m[9], m[-1] = map[string]int{"b": i}, map[string]int{}, map[string]int{"z": 1, "y": 2}
					}
					return m
				}
				m := map[string]map[int8]map[string]int{}
				for i, k := range []string{"b", "a", "ab"} {
					if x.Bool("entry") {
						m[k] = inner(i)
					}
				}
				check(x, m, nil)
				check(x, m, &ref.Opts{UnsortedMap: true})
				check(x, &m, &ref.Opts{NilMapEmpty: true})
				checkStd(x, m)
			}},
		&core.Scenario{Name: "orders", Doc: "maps of 1 to 8 entries, encoded until every iteration order the runtime can pick (8 rotations) was observed through the calls of a marshaler; sorted output, and each unsorted output, complete in every one",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 1 + x.Choose("entries", 8)
				sorted := x.Bool("sorted")
				vt := kit.Lookup("Int", "NVNN").T
				m := reflect.MakeMap(reflect.MapOf(strT, vt))
				for i := 0; i < n; i++ {
					m.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", (i*5)%8)), kit.FillN(vt, i))
				}
				seen := map[string]bool{}
				want := n
				for i := 0; i < 2000 && len(seen) < want; i++ {
					o := &ref.Opts{UnsortedMap: !sorted}
					var calls []kit.Call
					calls = withLog(func() {
						b, err := enc(m.Interface(), o)
						kit.Logging = false
						nd, _ := ref.Encode(m.Interface(), o)
						judge(x, m.Interface(), o, b, err, nd, nil)
					})
					seen[logString(calls, false)] = true
				}
				if len(seen) < want {
					x.Notef("only %d of %d orders observed", len(seen), want)
				}
			}},
		&core.Scenario{Name: "reentrant", Doc: "maps whose keys or values encode the same map, another map or a sync.Map from within their methods, or fail or panic, at each entry, with sorted and unsorted options inside and outside, followed by further encodings",
			SplitDepth: 2,
			Run:        func(x *core.X) { reentrantMap(x, false) }},
		&core.Scenario{Name: "unusable-keys", Doc: "map types with unusable keys, nil, empty and filled, at every position",
			SplitDepth: 1,
			Run: func(x *core.X) {
				ms := []interface{}{map[bool]int{true: 1}, map[float64]int{1: 1}, map[complex128]int{1: 1}, map[[1]int]int{{1}: 1}, map[struct{}]int{{}: 1}, map[interface{}]int{"a": 1}, map[*int]int{nil: 1},
					map[kChanT]int{nil: 1}, map[kPtrT]int{{"a"}: 1}, map[fmt.Stringer]int{nil: 1}, map[bool]int(nil), map[float32]int{}}
				m := reflect.ValueOf(ms[x.Choose("map", len(ms))])
				w, _ := at(x, m, places)
				check(x, w, nil)
				check(x, w, &ref.Opts{NilMapEmpty: true, UnsortedMap: true})
			}},
	)

	drive.Add("C06", &core.Scenario{Name: "equal-keys", Doc: "maps with 2 to 4 distinct keys of which all, some or none are encoded alike (marshaled text, interfaces holding different types), sorted and unsorted: no entry is lost",
		SplitDepth: 1,
		Run: func(x *core.X) {
			sets := []struct {
				t    reflect.Type
				keys []interface{}
			}{
				{reflect.TypeOf(kStT{}), []interface{}{kStT{"ab", ""}, kStT{"a", "b"}, kStT{"", "ab"}, kStT{"a", ""}}},
				{reflect.TypeOf((*kPtrT)(nil)), []interface{}{&kPtrT{"ab"}, &kPtrT{"ab"}, &kPtrT{""}, (*kPtrT)(nil)}},
				{textTT, []interface{}{kStT{"T", "s"}, &kPtrT{"Ts"}, &kStT{"", "Ts"}, kArrT{'T', 's'}}},
				{strT, []interface{}{"\xff", "\ufffd", "\xfe", "a"}},
			}
			s := sets[x.Choose("keys", len(sets))]
			sub := x.Choose("subset", 16)
			for _, vt := range []reflect.Type{i8T, strT, anyT, reflect.TypeOf(struct{}{})} {
				m := reflect.MakeMap(reflect.MapOf(s.t, vt))
				for i, k := range s.keys {
					if sub>>uint(i)&1 == 1 {
						kv := reflect.New(s.t).Elem()
						kv.Set(reflect.ValueOf(k))
						m.SetMapIndex(kv, elemValue(i, vt))
					}
				}
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}, {NoUTF8Coercion: true}} {
					check(x, m.Interface(), o)
					check(x, mkStruct(m, `json:"m,omitempty"`, "a", "v", "w").Interface(), o)
				}
			}
		}})

	drive.Describe("C07", "The Go map with the same entries is the oracle where there is one, the reference model otherwise; operation histories of the sync.Map are enumerated.")
	drive.Add("C07",
		&core.Scenario{Name: "same-as-map", Doc: "29 key types x all subsets of keys x 10 types of values: the sync.Map and the Go map with the same entries encode equally under 6 sets of options",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ks := keySets[x.Choose("keys", len(keySets))]
				sub := x.Choose("subset", 1<<uint(len(ks.keys)))
				vt := sizes[x.Choose("value", len(sizes))]
				m := reflect.MakeMap(reflect.MapOf(ks.t, vt))
				sm := new(sync.Map)
				for i, k := range ks.keys {
					if ks.t.Kind() == reflect.Interface && reflect.TypeOf(k).Kind() == reflect.String {
						continue // a string for one, a TextMarshaler for the other
					}
					if sub>>uint(i)&1 == 1 {
						kv := reflect.New(ks.t).Elem()
						kv.Set(reflect.ValueOf(k))
						v := elemValue(i, vt)
						m.SetMapIndex(kv, v)
						sm.Store(k, v.Interface())
					}
				}
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}, {NoHTMLEscaping: true}, {NoStringEscaping: true}, {NoStringEscaping: true, UnsortedMap: true}, {NilMapEmpty: true, NoUTF8Coercion: true},
					{HasDur: true, Dur: jettison.DurationString, TimeLayout: time.RFC850}, {UnixTime: true, HasDur: true, Dur: jettison.DurationMinutes}} {
					b1, e1 := enc(m.Interface(), o)
					b2, e2 := enc(sm, o)
					same := string(b1) == string(b2)
					if o != nil && o.UnsortedMap {
						nd, _ := ref.Encode(m.Interface(), o)
						same = nd.Match(b1) && nd.Match(b2)
						b1 = nil
					}
					if (e1 != nil) != (e2 != nil) || !same {
						x.Failf("%v %s: map %q, %v; sync.Map %q, %v", m, o, b1, e1, b2, e2)
					}
					x.Obs(b1)
				}
				check(x, sm, nil)
			}},
		&core.Scenario{Name: "histories", Doc: "every sequence of up to 4 (6) operations (Store, Delete, Load, LoadOrStore, Swap, Range; 3 keys) on a sync.Map, encoded after each",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 4
				if x.Thorough {
					n = 6
				}
				sm := new(sync.Map)
				model := map[string]int{}
				keys := []string{"b", "a<", ""}
				for i := 0; i < n; i++ {
					op := x.Choose("op", 12)
					if op == 11 {
						break
					}
					k := keys[op%3]
					switch {
					case op < 3:
						sm.Store(k, i)
						model[k] = i
					case op < 6:
						sm.Delete(k)
						delete(model, k)
					case op < 9:
						sm.LoadOrStore(k, i)
						if _, ok := model[k]; !ok {
							model[k] = i
						}
					case op == 9:
						for j := 0; j < 5; j++ {
							sm.Load("b") // misses promote the dirty map
						}
					case op == 10:
						sm.Range(func(k, v interface{}) bool { return true })
					}
					want, _ := jettison.Marshal(model)
					got, err := jettison.Marshal(sm)
					if err != nil || string(got) != string(want) {
						x.Failf("sync.Map with %v: got %q, %v; want %q", model, got, err, want)
					}
					got, err = jettison.MarshalOpts(sm, jettison.UnsortedMap())
					nd, _ := ref.Encode(model, &ref.Opts{UnsortedMap: true})
					if err != nil || !nd.Match(got) {
						x.Failf("unsorted sync.Map with %v: got %q, %v", model, got, err)
					}
					x.Obs(got)
				}
			}},
		&core.Scenario{Name: "equal-keys", Doc: "sync.Maps with every subset of 10 keys of different types that share 3 encodings, and values of growing length, sorted and unsorted, on its own and as a member: no entry is lost",
			SplitDepth: 1,
			Run: func(x *core.X) {
				keys := []interface{}{"1", kStr("1"), 1, int8(1), uintptr(1), &kPtrT{"1"}, &kPtrT{"1"}, kStT{"", "1"}, "T1", kStrT("T1")}
				sub := x.Choose("subset", 1<<uint(len(keys)))
				sm := new(sync.Map)
				for i, k := range keys {
					if sub>>uint(i)&1 == 1 {
						sm.Store(k, strings.Repeat("v", i%4))
					}
				}
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}} {
					check(x, sm, o)
					check(x, []interface{}{sm, map[string]interface{}{"m": sm}}, o)
				}
			}},
		&core.Scenario{Name: "mixed-keys", Doc: "all sets of up to 3 keys out of 26 of mixed types, unusable and nil ones among them, with nil and other values, sorted and unsorted",
			SplitDepth: 2,
			Run: func(x *core.X) {
				keys := []interface{}{"a", nil, 1, int8(-1), uint64(7), kStr("b"), kStrT("c"), kIntT(2), kIntPT(3), kStT{"x", "y"}, &kPtrT{"q"}, (*kPtrT)(nil), true, 1.5, struct{}{}, [1]int{1}, complex(1, 1),
					(*int)(nil), kPtrT{"v"}, make(chan int), kArrT{'m', 'n'}, time.Minute, time.Unix(0, 0).UTC(), kF64T(2), uintptr(4), kBoolT(true)}
				vals := []interface{}{1, nil, "s<", []interface{}{nil}, (*int)(nil), map[string]int(nil)}
				sm := new(sync.Map)
				n := 1 + x.Choose("entries", 3)
				first := -1
				for i := 0; i < n; i++ {
					k := x.Choose("key", len(keys))
					if k <= first {
						x.Skip()
					}
					first = k
					v := vals[(k+i)%len(vals)]
					if n < 2 || x.Thorough && n < 3 {
						v = vals[x.Choose("value", len(vals))]
					}
					sm.Store(keys[k], v)
				}
				check(x, sm, nil)
				check(x, sm, &ref.Opts{UnsortedMap: true})
			}},
		&core.Scenario{Name: "places", Doc: "a sync.Map with 0 to 2 entries, nested ones among them, at 14 positions, under each of the 11 flags",
			SplitDepth: 2,
			Run: func(x *core.X) {
				sm := syncMapOf()
				if n := x.Choose("entries", 4); n > 0 {
					sm = syncMapOf([]interface{}{"k<", 1, 2, "v<", "t", time.Second, "n", syncMapOf("x", []byte{1}, 3, [2]byte{'a', 'b'}, "m", map[string]int(nil), "s", []int(nil), "time", time.Unix(1, 0).UTC())}[:2*(n*2-2)+0]...)
				}
				type S struct {
					A int8
					M sync.Map
					P *sync.Map
					C string
				}
				type E struct {
					*S
					M2 *sync.Map `json:"m2,omitempty"`
				}
				mk := func() *S {
					s := &S{A: 1, P: sm, C: "z"}
					sm.Range(func(k, v interface{}) bool { s.M.Store(k, v); return true })
					return s
				}
				var w interface{}
				switch x.Choose("place", 12) {
				case 0:
					w = sm
				case 1:
					w = &sm
				case 2:
					w = []*sync.Map{sm, nil, sm}
				case 3:
					w = []interface{}{sm, 1}
				case 4:
					w = map[string]*sync.Map{"a": sm}
				case 5:
					w = mk()
				case 6:
					w = []*S{mk()}
				case 7:
					w = &E{S: mk(), M2: sm}
				case 8:
					w = E{M2: sm}
				case 9:
					w = []sync.Map{{}, {}}
				case 10:
					w = &[1]sync.Map{}
				case 11:
					w = syncMapOf("in", sm, "nil", (*sync.Map)(nil))
				}
				f := x.Choose("flag", 12)
				o := &ref.Opts{HasDur: true, Dur: jettison.DurationString}
				if f > 0 {
					o.SetFlags(1 << uint(f-1))
				}
				check(x, w, o)
			}},
		&core.Scenario{Name: "reentrant", Doc: "sync.Maps whose values encode the same or another map from within their methods, fail or panic, at each entry, followed by further encodings",
			SplitDepth: 2,
			Run:        func(x *core.X) { reentrantMap(x, true) }},
	)
}

var errBoom = errors.New("boom")

// reentrantMap encodes a map whose methods interfere.
func reentrantMap(x *core.X, syncM bool) {
	vi := kit.Lookup("Int", []string{"NVNN", "NNVN", "NNNV", "VNNN"}[x.Choose("value", 4)])
	ki := kit.Lookup("Int", []string{"NNNN", "NNNV"}[x.Choose("key", 2)])
	n := 1 + x.Choose("entries", 3)
	unsorted := x.Bool("unsorted")
	act := x.Choose("action", 6)
	when := x.Choose("call", n)
	inner := x.Bool("inner unsorted")
	m := reflect.MakeMap(reflect.MapOf(ki.T, vi.T))
	sm := new(sync.Map)
	for i := 0; i < n; i++ {
		k, v := kit.FillN(ki.T, i*5), kit.FillN(vi.T, i)
		m.SetMapIndex(k, v)
		sm.Store(k.Interface(), v.Interface())
	}
	v := m.Interface()
	if syncM {
		v = sm
	}
	o := &ref.Opts{UnsortedMap: unsorted}
	clean := func(o *ref.Opts) *ref.Node {
		h := kit.Hook
		kit.Hook = nil
		defer func() { kit.Hook = h }()
		n, _ := ref.Encode(v, o)
		return n
	}
	want := clean(o)
	calls := 0
	var wantErr error
	kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
		calls++
		if calls-1 != when {
			return out, nil
		}
		h := kit.Hook
		kit.Hook = nil
		defer func() { kit.Hook = h }()
		o2 := &ref.Opts{UnsortedMap: inner, NoHTMLEscaping: true}
		switch act {
		case 1, 2:
			var w interface{} = v
			if act == 2 {
				w = map[string]interface{}{"x": []int{1}, "a<": map[int]string{5: "five", 4: "four"}}
			}
			nd, _ := ref.Encode(w, o2)
			b, err := enc(w, o2)
			judge(x, w, o2, b, err, nd, nil)
		case 3:
			wantErr = errBoom
			return nil, errBoom
		case 4:
			wantErr = errBoom
			panic(errBoom)
		case 5: // an inner encoding that fails
			_, err := enc(map[string]interface{}{"a": 1, "b": func() {}}, o2)
			if err == nil {
				x.Failf("inner encoding of a function succeeded")
			}
		}
		return out, nil
	}
	defer func() { kit.Hook = nil }()
	var (
		b   []byte
		err error
		pan interface{}
	)
	func() {
		defer func() { pan = recover() }()
		b, err = enc(v, o)
	}()
	if pan != nil && pan != interface{}(errBoom) {
		panic(pan)
	}
	kit.Hook = nil
	if wantErr != nil {
		if act == 4 && pan == nil || act == 3 && !errors.Is(err, errBoom) {
			x.Failf("%s: got %q, %v; the method failed", describe(v), b, err)
		}
	} else if err != nil || !want.Match(b) {
		x.Failf("%s %s: got %q, %v; want %q", describe(v), o, b, err, want.Bytes())
	}
	x.Obs(b)
	// the next calls are unaffected
	for _, w := range []interface{}{v, map[string]int{"z": 1, "a": 2}, sm} {
		check(x, w, nil)
		check(x, w, &ref.Opts{UnsortedMap: true})
	}
}
