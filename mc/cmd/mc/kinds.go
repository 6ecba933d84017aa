package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
)

// Types declared from the ones that are encoded in a special way, from
// pointers to them, and from what contains them.
type (
	dkTime    time.Time
	dkPTime   *time.Time
	dkPPTime  **time.Time
	dkTimes   []time.Time
	dkTimeArr [1]time.Time
	dkTimeMap map[string]time.Time
	dkTimeKey map[time.Time]*time.Time
	dkETime   struct{ time.Time }
	dkEPTime  struct{ *time.Time }
	dkNTime   struct {
		time.Time
		N int
	}
	dkITime interface {
		Unix() int64
		Format(string) string
	}
	dkTimeAlias = time.Time

	dkDur    time.Duration
	dkPDur   *time.Duration
	dkPPDur  **time.Duration
	dkDurs   []time.Duration
	dkDurArr [1]time.Duration
	dkDurMap map[string]time.Duration
	dkDurKey map[time.Duration]*time.Duration
	dkEDur   struct{ time.Duration }
	dkEPDur  struct{ *time.Duration }
	dkIDur   interface{ Seconds() float64 }

	dkNum    json.Number
	dkPNum   *json.Number
	dkPPNum  **json.Number
	dkNums   []json.Number
	dkNumArr [1]json.Number
	dkNumMap map[string]json.Number
	dkNumKey map[json.Number]*json.Number
	dkENum   struct{ json.Number }
	dkEPNum  struct{ *json.Number }
	dkINum   interface{ Int64() (int64, error) }

	dkRaw    json.RawMessage
	dkPRaw   *json.RawMessage
	dkPPRaw  **json.RawMessage
	dkRaws   []json.RawMessage
	dkRawArr [1]json.RawMessage
	dkRawMap map[string]json.RawMessage
	dkERaw   struct{ json.RawMessage }
	dkEPRaw  struct{ *json.RawMessage }
	dkNRaw   struct {
		json.RawMessage
		N int
	}
	dkIRaw interface{ MarshalJSON() ([]byte, error) }

	dkPSync   *sync.Map
	dkPPSync  **sync.Map
	dkSyncs   []*sync.Map
	dkSyncArr [1]*sync.Map
	dkSyncMap map[string]*sync.Map
	dkEPSync  struct{ *sync.Map }
	dkISync   interface {
		Range(func(k, v interface{}) bool)
	}

	dkBytes    []byte
	dkPBytes   *[]byte
	dkPArr     *[3]byte
	dkArr      [3]byte
	dkByte     byte
	dkOfByte   []dkByte
	dkArrByte  [3]dkByte
	dkByteMap  map[string][3]byte
	dkEBytes   struct{ dkBytes }
	dkEArr     struct{ DkArr }
	DkArr      [3]byte
	DkBytes    []byte
	dkEXBytes  struct{ DkBytes }
	dkEPXBytes struct{ *DkBytes }
)

// derived are the values for each property, and the options that matter.
var derived = map[string]struct {
	mk   func() []interface{}
	opts []*ref.Opts
}{
	"C09": {func() []interface{} {
		t := time.Date(2024, 2, 29, 23, 59, 1, 20300000, time.FixedZone("a<b", 5400))
		p := &t
		var i dkITime = t
		var ip dkITime = p
		return []interface{}{dkTime(t), dkPTime(p), dkPPTime(&p), dkTimes{t, t}, dkTimeArr{t}, dkTimeMap{"k": t}, dkTimeKey{t: p}, dkETime{t}, dkEPTime{p}, dkNTime{t, 1}, &i, &ip, dkTimeAlias(t),
			dkPTime(nil), dkPPTime(nil), dkTimes(nil), dkTimeMap(nil), new(dkITime), []dkPTime{p, nil}, map[string]dkPTime{"a": p, "b": nil}, [1]dkPTime{p}, []dkPPTime{&p}}
	}, []*ref.Opts{nil, {UnixTime: true}, {TimeLayout: time.RFC3339}, {TimeLayout: "Jan 2 <MST>"}}},
	"C10": {func() []interface{} {
		d := 90*time.Minute + 1234567
		p := &d
		var i dkIDur = d
		var ip dkIDur = p
		return []interface{}{dkDur(d), dkPDur(p), dkPPDur(&p), dkDurs{d, -d}, dkDurArr{d}, dkDurMap{"k": d}, dkDurKey{d: p}, dkEDur{d}, dkEPDur{p}, &i, &ip,
			dkPDur(nil), dkPPDur(nil), dkDurs(nil), new(dkIDur), dkEPDur{}, []dkPDur{p, nil}, map[string]dkPDur{"a": p, "b": nil}, [1]dkPDur{p}, map[dkDur]dkPDur{dkDur(d): p}}
	}, durOpts()},
	"C08": {func() []interface{} {
		n := json.Number("-12.5e+3")
		p := &n
		var i dkINum = n
		bad := json.Number("1<")
		return []interface{}{dkNum(n), dkPNum(p), dkPPNum(&p), dkNums{n, ""}, dkNumArr{n}, dkNumMap{"k": n}, dkNumKey{n: p}, dkENum{n}, dkEPNum{p}, &i,
			dkNum("1<"), dkPNum(&bad), dkNums{bad}, dkENum{bad}, dkNumKey{bad: p}, dkNumKey{n: &bad}, dkPNum(nil), dkEPNum{}, []dkPNum{p, nil}, map[dkNum]dkPNum{"a": p, "b<": nil}, [1]dkPNum{p}, [1]dkPNum{&bad}}
	}, []*ref.Opts{nil, {NoNumberValidation: true}, {NoStringEscaping: true}}},
	"C12": {func() []interface{} {
		r := json.RawMessage(` {"a<": [1 , "x y"]}`)
		p := &r
		bad := json.RawMessage(`{"a`)
		var i dkIRaw = r
		var ip dkIRaw = p
		return []interface{}{dkRaw(r), dkPRaw(p), dkPPRaw(&p), dkRaws{r, nil}, dkRawArr{r}, dkRawMap{"k": r}, dkERaw{r}, dkEPRaw{p}, dkNRaw{r, 1}, &i, &ip,
			dkRaw(bad), dkPRaw(&bad), dkRaws{bad}, dkRawArr{bad}, dkERaw{bad}, dkEPRaw{&bad}, dkNRaw{bad, 1}, dkPRaw(nil), dkERaw{}, new(dkIRaw), []dkPRaw{p, nil}, map[string]dkPRaw{"a": p}, [1]dkPRaw{p}, [1]dkPRaw{&bad}}
	}, []*ref.Opts{nil, {NoHTMLEscaping: true}, {RawByteSlice: true}, {NilSliceEmpty: true}}},
	"C07": {func() []interface{} {
		p := syncMapOf("b<", 1, 3, []int(nil), "a", nil)
		var i dkISync = p
		return []interface{}{dkPSync(p), dkPPSync(&p), dkSyncs{p, nil}, dkSyncArr{p}, dkSyncMap{"k": p}, dkEPSync{p}, &i, dkPSync(nil), dkPPSync(nil), dkEPSync{}, new(dkISync),
			[]dkPSync{p, nil}, map[string]dkPSync{"a": p, "b": nil}, [1]dkPSync{p}, syncMapOf("k", dkPSync(p)), []dkPPSync{&p}}
	}, []*ref.Opts{nil, {NilSliceEmpty: true, NoHTMLEscaping: true}, {HasDeny: true, Deny: []string{"a"}}}},
	"C11": {func() []interface{} {
		b := []byte("x<\xff")
		a := [3]byte{'x', '<', 0xff}
		db := DkBytes(b)
		return []interface{}{dkBytes(b), dkPBytes(&b), dkPArr(&a), dkArr(a), dkOfByte{'x', '<', 0xff}, dkArrByte{'x', '<', 0xff}, dkByteMap{"k": a}, dkEBytes{b}, dkEArr{a}, dkEXBytes{b}, dkEPXBytes{&db}, dkEPXBytes{},
			dkPBytes(nil), dkPArr(nil), []dkPArr{&a, nil}, []dkPBytes{&b, nil}, map[dkByte]dkPArr{7: &a}, [1]dkPArr{&a}, []dkBytes{b, nil, {}}, [2]dkArr{a, {}}, []dkByte{1}, [1]dkByte{'<'}, map[string]dkByte{"k": 1}}
	}, []*ref.Opts{nil, {RawByteSlice: true}, {ByteArrayAsString: true}, {RawByteSlice: true, ByteArrayAsString: true, NoHTMLEscaping: true}, {NilSliceEmpty: true}}},
}

func durOpts() []*ref.Opts {
	l := []*ref.Opts{nil}
	for _, f := range durFormats {
		l = append(l, &ref.Opts{HasDur: true, Dur: f})
	}
	return l
}

// Kinds that JSON has no form for, with and without methods.
type (
	akChan   chan int
	akFunc   func()
	akPtr    unsafe.Pointer
	akCplx   complex128
	akJChan  chan int
	akJFunc  func()
	akTChan  chan int
	akTFunc  func()
	akJCplx  complex64
	akPJChan chan int
	akPJFunc func()
	akAFunc  func()
	akCChan  chan int
	akJMap   map[string]int
	akJSlice []int
	akJPtr   struct{ p *int }
	akJIface struct{ i interface{} }
	akJInt   int
	akJArr   [0]int
	akJArr1  [1]*int
)

func akNull(isNil bool) ([]byte, error) {
	if isNil {
		return []byte("null"), nil
	}
	return []byte(`"set"`), nil
}

func (c akJChan) MarshalJSON() ([]byte, error)   { return akNull(c == nil) }
func (c akJFunc) MarshalJSON() ([]byte, error)   { return akNull(c == nil) }
func (c akTChan) MarshalText() ([]byte, error)   { return akNull(c == nil) }
func (c akTFunc) MarshalText() ([]byte, error)   { return akNull(c == nil) }
func (c akJCplx) MarshalJSON() ([]byte, error)   { return akNull(c == 0) }
func (c *akPJChan) MarshalJSON() ([]byte, error) { return akNull(*c == nil) }
func (c *akPJFunc) MarshalJSON() ([]byte, error) { return akNull(*c == nil) }
func (c akJMap) MarshalJSON() ([]byte, error)    { return akNull(c == nil) }
func (c akJSlice) MarshalJSON() ([]byte, error)  { return akNull(c == nil) }
func (c akJPtr) MarshalJSON() ([]byte, error)    { return akNull(c.p == nil) }
func (c akJIface) MarshalJSON() ([]byte, error)  { return akNull(c.i == nil) }
func (c akJInt) MarshalJSON() ([]byte, error)    { return akNull(c == 0) }
func (c akJArr) MarshalJSON() ([]byte, error)    { return akNull(true) }
func (c akJArr1) MarshalJSON() ([]byte, error)   { return akNull(c[0] == nil) }
func (c akAFunc) AppendJSON(b []byte) ([]byte, error) {
	t, err := akNull(c == nil)
	return append(b, t...), err
}

func init() {
	for id, d := range derived {
		id, d := id, d
		drive.Add(id, &core.Scenario{Name: "derived", Doc: fmt.Sprintf("%d values of types declared from the ones of the property, from pointers to them, and from what contains or embeds them, by %d ways of placing them, under %d sets of options: as the model's", len(d.mk()), len(places), len(d.opts)),
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := d.mk()
				v := l[x.Choose("value", len(l))]
				o := d.opts[x.Choose("options", len(d.opts))]
				for _, p := range places {
					if w, ok := mkPlace(p, reflect.ValueOf(v)); ok {
						check(x, w.Interface(), o)
					}
				}
			}})
	}

	one := 1
	kinds := []interface{}{
		(chan int)(nil), make(chan int), (func())(nil), func() {}, unsafe.Pointer(nil), unsafe.Pointer(&one), complex64(0), complex64(1), complex128(0), complex128(1i), uintptr(0), uintptr(1),
		akChan(nil), make(akChan), akFunc(nil), akFunc(func() {}), akPtr(nil), akPtr(&one), akCplx(0), akCplx(1),
		akJChan(nil), make(akJChan), akJFunc(nil), akJFunc(func() {}), akTChan(nil), make(akTChan), akTFunc(nil), akTFunc(func() {}), akJCplx(0), akJCplx(1),
		akPJChan(nil), make(akPJChan), akPJFunc(nil), akPJFunc(func() {}), akAFunc(nil), akAFunc(func() {}), akJMap(nil), akJMap{}, akJSlice(nil), akJSlice{}, akJPtr{}, akJPtr{&one},
		akJIface{}, akJIface{1}, akJInt(0), akJInt(1), akJArr{}, akJArr1{}, akJArr1{&one}, math.Copysign(0, -1), float32(math.Copysign(0, -1)), math.NaN(), struct{}{}, [0]func(){}, [1]func(){}, []func(){}, map[string]func(){}, map[bool]int(nil), map[bool]int{}, map[bool]int{true: 1}, [0]chan int{}, []complex64(nil), []chan int{nil},
	}
	tags := []string{"", `json:",omitempty"`, `json:",omitnil"`, `json:",omitempty,omitnil"`, `json:",omitnil,string"`, `json:",omitempty,string"`}
	drive.Add("C13", &core.Scenario{Name: "all-kinds", Doc: fmt.Sprintf("%d values, nil and not, of the kinds that JSON has no form for, and of every kind with methods that give null for some, as members of structs with each omission, by value, pointer, in an interface, in an embedded struct and in containers: as the model's", len(kinds)),
		SplitDepth: 2,
		Run: func(x *core.X) {
			v := reflect.ValueOf(kinds[x.Choose("value", len(kinds))])
			tag := tags[x.Choose("tag", len(tags))]
			e := reflect.New(anyT).Elem()
			e.Set(v)
			np := reflect.Zero(reflect.PtrTo(v.Type()))
			for _, f := range []reflect.Value{v, ptrV(v), e, np, ptrV(ptrV(v)), ptrV(np), ptrV(e)} {
				for _, at := range []int{0, 1, 2} {
					vs := []reflect.Value{reflect.ValueOf(1), reflect.ValueOf("x"), reflect.ValueOf(2.5)}
					ts := []string{"", "", ""}
					vs[at], ts[at] = f, tag
					s := tagStruct(ts, vs...)
					for _, w := range []reflect.Value{s, ptrV(s), mkSlice(s.Type(), s, s), mkMap(reflect.ValueOf("k"), s), mkArray(s)} {
						check(x, w.Interface(), nil)
						check(x, w.Interface(), &ref.Opts{NilSliceEmpty: true, NilMapEmpty: true, UnsortedMap: true})
					}
				}
				s := tagStruct([]string{tag}, f)
				check(x, s.Interface(), nil)
				check(x, ptrV(s).Interface(), nil)
			}
		}})

	drive.Add("C11", &core.Scenario{Name: "first-bytes", Doc: "byte slices and arrays of 1 to 36 bytes with each first byte, and with each last byte, by value and pointer, with and without the options; as the model's",
		SplitDepth: 2,
		Run: func(x *core.X) {
			n := 1 + x.Choose("length", 36)
			end := x.Choose("end", 2)
			fill := []byte{'a', 0, 0xff}[x.Choose("fill", 3)]
			a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
			for c := 0; c < 256; c++ {
				for i := 0; i < n; i++ {
					a.Index(i).SetUint(uint64(fill))
				}
				a.Index(end * (n - 1)).SetUint(uint64(c))
				for _, o := range []*ref.Opts{nil, {RawByteSlice: true}, {ByteArrayAsString: true}} {
					check(x, a.Interface(), o)
					check(x, a.Addr().Interface(), o)
					check(x, a.Slice(0, n).Interface(), o)
				}
			}
		}})

	ctxs := []context.Context{context.Background(), context.TODO(), ctxA, ctxB, nil}
	valued := []struct {
		name string
		n    int
		mk   func(k int) jettison.Option
		mod  func(k int, o *ref.Opts) bool
	}{
		{"DurationFormat", 10, func(k int) jettison.Option { return jettison.DurationFormat(jettison.DurationFmt(k - 2)) }, func(k int, o *ref.Opts) bool {
			o.HasDur, o.Dur = true, jettison.DurationFmt(k-2)
			return k >= 2 && k < 8
		}},
		{"TimeLayout", len(lwLayouts), func(k int) jettison.Option { return jettison.TimeLayout(lwLayouts[k]) }, func(k int, o *ref.Opts) bool {
			o.TimeLayout = lwLayouts[k]
			return o.TimeLayout != ""
		}},
		{"AllowList", len(lwLists), func(k int) jettison.Option { return jettison.AllowList(lwLists[k]) }, func(k int, o *ref.Opts) bool {
			o.HasAllow, o.Allow = true, lwLists[k]
			return true
		}},
		{"DenyList", len(lwLists), func(k int) jettison.Option { return jettison.DenyList(lwLists[k]) }, func(k int, o *ref.Opts) bool {
			o.HasDeny, o.Deny = true, lwLists[k]
			return true
		}},
		{"WithContext", len(ctxs), func(k int) jettison.Option { return jettison.WithContext(ctxs[k]) }, func(k int, o *ref.Opts) bool {
			o.Ctx = ctxs[k]
			return ctxs[k] != nil
		}},
	}
	drive.Add("C15", &core.Scenario{Name: "last-wins", Doc: fmt.Sprintf("each of %d valued options given 1 to 4 times with all values of a list - valid, invalid, the default, empty and nil - alone, between and around another option, for Marshal and Append; as the model says for the last one alone", len(valued)),
		SplitDepth: 2,
		Run: func(x *core.X) {
			v := valued[x.Choose("option", len(valued))]
			first := x.Choose("first", v.n+1)
			n := 3
			if x.Thorough {
				n = 4
			}
			var seq []int
			if first < v.n {
				seq = append(seq, first)
				for len(seq) < n {
					k := x.Choose("next", v.n+1)
					if k == v.n {
						break
					}
					seq = append(seq, k)
				}
			}
			if len(seq) == 0 {
				x.Skip()
			}
			val := optValue()
			last := seq[len(seq)-1]
			for between := 0; between < 3; between++ {
				m := &ref.Opts{}
				valid := v.mod(last, m)
				var opts []jettison.Option
				for i, k := range seq {
					opts = append(opts, v.mk(k))
					if between == 1 || between == 2 && i == len(seq)-1 {
						opts = append(opts, nil, jettison.NoHTMLEscaping())
						m.NoHTMLEscaping = true
					}
				}
				got, err := jettison.MarshalOpts(val, opts...)
				app, err2 := jettison.AppendOpts([]byte("x"), val, opts...)
				what := fmt.Sprintf("%s %v, %d", v.name, seq, between)
				if !valid {
					var ioe, ioe2 *jettison.InvalidOptionError
					if !errors.As(err, &ioe) || !errors.As(err2, &ioe2) || got != nil {
						x.Failf("%s: got %q, %v and %v; want InvalidOptionError", what, got, err, err2)
					}
					x.Obs([]byte("invalid"))
					continue
				}
				want, merr := ref.EncodeBytes(val, m)
				if merr != nil {
					x.Failf("MODEL: %v", merr)
				}
				sameBytes(x, what, got, want, err)
				sameBytes(x, what+", appended", app, append([]byte("x"), want...), err2)
			}
		}})
}

var (
	lwLayouts = []string{time.RFC3339Nano, time.RFC3339, time.RFC850, "2006<", "x", "", time.Kitchen, " ", time.StampMicro}
	lwLists   = [][]string{nil, {}, {""}, {"t"}, {"d", "I", "m"}, {"m", "a", "Q"}, {"s<", "up", "CX"}, {"nobody"}}
)
