package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// entryVals returns the values encoded through every entry point: supported
// ones of every kind, and some that fail early or late.
func entryVals() []interface{} {
	long := strings.Repeat("0123456789<\n", 700)
	l := []interface{}{
		nil, 1, "x", 1.5, true, []int(nil), []int{}, map[string]int(nil), map[string]int{}, map[string]int{"b": 1, "a": 2}, (*int)(nil), (*textStr)(nil), error(nil),
		long, []string{long, long}, map[string]string{long: long, "b": long}, syncMapOf("k", long, long, 1), new(sync.Map), struct{}{}, [0]int{}, [1]*int{}, struct{ P *int }{},
		[]interface{}{nil, 1, map[string]interface{}{"z": nil, "a": []interface{}{}}}, time.Duration(5), time.Unix(1, 2).UTC(), json.Number("1.0"), json.RawMessage(` [ 1 , "<" ] `), []byte(long), [5]byte{1, 2, '<'},
		kit.Int_NNVN(3), kit.Int_NVNN(3), kit.Int_VNNN(3), kit.Int_NNNV(3), new(kit.Int_NNPN), []kit.Int_NVNN{1, 2, 3}, map[string]kit.Int_NVNN{"a": 1, "b": 2}, syncMapOf("b", kit.Int_NVNN(1), "a", kit.Int_NNVN(7)),
		rawMarshaler(`{"a" : [ 1, 2 ]}`), map[kit.Int_NNNV]interface{}{1: 2, 3: map[int]int{4: 5}}, optValue(),
		struct {
			A string `json:",omitempty"`
			B []byte `json:",omitnil"`
			C map[int]map[int]string
		}{C: map[int]map[int]string{3: {1: "a", -1: "b"}, -3: nil}},
		// failing
		func() {}, make(chan int), complex(1, 2), math.NaN(), json.Number("x"), json.RawMessage(`{`), rawMarshaler(`[1`), []interface{}{long, 1, func() {}}, map[string]interface{}{"a": long, "b": math.Inf(1)},
		syncMapOf("a", long, "b", math.Inf(1)), syncMapOf(1.5, 1), struct {
			A string
			B []interface{}
		}{"x", []interface{}{map[string]interface{}{"k": json.Number("-")}}}, map[string]func(){}, []chan int{}, time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), map[float64]int{},
	}
	return l
}

var entryOpts = []*ref.Opts{{}, {UnsortedMap: true}, {NoHTMLEscaping: true, RawByteSlice: true}, {NilMapEmpty: true, NilSliceEmpty: true, ByteArrayAsString: true},
	{NoStringEscaping: true, NoCompact: true, UnixTime: true}, {HasDeny: true, Deny: []string{"A", "t"}}, {HasDur: true, Dur: jettison.DurationString, NoNumberValidation: true}}

// prefixes of the slices appended to.
func filled(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + salt
	}
	return b
}

func sameErr(a, b error) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	return a == nil || reflect.TypeOf(a) == reflect.TypeOf(b) && a.Error() == b.Error()
}

func init() {
	drive.Env("C16", "GOMAXPROCS=1")
	drive.Describe("C16", "Every entry point on every value; Append into guarded slices of every length and spare capacity; all sequences of encoding calls and of writes by the owner of earlier results, which are compared after every step with what they were when returned.",
		"UnsortedMap results are compared as sets of members")
	drive.Add("C16",
		&core.Scenario{Name: "entry-points", Doc: "57 values, by value, by pointer and in an interface slice, x 7 option sets x Marshal, MarshalOpts (no options, nil options, options twice), Append and AppendOpts to nil, empty and non-empty slices: same bytes, same error",
			SplitDepth: 2,
			Run: func(x *core.X) {
				vals := entryVals()
				v := vals[x.Choose("value", len(vals))]
				o := entryOpts[x.Choose("options", len(entryOpts))]
				switch x.Choose("form", 3) {
				case 1:
					if v == nil {
						v = new(interface{})
					} else {
						v = ptrTo(reflect.ValueOf(v))
					}
				case 2:
					v = []interface{}{v}
				}
				n, want := ref.Encode(v, o)
				opts := o.Options()
				twice := append(append([]jettison.Option{nil}, opts...), append(opts, nil)...)
				var first error
				for i, f := range []func() ([]byte, int, error){
					func() ([]byte, int, error) { b, err := jettison.MarshalOpts(v, opts...); return b, 0, err },
					func() ([]byte, int, error) { b, err := jettison.MarshalOpts(v, twice...); return b, 0, err },
					func() ([]byte, int, error) { b, err := jettison.AppendOpts(nil, v, opts...); return b, 0, err },
					func() ([]byte, int, error) { b, err := jettison.AppendOpts([]byte{}, v, twice...); return b, 0, err },
					func() ([]byte, int, error) {
						b, err := jettison.AppendOpts(filled(7, 1), v, opts...)
						return b, 7, err
					},
					func() ([]byte, int, error) {
						b, err := jettison.AppendOpts(append(make([]byte, 0, 20000), filled(3, 2)...), v, opts...)
						return b, 3, err
					},
					func() ([]byte, int, error) { b, err := jettison.Marshal(v); return b, 0, err },
					func() ([]byte, int, error) { b, err := jettison.Append(nil, v); return b, 0, err },
					func() ([]byte, int, error) { b, err := jettison.Append(filled(5, 9), v); return b, 5, err },
				} {
					if i >= 6 && len(opts) != 0 {
						break
					}
					b, skip, err := f()
					if i == 0 {
						first = err
					}
					if i > 0 && !sameErr(first, err) {
						x.Failf("%s %s: entry point %d: error %v; MarshalOpts: %v", describe(v), o, i, err, first)
					}
					if err != nil {
						if i < 2 || i == 6 {
							judge(x, v, o, b, err, n, want)
						} else if want == nil {
							x.Failf("%s %s: entry point %d: error %v; want %q", describe(v), o, i, err, n.Bytes())
						}
						continue
					}
					if len(b) < skip {
						x.Failf("%s %s: entry point %d: got %q", describe(v), o, i, b)
					}
					judge(x, v, o, b[skip:], nil, n, want)
				}
			}},
		&core.Scenario{Name: "guarded", Doc: "Append to slices of length 0,1,2,5,64 (8 more) with every spare capacity 0..48 (0..160) inside a larger array: the existing content and the array outside the slice are intact, on success and on failure",
			SplitDepth: 2,
			Run: func(x *core.X) {
				vals := append(entryVals()[:0:0], 7, "some <text>", []int{1, 2, 3}, map[string]int{"b": 1, "a": 2}, syncMapOf("b", 1, "a", 2), struct{ A, B int }{1, 2}, []byte("abcd"), [4]byte{1, 2, 3, 4}, kit.Int_NVNN(3), kit.Int_VNNN(4), kit.Int_NNVN(4), kit.Int_NNNV(5),
					time.Unix(5, 6).UTC(), time.Minute, json.RawMessage(` [ 1 ,2]`), []interface{}{nil, nil}, map[string]interface{}{"a": map[string]interface{}{"x": 1, "b": nil}}, 3.25, float32(-1e21), true, (*int)(nil), nil,
					[]interface{}{"abcdef", func() {}}, map[string]interface{}{"a": 1, "b": math.NaN()}, syncMapOf("a", 1, "b", math.NaN()), struct {
						A string
						B json.Number
					}{"abc", "x"}, []rawMarshaler{rawMarshaler("1"), rawMarshaler("{")}, math.Inf(1), map[bool]int{true: 1}, struct {
						A []int `json:"aaaaaaa,omitnil"`
						B rawMarshaler
						C rawMarshaler `json:",omitnil"`
						D int
					}{nil, rawMarshaler("1"), rawMarshaler("null"), 5})
				v := vals[x.Choose("value", len(vals))]
				lens := []int{0, 1, 2, 5, 64}
				if x.Thorough {
					lens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 4096}
				}
				max := 49
				if x.Thorough {
					max = 161
				}
				n := lens[x.Choose("length", len(lens))]
				spare := x.Choose("spare", max)
				var o *ref.Opts
				if x.Bool("options") {
					o = &ref.Opts{NoHTMLEscaping: true, HasDeny: true, Deny: []string{"A"}}
				}
				nd, want := ref.Encode(v, o)
				const g = 64
				back := filled(g+n+spare+g, 11)
				clean := append([]byte{}, back...)
				dst := back[g : g+n : g+n+spare]
				var (
					b   []byte
					err error
				)
				if o == nil {
					b, err = jettison.Append(dst, v)
				} else {
					b, err = jettison.AppendOpts(dst, v, o.Options()...)
				}
				if !bytes.Equal(back[:g+n], clean[:g+n]) {
					x.Failf("%s: appending to a slice of length %d, capacity %d: wrote before the end of the slice", describe(v), n, n+spare)
				}
				if !bytes.Equal(back[g+n+spare:], clean[g+n+spare:]) {
					x.Failf("%s: appending to a slice of length %d, capacity %d: wrote past its capacity", describe(v), n, n+spare)
				}
				if err != nil {
					if want == nil {
						x.Failf("%s: error %v, want %q", describe(v), err, nd.Bytes())
					}
					if b != nil && (len(b) < n || !bytes.Equal(b[:n], clean[g:g+n])) {
						x.Failf("%s: appending to a slice of length %d failed with %v and returned %q instead of the prefix", describe(v), n, err, b)
					}
					x.Obs([]byte(fmt.Sprint("E", n, spare, want)))
					return
				}
				if len(b) < n || !bytes.Equal(b[:n], clean[g:g+n]) {
					x.Failf("%s: appending to a slice of length %d, capacity %d: got %q, prefix changed", describe(v), n, n+spare, b)
				}
				judge(x, v, o, b[n:], nil, nd, want)
			}},
		&core.Scenario{Name: "ownership", Doc: "all sequences of 4 (5) steps out of 12: encodings small, large, through maps and sync.Maps, with options, appended to an earlier result or into its storage, failing, panicking, re-entrant; the owner overwriting earlier results; a collection. After every step all earlier results are as their owner left them",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 4
				if x.Thorough {
					n = 5
				}
				ownership(x, n)
			}},
		&core.Scenario{Name: "sizes", Doc: "results of every size around each power of two up to 1 MiB (8 MiB) and around the sizes of pages and size classes, of strings, slices, maps, sync.Maps and marshalers, from every entry point: complete, unchanged by six later calls of the same and other sizes, and the owner overwriting one up to its capacity changes neither the others nor later results",
			SplitDepth: 2,
			Run: func(x *core.X) {
				top := 20
				if x.Thorough {
					top = 23
				}
				e := x.Choose("power", top+1)
				size := 1<<uint(e) + []int{-1, 0, 1, 3, 1 << uint(e) >> 1}[x.Choose("offset", 5)]
				shape := x.Choose("shape", 6)
				mk := func(c byte, size int) interface{} {
					t := strings.Repeat(string(rune(c)), size)
					switch shape {
					case 1:
						return []interface{}{1, t, 2}
					case 2:
						return map[string]interface{}{"b": t, "a": 1}
					case 3:
						return syncMapOf("b", t, "a", 1)
					case 4:
						return rawMarshaler(`["` + t + `"]`)
					case 5:
						return appInto{t}
					}
					return t
				}
				entry := x.Choose("entry", 4)
				call := func(v interface{}) []byte {
					var b []byte
					var err error
					switch entry {
					case 0:
						b, err = jettison.Marshal(v)
					case 1:
						b, err = jettison.MarshalOpts(v, jettison.NoHTMLEscaping())
					case 2:
						b, err = jettison.Append(nil, v)
					default:
						b, err = jettison.AppendOpts(make([]byte, 0, size/2), v, jettison.UnixTime())
					}
					w, rerr := ref.EncodeBytes(v, nil)
					if err != nil || rerr != nil || !bytes.Equal(b, w) {
						x.Failf("shape %d, entry point %d, size %d: got %d bytes %.60q, %v; want %d bytes %.60q, %v", shape, entry, size, len(b), b, err, len(w), w, rerr)
					}
					return b
				}
				var got, want [][]byte
				for i, n := range []int{size, size, size / 2, size, 10, 2 * size} {
					b := call(mk(byte('a'+i), n))
					got, want = append(got, b), append(want, append([]byte{}, b...))
					if i == 3 { // its owner overwrites it
						full := b[:cap(b)]
						for j := range full {
							full[j] = '#'
						}
						want[i] = append([]byte{}, b...)
					}
					for j := range got {
						if !bytes.Equal(got[j], want[j]) {
							x.Failf("shape %d, entry point %d, size %d: result %d changed from %.60q to %.60q after call %d", shape, entry, size, j, want[j], got[j], i)
						}
					}
				}
				x.Obs([]byte(fmt.Sprint(shape, entry, size)))
			}},
		&core.Scenario{Name: "nested-append", Doc: "append methods that call Append on the buffer they are given, on a copy and on a fresh slice, at every position",
			SplitDepth: 1,
			Run: func(x *core.X) {
				t := kit.Lookup("Int", []string{"NVNN", "VNNN"}[x.Choose("methods", 2)]).T
				inners := []interface{}{map[string]interface{}{"b": []int{1}, "a<": syncMapOf("y", 1, "x", nil)}, strings.Repeat("long", 2000), struct{ A, B int }{1, 2}}
				in := inners[x.Choose("inner", len(inners))]
				how := x.Choose("how", 3)
				w, _ := at(x, kit.Fill(t), places)
				ib, _ := ref.EncodeBytes(in, nil)
				model := true
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					if model {
						return ib, nil
					}
					h := kit.Hook
					kit.Hook = nil
					defer func() { kit.Hook = h }()
					var (
						b   []byte
						err error
					)
					switch how {
					case 0:
						b, err = jettison.Append(nil, in)
					case 1:
						b, err = jettison.Append(append([]byte{}, "prefix"...), in)
						b = b[6:]
					default:
						b, err = jettison.Marshal(in)
					}
					if err != nil {
						x.Failf("inner %s: %v", describe(in), err)
					}
					return b, nil
				}
				defer func() { kit.Hook = nil }()
				nd, want := ref.Encode(w, nil)
				model = false
				b, err := jettison.Marshal(w)
				judge(x, w, nil, b, err, nd, want)
				b, err = jettison.Append(filled(10, 3), w)
				if err == nil {
					if !bytes.Equal(b[:10], filled(10, 3)) {
						x.Failf("%s: prefix changed to %q", describe(w), b[:10])
					}
					b = b[10:]
				} else {
					b = nil
				}
				judge(x, w, nil, b, err, nd, want)
			}},
	)
}

// appInto is an append marshaler that passes its buffer on.
type appInto struct{ v interface{} }

func (a appInto) AppendJSON(b []byte) ([]byte, error) { return jettison.Append(b, a.v) }

type panics struct{}

func (panics) MarshalJSON() ([]byte, error) { panic(errBoom) }

type fails struct{}

func (fails) AppendJSON(b []byte) ([]byte, error) { return nil, errBoom }

type owned struct{ got, want []byte }

var ownLong = strings.Repeat("long <text> ", 800)

// ownership runs one sequence of n steps.
func ownership(x *core.X, n int) {
	var kept []*owned
	keep := func(b []byte, err error, v interface{}, o *ref.Opts, prefix []byte) {
		w, rerr := ref.EncodeBytes(v, o)
		if err != nil || rerr != nil {
			x.Failf("%s %s: %v, %v", describe(v), o, err, rerr)
		}
		w = append(append([]byte{}, prefix...), w...)
		if !bytes.Equal(b, w) {
			x.Failf("%s %s:\n got %q\nwant %q", describe(v), o, b, w)
		}
		kept = append(kept, &owned{b, append([]byte{}, b...)})
	}
	small := map[string]interface{}{"b": 1, "a": []int{2}}
	large := map[string]interface{}{"z": ownLong, "a": map[int]string{2: ownLong, 1: "x"}, "s": syncMapOf("q", ownLong, "p", 1)}
	sm := syncMapOf("k2", map[string]int{"y": 1, "x": 2}, "k1", appInto{syncMapOf("b", 1, "a", "<")})
	step := func(k int) {
		switch k {
		case 0:
			b, err := jettison.Marshal(small)
			keep(b, err, small, nil, nil)
		case 1:
			b, err := jettison.Marshal(large)
			keep(b, err, large, nil, nil)
		case 2:
			o := &ref.Opts{NoHTMLEscaping: true, NilMapEmpty: true}
			b, err := jettison.MarshalOpts(sm, o.Options()...)
			keep(b, err, sm, o, nil)
		case 3: // append to the newest result, whose owner gives it up
			if len(kept) == 0 {
				b, err := jettison.Append(nil, "first")
				keep(b, err, "first", nil, nil)
				return
			}
			l := kept[len(kept)-1]
			kept = kept[:len(kept)-1]
			b, err := jettison.Append(l.got, sm)
			if !bytes.Equal(l.got, l.want) {
				x.Failf("Append changed the content of its slice from %.80q to %.80q", l.want, l.got)
			}
			keep(b, err, sm, nil, l.want)
		case 4: // the owner overwrites every result, up to its capacity
			for i, r := range kept {
				full := r.got[:cap(r.got)]
				for j := range full {
					full[j] = byte('A' + i)
				}
				r.want = append([]byte{}, r.got...)
			}
		case 5:
			if b, err := jettison.Marshal([]interface{}{ownLong, map[string]interface{}{"a": "x", "b": fails{}, "c": 1}}); b != nil || !errors.Is(err, errBoom) {
				x.Failf("failing call: got %q, %v", b, err)
			}
			if b, err := jettison.Marshal(syncMapOf("z", []interface{}{ownLong, math.NaN()})); b != nil || err == nil {
				x.Failf("failing call: got %q, %v", b, err)
			}
		case 6:
			for _, v := range []interface{}{[]interface{}{"p1", map[string]interface{}{"a": panics{}, "b": 1}}, syncMapOf("k", panics{}), panics{}} {
				func() {
					defer func() {
						if recover() == nil {
							x.Failf("the panic of a method was lost")
						}
					}()
					jettison.Marshal(v)
				}()
			}
		case 7: // re-entrant
			v := []interface{}{"<", appInto{small}, map[string]interface{}{"m": appInto{map[string]interface{}{"n": appInto{sm}}}, "l": 1}}
			b, err := jettison.Marshal(v)
			keep(b, err, v, nil, nil)
		case 8:
			runtime.GC()
			runtime.GC()
		case 9: // encode into the storage of the oldest result
			if len(kept) == 0 {
				return
			}
			r := kept[0]
			dst := r.got[:0:len(r.got)]
			old := append([]byte{}, r.got...)
			kept = kept[1:]
			b, err := jettison.Append(dst, small)
			keep(b, err, small, nil, nil)
			if len(b) > len(old) && !bytes.Equal(r.got, old) {
				// partly written before it was reallocated: its owner gave it up
				return
			}
		case 10:
			v := map[string]interface{}{"j": rawMarshaler(` { "a" : [ 1 , 2 ] } `), "t": textStr("<"), "r": json.RawMessage(` [ ] `)}
			b, err := jettison.Append(nil, v)
			keep(b, err, v, nil, nil)
		case 11:
			v := kit.Int_NNVN(7)
			b, err := jettison.Marshal(v)
			keep(b, err, v, nil, nil)
			b, err = jettison.Marshal("")
			keep(b, err, "", nil, nil)
		}
	}
	for i := 0; i < n; i++ {
		k := x.Choose("step", 12)
		step(k)
		for j, r := range kept {
			if !bytes.Equal(r.got, r.want) {
				x.Failf("step %d (%d): result %d of the sequence changed from %.80q to %.80q", i, k, j, r.want, r.got)
			}
		}
	}
	var all []byte
	for _, r := range kept {
		all = append(all, r.want...)
	}
	x.Obs(all)
	x.Sample(func() string { return fmt.Sprintf("%d results kept, %d bytes", len(kept), len(all)) })
}
