package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	_ "time/tzdata" // the zones are those of this toolchain

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// Scenarios about what belongs to the caller: memory handed out by methods,
// small results, errors, the lists and slices options are made from and passed
// in; and about the process-wide local time zone.

// A holder keeps what its methods return.
type (
	holdJ struct{ b []byte }
	holdT struct{ b []byte }
	holdP struct{ b []byte }
	holdK struct {
		b *[]byte
		n int
	}
)

func (h holdJ) MarshalJSON() ([]byte, error)  { return h.b, nil }
func (h holdT) MarshalText() ([]byte, error)  { return h.b, nil }
func (h *holdP) MarshalJSON() ([]byte, error) { return h.b, nil }
func (h holdK) MarshalText() ([]byte, error)  { return *h.b, nil }

// A failer fails with the error it holds, by each of the methods.
type (
	failC struct{ err error }
	failA struct{ err error }
	failJ struct{ err error }
	failT struct{ err error }
)

func (f failC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) { return b, f.err }
func (f failA) AppendJSON(b []byte) ([]byte, error)                           { return b, f.err }
func (f failJ) MarshalJSON() ([]byte, error)                                  { return nil, f.err }
func (f failT) MarshalText() ([]byte, error)                                  { return nil, f.err }

// A keptErr is an error with everything that could be seen of it when it was
// returned.
type keptErr struct {
	err  error
	of   error // what a MarshalerError holds
	desc string
}

func keep(err error) keptErr {
	k := keptErr{err: err, desc: descErr(err)}
	var me *jettison.MarshalerError
	if errors.As(err, &me) {
		k.of = me.Err
	}
	return k
}

func (k keptErr) now() string {
	d := descErr(k.err)
	var me *jettison.MarshalerError
	if errors.As(k.err, &me) && me.Err != k.of {
		d += " (another error in MarshalerError.Err)"
	}
	return d
}

func descErr(err error) string {
	s := fmt.Sprintf("%T %q", err, err)
	var (
		me *jettison.MarshalerError
		ue *jettison.UnsupportedTypeError
		ve *jettison.UnsupportedValueError
		se *jettison.SyntaxError
		oe *jettison.InvalidOptionError
	)
	if errors.As(err, &me) {
		s += fmt.Sprintf(" M(%v %v)", me.Type, me.Err)
	}
	if errors.As(err, &ue) {
		s += fmt.Sprintf(" T(%v)", ue.Type)
	}
	if errors.As(err, &ve) {
		s += fmt.Sprintf(" V(%q", ve.Str)
		if ve.Value.IsValid() {
			s += fmt.Sprintf(" %v", ve.Value.Type())
		}
		s += ")"
	}
	if errors.As(err, &se) {
		s += fmt.Sprintf(" S(%q %d)", se.Error(), se.Offset)
	}
	if errors.As(err, &oe) {
		s += fmt.Sprintf(" O(%v)", oe.Err)
	}
	for e := err; e != nil; e = errors.Unwrap(e) {
		s += fmt.Sprintf(" %T", e)
	}
	return s
}

// failingCalls are calls that fail, several of the same type and kind among
// them.
func failingCalls() []func() error {
	var l []func() error
	add := func(v interface{}, o *ref.Opts) {
		l = append(l,
			func() error { _, err := jettison.MarshalOpts(v, o.Options()...); return err },
			func() error { _, err := jettison.AppendOpts([]byte("x"), v, o.Options()...); return err })
	}
	none := &ref.Opts{}
	for i := 0; i < 3; i++ {
		e := error(&methodErr{i})
		if i == 2 {
			e = fmt.Errorf("wrapped %d: %w", i, errBoom)
		}
		for _, v := range []interface{}{failC{e}, failA{e}, failJ{e}, failT{e}, map[failT]int{{e}: 1}, syncMapOf(failT{e}, 1)} {
			add(v, none)
		}
	}
	for _, v := range []interface{}{func() {}, make(chan int), complex(1, 2), struct{ F func() }{func() {}}, []chan int{nil}, map[float64]int{1: 1}, syncMapOf(1.5, 1),
		math.NaN(), math.Inf(1), float32(math.Inf(-1)), []interface{}{math.Inf(-1)}, time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC),
		json.Number("x"), json.Number("1."), map[string]json.Number{"k": "--"}, json.RawMessage("{"), json.RawMessage("[1,]"), json.RawMessage(""), rawMarshaler("[1"), rawMarshaler("{\"a\""), recCycles[0].mk(1), recCycles[1].mk(2)} {
		add(v, none)
	}
	l = append(l,
		func() error { _, err := jettison.MarshalOpts(1, jettison.TimeLayout("")); return err },
		func() error { _, err := jettison.MarshalOpts(1, jettison.WithContext(nil)); return err },
		func() error { _, err := jettison.MarshalOpts(1, jettison.DurationFormat(99)); return err },
		func() error { _, err := jettison.AppendOpts(nil, 1, jettison.DurationFormat(-1)); return err },
	)
	return l
}

// transitions of the offset of a location between two years.
func transitions(loc *time.Location, from, to int) []time.Time {
	var l []time.Time
	t := time.Date(from, 1, 1, 0, 0, 0, 0, loc)
	_, o := t.Zone()
	for t.Year() <= to {
		n := t.Add(24 * time.Hour)
		if _, p := n.Zone(); p != o {
			lo, hi := t.Unix(), n.Unix()
			for lo+1 < hi {
				m := (lo + hi) / 2
				if _, q := time.Unix(m, 0).In(loc).Zone(); q == o {
					lo = m
				} else {
					hi = m
				}
			}
			l = append(l, time.Unix(hi, 0).In(loc))
			o = p
		}
		t = n
	}
	return l
}

func init() {
	drive.Add("C20",
		&core.Scenario{Name: "caller-memory", Doc: "memory that belongs to the caller - raw messages, byte slices, texts and results of methods that keep them, text keys - of every length to 40 and around powers of two and ten to 2^14 (2^20), with room behind, of 12 contents, at 6 positions under 5 option sets, by every entry point: output as the model's, and nothing changed within length or capacity",
			SplitDepth: 2,
			Run: func(x *core.X) {
				top := 1 << 14
				if x.Thorough {
					top = 1 << 20
				}
				l := ladder(40, top)
				n := l[x.Choose("length", len(l))]
				rep := func(s string) string {
					if n == 0 {
						return ""
					}
					return strings.Repeat(s, (n+len(s)-1)/len(s))[:n]
				}
				contents := []string{rep(" "), rep("ab<c"), rep("\xffé"), rep("\u2028x"), "[" + rep(" ") + "1]", "[" + rep("1, ") + "1 ]", `"` + rep("a ") + `"`, `"` + strings.Repeat("<", n) + ` & " `, `{"a" : "` + rep("b") + `"}`, rep("7"), "\n" + `["` + rep("z") + `" , "<"]`, `"` + strings.Repeat("\u2029", n/3) + `"` + " "}
				c := x.Choose("content", len(contents))
				in := contents[c]
				const g = 24
				room := make([]byte, g+len(in)+g)
				for i := range room {
					room[i] = '~'
				}
				b := room[g : g+len(in) : g+len(in)+g]
				copy(b, in)
				clean := string(room)
				hp := &holdP{b}
				forms := []interface{}{json.RawMessage(b), b, holdJ{b}, holdT{b}, hp, map[holdK]int{{&b, 1}: 1}}
				v := forms[x.Choose("form", len(forms))]
				rv := reflect.ValueOf(v)
				for _, o := range []*ref.Opts{{}, {NoHTMLEscaping: true}, {NoCompact: true}, {RawByteSlice: true, NoUTF8Coercion: true}, {UnsortedMap: true, RawByteSlice: true, NoHTMLEscaping: true}} {
					for p := 0; p < 6; p++ {
						var w interface{}
						switch p {
						case 0:
							w = v
						case 1:
							w = ptrTo(rv)
						case 2:
							w = []interface{}{v, 1, v}
						case 3:
							w = mkSlice(rv.Type(), rv, rv).Interface()
						case 4:
							m := reflect.MakeMap(reflect.MapOf(strT, rv.Type()))
							m.SetMapIndex(reflect.ValueOf("k"), rv)
							w = m.Interface()
						case 5:
							s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", intT, ""), sf("B", rv.Type(), ""), sf("C", reflect.PtrTo(rv.Type()), ",omitempty")})).Elem()
							s.Field(1).Set(rv)
							w = s.Addr().Interface()
						}
						// the model works on what the caller still has, and
						// changes nothing
						nd, want := ref.Encode(w, o)
						for e := 0; e < 2; e++ {
							var got []byte
							var err error
							if e == 0 {
								got, err = jettison.MarshalOpts(w, o.Options()...)
							} else {
								got, err = jettison.AppendOpts(make([]byte, 0, 2*n), w, o.Options()...)
								if err != nil {
									got = nil
								}
							}
							if string(room) != clean {
								i := 0
								for room[i] == clean[i] {
									i++
								}
								x.Failf("%T of %d bytes, %.60q, position %d %s: byte %d of the caller's memory was changed from %q to %q", v, len(in), in, p, o, i-g, clean[i], room[i])
							}
							judge(x, w, o, got, err, nd, want)
							// the result is no part of it either
							for i := range got {
								got[i] = '!'
							}
							if string(room) != clean {
								x.Failf("%T of %d bytes, %.60q, position %d %s: the result shares the caller's memory", v, len(in), in, p, o)
							}
						}
					}
				}
			}},
	)

	drive.Add("C16",
		&core.Scenario{Name: "small-results", Doc: "results of every two lengths to 72 (130) in turn, by Marshal and MarshalOpts: their owner appends to and overwrites them up to their capacity and beyond, before and after the next ones; no other result changes, and later results are right",
			SplitDepth: 2,
			Run: func(x *core.X) {
				top := 72
				if x.Thorough {
					top = 130
				}
				a, b := 1+x.Choose("first length", top), 1+x.Choose("second length", top)
				how := x.Choose("how", 3)
				mk := func(i, n int) interface{} {
					switch {
					case n == 1:
						return i % 10
					case n < 4 || i%2 == 0:
						return strings.Repeat(string(rune('a'+i)), n-2)
					}
					return []interface{}{strings.Repeat(string(rune('a'+i)), n-4)}
				}
				var got [][]byte
				var want []string
				for i := 0; i < 6; i++ {
					v := mk(i, []int{a, b}[i%2])
					var r []byte
					var err error
					if i%3 == 2 {
						r, err = jettison.MarshalOpts(v, jettison.NoHTMLEscaping())
					} else {
						r, err = jettison.Marshal(v)
					}
					w, _ := json.Marshal(v)
					if err != nil || string(r) != string(w) {
						x.Failf("lengths %d and %d in turn, result %d: got %q, %v; want %q", a, b, i, r, err, w)
					}
					got, want = append(got, r), append(want, string(r))
					j := i
					if how == 1 {
						j = i / 2
					}
					// the owner uses its result
					switch how {
					case 0, 1:
						o := append(got[j], strings.Repeat("#", 1+i*7)...)
						_ = o
						full := got[j][:cap(got[j])]
						for k := len(got[j]); k < len(full); k++ {
							full[k] = '%'
						}
					case 2:
						full := r[:cap(r)]
						for k := range full {
							full[k] = '$'
						}
						want[i] = string(r)
					}
					for k := range got {
						if string(got[k]) != want[k] {
							x.Failf("lengths %d and %d in turn: result %d changed from %q to %q when the owner of result %d appended to it or overwrote it within its capacity", a, b, k, want[k], got[k], j)
						}
					}
				}
				x.Obs([]byte(fmt.Sprint(a, b, how)))
			}},
	)

	drive.Add("C19",
		&core.Scenario{Name: "earlier-errors", Doc: "every two (three) of 86 failing calls - each method and key with three errors, unsupported types and values, invalid numbers and raw texts, cycles, invalid options, by Marshal and Append - and the first again: the errors returned before are unchanged in text, type, fields and chain, and equal calls give equal errors",
			SplitDepth: 1,
			Run: func(x *core.X) {
				l := failingCalls()
				i := x.Choose("first", len(l))
				var kept []keptErr
				call := func(k int) string {
					err := l[k]()
					if err == nil {
						x.Failf("failing call %d: no error", k)
					}
					kept = append(kept, keep(err))
					for n, e := range kept {
						if s := e.now(); s != e.desc {
							x.Failf("error %d of %d was %s when returned; it is now %s", n, len(kept), e.desc, s)
						}
					}
					return kept[len(kept)-1].desc
				}
				for j := range l {
					kept = kept[:0]
					d := call(i)
					call(j)
					if x.Thorough {
						for k := range l {
							n := len(kept)
							call(k)
							kept = kept[:n]
						}
					}
					if e := call(i); e != d {
						x.Failf("failing call %d: error %s; after call %d: %s", i, d, j, e)
					}
					x.Obs([]byte(fmt.Sprint(j)))
				}
			}},
	)

	drive.Add("C15",
		&core.Scenario{Name: "callers-slices", Doc: "the lists that AllowList and DenyList are made from are reused by the caller - changed, cleared, sorted, before or between calls - and slices of options are passed with room behind, with nil and repeated ones, to every entry point: options keep the meaning they had when made, and neither the lists nor the slices of options are changed",
			SplitDepth: 2,
			Run: func(x *core.X) {
				type inner struct{ A, B, C int }
				type outer struct {
					A, B, C int
					I       inner
					M       map[string]inner
				}
				v := outer{1, 2, 3, inner{4, 5, 6}, map[string]inner{"A": {7, 8, 9}}}
				names := []string{"A", "B", "C", "I", "M", "x", ""}
				n := x.Choose("names", 5)
				list := make([]string, 0, 8)
				for i := 0; i < n; i++ {
					list = append(list, names[x.Choose("name", 4)])
				}
				if x.Bool("with M") {
					list = append(list, "M")
				}
				deny := x.Bool("deny")
				change := x.Choose("change", 6)
				mk := jettison.AllowList
				o := &ref.Opts{}
				orig := append([]string{}, list...)
				if deny {
					mk, o.HasDeny, o.Deny = jettison.DenyList, true, orig
				} else {
					o.HasAllow, o.Allow = true, orig
				}
				opt := mk(list)
				if fmt.Sprint(list) != fmt.Sprint(orig) {
					x.Failf("the list %v was changed to %v", orig, list)
				}
				_, want := ref.EncodeBytes(v, o)
				if want != nil {
					x.Failf("MODEL: %v", want)
				}
				w, _ := ref.EncodeBytes(v, o)
				call := func(when string) {
					store := make([]jettison.Option, 9)
					other := jettison.NoCompact()
					for i := range store {
						store[i] = other
					}
					pass := store[2:5:8]
					pass[0], pass[1], pass[2] = nil, opt, opt
					addrs := func() (l []uintptr) {
						for _, p := range store {
							l = append(l, reflect.ValueOf(p).Pointer())
						}
						return
					}
					before := fmt.Sprint(addrs())
					for e := 0; e < 2; e++ {
						var b []byte
						var err error
						if e == 0 {
							b, err = jettison.MarshalOpts(v, pass...)
						} else {
							b, err = jettison.AppendOpts(nil, v, pass...)
						}
						if err != nil || !bytes.Equal(b, w) {
							x.Failf("list %v (deny %v) %s: got %q, %v; want %q", orig, deny, when, b, err, w)
						}
						if s := fmt.Sprint(addrs()); s != before {
							x.Failf("list %v (deny %v) %s: the slice of options was changed", orig, deny, when)
						}
					}
				}
				if x.Bool("first call before the change") {
					call("before the change")
				}
				full := list[:cap(list)]
				switch change {
				case 1:
					for i := range full {
						full[i] = "M"
					}
				case 2:
					for i := range full {
						full[i] = ""
					}
				case 3:
					if len(list) > 0 {
						list[0] = "C"
					}
				case 4:
					for i := range full {
						full[i] = names[(i+2)%3]
					}
				case 5:
					// another option from the same storage
					list = append(list[:0], "C", "M")
					mk(list)
				}
				call("after the change")
				call("again")
				x.Obs(w)
			}},
	)

	zones := []string{"Europe/Paris", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Africa/Monrovia", "Pacific/Apia", "America/St_Johns", "Europe/Dublin", "Africa/Casablanca", "Antarctica/Troll", "Pacific/Kiritimati", "Asia/Gaza", "Europe/London"}
	local := func(loc *time.Location, f func()) {
		old := time.Local
		time.Local = loc
		defer func() { time.Local = old }()
		f()
	}
	drive.Add("C09",
		&core.Scenario{Name: "local-zone", Doc: "the local time zone of the process set to 13 zones with and without summer time and to 9 fixed offsets: times in it, in UTC and in other zones, made from it or converted, under 6 layouts and UnixTime, in every order of changing the zone",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var locs []*time.Location
				for _, z := range zones {
					l, err := time.LoadLocation(z)
					if err != nil {
						x.Failf("MODEL: %v", err)
					}
					locs = append(locs, l)
				}
				for _, o := range []int{0, 1, -1, 3600, -3600, 5*3600 + 1800, -12 * 3600, 14 * 3600, 59} {
					locs = append(locs, time.FixedZone("Local<", o))
				}
				a, b := locs[x.Choose("zone", len(locs))], locs[x.Choose("later zone", len(locs))]
				c := &times{x: x}
				los := []*ref.Opts{nil, {UnixTime: true}, {TimeLayout: time.RFC3339}, {TimeLayout: time.RFC850}, {TimeLayout: "MST -07:00:00 Z07 15:04"}, {TimeLayout: time.Stamp}, {TimeLayout: time.Kitchen}}
				for _, loc := range []*time.Location{a, b, time.UTC, a} {
					local(loc, func() {
						for _, m := range []time.Month{1, 7} {
							for _, t := range []time.Time{time.Date(2021, m, 2, 3, 4, 5, 6000, time.Local), time.Unix(1600000000+int64(m)*86400*30, 999999999), time.Date(2021, m, 31, 23, 59, 59, 0, time.UTC).Local(), time.Date(2021, m, 1, 0, 0, 0, 0, a), time.Date(1900, m, 1, 0, 0, 0, 0, time.Local), time.Date(9999, 12, 31, 23, 0, 0, 0, time.Local), time.Date(0, 1, 1, 1, 0, 0, 0, time.Local), time.Date(2021, m, 2, 3, 4, 5, 0, b).In(time.Local), time.Date(2020, m, 29, 12, 0, 0, 1, time.UTC)} {
								c.one(t, true)
								for _, o := range los {
									check(x, t, o)
								}
								check(x, []interface{}{&t, map[string]time.Time{"t": t}, struct{ T, U time.Time }{t, t.UTC()}}, los[int(m)%7])
							}
						}
					})
				}
			}},
		&core.Scenario{Name: "transitions", Doc: "13 locations: every transition of their offset in 1900..2037, with the seconds and fractions around it, forwards, backwards and in turn with other locations and with the transition half a year away, under the default layout, RFC 3339, UnixTime and two others",
			SplitDepth: 2,
			Run: func(x *core.X) {
				z := x.Choose("zone", len(zones))
				loc, err := time.LoadLocation(zones[z])
				if err != nil {
					x.Failf("MODEL: %v", err)
				}
				d := x.Choose("decade", 14)
				ts := transitions(loc, 1900+10*d, 1909+10*d)
				other, _ := time.LoadLocation(zones[(z+1)%len(zones)])
				c := &times{x: x}
				n := 0
				one := func(t time.Time) {
					c.one(t, true)
					n += 3
				}
				fwd := func(t time.Time) []time.Time {
					return []time.Time{t.Add(-time.Second), t.Add(-1), t, t.Add(1), t.Add(time.Hour - 1), t.Add(-time.Hour)}
				}
				for i, t := range ts {
					for _, u := range fwd(t) {
						one(u)
						one(u.In(other))
					}
					if i > 0 {
						one(ts[i-1].Add(-1))
						one(ts[i-1])
					}
					one(t.AddDate(0, 6, 0))
					one(t)
					l := fwd(t)
					for j := len(l) - 1; j >= 0; j-- {
						one(l[j])
						check(x, []interface{}{l[j], &l[0], l[j].In(other), l[len(l)-1]}, &ref.Opts{TimeLayout: []string{time.RFC3339, time.RFC1123Z, "Z07:00:00 MST"}[j%3]})
					}
				}
				for i := len(ts) - 1; i >= 0; i-- {
					one(ts[i])
					one(ts[i].Add(-1))
				}
				if n == 0 {
					one(time.Date(1905+10*d, 1, 1, 0, 0, 0, 0, loc))
					one(time.Date(1905+10*d, 7, 1, 0, 0, 0, 0, loc))
				}
				x.ObsN(int64(n))
				x.Obs(c.wnt)
			}},
	)
}
