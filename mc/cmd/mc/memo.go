package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// Scenarios about values that follow one another: two values that are alike in
// some way (the same bits, length, ends, sum, instant, joined text) and values
// changed in place by their owner. What is written depends on neither.

// inTurn encodes a, b and a again, one by one and side by side.
func inTurn(x *core.X, a, b interface{}, o *ref.Opts) {
	for _, v := range []interface{}{a, b, a, []interface{}{b, a, b, b, a}, map[string]interface{}{"a": a, "b": b, "c": a}} {
		check(x, v, o)
	}
	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
	if av.Type() == bv.Type() {
		check(x, mkSlice(av.Type(), av, bv, av, av, bv).Interface(), o)
		check(x, []interface{}{ptrTo(bv), ptrTo(av)}, o)
	}
}

// alike are texts of n bytes that differ from each other in little: at one of
// five places, or in the order of groups of bytes.
func alike(n int, what string) []string {
	base := []byte(strings.Repeat("abcdefghijklmnopqrstuvwxyz012345", n/32+1))[:n]
	l := []string{string(base)}
	for _, p := range []int{0, 1, n / 4, n / 2, n - n/4 - 1, n - 2, n - 1} {
		if p >= 0 && p+len(what) <= n {
			b := append([]byte(nil), base...)
			copy(b[p:], what)
			l = append(l, string(b))
		}
	}
	return l
}

// permuted is s with two groups of g bytes exchanged.
func permuted(s string, g int) string {
	b := []byte(s)
	if len(b) < 3*g {
		return s
	}
	i, j := len(b)/3/g*g, len(b)*2/3/g*g
	for k := 0; k < g; k++ {
		b[i+k], b[j+k] = b[j+k], b[i+k]
	}
	return string(b)
}

func numbersAlike() [][2]interface{} {
	var l [][2]interface{}
	add := func(a, b interface{}) { l = append(l, [2]interface{}{a, b}, [2]interface{}{b, a}) }
	for e := -149; e <= 127; e += 3 {
		for _, m := range []float64{1, 1.1, 1.3333333333, math.Pi / 2} {
			f := float32(math.Ldexp(m, e))
			add(f, float64(f))
			add(f, -f)
			add(f, math.Nextafter32(f, 0))
			add(float64(f), math.Nextafter(float64(f), 0))
			add(f, math.Float32bits(f))
			add(int32(math.Float32bits(f)), f)
		}
	}
	for e := -1074; e <= 1023; e += 17 {
		f := math.Ldexp(1.2345678901234567, e)
		add(f, -f)
		add(f, math.Nextafter(f, 0))
		add(f, math.Float64bits(f))
		add(int64(math.Float64bits(f)), f)
		add(f, f*10)
		add(f, json.Number(fmt.Sprint(f)))
	}
	for _, f := range []float64{0, 1, 3, 10, 100, 1e6, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1e15, 1e18, 1e20, 1e21} {
		add(f, float32(f))
		if f < 1<<63 {
			add(f, int64(f))
			add(float32(f), uint64(f))
			add(int64(f), -int64(f))
			add(int64(f), uint64(f))
		}
	}
	for i := uint(0); i < 64; i++ {
		for _, n := range []int64{1, 3, 7, 9, 99, 12345} {
			u := uint64(n) << i
			add(int64(u), u)
			add(-int64(u), -u)
			add(int64(u), int32(u))
			add(int64(u), int16(u))
			add(int64(u), int8(u))
			add(u, uint32(u))
			add(u, uint16(u))
			add(u, uint8(u))
			add(uint32(u), int32(u))
			add(uint16(u), int16(u))
			add(uint8(u), int8(u))
			add(uint(u), uintptr(u))
			add(int(u), -int(u))
			add(u, u<<32|u>>32)
			add(time.Duration(u), int64(u))
			add(json.Number(fmt.Sprint(u)), u)
			add(json.Number(fmt.Sprint(u)), json.Number(fmt.Sprint(u)+".0"))
		}
	}
	for n := 1; n <= 64; n++ {
		d := strings.Repeat("1234567890", 7)[:n]
		for _, p := range []int{0, n / 2, n - 1} {
			b := []byte(d)
			b[p] = '7'
			add(json.Number(d), json.Number(b))
			add(json.Number(d+".5"), json.Number(string(b)+".5"))
			add(json.Number("0."+d), json.Number("0."+string(b)))
			add(json.Number("1e"+d), json.Number("1e"+string(b)))
		}
	}
	add(math.Copysign(0, -1), 0.0)
	add(float32(math.Copysign(0, -1)), float32(0))
	add(true, false)
	return l
}

func init() {
	drive.Add("C08",
		&core.Scenario{Name: "in-turn", Doc: "numbers that are alike - floats of both widths and the same value, neighbours, opposite signs, integers of the same low bits, floats and integers of the same bits or value, literals of the same length that differ in one digit - in turn, both ways, one by one and side by side, plain and by pointer, and as quoted members",
			SplitDepth: 1,
			Run: func(x *core.X) {
				l := numbersAlike()
				n := x.Choose("group", 64)
				for i := n; i < len(l); i += 64 {
					a, b := l[i][0], l[i][1]
					inTurn(x, a, b, nil)
					av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
					s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", av.Type(), `json:",string"`), sf("B", bv.Type(), `json:",string"`), sf("C", av.Type(), ""), sf("D", bv.Type(), "")})).Elem()
					s.Field(0).Set(av)
					s.Field(1).Set(bv)
					s.Field(2).Set(av)
					s.Field(3).Set(bv)
					check(x, s.Interface(), nil)
				}
			}},
	)

	drive.Add("C09",
		&core.Scenario{Name: "in-turn", Doc: "times that are alike - the same instant in another zone, the same clock at another offset, the same second with another fraction, the same zone name at another offset, neighbouring seconds, minutes, hours, days, months, years - in turn, both ways, under 7 layouts that begin or end alike, in turn too",
			SplitDepth: 2,
			Run: func(x *core.X) {
				bases := []time.Time{{}, time.Unix(0, 0), time.Unix(1600000000, 123456789), time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2000, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(1900, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9998, 6, 15, 12, 30, 45, 500000000, time.UTC), time.Unix(-1, 5), time.Unix(1<<31, 0), time.Unix(1<<32, 1000)}
				t := bases[x.Choose("time", len(bases))].UTC()
				z := func(s int) *time.Location { return time.FixedZone("Z", s) }
				zones := []*time.Location{time.UTC, z(0), z(3600), z(-3600), z(1800), z(86399), time.FixedZone("", 3600), time.FixedZone("<", -12345)}
				from := zones[x.Choose("zone", len(zones))]
				a := t.In(from)
				var l []time.Time
				for _, w := range zones {
					l = append(l, a.In(w), time.Date(a.Year(), a.Month(), a.Day(), a.Hour(), a.Minute(), a.Second(), a.Nanosecond(), w))
				}
				for _, d := range []time.Duration{1, -1, 1000, time.Millisecond, 500 * time.Millisecond, time.Second, -time.Second, time.Minute, time.Hour, 24 * time.Hour, 1 << 32, 1 << 62} {
					l = append(l, a.Add(d))
				}
				l = append(l, a.AddDate(0, 1, 0), a.AddDate(1, 0, 0), a.AddDate(0, 0, 7), a.AddDate(100, 0, 0), a.AddDate(400, 0, 0), a.Truncate(time.Second), a.Truncate(time.Hour), time.Unix(int64(int32(a.Unix())), 0).In(from))
				os := []*ref.Opts{nil, {TimeLayout: time.RFC3339}, {UnixTime: true}, {TimeLayout: "2006-01-02T15:04:05Z07"}, {TimeLayout: "2006-01-02"}, {TimeLayout: "15:04:05Z07:00"}, {TimeLayout: "2006-01-02T15:04:05.000000000Z07:00"}}
				for _, b := range l {
					for i, o := range os {
						inTurn(x, a, b, o)
						check(x, a, os[(i+1)%len(os)])
						check(x, b, o)
						check(x, []interface{}{a, &b, struct {
							A, B time.Time
						}{b, a}}, os[(i+3)%len(os)])
					}
				}
			}},
	)

	drive.Add("C10",
		&core.Scenario{Name: "in-turn", Doc: "durations that are alike - opposite, of the same low 8 to 32 bits, a unit apart, the same number as integer or unit, the same in another format - in turn, both ways, in every two formats",
			SplitDepth: 2,
			Run: func(x *core.X) {
				bases := []time.Duration{0, 1, 999, 1000, 1e6, 1500 * time.Millisecond, time.Second, 90 * time.Second, time.Minute, time.Hour + 1, 1 << 31, 1 << 32, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1, -time.Hour, -1 << 63}
				a := bases[x.Choose("duration", len(bases))]
				f, g := jettison.DurationFmt(x.Choose("format", 6)), jettison.DurationFmt(x.Choose("other format", 6))
				for _, b := range append([]time.Duration{-a, a + 1, a - 1, a * 10, a / 10, a * 1000, a / 1000, a + 1<<8, a + 1<<16, a + 1<<32, a + time.Microsecond, a + time.Millisecond, a + time.Second, a + time.Minute, a + time.Hour, a.Round(time.Second), a.Truncate(time.Millisecond)}, bases...) {
					o, p := &ref.Opts{HasDur: true, Dur: f}, &ref.Opts{HasDur: true, Dur: g}
					inTurn(x, a, b, o)
					check(x, a, p)
					check(x, b, o)
					check(x, b, p)
					check(x, []interface{}{a, &b, int64(a), float64(b), struct {
						A time.Duration `json:",string"`
						B *time.Duration
					}{b, &a}}, o)
				}
			}},
	)

	whats := []string{"\"", "<", "\n", "\xff", "é", "\u2028", "Z", "\\u"}
	drive.Add("C05",
		&core.Scenario{Name: "in-turn", Doc: "strings of every length to 70 (300) and around the powers of two and ten to 4096 (16384) that differ in one of 7 places by one of 8 sequences, or in the order of groups of 1, 4 or 8 bytes: in turn, both ways, as values, texts, keys, members and raw bytes, under 3 option sets",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(70, 1<<12)
				if x.Thorough {
					l = ladder(300, 1<<14)
				}
				n := l[x.Choose("length", len(l))]
				if n == 0 {
					x.Skip()
				}
				ss := alike(n, whats[x.Choose("sequence", len(whats))])
				for i, s := range ss[1:] {
					list := []string{ss[0], permuted(s, 1), permuted(s, 4), permuted(s, 8), ss[(i+2)%len(ss)], s[:n-1], s + "x"}
					if n > 300 && !x.Thorough {
						list = list[:4]
					}
					for _, u := range list {
						if u == s {
							continue
						}
						for k, o := range []*ref.Opts{{}, {NoHTMLEscaping: true, RawByteSlice: true}, {NoUTF8Coercion: true}} {
							if n > 300 && k != i%3 {
								continue
							}
							for _, v := range []interface{}{
								[]string{s, u, s}, []string{u, s, u},
								[]interface{}{textStr(s), textStr(u), s, u, textStr(s)},
								[]map[string]int{{s: 1}, {u: 2}, {s: 3}},
								[]map[textKey]int{{{u}: 1}, {{s}: 2}, {{u}: 3}},
								[]interface{}{syncMapOf(s, u), syncMapOf(u, s)},
								[]interface{}{[]byte(s), []byte(u), nBytes(s)},
								struct {
									A string `json:",string"`
									B string
									C *string `json:",string"`
									D []byte
								}{s, u, &u, []byte(u)},
							} {
								check(x, v, o)
							}
							check(x, s, o)
							check(x, u, o)
							check(x, textStr(s), o)
							check(x, textStr(u), o)
							check(x, s, &ref.Opts{NoStringEscaping: true})
							check(x, s, o)
						}
					}
				}
				x.Beat()
			}},
	)

	drive.Add("C12",
		&core.Scenario{Name: "in-turn", Doc: "raw messages and results of MarshalJSON of every length to 70 (300) and around the powers of two and ten to 4096 (16384), that differ in one of 7 places by one of 10 sequences (valid and invalid) or in the order of groups of 1, 4 or 8 bytes: in turn, both ways, under 3 option sets",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(70, 1<<12)
				if x.Thorough {
					l = ladder(300, 1<<14)
				}
				n := l[x.Choose("length", len(l))]
				if n < 3 {
					x.Skip()
				}
				seqs := []string{" ", "<", ",", "\"", "]", "{", "1", "\\n", "\x00", "\u2028"}
				q := seqs[x.Choose("sequence", len(seqs))]
				form := x.Choose("text", 3)
				var ss []string
				switch form {
				case 0: // a string
					for _, s := range alike(n-2, q) {
						ss = append(ss, `"`+s+`"`)
					}
				case 1: // numbers with spaces
					for _, s := range alike(n-2, q) {
						b := []byte(s)
						for i := range b {
							if b[i] >= 'a' && b[i] <= 'z' || b[i] >= '0' && b[i] <= '5' {
								b[i] = "1 , 2,34"[i%8]
							}
						}
						ss = append(ss, "["+string(b[:n-2])+"]")
					}
				case 2: // members
					for _, s := range alike(n, q) {
						b := []byte(s)
						u := strings.Repeat(`{"a": 12 ,"b": [] , `, n/20+1)[:n]
						for i := range b {
							if b[i] >= 'a' && b[i] <= 'z' || b[i] >= '0' && b[i] <= '5' {
								b[i] = u[i]
							}
						}
						ss = append(ss, string(b))
					}
				}
				for i, s := range ss {
					list := []string{ss[0], permuted(s, 1), permuted(s, 4), permuted(s, 8), ss[(i+2)%len(ss)], s[:n-1]}
					for _, u := range list {
						if u == s {
							continue
						}
						for k, o := range []*ref.Opts{{}, {NoHTMLEscaping: true}, {NoCompact: true}} {
							if n > 130 && k != i%3 {
								continue
							}
							for _, v := range []interface{}{json.RawMessage(s), json.RawMessage(u), json.RawMessage(s), rawMarshaler(u), rawMarshaler(s), rawMarshaler(u), []interface{}{rawMarshaler(s), json.RawMessage(s)}, []json.RawMessage{[]byte(s), []byte(u)}, []rawMarshaler{[]byte(u), []byte(s)}} {
								check(x, v, o)
							}
						}
					}
				}
				x.Beat()
			}},
		&core.Scenario{Name: "changed-in-place", Doc: "a raw message, a byte slice and what a MarshalJSON or MarshalText method keeps, of every length to 140 (600) and around the powers of two and ten to 2^13 (2^16): encoded, changed by the owner at one of 7 places by one of 8 sequences at the same address, encoded, changed back, encoded; shortened and longer again; under 3 option sets",
			SplitDepth: 2, Run: inPlace},
	)
	drive.Add("C11",
		&core.Scenario{Name: "changed-in-place", Doc: "a byte slice, a raw message and what a MarshalJSON or MarshalText method keeps, of every length to 140 (600) and around the powers of two and ten to 2^13 (2^16): encoded, changed by the owner at one of 7 places by one of 8 sequences at the same address, encoded, changed back, encoded; shortened and longer again; under 3 option sets",
			SplitDepth: 2, Run: inPlace},
	)

	drive.Add("C17",
		&core.Scenario{Name: "changed-in-place", Doc: "values of 46 types behind a pointer, in a slice, array, map, sync.Map, struct or behind an interface, encoded, changed by their owner at the same address, encoded, changed back or again, encoded, under 3 option sets; slices that move their window, grow and shrink in the same storage, maps that are refilled, pointers that are turned elsewhere",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ts := inPlaceTypes()
				t := ts[x.Choose("type", len(ts))]
				o := []*ref.Opts{nil, {UnsortedMap: true, RawByteSlice: true, NilSliceEmpty: true}, {HasDeny: true, Deny: []string{"B"}}}[x.Choose("options", 3)]
				cont := x.Choose("container", 9)
				p := reflect.New(t)
				set := func(v reflect.Value, k int) {
					if k < 0 {
						v.Set(reflect.Zero(t))
					} else {
						v.Set(kit.FillN(t, k))
					}
				}
				var w interface{}
				change := func(k int) { set(p.Elem(), k) }
				switch cont {
				case 0:
					w = p.Interface()
				case 1:
					s := reflect.MakeSlice(reflect.SliceOf(t), 4, 4)
					change = func(k int) { set(s.Index(k&1), k); set(s.Index(3), k) }
					w = s.Interface()
				case 2:
					a := reflect.New(reflect.ArrayOf(3, t))
					change = func(k int) { set(a.Elem().Index(1), k) }
					w = a.Interface()
				case 3:
					m := reflect.MakeMap(reflect.MapOf(strT, t))
					change = func(k int) {
						e := reflect.New(t).Elem()
						set(e, k)
						m.SetMapIndex(reflect.ValueOf("a"), e)
						m.SetMapIndex(reflect.ValueOf("b"), reflect.Zero(t))
					}
					w = m.Interface()
				case 4:
					m := new(sync.Map)
					change = func(k int) { set(p.Elem(), k); m.Store("k", p.Elem().Interface()); m.Store("p", p.Interface()) }
					w = m
				case 5:
					s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", intT, ""), sf("B", t, ",omitempty"), sf("C", t, ""), sf("D", reflect.PtrTo(t), "")}))
					s.Elem().Field(3).Set(p)
					change = func(k int) { set(s.Elem().Field(1), k); set(s.Elem().Field(2), k+1); set(p.Elem(), k+2) }
					w = s.Interface()
				case 6:
					l := []interface{}{nil, p.Interface(), nil}
					change = func(k int) { set(p.Elem(), k); l[0], l[2] = p.Elem().Interface(), k }
					w = l
				case 7: // a window that moves
					s := reflect.MakeSlice(reflect.SliceOf(t), 6, 6)
					for i := 0; i < 6; i++ {
						set(s.Index(i), i)
					}
					h := reflect.New(s.Type())
					change = func(k int) {
						set(s.Index((k+7)%6), k)
						h.Elem().Set(s.Slice((k+9)%3, 3+(k+5)%4))
					}
					w = h.Interface()
				case 8: // pointers turned elsewhere
					q := reflect.New(t)
					set(q.Elem(), 9)
					pp := reflect.New(p.Type())
					change = func(k int) {
						set(p.Elem(), k)
						pp.Elem().Set([]reflect.Value{p, q, reflect.Zero(p.Type())}[(k+3)%3])
					}
					w = []interface{}{pp.Interface(), map[string]interface{}{"p": pp.Interface()}}
				}
				n := 0
				for _, k := range []int{1, 2, 1, -1, 1, 3, 3, -1, 2, 4, 1} {
					change(k)
					check(x, w, o)
					n++
					if n%3 == 0 {
						check(x, w, nil)
						check(x, w, &ref.Opts{NoHTMLEscaping: true, NilMapEmpty: true})
						check(x, w, o)
					}
				}
			}},
	)

	drive.Add("C14",
		&core.Scenario{Name: "in-turn", Doc: "every two of 40 lists, allowed and denied, whose names give the same text joined or the same set, or the same number of names or bytes, one after the other and in one call",
			SplitDepth: 2,
			Run: func(x *core.X) {
				v := map[string]interface{}{"k": listValue(), "l": []interface{}{listValue()}}
				l := listsAlike()
				a, b := l[x.Choose("list", len(l))], l[x.Choose("later list", len(l))]
				mk := func(k int, n []string) *ref.Opts {
					if k == 0 {
						return &ref.Opts{HasAllow: true, Allow: n}
					}
					return &ref.Opts{HasDeny: true, Deny: n}
				}
				for i := 0; i < 4; i++ {
					for _, o := range []*ref.Opts{mk(i&1, a), mk(i>>1, b), nil, mk(i&1, a), {HasAllow: true, Allow: a, HasDeny: true, Deny: b}, mk(1-i&1, a), {HasAllow: true, Allow: b, HasDeny: true, Deny: a}} {
						check(x, v, o)
					}
				}
			}},
	)

	drive.Add("C15",
		&core.Scenario{Name: "nested-options", Doc: "every two of 24 options on a call whose methods call Marshal, MarshalOpts, Append and AppendOpts without and with each of 24 options on 19 values: the inner call has its own options and no other, the outer one keeps its own, and a call afterwards has none",
			SplitDepth: 2,
			Run: func(x *core.X) {
				a, b := x.Choose("option", 24), x.Choose("option", 24)
				m := &ref.Opts{Dur: jettison.DurationNanoseconds, HasDur: true, TimeLayout: time.RFC3339Nano}
				var bad [3]bool
				outer := []jettison.Option{applyOpt(a, m, &bad), applyOpt(b, m, &bad)}
				if bad[0] || bad[1] || bad[2] {
					x.Skip()
				}
				t := kit.Lookup("Int", []string{"NVNN", "NNVN", "NNNV", "VNNN"}[(a+b)%4]).T
				k := 0
				inner := func() {
					h := kit.Hook
					kit.Hook = nil
					defer func() { kit.Hook = h }()
					p := &ref.Opts{Dur: jettison.DurationNanoseconds, HasDur: true, TimeLayout: time.RFC3339Nano}
					var bad [3]bool
					var opts []jettison.Option
					if k%25 < 24 {
						opts = []jettison.Option{applyOpt(k%25, p, &bad)}
					}
					if bad[0] || bad[1] || bad[2] {
						opts, p = nil, nil
					}
					for i, v := range optSubjects {
						q := p
						var got []byte
						var err error
						switch (i + k) % 4 {
						case 0:
							got, err = jettison.Marshal(v)
							q = nil
						case 1:
							got, err = jettison.MarshalOpts(v, opts...)
						case 2:
							got, err = jettison.Append(nil, v)
							q = nil
						case 3:
							got, err = jettison.AppendOpts([]byte{}, v, opts...)
							if err != nil {
								got = nil
							}
						}
						nd, want := ref.Encode(v, q)
						judge(x, v, q, got, err, nd, want)
					}
				}
				for k = 0; k < 50; k++ {
					sub := optSubjects[k%len(optSubjects)]
					v := []interface{}{sub, kit.FillN(t, k).Interface(), sub, map[string]interface{}{"k": kit.FillN(t, 2).Interface(), "l": sub}, time.Second, "<\xff"}
					nd, want := ref.Encode(v, m)
					kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) { inner(); return out, nil }
					got, err := jettison.MarshalOpts(v, outer...)
					kit.Hook = nil
					judge(x, v, m, got, err, nd, want)
					check(x, sub, nil)
				}
			}},
		&core.Scenario{Name: "usual-types", Doc: "28 usual types - strings, lists, maps and bytes as used every day - nil, empty, with one and with several special entries, by value, held by interfaces, in maps and slices of interfaces and as members, under all 2^11 sets of flags",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := usualValues()
				i := x.Choose("value", len(l))
				form := x.Choose("form", 4)
				v := l[i]
				rv := reflect.ValueOf(v)
				var w interface{}
				switch form {
				case 0:
					w = v
				case 1:
					w = []interface{}{v, "<", v}
				case 2:
					w = map[string]interface{}{"k": v, "<": ptrTo(rv)}
				case 3:
					s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", rv.Type(), ""), sf("B", rv.Type(), `json:",omitempty"`), sf("C", anyT, `json:",omitnil"`)})).Elem()
					s.Field(0).Set(rv)
					s.Field(1).Set(rv)
					s.Field(2).Set(rv)
					w = s.Interface()
				}
				for f := 0; f < 1<<11; f++ {
					check(x, w, new(ref.Opts).SetFlags(f))
				}
				for _, o := range []*ref.Opts{nil, {TimeLayout: time.RFC850}, {HasDur: true, Dur: jettison.DurationString}, {HasDur: true, Dur: jettison.DurationSeconds, NoHTMLEscaping: true}, {HasAllow: true, Allow: []string{"A", "B", "C"}}, {HasDeny: true, Deny: []string{"B"}, UnsortedMap: true}} {
					check(x, w, o)
				}
				x.Beat()
			}},
	)

	prefixes := func(prop string) {
		drive.Add(prop,
			&core.Scenario{Name: "prefixes", Doc: "maps and sync.Maps of n entries, for n = 2, 3, 13, 100, 600, 2000 and 5000, whose keys - strings, texts, struct texts - begin with the same k bytes, for all k to 40 and around the powers of two and ten to 256 (4096), and differ there, at the end, or only in length: in order",
				SplitDepth: 2,
				Run: func(x *core.X) {
					top := 256
					if x.Thorough {
						top = 4096
					}
					l := ladder(40, top)
					k := l[x.Choose("prefix", len(l))]
					n := []int{2, 3, 13, 100, 600, 2000, 5000}[x.Choose("number", 7)]
					if n > 600 && k > 70 && !x.Thorough {
						n = 700
					}
					pre := strings.Repeat("https://example.com/<é>/", k/24+1)[:k]
					for how := 0; how < 3; how++ {
						m, tm, sm := map[string]int{}, map[textKey]int{}, new(sync.Map)
						var keys []string
						for i := 0; i < n; i++ {
							s := ""
							switch how {
							case 0:
								s = fmt.Sprintf("%s%d", pre, i)
							case 1:
								s = fmt.Sprintf("%s%04d%s", pre, (i*7919)%10007, pre)
							case 2:
								if i > 300 {
									continue
								}
								s = pre + strings.Repeat("b", i)
							}
							keys = append(keys, s)
							m[s], tm[textKey{s}] = i, i
							sm.Store(s, i)
						}
						sort.Strings(keys)
						var want []byte
						for i, s := range keys {
							q, err := json.Marshal(s)
							if err != nil {
								x.Failf("MODEL: %v", err)
							}
							want = append(append(want, "{,"[b2i(i > 0)]), fmt.Sprintf("%s:%d", q, m[s])...)
						}
						want = append(want, '}')
						for _, v := range []interface{}{m, tm, sm} {
							if (prop == "C07") != (v == interface{}(sm)) {
								continue
							}
							got, err := jettison.Marshal(v)
							sameBytes(x, fmt.Sprintf("%T of %d keys that begin with the same %d bytes (%d)", v, len(keys), k, how), got, want, err)
							got, err = jettison.MarshalOpts([]interface{}{v}, jettison.NoCompact())
							sameBytes(x, fmt.Sprintf("[]%T of %d keys that begin with the same %d bytes (%d)", v, len(keys), k, how), got, []byte("["+string(want)+"]"), err)
						}
					}
					x.Beat()
				}})
	}
	prefixes("C06")
	prefixes("C07")

	drive.Add("C03",
		&core.Scenario{Name: "counts", Doc: "n embedded structs that bring the same member to the same depth - the same struct behind n others, or n different ones - for all n to 20 (70) and around the powers of two to 512 (2048), at depths 1 to 3, without, with one or with two tagged ones, with the name shallower or deeper too; as encoding/json and the model",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := append(ladder(20, 1<<5), edges(1<<6, 1<<9)...)
				if x.Thorough {
					l = append(ladder(70, 1<<7), edges(1<<8, 1<<11)...)
				}
				n := l[x.Choose("number", len(l))]
				if n == 0 {
					x.Skip()
				}
				depth := 1 + x.Choose("depth", 3)
				same := x.Bool("the same one")
				ptr := x.Bool("by pointer")
				tagged := x.Choose("tagged", 3)
				if depth == 3 && n > 260 && !x.Thorough || same && (depth == 1 || tagged > 0) {
					x.Skip()
				}
				emb := func(name string, t reflect.Type) reflect.StructField {
					if ptr {
						t = reflect.PtrTo(t)
					}
					return reflect.StructField{Name: name, Type: t, Anonymous: true}
				}
				common := reflect.StructOf([]reflect.StructField{sf("X", intT, ""), sf("Y", strT, `json:"y"`)})
				wrap := func(t reflect.Type, i, d int) reflect.Type {
					for ; d > 1; d-- {
						t = reflect.StructOf([]reflect.StructField{emb("E", t), sf(fmt.Sprint("N", d, "_", i), intT, "")})
					}
					return t
				}
				for also := 0; also < 3; also++ {
					var fs []reflect.StructField
					for i := 0; i < n; i++ {
						t := common
						if !same {
							tag := ""
							if tagged > 0 && i == n/2 || tagged > 1 && i == n-1 {
								tag = `json:"X"`
							}
							t = reflect.StructOf([]reflect.StructField{sf("X", intT, tag), sf(fmt.Sprint("Z", i), strT, `json:",omitempty"`)})
						}
						fs = append(fs, emb(fmt.Sprint("F", i), wrap(t, i, depth)))
					}
					switch also {
					case 1:
						fs = append(fs, sf("X", boolT, ""))
					case 2:
						fs = append([]reflect.StructField{emb("D", wrap(reflect.StructOf([]reflect.StructField{sf("X", strT, ""), sf("y", strT, "")}[:1]), n, depth+1))}, fs...)
					}
					v := reflect.New(reflect.StructOf(fs))
					c := 0
					fillEmb(v.Elem(), &c)
					want, err := json.Marshal(v.Interface())
					if err != nil {
						x.Failf("MODEL: %v", err)
					}
					nd, merr := ref.Encode(v.Interface(), nil)
					if merr != nil || string(nd.Bytes()) != string(want) {
						x.Failf("MODEL: %d embedded structs at depth %d: model and encoding/json differ", n, depth)
					}
					for _, w := range []interface{}{v.Interface(), v.Elem().Interface(), []interface{}{v.Elem().Interface()}} {
						got, err := jettison.Marshal(w)
						wnt := want
						if _, ok := w.([]interface{}); ok {
							wnt = []byte("[" + string(want) + "]")
						}
						sameBytes(x, fmt.Sprintf("%d embedded structs (same %t, by pointer %t, tagged %d, also %d) at depth %d", n, same, ptr, tagged, also, depth), got, wnt, err)
					}
				}
				x.Beat()
			}},
	)

	drive.Add("C22",
		&core.Scenario{Name: "many-keys", Doc: "maps and sync.Maps of n entries, for all n to 20 and around the powers of two and ten to 2^14 (2^17), whose keys are texts of 3 lengths and whose values have methods, sorted and not, at 3 positions: every method of every key and value is called exactly once",
			SplitDepth: 2,
			Run: func(x *core.X) {
				top := 1 << 14
				if x.Thorough {
					top = 1 << 17
				}
				l := ladder(20, top)
				n := l[x.Choose("number", len(l))]
				size := []int{1, 12, 90}[x.Choose("length", 3)]
				isSync := x.Bool("sync.Map")
				kc, vc := make([]int, n), make([]int, n)
				m, sm := map[countKey]countVal{}, new(sync.Map)
				for i := 0; i < n; i++ {
					k, v := countKey{&kc, i, size}, countVal{&vc, i, i % 3}
					if isSync {
						sm.Store(k, v)
					} else {
						m[k] = v
					}
				}
				var v interface{} = m
				if isSync {
					v = sm
				}
				for pos := 0; pos < 3; pos++ {
					w := v
					switch pos {
					case 1:
						w = []interface{}{strings.Repeat("x", 3000), v, 1}
					case 2:
						w = struct {
							A int
							M interface{}
						}{1, v}
					}
					for _, o := range []*ref.Opts{{}, {UnsortedMap: true}, {NoCompact: true}} {
						for e := 0; e < 2; e++ {
							for i := range kc {
								kc[i], vc[i] = 0, 0
							}
							var b []byte
							var err error
							if e == 0 {
								b, err = jettison.MarshalOpts(w, o.Options()...)
							} else {
								b, err = jettison.AppendOpts(make([]byte, 0, 64), w, o.Options()...)
							}
							if err != nil {
								x.Failf("%d entries: %v", n, err)
							}
							for i := range kc {
								if kc[i] != 1 || vc[i] != 1 {
									x.Failf("%d entries with keys of %d bytes (sync %t, position %d, %s): the method of key %d was called %d times, that of its value %d times", n, size, isSync, pos, o, i, kc[i], vc[i])
								}
							}
							if !json.Valid(b) {
								x.Failf("%d entries: invalid output", n)
							}
							x.Obs([]byte(fmt.Sprint(n, size, isSync, pos, o.UnsortedMap, len(b))))
						}
					}
				}
				x.Beat()
			}},
	)
}

// fillEmb fills exported members through embedded structs and pointers.
func fillEmb(v reflect.Value, n *int) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).Anonymous {
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			fillEmb(f, n)
			continue
		}
		*n++
		f.Set(kit.FillN(f.Type(), *n))
	}
}

type (
	countKey struct {
		n    *[]int
		i, l int
	}
	countVal struct {
		n    *[]int
		i, m int
	}
)

func (c countKey) MarshalText() ([]byte, error) {
	(*c.n)[c.i]++
	return []byte(fmt.Sprintf("%0*d", c.l, c.i)), nil
}

func (c countVal) MarshalJSON() ([]byte, error) {
	(*c.n)[c.i]++
	return []byte([]string{"1", `"v<"`, "[ 1, 2 ]"}[c.m]), nil
}

// inPlace changes bytes at the same address.
func inPlace(x *core.X) {
	l := ladder(140, 1<<13)
	if x.Thorough {
		l = ladder(600, 1<<16)
	}
	n := l[x.Choose("length", len(l))]
	if n < 3 {
		x.Skip()
	}
	form := x.Choose("form", 5)
	valid := x.Bool("valid first")
	base := []byte(strings.Repeat("abcdefghijklmnopqrstuvwxyz012345", n/32+1))[:n]
	if form != 1 && form != 3 {
		base[0], base[n-1] = '"', '"'
	}
	if !valid {
		base[n/2] = '\n'
	}
	back := append(make([]byte, 0, n+20), base...)
	b := back
	var v interface{}
	hold := &b
	switch form {
	case 0:
		v = (*json.RawMessage)(hold)
	case 1:
		v = hold
	case 2:
		v = &heldJSON{hold}
	case 3:
		v = heldText{hold}
	case 4:
		v = heldJSON{hold}
	}
	os := []*ref.Opts{{}, {RawByteSlice: true, NoHTMLEscaping: true}, {NoCompact: true, RawByteSlice: true}}
	all := func(k int) {
		for i, o := range os {
			if n <= 140 || (i+k)%3 == 0 {
				check(x, v, o)
			}
		}
		if k%4 == 0 {
			check(x, []interface{}{v, v}, os[1])
			if form < 2 {
				check(x, reflect.ValueOf(v).Elem().Interface(), os[k%3])
			}
		}
	}
	all(0)
	k := 0
	for _, q := range []string{"\"", "<", "\n", "\xff", "é", "]", " ", "\\"} {
		for _, p := range []int{0, 1, n / 4, n / 2, n - n/4 - 1, n - 2, n - 1} {
			if p+len(q) > n {
				continue
			}
			k++
			copy(b[p:], q)
			all(k)
			copy(b, base)
			all(k + 1)
			if k%5 == 0 {
				b = b[:n-1]
				all(k)
				b = append(b, base[n-1], ' ')
				all(k)
				b = b[:n]
				all(k)
			}
		}
	}
	x.Beat()
}

type heldJSON struct{ b *[]byte }
type heldText struct{ b *[]byte }

func (h heldJSON) MarshalJSON() ([]byte, error) { return *h.b, nil }
func (h heldText) MarshalText() ([]byte, error) { return *h.b, nil }

func inPlaceTypes() []reflect.Type {
	var l []reflect.Type
	for _, v := range []interface{}{false, 0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), 0.0, "", []byte{}, []string{}, []int{}, []bool{}, [3]int{}, [2]string{}, [4]byte{}, map[string]int{}, map[int]string{}, map[string][]string{},
		time.Duration(0), lEmb{}, struct {
			A int
			B string
			C []int
		}{}, struct{ A *int }{}, (*int)(nil), (**string)(nil), (*lEmb)(nil), []lEmb{}, []*lEmb{}, map[string]lEmb{}, map[string]*int{}, nBytes{}, textStr(""), (*textStr)(nil), struct {
			A string `json:",omitempty"`
			B *string
			lEmb
		}{}, [][]int{}, [1]*int{}} {
		l = append(l, reflect.TypeOf(v))
	}
	for _, m := range []string{"VNNN", "NVNN", "NNPN", "NNNP"} {
		l = append(l, kit.Lookup("Int", m).T)
	}
	return l
}

func listValue() interface{} {
	return struct {
		A  int
		B  string
		C  []int
		AB int
		D  string `json:"A B"`
		E  string `json:"A|B"`
		F  string `json:"A;B"`
		G  string `json:"A.B"`
		H  string `json:"A:B"`
		I  string `json:"[A B]"`
		J  int    `json:"a"`
		K  int    `json:"A/B"`
		L  int    `json:"A&B"`
		M  struct{ A, B int }
	}{1, "b", []int{1}, 2, "d", "e", "f", "g", "h", "i", 3, 4, 5, struct{ A, B int }{6, 7}}
}

func listsAlike() [][]string {
	l := [][]string{nil, {}, {""}, {"", ""}, {"A"}, {"B"}, {"a"}, {"A", ""}, {"", "A"}, {"A", "B"}, {"B", "A"}, {"A", "A"}, {"A", "B", "A"}, {"A", "B", "C"}, {"A", "C", "B"}, {"AB"}, {"AB", "C"}, {"A", "BC"}, {"ABC"}, {"B", "B"}, {"M", "A"}, {"M", "B"}, {"M", "A", "B"}, {"A", "M", "AB"}}
	for _, s := range []string{",", " ", "|", ";", ".", ":", "/", "&", "\x00", "\n", "\t", "\", \"", "\xff", "\x1f"} {
		l = append(l, []string{"A" + s + "B"}, []string{"M", "A" + s + "B"}, []string{"A" + s + "B", "C"})
	}
	return append(l, []string{"[A B]"}, []string{"A,B,C"}, []string{"A", "B,C"}, []string{"A,B", "A", "B"})
}

func usualValues() []interface{} {
	n, s, t, d := 5, "p<", time.Date(2021, 3, 4, 5, 6, 7, 89, time.UTC), 90*time.Second
	const q = "<\xff\"\u2028"
	return []interface{}{
		"", "plain", q, true, 7, int64(-8), uint8(9), 1.5, float32(0.1), json.Number(""), json.Number("1.50"), json.Number("x<"), json.RawMessage(nil), json.RawMessage(` { "<" : [ 1 ] } `), t, time.Time{}, d, &n, &s, &t, &d, (*int)(nil), (*string)(nil), (*time.Time)(nil),
		map[string]string(nil), map[string]string{}, map[string]string{q: q}, map[string]string{"b": q, "a<": "", "c": "x"},
		map[string]interface{}(nil), map[string]interface{}{}, map[string]interface{}{q: nil}, map[string]interface{}{"b": []byte("<"), "a": map[string]int(nil), "c": []int(nil), "d": t},
		map[string]int(nil), map[string]int{}, map[string]int{"b": 1, "a": 2, q: 3}, map[string]bool{"y": true, "x": false}, map[string]float64{"b": 1, "a": .5},
		map[int]string(nil), map[int]string{10: q, 9: ""}, map[int]interface{}{2: d, 1: nil}, map[string][]string(nil), map[string][]string{"b": nil, "a": {}, "<": {q, "x"}},
		map[string]map[string]string{"b": nil, "a": {}, "<": {q: q}}, map[interface{}]int(nil), map[string]struct{}{"b": {}, "a": {}},
		[]interface{}(nil), []interface{}{}, []interface{}{nil}, []interface{}{q, nil, []interface{}(nil), map[string]interface{}(nil), []byte("<"), t, d},
		[]string(nil), []string{}, []string{""}, []string{q, "x", ""}, []int(nil), []int{}, []int{1, -2, 3}, []byte(nil), []byte{}, []byte(q), []bool{true, false}, []float64{1, .5}, []int64(nil), []uint64{1},
		[][]byte(nil), [][]byte{nil, {}, []byte(q)}, [][]string{nil, {}, {q}}, []map[string]interface{}{nil, {}, {q: q}}, []map[string]string{nil, {q: ""}}, []time.Time{t, {}}, []time.Duration{d, 0}, []*string{&s, nil}, []json.RawMessage{nil, []byte(` 1 `), []byte(`"<"`)}, []json.Number{"1", ""}, []error{nil},
		[3]byte{'<', 0xff, '"'}, [0]byte{}, [2]string{q, ""}, [2][]int{nil, {}}, struct{}{}, (*struct{})(nil), new(interface{}), syncMapOf(), syncMapOf(q, q, "a", []int(nil)), (*sync.Map)(nil),
	}
}
