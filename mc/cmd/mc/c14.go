package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

type (
	alIn struct {
		A int    `json:"a"`
		B string `json:"b<"`
		C *alIn  `json:"c,omitempty"`
	}
	alEmb struct {
		A int // shadows nothing: JSON name "A"
		D []alIn
	}
	alVal struct {
		A  int `json:"a"`
		B  string
		In alIn `json:"b<"`
		alEmb
		*AlPtr
		C    map[string]interface{} `json:"c"`
		S    *sync.Map              `json:"s"`
		Any  interface{}            `json:"any"`
		Arr  [1]alIn                `json:"arr"`
		Raw  json.RawMessage        `json:"raw"`
		J    rawMarshaler           `json:"j"`
		Text string                 `json:"text"`
		PP   **alIn                 `json:"pp,omitnil"`
		MP   map[int]*alIn          `json:"mp,omitempty"`
	}
	// AlPtr is embedded by pointer.
	AlPtr struct {
		E int `json:"e"`
		F alIn
	}
)

func alValue(big bool) interface{} {
	in := alIn{1, `{"a":1}`, &alIn{2, "b<", nil}}
	p := &in
	v := &alVal{A: 1, B: "B", In: in, alEmb: alEmb{3, []alIn{in, {}}}, AlPtr: &AlPtr{4, in},
		C:   map[string]interface{}{"a": 1, "b<": alIn{5, "x", nil}, "zz": []interface{}{&in, 1}},
		S:   syncMapOf("a", in, "b<", &in, "A", 1),
		Any: &in, Arr: [1]alIn{in}, Raw: json.RawMessage(`{"a":1,"b<":{"c":2}}`), J: rawMarshaler(`{"a": [1]}`), Text: `"a":1,"c":2`, PP: &p, MP: map[int]*alIn{1: p, 2: nil}}
	if !big {
		return struct {
			A int `json:"a"`
			alEmb
			C interface{} `json:"c,omitempty"`
			*AlPtr
		}{1, alEmb{2, nil}, map[string]int{"a": 1}, nil}
	}
	return v
}

func init() {
	drive.Describe("C14", "Every pair of an allow and a deny list over 7 names (each absent, or any subset), on values that use the names as members, map keys, strings and inside raw JSON.")
	names := []string{"a", "b<", "c", "A", "D", "e", "any"}
	subset := func(m int) []string {
		l := []string{}
		for i, n := range names {
			if m>>uint(i)&1 == 1 {
				l = append(l, n)
			}
		}
		return l
	}
	drive.Add("C14",
		&core.Scenario{Name: "pairs", Doc: "129 allow lists x 129 deny lists (none, or any subset of 7 names), on a nested value; sorted maps",
			SplitDepth: 1,
			Run: func(x *core.X) {
				a := x.Choose("allow", 129)
				for d := 0; d < 129; d++ {
					if !x.Thorough && a != 128 && d != 128 && (a*31+d*17)%4 != 0 {
						continue
					}
					o := &ref.Opts{HasAllow: a < 128, HasDeny: d < 128, Allow: subset(a & 127), Deny: subset(d & 127)}
					check(x, alValue(true), o)
					check(x, alValue(false), o)
				}
			}},
		&core.Scenario{Name: "single-names", Doc: "each single name of 24 (present, absent, Go names of renamed members, other case, escaped forms, empty) allowed, denied, or both, with duplicates and in any order, at every position of a struct",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ns := []string{"a", "b<", "c", "A", "B", "C", "D", "d", "e", "E", "F", "f", "", "b\\u003c", "\"a\":", "a,omitempty", "alEmb", "AlPtr", "s", "any", "Any", "pp", "mp", "text"}
				n := ns[x.Choose("name", len(ns))]
				k := x.Choose("lists", 7)
				o := &ref.Opts{}
				switch k {
				case 0:
					o.HasAllow, o.Allow = true, []string{n}
				case 1:
					o.HasDeny, o.Deny = true, []string{n, n}
				case 2:
					o.HasAllow, o.Allow = true, []string{"a", "b<", n, "c", "a"}
				case 3:
					o.HasAllow, o.HasDeny, o.Allow, o.Deny = true, true, []string{n, "a"}, []string{n}
				case 4:
					o.HasAllow, o.HasDeny, o.Allow, o.Deny = true, true, ns, []string{n}
				case 5:
					o.HasAllow, o.Allow = true, nil
				case 6:
					o.HasDeny, o.Deny = true, nil
				}
				w, _ := at(x, reflect.ValueOf(alIn{1, `b"`, &alIn{A: 2}}), places)
				check(x, w, o)
				check(x, alValue(true), o)
				p := *o
				p.NoHTMLEscaping, p.UnsortedMap = true, true
				check(x, alValue(false), &p)
			}},
		&core.Scenario{Name: "embedding", Doc: "allow and deny lists over the members of 43 written struct types with embedded structs: each member alone, each member left out",
			MaxDev: 0, SplitDepth: 2,
			Run: func(x *core.X) {
				v := reflect.ValueOf(embTypes[x.Choose("type", len(embTypes))]())
				n := 0
				fillAny(x, v.Elem(), &n, 2)
				fs := ref.Fields(v.Elem().Type())
				for _, f := range fs {
					check(x, v.Interface(), &ref.Opts{HasAllow: true, Allow: []string{f.Name}})
					check(x, v.Elem().Interface(), &ref.Opts{HasDeny: true, Deny: []string{f.Name}})
				}
				check(x, v.Interface(), &ref.Opts{HasAllow: true})
			}},
	)

	drive.Describe("C15", "A value that shows the effect of every option, under every set of the 11 flags and small domains of the valued options; all sequences of options of bounded length; all positions.")
	drive.Add("C15",
		&core.Scenario{Name: "all-flags", Doc: "2048 sets of flags x layouts (3) x duration formats (3) x context x allow/deny lists (4) on one value with every kind of subject",
			SplitDepth: 2,
			Run: func(x *core.X) {
				hi := x.Choose("flags high", 32)
				lay := x.Choose("layout", 3)
				for lo := 0; lo < 64; lo++ {
					o := (&ref.Opts{}).SetFlags(hi<<6 | lo)
					o.TimeLayout = []string{"", time.RFC850 + "<\"", time.RFC3339}[lay]
					n := hi*64 + lo
					ds := []int{n % 4}
					if x.Thorough {
						ds = []int{0, 1, 2, 3}
					}
					for _, d := range ds {
						switch d {
						case 1:
							o.HasDur, o.Dur = true, jettison.DurationString
						case 2:
							o.HasDur, o.Dur = true, jettison.DurationMinutes
						case 3:
							o.HasDur, o.Dur = true, jettison.DurationNanoseconds
						}
						for l := 0; l < 4; l++ {
							if !x.Thorough && (n+d)%4 != l && l > 0 {
								continue
							}
							o.HasAllow, o.HasDeny, o.Allow, o.Deny, o.Ctx = l&1 != 0, l&2 != 0, []string{"t", "d", "m", "by", "C", "S", "n", "raw", "up"}, []string{"d", "raw", "I"}, nil
							if l > 1 {
								o.Ctx = context.WithValue(context.Background(), ctxKey{}, l)
							}
							check(x, optValue(), o)
						}
					}
				}
			}},
		&core.Scenario{Name: "sequences", Doc: "every sequence of up to 3 (4) options out of 24 (flags, valued options with two values each, nil and invalid ones), compared with the set of their last values",
			SplitDepth: 2,
			Run: func(x *core.X) {
				if x.Thorough {
					optSequence(x, 4)
				} else {
					optSequence(x, 3)
				}
			}},
		&core.Scenario{Name: "positions", Doc: "19 values, each showing one option, at every position, under that option, under none, and under all the others",
			SplitDepth: 2,
			Run: func(x *core.X) {
				s := optSubjects[x.Choose("subject", len(optSubjects))]
				w, _ := at(x, reflect.ValueOf(s), places)
				check(x, w, nil)
				for f := 0; f < 11; f++ {
					o := (&ref.Opts{}).SetFlags(1 << uint(f))
					check(x, w, o)
					if x.Thorough || f == 5 || f == 8 {
						check(x, w, (&ref.Opts{TimeLayout: time.RFC822, HasDur: true, Dur: jettison.DurationSeconds}).SetFlags(2047&^(1<<uint(f))))
					}
				}
				check(x, w, &ref.Opts{TimeLayout: time.Kitchen})
				check(x, w, &ref.Opts{HasDur: true, Dur: jettison.DurationMilliseconds})
				check(x, w, &ref.Opts{Ctx: context.Background()})
			}},
		&core.Scenario{Name: "nested-positions", Doc: "6 values showing options, at every pair of 24 positions, under 4 option sets",
			SplitDepth: 3,
			Run: func(x *core.X) {
				subj := []interface{}{optSubjects[0], optSubjects[2], optSubjects[4], optSubjects[6], optSubjects[9], optSubjects[16]}
				v := reflect.ValueOf(subj[x.Choose("subject", len(subj))])
				pl := places[:40]
				p := pl[x.Choose("inner", len(pl))]
				w, ok := p.mk(v)
				if !ok {
					x.Skip()
				}
				u, _ := at(x, w, pl)
				check(x, u, nil)
				check(x, u, (&ref.Opts{TimeLayout: time.RFC822, HasDur: true, Dur: jettison.DurationSeconds}).SetFlags(2047))
				check(x, u, (&ref.Opts{TimeLayout: time.RFC822, HasDur: true, Dur: jettison.DurationString}).SetFlags(2047&^(1<<6|1)))
			}},
		&core.Scenario{Name: "reuse", Doc: "24 option values and 6 lists made once: a call with every ordered pair of them, then one with each of the two alone, the two in the other order, and each with a third: an option value means the same in every call",
			SplitDepth: 2,
			Run: func(x *core.X) {
				lists := [][]string{{"t", "m", "s"}, {"m", "by", "n"}, {}}
				type made struct {
					opt jettison.Option
					set func(m *ref.Opts, bad *[3]bool)
				}
				var all []made
				for k := 0; k < 24; k++ {
					k := k
					opt := applyOpt(k, &ref.Opts{}, &[3]bool{})
					all = append(all, made{opt, func(m *ref.Opts, bad *[3]bool) { applyOpt(k, m, bad) }})
				}
				for _, l := range lists {
					l := l
					all = append(all,
						made{jettison.AllowList(append([]string(nil), l...)), func(m *ref.Opts, _ *[3]bool) { m.HasAllow, m.Allow = true, l }},
						made{jettison.DenyList(append([]string(nil), l...)), func(m *ref.Opts, _ *[3]bool) { m.HasDeny, m.Deny = true, l }})
				}
				a, b := all[x.Choose("first", len(all))], all[x.Choose("second", len(all))]
				v := optValue()
				call := func(os ...made) {
					m := &ref.Opts{Dur: jettison.DurationNanoseconds, HasDur: true, TimeLayout: time.RFC3339Nano}
					bad := [3]bool{}
					var opts []jettison.Option
					for _, o := range os {
						o.set(m, &bad)
						opts = append(opts, o.opt)
					}
					got, err := jettison.MarshalOpts(v, opts...)
					if bad[0] || bad[1] || bad[2] {
						if err == nil {
							x.Failf("invalid option accepted")
						}
						return
					}
					nd, want := ref.Encode(v, m)
					judge(x, v, m, got, err, nd, want)
				}
				call(a, b)
				call(a)
				call(b)
				call(b, a)
				call(a)
				call(b)
				for i := 0; i < len(all); i++ {
					if !x.Thorough && i < 24 && i%4 != 0 {
						continue
					}
					call(all[i], a)
					call(b, all[i])
				}
				call(a, b)
			}},
		&core.Scenario{Name: "calls", Doc: "every ordered pair of calls with options out of 24, and a call with options from within a marshaling method of another call: no option leaks",
			SplitDepth: 2,
			Run: func(x *core.X) {
				a, b := x.Choose("first", 24), x.Choose("second", 25)
				mk := func(k int) (*ref.Opts, jettison.Option, bool) {
					m := &ref.Opts{Dur: jettison.DurationNanoseconds, HasDur: true, TimeLayout: time.RFC3339Nano}
					var bad [3]bool
					if k == 24 {
						return m, nil, false
					}
					opt := applyOpt(k, m, &bad)
					return m, opt, bad[0] || bad[1] || bad[2]
				}
				ma, oa, ba := mk(a)
				mb, ob, bb := mk(b)
				one := func(v interface{}, m *ref.Opts, o jettison.Option, bad bool) {
					got, err := jettison.MarshalOpts(v, o)
					if bad {
						if err == nil {
							x.Failf("option %d accepted", a)
						}
						return
					}
					h := kit.Hook
					kit.Hook = nil
					nd, want := ref.Encode(v, m)
					kit.Hook = h
					judge(x, v, m, got, err, nd, want)
				}
				v := optValue()
				one(v, ma, oa, ba)
				one(v, mb, ob, bb)
				got, err := jettison.Marshal(v)
				nd, want := ref.Encode(v, nil)
				judge(x, v, nil, got, err, nd, want)
				one(v, ma, oa, ba)
				// from within a method
				t := kit.Lookup("Int", []string{"NVNN", "NNVN", "NNNV", "VNNN"}[(a+b)%4]).T
				outer := []interface{}{v, kit.Fill(t).Interface(), v, map[string]interface{}{"k": kit.FillN(t, 2).Interface(), "l": v}, kit.FillN(t, 3).Interface(), time.Second, "<\xff"}
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					h := kit.Hook
					kit.Hook = nil
					one(v, mb, ob, bb)
					kit.Hook = h
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				one(outer, ma, oa, ba)
			}},
	)
}

// optSubjects show the effect of the options one by one.
var optSubjects = []interface{}{
	time.Date(2021, 3, 4, 5, 6, 7, 89, time.UTC), map[string]int{"b": 1, "a<": 2}, []byte("<a\xff"), [2]byte{'<', 'b'}, map[string]int(nil), []int(nil), "<&>\"\\\n\xff\u2028",
	json.RawMessage(` {"<" : 1} `), rawMarshaler(` [ "<" ] `), json.Number("1"), time.Duration(90500) * time.Millisecond, textStr("<\"\xff"), syncMapOf("<b", 1, "a", []int(nil)), struct {
		A string `json:"a<,string"`
	}{"<\""}, map[string]bool{}, []string{"<", "a"}, map[textKey][]byte{{"<k"}: nil, {"j"}: []byte("<")}, [0]byte{}, []byte(nil), nBytes("<"),
}

func optValue() interface{} {
	return &struct {
		T   time.Time              `json:"t"`
		TP  *time.Time             `json:"tp"`
		M   map[string]interface{} `json:"m"`
		By  []byte                 `json:"by"`
		Arr [3]byte
		NM  map[int]int
		NS  []string
		S   string          `json:"s<"`
		Raw json.RawMessage `json:"raw"`
		J   rawMarshaler
		N   json.Number    `json:"n"`
		D   time.Duration  `json:"d"`
		DP  *time.Duration `json:",string"`
		TX  textStr
		SM  *sync.Map
		Up  []interface{} `json:"up"`
		C   interface{}
		I   int
		Q   string `json:",string"`
		CX  kit.Int_VNNN
	}{T: time.Date(2021, 3, 4, 5, 6, 7, 89, time.UTC), TP: new(time.Time), M: map[string]interface{}{"b<": []int(nil), "a": time.Minute, "c": map[string]int(nil)}, By: []byte("<a\xff"), Arr: [3]byte{'<', 0, 'b'},
		S: "<\u2028\"\xff", Raw: json.RawMessage(` [ "<" ] `), J: rawMarshaler(`{"a" : 1}`), N: "1.50", D: 61 * time.Second, DP: new(time.Duration), TX: "<t", SM: syncMapOf("<", nil, "a", [1]byte{'z'}),
		Up: []interface{}{[]byte("x"), time.Unix(0, 0).UTC(), json.Number("7"), "é"}, C: map[textKey]int{{"<"}: 1}, I: 7, Q: "<q\""}
}

var ctxA, ctxB = context.WithValue(context.Background(), ctxKey{}, "A"), context.WithValue(context.Background(), ctxKey{}, "B")

// applyOpt returns option k and applies it to the model.
func applyOpt(k int, m *ref.Opts, bad *[3]bool) jettison.Option {
	if k < 11 {
		p := &ref.Opts{}
		p.SetFlags(1 << uint(k))
		m.Merge(p)
		return p.Options()[0]
	}
	switch k {
	case 11:
		m.TimeLayout, bad[1] = time.RFC850, false
		return jettison.TimeLayout(time.RFC850)
	case 12:
		m.TimeLayout, bad[1] = "2006<", false
		return jettison.TimeLayout("2006<")
	case 13:
		m.Dur, bad[2] = jettison.DurationString, false
		return jettison.DurationFormat(jettison.DurationString)
	case 14:
		m.Dur, bad[2] = jettison.DurationSeconds, false
		return jettison.DurationFormat(jettison.DurationSeconds)
	case 15:
		m.Ctx, bad[0] = ctxA, false
		return jettison.WithContext(ctxA)
	case 16:
		m.Ctx, bad[0] = ctxB, false
		return jettison.WithContext(ctxB)
	case 17:
		m.HasAllow, m.Allow = true, []string{"t", "m", "Q", "up"}
		return jettison.AllowList(m.Allow)
	case 18:
		m.HasAllow, m.Allow = true, []string{"by", "m", "Q"}
		return jettison.AllowList(m.Allow)
	case 19:
		m.HasDeny, m.Deny = true, []string{"m", "I", "s<"}
		return jettison.DenyList(m.Deny)
	case 20:
		return nil
	case 21:
		bad[0] = true
		return jettison.WithContext(nil) //nolint
	case 22:
		bad[1] = true
		return jettison.TimeLayout("")
	default:
		bad[2] = true
		return jettison.DurationFormat(6)
	}
}

// optSequence checks a call with every sequence of up to n options.
func optSequence(x *core.X, n int) {
	var opts []jettison.Option
	m := &ref.Opts{Dur: jettison.DurationNanoseconds, HasDur: true, TimeLayout: time.RFC3339Nano}
	bad := [3]bool{} // context, layout, duration
	desc := ""
	for i := 0; i < n; i++ {
		k := x.Choose("option", 25)
		if k == 24 {
			break
		}
		opt := applyOpt(k, m, &bad)
		desc += fmt.Sprint(k, " ")
		opts = append(opts, opt)
	}
	v := optValue()
	b, err := jettison.MarshalOpts(v, opts...)
	if bad[0] || bad[1] || bad[2] {
		if _, ok := err.(*jettison.InvalidOptionError); !ok || b != nil {
			x.Failf("options %s: got %q, %v; want InvalidOptionError", desc, b, err)
		}
		_, err := jettison.AppendOpts(nil, v, opts...)
		if _, ok := err.(*jettison.InvalidOptionError); !ok {
			x.Failf("options %s: AppendOpts: %v; want InvalidOptionError", desc, err)
		}
		x.Obs([]byte("invalid"))
		return
	}
	nd, want := ref.Encode(v, m)
	judge(x, v, m, b, err, nd, want)
	// the same option values again, on another value, twice
	for i := 0; i < 2; i++ {
		b, err = jettison.MarshalOpts(&[]interface{}{v}, opts...)
		nd, want = ref.Encode(&[]interface{}{v}, m)
		judge(x, v, m, b, err, nd, want)
	}
}
