package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// Scenarios that climb a ladder of one quantity - lengths, numbers, sizes,
// depths - well beyond what values usually have.

type lEmb struct{ A, B int }

// chainOf is a struct type that embeds another one, and so on, n levels deep.
// how: 0 by value, 1 by pointer, 2 in turn, 3 only the innermost by pointer.
// names: 0 members of different names at every level, 1 the same name at every
// level, 2 only the innermost has members, 3 a tagged member below plain ones.
func chainOf(n, how, names int) reflect.Type {
	t := reflect.StructOf([]reflect.StructField{sf("Last", intT, ""), sf("X", strT, ""), sf("T", intT, `json:"x"`)})
	for i := n - 1; i >= 0; i-- {
		e := t
		if how == 1 || how == 2 && i%2 == 0 || how == 3 && i == n-1 {
			e = reflect.PtrTo(t)
		}
		fs := []reflect.StructField{{Name: fmt.Sprint("E", i), Type: e, Anonymous: true}}
		switch names {
		case 0:
			fs = append([]reflect.StructField{sf(fmt.Sprint("A", i), boolT, "")}, append(fs, sf(fmt.Sprint("B", i), strT, `json:",omitempty"`))...)
		case 1:
			fs = append(fs, sf("X", intT, ""))
		case 3:
			fs = append(fs, sf("Y", boolT, []string{"", `json:"Last"`}[b2i(i == n/2)]))
		}
		t = reflect.StructOf(fs)
	}
	return t
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// fillChain sets the members of such a value down to level nilAt, where the
// embedded pointer stays nil.
func fillChain(v reflect.Value, nilAt int) {
	for l := 0; ; l++ {
		var next reflect.Value
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Anonymous {
				if f.Kind() == reflect.Ptr {
					if l >= nilAt {
						continue
					}
					f.Set(reflect.New(f.Type().Elem()))
					f = f.Elem()
				}
				next = f
				continue
			}
			f.Set(kit.FillN(f.Type(), l+i+1))
		}
		if !next.IsValid() {
			return
		}
		v = next
	}
}

// lName is a name of n bytes, of a kind.
func lName(n, kind int) string {
	switch kind {
	case 0:
		return strings.Repeat("n", n)
	case 1:
		return strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
	case 2:
		return strings.Repeat("<", n)
	}
	return strings.Repeat("世", n/3) + strings.Repeat("&", n%3)
}

// wrappers of numbered marshalers that marshal the rest of a chain.
type reLink struct {
	n, size int
	kind    int
	out     *[][]byte
}

func (r reLink) text() string { return strings.Repeat(string(rune('a'+r.n%26)), r.size) }

func (r reLink) MarshalJSON() ([]byte, error) {
	if r.n == 0 {
		return []byte(`"` + r.text() + `"`), nil
	}
	n := r
	n.n--
	var v interface{}
	switch r.kind {
	case 0: // text before the inner one
		v = []interface{}{r.text(), n}
	case 1: // before and behind
		v = []interface{}{r.text(), n, r.text()}
	case 2: // behind
		v = struct {
			N interface{}
			S string
		}{n, r.text()}
	case 3: // in a map
		v = map[string]interface{}{"a": r.text(), "b": n, "c": r.text()}
	default: // in a sync.Map
		v = syncMapOf("a", r.text(), "b", n, "c", r.text())
	}
	b, err := jettison.Marshal(v)
	*r.out = append(*r.out, b)
	return b, err
}

func (r reLink) want() string {
	if r.n == 0 {
		return `"` + r.text() + `"`
	}
	n := r
	n.n--
	switch r.kind {
	case 0:
		return fmt.Sprintf(`["%s",%s]`, r.text(), n.want())
	case 1:
		return fmt.Sprintf(`["%s",%s,"%[1]s"]`, r.text(), n.want())
	case 2:
		return fmt.Sprintf(`{"N":%s,"S":"%s"}`, n.want(), r.text())
	}
	return fmt.Sprintf(`{"a":"%s","b":%s,"c":"%[1]s"}`, r.text(), n.want())
}

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%.100q... (%d bytes)", b, len(b))
	}
	return fmt.Sprintf("%q", b)
}

// sameBytes compares long outputs.
func sameBytes(x *core.X, what string, got, want []byte, err error) {
	if err != nil {
		x.Failf("%s: %v", what, err)
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		x.Failf("%s: %d bytes, want %d; from byte %d: got %.120q, want %.120q", what, len(got), len(want), i, got[i:], want[i:])
	}
	if len(got) < 1<<12 {
		x.Obs(got)
	} else {
		x.Obs([]byte(fmt.Sprint(len(got), string(got[len(got)-64:]))))
	}
	x.Sample(func() string { return what + ": " + short(got) })
}

func init() {
	drive.Add("C15",
		&core.Scenario{Name: "many", Doc: "lists of n options, for all n to 70 (300) and around the powers of two and ten to 1024 (65536), of which one (each of 24) counts, first, in the middle or last, and the others are nil, the same one again, or ones it overrides",
			SplitDepth: 2,
			Run: func(x *core.X) {
				k := x.Choose("option", 24)
				fill := x.Choose("others", 4)
				l := ladder(70, 1<<10)
				if x.Thorough {
					l = ladder(300, 1<<16)
				}
				for _, n := range l {
					if n == 0 {
						continue
					}
					for _, at := range []int{0, n / 2, n - 1} {
						m := &ref.Opts{Dur: jettison.DurationNanoseconds, HasDur: true, TimeLayout: time.RFC3339Nano}
						var bad [3]bool
						var opts []jettison.Option
						for i := 0; i < n; i++ {
							switch {
							case i == at:
								opts = append(opts, applyOpt(k, m, &bad))
							case fill == 0:
								opts = append(opts, nil)
							case fill == 1:
								opts = append(opts, applyOpt(k, m, &bad))
							case fill == 2:
								opts = append(opts, applyOpt((i*5)%24, m, &bad))
							default:
								opts = append(opts, applyOpt(k^1, m, &bad))
							}
						}
						v := optValue()
						b, err := jettison.MarshalOpts(v, opts...)
						if bad[0] || bad[1] || bad[2] {
							if err == nil {
								x.Failf("%d options with an invalid one (%d at %d, others %d) accepted: %q", n, k, at, fill, b)
							}
							continue
						}
						nd, want := ref.Encode(v, m)
						judge(x, v, m, b, err, nd, want)
					}
					x.Beat()
				}
			}},
	)
	drive.Add("C03",
		&core.Scenario{Name: "chains", Doc: "embedded structs to every depth to 60 (150), by value, by pointer, in turn, or only the innermost by pointer, with members of different names, of the same name, only innermost, or a tagged one below; filled, and with the pointer at each level nil",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 60
				if x.Thorough {
					n = 150
				}
				n = 1 + x.Choose("depth", n)
				how, names := x.Choose("how", 4), x.Choose("names", 4)
				t := chainOf(n, how, names)
				v := reflect.New(t)
				fillChain(v.Elem(), n)
				check(x, v.Elem().Interface(), nil)
				check(x, v.Interface(), nil)
				check(x, []interface{}{v.Elem().Interface(), reflect.Append(mkSlice(t, v.Elem()), v.Elem()).Interface()}, nil)
				if how > 0 {
					for l := 0; l < n; l++ {
						u := reflect.New(t)
						fillChain(u.Elem(), l)
						check(x, u.Interface(), nil)
					}
				}
				x.Beat()
			}},
		&core.Scenario{Name: "long-names", Doc: "member names of every length to 130 (600) and around the powers of two and ten to 4096 (65536), of 4 kinds of characters, as the only one, beside ones that differ in the first, middle or last character or in one more character, plain, renamed and promoted; written without and with NoHTMLEscaping, allowed and denied",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(130, 1<<12)
				if x.Thorough {
					l = ladder(600, 1<<16)
				}
				n := l[x.Choose("length", len(l))]
				if n == 0 {
					x.Skip()
				}
				kind := x.Choose("kind", 4)
				s := lName(n, kind)
				tag := func(s string) string { return fmt.Sprintf("json:%q", s) }
				mid := []rune(s)
				mid[len(mid)/2] = 'm'
				last := []rune(s)
				last[len(last)-1] = 'l'
				first := []rune(s)
				first[0] = 'f'
				in := reflect.StructOf([]reflect.StructField{sf("P", intT, tag(s)), sf("Q", intT, tag(s+"q")), sf("R", intT, tag(string(last)))})
				for _, fs := range [][]reflect.StructField{
					{sf("A", intT, tag(s))},
					{sf("A", intT, tag(s+",omitempty")), sf("B", intT, tag(s+"x")), sf("C", intT, "")},
					{sf("A", intT, tag(s)), sf("B", intT, tag(string(mid))), sf("C", strT, tag(s+"<"))},
					{sf("A", strT, tag(string(first))), sf("B", intT, tag(s)), sf("C", strT, tag(string(last)))},
					{sf("A", strT, ""), {Name: "In", Type: in, Anonymous: true}, sf("B", intT, tag(s))},
					{{Name: "In", Type: reflect.PtrTo(in), Anonymous: true}, sf("C", intT, tag(s[:len(s)-len(string([]rune(s)[len([]rune(s))-1]))]))},
					{sf("A"+strings.Repeat("n", n), intT, ""), sf("A"+strings.Repeat("n", n-1)+"m", strT, ""), sf("A"+strings.Repeat("n", n+1), boolT, "")},
				} {
					v := reflect.New(reflect.StructOf(fs))
					c := 0
					fillAny(nil, v.Elem(), &c, 3)
					for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true}, {HasAllow: true, Allow: []string{s, s + "x", string(mid)}}, {HasDeny: true, Deny: []string{"C", s, string(last)}}} {
						nd, want := ref.Encode(v.Interface(), o)
						b, err := enc(v.Interface(), o)
						if want != nil {
							x.Failf("MODEL: %v", want)
						}
						sameBytes(x, fmt.Sprintf("name of %d bytes of kind %d in %d members, %s", n, kind, len(fs), optKind(o)), b, nd.Bytes(), err)
					}
				}
				x.Beat()
			}},
	)
	drive.Add("C20",
		&core.Scenario{Name: "far", Doc: "structs with n unseen bytes before their members, plain, embedded by value and inside one another, and slices and arrays of them of 3 elements, maps and pointers to them, for all n to 40 (300) and around the powers of two to 2^20 (2^24), with members of 10 types: every member where it is",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := append(ladder(40, 1<<8), edges(1<<9, 1<<20)...)
				if x.Thorough {
					l = append(ladder(300, 1<<10), edges(1<<11, 1<<24)...)
				}
				n := l[x.Choose("offset", len(l))]
				ts := []reflect.Type{reflect.TypeOf(byte(0)), intT, strT, reflect.PtrTo(intT), anyT, reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), boolT, reflect.TypeOf(kit.Int_NVNN(0)), reflect.TypeOf(time.Duration(0))}
				t := ts[x.Choose("type", len(ts))]
				pad := sf("Pad", reflect.ArrayOf(n, reflect.TypeOf(byte(0))), `json:"-"`)
				st := reflect.StructOf([]reflect.StructField{sf("A", t, ""), pad, sf("B", t, ""), sf("C", t, `json:",omitempty"`)})
				fill := func(v reflect.Value, k int) {
					v.Field(0).Set(kit.FillN(t, k))
					for i := 0; i < n; i++ {
						if i < 64 || i >= n-64 {
							v.Field(1).Index(i).SetUint(0xff)
						}
					}
					v.Field(2).Set(kit.FillN(t, k+1))
					v.Field(3).Set(kit.FillN(t, k+2))
				}
				cmp := func(v interface{}) {
					nd, want := ref.Encode(v, nil)
					if want != nil {
						x.Failf("MODEL: %v", want)
					}
					b, err := jettison.Marshal(v)
					sameBytes(x, fmt.Sprintf("%d bytes before members of %v (%s)", n, t, reflect.TypeOf(v).Kind()), b, nd.Bytes(), err)
				}
				s := reflect.New(st)
				fill(s.Elem(), 1)
				cmp(s.Interface())
				cmp(s.Elem().Interface())
				sl := reflect.MakeSlice(reflect.SliceOf(st), 3, 3)
				for i := 0; i < 3; i++ {
					fill(sl.Index(i), 4*i+2)
				}
				cmp(sl.Interface())
				ar := reflect.New(reflect.ArrayOf(3, st))
				reflect.Copy(ar.Elem(), sl)
				cmp(ar.Interface())
				out := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "E", Type: st, Anonymous: true}, sf("D", t, ""), sf("S", st, ""), sf("F", t, "")}))
				fill(out.Elem().Field(0), 3)
				fill(out.Elem().Field(2), 7)
				out.Elem().Field(1).Set(kit.FillN(t, 20))
				out.Elem().Field(3).Set(kit.FillN(t, 21))
				cmp(out.Interface())
				if n <= 1<<17 {
					cmp(mkMap(reflect.ValueOf("k"), s.Elem()).Interface())
					cmp(syncMapOf("k", s.Elem().Interface(), "p", s.Interface()))
				}
				x.Beat()
			}},
	)
	drive.Add("C01",
		&core.Scenario{Name: "large", Doc: "slices, arrays, strings and maps of lengths around the powers of two from 2^13 to 2^17 (2^20), of 8 types of elements; as encoding/json",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := edges(1<<14, 1<<17)
				if x.Thorough {
					l = edges(1<<14, 1<<20)
				}
				n := l[x.Choose("length", len(l))]
				ts := []reflect.Type{reflect.TypeOf(byte(0)), intT, strT, boolT, anyT, reflect.TypeOf(struct{}{}), reflect.TypeOf(lEmb{}), reflect.PtrTo(intT), reflect.TypeOf(int8(0))}
				t := ts[x.Choose("type", len(ts))]
				fill := func(v reflect.Value) {
					for i := 0; i < n; i++ {
						switch e := v.Index(i); e.Kind() {
						case reflect.Interface:
							e.Set(reflect.ValueOf([]interface{}{i, "x", nil}[i%2]))
						case reflect.Int, reflect.Int8:
							e.SetInt(int64(i))
						case reflect.Uint8:
							e.SetUint(uint64(i) & 255)
						case reflect.String:
							e.SetString("abc"[:i%4])
						case reflect.Struct:
							if e.NumField() > 0 {
								e.Set(reflect.ValueOf(lEmb{i, -i}))
							}
						case reflect.Ptr:
							if i%3 > 0 {
								e.Set(reflect.ValueOf(&i))
							}
						case reflect.Bool:
							e.SetBool(i%3 == 0)
						}
					}
				}
				cmp := func(v interface{}) {
					want, err := json.Marshal(v)
					if err != nil {
						x.Failf("MODEL: %v", err)
					}
					got, err := jettison.Marshal(v)
					sameBytes(x, fmt.Sprintf("%d elements of %v (%s)", n, t, reflect.TypeOf(v).Kind()), got, want, err)
				}
				s := reflect.MakeSlice(reflect.SliceOf(t), n, n)
				fill(s)
				cmp(s.Interface())
				if n < 1<<17 || x.Thorough {
					a := reflect.New(reflect.ArrayOf(n, t)).Elem()
					reflect.Copy(a, s)
					cmp(a.Interface())
					cmp(struct{ A, B interface{} }{a.Interface(), 1})
				}
				m := reflect.MakeMap(reflect.MapOf(intT, t))
				if n < 1<<15 || x.Thorough {
					for i := 0; i < n; i++ {
						m.SetMapIndex(reflect.ValueOf(i*3), s.Index(i))
					}
					cmp(m.Interface())
				}
				x.Beat()
			}},
	)
	drive.Add("C05",
		&core.Scenario{Name: "blocks", Doc: "strings of n bytes, for n around the powers of two from 2^10 to 2^18 (2^22), with each of 12 characters (escapes, runes of 2 to 4 bytes, invalid and truncated sequences) beginning up to 4 bytes before, at and behind each power of two from both ends, as value, text, key, member and raw bytes, under the sets of escaping options",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := edges(1<<10, 1<<18)
				if x.Thorough {
					l = edges(1<<10, 1<<22)
				}
				n := l[x.Choose("length", len(l))]
				toks := []string{"\"", "\\", "\n", "<", "\x00", "é", "\u2028", "世", "\U0001f600", "\xff", "\xe2\x80", "\xf0\x9f\x98"}
				tok := toks[x.Choose("character", len(toks))]
				for d := -4; d <= 1; d++ {
					b := bytes.Repeat([]byte{'a'}, n)
					for p := 256; p < n; p *= 2 {
						if i := p + d; i+len(tok) <= n {
							copy(b[i:], tok)
						}
						if i := n - p + d; i >= 0 && i+len(tok) <= n {
							copy(b[i:], tok)
						}
						if i := n/2 + d; i+len(tok) <= n {
							copy(b[i:], tok)
						}
					}
					s := string(b)
					for f := 0; f < 4; f++ {
						o := &ref.Opts{NoHTMLEscaping: f&1 != 0, NoUTF8Coercion: f&2 != 0}
						if n > 1<<14 && f != (d+4)%4 && !x.Thorough {
							continue
						}
						for k, v := range []interface{}{s, textStr(s), map[string]int{s: 1}, map[textKey]int{{s}: 1}, struct{ A string }{s}, syncMapOf(s, s), []byte(s)} {
							if n > 1<<14 && k > 0 && !x.Thorough && (k+d+4)%6 > 1 {
								continue
							}
							p := *o
							p.RawByteSlice = k == 6
							nd, want := ref.Encode(v, &p)
							if want != nil {
								x.Failf("MODEL: %v", want)
							}
							got, err := enc(v, &p)
							sameBytes(x, fmt.Sprintf("%q at %+d of the powers of two of %d bytes in %T %s", tok, d, n, v, optKind(&p)), got, nd.Bytes(), err)
						}
					}
					x.Beat()
				}
			}},
	)
	drive.Add("C17",
		&core.Scenario{Name: "reentrancy", Doc: "marshalers that marshal the next one with a text beside it, every depth to 20 (80) and around the powers of two to 64 (256), texts of 8 (14) sizes from 0 to 64 KiB (1 MiB), in 5 arrangements (text before, behind, around, in a map, in a sync.Map), twice in a row: every result, inner and outer, is complete and stays as it was",
			SplitDepth: 2,
			Run: func(x *core.X) {
				sizes := []int{0, 1, 100, 1000, 4000, 4096, 5000, 20000, 65536, 2000, 3000, 8192, 40000, 1 << 18, 1 << 20}
				l := ladder(20, 64)
				k := 9
				if x.Thorough {
					l, k = ladder(80, 256), len(sizes)
				}
				n := l[x.Choose("depth", len(l))]
				size := sizes[x.Choose("size", k)]
				if n*n*size > 1<<28 || n*n*size > 1<<24 && !x.Thorough {
					x.Skip()
				}
				kind := x.Choose("arrangement", 5)
				for round := 0; round < 2; round++ {
					var outs [][]byte
					r := reLink{n, size, kind, &outs}
					got, err := jettison.Marshal(r)
					want := r.want()
					sameBytes(x, fmt.Sprintf("%d links, texts of %d bytes, arrangement %d", n, size, kind), got, []byte(want), err)
					for i, b := range outs {
						r.n = i + 1
						if w := r.want(); string(b) != w {
							x.Failf("%d links, texts of %d bytes, arrangement %d: the result of link %d has become %s, want %s", n, size, kind, i+1, short(b), short([]byte(w)))
						}
					}
				}
				x.Beat()
			}},
		&core.Scenario{Name: "many-types", Doc: "n struct types, new in every execution, for n around the powers of two from 4 to 1024 (16384), used one after the other in 4 forms, then again in the same, the opposite and a mixed order, and under options: every result as the model's",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := edges(4, 1<<9)
				if x.Thorough {
					l = edges(4, 1<<13)
				}
				n := l[x.Choose("number", len(l))]
				fm := x.Choose("form", 4)
				vs := make([]reflect.Value, n)
				for i := range vs {
					vs[i] = reflect.New(freshStruct(i))
					c := i
					fillAny(nil, vs[i].Elem(), &c, 2)
				}
				mk := func(i, f int) interface{} {
					v := vs[i]
					switch f % 4 {
					case 0:
						return v.Interface()
					case 1:
						return v.Elem().Interface()
					case 2:
						return mkSlice(v.Type().Elem(), v.Elem()).Interface()
					}
					return mkMap(reflect.ValueOf("k"), v).Interface()
				}
				o := &ref.Opts{HasDeny: true, Deny: []string{"F0"}}
				for i := 0; i < n; i++ {
					check(x, mk(i, fm), nil)
				}
				for i := n - 1; i >= 0; i-- {
					check(x, mk(i, fm), nil)
				}
				for i := 0; i < n; i++ {
					j := (i*7 + 3) % n
					check(x, mk(j, fm+i), nil)
					check(x, mk(j, fm+i/2), o)
				}
				x.Beat()
			}},
	)
	drive.Add("C14",
		&core.Scenario{Name: "long-lists", Doc: "allow and deny lists of n names, for all n to 70 (300) and around the powers of two and ten to 4096 (65536), that have the member's name first, in the middle, last or not at all among other names, names that begin or end alike, or many times the same, for members of short and long names",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(70, 1<<12)
				if x.Thorough {
					l = ladder(300, 1<<16)
				}
				n := l[x.Choose("number", len(l))]
				others := x.Choose("others", 4)
				v := struct {
					A int    `json:"a"`
					B string `json:"member_of_a_longer_name"`
					C []int
					D map[string]interface{} `json:"d<"`
				}{1, "b", []int{3}, map[string]interface{}{"a": struct {
					A int `json:"a"`
					C *int
				}{A: 5}}}
				for _, name := range []string{"a", "member_of_a_longer_name", "C", "d<"} {
					for _, at := range []int{0, n / 2, n - 1, -1} {
						list := make([]string, n)
						for i := range list {
							switch {
							case i == at:
								list[i] = name
							case others == 0:
								list[i] = fmt.Sprint("x", i)
							case others == 1:
								list[i] = fmt.Sprint(name, i)
							case others == 2:
								list[i] = fmt.Sprint(i, name)
							default:
								list[i] = name[:len(name)-1]
							}
						}
						check(x, v, &ref.Opts{HasAllow: true, Allow: list})
						check(x, &v, &ref.Opts{HasDeny: true, Deny: list})
						check(x, v, &ref.Opts{HasAllow: true, Allow: append([]string{"a", "C"}, list...), HasDeny: true, Deny: list})
					}
				}
				x.Beat()
			}},
	)
	drive.Add("C11",
		&core.Scenario{Name: "long-layouts", Doc: "layouts of n bytes or elements, for all n to 130 (600) and around the powers of two and ten to 4096 (65536): runs of text, of elements, of characters to be escaped, and an element before, in and behind long text, on 3 times at 4 positions",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(130, 1<<12)
				if x.Thorough {
					l = ladder(600, 1<<16)
				}
				n := l[x.Choose("length", len(l))]
				if n == 0 {
					x.Skip()
				}
				unit := []string{"x", "é", "-", "2006", "05.000", "\"", "<", "Jan", "Z07:00", "\xff"}[x.Choose("unit", 10)]
				for _, lay := range []string{strings.Repeat(unit, n), "2006" + strings.Repeat(unit, n), strings.Repeat(unit, n) + "15:04", strings.Repeat(unit, n/2) + "Mon" + strings.Repeat(unit, n-n/2)} {
					for i, tm := range []time.Time{{}, time.Date(2021, 12, 31, 23, 59, 58, 123456789, time.FixedZone("É<", 3723)), time.Unix(1<<31, 5).UTC()} {
						if n > 300 && i != n%3 && !x.Thorough {
							continue
						}
						for _, v := range []interface{}{tm, &tm, struct{ A, B time.Time }{tm, tm}, map[string]time.Time{"k": tm}} {
							o := &ref.Opts{TimeLayout: lay}
							nd, want := ref.Encode(v, o)
							if want != nil {
								x.Failf("MODEL: %v", want)
							}
							got, err := enc(v, o)
							sameBytes(x, fmt.Sprintf("layout of %d times %q, %T", n, unit, v), got, nd.Bytes(), err)
						}
					}
				}
				x.Beat()
			}},
	)
	drive.Add("C16",
		&core.Scenario{Name: "long-destinations", Doc: "appending 9 values to slices of every length to 40 (300) and around the powers of two and ten to 2^17 (2^21), without and with spare capacity (1 byte less than needed, exactly, more), through Append and AppendOpts: the old content, then the encoding, in place if it fits",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(40, 1<<17)
				if x.Thorough {
					l = ladder(300, 1<<21)
				}
				n := l[x.Choose("length", len(l))]
				vals := []interface{}{1, "s<", []int{1, 2}, map[string]int{"b": 1, "a": 2}, json.RawMessage(" [ 1 , \"<\" ] "), syncMapOf("k", 1, "j", 2), rawMarshaler(`{"a": [ 1, 2 ] }`), struct {
					A, B interface{}
				}{[]byte("abc"), map[int]string{2: "x", 1: "y"}}, strings.Repeat("long \" text ", 700)}
				v := vals[x.Choose("value", len(vals))]
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true, NoCompact: true, Ctx: context.Background()}} {
					nd, _ := ref.Encode(v, o)
					w := nd.Bytes()
					for _, spare := range []int{0, len(w) - 1, len(w), len(w) + 1, 2*len(w) + 100} {
						back := make([]byte, n+spare+16)
						for i := range back {
							back[i] = byte(i*7 + i>>8)
						}
						keep := append([]byte(nil), back...)
						var got []byte
						var err error
						dst := back[: n : n+spare]
						if o == nil {
							got, err = jettison.Append(dst, v)
						} else {
							got, err = jettison.AppendOpts(dst, v, o.Options()...)
						}
						sameBytes(x, fmt.Sprintf("%T appended to %d bytes with %d spare", v, n, spare), got, append(append([]byte(nil), keep[:n]...), w...), err)
						if !bytes.Equal(back[:n], keep[:n]) || !bytes.Equal(back[n+spare:], keep[n+spare:]) {
							x.Failf("%T appended to %d bytes with %d spare: the storage outside the result has changed", v, n, spare)
						}
					}
				}
				x.Beat()
			}},
	)
}

var freshTypeN int

// freshStruct is a struct type that did not exist before.
func freshStruct(i int) reflect.Type {
	freshTypeN++
	ts := []reflect.Type{intT, strT, boolT, anyT, reflect.TypeOf([]int{}), reflect.PtrTo(strT), reflect.TypeOf(kit.Int_NVNN(0))}
	return reflect.StructOf([]reflect.StructField{sf(fmt.Sprint("F", i%5), ts[i%7], ""), sf(fmt.Sprint("G", freshTypeN), ts[i/7%7], fmt.Sprintf(`json:"g%d,omitempty"`, i%3))})
}

// optKind is a short form of the options.
func optKind(o *ref.Opts) string {
	switch {
	case o == nil:
		return "no options"
	case o.HasAllow:
		return "with an allow list"
	case o.HasDeny:
		return "with a deny list"
	}
	return fmt.Sprintf("NoHTMLEscaping %t, NoUTF8Coercion %t", o.NoHTMLEscaping, o.NoUTF8Coercion)
}

// manyOf holds n values of the type (addressable ones, if byPtr), in a container.
func manyOf(t reflect.Type, n, cont int) interface{} {
	s := reflect.MakeSlice(reflect.SliceOf(t), n, n)
	for i := 0; i < n; i++ {
		s.Index(i).Set(kit.FillN(t, i+1))
	}
	switch cont {
	case 0:
		return s.Interface()
	case 1:
		a := reflect.New(reflect.ArrayOf(n, t))
		reflect.Copy(a.Elem(), s)
		return a.Interface()
	case 2:
		l := make([]interface{}, n)
		for i := range l {
			l[i] = s.Index(i).Interface()
			if i%3 == 1 {
				l[i] = s.Index(i).Addr().Interface()
			}
		}
		return l
	case 3:
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = sf(fmt.Sprint("F", i), t, []string{"", `json:",omitempty"`, `json:",omitnil"`, `json:",string"`}[i%4])
		}
		v := reflect.New(reflect.StructOf(fs))
		for i := range fs {
			v.Elem().Field(i).Set(s.Index(i))
		}
		return v.Interface()
	case 4: // a chain
		var p interface{}
		for i := n - 1; i >= 0; i-- {
			p = &dIface{s.Index(i).Addr().Interface(), p, i}
		}
		return p
	}
	// rows of rows
	var rows []interface{}
	for i := 0; i < n; {
		k := min(i+1+i%7, n)
		rows = append(rows, s.Slice(i, k).Interface(), i)
		i = k
	}
	return rows
}

func manyLadder(x *core.X) int {
	l := ladder(40, 1<<13)
	if x.Thorough {
		l = ladder(130, 1<<14)
	}
	n := l[x.Choose("number", len(l))]
	if n == 0 {
		x.Skip()
	}
	return n
}

var manyMethods = []string{"VNNN", "NVNN", "NNVN", "NNNV", "PNNN", "NPNN", "NNPN", "NNNP", "VPNN"}

func init() {
	drive.Add("C22",
		&core.Scenario{Name: "many", Doc: "n values with methods (every kind, value and pointer receivers) in slices, arrays, interfaces, struct members, chains and rows, for all n to 40 (130) and around the powers of two and ten to 8192 (16384), with and without a context: each is called once, in order, with the context",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n, cont := manyLadder(x), x.Choose("container", 6)
				m := manyMethods[x.Choose("methods", len(manyMethods))]
				if n > 1100 && cont == 3 {
					x.Skip()
				}
				for _, k := range []string{"Int", "St1p"} {
					v := manyOf(kit.Lookup(k, m).T, n, cont)
					callsOf(x, v, &ref.Opts{})
					callsOf(x, v, &ref.Opts{Ctx: ctxA, HasDeny: true, Deny: []string{"F3", "deny"}})
				}
				x.Beat()
			}},
	)
	drive.Add("C19",
		&core.Scenario{Name: "many", Doc: "n values in slices, arrays, interfaces, struct members, chains and rows, for all n to 40 (130) and around the powers of two and ten to 8192 (16384), of which the first, second, middle, second to last or last fails or panics in its method: the error, no data, no later call; the panic passes; then the same value without the failure",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n, cont := manyLadder(x), x.Choose("container", 6)
				m := manyMethods[x.Choose("methods", 4)]
				if n > 1100 && cont == 3 {
					x.Skip()
				}
				v := manyOf(kit.Lookup("Int", m).T, n, cont)
				l := withLog(func() { ref.Encode(v, nil) })
				for i, at := range []int{0, 1, n / 2, n - 2, n - 1} {
					if at < 0 || at >= len(l) {
						continue
					}
					for _, pan := range []bool{false, true} {
						calls := 0
						kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
							calls++
							if calls-1 == at {
								if pan {
									panic(errBoom)
								}
								return out, errBoom
							}
							return out, nil
						}
						var b []byte
						var err error
						var got interface{}
						lg := withLog(func() {
							defer func() { got = recover() }()
							if b, err = jettison.Marshal(v); !pan && i%2 == 0 {
								calls = 0
								b, err = jettison.Append([]byte("pre"), v)
								if len(b) > 0 && !bytes.HasPrefix(b, []byte("pre")) {
									x.Failf("%d values, call %d failed: Append returned %s", n, at, short(b))
								}
								b = nil
							}
						})
						kit.Hook = nil
						if pan && got != errBoom || !pan && (!errors.Is(err, errBoom) || got != nil) || b != nil {
							x.Failf("%d values in container %d (%s), call %d failed (panic %t): got %s, %v, panic %v", n, cont, m, at, pan, short(b), err, got)
						}
						if want := l[:at+1]; (pan || i%2 == 1) && logString(lg, false) != logString(want, false) {
							x.Failf("%d values in container %d (%s), call %d failed (panic %t): %d calls, want the first %d", n, cont, m, at, pan, len(lg), at+1)
						}
						x.Obs([]byte(fmt.Sprint(n, at, pan, err)))
					}
				}
				check(x, v, nil)
				x.Beat()
			}},
	)
}
