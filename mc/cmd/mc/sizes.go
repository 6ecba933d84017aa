package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/wI2L/jettison"
	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
)

// sized makes content of n units.
var sized = []struct {
	name string
	mk   func(n int) interface{}
}{
	{"string", func(n int) interface{} { return strings.Repeat("a", n) }},
	{"string, special last", func(n int) interface{} { return strings.Repeat("a", n) + "<\n\u2028\xff\"" }},
	{"string, special first", func(n int) interface{} { return "\xff<\"\u2029" + strings.Repeat("é", n) }},
	{"string of special", func(n int) interface{} { return strings.Repeat("<\xff\x01", n)[:n] }},
	{"number", func(n int) interface{} { return json.Number("1" + strings.Repeat("0", n)) }},
	{"fraction", func(n int) interface{} {
		return []json.Number{json.Number("-0." + strings.Repeat("25", n/2+1) + "e-5")}
	}},
	{"number, bad last", func(n int) interface{} { return json.Number("1" + strings.Repeat("0", n) + "<") }},
	{"raw", func(n int) interface{} { return json.RawMessage(`["` + strings.Repeat("b", n) + `<" , 1 ]`) }},
	{"raw with space", func(n int) interface{} {
		return json.RawMessage(strings.Repeat(" ", n) + `{"a":"& "}` + strings.Repeat("\n", n))
	}},
	{"raw, bad last", func(n int) interface{} { return json.RawMessage("[" + strings.Repeat("1,", n) + "]") }},
	{"marshaler", func(n int) interface{} { return rawMarshaler(`"` + strings.Repeat("c", n) + `>\u003c"`) }},
	{"text", func(n int) interface{} { return textStr(strings.Repeat("d", n) + "&\xc3") }},
	{"bytes", func(n int) interface{} { return []byte(strings.Repeat("e\xfe", n/2+1)[:n]) }},
	{"byte array", func(n int) interface{} {
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
		for i := 0; i < n; i++ {
			a.Index(i).SetUint(uint64("g<\xf0"[i%3]))
		}
		return a.Interface()
	}},
	{"key", func(n int) interface{} {
		return map[string]int{strings.Repeat("h", n) + "<\xff": 1, strings.Repeat("h", n) + "<": 2}
	}},
	{"sync.Map key", func(n int) interface{} { return syncMapOf(strings.Repeat("i", n)+">", nil, n, 1) }},
	{"text key", func(n int) interface{} { return map[textKey]string{{strings.Repeat("j", n) + "\u2028"}: "<"} }},
	{"nil maps and slices", func(n int) interface{} {
		l := make([]interface{}, n%3000)
		for i := range l {
			l[i] = []interface{}{map[string]int(nil), []int(nil), []byte(nil), nil}[i%4]
		}
		return l
	}},
	{"times", func(n int) interface{} {
		l := make([]time.Time, n%3000)
		for i := range l {
			l[i] = time.Unix(int64(i)*1e6, int64(i)).UTC()
		}
		return l
	}},
	{"durations", func(n int) interface{} {
		l := make([]time.Duration, n%3000)
		for i := range l {
			l[i] = time.Duration(i) * 1234567
		}
		return l
	}},
	{"numbers", func(n int) interface{} {
		l := make([]json.Number, n%3000)
		for i := range l {
			l[i] = json.Number(fmt.Sprint(i))
		}
		return l
	}},
	{"map", func(n int) interface{} {
		m := map[int]interface{}{}
		for i := 0; i < n%3000; i++ {
			m[i] = "<"
		}
		return m
	}},
	{"structs", func(n int) interface{} {
		type s struct {
			A int `json:"a<"`
			B *int
			C []byte `json:",omitempty"`
		}
		l := make([]s, n%3000)
		for i := range l {
			l[i].A = i
		}
		return l
	}},
}

func init() {
	var opts []*ref.Opts
	for i := -1; i < 11; i++ {
		for j := i; j < 11; j++ {
			m := 0
			if i >= 0 {
				m |= 1 << uint(i)
			}
			if j >= 0 {
				m |= 1 << uint(j)
			}
			if i != j || i >= 0 {
				opts = append(opts, new(ref.Opts).SetFlags(m))
			}
		}
	}
	opts = append(opts, &ref.Opts{TimeLayout: time.RFC1123}, &ref.Opts{HasDur: true, Dur: jettison.DurationString}, &ref.Opts{HasDur: true, Dur: jettison.DurationMilliseconds},
		&ref.Opts{HasDeny: true, Deny: []string{"none", "B"}}, &ref.Opts{HasAllow: true, Allow: []string{"C", "a<"}}, &ref.Opts{HasAllow: true, Allow: []string{"a<"}, HasDeny: true, Deny: []string{"a<"}})
	drive.Add("C15", &core.Scenario{Name: "sizes-and-options", Doc: fmt.Sprintf("%d kinds of content of each size to 16 (70) and around the powers of two and ten to 2^12 (2^15), as a member between others, under %d sets of options - each option, each pair of flags -: as the model's", len(sized), len(opts)),
		SplitDepth: 2,
		Run: func(x *core.X) {
			k := sized[x.Choose("content", len(sized))]
			l := ladder(16, 1<<12)
			if x.Thorough {
				l = ladder(70, 1<<15)
			}
			v := k.mk(l[x.Choose("size", len(l))])
			for i, o := range opts {
				if o.UnsortedMap && o.NoStringEscaping && strings.Contains(k.name, "key") {
					continue // members that cannot be told apart
				}
				check(x, v, o)
				if i%5 == 0 {
					check(x, &struct {
						A string
						V interface{}
						Z []int
					}{"<", v, nil}, o)
				}
				x.Beat()
			}
		}})
}
