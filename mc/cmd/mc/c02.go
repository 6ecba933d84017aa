package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"sync"
	"time"
	"unicode/utf8"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// compactJSON checks b against the JSON grammar without white space, in valid
// UTF-8. It is written from RFC 8259, independently of encoding/json.
func compactJSON(b []byte) error {
	if !utf8.Valid(b) {
		return fmt.Errorf("not valid UTF-8")
	}
	i, err := jsonValue(b, 0, 0)
	if err != nil {
		return err
	}
	if i != len(b) {
		return fmt.Errorf("trailing data at offset %d", i)
	}
	return nil
}

func jsonValue(b []byte, i, depth int) (int, error) {
	if i >= len(b) {
		return i, fmt.Errorf("unexpected end at offset %d", i)
	}
	if depth > 5000 {
		return i, fmt.Errorf("too deep")
	}
	var err error
	switch c := b[i]; {
	case c == '{' || c == '[':
		end := byte(']')
		if c == '{' {
			end = '}'
		}
		i++
		if i < len(b) && b[i] == end {
			return i + 1, nil
		}
		for {
			if c == '{' {
				if i >= len(b) || b[i] != '"' {
					return i, fmt.Errorf("object key is not a string at offset %d", i)
				}
				if i, err = jsonString(b, i); err != nil {
					return i, err
				}
				if i >= len(b) || b[i] != ':' {
					return i, fmt.Errorf("no colon at offset %d", i)
				}
				i++
			}
			if i, err = jsonValue(b, i, depth+1); err != nil {
				return i, err
			}
			if i >= len(b) {
				return i, fmt.Errorf("unexpected end at offset %d", i)
			}
			if b[i] == end {
				return i + 1, nil
			}
			if b[i] != ',' {
				return i, fmt.Errorf("unexpected %q at offset %d", b[i], i)
			}
			i++
		}
	case c == '"':
		return jsonString(b, i)
	case c == '-' || c >= '0' && c <= '9':
		j := i
		for j < len(b) && (b[j] >= '0' && b[j] <= '9' || b[j] == '-' || b[j] == '+' || b[j] == '.' || b[j] == 'e' || b[j] == 'E') {
			j++
		}
		if !ref.ValidNumber(string(b[i:j])) {
			return i, fmt.Errorf("malformed number %q at offset %d", b[i:j], i)
		}
		return j, nil
	default:
		for _, l := range []string{"true", "false", "null"} {
			if len(b)-i >= len(l) && string(b[i:i+len(l)]) == l {
				return i + len(l), nil
			}
		}
		return i, fmt.Errorf("unexpected %q at offset %d", c, i)
	}
}

func jsonString(b []byte, i int) (int, error) {
	for i++; i < len(b); i++ {
		switch c := b[i]; {
		case c == '"':
			return i + 1, nil
		case c < ' ':
			return i, fmt.Errorf("control character in string at offset %d", i)
		case c == '\\':
			i++
			if i >= len(b) {
				return i, fmt.Errorf("unexpected end in string")
			}
			switch b[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				for k := 1; k <= 4; k++ {
					if i+k >= len(b) || !isHex(b[i+k]) {
						return i, fmt.Errorf("bad \\u escape at offset %d", i)
					}
				}
				i += 4
			default:
				return i, fmt.Errorf("bad escape \\%c at offset %d", b[i], i)
			}
		}
	}
	return i, fmt.Errorf("unterminated string")
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// wellFormed encodes v and checks the property alone, without a model.
func wellFormed(x *core.X, v interface{}, o *ref.Opts) {
	b, err := enc(v, o)
	if err != nil {
		if b != nil {
			x.Failf("%s %s: data %q together with error %v", describe(v), o, b, err)
		}
		x.Obs([]byte("error"))
		return
	}
	if e := compactJSON(b); e != nil {
		x.Failf("%s %s: output is not compact JSON: %v\n%q", describe(v), o, e, b)
	}
	if !json.Valid(b) {
		x.Failf("%s %s: output rejected by encoding/json: %q", describe(v), o, b)
	}
	x.Obs(b)
	x.Sample(func() string { return fmt.Sprintf("%s %s -> %s", describe(v), o, b) })
}

// safeOpts enumerates the option sets under which the output must be valid.
func safeOpts(x *core.X, flags bool) *ref.Opts {
	o := &ref.Opts{}
	if flags {
		m := x.Choose("flags", 128)
		o.SetFlags(m&63 | (m>>6)<<7) // the first six, and NoHTMLEscaping
	}
	switch x.Dev("layout", 6) {
	case 1:
		o.TimeLayout = time.RFC3339
	case 2:
		o.TimeLayout = "2006 \"MST\\ \x01\xff<é"
	case 3:
		o.TimeLayout = `"`
	case 4:
		o.TimeLayout = time.RFC850
	case 5:
		o.TimeLayout = "\n"
	}
	if d := x.Dev("duration", 7); d > 0 {
		o.HasDur, o.Dur = true, jettison.DurationFmt(d-1)
	}
	return o
}

func kitLeaf(name string, t reflect.Type) *kit.Expr {
	z := reflect.New(t).Elem()
	full := kit.Fill(t)
	return kit.Leaf(name, full.Interface(), z.Interface())
}

var nastyJSON = []string{`null`, ` "a" `, ``, ` `, `{`, `[1,]`, `1 2`, `nul`, `"a`, `{"a" : [ 1 , {} ] }`, `{a:1}`, `"\x"`, "\"\n\"", "\"<\u2028\\\" \"", `01`, `-`, `[ ]`, `{ }`, `"\\"`, `"\ud800"`, `1e5`, `tru`, "\xef\xbb\xbf1", `[1]]`, `"a" "b"`, `{"a":1,}`, `{"a"}`, "\x00", "1\x00", `,`, `"`}

var nastyText = []string{``, `a`, `"`, `\`, "\n", "\x00\x1f", "\xff", "\xe2\x80", "a\u2028b", `</script>&`, `{"a":1}`, "é", "\u007f", `\"`, `null`, "\xed\xa0\x80", "\uFFFD", "😀"}

func init() {
	drive.Describe("C02", "The oracle is a grammar check of the output itself, not a comparison.",
		"append methods (AppendJSON, AppendJSONContext) are trusted, as documented, to append valid compact JSON",
		"raw JSON handed in by MarshalJSON or a RawMessage is valid UTF-8 (encoding/json does not coerce it either)")
	drive.Add("C02",
		&core.Scenario{Name: "types-options", Doc: "every type expression to depth 1 (quick) or 2 (thorough) over 28 leaves and 18 constructors, under all 128 sets of the options that may not affect validity",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				l := append(basicLeaves(), kit.DurLeaf(),
					kitLeaf("text", kit.Lookup("Str", "NNNV").T), kitLeaf("json", kit.Lookup("St2", "NNVN").T), kitLeaf("append", kit.Lookup("Map", "NVNN").T))
				ops := append(append([]string{}, kit.StdOps...), "structN", "syncmap")
				d := 1
				if x.Thorough {
					d = 2
				}
				e := kit.GenExpr(x, l, ops, d)
				var o *ref.Opts
				o = safeOpts(x, true)
				wellFormed(x, ptrTo(e.Value(x)), o)
			}},
		&core.Scenario{Name: "types-deep", Doc: "every type expression to depth 2 (3) under the default options, values within the deviation bound",
			MaxDev: 2, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				l := []*kit.Expr{kit.Leaf("int", 1), kit.BasicLeaves()[14], kit.BasicLeaves()[15], kit.StdLeaves()[1], kit.StdLeaves()[2], kit.DurLeaf(), kit.StdLeaves()[0]}
				d := 2
				if x.Thorough {
					d = 3
				}
				ops := append(append([]string{}, kit.StdOps...), "structN", "syncmap")
				e := kit.GenExpr(x, l, ops, d)
				v := e.Value(x)
				wellFormed(x, v.Interface(), safeOpts(x, false))
			}},
		&core.Scenario{Name: "marshaler-output", Doc: "every combination of nasty method results (JSON: 31, text: 18) for two members, at 9 kinds of positions, with and without HTML escaping",
			SplitDepth: 3,
			Run: func(x *core.X) {
				var k string
				var nasty []string
				if x.Bool("method") {
					k, nasty = "NNNV", nastyText
				} else {
					k, nasty = "NNVN", nastyJSON
				}
				a, b := x.Choose("first", len(nasty)), x.Choose("second", len(nasty))
				kind := []string{"Int", "St2", "St1p", "Map", "Str"}[x.Choose("kind", 5)]
				i := kit.Lookup(kind, k)
				n := 0
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					n++
					return []byte(nasty[[]int{a, b}[(n-1)%2]]), nil
				}
				defer func() { kit.Hook = nil }()
				v := kit.Fill(i.T)
				o := &ref.Opts{NoHTMLEscaping: x.Bool("nohtml")}
				var w interface{}
				switch x.Choose("position", 8) {
				case 0:
					w = v.Interface()
				case 1:
					w = []interface{}{v.Interface(), 1, v.Interface()}
				case 2:
					s := reflect.MakeSlice(reflect.SliceOf(i.T), 2, 2)
					s.Index(0).Set(v)
					s.Index(1).Set(v)
					w = s.Interface()
				case 3:
					w = map[string]interface{}{"a": v.Interface(), "b": v.Interface()}
				case 4:
					t := reflect.StructOf([]reflect.StructField{
						{Name: "A", Type: i.T, Tag: `json:"a,omitnil"`}, {Name: "B", Type: i.T, Tag: `json:",omitnil"`}, {Name: "C", Type: i.T, Tag: `json:"c,string,omitempty"`}})
					p := reflect.New(t)
					for f := 0; f < 3; f++ {
						p.Elem().Field(f).Set(v)
					}
					w = p.Interface()
				case 5:
					if i.Kind == "Map" || k != "NNNV" {
						x.Skip()
					}
					m := reflect.MakeMap(reflect.MapOf(i.T, i.T))
					m.SetMapIndex(v, v)
					w = m.Interface()
				case 6:
					sm := new(sync.Map)
					if i.Kind != "Map" && k == "NNNV" {
						sm.Store(v.Interface(), 1)
					}
					sm.Store("x", v.Interface())
					w = sm
				case 7:
					w = ptrTo(reflect.ValueOf(ptrTo(v)))
				}
				wellFormed(x, w, o)
			}},
		&core.Scenario{Name: "raw-message", Doc: "every string of up to 4 (quick) or 6 (thorough) tokens over 15 JSON tokens as json.RawMessage, alone and as first/middle/last member",
			SplitDepth: 3,
			Run: func(x *core.X) {
				n := 4
				if x.Thorough {
					n = 6
				}
				s := tokens(x, n)
				wellFormed(x, json.RawMessage(s), nil)
				wellFormed(x, []interface{}{json.RawMessage(s), 1, json.RawMessage(s)}, nil)
				wellFormed(x, struct {
					A json.RawMessage `json:"a,omitempty"`
					B json.RawMessage `json:"b,omitnil"`
					C *json.RawMessage
				}{json.RawMessage(s), json.RawMessage(s), nil}, &ref.Opts{NoHTMLEscaping: true})
			}},
		&core.Scenario{Name: "names", Doc: "every ASCII character, and characters and pairs from 16 classes, as the name in a tag, with 4 sets of options in the tag and under the flags that may not affect validity",
			SplitDepth: 2,
			Run: func(x *core.X) {
				name := tagName(x)
				tag := "json:" + strconv.Quote(name+[]string{"", ",omitempty", ",omitnil", ",,string"}[x.Choose("options", 4)])
				t := reflect.StructOf([]reflect.StructField{sf("A", strT, tag), sf("B", reflect.PtrTo(intT), tag+` xml:"b"`), {Name: "C", Type: reflect.StructOf([]reflect.StructField{sf("D", strT, tag)}), Anonymous: true}})
				v := kit.Fill(t)
				for m := 0; m < 128; m++ {
					if !x.Thorough && m%16 != 0 {
						continue
					}
					wellFormed(x, v.Interface(), (&ref.Opts{}).SetFlags(m&63|(m>>6)<<7))
				}
				one := reflect.StructOf([]reflect.StructField{sf("A", strT, tag)})
				wellFormed(x, kit.Fill(one).Interface(), nil)
				wellFormed(x, []interface{}{reflect.Zero(one).Interface()}, &ref.Opts{NoHTMLEscaping: true})
			}},
		&core.Scenario{Name: "bytes", Doc: "every string of up to 2 bytes (all 256) or 3 bytes (24 classes) at 8 kinds of positions under the valid-output flags",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var s string
				switch n := x.Choose("len", 3); n {
				case 0, 1:
					s = string([]byte{byte(x.Choose("b0", 256))})
					if n == 1 {
						s += string([]byte{byte(x.Choose("b1", 256))})
					}
				case 2:
					s = string([]byte{classBytes[x.Choose("c0", len(classBytes))], classBytes[x.Choose("c1", len(classBytes))], classBytes[x.Choose("c2", len(classBytes))]})
				}
				arr := reflect.New(reflect.ArrayOf(len(s), reflect.TypeOf(byte(0)))).Elem()
				reflect.Copy(arr, reflect.ValueOf([]byte(s)))
				n := ref.FlagNames
				_ = n
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true, RawByteSlice: true, ByteArrayAsString: true}} {
					wellFormed(x, []interface{}{s, map[string]string{s: s}, []byte(s), arr.Interface(), map[kit.Str_NNNV]int{kit.Str_NNNV(s): 1},
						struct {
							A string  `json:",string"`
							B *string `json:"b,string"`
						}{s, &s}}, o)
				}
			}},
	)
}

var classBytes = []byte{'a', '"', '\\', '\n', '\t', '\r', 0, 0x1f, 0x7f, '<', '>', '&', '/', 'u', 0x80, 0xa8, 0xa9, 0xc3, 0xe2, 0xed, 0xa0, 0xf0, 0x9f, 0xff}

var jsonTokens = []string{`{`, `}`, `[`, `]`, `,`, `:`, ` `, `"a"`, `"\u00e9<"`, `1`, `-0`, `.5`, `null`, `tru`, `"`}

func tokens(x *core.X, max int) string {
	n := x.Choose("tokens", max+1)
	s := ""
	for i := 0; i < n; i++ {
		s += jsonTokens[x.Choose("token", len(jsonTokens))]
	}
	return s
}
