package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// escCombos are the sets of the three escaping options.
var escCombos = func() []*ref.Opts {
	var l []*ref.Opts
	for m := 0; m < 8; m++ {
		l = append(l, &ref.Opts{NoStringEscaping: m&1 != 0, NoHTMLEscaping: m&2 != 0, NoUTF8Coercion: m&4 != 0})
	}
	return l
}()

var escOptions = func() [][]jettison.Option {
	var l [][]jettison.Option
	for _, o := range escCombos {
		l = append(l, o.Options())
	}
	return l
}()

// toValid is s with every invalid byte replaced.
func toValid(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// escapes compares the encodings of one string under all escaping options
// with the model, with encoding/json, and after decoding.
func escapes(x *core.X, s string, decode bool) {
	var buf [64]byte
	for i, o := range escCombos {
		got, err := jettison.MarshalOpts(s, escOptions[i]...)
		want := append(ref.AppendEscaped(append(buf[:0], '"'), s, o), '"')
		if err != nil || !bytes.Equal(got, want) && (o.NoStringEscaping || !bytes.Equal(normBF(got), want)) {
			x.Failf("%q %s: got %q, %v; want %q", s, o, got, err, want)
		}
		if !decode || o.NoStringEscaping {
			continue
		}
		if i == 0 {
			if sb, _ := json.Marshal(s); !bytes.Equal(normBF(sb), want) {
				x.Failf("MODEL: %q: model %q, encoding/json %q", s, want, sb)
			}
		}
		var back string
		if err := json.Unmarshal(got, &back); err != nil || back != toValid(s) {
			x.Failf("%q %s: %q decodes to %q, %v", s, o, got, back, err)
		}
	}
}

// stringPlaces are the positions at which a string is escaped.
var stringPlaces = []struct {
	name string
	mk   func(s string) interface{}
}{
	{"value", func(s string) interface{} { return s }},
	{"pointer", func(s string) interface{} { return &s }},
	{"any", func(s string) interface{} { return []interface{}{s, 1, s} }},
	{"slice", func(s string) interface{} { return []string{"x", s, s} }},
	{"array", func(s string) interface{} { return [1]string{s} }},
	{"named", func(s string) interface{} { return namedStr(s) }},
	{"map value", func(s string) interface{} { return map[string]string{"k": s} }},
	{"map key", func(s string) interface{} { return map[string]int{s: 1} }},
	{"named key", func(s string) interface{} { return map[namedStr]int{namedStr(s): 1, "z": 2} }},
	{"field", func(s string) interface{} { return struct{ A, B string }{s, s} }},
	{"quoted field", func(s string) interface{} {
		return struct {
			A string  `json:",string"`
			B *string `json:"b,string"`
			C int
		}{s, &s, 1}
	}},
	{"text value", func(s string) interface{} { return textStr(s) }},
	{"text pointer", func(s string) interface{} { t := textStr(s); return []*textStr{&t} }},
	{"text key", func(s string) interface{} { return map[textKey]int{{s}: 1} }},
	{"syncmap key", func(s string) interface{} { return syncMapOf(s, s) }},
	{"syncmap text key", func(s string) interface{} { return syncMapOf(textKey{s}, textStr(s)) }},
	{"nested", func(s string) interface{} {
		return map[string]interface{}{s: []interface{}{map[string][]string{s: {s}}}}
	}},
}

type (
	namedStr string
	textStr  string
	textKey  struct{ s string }
)

func (t textStr) MarshalText() ([]byte, error) { return []byte(t), nil }
func (t textKey) MarshalText() ([]byte, error) { return []byte(t.s), nil }

var _ = reflect.TypeOf

func init() {
	drive.Describe("C05", "Strings are enumerated over the whole byte alphabet where affordable and over classes of bytes beyond; every code point is encoded; positions and escaping options are enumerated completely. Outputs are compared with an independent escaper, with encoding/json, and by decoding them.")
	drive.Add("C05",
		&core.Scenario{Name: "all-pairs", Doc: "every string of up to 2 bytes over all 256 values, alone and between ASCII letters, under the 8 sets of escaping options",
			SplitDepth: 1,
			Run: func(x *core.X) {
				a := byte(x.Choose("first", 256))
				escapes(x, string([]byte{a}), true)
				escapes(x, "", true)
				for b := 0; b < 256; b++ {
					s := string([]byte{a, byte(b)})
					escapes(x, s, true)
					escapes(x, "x"+s+"y", b%8 == 0)
				}
				x.ObsN(256 * 16)
				x.Obs([]byte{a})
				x.Sample(func() string { return fmt.Sprintf("%q followed by every byte", a) })
			}},
		&core.Scenario{Name: "all-code-points", Doc: "every code point, alone, after a letter and before an invalid byte, under the 8 sets of escaping options",
			SplitDepth: 1,
			Run: func(x *core.X) {
				c := x.Choose("block", 0x110000/2048)
				for r := rune(c * 2048); r < rune(c+1)*2048; r++ {
					s := string(r)
					escapes(x, s, r%16 == 0 || r < 0x800 || r >= 0x2000 && r < 0x2100)
					if x.Thorough || r < 0x3000 || r%64 == 0 || r >= 0xd700 && r <= 0xffff {
						escapes(x, "a"+s, false)
						escapes(x, s+"\xe2\x80", false)
					}
				}
				x.ObsN(2048 * 8)
				x.Obs([]byte(string(rune(c * 2048))))
				x.Sample(func() string { return fmt.Sprintf("code points %#x to %#x", c*2048, c*2048+2047) })
			}},
		&core.Scenario{Name: "sequences", Doc: "every string of 3 (4) bytes over 24 classes and every multi-byte sequence of lead bytes C0-FF with 12 classes of continuation bytes",
			SplitDepth: 2,
			Run: func(x *core.X) {
				if x.Bool("multibyte") {
					l := byte(0xc0 + x.Choose("lead", 64))
					cont := []byte{'a', '"', '<', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xa9, 0xbf, 0xc0, 0xff}
					for _, a := range cont {
						for _, b := range cont {
							for _, c := range cont {
								escapes(x, string([]byte{l, a, b, c}), x.Thorough)
								escapes(x, string([]byte{l, a, b}), true)
							}
						}
					}
					x.ObsN(14 * 14 * 14 * 16)
					x.Obs([]byte{l})
					return
				}
				a := classBytes[x.Choose("c0", len(classBytes))]
				b := classBytes[x.Choose("c1", len(classBytes))]
				for _, c := range classBytes {
					if x.Thorough {
						for _, d := range classBytes {
							escapes(x, string([]byte{a, b, c, d}), true)
						}
						x.ObsN(24 * 8)
					}
					escapes(x, string([]byte{a, b, c}), true)
				}
				x.ObsN(24 * 8)
				x.Obs([]byte{a, b})
			}},
		&core.Scenario{Name: "positions-lengths", Doc: "each of 20 special tokens (and pairs of 6) at every position of strings of every length to 40, then around powers of two to 1024 (8192), in ASCII and multi-byte filler",
			SplitDepth: 2,
			Run: func(x *core.X) {
				tok := []string{`"`, `\`, "\n", "\x00", "\x1f", "<", ">", "&", "\x7f", "\u2028", "\u2029", "\xff", "\xe2\x80", "\xe2", "é", "😀", "\xed\xa0\x80", "\ufffd", "\"\n", "<\xff"}
				t := tok[x.Choose("token", len(tok))]
				max := 1024
				if x.Thorough {
					max = 8192
				}
				l := ladder(40, max)
				n := l[x.Choose("length", len(l))]
				fill := []string{"a", "é"}[x.Choose("filler", 2)]
				base := strings.Repeat(fill, n)
				for p := 0; p <= n; p++ {
					if n > 40 && p > 3 && p < n-3 && p&(p-1) != 0 && (p+1)&p != 0 {
						continue
					}
					o := p * len(fill)
					s := base[:o] + t + base[o:]
					escapes(x, s, true)
					escapes(x, s+t, true)
					escapes(x, t+t+s, false)
				}
				x.ObsN(int64(n+1) * 24)
				x.Obs([]byte(t + base))
				x.Beat()
			}},
		&core.Scenario{Name: "places", Doc: "every string of up to 2 classes of bytes (24, thorough 3) and 30 longer ones, at 17 kinds of positions, under the 8 sets of escaping options",
			SplitDepth: 2,
			Run: func(x *core.X) {
				p := stringPlaces[x.Choose("place", len(stringPlaces))]
				n := 3
				if x.Thorough {
					n = 4
				}
				var s string
				switch n := x.Choose("len", n+1); n {
				case 0:
					long := append(append([]string{}, nastyText...), nastyJSON...)
					s = long[x.Choose("text", len(long))]
					s += s
				default:
					for i := 1; i < n; i++ {
						s += string([]byte{classBytes[x.Choose("class", len(classBytes))]})
					}
				}
				v := p.mk(s)
				for _, o := range escCombos {
					check(x, v, o)
				}
			}},
		&core.Scenario{Name: "bytes-as-strings", Doc: "every string of up to 2 bytes as raw byte slice and as byte array written as strings, under the 8 sets of escaping options",
			SplitDepth: 1,
			Run: func(x *core.X) {
				a := byte(x.Choose("first", 256))
				step := 5
				if x.Thorough {
					step = 1
				}
				for b := 0; b < 256; b += step {
					arr := [3]byte{a, byte(b), a}
					for _, o := range escCombos {
						p := *o
						p.RawByteSlice, p.ByteArrayAsString = true, true
						check(x, []interface{}{arr[:2], arr, &arr}, &p)
					}
				}
			}},
	)
	_ = kit.Describe
}
