package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

type (
	nByte   byte
	nBytes  []byte
	nBytes2 []nByte
	nArr    [4]byte
	nArr2   [3]nByte
	// the element type has methods only for its pointer
	ptrStringer byte
)

func (p *ptrStringer) String() string { return "x" }

func pattern(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch k {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i*37 + n)
		case 3:
			s := "a<\"\\\n\xe2\x80\xa8\xffé>&z"
			b[i] = s[i%len(s)]
		}
	}
	return b
}

func byteArray(t reflect.Type, b []byte) reflect.Value {
	a := reflect.New(reflect.ArrayOf(len(b), t)).Elem()
	for i := range b {
		a.Index(i).SetUint(uint64(b[i]))
	}
	return a
}

func init() {
	byteOpts := []*ref.Opts{nil, {RawByteSlice: true}, {ByteArrayAsString: true}, {RawByteSlice: true, ByteArrayAsString: true}, {NilSliceEmpty: true, RawByteSlice: true, NoHTMLEscaping: true}, {RawByteSlice: true, ByteArrayAsString: true, NoStringEscaping: true}}
	drive.Describe("C11", "Every length, content class and destination capacity; all sequence types related to bytes, under the options of both kinds.")
	drive.Add("C11",
		&core.Scenario{Name: "lengths", Doc: "byte slices and byte arrays of every length to 300 (1100) and around powers of two and ten to 2^18 (2^21), 4 contents, under 6 option sets, by value and by pointer",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(300, 1<<18)
				if x.Thorough {
					l = ladder(1100, 1<<21)
				}
				n := l[x.Choose("length", len(l))]
				b := pattern(n, x.Choose("content", 4))
				for _, o := range byteOpts {
					got, err := enc(b, o)
					var want string
					if o != nil && o.RawByteSlice {
						want = `"` + string(ref.AppendEscaped(nil, string(b), o)) + `"`
					} else {
						want = `"` + base64.StdEncoding.EncodeToString(b) + `"`
					}
					if err != nil || string(got) != want {
						x.Failf("[]byte of length %d %s: got %.80q, %v; want %.80q", n, o, got, err, want)
					}
					if n <= 300 {
						a := byteArray(reflect.TypeOf(byte(0)), b)
						check(x, a.Interface(), o)
						if n%7 == 3 {
							check(x, ptrTo(a), o)
							check(x, []interface{}{b, a.Interface(), b}, o)
							check(x, byteArray(reflect.TypeOf(nByte(0)), b).Interface(), o)
						}
					}
				}
				checkStd(x, b)
			}},
		&core.Scenario{Name: "capacities", Doc: "a byte slice of every length to 50 (200) appended to a buffer of every length to 8 and every spare capacity to 80 (300)",
			SplitDepth: 1,
			Run: func(x *core.X) {
				max, caps := 50, 80
				if x.Thorough {
					max, caps = 200, 300
				}
				n := x.Choose("length", max+1)
				b := pattern(n, 2)
				w1 := `"` + base64.StdEncoding.EncodeToString(b) + `"`
				w2 := `"` + string(ref.AppendEscaped(nil, string(b), &ref.Opts{})) + `"`
				for _, pl := range []int{0, 1, 2, 3, 8} {
					for c := 0; c <= caps; c++ {
						for _, raw := range []bool{false, true} {
							dst := make([]byte, pl, pl+c)
							for i := range dst {
								dst[i] = byte('A' + i)
							}
							var got []byte
							var err error
							want := w1
							if raw {
								want = w2
								got, err = jettison.AppendOpts(dst, b, jettison.RawByteSlice())
							} else {
								got, err = jettison.Append(dst, b)
							}
							if err != nil || string(got) != "ABCDEFGH"[:pl]+want {
								x.Failf("[]byte of length %d appended to %q with capacity %d: got %q, %v; want %q", n, dst, pl+c, got, err, want)
							}
						}
					}
					x.ObsN(int64(caps) * 2)
				}
				got, err := jettison.Marshal([]interface{}{b, strings.Repeat("x", n), b, 1})
				if want := fmt.Sprintf(`[%s,"%s",%s,1]`, w1, strings.Repeat("x", n), w1); err != nil || string(got) != want {
					x.Failf("got %q, %v; want %q", got, err, want)
				}
				x.Obs(got)
			}},
		&core.Scenario{Name: "contents", Doc: "every content of up to 2 bytes, and of 3 bytes over 24 classes, as slice and as array, under 6 option sets",
			SplitDepth: 1,
			Run: func(x *core.X) {
				a := byte(x.Choose("first", 256))
				one := func(b []byte) {
					for _, o := range byteOpts[:2] {
						got, err := enc(b, o)
						want := `"` + base64.StdEncoding.EncodeToString(b) + `"`
						if o != nil {
							want = `"` + string(ref.AppendEscaped(nil, string(b), o)) + `"`
						}
						if err != nil || string(got) != want {
							x.Failf("%q %s: got %q, %v; want %q", b, o, got, err, want)
						}
						if o == nil {
							var back []byte
							if json.Unmarshal(got, &back) != nil || !bytes.Equal(back, b) {
								x.Failf("%q: %q decodes to %q", b, got, back)
							}
						}
					}
				}
				one([]byte{a})
				for b := 0; b < 256; b++ {
					one([]byte{a, byte(b)})
				}
				for _, b := range classBytes {
					for _, c := range classBytes {
						one([]byte{a, b, c})
					}
				}
				for _, o := range byteOpts {
					check(x, [1]byte{a}, o)
					check(x, [2]byte{'x', a}, o)
					check(x, &[3]byte{a, a, '<'}, o)
				}
				x.ObsN(2 * (256 + 576))
			}},
		&core.Scenario{Name: "types", Doc: "26 sequence types (named, of named bytes, of similar kinds, of elements with each of 17 combinations of marshaling methods), nil, empty and filled, at every position, under 6 option sets",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var vs []reflect.Value
				add := func(v interface{}) { vs = append(vs, reflect.ValueOf(v)) }
				b := []byte("a<\"\xff")
				switch x.Choose("family", 3) {
				case 0:
					for _, v := range []interface{}{b, []byte(nil), []byte{}, nBytes(b), nBytes(nil), nBytes2{'a', '<'}, nBytes2(nil), nArr{'a', '"', '<', 0xff}, nArr2{1, 2, 3}, [0]byte{}, [1]byte{'x'}, [2]nByte{'y', 'z'},
						[]ptrStringer{'p'}, [2]ptrStringer{'p', 'q'}, []int8{97, -1}, [2]int8{97, 98}, []bool{true}, [2]bool{}, []uint16{97}, [2]uint16{97, 98}, "a<", []string{"b"}, json.RawMessage(`"r"`), [][]byte{b, nil, {}}, [2][2]byte{{1, 2}, {'a', 'b'}}, map[string][]byte{"k": b}, &b, (*[]byte)(nil), [1][]byte{b}} {
						add(v)
					}
				case 1:
					for _, i := range kit.ByKind("U8") {
						vs = append(vs, mkSlice(i.T, kit.FillN(i.T, 3), kit.FillN(i.T, 18)))
					}
				case 2:
					for _, i := range kit.ByKind("U8") {
						vs = append(vs, mkArray(kit.FillN(i.T, 3), kit.FillN(i.T, 18)))
					}
				}
				v := vs[x.Choose("value", len(vs))]
				w, _ := at(x, v, places)
				for _, o := range byteOpts {
					check(x, w, o)
				}
			}},
	)

	drive.Describe("C12", "encoding/json inserts the same text: its output is the oracle; without compaction the bytes must be verbatim.")
	type rec struct {
		A int8
		R json.RawMessage `json:"r"`
		P *json.RawMessage
		O json.RawMessage `json:",omitempty"`
		I interface{}
		M map[string]json.RawMessage
		S []json.RawMessage
		T [1]json.RawMessage
		J json.Marshaler
	}
	rawCheck := func(x *core.X, s string, std bool) {
		r := json.RawMessage(s)
		j := rawMarshaler(s)
		for _, v := range []interface{}{r, &r, j, &j, []interface{}{r, 1, j}} {
			if std {
				checkStd(x, v)
			}
			check(x, v, nil)
			check(x, v, &ref.Opts{NoHTMLEscaping: true})
			check(x, v, &ref.Opts{NoCompact: true})
		}
	}
	drive.Add("C12",
		&core.Scenario{Name: "tokens", Doc: "every string of up to 5 of 15 JSON tokens, as RawMessage and as result of MarshalJSON, in 5 forms, under 3 option sets",
			SplitDepth: 3,
			Run: func(x *core.X) {
				n := 4
				if x.Thorough {
					n = 5
				}
				rawCheck(x, tokens(x, n), true)
			}},
		&core.Scenario{Name: "strings", Doc: "JSON strings with every content of up to 2 bytes (256 values), and 4 of 14 classes, in values and keys",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var c string
				if x.Bool("classes") {
					cl := []string{"a", `\`, `\\`, `\"`, " ", "\t", "<", "&", "\u2028", "\xe2", "\x80", `\u0020`, "/", "é", "\xff", "\xa9"}
					for i := 0; i < 4; i++ {
						c += cl[x.Choose("class", len(cl))]
					}
					rawCheck(x, `"`+c+`"`, false)
					return
				}
				a := byte(x.Choose("first", 256))
				for b := 0; b < 256; b++ {
					rawOne(x, "\""+string([]byte{a, byte(b)})+"\"")
				}
				rawCheck(x, "\""+string([]byte{a})+"\"", true)
				rawCheck(x, "{\""+string([]byte{a})+"\" : \""+string([]byte{a})+" \" }", true)
				rawCheck(x, string([]byte{a}), true)
				rawCheck(x, "1"+string([]byte{a}), true)
				rawCheck(x, string([]byte{a})+"1", true)
				rawCheck(x, "["+string([]byte{a})+"]", true)
				x.ObsN(256)
			}},
		&core.Scenario{Name: "whitespace", Doc: "every choice of white space (none, 4 kinds, several, non-JSON spaces) in each two of the gaps of a nested document",
			MaxDev: 2, ThoroughDev: 3, SplitDepth: 2,
			Run: func(x *core.X) {
				tok := []string{"{", `"a b<"`, ":", "[", "1", ",", `"x \" \\"`, ",", "{", "}", "]", ",", `"\u003c"`, ":", "null", "}"}
				ws := []string{"", " ", "\t", "\n", "\r", " \r\n\t ", "\u00a0", "\v", "\ufeff", "\x00", "//"}
				s := ws[x.Dev("gap", len(ws))]
				for _, t := range tok {
					s += t + ws[x.Dev("gap", len(ws))]
				}
				rawCheck(x, s, true)
			}},
		&core.Scenario{Name: "positions", Doc: "24 raw texts, valid and not, nil and empty, at every position with every tag option, under 4 option sets",
			SplitDepth: 2,
			Run: func(x *core.X) {
				raws := []string{`null`, ` null `, `"<&>"`, "\"\u2028\u2029\"", `{"a" : 1}`, `[ ]`, `{ }`, `1 `, `true`, ``, `{`, `]`, `1,2`, `"a`, `nil`, `"\u00"`, "\"\t\"", `-`, `01`, "\n", `[1,]`, `{"a":1,"a":2}`, `"\ud800"`, `"` + strings.Repeat("a ", 300) + `"`}
				i := x.Choose("raw", len(raws)+1)
				r := json.RawMessage(nil)
				if i < len(raws) {
					r = json.RawMessage(raws[i])
				}
				var v interface{} = r
				if x.Bool("method") {
					v = rawMarshaler(r)
				}
				w, _ := at(x, reflect.ValueOf(v), places)
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true}, {NoCompact: true}, {UnsortedMap: true, NilSliceEmpty: true}} {
					check(x, w, o)
				}
				rr := json.RawMessage(raws[0])
				check(x, rec{R: r, P: &r, O: r, I: r, M: map[string]json.RawMessage{"k": r}, S: []json.RawMessage{r, nil}, T: [1]json.RawMessage{r}, J: rr}, nil)
			}},
		&core.Scenario{Name: "offsets", Doc: "raw texts whose 14 critical sequences (escapes, quotes, separators, HTML characters, white space, pairs of them) begin at every offset to 300 (1100) and up to 4 bytes around the powers of two and ten to 2^17 (2^20), after text inside the same string, other strings, white space or numbers, with text behind them",
			SplitDepth: 1,
			Run: func(x *core.X) {
				l := ladder(300, 1<<17)
				if x.Thorough {
					l = ladder(1100, 1<<20)
				}
				n := l[x.Choose("offset", len(l))]
				for kind := 0; kind < 4; kind++ {
					for _, sp := range []string{`\\`, `\"`, `\\\"`, `\u003c`, `\n`, "<", ">&", "\u2028", "\u2029", "\u2027", "é", " ", `" , "`, `", " \\" : "`, `\\" , " \"`} {
						for d := 0; d < 4; d++ {
							if n < 300 && d > 0 {
								break
							}
							m := n + d*2 - d*d
							if m < 8 {
								m += 8
							}
							var s string
							switch kind {
							case 0: // inside the same string
								s = `"` + strings.Repeat("x", m-1) + sp + `y z"`
							case 1: // after another string
								s = `["` + strings.Repeat("x ", (m-6)/2) + strings.Repeat("z", m%2) + `" ,"` + sp + `y z"]`
							case 2: // after white space
								s = `[` + strings.Repeat(" ", m-2) + `"` + sp + `y z"]`
							case 3:
								s = `[` + strings.Repeat("1", m-4) + ` ,"` + sp + ` <"]`
							}
							if !json.Valid([]byte(s)) {
								if kind != 0 && strings.Contains(sp, ":") {
									continue
								}
								if !strings.Contains(sp, ",") {
									x.Failf("HARNESS: %d %q", kind, sp)
								}
								s = "[" + s[:len(s)] + "]"
								if !json.Valid([]byte(s)) {
									continue
								}
							}
							got, err := jettison.Marshal(json.RawMessage(s))
							want := ref.CompactJSON([]byte(s), true)
							if err != nil || !bytes.Equal(got, want) {
								x.Failf("raw text with %q at offset %d (kind %d): got ...%q, %v; want ...%q", sp, m, kind, got[max(0, len(got)-60):], err, want[max(0, len(want)-60):])
							}
							if d == 0 {
								got, err = jettison.MarshalOpts([]interface{}{rawMarshaler(s)}, jettison.NoHTMLEscaping())
								want = append(append([]byte{'['}, ref.CompactJSON([]byte(s), false)...), ']')
								if err != nil || !bytes.Equal(got, want) {
									x.Failf("text with %q at offset %d (kind %d): got ...%q, %v; want ...%q", sp, m, kind, got[max(0, len(got)-60):], err, want[max(0, len(want)-60):])
								}
							}
							x.Obs([]byte(fmt.Sprint(kind, sp, len(want))))
						}
					}
				}
			}},
		&core.Scenario{Name: "large", Doc: "documents of every nesting depth to 300 (and 5000, 11000) and strings of every length of a ladder, compact and with white space",
			SplitDepth: 1,
			Run: func(x *core.X) {
				l := append(ladder(300, 4096), 5000, 9999, 10000, 10001, 11000)
				n := l[x.Choose("size", len(l))]
				for _, s := range []string{strings.Repeat("[", n) + "1" + strings.Repeat("]", n), strings.Repeat("{\"a\" : ", n) + "1" + strings.Repeat(" }", n), `"` + strings.Repeat("<a", n) + ` "`, strings.Repeat(" ", n) + "1", "[" + strings.Repeat("1 ,", n) + "2]", `"` + strings.Repeat(`\\`, n) + `"`} {
					checkStd(x, json.RawMessage(s))
					check(x, rawMarshaler(s), &ref.Opts{NoHTMLEscaping: true})
				}
			}},
	)
}

type rawMarshaler []byte

func (r rawMarshaler) MarshalJSON() ([]byte, error) { return r, nil }

// rawOne is a fast comparison of one raw text.
func rawOne(x *core.X, s string) {
	got, err := jettison.Marshal(json.RawMessage(s))
	if json.Valid([]byte(s)) != (err == nil) {
		x.Failf("raw %q: got %q, %v", s, got, err)
	}
	if err == nil {
		if want := ref.CompactJSON([]byte(s), true); !bytes.Equal(got, want) {
			x.Failf("raw %q: got %q, want %q", s, got, want)
		}
	}
	got, err = jettison.MarshalOpts(json.RawMessage(s), jettison.NoCompact())
	if err != nil || string(got) != s {
		x.Failf("raw %q with NoCompact: got %q, %v", s, got, err)
	}
}
