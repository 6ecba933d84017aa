package main

import (
	"encoding/json"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// shapes are texts that a program may recognise by their form.
var shapes = []string{
	"123e4567-e89b-12d3-a456-426614174000", "2021-03-04T05:06:07Z", "2021-03-04T05:06:07.000000089+01:00", "2021-03-04", "12:34:56", "Thu, 04 Mar 2021 05:06:07 GMT", "user.name@example.com", "https://example.com/a/b?c=d#e", "192.168.100.200",
	"2001:db8::8a2e:370:7334", "[::1]:8080", "localhost:80", "d41d8cd98f00b204e9800998ecf8427e", "da39a3ee5e6b4b0d3255bfef95601890afd80709", "aGVsbG8gd29ybGQ=", "aGVsbG8gd29ybGQhIQ==", "12345", "-0", "1.5e+300", "0x1F", "true", "false", "null", "undefined", "NaN", "Infinity",
	"{}", "[]", "{a:1}", "[1,2,3]", "'quoted'", "/usr/local/bin", "C:/Windows/x", "text/html; charset=utf-8", "v1.22.333-rc.4", "+1-202-555-0123", "p{b}x{/b}", "amp;lt;#39;", "%20%3C%22", "eyJhbGciOiJI.eyJzdWIiOiIx.SflKxwRJSMeKKF2QT4", "identifierName", "snake_case_name", "SCREAMING", "key=value;k2=v2", "a,b,c,d", "en_US.UTF-8",
	"1h2m3.004s", "^[a-z]+$", "#ff00aa", "the quick brown fox", "2021", "A", "AB", "abc", "abcd", "0123456789abcdef", "                ", "$12.50", "urn:isbn:0451450523", "x86_64-linux-gnu", "func(int) error", "struct{A,B}", "map[string]int", "*ptr", "image/png;base64,iVBORw0KGgo",
}

var shapeMarks = []string{"\"", "\\", "<", ">", "&", "\n", "\t", "\x00", "\x1f", "\x7f", "\xff", "\xc3", "é", "\u2028", "\ufffd", "\xed\xa0\x80", "\U0001F600", "/", " "}

// marked returns the text with a mark in place of the byte at i, or before it.
func marked(s string, i int, m string, insert bool) string {
	if insert {
		return s[:i] + m + s[i:]
	}
	return s[:i] + m + s[i+1:]
}

type shapeStr string

func init() {
	drive.Add("C05", &core.Scenario{Name: "shapes", Doc: "70 texts that have a recognisable form (identifiers, dates, addresses, hashes, paths, literals), each of 19 special characters in place of, and before, each byte, and at all places, as values, texts, keys, raw bytes and members, under the 8 sets of escaping options",
		SplitDepth: 2,
		Run: func(x *core.X) {
			s := shapes[x.Choose("shape", len(shapes))]
			m := shapeMarks[x.Choose("mark", len(shapeMarks))]
			var l []string
			for i := range s {
				l = append(l, marked(s, i, m, true), marked(s, i, m, false))
			}
			l = append(l, s+m, s, strings.ReplaceAll(s, s[len(s)-1:], m))
			for _, t := range l {
				v := []interface{}{t, shapeStr(t), textStr(t), []byte(t), map[string]textKey{t: {t}}, map[textKey]string{{t}: t}, syncMapOf(t, &t), struct {
					A string  `json:",string"`
					B *string `json:"b,omitempty"`
				}{t, &t}}
				for i, o := range escCombos {
					c := *o
					c.RawByteSlice = i&1 == 0 || len(t)&1 == 0
					check(x, v, &c)
				}
			}
			x.Beat()
		}})
	drive.Add("C12", &core.Scenario{Name: "shapes", Doc: "70 texts that have a recognisable form, each of 19 special characters in place of and before each byte, as a string of a raw message and of the result of MarshalJSON, with and without white space around it, as value and as key",
		SplitDepth: 2,
		Run: func(x *core.X) {
			s := shapes[x.Choose("shape", len(shapes))]
			m := shapeMarks[x.Choose("mark", len(shapeMarks))]
			if m == "\xff" || m == "\xc3" || m == "\xed\xa0\x80" {
				x.Skip()
			}
			for i := range s {
				for _, ins := range []bool{false, true} {
					q := rawQuote(marked(s, i, m, ins))
					for _, t := range []string{q, " { " + q + " : " + q + " } ", "[" + q + " ," + q + "]\n", marked(s, i, m, ins)} {
						for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true}} {
							check(x, json.RawMessage(t), o)
							check(x, struct{ A rawMarshaler }{rawMarshaler(t)}, o)
						}
					}
				}
			}
			x.Beat()
		}})
	drive.Add("C08", &core.Scenario{Name: "long-literals", Doc: "every literal that consists of up to 2 characters out of 10, a run of 5 kinds of n characters, and up to 2 characters, for all n to 40 (130) and around the powers of two and ten to 4096 (65536), as json.Number, validated and not, with the string option and as raw JSON",
		SplitDepth: 2,
		Run: func(x *core.X) {
			al := "019-+.eEx "
			max := 2
			ns := ladder(40, 4096)
			if x.Thorough {
				ns = ladder(130, 65536)
			}
			pre := ""
			for i := 0; i < max; i++ {
				k := x.Choose("before", len(al)+1)
				if k < len(al) {
					pre += al[k : k+1]
				} else if i+1 < max {
					// the rest is empty, too
					for i++; i < max; i++ {
						if x.Choose("before", len(al)+1) < len(al) {
							x.Skip()
						}
					}
				}
			}
			var suf []string
			suf = append(suf, "")
			for i := range al {
				suf = append(suf, al[i:i+1])
				for j := range al {
					suf = append(suf, al[i:i+1]+al[j:j+1])
				}
			}
			opt := jettison.NoNumberValidation()
			var buf []byte
			cnt := int64(0)
			for _, run := range []string{"0", "1", "90", "12345678901234567890", "e1"} {
				for _, n := range ns {
					if n > 600 && run == "e1" {
						break
					}
					mid := strings.Repeat(run, n/len(run)+1)[:n]
					for _, e := range suf {
						s := pre + mid + e
						if s == "" {
							continue
						}
						valid := ref.ValidNumber(s)
						var err error
						num := json.Number(s)
						buf, err = jettison.Append(buf[:0], &num)
						if valid != (err == nil) || valid && string(buf) != s {
							x.Failf("json.Number %q: got %q, %v", s, buf, err)
						}
						cnt++
						if n < 20 || len(e) > 1 {
							continue
						}
						buf, err = jettison.AppendOpts(buf[:0], &num, opt)
						if err != nil || string(buf) != s {
							x.Failf("json.Number %q without validation: got %q, %v", s, buf, err)
						}
						check(x, &struct {
							N json.Number  `json:",string"`
							P *json.Number `json:",omitempty"`
							M map[string]interface{}
						}{num, &num, map[string]interface{}{"k": num}}, nil)
						check(x, json.RawMessage(s), nil)
					}
				}
				x.Beat()
			}
			x.ObsN(cnt)
		}})
}

// rawQuote writes a string as JSON, with nothing escaped that need not be.
func rawQuote(s string) string {
	b := []byte{'"'}
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b = append(b, '\\', byte(r))
		case r < ' ':
			b = append(b, `\u00`...)
			b = append(b, "0123456789abcdef"[r>>4], "0123456789abcdef"[r&15])
		default:
			b = append(b, string(r)...)
		}
	}
	return string(append(b, '"'))
}
