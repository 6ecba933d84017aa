package main

import (
	"math"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// Spaces that are only affordable in the thorough tier, and the scenarios of
// which the quick tier can afford the thorough bounds.
func init() {
	drive.Deep("C01", "sizes", "depth")
	drive.Deep("C02", "marshaler-output", "names", "bytes")
	drive.Deep("C03", "names", "tags", "written")
	drive.Deep("C04", "places", "context", "promoted")
	drive.Deep("C05", "all-pairs", "all-code-points", "sequences", "positions-lengths", "places", "bytes-as-strings")
	drive.Deep("C06", "key-types", "nested", "orders", "reentrant")
	drive.Deep("C07", "same-as-map", "histories", "mixed-keys", "reentrant")
	drive.Deep("C08", "small-integers", "integers", "records", "float64", "float64-decimal", "special-floats", "number-literals", "number-positions")
	drive.Deep("C09")
	drive.Deep("C10")
	drive.Deep("C11")
	drive.Deep("C12", "tokens", "strings", "positions", "large", "offsets")
	drive.Deep("C13", "one")
	drive.Deep("C14")
	drive.Deep("C15")
	drive.Deep("C16", "entry-points", "guarded", "nested-append")
	drive.Deep("C17", "fresh-types", "namesakes", "history-of-type", "option-histories")
	drive.Deep("C19", "failing-calls", "wide-maps", "option-sets")
	drive.Deep("C20", "layouts", "guard-pages", "neighbours", "stack-values")
	drive.Deep("C21", "options", "shared", "overlaps", "cycle-positions", "cycle-errors")
	drive.Deep("C22", "trees", "receivers", "buffers", "kept-results", "occurrences", "contexts")
	drive.Deep("C23", "scalars", "strings", "small-integers", "floats", "durations", "named-pointers", "shared-types", "embedded", "option-sets")

	bytesOf := func(x *core.X, n int) {
		a, b := byte(x.Choose("first", 256)), byte(x.Choose("second", 256))
		s := string([]byte{a, b, 0, 0}[:n])
		buf := []byte(s)
		var got, want []byte
		opts := [][]jettison.Option{nil}
		models := []*ref.Opts{{}}
		if n == 3 {
			for f := 1; f < 4; f++ {
				m := &ref.Opts{NoHTMLEscaping: f&1 != 0, NoUTF8Coercion: f&2 != 0}
				models = append(models, m)
				opts = append(opts, m.Options())
			}
		}
		cnt := int64(0)
		var rec func(i int)
		rec = func(i int) {
			if i < n {
				for c := 0; c < 256; c++ {
					buf[i] = byte(c)
					rec(i + 1)
				}
				return
			}
			s = string(buf)
			for k, o := range opts {
				var err error
				if o == nil {
					got, err = jettison.Append(got[:0], &s)
				} else {
					got, err = jettison.AppendOpts(got[:0], &s, o...)
				}
				want = append(ref.AppendEscaped(append(want[:0], '"'), s, models[k]), '"')
				if err != nil || string(got) != string(want) {
					if err != nil || string(normBF(got)) != string(want) {
						x.Failf("%q %s: got %q, %v; want %q", s, models[k], got, err, want)
					}
				}
			}
			cnt++
		}
		rec(2)
		x.ObsN(cnt)
		x.Obs(got)
		x.Beat()
	}
	drive.Add("C05",
		&core.Scenario{Name: "all-triples", ThoroughOnly: true, Doc: "every string of 3 bytes over all 256 values, under the 4 sets of escaping options that escape",
			SplitDepth: 1, Run: func(x *core.X) { bytesOf(x, 3) }},
		&core.Scenario{Name: "all-quads", ThoroughOnly: true, Doc: "every one of the 2^32 strings of 4 bytes, without options",
			SplitDepth: 1, Run: func(x *core.X) { bytesOf(x, 4) }},
	)
	drive.Add("C09",
		&core.Scenario{Name: "days-zones", ThoroughOnly: true, Doc: "every day of the years 0 to 9999 in each of 50 zones (every half hour to 12 hours, and the extremes), at midnight and at the last nanosecond before",
			SplitDepth: 1,
			Run: func(x *core.X) {
				y := x.Choose("year", 10000)
				z := time.UTC
				c := &times{x: x}
				n := int64(0)
				for k := -25; k <= 25; k++ {
					off := k * 1800
					if k == 25 || k == -25 {
						off = k / 25 * 86399
					}
					z = time.FixedZone("", off)
					for t := time.Date(y, 1, 1, 0, 0, 0, 0, z); t.Year() == y; t = t.Add(24 * time.Hour) {
						c.one(t, t.Day() == 29)
						c.one(t.Add(-1), false)
						n += 2
					}
				}
				x.ObsN(n)
				x.Obs(c.wnt)
				x.Beat()
			}},
		&core.Scenario{Name: "all-fractions", ThoroughOnly: true, Doc: "every one of the 10^9 fractions of a second",
			SplitDepth: 1,
			Run: func(x *core.X) {
				b := x.Choose("block", 10000)
				c := &times{x: x}
				for i := 0; i < 100000; i++ {
					c.one(time.Date(2024, 2, 29, 23, 59, 59, b*100000+i, time.UTC), false)
				}
				x.ObsN(100000)
				x.Obs(c.wnt)
				x.Beat()
			}},
	)
	drive.Add("C10",
		&core.Scenario{Name: "every-nanosecond", ThoroughOnly: true, Doc: "every duration from 0 to 2^27 ns, every microsecond to 2^27, every millisecond to 2^27, every second to 2^27, positive and negative in turn, in every format",
			SplitDepth: 1,
			Run: func(x *core.X) {
				u := []time.Duration{1, time.Microsecond, time.Millisecond, time.Second}[x.Choose("unit", 4)]
				b := x.Choose("block", 1<<11)
				c := newDurs(x)
				for i := 0; i < 1<<16; i++ {
					d := time.Duration(b<<16|i) * u
					if i&1 == 1 {
						d = -d
					}
					c.one(d)
				}
				c.done()
				x.Beat()
			}},
		&core.Scenario{Name: "extremes", ThoroughOnly: true, Doc: "the 2^24 largest and the 2^24 smallest durations, in every format",
			SplitDepth: 1,
			Run: func(x *core.X) {
				b := x.Choose("block", 1<<10)
				c := newDurs(x)
				for i := 0; i < 1<<14; i++ {
					c.one(math.MaxInt64 - time.Duration(b<<14|i))
					c.one(math.MinInt64 + time.Duration(b<<14|i))
				}
				c.done()
				x.Beat()
			}},
	)
	drive.Add("C12",
		&core.Scenario{Name: "tokens-long", ThoroughOnly: true, Doc: "every string of up to 7 of 15 JSON tokens, as RawMessage, compacted and verbatim",
			SplitDepth: 2,
			Run: func(x *core.X) {
				s := ""
				for i := 0; i < 3; i++ {
					s += jsonTokens[x.Choose("token", len(jsonTokens))]
				}
				n := int64(0)
				var rec func(s string, left int)
				rec = func(s string, left int) {
					rawOne(x, s)
					n++
					if left == 0 {
						return
					}
					for _, t := range jsonTokens {
						rec(s+t, left-1)
					}
				}
				rec(s, 4)
				x.ObsN(n)
				x.Obs([]byte(s))
				x.Beat()
			}},
	)
	drive.Add("C15",
		&core.Scenario{Name: "long-sequences", ThoroughOnly: true, Doc: "every sequence of 5 options out of 24 (flags, valued options with two values each, nil and invalid ones), compared with the set of their last values",
			SplitDepth: 2, Run: func(x *core.X) { optSequence(x, 5) }},
	)
}
