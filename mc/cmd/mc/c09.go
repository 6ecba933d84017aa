package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

var stdLayouts = []string{time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z, time.RFC3339, time.RFC3339Nano, time.Kitchen, time.Stamp, time.StampMilli, time.StampMicro, time.StampNano, "2006-01-02 15:04:05", "2006-01-02", "15:04:05"}

// times compares the default, RFC 3339 and Unix forms of one time.
type times struct {
	x        *core.X
	got, wnt []byte
}

var (
	optRFC  = jettison.TimeLayout(time.RFC3339)
	optNano = jettison.TimeLayout(time.RFC3339Nano)
	optUnix = jettison.UnixTime()
)

func (c *times) one(t time.Time, all bool) {
	var err error
	y := t.Year()
	c.got, err = jettison.AppendOpts(c.got[:0], t)
	if y < 0 || y > 9999 {
		if err == nil {
			c.x.Failf("%v: got %q, want an error", t, c.got)
		}
		if c.got, err = jettison.AppendOpts(c.got[:0], t, optUnix); err == nil {
			c.x.Failf("%v UnixTime: got %q, want an error", t, c.got)
		}
		return
	}
	c.wnt = append(t.AppendFormat(append(c.wnt[:0], '"'), time.RFC3339Nano), '"')
	if err != nil || !bytes.Equal(c.got, c.wnt) {
		c.x.Failf("%v: got %q, %v; want %q", t, c.got, err, c.wnt)
	}
	if !all {
		return
	}
	c.got, err = jettison.AppendOpts(c.got[:0], t, optRFC)
	c.wnt = append(t.AppendFormat(append(c.wnt[:0], '"'), time.RFC3339), '"')
	if err != nil || !bytes.Equal(c.got, c.wnt) {
		c.x.Failf("%v RFC3339: got %q, %v; want %q", t, c.got, err, c.wnt)
	}
	c.got, err = jettison.AppendOpts(c.got[:0], t, optUnix, optRFC)
	c.wnt = strconv.AppendInt(c.wnt[:0], t.Unix(), 10)
	if err != nil || !bytes.Equal(c.got, c.wnt) {
		c.x.Failf("%v UnixTime: got %q, %v; want %q", t, c.got, err, c.wnt)
	}
}

func init() {
	drive.Describe("C09", "Every day of the years 0 to 9999, every second of a day, every zone offset and structured fractions, under the default layout, RFC 3339 and UnixTime; layouts are enumerated from the elements time.Format knows.",
		"time.Format and Time.Unix of the Go toolchain are the oracle")
	drive.Add("C09",
		&core.Scenario{Name: "days", Doc: "every day of every year from 0 to 9999, first and last second, in UTC and (thorough) two other zones",
			SplitDepth: 1,
			Run: func(x *core.X) {
				y := x.Choose("year", 10000)
				c := &times{x: x}
				zones := []*time.Location{time.UTC}
				if x.Thorough {
					zones = append(zones, time.FixedZone("", 14*3600), time.FixedZone("", -11*3600-1800))
				}
				n := int64(0)
				for _, z := range zones {
					for t := time.Date(y, 1, 1, 0, 0, 0, 0, z); t.Year() == y; t = t.AddDate(0, 0, 1) {
						c.one(t, t.Day() == 1)
						if t.Day() > 27 || x.Thorough {
							c.one(t.Add(86399*time.Second+999999999), false)
							n++
						}
						n++
					}
				}
				x.ObsN(n)
				x.Obs(c.wnt)
				x.Sample(func() string { return fmt.Sprintf("year %d: last %s", y, c.wnt) })
			}},
		&core.Scenario{Name: "seconds", Doc: "every second of the day on 6 dates",
			SplitDepth: 2,
			Run: func(x *core.X) {
				d := []time.Time{time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(1969, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(1582, 10, 15, 0, 0, 0, 5, time.UTC), time.Date(0, 2, 29, 0, 0, 0, 0, time.UTC)}[x.Choose("date", 6)]
				h := x.Choose("hour", 24)
				c := &times{x: x}
				for s := 0; s < 3600; s++ {
					c.one(d.Add(time.Duration(h*3600+s)*time.Second), true)
				}
				x.ObsN(3600 * 3)
				x.Obs(c.wnt)
			}},
		&core.Scenario{Name: "fractions", Doc: "fractions of a second: d*10^j for all d below 1000 (100000), all counts of trailing zeros and nines, with and without the RFC 3339 layout",
			SplitDepth: 1,
			Run: func(x *core.X) {
				j := x.Choose("power", 10)
				max := 3000
				if x.Thorough {
					max = 200000
				}
				c := &times{x: x}
				p := int(math.Pow10(j))
				for d := 0; d < max; d++ {
					for _, ns := range []int{d * p % 1000000000, (1000000000 - d*p%1000000000) % 1000000000} {
						c.one(time.Date(2021, 12, 11, 10, 9, 8, ns, time.UTC), d < 20)
					}
				}
				x.ObsN(int64(max) * 2)
				x.Obs([]byte{byte(j)})
			}},
		&core.Scenario{Name: "zones", Doc: "every zone offset of whole seconds below 24 hours (quick: every minute, and every second near the hours), at 5 instants including those where the year changes",
			SplitDepth: 1,
			Run: func(x *core.X) {
				h := x.Choose("hour", 48) - 24
				c := &times{x: x}
				is := []time.Time{time.Date(2021, 7, 1, 12, 30, 0, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 1000, time.UTC), time.Date(9999, 12, 31, 23, 30, 0, 0, time.UTC), time.Date(0, 1, 1, 0, 10, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)}
				n := int64(0)
				for s := 0; s < 3600; s++ {
					off := h*3600 + s
					if off <= -86400 || off >= 86400 || !x.Thorough && s%60 != 0 && s > 130 && s < 3470 {
						continue
					}
					z := time.FixedZone("Z<", off)
					for _, t := range is {
						c.one(t.In(z), true)
						n++
					}
				}
				x.ObsN(n * 3)
				x.Obs(c.wnt)
			}},
		&core.Scenario{Name: "range", Doc: "the limits of the representable years, each second around them in 5 zones, and the extreme times, with every layout and UnixTime, at every position",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ts := []time.Time{time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(math.MinInt64, 0), time.Unix(math.MaxInt64, 0), time.Date(-1, 6, 1, 0, 0, 0, 0, time.UTC), time.Date(10000, 6, 1, 0, 0, 0, 0, time.UTC), time.Date(292277026596, 1, 1, 0, 0, 0, 0, time.UTC), time.Time{}, time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2038, 1, 19, 3, 14, 7, 0, time.UTC), time.Date(2106, 2, 7, 6, 28, 15, 0, time.UTC)}
				t := ts[x.Choose("time", len(ts))].Add(time.Duration([]int{0, -1, 1, 1000000000, -1000000000}[x.Choose("delta", 5)]))
				t = t.In(time.FixedZone("N", []int{0, 3600, -3600, 86399, -86399}[x.Choose("zone", 5)]))
				for _, o := range []*ref.Opts{nil, {UnixTime: true}, {TimeLayout: time.RFC3339}, {TimeLayout: "2006"}, {TimeLayout: time.RFC850, UnixTime: true}} {
					check(x, t, o)
					check(x, &t, o)
				}
			}},
		&core.Scenario{Name: "layouts", Doc: "every layout of up to 2 (3) of 50 elements and texts (quotes, control characters, invalid UTF-8), and the 18 usual layouts, on 4 times",
			SplitDepth: 2,
			Run: func(x *core.X) {
				el := []string{"", "January", "Jan", "1", "01", "_2", "2", "02", "__2", "002", "Monday", "Mon", "15", "3", "03", "4", "04", "5", "05", "2006", "06", "PM", "pm", "MST", "Z0700", "Z07:00", "Z070000", "Z07:00:00", "Z07", "-0700", "-07:00", "-07", ".000", ",000", ".999", ",999999999",
					"T", " ", "\"", "\\", "<", "\n", "\x00", "\xff", "\u2028", "é", "{", ":", "-", "."}
				n := 2
				if x.Thorough {
					n = 3
				}
				l := ""
				if x.Bool("usual") {
					l = stdLayouts[x.Choose("layout", len(stdLayouts))]
				} else {
					for i := 0; i < n; i++ {
						l += el[x.Choose("element", len(el))]
					}
				}
				if l == "" {
					x.Skip()
				}
				for _, t := range []time.Time{time.Date(2021, 3, 4, 15, 6, 7, 89000000, time.FixedZone("Q\"<", 5*3600+30)), time.Date(0, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(9999, 1, 10, 12, 0, 0, 1, time.FixedZone("", -3600))} {
					check(x, t, &ref.Opts{TimeLayout: l})
				}
				check(x, []interface{}{time.Date(2021, 3, 4, 15, 6, 7, 0, time.FixedZone("Q\"<", 0)), time.Time{}}, &ref.Opts{TimeLayout: l, NoHTMLEscaping: true, NoUTF8Coercion: true})
			}},
		&core.Scenario{Name: "positions", Doc: "6 times at every position with every tag option, under 7 option sets; times with a monotonic reading",
			SplitDepth: 2,
			Run: func(x *core.X) {
				now := time.Now()
				ts := []time.Time{time.Date(2021, 3, 4, 5, 6, 7, 89, time.UTC), {}, time.Date(1999, 12, 31, 23, 59, 59, 5e8, time.FixedZone("X", -3600*5)), now, now.Add(1e9).UTC(), time.Date(-5, 1, 1, 0, 0, 0, 0, time.UTC)}
				w, _ := at(x, reflect.ValueOf(ts[x.Choose("time", len(ts))]), places)
				for _, o := range []*ref.Opts{nil, {UnixTime: true}, {TimeLayout: time.RFC3339}, {TimeLayout: time.RFC850}, {UnixTime: true, TimeLayout: "\""}, {NoStringEscaping: true, TimeLayout: "<"}, {UnsortedMap: true, NilMapEmpty: true}} {
					check(x, w, o)
				}
			}},
	)
}
