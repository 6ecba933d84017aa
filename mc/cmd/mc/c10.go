package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

var durFormats = []jettison.DurationFmt{jettison.DurationString, jettison.DurationMinutes, jettison.DurationSeconds, jettison.DurationMilliseconds, jettison.DurationMicroseconds, jettison.DurationNanoseconds}

type durs struct {
	x        *core.X
	opts     []jettison.Option
	got, wnt []byte
	n        int64
}

func newDurs(x *core.X) *durs {
	d := &durs{x: x}
	for _, f := range durFormats {
		d.opts = append(d.opts, jettison.DurationFormat(f))
	}
	return d
}

func (c *durs) one(d time.Duration) {
	for i, f := range durFormats {
		c.wnt = c.wnt[:0]
		switch f {
		case jettison.DurationString:
			c.wnt = append(append(append(c.wnt, '"'), d.String()...), '"')
		case jettison.DurationMinutes:
			c.wnt = es6(c.wnt, d.Minutes(), 64)
		case jettison.DurationSeconds:
			c.wnt = es6(c.wnt, d.Seconds(), 64)
		case jettison.DurationMilliseconds:
			c.wnt = strconv.AppendInt(c.wnt, d.Milliseconds(), 10)
		case jettison.DurationMicroseconds:
			c.wnt = strconv.AppendInt(c.wnt, d.Microseconds(), 10)
		default:
			c.wnt = strconv.AppendInt(c.wnt, int64(d), 10)
		}
		var err error
		c.got, err = jettison.AppendOpts(c.got[:0], d, c.opts[i])
		if err != nil || string(c.got) != string(c.wnt) {
			c.x.Failf("Duration %d with format %v: got %q, %v; want %q", int64(d), f, c.got, err, c.wnt)
		}
		c.n++
	}
	got, err := jettison.Append(c.got[:0], d)
	if err != nil || string(got) != string(c.wnt) {
		c.x.Failf("Duration %d: got %q, %v; want %q", int64(d), got, err, c.wnt)
	}
	c.n++
}

func (c *durs) done() {
	c.x.ObsN(c.n)
	c.x.Obs(c.wnt)
	c.x.Sample(func() string { return "last " + string(c.wnt) })
}

func init() {
	drive.Describe("C10", "Dense ranges of durations at every unit and around every boundary, under all formats; both extremes.",
		"Duration.String, Minutes, Seconds, Milliseconds and Microseconds of the Go toolchain are the oracle")
	drive.Add("C10",
		&core.Scenario{Name: "dense", Doc: "every multiple k of each of 9 units (1ns to 100h), k up to 20000 (1000000), positive and negative",
			SplitDepth: 2,
			Run: func(x *core.X) {
				us := []time.Duration{1, 10, time.Microsecond, 100 * time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 100 * time.Hour}
				u := us[x.Choose("unit", len(us))]
				blocks := 20
				if x.Thorough {
					blocks = 1000
				}
				b := x.Choose("block", blocks)
				c := newDurs(x)
				for k := b * 1000; k < (b+1)*1000; k++ {
					if int64(k) > math.MaxInt64/int64(u) {
						break
					}
					c.one(time.Duration(k) * u)
					c.one(-time.Duration(k) * u)
				}
				c.done()
			}},
		&core.Scenario{Name: "boundaries", Doc: "2^a±2^b, ±10^k±10^j, multiples of every unit plus and minus up to 40 of every smaller unit, and both extremes",
			SplitDepth: 2,
			Run: func(x *core.X) {
				c := newDurs(x)
				switch x.Choose("family", 4) {
				case 0:
					a := uint(x.Choose("a", 64))
					for b := uint(0); b < 64; b++ {
						for _, v := range []uint64{1<<a + 1<<b, 1<<a - 1<<b, -(1<<a + 1<<b)} {
							c.one(time.Duration(v))
						}
					}
				case 1:
					k := math.Pow10(x.Choose("k", 19))
					for j := 0; j < 19; j++ {
						for _, s := range []int64{1, -1} {
							c.one(time.Duration(s * (int64(k) + int64(math.Pow10(j)))))
							c.one(time.Duration(s * (int64(k) - int64(math.Pow10(j)))))
						}
					}
				case 2:
					us := []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}
					u := us[x.Choose("unit", 6)]
					for _, m := range []time.Duration{1, 2, 9, 10, 11, 23, 24, 59, 60, 61, 99, 100, 999, 1000, 1001, 2562047} {
						for _, s := range us {
							for d := time.Duration(-40); d <= 40; d++ {
								if u == time.Hour && m == 2562047 && s == time.Hour {
									continue
								}
								c.one(m*u + d*s)
								c.one(-m*u + d*s)
							}
						}
					}
				case 3:
					b := x.Choose("block", 16)
					for i := b * 200; i < b*200+200; i++ {
						c.one(math.MaxInt64 - time.Duration(i))
						c.one(math.MinInt64 + time.Duration(i))
					}
				}
				c.done()
			}},
		&core.Scenario{Name: "digits", Doc: "all three-digit groups d at every decimal place (d*10^k), and pairs of groups, positive and negative",
			SplitDepth: 2,
			Run: func(x *core.X) {
				k := x.Choose("place", 17)
				g := x.Choose("group", 10)
				c := newDurs(x)
				p := int64(math.Pow10(k))
				for d := int64(g) * 100; d < int64(g+1)*100; d++ {
					if d != 0 && p > math.MaxInt64/d {
						break
					}
					c.one(time.Duration(d * p))
					c.one(time.Duration(-d * p))
					if e := d * p; e < math.MaxInt64-1000000 {
						c.one(time.Duration(e + d))
						c.one(time.Duration(e + d*1000))
					}
				}
				c.done()
			}},
		&core.Scenario{Name: "positions", Doc: "7 durations under each format at every position with every tag option",
			SplitDepth: 2,
			Run: func(x *core.X) {
				d := []time.Duration{0, 1, -1500 * time.Microsecond, 90 * time.Minute, math.MinInt64, math.MaxInt64, time.Second}[x.Choose("duration", 7)]
				w, _ := at(x, reflect.ValueOf(d), places)
				for _, f := range durFormats {
					check(x, w, &ref.Opts{HasDur: true, Dur: f})
					check(x, w, &ref.Opts{HasDur: true, Dur: f, UnsortedMap: true, NoStringEscaping: true})
				}
				check(x, w, nil)
			}},
		&core.Scenario{Name: "unknown-formats", Doc: "every format number from -300 to 300 and the extremes, on durations and on other values: valid ones are accepted, all others rejected",
			SplitDepth: 1,
			Run: func(x *core.X) {
				fs := []int{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 32, 1<<32 + 1, 256, -256}
				f := x.Choose("format", 601+len(fs)) - 300
				if f > 300 {
					f = fs[f-301]
				}
				df := jettison.DurationFmt(f)
				valid := f >= 0 && f <= 5
				for _, v := range []interface{}{time.Second, 1, nil, []time.Duration{1}, struct{}{}} {
					b, err := jettison.MarshalOpts(v, jettison.DurationFormat(df))
					if _, ok := err.(*jettison.InvalidOptionError); valid != (err == nil) || !valid && (!ok || b != nil) {
						x.Failf("%v with DurationFormat(%d): %q, %v", v, f, b, err)
					}
					b, err = jettison.AppendOpts([]byte("x"), v, jettison.DurationFormat(df))
					if _, ok := err.(*jettison.InvalidOptionError); valid != (err == nil) || !valid && !ok {
						x.Failf("AppendOpts %v with DurationFormat(%d): %q, %v", v, f, b, err)
					}
					x.Obs([]byte(fmt.Sprint(f, err)))
				}
			}},
	)
}
