package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// es6 lays out the shortest decimal of f like ECMAScript and encoding/json.
func es6(dst []byte, f float64, bits int) []byte {
	if f == 0 {
		if math.Signbit(f) {
			dst = append(dst, '-')
		}
		return append(dst, '0')
	}
	var tmp [32]byte
	e := strconv.AppendFloat(tmp[:0], f, 'e', -1, bits)
	if e[0] == '-' {
		dst = append(dst, '-')
		e = e[1:]
	}
	var digits [20]byte
	n, i := 0, 0
	for ; e[i] != 'e'; i++ {
		if e[i] != '.' {
			digits[n] = e[i]
			n++
		}
	}
	exp := 0
	for _, c := range e[i+2:] {
		exp = exp*10 + int(c-'0')
	}
	if e[i+1] == '-' {
		exp = -exp
	}
	d := digits[:n]
	// the thresholds are 1e-6 and 1e21 in the type of the value
	small, big := math.Abs(f) < 1e-6, math.Abs(f) >= 1e21
	if bits == 32 {
		a := float32(math.Abs(f))
		small, big = a < 1e-6, a >= 1e21
	}
	if small || big {
		dst = append(dst, d[0])
		if n > 1 {
			dst = append(append(dst, '.'), d[1:]...)
		}
		dst = append(dst, 'e')
		if exp < 0 {
			dst = append(dst, '-')
			exp = -exp
		} else {
			dst = append(dst, '+')
		}
		return strconv.AppendInt(dst, int64(exp), 10)
	}
	if exp < 0 {
		dst = append(dst, '0', '.')
		for k := -1; k > exp; k-- {
			dst = append(dst, '0')
		}
		return append(dst, d...)
	}
	for k := 0; k <= exp || k < n; k++ {
		if k == exp+1 {
			dst = append(dst, '.')
		}
		if k < n {
			dst = append(dst, d[k])
		} else {
			dst = append(dst, '0')
		}
	}
	return dst
}

type floats struct {
	x        *core.X
	got, wnt []byte
}

func (c *floats) f64(f float64) {
	var err error
	c.got, err = jettison.Append(c.got[:0], f)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		if err == nil {
			c.x.Failf("float64 %v (%#x): got %q, want an error", f, math.Float64bits(f), c.got)
		}
		return
	}
	c.wnt = es6(c.wnt[:0], f, 64)
	if err != nil || string(c.got) != string(c.wnt) {
		c.x.Failf("float64 %v (%#x): got %q, %v; want %q", f, math.Float64bits(f), c.got, err, c.wnt)
	}
	if g, e := strconv.ParseFloat(string(c.got), 64); e != nil || math.Float64bits(g) != math.Float64bits(f) {
		c.x.Failf("float64 %#x: %q reads back as %#x", math.Float64bits(f), c.got, math.Float64bits(g))
	}
}

func (c *floats) f32(f float32, parse bool) {
	var err error
	c.got, err = jettison.Append(c.got[:0], f)
	g := float64(f)
	if math.IsNaN(g) || math.IsInf(g, 0) {
		if err == nil {
			c.x.Failf("float32 %v (%#x): got %q, want an error", f, math.Float32bits(f), c.got)
		}
		return
	}
	c.wnt = es6(c.wnt[:0], g, 32)
	if err != nil || string(c.got) != string(c.wnt) {
		c.x.Failf("float32 %v (%#x): got %q, %v; want %q", f, math.Float32bits(f), c.got, err, c.wnt)
	}
	if !parse {
		return
	}
	if h, e := strconv.ParseFloat(string(c.got), 32); e != nil || math.Float32bits(float32(h)) != math.Float32bits(f) {
		c.x.Failf("float32 %#x: %q reads back as %#x", math.Float32bits(f), c.got, math.Float32bits(float32(h)))
	}
}

type (
	nInt   int
	nI8    int8
	nU16   uint16
	nF32   float32
	nF64   float64
	nUptr  uintptr
	numRec struct {
		I   int
		I8  int8
		I16 int16
		I32 int32
		I64 int64
		U   uint
		U8  uint8
		U16 uint16
		U32 uint32
		U64 uint64
		Up  uintptr
		F32 float32
		F64 float64
		N1  nInt
		N2  nI8
		N3  nU16
		N4  nF32
		N5  nF64
		N6  nUptr
		Q   int64  `json:",string"`
		Q2  uint64 `json:",string"`
		P   *int64 `json:",omitempty"`
		M   map[int64]uint64
		S   []int32
		A   [2]uint16
		Any interface{}
	}
)

var intKinds = []reflect.Type{i8T, reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), intT, reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(nInt(0)), reflect.TypeOf(nI8(0)), reflect.TypeOf(nU16(0)), reflect.TypeOf(nUptr(0))}

// intText is the decimal text of an integer, digit by digit.
func intText(v reflect.Value) string {
	var u uint64
	neg := false
	if v.CanInt() {
		i := v.Int()
		if neg = i < 0; neg {
			u = uint64(-(i + 1)) + 1
		} else {
			u = uint64(i)
		}
	} else {
		u = v.Uint()
	}
	s := ""
	for {
		s = string(rune('0'+u%10)) + s
		if u /= 10; u == 0 {
			break
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}

func init() {
	drive.Describe("C08", "All values of the 8- and 16-bit integers (thorough: of the 32-bit ones and of float32), boundary patterns of the wider types; all number literals of bounded length over the characters that matter.",
		"strconv gives the shortest digits of a float; their layout and the way back are checked independently")
	drive.Add("C08",
		&core.Scenario{Name: "small-integers", Doc: "every value of the 8- and 16-bit integer types, alone, in slices, as map key, quoted and through a pointer",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ts := []reflect.Type{i8T, reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(nI8(0)), reflect.TypeOf(nU16(0))}
				t := ts[x.Choose("type", len(ts))]
				blocks := 1
				if t.Size() == 2 {
					blocks = 256
				}
				b := x.Choose("block", blocks)
				for i := 0; i < 256; i++ {
					v := reflect.New(t).Elem()
					if v.CanInt() {
						v.SetInt(int64(int16(b*256 + i)))
						if t.Size() == 1 {
							v.SetInt(int64(int8(i)))
						}
					} else {
						v.SetUint(uint64(b*256 + i))
					}
					want := intText(v)
					p := ptrTo(v)
					for _, w := range []struct {
						v interface{}
						s string
					}{{v.Interface(), want}, {p, want}, {[]interface{}{v.Interface(), p}, "[" + want + "," + want + "]"}, {mkMap(v, v).Interface(), `{"` + want + `":` + want + "}"}} {
						got, err := jettison.Marshal(w.v)
						if err != nil || string(got) != w.s {
							x.Failf("%T %v: got %q, %v; want %q", w.v, want, got, err, w.s)
						}
					}
					x.Obs([]byte(want))
				}
				x.ObsN(256 * 3)
			}},
		&core.Scenario{Name: "integers", Doc: "2^a±2^b+d, d*10^k, ±10^k±10^j+d of every integer type, in 8 positions",
			SplitDepth: 2,
			Run: func(x *core.X) {
				t := intKinds[x.Choose("type", len(intKinds))]
				a := x.Choose("a", 64)
				check1 := func(u uint64) {
					v := reflect.New(t).Elem()
					if v.CanInt() {
						v.SetInt(int64(u) << (64 - t.Bits()) >> (64 - t.Bits()))
					} else {
						v.SetUint(u << (64 - t.Bits()) >> (64 - t.Bits()))
					}
					want := intText(v)
					got, err := jettison.Marshal(v.Interface())
					if err != nil || string(got) != want {
						x.Failf("%v %v: got %q, %v", t, want, got, err)
					}
					x.Obs(got)
				}
				for b := 0; b < 64; b++ {
					for d := -2; d <= 2; d++ {
						u := uint64(1)<<uint(a) + uint64(d)
						check1(u + 1<<uint(b))
						check1(u - 1<<uint(b))
					}
				}
				p := func(k int) uint64 {
					u := uint64(1)
					for ; k > 0; k-- {
						u *= 10
					}
					return u
				}
				for k := 0; k < 20; k++ {
					check1(uint64(a) * p(k))
					check1(-uint64(a) * p(k))
					check1(p(a%20) + p(k) - 1)
					check1(-(p(a%20) - p(k) + 1))
				}
				v := reflect.New(t).Elem()
				if v.CanInt() {
					v.SetInt(int64(uint64(1)<<uint(a)) << (64 - t.Bits()) >> (64 - t.Bits()))
				} else {
					v.SetUint(uint64(1) << uint(a) << (64 - t.Bits()) >> (64 - t.Bits()))
				}
				checkStd(x, []interface{}{v.Interface(), ptrTo(v), mkMap(v, v).Interface(), mkSlice(t, v, v).Interface(), mkArray(v, v).Interface(), mkStruct(v, `json:",string"`, "a", "v", "w").Interface()})
			}},
		&core.Scenario{Name: "records", Doc: "all number kinds side by side in one struct, each at its minimum, maximum, zero or minus one (two deviations)",
			MaxDev: 2, ThoroughDev: 3, SplitDepth: 2,
			Run: func(x *core.X) {
				var r numRec
				v := reflect.ValueOf(&r).Elem()
				for i := 0; i < v.NumField(); i++ {
					f := v.Field(i)
					switch {
					case f.CanInt():
						min := int64(math.MinInt64) >> (64 - f.Type().Bits())
						f.SetInt([]int64{int64(i), min, -(min + 1), -1}[x.Dev("int", 4)])
					case f.CanUint():
						max := uint64(math.MaxUint64) >> (64 - f.Type().Bits())
						f.SetUint([]uint64{uint64(i), max, max - 1, 0}[x.Dev("uint", 4)])
					case f.CanFloat():
						f.SetFloat([]float64{float64(i) + .5, 1e-7, -3e22, 0}[x.Dev("float", 4)])
					}
				}
				r.M = map[int64]uint64{-5: 5, math.MinInt64: math.MaxUint64}
				r.S, r.A, r.P = []int32{r.I32, -r.I32}, [2]uint16{r.U16, 1}, &r.I64
				r.Any = r.U32
				checkStd(x, r)
				checkStd(x, &r)
			}},
		&core.Scenario{Name: "float64", Doc: "every exponent and sign with 190 patterns of the mantissa; read back and compared with an independent layout",
			SplitDepth: 1,
			Run: func(x *core.X) {
				e := uint64(x.Choose("exponent", 2048))
				c := &floats{x: x}
				n := int64(0)
				for _, s := range []uint64{0, 1 << 63} {
					b := s | e<<52
					for k := 0; k < 53; k++ {
						for _, m := range []uint64{1<<uint(k) - 1, 1 << uint(k) & (1<<52 - 1), 1<<52 - 1<<uint(k)} {
							c.f64(math.Float64frombits(b | m&(1<<52-1)))
							n++
						}
					}
					for m := uint64(0); m < 32; m++ {
						c.f64(math.Float64frombits(b | m<<47))
						c.f64(math.Float64frombits(b | m))
						n += 2
					}
				}
				x.ObsN(n)
				x.Obs(c.got)
				x.Sample(func() string { return fmt.Sprintf("biased exponent %d, last %s", e, c.got) })
			}},
		&core.Scenario{Name: "float64-decimal", Doc: "every decimal of up to 2 (3) significant digits with every exponent, and the neighbours of the layout thresholds and of powers of ten up to 300 (3000) ulps away",
			SplitDepth: 1,
			Run: func(x *core.X) {
				k := x.Choose("exponent", 660) - 340
				c := &floats{x: x}
				max, ulps := 100, 300
				if x.Thorough {
					max, ulps = 1000, 3000
				}
				n := int64(0)
				for d := 1; d < max; d++ {
					f, err := strconv.ParseFloat(fmt.Sprintf("%de%d", d, k), 64)
					if err == nil {
						c.f64(f)
						c.f64(-f)
						c.f32(float32(f), true)
						n += 3
					}
				}
				if f, err := strconv.ParseFloat(fmt.Sprintf("1e%d", k), 64); err == nil && (k > -10 && k < 25 || x.Thorough) {
					lo, hi := f, f
					l32, h32 := float32(f), float32(f)
					for i := 0; i < ulps; i++ {
						lo, hi = math.Nextafter(lo, 0), math.Nextafter(hi, math.Inf(1))
						l32, h32 = math.Nextafter32(l32, 0), math.Nextafter32(h32, float32(math.Inf(1)))
						c.f64(lo)
						c.f64(hi)
						c.f32(l32, true)
						c.f32(h32, true)
						n += 4
					}
				}
				x.ObsN(n)
				x.Obs(c.got)
			}},
		&core.Scenario{Name: "float32", Doc: "every exponent and sign with all patterns of the upper 8 and of the lower 8 bits of the mantissa; thorough: every one of the 2^32 float32 values",
			SplitDepth: 1,
			Run: func(x *core.X) {
				c := &floats{x: x}
				if x.Thorough {
					b := uint32(x.Choose("block", 1<<14))
					for i := uint32(0); i < 1<<18; i++ {
						c.f32(math.Float32frombits(b<<18|i), i&63 == 0)
						if i&0xffff == 0 {
							x.Beat()
						}
					}
					x.ObsN(1 << 18)
					x.Obs(c.got)
					return
				}
				b := uint32(x.Choose("sign and exponent", 512)) << 23
				for i := uint32(0); i < 256; i++ {
					c.f32(math.Float32frombits(b|i<<15), true)
					c.f32(math.Float32frombits(b|i), true)
					c.f32(math.Float32frombits(b|i<<15|0x7fff-i), true)
				}
				x.ObsN(256 * 3)
				x.Obs(c.got)
			}},
		&core.Scenario{Name: "all-int32", ThoroughOnly: true, Doc: "every one of the 2^32 int32 and uint32 values",
			SplitDepth: 1,
			Run: func(x *core.X) {
				b := uint32(x.Choose("block", 1<<12))
				var got, want []byte
				for i := uint32(0); i < 1<<20; i++ {
					u := b<<20 | i
					got, _ = jettison.Append(got[:0], u)
					want = strconv.AppendUint(want[:0], uint64(u), 10)
					if string(got) != string(want) {
						x.Failf("uint32 %s: got %q", want, got)
					}
					got, _ = jettison.Append(got[:0], int32(u))
					want = strconv.AppendInt(want[:0], int64(int32(u)), 10)
					if string(got) != string(want) {
						x.Failf("int32 %s: got %q", want, got)
					}
					if i&0x3ffff == 0 {
						x.Beat()
					}
				}
				x.ObsN(2 << 20)
				x.Obs(got)
			}},
		&core.Scenario{Name: "special-floats", Doc: "NaN and infinities (14 bit patterns), float32 and float64, at every position, under every flag",
			SplitDepth: 2,
			Run: func(x *core.X) {
				var v interface{}
				k := x.Choose("pattern", 7)
				if x.Bool("32") {
					v = math.Float32frombits([]uint32{0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x7fffffff, 0xffffffff}[k])
				} else {
					v = math.Float64frombits([]uint64{0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x7fffffffffffffff, ^uint64(0)}[k])
				}
				w, _ := at(x, reflect.ValueOf(v), places)
				check(x, w, nil)
				check(x, w, (&ref.Opts{}).SetFlags(1<<uint(k)|1<<10))
			}},
		&core.Scenario{Name: "number-literals", Doc: "every string of up to 5 (7) characters over 0 1 9 - + . e E x space as json.Number, validated and not",
			SplitDepth: 2,
			Run: func(x *core.X) {
				al := "019-+.eEx "
				max := 5
				if x.Thorough {
					max = 7
				}
				a := x.Choose("c0", len(al)+1)
				b := x.Choose("c1", len(al)+1)
				if a == len(al) && b != len(al) {
					x.Skip()
				}
				s := ""
				for _, i := range []int{a, b} {
					if i < len(al) {
						s += al[i : i+1]
					}
				}
				opt := jettison.NoNumberValidation()
				one := func(s string) {
					valid := s == "" || ref.ValidNumber(s)
					want := s
					if s == "" {
						want = "0"
					}
					got, err := jettison.Marshal(json.Number(s))
					if valid != (err == nil) || valid && string(got) != want {
						x.Failf("json.Number %q: got %q, %v", s, got, err)
					}
					got, err = jettison.MarshalOpts(json.Number(s), opt)
					if err != nil || string(got) != want {
						x.Failf("json.Number %q without validation: got %q, %v", s, got, err)
					}
				}
				n := int64(0)
				var rec func(s string, left int)
				rec = func(s string, left int) {
					one(s)
					n++
					if left > 0 {
						for i := range al {
							rec(s+al[i:i+1], left-1)
						}
					}
				}
				if len(s) < 2 {
					one(s)
				} else {
					rec(s, max-2)
				}
				x.ObsN(n * 2)
				x.Obs([]byte(s))
			}},
		&core.Scenario{Name: "number-positions", Doc: "40 literals, with every byte inserted at every place, as json.Number at every position with every tag option",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ls := []string{"", "0", "-0", "1", "-1", "12345678901234567890123456789", "1.5", "-1.50", "1e5", "1E+05", "1.2e-3", "0.0", "00", "01", "1.", ".5", "1e", "1e+", "--1", "+1", "0x10", "NaN", "Inf", "1_000", " 1", "1 ", "1\n", "١", "1\x00", "null", `"1"`, "-", "e5", "1e1.5", "1.5.5", "1,5", "{}", "1e400", "-1e-400", "0e0"}
				s := ls[x.Choose("literal", len(ls))]
				if x.Bool("insert") {
					for p := 0; p <= len(s); p++ {
						for c := 0; c < 256; c++ {
							check(x, json.Number(s[:p]+string([]byte{byte(c)})+s[p:]), nil)
						}
					}
					return
				}
				w, _ := at(x, reflect.ValueOf(json.Number(s)), places)
				check(x, w, nil)
				check(x, w, &ref.Opts{NoNumberValidation: true})
			}},
	)
	_ = kit.Describe
	_ = strings.Repeat
}
