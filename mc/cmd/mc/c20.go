package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

type (
	lzP  struct{ *int }
	lzPP struct{ P *lzP }
	lzA  [1]*int
	lzAS [1]struct{ P *int }
	lzSA struct{ A [1]map[string]int }
	lzZ  struct{}
	lzZP struct {
		Z struct{}
		P *int
	}
	lzPZ struct {
		P *int
		Z [0]int
	}
	lzAZ  [0]*int
	lzMix struct {
		A int8
		B int64
		C bool
		D float32
		E string
		F uint16
		G interface{}
		H complex64 `json:"-"`
		I [3]uint8
		J uint32
		K stringerI
		L []int16
		M uintptr
	}
	lzM    map[string]int
	lzC    chan int
	lzF    func()
	lzU    unsafe.Pointer
	lzI    interface{}
	lzStr  struct{ S string }
	lzBig  struct{ A [20]int64 }
	lzOne  struct{ V int64 }
	lzOneB struct{ V bool }
	lzOneI struct{ V interface{} }
	lzNest struct {
		A struct{ B struct{ C *string } }
	}
	lzStrg string
	lzNPI  *int // named pointer types
	lzNPS  *string
	lzNPB  *bool
	lzNPF  *float64
	lzNPN  *json.Number
	lzNPO  *lzOne
	lzNPM  *map[string]int
	lzNPP  *lzNPI
)

func (s lzStrg) String() string { return string(s) }

// layouts are values of every in-memory form, built anew on each call.
func layouts() []interface{} {
	i, s := 42, "str<"
	var np *int
	yes, fl, jn, npi := true, -0.5, json.Number("1e3"), lzNPI(&i)
	nps := lzNPS(&s)
	return []interface{}{
		&i, np, lzP{&i}, lzP{}, &lzP{&i}, lzPP{&lzP{&i}}, lzPP{}, lzA{&i}, lzA{}, lzAS{{&i}}, lzSA{[1]map[string]int{{"k": 1}}}, lzSA{}, lzZ{}, &lzZ{}, lzZP{P: &i}, lzPZ{P: &i}, lzAZ{}, [0]int{}, [0]lzZ{}, [3]lzZ{}, []lzZ{{}, {}},
		map[lzStrg]lzZ{"a": {}}, lzMix{-1, -2, true, 1.5, "e", 65535, -3, 0, [3]uint8{255, 254, 253}, math.MaxUint32, lzStrg("k"), []int16{-1, 1}, 77}, &lzMix{}, lzM{"a": 1}, lzM(nil), &lzM{"b": 2}, lzC(nil), make(lzC), lzF(nil), lzF(func() {}), lzU(nil), lzU(&i), lzOne{7}, lzOneB{true}, lzOneI{8}, lzOneI{&i}, lzOneI{},
		lzStr{s}, lzBig{[20]int64{0: 1, 19: -1}}, [1]lzBig{{}}, map[string]lzBig{"k": {[20]int64{5: 5}}}, lzNest{}, lzNest{struct{ B struct{ C *string } }{struct{ C *string }{&s}}}, [1]int{5}, [1]string{s}, [1]interface{}{&i}, [1]map[int]int{{1: 2}}, [1][1]*int{{&i}}, struct{ A [1]*int }{lzA{&i}},
		struct{ F func() }{}, struct{ C chan int }{}, []interface{}{lzP{&i}, lzA{&i}, lzM{"x": 1}, map[int]interface{}{1: lzPP{}}}, []stringerI{lzStrg("x"), nil, time.Duration(5)}, map[string]stringerI{"a": lzStrg("q"), "b": nil}, struct{ I stringerI }{lzStrg("z")}, [1]stringerI{lzStrg("w")}, struct{ E error }{}, []error{nil},
		time.Unix(1, 0).UTC(), struct{ T *time.Time }{}, json.Number("5"), struct{ N json.Number }{"6"}, []byte("bytes"), [1]byte{'x'}, struct{ B []byte }{[]byte{1}}, syncMapOf("a", lzP{&i}, "b", lzM{"c": 3}), struct{ M *sync.Map }{syncMapOf(1, lzA{&i})}, struct{ M sync.Map }{}, uintptr(9), int8(-128), true, float32(0.1), "", complex(1, 1),
		[2]bool{true, false}, [3]int8{1, -1, 127}, []uint16{1, 65535}, [2]float32{0.5, -2}, struct{ A, B, C bool }{true, false, true}, map[int8]bool{-1: true, 5: false}, map[uint64][3]int8{1 << 63: {1, 2, 3}}, [1]struct{ A, B *int }{{&i, nil}}, struct{ P **int }{}, [2][1]lzM{{{"a": 1}}, {nil}},
		npi, lzNPI(nil), &npi, nps, &nps, lzNPB(&yes), lzNPF(&fl), lzNPN(&jn), lzNPN(nil), lzNPO(&lzOne{3}), lzNPM(&map[string]int{"k": 1}), lzNPP(&npi), lzNPP(nil), []lzNPI{npi, nil}, map[string]lzNPS{"k": nps}, struct{ P lzNPI }{npi}, struct{ P lzNPN }{&jn}, [1]lzNPB{&yes},
	}
}

// snap describes everything reachable from v, including spare capacity.
func snap(v reflect.Value, depth int, b *bytes.Buffer) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr:
		fmt.Fprintf(b, "*%x", v.Pointer())
		if !v.IsNil() && v.Type().Elem() != reflect.TypeOf(sync.Map{}) {
			snap(v.Elem(), depth+1, b)
		}
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprint(b, v.Elem().Type())
		snap(v.Elem(), depth+1, b)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b.WriteByte('.')
			snap(v.Field(i), depth+1, b)
		}
	case reflect.Slice:
		fmt.Fprintf(b, "[%x %d %d", v.Pointer(), v.Len(), v.Cap())
		if v.Cap() > 0 {
			v = v.Slice(0, v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			b.WriteByte(',')
			snap(v.Index(i), depth+1, b)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b.WriteByte(',')
			snap(v.Index(i), depth+1, b)
		}
	case reflect.Map:
		fmt.Fprintf(b, "m%x %d", v.Pointer(), v.Len())
		var l []string
		for _, k := range v.MapKeys() {
			var kb bytes.Buffer
			snap(k, depth+1, &kb)
			kb.WriteByte(':')
			snap(v.MapIndex(k), depth+1, &kb)
			l = append(l, kb.String())
		}
		sortStrings(l)
		b.WriteString(strings.Join(l, ";"))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%x", v.Pointer())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	default:
		fmt.Fprint(b, v.Int())
	}
}

func snapOf(v interface{}) string {
	var b bytes.Buffer
	snap(reflect.ValueOf(v), 0, &b)
	return b.String()
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

var churnSink [64]interface{}

// churn frees what is unreachable and reuses the memory.
func churn(rounds int) {
	for r := 0; r < rounds; r++ {
		runtime.GC()
		for i := 0; i < 64; i++ {
			b := make([]uint64, 1+i%24)
			for j := range b {
				b[j] = 0xA5A5A5A5A5A5A5A5
			}
			s := strings.Repeat("junk", 1+i)
			p := new([3]*int)
			churnSink[i] = []interface{}{b, s, p}
		}
	}
}

//go:noinline
func growStack(n int) byte {
	var a [1024]byte
	for i := range a {
		a[i] = byte(n + i)
	}
	if n > 0 {
		return a[n%1024] + growStack(n-1)
	}
	return a[0]
}

// isolated runs f on a goroutine with a small stack.
func isolated(f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

func init() {
	drive.Env("C20", "GOMAXPROCS=2", "GODEBUG=clobberfree=1", "GOGC=50")
	drive.Describe("C20", "Values of every in-memory form at every position, encoded on a fresh small stack while every method call collects garbage, reuses freed memory (which is also clobbered) and moves the stack; values that end at an unmapped page or lie in read-only memory; snapshots of everything reachable before and after.",
		"the collector runs at method calls and wherever the low GOGC makes it run, not at every instruction")
	drive.Add("C20",
		&core.Scenario{Name: "layouts", Doc: "80 in-memory forms (pointer-shaped, zero-size, interfaces with and without methods, large, mixed) at every position: output and error as the model's, everything reachable (with spare capacity) unchanged",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := layouts()
				v := reflect.ValueOf(l[x.Choose("layout", len(l))])
				p := places[x.Choose("place", len(places))]
				w, ok := mkPlace(p, v)
				if !ok {
					x.Skip()
				}
				in := w.Interface()
				before := snapOf(in)
				isolated(func() { check(x, in, nil) })
				check(x, in, &ref.Opts{UnsortedMap: true, RawByteSlice: true, ByteArrayAsString: true, NilMapEmpty: true})
				if s := snapOf(in); s != before {
					x.Failf("%s: the value was changed from %s to %s", describe(in), before, s)
				}
			}},
		&core.Scenario{Name: "nested-layouts", Doc: "the same forms at every pair of 24 (40) positions",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := layouts()
				n := 24
				if x.Thorough {
					n = 48
				}
				v := reflect.ValueOf(l[x.Choose("layout", len(l))])
				w, ok := mkPlace(places[x.Choose("inner", n)], v)
				if !ok {
					x.Skip()
				}
				if w, ok = mkPlace(places[x.Choose("outer", n)], w); !ok {
					x.Skip()
				}
				check(x, w.Interface(), nil)
			}},
		&core.Scenario{Name: "collections", Doc: "marshalers of 14 kinds x 17 (81) method sets x every position, the value reachable only through the encoder; every method call collects garbage, refills the freed memory, grows and moves the stack",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := kit.ByKind(kitKinds[x.Choose("kind", len(kitKinds))])
				k := x.Choose("methods", len(l))
				if l[k].Mask == "NNNN" || !x.Thorough && len(l) > 20 && k%9 != 1 {
					x.Skip()
				}
				pi := x.Choose("place", len(places))
				if !x.Thorough && (pi >= 24 && pi%3 != 0 || len(l) <= 20 && k%3 != pi%3) {
					x.Skip()
				}
				p := places[pi]
				w, ok := mkPlace(p, kit.Fill(l[k].T))
				if !ok {
					x.Skip()
				}
				n, want := ref.Encode(w.Interface(), nil)
				w = reflect.Value{}
				calls := 0
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					if calls++; calls <= 3 || x.Thorough {
						churn(1)
						growStack(40)
					}
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				var b []byte
				var err error
				isolated(func() { b, err = jettison.Marshal(freshAt(p, l[k].T)) })
				judge2(x, fmt.Sprintf("%v at %s", l[k].T, p.name), b, err, n, want)
				x.Sample(func() string { return fmt.Sprintf("%v at %s -> %s", l[k].T, p.name, b) })
			}},
		&core.Scenario{Name: "collected-neighbours", Doc: "every in-memory form as a struct member, map value, sync.Map value, slice element and interface between two marshalers that collect garbage and move the stack",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := layouts()
				i := x.Choose("layout", len(l))
				m := kit.Lookup("Int", []string{"NVNN", "NNVN", "NNNV", "VNNN", "NNPN"}[x.Choose("methods", 5)]).T
				how := x.Choose("form", 8)
				mk := func() interface{} {
					v := reflect.ValueOf(layouts()[i])
					a := kit.FillN(m, 3)
					switch how {
					case 0, 1:
						s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", m, ""), sf("V", v.Type(), ""), sf("B", m, ""), sf("W", v.Type(), `json:"w,omitempty"`)})).Elem()
						s.Field(0).Set(a)
						s.Field(1).Set(v)
						s.Field(2).Set(a)
						s.Field(3).Set(v)
						if how == 1 {
							return s.Addr().Interface()
						}
						return s.Interface()
					case 2:
						return []interface{}{a.Interface(), v.Interface(), a.Interface(), ptrTo(v)}
					case 3:
						s := mkMap(a.Convert(m), v)
						return s.Interface()
					case 4:
						return map[string]interface{}{"a": a.Interface(), "b": v.Interface(), "c": a.Interface(), "d": v.Interface()}
					case 5:
						return syncMapOf("a", a.Interface(), "b", v.Interface(), "c", a.Interface())
					case 6:
						t := reflect.StructOf([]reflect.StructField{sf("A", m, ""), sf("V", v.Type(), "")})
						s := reflect.New(t).Elem()
						s.Field(0).Set(a)
						s.Field(1).Set(v)
						return reflect.Append(mkSlice(t, s), s).Interface()
					default:
						t := reflect.StructOf([]reflect.StructField{sf("V", v.Type(), ""), sf("A", m, "")})
						s := reflect.New(t).Elem()
						s.Field(0).Set(v)
						s.Field(1).Set(a)
						return mkMap(reflect.ValueOf("k"), s).Interface()
					}
				}
				n, want := ref.Encode(mk(), nil)
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					churn(1)
					growStack(30)
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				var b []byte
				var err error
				isolated(func() { b, err = jettison.Marshal(mk()) })
				if want != nil && (how == 4 || how == 5) {
					if err == nil {
						x.Failf("layout %d, form %d: got %q, want %v", i, how, b, want)
					}
					return
				}
				judge2(x, fmt.Sprintf("layout %T in form %d beside %v", l[i], how, m), b, err, n, want)
			}},
		&core.Scenario{Name: "guard-pages", Doc: "values of 34 pointer-free types, strings, byte slices, numbers and raw JSON of length 0..80 (0..300) that end exactly at an unmapped page and lie in read-only memory: no read outside, no write at all",
			SplitDepth: 2,
			Run:        func(x *core.X) { guardPages(x) }},
		&core.Scenario{Name: "neighbours", Doc: "every integer, float, bool and array type between members and elements whose bytes are all ones, all zeros or a pattern, in structs of every alignment: only its own bytes are read",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ts := []interface{}{int8(0), int16(0), int32(0), int64(0), 0, uint8(0), uint16(0), uint32(0), uint64(0), uint(0), uintptr(0), float32(0), float64(0), false, [1]int8{}, [3]uint8{}, [2]int16{}, [3]bool{}, [1]float32{}, struct{ A int8 }{}, struct {
					A int8
					B int16
				}{}, kit.U8_NNNN(0), struct{}{}, [2]struct{ A int8 }{}}
				t := reflect.TypeOf(ts[x.Choose("type", len(ts))])
				pat := []byte{0, 0xff, 0x5a, 0x01, 0x80}[x.Choose("pattern", 5)]
				val := []byte{0, 0xff, 0x5a, 0x01, 0x80, 0x7f}[x.Choose("value", 6)]
				pre := x.Choose("before", 9)
				st := reflect.StructOf([]reflect.StructField{sf("G", reflect.ArrayOf(pre, reflect.TypeOf(kit.U8_NNNN(0))), `json:"-"`), sf("V", t, ""), sf("H", reflect.ArrayOf(9, reflect.TypeOf(uint8(0))), `json:"-"`), sf("W", t, `json:",omitempty"`), sf("I", reflect.ArrayOf(3, reflect.TypeOf(uint8(0))), `json:"-"`)})
				p := reflect.New(st)
				raw := unsafe.Slice((*byte)(p.UnsafePointer()), st.Size())
				for i := range raw {
					raw[i] = pat
				}
				for _, f := range []int{1, 3} {
					o := st.Field(f).Offset
					for i := uintptr(0); i < t.Size(); i++ {
						raw[o+i] = val
					}
					fixBools(p.Elem().Field(f))
				}
				check(x, p.Interface(), nil)
				check(x, p.Elem().Interface(), nil)
				check(x, mkSlice(st, p.Elem(), p.Elem()).Interface(), nil)
				check(x, mkMap(reflect.ValueOf(1), p.Elem()).Interface(), nil)
			}},
		&core.Scenario{Name: "stack-values", Doc: "values on the stack of a goroutine that is moved while they are encoded, by value and by pointer, and values captured by closures",
			SplitDepth: 1,
			Run: func(x *core.X) {
				how := x.Choose("how", 6)
				depth := []int{0, 1, 2, 5, 20, 60, 200}[x.Choose("stack", 7)]
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					growStack(depth)
					churn(1)
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				isolated(func() {
					type loc struct {
						A kit.Int_NVNN
						P *kit.Int_NVNN
						B kit.Int_NNPN
						M map[string]kit.Int_NNVN
						C [2]kit.Int_NNNV
						D int
					}
					a := kit.Int_NVNN(5)
					l := loc{1, &a, 2, map[string]kit.Int_NNVN{"k": 3}, [2]kit.Int_NNNV{4, 5}, 6}
					arr := [1]*kit.Int_NVNN{&a}
					var v interface{}
					switch how {
					case 0:
						v = l
					case 1:
						v = &l
					case 2:
						v = arr
					case 3:
						v = &arr
					case 4:
						v = struct{ M map[kit.Int_NNNV]*loc }{map[kit.Int_NNNV]*loc{7: &l}}
					default:
						v = [1]map[string]kit.Int_NVNN{{"z": 1}}
					}
					h := kit.Hook
					kit.Hook = nil
					n, want := ref.Encode(v, nil)
					kit.Hook = h
					b, err := jettison.Marshal(v)
					judge2(x, fmt.Sprintf("stack value %T", v), b, err, n, want)
					if l.D != 6 || a != 5 || arr[0] != &a {
						x.Failf("local variables changed: %v %v %v", l, a, arr)
					}
				})
			}},
	)
}

// freshAt builds a value nothing else refers to.
//
//go:noinline
func freshAt(p place, t reflect.Type) interface{} {
	w, _ := p.mk(kit.Fill(t))
	return w.Interface()
}

// fixBools makes the booleans in v valid.
func fixBools(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		p := (*byte)(v.Addr().UnsafePointer())
		*p &= 1
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fixBools(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fixBools(v.Field(i))
		}
	case reflect.Float32, reflect.Float64:
		if f := v.Float(); math.IsNaN(f) || math.IsInf(f, 0) {
			v.SetFloat(1.5)
		}
	}
}

const pageSize = 4096

// guarded is memory of two pages followed by one that cannot be accessed.
var guarded []byte

func guardMem(x *core.X) []byte {
	if guarded == nil {
		m, err := syscall.Mmap(-1, 0, 3*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			x.Skip()
		}
		if syscall.Mprotect(m[2*pageSize:], syscall.PROT_NONE) != nil {
			x.Skip()
		}
		guarded = m
	}
	if syscall.Mprotect(guarded[:2*pageSize], syscall.PROT_READ|syscall.PROT_WRITE) != nil {
		x.Skip()
	}
	return guarded[:2*pageSize]
}

func guardPages(x *core.X) {
	m := guardMem(x)
	end := unsafe.Pointer(&m[len(m)-1])
	at := func(n uintptr) unsafe.Pointer { return unsafe.Add(end, 1-int(n)) }
	var v, same interface{}
	max := 80
	if x.Thorough {
		max = 300
	}
	kinds := []interface{}{int8(-5), int16(-500), int32(-70000), int64(-1 << 40), int(-77), uint8(200), uint16(60000), uint32(1 << 31), uint64(1 << 63), uint(99), uintptr(5), float32(1.25), float64(-0.1), true, [1]byte{7}, [2]byte{'a', '<'}, [3]int8{1, 2, 3}, [5]uint16{1, 2, 3, 4, 5}, [0]int{}, struct{}{}, [7]bool{true}, struct {
		A int64
		B int8
	}{1, 2}, struct{ A, B, C uint8 }{1, 2, 3}, struct {
		A int8 `json:",omitempty"`
		B float32
		C [3]uint8
	}{0, 1, [3]uint8{1, 2, 3}}, [2]struct{ A, B int32 }{{1, 2}, {3, 4}}, time.Duration(1e9), kit.U8_NNNN(3), [3]kit.U8_NNNN{1, 2, 3}, struct{ D time.Duration }{5}, [1]struct{ F float64 }{{2}}, struct {
		F int8 `json:",string"`
	}{4}, [4]float32{1, 2, 3, 4}, [33]byte{1}, struct {
		A bool `json:",omitempty"`
	}{true}}
	k := x.Choose("kind", len(kinds)+7)
	n := 0
	if k >= len(kinds) {
		n = x.Choose("length", max+1)
	}
	fill := func(pat string) []byte {
		b := unsafe.Slice((*byte)(at(uintptr(n))), n)
		for i := range b {
			b[i] = pat[i%len(pat)]
		}
		return b
	}
	str := func(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }
	pats := []string{"abcdefgh", "<\"\\\n\u00e9", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xff\xc3", "\x00\x7f"}
	switch k - len(kinds) {
	case 0, 1: // strings
		b := fill(pats[x.Choose("pattern", len(pats))])
		v, same = str(b), string(append([]byte{}, b...))
		if k == len(kinds)+1 {
			v, same = map[string]interface{}{v.(string): v}, map[string]interface{}{same.(string): same}
		}
	case 2: // byte slices
		b := fill(pats[x.Choose("pattern", len(pats))])
		v, same = b, append([]byte{}, b...)
	case 3: // numbers
		if n == 0 {
			x.Skip()
		}
		b := fill([]string{"1", "1234567890", "-"}[x.Choose("pattern", 3)])
		v, same = json.Number(str(b)), json.Number(append([]byte{}, b...))
	case 4: // raw JSON
		if n < 2 {
			x.Skip()
		}
		pi := x.Choose("pattern", 3)
		b := fill([]string{"1", " ", "<"}[pi])
		switch pi {
		case 1:
			b[0] = '7'
		case 2:
			b[0], b[n-1] = '"', '"'
		}
		v, same = json.RawMessage(b), json.RawMessage(append([]byte{}, b...))
	case 5: // results of methods
		b := fill("a<")
		if n < 2 {
			x.Skip()
		}
		b[0], b[n-1] = '"', '"'
		v, same = []interface{}{rawMarshaler(b), textStr(str(b))}, []interface{}{rawMarshaler(append([]byte{}, b...)), textStr(append([]byte{}, b...))}
	case 6: // slices of numbers
		b := fill("\x01\xff\x7f\x80")
		u := n / 8
		v, same = unsafe.Slice((*uint64)(at(uintptr(8*u))), u), append([]uint64{}, unsafe.Slice((*uint64)(at(uintptr(8*u))), u)...)
		if u == 0 {
			v = []uint64{}
		}
		_ = b
	default:
		t := reflect.TypeOf(kinds[k])
		off := uintptr(0)
		if a := uintptr(t.Align()); t.Size()%a != 0 {
			off = a - t.Size()%a
		}
		p := reflect.NewAt(t, at(t.Size()+off))
		p.Elem().Set(reflect.ValueOf(kinds[k]))
		v, same = p.Interface(), kinds[k]
		if t.Size() == 0 {
			v = reflect.New(t).Interface()
		}
		switch x.Choose("form", 3) {
		case 1:
			v, same = []interface{}{v, v}, []interface{}{same, same}
		case 2: // as the elements of a slice that ends there
			if t.Size() == 0 || off != 0 {
				x.Skip()
			}
			a := reflect.NewAt(reflect.ArrayOf(3, t), at(3*t.Size()))
			for i := 0; i < 3; i++ {
				a.Elem().Index(i).Set(reflect.ValueOf(kinds[k]))
			}
			v, same = a.Elem().Slice(0, 3).Interface(), mkSlice(t, reflect.ValueOf(kinds[k]), reflect.ValueOf(kinds[k]), reflect.ValueOf(kinds[k])).Interface()
		}
	}
	var o *ref.Opts
	switch x.Choose("options", 4) {
	case 1:
		o = &ref.Opts{RawByteSlice: true, ByteArrayAsString: true, NoHTMLEscaping: true}
	case 2:
		o = &ref.Opts{NoStringEscaping: true, NoCompact: true, NoNumberValidation: true}
	case 3:
		o = &ref.Opts{NoUTF8Coercion: true, UnsortedMap: true, RawByteSlice: true}
	}
	nd, want := ref.Encode(same, o)
	if syscall.Mprotect(guarded[:2*pageSize], syscall.PROT_READ) != nil {
		x.Skip()
	}
	var (
		b   []byte
		err error
		pan interface{}
	)
	func() {
		old := debug.SetPanicOnFault(true)
		defer debug.SetPanicOnFault(old)
		defer func() { pan = recover() }()
		b, err = enc(v, o)
	}()
	if pan != nil {
		x.Failf("%T %s, copy %s: memory fault: %v (write, or read past the end)", v, o, describe(same), pan)
	}
	judge2(x, fmt.Sprintf("%T %s at the end of a page, copy %s", v, o, describe(same)), b, err, nd, want)
}
