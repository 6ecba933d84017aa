package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
	"unsafe"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
)

// Scenarios about memory that is used again: values are encoded and dropped,
// the collector runs, and other values come to lie at the same addresses. What
// was written of the former has no bearing on what is written of the latter.

type rcNode struct {
	S string
	P *rcNode
	N int
}

type rcWide struct {
	A int
	B string
	C *int
	D []int
	E map[string]int
	F interface{}
	G [4]int
}

type rcKind struct {
	name string
	make func(n, r int) interface{}
}

func rcText(n, r int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "aBc<d\"e\xfff"[(i*(r+1)+r)%9]
	}
	return string(b)
}

func rcPlain(n, r int) string {
	return strings.Repeat(string(rune('a'+r)), n)
}

var rcKinds = []rcKind{
	{"string", func(n, r int) interface{} { return rcText(n, r) }},
	{"plain string", func(n, r int) interface{} { return rcPlain(n, r) }},
	{"*string", func(n, r int) interface{} { s := rcText(n, r); return &s }},
	{"bytes", func(n, r int) interface{} { return []byte(rcText(n, r)) }},
	{"raw", func(n, r int) interface{} {
		return json.RawMessage(`["` + rcPlain(n, r) + `", ` + fmt.Sprint(r%10) + `]`)
	}},
	{"bad raw", func(n, r int) interface{} {
		return json.RawMessage(`["` + rcPlain(n, r) + `"` + []string{"]", " ", "}", "]"}[r&3])
	}},
	{"raw marshaler", func(n, r int) interface{} {
		return rawMarshaler(`["` + rcPlain(n, r) + `" , ` + fmt.Sprint(r%10) + `]`)
	}},
	{"text", func(n, r int) interface{} { return textStr(rcText(n, r)) }},
	{"number", func(n, r int) interface{} { return json.Number(strings.Repeat(fmt.Sprint(1+r%9), n+1)) }},
	{"int", func(n, r int) interface{} { return 1000 + n*64 + r }},
	{"*int", func(n, r int) interface{} { i := n*64 + r; return &i }},
	{"float64", func(n, r int) interface{} { return float64(n) + float64(r)/64 }},
	{"*float32", func(n, r int) interface{} { f := float32(n) + float32(r)/64; return &f }},
	{"*bool", func(n, r int) interface{} { b := r&1 == 0; return &b }},
	{"**int", func(n, r int) interface{} { i := n*64 + r; p := &i; return &p }},
	{"ints", func(n, r int) interface{} {
		l := make([]int, n)
		for i := range l {
			l[i] = i * (r + 1)
		}
		return l
	}},
	{"strings", func(n, r int) interface{} {
		l := make([]string, n)
		for i := range l {
			l[i] = rcText(i%7, r)
		}
		return l
	}},
	{"interfaces", func(n, r int) interface{} {
		l := make([]interface{}, n)
		for i := range l {
			l[i] = []interface{}{i, rcText(3, r), nil, r&1 == 0, int8(r)}[(i+r)%5]
		}
		return l
	}},
	{"map", func(n, r int) interface{} {
		m := map[string]int{}
		for i := 0; i < n%40; i++ {
			m[fmt.Sprint(rcPlain(2, r), i)] = i + r
		}
		return m
	}},
	{"int map", func(n, r int) interface{} {
		m := map[int]string{}
		for i := 0; i < n%40; i++ {
			m[i*(r+1)] = rcPlain(2, r)
		}
		return m
	}},
	{"map of any", func(n, r int) interface{} {
		m := map[string]interface{}{}
		for i := 0; i < n%20; i++ {
			m[fmt.Sprint(rcPlain(1, r), i)] = []interface{}{i, r, rcPlain(2, r)}[i%3]
		}
		return m
	}},
	{"sync.Map", func(n, r int) interface{} {
		m := new(sync.Map)
		for i := 0; i < n%20; i++ {
			m.Store(fmt.Sprint(rcPlain(1, r), i), i*r)
		}
		return m
	}},
	{"*struct", func(n, r int) interface{} { return &rcNode{S: rcPlain(n, r), N: r, P: &rcNode{N: n + r}} }},
	{"wide", func(n, r int) interface{} {
		c := r
		return &rcWide{A: r, B: rcPlain(n, r), C: &c, D: []int{r, n}, E: map[string]int{rcPlain(1, r): n}, F: r, G: [4]int{r, n, r, n}}
	}},
	{"wide by value", func(n, r int) interface{} { return rcWide{A: r, B: rcPlain(n, r), G: [4]int{r, n, r, n}} }},
	{"time", func(n, r int) interface{} {
		return time.Unix(int64(n)*1e6+int64(r), int64(r)).In(time.FixedZone("z", 60*r))
	}},
	{"*time", func(n, r int) interface{} {
		t := time.Unix(int64(n)*1e6, 0).In(time.FixedZone("z", 3600*(r%12)))
		return &t
	}},
	{"*duration", func(n, r int) interface{} { d := time.Duration(n)*1e9 + time.Duration(r); return &d }},
	{"big", func(n, r int) interface{} { return big.NewInt(int64(n)*1000 + int64(r)) }},
	{"*[8]byte", func(n, r int) interface{} { return &[8]byte{byte(n), byte(r), byte(n >> 8)} }},
	{"nested", func(n, r int) interface{} {
		return map[string]interface{}{"a": []interface{}{&rcNode{N: r}, rcPlain(n%50, r), map[string]*rcNode{"k": {N: n}}}}
	}},
}

// word is the address of what v holds.
func rcWord(v interface{}) uintptr {
	return (*[2]uintptr)(unsafe.Pointer(&v))[1]
}

func recycled(kinds ...string) func(x *core.X) {
	var ks []rcKind
	for _, k := range rcKinds {
		for _, n := range kinds {
			if n == k.name {
				ks = append(ks, k)
			}
		}
	}
	if len(kinds) == 0 {
		ks = rcKinds
	}
	return func(x *core.X) {
		k := ks[x.Choose("kind", len(ks))]
		l := ladder(20, 1<<11)
		if x.Thorough {
			l = ladder(64, 1<<14)
		}
		n := l[x.Choose("size", len(l))]
		o := []*ref.Opts{nil, {NoHTMLEscaping: true, RawByteSlice: true}}[x.Choose("options", 2)]
		const objs = 96
		seen := map[uintptr]bool{}
		again := 0
		for r := 0; r < 4; r++ {
			func() {
				live := make([]interface{}, objs)
				for i := range live {
					live[i] = k.make(n, r)
				}
				for i, v := range live {
					if w := rcWord(v); seen[w] {
						again++
					} else {
						seen[w] = true
					}
					if i%3 != 0 || i < 4 {
						check(x, v, o)
					}
					if i == 7 {
						check(x, live[:6], o)
						check(x, mkSlice(reflect.TypeOf(v), reflect.ValueOf(v), reflect.ValueOf(live[3])).Interface(), o)
					}
				}
			}()
			runtime.GC()
		}
		if again > 0 {
			x.Sample(func() string { return fmt.Sprint(k.name, " of size ", n, ": ", again, " at an address used before") })
		}
	}
}

func init() {
	doc := " of every size to 20 (64) and around the powers of two and ten to 2^11 (2^14): 96 of them encoded and dropped, the collector run, 96 others of the same size encoded that come to lie at the same addresses, four times over, under 2 option sets"
	drive.Add("C17", &core.Scenario{Name: "recycled", Doc: fmt.Sprintf("values of %d kinds", len(rcKinds)) + doc, SplitDepth: 2, Run: recycled()})
	drive.Add("C05", &core.Scenario{Name: "recycled", Doc: "strings, byte slices, texts" + doc, SplitDepth: 2, Run: recycled("string", "plain string", "*string", "bytes", "text", "strings")})
	drive.Add("C06", &core.Scenario{Name: "recycled", Doc: "maps of 4 types and sync.Maps" + doc, SplitDepth: 2, Run: recycled("map", "int map", "map of any", "sync.Map", "nested")})
	drive.Add("C12", &core.Scenario{Name: "recycled", Doc: "raw messages and results of MarshalJSON, valid and not," + doc, SplitDepth: 2, Run: recycled("raw", "bad raw", "raw marshaler")})
	drive.Add("C01", &core.Scenario{Name: "recycled", Doc: "slices, structs, numbers, times" + doc, SplitDepth: 2, Run: recycled("ints", "interfaces", "wide", "wide by value", "*struct", "time", "float64", "**int", "nested")})
}
