package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"time"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// Chains of one kind of link each, with a value before and after the next link.
type (
	dPtr struct {
		V interface{}
		N *dPtr
		W interface{}
	}
	dSlice struct {
		V interface{}
		N []dSlice
		W interface{}
	}
	dMap struct {
		V interface{}
		N map[string]dMap
		W interface{}
	}
	dArray struct {
		V interface{}
		N *[1]dArray
		W interface{}
	}
	dIface struct {
		V, N, W interface{}
	}
	dEmb struct {
		V interface{}
		N *struct{ dEmbIn }
		W interface{}
	}
	dEmbIn struct{ B *dEmb }
)

const deepKinds = 12

// deepValue is v below n links of the kind, and beside the last two of them.
func deepValue(kind, n int, v interface{}) interface{} {
	at := func(i int) interface{} { // the value beside link i from below
		if i < 2 {
			return v
		}
		return i
	}
	switch kind {
	case 0:
		var p *dPtr
		for i := 0; i < n; i++ {
			p = &dPtr{at(i), p, at(i)}
		}
		return p
	case 1:
		var p []dSlice
		for i := 0; i < n; i++ {
			p = []dSlice{{at(i), p, at(i)}}
		}
		return p
	case 2:
		var p map[string]dMap
		for i := 0; i < n; i++ {
			p = map[string]dMap{"N": {at(i), p, at(i)}}
		}
		return p
	case 3:
		var p *[1]dArray
		for i := 0; i < n; i++ {
			p = &[1]dArray{{at(i), p, at(i)}}
		}
		return p
	case 4:
		var p *dEmb
		for i := 0; i < n; i++ {
			d := &dEmb{V: at(i), W: at(i)}
			if i > 0 {
				d.N = &struct{ dEmbIn }{dEmbIn{p}}
			}
			p = d
		}
		return p
	}
	var p interface{}
	for i := 0; i < n; i++ {
		k := kind
		if kind == 11 {
			k = 5 + (i*7+i/6)%6
		}
		switch k {
		case 5:
			p = []interface{}{at(i), p, at(i)}
		case 6:
			p = map[string]interface{}{"A": at(i), "N": p, "W": at(i)}
		case 7:
			m := new(sync.Map)
			m.Store("A", at(i))
			m.Store("N", p)
			m.Store("W", at(i))
			p = m
		case 8:
			p = dIface{at(i), p, at(i)}
		case 9:
			p = &dIface{at(i), p, at(i)}
		case 10:
			p = [3]interface{}{at(i), p, at(i)}
		}
	}
	return p
}

// deepAdd adds a scenario that encodes the values a property is about below and
// beside many other values.
func deepAdd(id string, calls bool, get func() []interface{}) {
	drive.Add(id, &core.Scenario{Name: "deep", Doc: fmt.Sprintf("values that show the property below n links of each of %d kinds (pointers, slices, maps, sync.Maps, arrays, embedded structs, interfaces, mixed), and beside the last two, and n times beside each other, for every n to 18 (70) and around the powers of two and ten to 1024 (4096), without options, with lists, layouts, formats and context, and with all flags", deepKinds),
		SplitDepth: 2,
		Run: func(x *core.X) {
			l := get()
			v := l[x.Choose("value", len(l))]
			kind := x.Choose("kind", deepKinds+1)
			depths := ladder(18, 1024)
			if x.Thorough {
				depths = ladder(70, 4096)
			}
			allow := []string{"a", "A", "v", "V", "W", "B", "b", "b<", "n", "N", "in", "X", "Y", "E", "k", "C", "T", "", "H"}
			deny := []string{"A", "b", "in", "c<", "Y", "S", "u"}
			for _, n := range depths {
				var w interface{}
				if kind < deepKinds {
					w = deepValue(kind, n, v)
				} else {
					if n > 300 && !x.Thorough {
						break
					}
					s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), n, n)
					for i := 0; i < n; i++ {
						s.Index(i).Set(reflect.ValueOf(v))
					}
					w = s.Interface()
				}
				for k, o := range []*ref.Opts{
					nil,
					{TimeLayout: time.RFC1123, HasDur: true, Dur: jettison.DurationString, Ctx: context.Background(), HasAllow: true, Allow: allow, HasDeny: true, Deny: deny},
					(&ref.Opts{TimeLayout: "2006 \"MST\"<\xff", HasDur: true, Dur: jettison.DurationSeconds, Ctx: ctxA}).SetFlags(2047 &^ (n & 63 << uint(n%6))),
				} {
					if k > 0 && n > 40 && (n+k)%2 != 0 && !x.Thorough {
						continue
					}
					if calls {
						inOrder := kind != 2 && kind != 6 && kind != 7 && kind != 11 && id == "C22"
						checkCalls(x, w, o, !inOrder)
					} else {
						check(x, w, o)
					}
				}
				x.Beat()
			}
		}})
}

func init() {
	deepAdd("C01", false, func() []interface{} {
		f, s := 0.1, "<s\n\u2028\xff"
		return []interface{}{true, -1, uint64(1) << 63, f, float32(1e-7), s, []int(nil), []int{}, []interface{}{1, nil, "x"}, [2]bool{true}, map[string]int(nil), map[string]int{"b": 1, "a<": 2}, map[int8]string{-1: "x", 10: "", 9: s},
			&f, (*int)(nil), struct{}{}, struct {
				A int `json:"a<"`
				B *string
			}{1, &s}, []byte(s), [3]byte{1, 2}, []string{s, ""}, [][]float32{{1}, nil, {}}, make(chan int), func() {}, 1i}
	})
	deepAdd("C02", false, func() []interface{} {
		return []interface{}{"\"\\\x00\xff\u2028</", textStr("\"\n"), rawMarshaler(" [ 1 , \" \\\" \" ] "), rawMarshaler("[1,]"), json.RawMessage(" { } "), json.RawMessage(""), json.Number("01"), map[textKey]int{{"\"\\"}: 1}, syncMapOf("\"", "\\")}
	})
	deepAdd("C15", false, func() []interface{} {
		return append(append([]interface{}{}, optSubjects...), optValue())
	})
}
