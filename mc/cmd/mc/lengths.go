package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// edges are lengths on either side of the powers of two from lo to hi.
func edges(lo, hi int) (l []int) {
	for p := lo; p <= hi; p *= 2 {
		l = append(l, p-1, p, p+1)
	}
	return
}

// longStr is a string of n bytes that starts like every other one of its kind
// and differs from them at the position at.
func longStr(kind, n, at int) string {
	b := bytes.Repeat([]byte{'k'}, n)
	switch kind {
	case 1:
		for i := 0; i+1 < n; i += 2 {
			copy(b[i:], "é")
		}
	case 2:
		for i := 0; i < n; i += 3 {
			b[i] = '<'
		}
	case 3:
		for i := 0; i < n; i += 5 {
			b[i] = 0xff
		}
	}
	if at >= 0 && at < n {
		b[at] = '"'
	}
	return string(b)
}

type lenText string

func (t lenText) MarshalText() ([]byte, error) { return []byte(t), nil }

type lenKey struct{ s string }

func (k lenKey) MarshalText() ([]byte, error) { return []byte(k.s), nil }

// lengthsOf builds the map or sync.Map with long keys and values and checks it.
func lengthsOf(x *core.X, sync bool) {
	l := append(edges(4, 1<<12), edges(1<<14, 1<<16)...)
	if x.Thorough {
		l = append(l, edges(1<<17, 1<<20)...)
	}
	n := l[x.Choose("length", len(l))]
	kind := x.Choose("content", 4)
	where := x.Choose("where", 6)
	for _, at := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
		if n > 5000 && at > 0 && at < n-1 {
			continue
		}
		s, t := longStr(kind, n, at), longStr(kind, n, -1)
		kv := []interface{}{}
		switch where {
		case 0: // keys with the same start
			kv = append(kv, s+"b", 1, s+"a", 2, s, 3, t[:len(t)-1], 4)
		case 1: // values
			kv = append(kv, "b", s, "a", t, "c", "", "d", s)
		case 2: // both, of different lengths
			kv = append(kv, s, t, "a", s, t+"~", "x", "", t)
		case 3: // texts
			kv = append(kv, "b", lenText(s), "a", lenText(t), "c", json.Number("1"))
		case 4: // raw
			r, _ := json.Marshal(s)
			kv = append(kv, "b", json.RawMessage(r), "a", rawMarshaler(r), "c", json.RawMessage(`[]`))
		case 5: // nested
			kv = append(kv, "b", map[string]interface{}{s: t, "a": s}, "a", syncMapOf(t, 1, s+"z", s), "c", []string{s, t})
		}
		var v, w interface{}
		m, mt := map[string]interface{}{}, map[lenKey]interface{}{}
		for i := 0; i+1 < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
			mt[lenKey{kv[i].(string)}] = kv[i+1]
		}
		v, w = m, mt
		if sync {
			v = syncMapOf(kv...)
			a := syncMapOf()
			for k, y := range mt {
				a.Store(k, y)
			}
			w = a
		}
		for _, o := range []*ref.Opts{nil, {UnsortedMap: true}, {NoStringEscaping: true}} {
			if o != nil && n > 5000 && at >= 0 {
				continue
			}
			checkShort(x, v, o)
			checkShort(x, w, o)
		}
	}
	x.Beat()
}

// checkShort is check with messages of bounded length.
func checkShort(x *core.X, v interface{}, o *ref.Opts) {
	n, want := ref.Encode(v, o)
	b, err := enc(v, o)
	if want != nil || err != nil {
		x.Failf("%T %s: %v, %v", v, o, err, want)
	}
	w := n.Bytes()
	if o != nil && o.UnsortedMap {
		if !n.Match(b) {
			x.Failf("%T %s: %d bytes %.300q, want %d bytes %.300q in any order", v, o, len(b), b, len(w), w)
		}
		b = w
	}
	if !bytes.Equal(b, w) {
		i := 0
		for i < len(b) && i < len(w) && b[i] == w[i] {
			i++
		}
		x.Failf("%T %s: %d bytes, want %d; from byte %d: got %.200q, want %.200q", v, o, len(b), len(w), i, b[i:], w[i:])
	}
	x.Obs(b)
	x.Sample(func() string { return fmt.Sprintf("%T %s -> %.100s", v, o, b) })
}

func init() {
	drive.Add("C06",
		&core.Scenario{Name: "lengths", Doc: "maps whose keys, values, texts, raw messages or inner maps are of every length around the powers of two from 4 to 2^16 (2^20), of 4 kinds of content, with keys that differ at the first, second, middle or last bytes only; sorted, unsorted and unescaped; string keys and TextMarshaler keys",
			SplitDepth: 2, Run: func(x *core.X) { lengthsOf(x, false) }})
	drive.Add("C07",
		&core.Scenario{Name: "lengths", Doc: "sync.Maps whose keys, values, texts, raw messages or inner maps are of every length around the powers of two from 4 to 2^16 (2^20), of 4 kinds of content, with keys that differ at the first, second, middle or last bytes only; sorted, unsorted and unescaped; string keys and TextMarshaler keys",
			SplitDepth: 2, Run: func(x *core.X) { lengthsOf(x, true) }},
		&core.Scenario{Name: "sizes", Doc: "sync.Maps of every size to 130 (300) and around powers of two and ten to 4096 (65536), of 5 kinds of keys and 6 of values, stored in three orders, a part of them loaded, deleted or replaced before: as the Go map with the same entries",
			SplitDepth: 2,
			Run: func(x *core.X) {
				l := ladder(130, 1<<12)
				if x.Thorough {
					l = ladder(300, 1<<16)
				}
				n := l[x.Choose("size", len(l))]
				kt := x.Choose("key", 5)
				key := func(i int) interface{} {
					switch kt {
					case 0:
						return fmt.Sprint(strings.Repeat("k", i%3), i)
					case 1:
						return i*7919 - 50
					case 2:
						return lenKey{fmt.Sprint("<", i)}
					case 3:
						return uint32(i) * 2654435761
					}
					return []interface{}{fmt.Sprint(i, "s"), i, int8(i)}[i%3]
				}
				vals := []reflect.Type{reflect.TypeOf(struct{}{}), intT, strT, reflect.TypeOf([3]int64{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf((*int)(nil))}
				vt := vals[x.Choose("value", len(vals))]
				for hist := 0; hist < 5; hist++ {
					if n > 300 && !x.Thorough && (n+hist+kt)%5 != 0 {
						continue
					}
					sm := new(sync.Map)
					m := map[string]interface{}{}
					name := func(i int) string {
						switch k := key(i).(type) {
						case lenKey:
							return k.s
						case string:
							return k
						default:
							return fmt.Sprint(k)
						}
					}
					store := func(i, d int) {
						v := kit.FillN(vt, i+1+d).Interface()
						sm.Store(key(i), v)
						m[name(i)] = v
					}
					del := func(i int) {
						sm.Delete(key(i))
						delete(m, name(i))
					}
					if kt == 4 { // as int8 keys, others would be equal
						n = min(n, 100)
					}
					for j := 0; j < n; j++ {
						i := []int{j, n - 1 - j, (j * 7) % n, j, j}[hist]
						if hist == 2 && n%7 == 0 {
							i = j
						}
						store(i, 0)
						if hist == 3 && j%5 == 0 {
							sm.Load(key(j / 2))
							sm.Load(key(n + j))
						}
					}
					switch hist {
					case 3:
						for i := 0; i < n; i += 3 {
							del(i)
						}
					case 4:
						sm.Range(func(k, v interface{}) bool { return true })
						for i := 0; i < n; i += 2 {
							del(i)
						}
						for i := 0; i < n; i += 4 {
							store(i, 5)
						}
					}
					nd, want := ref.Encode(m, nil)
					got, err := jettison.Marshal(sm)
					if w := nd.Bytes(); want != nil || err != nil || !bytes.Equal(got, w) {
						x.Failf("sync.Map of %d entries (keys %d, history %d): %v; got %d bytes, want %d: %.1000q", n, kt, hist, err, len(got), len(w), got)
					}
					x.Obs(got)
					if n <= 200 {
						got, err = jettison.MarshalOpts(sm, jettison.UnsortedMap())
						if nd, _ = ref.Encode(m, &ref.Opts{UnsortedMap: true}); err != nil || !nd.Match(got) {
							x.Failf("unsorted sync.Map of %d entries (keys %d, history %d): %v; got %.1000q", n, kt, hist, err, got)
						}
					}
					x.Sample(func() string { return fmt.Sprintf("%d entries, keys %d, history %d: %.80s", n, kt, hist, got) })
				}
				x.Beat()
			}},
	)
}
