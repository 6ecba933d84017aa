package main

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// Types whose methods tell the address of their receiver.
type (
	adC  struct{ A, B int32 }
	adA  struct{ A, B int32 }
	adJ  struct{ A, B int32 }
	adT  struct{ A, B int32 }
	adI  int64
	adS  []int
	adM  map[string]int
	adAr [3]int8
	adEm struct { // promotes *adJ's method
		X int8
		adJ
	}
	adEp struct {
		X int8
		*adT
	}
)

var adLog []unsafe.Pointer

func ad(p unsafe.Pointer) { adLog = append(adLog, p) }

func (r *adC) AppendJSONContext(_ context.Context, b []byte) ([]byte, error) {
	ad(unsafe.Pointer(r))
	return append(b, '1'), nil
}
func (r *adA) AppendJSON(b []byte) ([]byte, error) { ad(unsafe.Pointer(r)); return append(b, '1'), nil }
func (r *adJ) MarshalJSON() ([]byte, error)        { ad(unsafe.Pointer(r)); return []byte{'1'}, nil }
func (r *adT) MarshalText() ([]byte, error)        { ad(unsafe.Pointer(r)); return []byte{'1'}, nil }
func (r *adI) MarshalJSON() ([]byte, error)        { ad(unsafe.Pointer(r)); return []byte{'1'}, nil }
func (r *adS) MarshalText() ([]byte, error)        { ad(unsafe.Pointer(r)); return []byte{'1'}, nil }
func (r *adM) AppendJSON(b []byte) ([]byte, error) { ad(unsafe.Pointer(r)); return append(b, '1'), nil }
func (r *adAr) AppendJSON(b []byte) ([]byte, error) {
	ad(unsafe.Pointer(r))
	return append(b, '1'), nil
}

// adPlaces put addressable values of type t somewhere and return their
// addresses in the order of the output.
var adPlaces = []struct {
	name string
	mk   func(t reflect.Type) (interface{}, []reflect.Value)
}{
	{"pointer", func(t reflect.Type) (interface{}, []reflect.Value) {
		p := reflect.New(t)
		return p.Interface(), []reflect.Value{p.Elem()}
	}},
	{"pointer to pointer", func(t reflect.Type) (interface{}, []reflect.Value) {
		p := ptrV(reflect.New(t))
		return p.Interface(), []reflect.Value{p.Elem().Elem()}
	}},
	{"slice", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.MakeSlice(reflect.SliceOf(t), 3, 5)
		return s.Interface(), []reflect.Value{s.Index(0), s.Index(1), s.Index(2)}
	}},
	{"slice of pointers", func(t reflect.Type) (interface{}, []reflect.Value) {
		a, b := reflect.New(t), reflect.New(t)
		return mkSlice(a.Type(), a, b, a).Interface(), []reflect.Value{a.Elem(), b.Elem(), a.Elem()}
	}},
	{"pointer to array", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.New(reflect.ArrayOf(2, t))
		return s.Interface(), []reflect.Value{s.Elem().Index(0), s.Elem().Index(1)}
	}},
	{"arrays in slice", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.MakeSlice(reflect.SliceOf(reflect.ArrayOf(2, t)), 2, 2)
		return s.Interface(), []reflect.Value{s.Index(0).Index(0), s.Index(0).Index(1), s.Index(1).Index(0), s.Index(1).Index(1)}
	}},
	{"pointer to struct", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", i8T, ""), sf("B", t, ""), sf("C", strT, ""), sf("D", t, `json:"d"`)}))
		return s.Interface(), []reflect.Value{s.Elem().Field(1), s.Elem().Field(3)}
	}},
	{"struct with pointers", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", i8T, ""), sf("B", reflect.PtrTo(t), ""), sf("D", reflect.PtrTo(t), `json:",omitempty"`)})).Elem()
		s.Field(1).Set(reflect.New(t))
		s.Field(2).Set(reflect.New(t))
		return s.Interface(), []reflect.Value{s.Field(1).Elem(), s.Field(2).Elem()}
	}},
	{"struct with one pointer", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("B", reflect.PtrTo(t), "")})).Elem()
		s.Field(0).Set(reflect.New(t))
		return s.Interface(), []reflect.Value{s.Field(0).Elem()}
	}},
	{"array of one pointer", func(t reflect.Type) (interface{}, []reflect.Value) {
		p := reflect.New(t)
		return mkArray(p).Interface(), []reflect.Value{p.Elem()}
	}},
	{"nested structs", func(t reflect.Type) (interface{}, []reflect.Value) {
		in := reflect.StructOf([]reflect.StructField{sf("A", i8T, ""), sf("B", t, "")})
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("X", in, ""), sf("Y", reflect.SliceOf(in), ""), sf("Z", reflect.ArrayOf(2, in), "")}))
		s.Elem().Field(1).Set(reflect.MakeSlice(reflect.SliceOf(in), 1, 1))
		e := s.Elem()
		return s.Interface(), []reflect.Value{e.Field(0).Field(1), e.Field(1).Index(0).Field(1), e.Field(2).Index(0).Field(1), e.Field(2).Index(1).Field(1)}
	}},
	{"map of pointers", func(t reflect.Type) (interface{}, []reflect.Value) {
		p := reflect.New(t)
		return mkMap(reflect.ValueOf("k"), p).Interface(), []reflect.Value{p.Elem()}
	}},
	{"map of slices", func(t reflect.Type) (interface{}, []reflect.Value) {
		s := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
		return mkMap(reflect.ValueOf("k"), s).Interface(), []reflect.Value{s.Index(0), s.Index(1)}
	}},
	{"interfaces", func(t reflect.Type) (interface{}, []reflect.Value) {
		p, q := reflect.New(t), reflect.New(t)
		return []interface{}{p.Interface(), 1, q.Interface(), p.Interface()}, []reflect.Value{p.Elem(), q.Elem(), p.Elem()}
	}},
	{"pointer to interface", func(t reflect.Type) (interface{}, []reflect.Value) {
		p := reflect.New(t)
		i := p.Interface()
		return &i, []reflect.Value{p.Elem()}
	}},
	{"sync.Map", func(t reflect.Type) (interface{}, []reflect.Value) {
		p := reflect.New(t)
		return syncMapOf("k", p.Interface()), []reflect.Value{p.Elem()}
	}},
}

func init() {
	drive.Env("C22", "GOMAXPROCS=1")
	drive.Describe("C22", "Trees of containers and recording marshalers under several contexts and filters: the calls, their receivers, contexts, order and number are those of the model; receivers of pointer methods are the elements themselves; append methods that extend their buffer in different ways; results that the caller of the encoder keeps using.",
		"entries of a map with more than one entry are visited in any order")
	ctxs := []context.Context{nil, context.Background(), ctxA, context.WithValue(ctxA, ctxKey{}, "inner")}
	drive.Add("C22",
		&core.Scenario{Name: "trees", Doc: "trees of depth 0..3 over 13 containers with 10 kinds of leaves (methods of each kind, value and pointer receivers, nil pointers), under no context and 3 contexts, with filters, UnsortedMap: calls in exactly the model's order with the very context",
			SplitDepth: 3,
			Run: func(x *core.X) {
				t := &tree{x: x}
				v := t.gen(x.Choose("depth", 4)).Interface()
				for i, c := range ctxs {
					if i > 1 && !x.Thorough && t.n%2 == 0 {
						break
					}
					o := &ref.Opts{Ctx: c}
					switch i {
					case 1:
						o.HasDeny, o.Deny = true, []string{"deny", "b"}
					case 2:
						o.UnsortedMap, o.HasAllow, o.Allow = true, true, []string{"A"}
					}
					callsOf(x, v, o)
				}
			}},
		&core.Scenario{Name: "wide-trees", Doc: "the same with containers on both sides (depth 2)",
			SplitDepth: 3, ThoroughOnly: true,
			Run: func(x *core.X) {
				t := &tree{x: x, binary: true}
				callsOf(x, t.gen(2).Interface(), &ref.Opts{Ctx: ctxA, HasDeny: true, Deny: []string{"deny"}})
			}},
		&core.Scenario{Name: "places", Doc: "17 method sets of 6 (14) kinds x filled and zero x every position, with and without a context and filters: calls and their order",
			SplitDepth: 2,
			Run: func(x *core.X) {
				kinds := []string{"Int", "St1p", "Map", "St0", "Sl", "Arr2"}
				if x.Thorough {
					kinds = kitKinds
				}
				l := kit.ByKind(kinds[x.Choose("kind", len(kinds))])
				k := x.Choose("methods", len(l))
				if len(l) > 20 && k%3 == 2 && !x.Thorough {
					x.Skip()
				}
				v := kitVal(x, l[k].T)
				w, _ := at(x, v, places)
				callsOf(x, w, &ref.Opts{Ctx: ctxs[x.Choose("context", 2)*2]})
				if x.Bool("filter") {
					callsOf(x, w, &ref.Opts{HasDeny: true, Deny: []string{"v", "V"}})
				}
			}},
		&core.Scenario{Name: "receivers", Doc: "10 types with pointer methods at 16 addressable places: the receiver is the element itself, every element once, in order",
			SplitDepth: 2,
			Run: func(x *core.X) {
				ts := []interface{}{adC{}, adA{}, adJ{}, adT{}, adI(0), adS(nil), adM(nil), adAr{}, adEm{}, adEp{}}
				t := reflect.TypeOf(ts[x.Choose("type", len(ts))])
				p := adPlaces[x.Choose("place", len(adPlaces))]
				o := &ref.Opts{UnsortedMap: x.Bool("unsorted")}
				v, els := p.mk(t)
				var want []unsafe.Pointer
				for _, e := range els {
					a := e.Addr().UnsafePointer()
					switch q := e.Addr().Interface().(type) {
					case *adEm:
						a = unsafe.Pointer(&q.adJ)
					case *adEp:
						if q.adT == nil {
							q.adT = &adT{1, 2}
						}
						a = unsafe.Pointer(q.adT)
					}
					want = append(want, a)
				}
				for i := 0; i < 2; i++ {
					adLog = nil
					n, werr := ref.Encode(v, o)
					adLog = nil
					b, err := enc(v, o)
					judge(x, v, o, b, err, n, werr)
					if fmt.Sprint(adLog) != fmt.Sprint(want) {
						x.Failf("%v at %s: methods called on %v, want %v", t, p.name, adLog, want)
					}
				}
			}},
		&core.Scenario{Name: "buffers", Doc: "append methods that append in place, in pieces, into a new array, after scribbling over the spare capacity, a long text, a digit or nothing, at every position: each is called once, the output is what it appended, the buffer they get is never null-terminated junk: it ends with what the encoder wrote before",
			SplitDepth: 2,
			Run: func(x *core.X) {
				t := kit.Lookup("Int", []string{"NVNN", "VNNN"}[x.Choose("methods", 2)]).T
				how := x.Choose("how", 7)
				w, _ := at(x, kit.Fill(t), places)
				prefix := x.Choose("prefix", 3) * 33
				n := 0
				next := func() []byte {
					n++
					switch how {
					case 4:
						return []byte(`"` + strings.Repeat(fmt.Sprint(n%10), 5000) + `"`)
					case 5:
						return []byte{byte('0' + n%10)}
					case 6:
						return nil
					}
					return []byte(fmt.Sprintf(`["part",%d]`, n))
				}
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) { return next(), nil }
				defer func() { kit.Hook = nil }()
				nd, want := ref.Encode(w, nil)
				calls := n
				n = 0
				var got []byte
				var err error
				kit.AppendHook = func(buf, out []byte) []byte {
					switch how {
					case 1: // byte by byte
						for _, c := range out {
							buf = append(buf, c)
						}
						return buf
					case 2: // into a new array
						nb := make([]byte, 0, len(buf)+len(out)+3)
						return append(append(nb, buf...), out...)
					case 3: // uses the spare capacity first
						full := buf[len(buf):cap(buf)]
						for i := range full {
							full[i] = 0xEE
						}
						return append(buf, out...)
					}
					return append(buf, out...)
				}
				defer func() { kit.AppendHook = nil }()
				pre := filled(prefix, 5)
				got, err = jettison.Append(append(make([]byte, 0, prefix+16*x.Choose("spare", 2)), pre...), w)
				if n != calls {
					x.Failf("%s: methods called %d times, want %d", describe(w), n, calls)
				}
				if err == nil {
					if !bytes.HasPrefix(got, pre) {
						x.Failf("%s: prefix lost: %q", describe(w), got)
					}
					got = got[prefix:]
				} else {
					got = nil
				}
				judge(x, w, nil, got, err, nd, want)
			}},
		&core.Scenario{Name: "kept-results", Doc: "JSON and text methods whose result is kept by its owner, with spare capacity: the encoder neither changes nor keeps it, with and without compaction and escaping, at every position",
			SplitDepth: 2,
			Run: func(x *core.X) {
				t := kit.Lookup("Int", []string{"NNVN", "NNNV"}[x.Choose("methods", 2)]).T
				w, _ := at(x, kit.Fill(t), places)
				os := []*ref.Opts{{}, {NoCompact: true}, {NoHTMLEscaping: true}, {NoStringEscaping: true, UnsortedMap: true}}
				o := os[x.Choose("options", len(os))]
				back := []byte("#######" + ` {"k" : "<v>", "l":[ 1 ] }` + "!!!!!!!!!!!!!!!!!!!!!!")
				res := back[7 : len(back)-22]
				saved := append([]byte{}, back...)
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					if c.Method == 'J' || c.Method == 'T' {
						return res, nil
					}
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				n, want := ref.Encode(w, o)
				b, err := enc(w, o)
				judge(x, w, o, b, err, n, want)
				if !bytes.Equal(back, saved) {
					x.Failf("%s: the result of a method was changed to %q", describe(w), back)
				}
				keep := append([]byte{}, b...)
				for i := range back {
					back[i] = 'X'
				}
				if !bytes.Equal(keep, b) {
					x.Failf("%s: the output shares memory with the result of a method", describe(w))
				}
			}},
		&core.Scenario{Name: "occurrences", Doc: "the same value, pointer and map entry occurring 1..4 times, next to omitted and nil members, in every subset of 6 members",
			SplitDepth: 2,
			Run: func(x *core.X) {
				m := []string{"NVNN", "VNNN", "NNVN", "NNNV", "NNPN", "PNNN", "NPNN", "NNNP", "VVVV", "PPPP"}[x.Choose("methods", 10)]
				it := kit.Lookup("Int", m).T
				mt := kit.Lookup("Map", m).T
				p := ptrV(kit.FillN(it, 3))
				s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", it, `json:",omitempty"`), sf("B", p.Type(), `json:",omitempty"`), sf("C", p.Type(), `json:",omitnil"`), sf("D", mt, `json:",omitnil"`), sf("E", anyT, `json:",omitempty"`), sf("F", reflect.SliceOf(p.Type()), "")}))
				k := x.Choose("members", 64)
				for i := 0; i < 6; i++ {
					if k>>uint(i)&1 == 0 {
						continue
					}
					f := s.Elem().Field(i)
					switch i {
					case 0:
						f.Set(p.Elem())
					case 3:
						f.Set(kit.Fill(mt))
					case 5:
						f.Set(mkSlice(p.Type(), p, p, reflect.Zero(p.Type())))
					default:
						f.Set(p)
					}
				}
				for _, o := range []*ref.Opts{{}, {HasDeny: true, Deny: []string{"C", "F"}}, {HasAllow: true, Allow: []string{"B", "D"}, HasDeny: true, Deny: []string{"D"}}} {
					callsOf(x, s.Interface(), o)
					callsOf(x, s.Elem().Interface(), o)
				}
			}},
		&core.Scenario{Name: "contexts", Doc: "contexts that are cancelled, timed out, custom types, and set twice: the methods get that very context, whatever its state",
			SplitDepth: 1,
			Run: func(x *core.X) {
				c, cancel := context.WithCancel(context.Background())
				cancel()
				d, cancel2 := context.WithDeadline(context.Background(), time.Unix(0, 0))
				defer cancel2()
				cs := []context.Context{c, d, myCtx{context.Background(), 1}, &myCtx{ctxA, 2}, context.TODO(), ctxB}
				t := kit.Lookup("Int", "VNNN").T
				w, _ := at(x, kit.Fill(t), places)
				ctx := cs[x.Choose("context", len(cs))]
				callsOf(x, w, &ref.Opts{Ctx: ctx})
				other := cs[(x.Choose("other", 2)*3)%len(cs)]
				lg := withLog(func() { jettison.MarshalOpts(w, jettison.WithContext(other), jettison.WithContext(ctx)) })
				for _, l := range lg {
					if l.Method == 'C' && l.Ctx != ctx {
						x.Failf("%s: method called with %v, want the last context %v", describe(w), l.Ctx, ctx)
					}
				}
			}},
	)
}

type myCtx struct {
	context.Context
	n int
}

// callsOf compares the calls of methods with those of the model: order,
// receivers, contexts; and what append methods found in their buffers.
func callsOf(x *core.X, v interface{}, o *ref.Opts) {
	var (
		n    *ref.Node
		want *ref.Error
		b    []byte
		err  error
	)
	l1 := withLog(func() { n, want = ref.Encode(v, o) })
	l2 := withLog(func() { b, err = enc(v, o) })
	judge(x, v, o, b, err, n, want)
	if a, w := logString(l2, false), logString(l1, false); a != w {
		x.Failf("%s %s: methods called %s, want %s", describe(v), o, a, w)
	}
	ctxOf(x, v, o, l2)
	// Into an empty buffer without maps, an append method finds the output so far.
	if err == nil && len(l2) > 0 && len(l2) < 20 {
		var got []byte
		l3 := withLog(func() { got, _ = jettison.AppendOpts([]byte("\x00start"), v, o.Options()...) })
		for _, c := range l3 {
			if (c.Method == 'C' || c.Method == 'A') && bytes.HasPrefix(c.Buf, []byte("\x00start")) && !bytes.HasPrefix(got, c.Buf) && !o.UnsortedMap {
				x.Failf("%s %s: %v was given the buffer %q, which is not a prefix of the output %q", describe(v), o, c, c.Buf, got)
			}
		}
	}
}
