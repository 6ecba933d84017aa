package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// methodErr is an error type of a user.
type methodErr struct{ n int }

func (e *methodErr) Error() string { return fmt.Sprint("method error ", e.n) }

// checkFail compares a failing (or not) encoding with the model: error, data,
// and the methods called.
func checkFail(x *core.X, v interface{}, o *ref.Opts) *ref.Error {
	var (
		n      *ref.Node
		want   *ref.Error
		b, b2  []byte
		err    error
		prefix = []byte("prefix")
	)
	l1 := logString(withLog(func() { n, want = ref.Encode(v, o) }), false)
	l2 := logString(withLog(func() { b, err = enc(v, o) }), false)
	if l1 != l2 {
		x.Failf("%s %s: methods called %s, want %s (%v)", describe(v), o, l2, l1, want)
	}
	judge(x, v, o, b, err, n, want)
	l2 = logString(withLog(func() { b2, err = jettison.AppendOpts(prefix[:6:6], v, o.Options()...) }), false)
	if l1 != l2 {
		x.Failf("%s %s: AppendOpts: methods called %s, want %s (%v)", describe(v), o, l2, l1, want)
	}
	if want == nil {
		if err != nil || !strings.HasPrefix(string(b2), "prefix") {
			x.Failf("%s %s: AppendOpts: %q, %v", describe(v), o, b2, err)
		}
		judge(x, v, o, b2[6:], err, n, want)
	} else if m := ref.CheckErr(err, want); m != "" || err == nil {
		x.Failf("%s %s: AppendOpts: %s", describe(v), o, m)
	}
	return want
}

func init() {
	drive.Env("C19", "GOMAXPROCS=1")
	drive.Describe("C19", "Trees of containers and recording marshalers in which one leaf (two) cannot be encoded, or one call (two) of a method returns an error: the error, its type and identity, and the methods called up to it are those of the model.",
		"maps with several entries are visited in any order: trees have maps with one entry, a scenario of its own has more")
	opts := []*ref.Opts{{}, {UnsortedMap: true}, {NoHTMLEscaping: true, NilSliceEmpty: true, HasDeny: true, Deny: []string{"deny"}}, {NoCompact: true, NoNumberValidation: true}}
	drive.Add("C19",
		&core.Scenario{Name: "bad-leaves", Doc: "trees of depth 0..2 (3) over 13 containers with one leaf out of 23 that cannot be encoded, at every leaf position, x 4 option sets: error type and content, no data, and exactly the method calls before it",
			MaxDev: 1, SplitDepth: 3,
			Run: func(x *core.X) {
				t := &tree{x: x, errs: true}
				v := t.gen(x.Choose("depth", 3+thor(x)))
				for _, o := range opts {
					checkFail(x, v.Interface(), o)
				}
			}},
		&core.Scenario{Name: "two-bad-leaves", Doc: "trees of depth 0..2 with up to two such leaves: the first error in output order counts",
			MaxDev: 2, SplitDepth: 3, ThoroughOnly: true,
			Run: func(x *core.X) {
				t := &tree{x: x, errs: true}
				v := t.gen(x.Choose("depth", 3))
				for _, o := range opts[:2] {
					checkFail(x, v.Interface(), o)
				}
			}},
		&core.Scenario{Name: "wide-bad-leaves", Doc: "the same with containers on both sides (depth 2)",
			MaxDev: 1, SplitDepth: 3, ThoroughOnly: true,
			Run: func(x *core.X) {
				t := &tree{x: x, errs: true, binary: true}
				v := t.gen(2)
				checkFail(x, v.Interface(), opts[0])
			}},
		&core.Scenario{Name: "failing-calls", Doc: "trees of depth 0..2 (3) in which the k-th method call fails, for every k, with a sentinel, a typed error, a wrapped error or an error of the package: errors.Is and errors.As find it, and no later method is called",
			SplitDepth: 3,
			Run: func(x *core.X) {
				t := &tree{x: x}
				max := 2
				if x.Thorough {
					max = 3
				}
				v := t.gen(x.Choose("depth", max+1))
				o := opts[x.Choose("options", 3)]
				l := withLog(func() { ref.Encode(v.Interface(), o) })
				if len(l) == 0 {
					x.Skip()
				}
				for k := range l {
					te := &methodErr{k}
					for i, e := range []error{errBoom, te, fmt.Errorf("wrapped: %w", te), &jettison.UnsupportedTypeError{Type: intT}, &jettison.MarshalerError{Type: strT, Err: te}, context.Canceled} {
						if i > 1 && !x.Thorough && (k+i)%2 == 0 {
							continue
						}
						calls := 0
						kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
							calls++
							if calls-1 == k {
								return out, e
							}
							return out, nil
						}
						lg := withLog(func() {
							b, err := enc(v.Interface(), o)
							var me *jettison.MarshalerError
							if err == nil || b != nil || !errors.Is(err, e) || !errors.As(err, &me) {
								x.Failf("%s %s: call %d (%v) failed with %v: got %q, %v", describe(v.Interface()), o, k, l[k], e, b, err)
							}
							var t *methodErr
							if i == 1 && (!errors.As(err, &t) || t != te) {
								x.Failf("%s: errors.As does not find the method's error in %v", describe(v.Interface()), err)
							}
							if me.Type == nil || !strings.Contains(me.Type.String(), l[k].Type) {
								x.Failf("%s: MarshalerError of type %v, want %s", describe(v.Interface()), me.Type, l[k].Type)
							}
							meth := map[byte]string{'C': "AppendJSONContext", 'A': "AppendJSON", 'J': "MarshalJSON", 'T': "MarshalText"}[l[k].Method]
							if !strings.Contains(err.Error(), e.Error()) {
								x.Failf("%s: error %q does not mention the method's error %q (%s)", describe(v.Interface()), err, e, meth)
							}
						})
						kit.Hook = nil
						if logString(lg, false) != logString(l[:k+1], false) {
							x.Failf("%s %s: call %d failed: methods called %s, want %s", describe(v.Interface()), o, k, logString(lg, false), logString(l[:k+1], false))
						}
						x.Obs([]byte(fmt.Sprint(l[:k+1], i)))
					}
				}
				// and without a fault
				check(x, v.Interface(), o)
				x.Sample(func() string {
					return fmt.Sprintf("%s: %d calls, each made to fail", describe(v.Interface()), len(l))
				})
			}},
		&core.Scenario{Name: "bad-places", Doc: "23 values that cannot be encoded at every pair of positions",
			SplitDepth: 2,
			Run: func(x *core.X) {
				v := reflect.ValueOf(badLeaves[x.Choose("bad", len(badLeaves))])
				p := places[x.Choose("inner", len(places))]
				w, ok := mkPlace(p, v)
				if !ok {
					x.Skip()
				}
				q := x.Choose("outer", 30)
				u, ok := mkPlace(places[q], w)
				if !ok || (q > 8 && !x.Thorough && q%3 != 0) {
					x.Skip()
				}
				check(x, u.Interface(), nil)
			}},
		&core.Scenario{Name: "wide-maps", Doc: "maps and sync.Maps with 2..4 entries of which one or two (key or value) fail, between recording ones: an error, at most the calls of the other entries, each once, and none after the failure",
			SplitDepth: 2,
			Run: func(x *core.X) {
				n := 2 + x.Choose("entries", 3)
				bad := x.Choose("bad", n)
				asSync := x.Bool("sync")
				keyFails := x.Bool("key fails")
				unsorted := x.Bool("unsorted")
				kt, vt := kit.Lookup("Int", "NNNV").T, kit.Lookup("Int", []string{"NVNN", "VNNN", "NNVN", "NNNV"}[x.Choose("value", 4)]).T
				m := reflect.MakeMap(reflect.MapOf(kt, vt))
				var sv interface{} = m.Interface()
				sm := syncMapOf()
				var bk, bv string
				for i := 0; i < n; i++ {
					k, v := kit.FillN(kt, 10+i), kit.FillN(vt, 40+i)
					m.SetMapIndex(k, v)
					sm.Store(k.Interface(), v.Interface())
					if i == bad {
						bk, bv = kit.Repr(k), kit.Repr(v)
					}
				}
				if asSync {
					sv = sm
				}
				failed := false
				kit.Hook = func(c *kit.Call, out []byte) ([]byte, error) {
					if failed {
						x.Failf("%v called after the failure", c)
					}
					if keyFails && c.Repr == bk || !keyFails && c.Repr == bv {
						failed = true
						return nil, errBoom
					}
					return out, nil
				}
				defer func() { kit.Hook = nil }()
				o := &ref.Opts{UnsortedMap: unsorted}
				w := []interface{}{kit.FillN(vt, 1).Interface(), map[string]interface{}{"m": sv}, kit.FillN(vt, 2).Interface()}
				lg := withLog(func() {
					b, err := enc(w, o)
					if b != nil || !errors.Is(err, errBoom) {
						x.Failf("got %q, %v", b, err)
					}
				})
				seen := map[string]bool{}
				for _, c := range lg {
					if seen[c.String()] {
						x.Failf("%v called twice", c)
					}
					seen[c.String()] = true
				}
				if len(lg) > 1+2*n {
					x.Failf("%d calls for %d entries", len(lg), n)
				}
				x.Obs([]byte(fmt.Sprint(n, bad, asSync, keyFails, unsorted, vt)))
			}},
	)
}

// thor is 1 in the thorough tier.
func thor(x *core.X) int {
	if x.Thorough {
		return 1
	}
	return 0
}
