package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
	"verifmc/shim/sched"

	"github.com/wI2L/jettison"
)

// A job is one call of a thread, with the outcome it must have.
type job struct {
	s    subject
	o    *ref.Opts
	opts []jettison.Option
	buf  []byte // of Append, if not nil

	want    []byte
	node    *ref.Node
	wantErr bool

	got []byte
	err error
	pan interface{}

	done func() // called at the end of run
}

func newJob(s subject, o *ref.Opts) *job {
	j := &job{s: s, o: o}
	if o != nil {
		j.opts = o.Options()
	}
	if !s.pan {
		n, e := ref.Encode(s.v, o)
		if j.wantErr = e != nil; !j.wantErr {
			j.node, j.want = n, n.Bytes()
		}
	}
	return j
}

func (j *job) run() {
	defer func() {
		j.pan = recover()
		if j.done != nil {
			j.done()
		}
	}()
	switch {
	case j.buf != nil && j.o == nil:
		j.got, j.err = jettison.Append(j.buf, j.s.v)
	case j.buf != nil:
		j.got, j.err = jettison.AppendOpts(j.buf, j.s.v, j.opts...)
	case j.o == nil:
		j.got, j.err = jettison.Marshal(j.s.v)
	default:
		j.got, j.err = jettison.MarshalOpts(j.s.v, j.opts...)
	}
}

func (j *job) check(who string) string {
	if j.s.pan {
		if j.pan != errY {
			return fmt.Sprintf("%s %s %s: got %q, %v, panic %v; want the panic of the method", who, j.s.name, j.o, j.got, j.err, j.pan)
		}
		return ""
	}
	if j.pan != nil {
		return fmt.Sprintf("%s %s %s: panic %v", who, j.s.name, j.o, j.pan)
	}
	if j.wantErr {
		if j.err == nil {
			return fmt.Sprintf("%s %s %s: got %q, want an error", who, j.s.name, j.o, j.got)
		}
		return ""
	}
	got := j.got
	if j.err == nil && j.buf != nil {
		if !bytes.HasPrefix(got, j.buf) {
			return fmt.Sprintf("%s %s %s: got %q without the prefix %q", who, j.s.name, j.o, got, j.buf)
		}
		got = got[len(j.buf):]
	}
	if j.err != nil || !bytes.Equal(got, j.want) && !(j.o != nil && j.o.UnsortedMap && j.node.Match(got)) {
		return fmt.Sprintf("%s %s %s: got %q, %v; want %q", who, j.s.name, j.o, got, j.err, j.want)
	}
	return ""
}

// conc runs the jobs of each thread concurrently and checks all outcomes, and
// then the outcomes of the same jobs alone.
func conc(x *core.X, cold bool, threads ...[]*job) {
	if cold {
		sched.Reset()
	}
	var fs []func()
	for _, js := range threads {
		js := js
		fs = append(fs, func() {
			for _, j := range js {
				j.run()
			}
		})
	}
	r := sched.Run(x, x.Trace, fs...)
	for _, t := range r.Trace {
		x.Notef("%s", t)
	}
	what := func() string {
		var l []string
		for i, js := range threads {
			s := fmt.Sprintf("T%d:", i)
			for _, j := range js {
				s += fmt.Sprintf(" %s %s", j.s.name, j.o)
			}
			l = append(l, s)
		}
		return strings.Join(l, "; ")
	}
	if r.Deadlock != "" {
		x.Failf("%s: deadlock: %s", what(), r.Deadlock)
	}
	if r.Livelock != "" {
		x.Failf("%s: does not end: %s", what(), r.Livelock)
	}
	var all []byte
	for i, js := range threads {
		if r.Panics[i] != "" {
			x.Failf("%s: thread %d: panic %s", what(), i, r.Panics[i])
		}
		for _, j := range js {
			if m := j.check(fmt.Sprint("thread ", i)); m != "" {
				x.Failf("%s: %s", what(), m)
			}
			all = append(append(all, j.s.name...), j.want...)
		}
	}
	for _, js := range threads {
		for _, j := range js {
			again := *j
			again.got, again.err, again.pan = nil, nil, nil
			again.run()
			if m := again.check("afterwards, alone"); m != "" {
				x.Failf("%s: %s", what(), m)
			}
		}
	}
	x.Obs([]byte(fmt.Sprintf("%s %d %d", all, r.Points, r.Switches)))
	x.Sample(func() string {
		return fmt.Sprintf("%s: %d scheduling points, %d switches", what(), r.Points, r.Switches)
	})
}

func one(s subject) []*job { return []*job{newJob(s, nil)} }

var groups = [][]string{
	{"node", "*node"}, {"mutA", "mutB", "mutC", "*mutA"}, {"nam1", "nam2", "nam3", "nam4"}, {"embA", "embB"}, {"flat", "inner", "twoFlat", "iface", "*inner", "arr1"},
}

func byName(n string) subject {
	for _, s := range subjects {
		if s.name == n {
			return s
		}
	}
	panic(n)
}

func init() {
	drive.Env("C18", "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 history_size=2", "GOGC=400")
	drive.Describe("C18", "The package is rebuilt with sync and sync/atomic replaced by stand-ins that make every operation a scheduling point, and with the race detector, to which the handoffs of the scheduler are invisible. Every interleaving of two or three goroutines up to a preemption bound is run from cold caches, with every answer of the pools; each outcome is compared with the reference model, and a data race, deadlock or endless loop is a violation.",
		"switches between scheduling points matter only if there is a data race, which the race detector reports; preemptions are bounded, switches at blocked or finished goroutines are not",
		"sync.Map operations are atomic steps")
	drive.Add("C18",
		&core.Scenario{Name: "same-value", Doc: "2 goroutines encode the same value of 44 types from cold caches",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				s := subjects[x.Choose("subject", len(subjects))]
				conc(x, true, one(s), one(s))
			}},
		&core.Scenario{Name: "pairs", Doc: "every pair of the 44 subjects, cold",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				i := x.Choose("first", len(subjects))
				k := x.Choose("second", len(subjects))
				if k <= i || !x.Thorough && (i*7+k)%5 != 0 {
					x.Skip()
				}
				conc(x, true, one(subjects[i]), one(subjects[k]))
			}},
		&core.Scenario{Name: "three", Doc: "3 goroutines on the members of a family in every combination, cold",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 5,
			Run: func(x *core.X) {
				g := groups[x.Choose("group", len(groups))]
				n := len(g)
				if !x.Thorough && n > 3 {
					n = 3
				}
				i, j, k := x.Choose("first", n), x.Choose("second", n), x.Choose("third", n)
				if j < i || k < j {
					x.Skip()
				}
				conc(x, true, one(byName(g[i])), one(byName(g[j])), one(byName(g[k])))
			}},
		&core.Scenario{Name: "opposite-orders", Doc: "2 goroutines encode the same two values in opposite orders, cold",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 4,
			Run: func(x *core.X) {
				g := groups[x.Choose("group", len(groups))]
				i, k := x.Choose("first", len(g)), x.Choose("second", len(g))
				if k <= i {
					x.Skip()
				}
				a, b := byName(g[i]), byName(g[k])
				conc(x, true, []*job{newJob(a, nil), newJob(b, nil)}, []*job{newJob(b, nil), newJob(a, nil)})
			}},
		&core.Scenario{Name: "pools", Doc: "warm caches: every pair of the 14 values that use scratch memory (maps, sync.Maps, methods, failing and panicking ones), sorted and not, with every answer of the pools",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 4,
			Run: func(x *core.X) {
				i, k := x.Choose("first", len(pooled)), x.Choose("second", len(pooled))
				if k < i {
					x.Skip()
				}
				o := []*ref.Opts{nil, {UnsortedMap: true}}[x.Choose("options", 2)]
				sched.Reset()
				a, b := newJob(pooled[i], o), newJob(pooled[k], o)
				w1, w2 := *a, *b
				w1.run()
				w2.run()
				conc(x, false, []*job{a}, []*job{b})
			}},
		&core.Scenario{Name: "pools-deep", Doc: "one more departure from the default schedule and pool answers than in pools, for 4 of the values",
			MaxDev: 2, ThoroughDev: 3, SplitDepth: 4,
			Run: func(x *core.X) {
				l := []string{"map", "sync.Map of methods", "error in a map", "map of methods"}
				i, k := x.Choose("first", len(l)), x.Choose("second", len(l))
				if k < i || !x.Thorough && i != k && i != 0 {
					x.Skip()
				}
				sched.Reset()
				a, b := newJob(byName(l[i]), nil), newJob(byName(l[k]), nil)
				w1, w2 := *a, *b
				w1.run()
				w2.run()
				conc(x, false, []*job{a}, []*job{b})
			}},
		&core.Scenario{Name: "pool-history", Doc: "2 goroutines with two calls each over 3 (7) values that use scratch memory, warm",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 4,
			Run: func(x *core.X) {
				l := []subject{byName("map"), byName("panic in a map"), byName("smaps"), byName("error in a map"), byName("map of methods"), byName("panic in a sync.Map"), byName("long")}
				n := len(l)
				if !x.Thorough {
					n = 3
				}
				js := make([]*job, 4)
				for i := range js {
					js[i] = newJob(l[x.Choose("subject", n)], nil)
				}
				sched.Reset()
				for _, s := range l {
					newJob(s, nil).run()
				}
				conc(x, false, js[:2], js[2:])
			}},
		&core.Scenario{Name: "after-failure", Doc: "one or two calls (of a goroutine that is done) fail or panic at one of 15 places, sorted or not; then 2 goroutines encode 5 values that use scratch memory, in every pair",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 4,
			Run: func(x *core.X) {
				f := failing[x.Choose("failing", len(failing))]
				o := []*ref.Opts{nil, {UnsortedMap: true}}[x.Choose("options", 2)]
				l := []string{"map of methods", "sync.Map of methods", "meths", "map", "smaps"}
				i, k := x.Choose("first", len(l)), x.Choose("second", len(l))
				if k < i || !x.Thorough && (i > 1 || k > 2) {
					x.Skip()
				}
				sched.Reset()
				again := 1 + x.Choose("again", 2)
				for n := 0; n < again; n++ {
					j := newJob(f, o)
					j.run()
					if m := j.check("alone"); m != "" {
						x.Failf("%s", m)
					}
				}
				conc(x, false, one(byName(l[i])), one(byName(l[k])))
			}},
		&core.Scenario{Name: "options", Doc: "2 goroutines share the same option values (lists, layouts, contexts, durations, all flags) and the same value",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				os := []*ref.Opts{
					{HasAllow: true, Allow: []string{"A", "b", "V", "k", "P", "Next"}}, {HasDeny: true, Deny: []string{"A", "c"}}, {HasAllow: true, Allow: []string{"A"}, HasDeny: true, Deny: []string{"A"}},
					{TimeLayout: "2006"}, {UnixTime: true}, {HasDur: true, Dur: jettison.DurationString}, {Ctx: context.WithValue(context.Background(), txt("k"), 1)},
					{NilMapEmpty: true, NilSliceEmpty: true, RawByteSlice: true, ByteArrayAsString: true}, {NoStringEscaping: true, NoHTMLEscaping: true, NoUTF8Coercion: true, NoCompact: true, NoNumberValidation: true}, {UnsortedMap: true},
				}
				o := os[x.Choose("options", len(os))]
				ss := []string{"inner", "times", "maps", "meths", "mutA", "smaps", "iface", "node"}
				s := byName(ss[x.Choose("subject", len(ss))])
				a, b := newJob(s, o), newJob(s, o)
				b.opts = a.opts
				if x.Bool("warm") {
					sched.Reset()
					w := *a
					w.run()
					conc(x, false, []*job{a}, []*job{b})
					return
				}
				conc(x, true, []*job{a}, []*job{b})
			}},
		&core.Scenario{Name: "append", Doc: "2 goroutines append to neighbouring parts of one buffer, whose capacity ends in the middle of the output or has room for all of it",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 4,
			Run: func(x *core.X) {
				ss := []string{"maps", "meths", "node", "flat", "error in a map", "panic in a map", "smaps", "times"}
				i, k := x.Choose("first", len(ss)), x.Choose("second", len(ss))
				if !x.Thorough && i != k && i != (k+1)%len(ss) {
					x.Skip()
				}
				a, b := newJob(byName(ss[i]), nil), newJob(byName(ss[k]), nil)
				room := []int{4, 64, 4096}[x.Choose("room", 3)]
				mem := make([]byte, 2*room)
				a.buf = append(mem[:0:room], "aa"...)
				b.buf = append(mem[room:room:2*room], "bb"...)
				cold := x.Bool("cold")
				sched.Reset()
				if !cold {
					w1, w2 := *a, *b
					w1.buf, w2.buf = nil, nil
					w1.run()
					w2.run()
				}
				conc(x, cold, []*job{a}, []*job{b})
			}},
		&core.Scenario{Name: "recursive", Doc: "2 goroutines encode values of the same of 19 recursive types, or of types of the same family (mutually recursive types, types that share members), from cold caches",
			MaxDev: 2, ThoroughDev: 3, SplitDepth: 4,
			Run: func(x *core.X) {
				var a, b subject
				if x.Bool("family") {
					g := groups[x.Choose("group", len(groups))]
					i := x.Choose("first", len(g))
					k := x.Choose("second", len(g))
					if k <= i {
						x.Skip()
					}
					a, b = byName(g[i]), byName(g[k])
				} else {
					a = recursive[x.Choose("subject", len(recursive))]
					b = a
				}
				conc(x, true, one(a), one(b))
			}},
	)
}
