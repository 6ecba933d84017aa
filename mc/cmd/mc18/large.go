package main

import (
	"fmt"
	"strings"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
	"verifmc/shim/sched"

	"github.com/wI2L/jettison"
)

// A bulk writes a text of its size, gives way, and writes another.
type bulk struct{ n, k int }

func (b bulk) AppendJSON(dst []byte) ([]byte, error) {
	s := strings.Repeat(string(rune('a'+b.k)), b.n)
	dst = append(append(append(dst, `["`...), s...), '"')
	yield()
	return append(append(append(dst, `,"`...), s...), `"]`...), nil
}

// bulkNest marshals another one in the middle.
type bulkNest struct{ n, k, depth int }

func (b bulkNest) AppendJSON(dst []byte) ([]byte, error) {
	dst, _ = bulk{b.n, b.k}.AppendJSON(append(dst, '['))
	if b.depth > 0 {
		r, err := jettison.Marshal(bulkNest{b.n, b.k + 1, b.depth - 1})
		if err != nil {
			return nil, err
		}
		dst = append(append(dst, ','), r...)
	}
	return append(dst, ']'), nil
}

func init() {
	drive.Add("C18",
		&core.Scenario{Name: "large", Doc: "2 goroutines encode values of 4 kinds (a method, in a map, in a sync.Map, re-entrant) whose texts have 10, 5000 or 20000 bytes, every pair of kinds and sizes, from free buffers or warm after small or after large ones (quick: not after small ones)",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 5,
			Run: func(x *core.X) {
				sizes := []int{10, 5000, 20000}
				warm := x.Choose("warm", 3)
				mk := func(i int) *job {
					k, n := x.Choose("kind", 4), sizes[x.Choose("size", 3)]
					var v interface{}
					switch k {
					case 0:
						v = []bulk{{n, 4 * i}, {n, 4*i + 1}}
					case 1:
						v = map[string]bulk{"b": {n, 4 * i}, "a": {n / 2, 4*i + 1}}
					case 2:
						v = smap("b", bulk{n, 4 * i}, "a", bulk{n, 4*i + 1})
					default:
						v = bulkNest{n, 4 * i, 2}
					}
					return newJob(subject{name: fmt.Sprintf("bulk of kind %d, %d bytes", k, n), v: v}, nil)
				}
				a, b := mk(0), mk(1)
				if a.s.name > b.s.name || !x.Thorough && warm == 1 {
					x.Skip()
				}
				sched.Reset()
				for i := 0; i < warm*3; i++ {
					newJob(subject{name: "warm", v: bulkNest{[]int{0, 5, 20000}[warm], 9, i}}, &ref.Opts{}).run()
				}
				conc(x, false, []*job{a}, []*job{b})
			}},
		&core.Scenario{Name: "many", Doc: "4 or 5 (6) goroutines encode the same value of 12 types, or values of types that share parts, from cold caches, and values that use scratch memory, warm: every order, and (thorough) with one preemption",
			MaxDev: 0, ThoroughDev: 1, SplitDepth: 3,
			Run: func(x *core.X) {
				l := []string{"node", "mutA", "mutC", "embA", "twoFlat", "iface", "maps", "smaps", "meths", "map of methods", "long", "deep"}
				k := x.Choose("subject", len(l))
				n := 2
				if x.Thorough {
					n = 3
				}
				n = 4 + x.Choose("goroutines", n)
				cold := x.Bool("cold")
				var ts [][]*job
				for i := 0; i < n; i++ {
					s := byName(l[k])
					if cold && k < 4 && i%2 == 1 {
						s = byName([]string{"*node", "mutB", "*mutA", "embB"}[k])
					}
					ts = append(ts, one(s))
				}
				sched.Reset()
				if !cold {
					for i := 0; i < 3; i++ {
						w := *ts[0][0]
						w.run()
					}
				}
				conc(x, cold, ts...)
			}},
	)
}
