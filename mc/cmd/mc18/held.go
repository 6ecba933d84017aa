package main

import (
	"fmt"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/shim/sched"

	"github.com/wI2L/jettison"
)

// A gate is a value whose method waits, while its call of the package is in
// progress, for another thread to get somewhere: into the method of one of its
// calls, or past that call. Threads that wait cost no preemption, so that long
// overlaps of calls are reached with few.
type gate struct {
	t, j int
	nest bool // then makes another call before it returns
}

const (
	gThreads = 3
	gJobs    = 2
	gEvents  = gThreads * gJobs * 2 // entered, finished
)

var (
	happened [gEvents]bool
	waits    [gThreads][gJobs]int // 1 + an event, 0: none
)

func event(t, j, finished int) int { return (t*gJobs+j)*2 + finished }

type waiter int

//go:norace
func (w waiter) Ready() bool { return happened[w] }

//go:norace
func mark(e int) { happened[e] = true }

//go:norace
func waitsFor(t, j int) int { return waits[t][j] }

//go:norace
func resetGates() {
	happened = [gEvents]bool{}
	waits = [gThreads][gJobs]int{}
}

func (g gate) AppendJSON(b []byte) ([]byte, error) {
	if sched.Controlled() {
		mark(event(g.t, g.j, 0))
		if w := waitsFor(g.t, g.j); w > 0 {
			sched.Await("gate", 0, waiter(w-1))
		}
	}
	if g.nest {
		r, err := jettison.Marshal([]int{g.t, g.j})
		return append(b, r...), err
	}
	return append(b, fmt.Sprintf(`[%d,%d]`, g.t, g.j)...), nil
}

// nest encodes a value while it is encoded, n times: as many buffers are in use
// at once, and free afterwards.
type nest int

func (n nest) AppendJSON(b []byte) ([]byte, error) {
	if n > 0 {
		r, err := jettison.Marshal(map[string]interface{}{"b": n - 1, "a": 1})
		return append(b, r...), err
	}
	return append(b, "null"...), nil
}

func (n nest) MarshalJSON() ([]byte, error) { return n.AppendJSON(nil) }

// cyclic tells if the calls wait for each other.
func cyclic() bool {
	done := [gEvents]bool{}
	for range done {
		for t := 0; t < gThreads; t++ {
			for j := 0; j < gJobs; j++ {
				if j == 0 || done[event(t, j-1, 1)] {
					done[event(t, j, 0)] = true
					if w := waits[t][j]; w == 0 || done[w-1] {
						done[event(t, j, 1)] = true
					}
				}
			}
		}
	}
	for _, d := range done {
		if !d {
			return true
		}
	}
	return false
}

func init() {
	drive.Add("C18",
		&core.Scenario{Name: "held", Doc: "3 goroutines with two calls each, warm with three free buffers: one or two (three) of them wait, in the middle of one of their calls, until another is in the middle of, or past, one of its calls: every such pattern without a cycle, for values whose method makes another call, and maps (and sync.Maps; quick: one of them waits), with one preemption or answer of the pools at every point",
			MaxDev: 1, ThoroughDev: 2, SplitDepth: 3,
			Run: func(x *core.X) {
				resetGates()
				kinds := 2
				if x.Thorough {
					kinds = 3
				}
				kind := x.Choose("kind", kinds)
				for t := gThreads - 1; t >= 0; t-- {
					if t == 0 && !x.Thorough {
						continue
					}
					k := x.Choose("gate", 1+gJobs*(gThreads-1)*gJobs*2)
					if k == 0 {
						continue
					}
					if kind > 0 && t == 1 && !x.Thorough {
						x.Skip()
					}
					k--
					o := k / gJobs / gJobs / 2
					if o >= t {
						o++
					}
					waits[t][k%gJobs] = 1 + event(o, k/gJobs%gJobs, k/gJobs/gJobs%2)
				}
				if waits == [gThreads][gJobs]int{} || cyclic() {
					x.Skip()
				}
				sched.Reset()
				js := [gThreads][]*job{}
				fs := [gThreads][]*job{}
				for t := range js {
					for j := 0; j < gJobs; j++ {
						var v interface{}
						g := gate{t, j, kind == 0}
						switch kind {
						case 0:
							v = []interface{}{fmt.Sprint("begin", t, j), g, t}
						case 1:
							v = map[string]gate{fmt.Sprint("b", t, j): g, "a": g}
						case 2:
							v = smap(fmt.Sprint("b", t, j), map[string]gate{"k": g, "j": g})
						}
						js[t] = append(js[t], newJob(subject{name: fmt.Sprintf("call %d waits for %d", j, waits[t][j]), v: v}, nil))
					}
				}
				w := newJob(subject{name: "nested", v: nest(3)}, nil)
				w.run()
				w = js[0][0]
				warm := *w
				warm.run()
				for t := range js {
					t := t
					fs[t] = js[t]
					for j := range fs[t] {
						j := j
						fs[t][j].done = func() { mark(event(t, j, 1)) }
					}
				}
				conc(x, false, fs[:]...)
			}},
	)
}
