// Package core is a stateless explorer: a scenario is an ordinary function
// that asks the explorer for every decision it takes (Choose, Dev), and the
// explorer runs it again and again until every combination of answers within
// the bounds was taken exactly once.
package core

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// A Scenario is a closed, deterministic program over the code under test.
type Scenario struct {
	Name string
	Doc  string // what is enumerated, against which oracle
	Run  func(x *X)
	// MaxDev bounds the number of departures from the default answer (Dev).
	MaxDev       int
	ThoroughDev  int // deviation bound of the thorough tier (0: same)
	ThoroughOnly bool
	SplitDepth   int  // number of leading choice points used to split the work
	Serial       bool // run in one child process only
}

type point struct {
	v, n int
	dev  bool
}

// X is the handle of one execution.
type X struct {
	Thorough bool
	Trace    bool // replaying one execution: keep labels and notes
	prefix   []point
	replay   []int
	pts      []point
	budget   int
	split    int
	splitOK  func(prefix []point) bool
	j        *Journal
	c        *Counters
	seen     map[uint64]struct{}
	Labels   []string
	Notes    []string
	sample   func(string)
	observed bool
}

// Counters are measured while exploring.
type Counters struct {
	Executions  int64 // complete executions compared with the oracle
	Transitions int64 // answered choice points (and batch items)
	Validated   int64 // comparisons of the implementation with the model
}

type failure struct{ msg string }
type skipped struct{}

type diverged struct{ msg string }

// Choose returns 0..n-1; all answers are explored.
func (x *X) Choose(label string, n int) int { return x.ask(label, n, false) }

// Dev returns 0..n-1; answers other than 0 cost one deviation.
func (x *X) Dev(label string, n int) int { return x.ask(label, n, true) }

// Bool is Choose with two answers.
func (x *X) Bool(label string) bool { return x.ask(label, 2, false) == 1 }

// DevBool is Dev with two answers.
func (x *X) DevBool(label string) bool { return x.ask(label, 2, true) == 1 }

func (x *X) ask(label string, n int, dev bool) int {
	if n <= 0 {
		panic(skipped{})
	}
	if n == 1 || (dev && x.budget <= 0) {
		return 0
	}
	i := len(x.pts)
	v := 0
	if i < len(x.prefix) {
		p := x.prefix[i]
		if p.n != n || p.dev != dev {
			panic(diverged{fmt.Sprintf("choice %d (%s): %d answers, had %d", i, label, n, p.n)})
		}
		v = p.v
	} else if i < len(x.replay) {
		if v = x.replay[i]; v >= n {
			panic(diverged{fmt.Sprintf("choice %d (%s): answer %d of %d", i, label, v, n)})
		}
	}
	if dev && v != 0 {
		x.budget--
	}
	x.pts = append(x.pts, point{v, n, dev})
	if x.j != nil {
		x.j.put(i, v)
	}
	x.c.Transitions++
	if x.Trace {
		x.Labels = append(x.Labels, fmt.Sprintf("%s=%d/%d", label, v, n))
	}
	if x.splitOK != nil && len(x.pts) == x.split && !x.splitOK(x.pts) {
		panic(skipped{})
	}
	return v
}

// Skip abandons an execution that is outside the explored space.
func (x *X) Skip() { panic(skipped{}) }

// Failf reports a violation.
func (x *X) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Notef keeps a line of the trace, when one is wanted.
func (x *X) Notef(format string, a ...interface{}) {
	if x.Trace {
		x.Notes = append(x.Notes, fmt.Sprintf(format, a...))
	}
}

// Obs records one comparison of the implementation with the model, whose
// observable outcome is b: distinct outcomes are the states reported.
func (x *X) Obs(b []byte) {
	x.c.Validated++
	x.observed = true
	if len(x.seen) < maxSeen {
		x.seen[Hash(b)] = struct{}{}
	}
}

// ObsN records n more comparisons made in an inner loop, where the inputs and
// hence the outcomes differ by construction.
func (x *X) ObsN(n int64) {
	x.c.Validated += n
	x.c.Transitions += n
}

// Sample offers a readable description of the execution for the evidence.
func (x *X) Sample(f func() string) {
	if x.sample != nil {
		x.sample(f())
	}
}

const maxSeen = 1 << 20

// Hash is FNV-1a.
func Hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// Journal is a memory-mapped file with the choices of the running execution:
// it survives a crash of the process.
type Journal struct{ m []byte }

const journalSize = 1 << 16

func OpenJournal(path string) *Journal {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(journalSize); err != nil {
		return nil
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &Journal{m}
}

func (j *Journal) w(i int) *uint32 { return (*uint32)(unsafe.Pointer(&j.m[i*4])) }

// words: 0 scenario, 1 number of choices, 2.. execution number, 4.. choices
func (j *Journal) put(i, v int) {
	if i+8 < journalSize/4 {
		*j.w(8 + i) = uint32(v)
		*j.w(1) = uint32(i + 1)
	}
}
func (j *Journal) Start(scen int, exec int64) {
	*j.w(0) = uint32(scen)
	*j.w(1) = 0
	*j.w(2) = uint32(exec)
	*j.w(3)++
}

// Beat shows progress inside a long execution.
func (x *X) Beat() {
	if x.j != nil {
		*x.j.w(3)++
	}
}
func (j *Journal) Read() (scen int, exec int64, choices []int, beat uint32) {
	n := int(*j.w(1))
	for i := 0; i < n && i+8 < journalSize/4; i++ {
		choices = append(choices, int(*j.w(8 + i)))
	}
	return int(*j.w(0)), int64(*j.w(2)), choices, *j.w(3)
}
func (j *Journal) Beats() uint32 { return *j.w(3) }

// Result of exploring one scenario in one process.
type Result struct {
	Scenario       string
	Counters       Counters
	Distinct       []uint64 `json:"-"`
	DistinctN      int
	Exhaustive     bool
	Divergences    int // executions that did not follow their prefix
	LastDivergence string
	Bound          int
	Samples        []string
	Failure        *Failure
	WallS          float64
}

// Failure is a violation found, with the way back to it.
type Failure struct {
	Scenario string
	Choices  []int
	Msg      string
	Labels   []string
	Notes    []string
	Exec     int64 // index of the failing execution in its process
	Shard    int
	Shards   int
	Thorough bool
	Dev      int
	Mode     string // how it is reproduced: fresh, history
}

// Explore runs every execution of s that belongs to this shard.
func Explore(s *Scenario, idx, shard, shards int, thorough bool, j *Journal, deadline time.Time, stopAt int64) *Result {
	start := time.Now()
	r := &Result{Scenario: s.Name}
	seen := map[uint64]struct{}{}
	bound := s.MaxDev
	if thorough && s.ThoroughDev > 0 {
		bound = s.ThoroughDev
	}
	split := s.SplitDepth
	if split == 0 {
		split = 2
	}
	r.Bound = bound
	var (
		prefix   []point
		leaf     int64 = -1
		execs    int64
		lastKey  []point
		lastMine bool
	)
	mineOf := func(pts []point) bool {
		if shards <= 1 {
			return true
		}
		same := lastKey != nil && len(lastKey) == len(pts)
		if same {
			for i := range pts {
				if pts[i].v != lastKey[i].v {
					same = false
					break
				}
			}
		}
		if !same {
			leaf++
			lastKey = append(lastKey[:0], pts...)
			lastMine = int(leaf%int64(shards)) == shard
		}
		return lastMine
	}
	nextSample := int64(1)
	for {
		x := &X{Thorough: thorough, prefix: prefix, budget: bound, j: j, c: &r.Counters, seen: seen, split: split}
		x.splitOK = mineOf
		if len(r.Samples) < 4 && execs >= nextSample {
			x.sample = func(t string) {
				if len(t) > 400 {
					t = t[:400] + "..."
				}
				r.Samples = append(r.Samples, t)
				nextSample = execs*7 + 11
				x.sample = nil
			}
		}
		if j != nil {
			j.Start(idx, execs)
		}
		before := r.Counters
		msg, skip, div := runOne(s, x)
		if div != "" {
			r.Divergences++
			r.LastDivergence = div
			skip = true
		}
		if skip {
			r.Counters = Counters{before.Executions, r.Counters.Transitions, before.Validated}
		} else {
			short := len(x.pts) < split
			if short && shards > 1 && !mineOf(x.pts) {
				// executed to learn its length, counted by another process
				r.Counters = before
				msg = ""
			} else {
				r.Counters.Executions++
			}
			execs++
		}
		if msg != "" {
			r.Failure = &Failure{Scenario: s.Name, Choices: vals(x.pts), Msg: msg, Exec: execs, Shard: shard, Shards: shards, Thorough: thorough, Dev: bound}
			break
		}
		if stopAt > 0 && execs >= stopAt {
			break
		}
		if div != "" {
			// give up this subtree rather than trust it
			if r.Divergences > 1000 {
				break
			}
			prefix = next(x.prefix, bound)
		} else {
			prefix = next(x.pts, bound)
		}
		if prefix == nil {
			r.Exhaustive = r.Divergences == 0
			break
		}
		if execs&15 == 0 && time.Now().After(deadline) {
			break
		}
	}
	for h := range seen {
		r.Distinct = append(r.Distinct, h)
	}
	r.DistinctN = len(seen)
	r.WallS = time.Since(start).Seconds()
	return r
}

func vals(p []point) []int {
	r := make([]int, len(p))
	for i := range p {
		r[i] = p[i].v
	}
	return r
}

// next is the odometer: the lexicographic successor of the answers given.
func next(pts []point, bound int) []point {
	used := make([]int, len(pts)+1)
	for i, p := range pts {
		used[i+1] = used[i]
		if p.dev && p.v != 0 {
			used[i+1]++
		}
	}
	for i := len(pts) - 1; i >= 0; i-- {
		p := pts[i]
		if p.v+1 >= p.n {
			continue
		}
		if p.dev && used[i]+1 > bound {
			continue
		}
		r := append([]point(nil), pts[:i+1]...)
		r[i].v++
		return r
	}
	return nil
}

func runOne(s *Scenario, x *X) (msg string, skip bool, div string) {
	debug.SetPanicOnFault(true)
	defer func() {
		switch e := recover().(type) {
		case nil:
		case skipped:
			skip = true
		case diverged:
			div = e.msg
		case failure:
			msg = e.msg
		default:
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	s.Run(x)
	return
}

// Replay runs one execution given by its choices.
func Replay(s *Scenario, choices []int, bound int, thorough bool) (msg string, x *X) {
	var c Counters
	x = &X{Thorough: thorough, Trace: true, budget: bound, c: &c, seen: map[uint64]struct{}{}, replay: choices}
	msg, _, _ = runOne(s, x)
	return msg, x
}
