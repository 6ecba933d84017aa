// Package sched runs goroutines one at a time and hands every decision about
// which one goes on to its caller. The handoffs are invisible to the race
// detector, so that it sees the synchronisation of the code under test only:
// every function that touches the scheduler's state is excluded from
// instrumentation, and waiting is done by yielding the only processor.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	gosync "sync"
	"time"
)

const maxThreads = 6

// A Blocker tells if the thread that waits for it may go on.
type Blocker interface{ Ready() bool }

const (
	unused = iota
	parked
	running
	finished
	outside // blocked in an operation the scheduler does not control
)

type thread struct {
	state  uint8
	blk    Blocker
	op     string
	obj    uintptr
	points int
	streak int
	goid   int64
}

var (
	active bool
	turn   int = -1 // the thread that runs, -1: the scheduler
	cur    int = -1
	ths    [maxThreads]thread
	nth    int
	nOut   int
	// A request for a decision of the environment.
	askN      int
	askLabel  string
	askAnswer int
)

// Point is a scheduling point before an operation on obj.
//
//go:norace
func Point(op string, obj uintptr) { pause(op, obj, nil) }

// Await is a scheduling point that is passed when b is ready.
//
//go:norace
func Await(op string, obj uintptr, b Blocker) {
	for {
		pause(op, obj, b)
		if !active || b.Ready() {
			return
		}
		if self() < 0 {
			runtime.Gosched()
		}
	}
}

//go:norace
func self() int {
	if !active {
		return -1
	}
	if nOut == 0 {
		return cur
	}
	id := goid()
	for i := 0; i < nth; i++ {
		if ths[i].goid == id {
			return i
		}
	}
	return -1
}

// Controlled tells if the caller is one of the scheduled threads.
//
//go:norace
func Controlled() bool { return self() >= 0 }

//go:norace
func pause(op string, obj uintptr, b Blocker) {
	me := self()
	if me < 0 {
		return
	}
	t := &ths[me]
	t.op, t.obj, t.blk = op, obj, b
	t.points++
	park(me)
}

//go:norace
func park(me int) {
	t := &ths[me]
	if t.state == outside {
		nOut--
		t.state = parked
	} else {
		t.state = parked
		cur, turn = -1, -1
	}
	for turn != me {
		runtime.Gosched()
	}
	cur = me
	t.state = running
}

// Ask lets the explorer choose among n answers; 0 is the usual one.
//
//go:norace
func Ask(label string, n int) int {
	me := self()
	if me < 0 || n < 2 {
		return 0
	}
	askN, askLabel = n, label
	ths[me].op, ths[me].blk = label, nil
	park(me)
	return askAnswer
}

//go:norace
func finish(me int) {
	if ths[me].state == outside {
		nOut--
		ths[me].state = finished
		return
	}
	ths[me].state = finished
	cur, turn = -1, -1
}

//go:norace
func begin(me int) {
	ths[me].goid = goid()
	ths[me].state = parked
	for turn != me {
		runtime.Gosched()
	}
	cur = me
	ths[me].state = running
}

// goid reads the number of the goroutine from its stack trace.
//
//go:norace
func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	id := int64(0)
	for i := len("goroutine "); i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + int64(buf[i]-'0')
	}
	return id
}

// A Chooser takes the decisions.
type Chooser interface {
	Choose(label string, n int) int
	Dev(label string, n int) int
	Beat()
}

// A Report says how an execution ended.
type Report struct {
	Deadlock string
	Livelock string
	Panics   []string // per thread
	Points   int
	Switches int
	Outside  int
	Trace    []string
}

const (
	maxPoints  = 200000
	maxStreak  = 4000
	outsideMs  = 400
	deadSecond = 6
)

// Run executes the functions as threads under the chooser's decisions.
func Run(c Chooser, trace bool, fs ...func()) *Report {
	r := &Report{Panics: make([]string, len(fs))}
	reset(len(fs))
	var wg gosync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer finish(i)
			defer func() {
				if p := recover(); p != nil {
					r.Panics[i] = fmt.Sprintf("%v\n%s", p, debug.Stack())
				}
			}()
			begin(i)
			fs[i]()
		}(i)
	}
	for !started() {
		runtime.Gosched()
	}
	// A chooser that gives up panics: the threads still run to their end.
	var gaveUp interface{}
	ask := func(f func(string, int) int, label string, n int) (k int) {
		if gaveUp != nil {
			return 0
		}
		defer func() {
			if gaveUp = recover(); gaveUp != nil {
				k = 0
			}
		}()
		return f(label, n)
	}
	last := -1
	for {
		c.Beat()
		en, n := enabled(last)
		if n == 0 {
			if allFinished() {
				break
			}
			if someOutside() {
				if !waitOutside() {
					r.Deadlock = states()
					break
				}
				continue
			}
			r.Deadlock = states()
			break
		}
		k := 0
		if n > 1 {
			if en[0] == last {
				if streak(last) > maxStreak {
					k = 1
				} else {
					k = ask(c.Dev, "switch", n)
				}
			} else {
				k = ask(c.Choose, "next", n)
			}
		}
		if en[k] != last {
			r.Switches++
			last = en[k]
		}
		if trace && len(r.Trace) < 4000 {
			r.Trace = append(r.Trace, where(last))
		}
		if r.Points++; r.Points > maxPoints {
			r.Livelock = states()
			break
		}
		for {
			resume(last)
			if isOutside(last) {
				r.Outside++
				break
			}
			n, label := asked()
			if n == 0 {
				break
			}
			answer(ask(c.Dev, label, n))
		}
	}
	stop()
	if r.Deadlock == "" && r.Livelock == "" {
		wg.Wait()
	}
	if gaveUp != nil {
		panic(gaveUp)
	}
	return r
}

//go:norace
func reset(n int) {
	for i := range ths {
		ths[i] = thread{}
	}
	nth, nOut, turn, cur, askN = n, 0, -1, -1, 0
	active = true
}

//go:norace
func stop() { active = false }

//go:norace
func started() bool {
	for i := 0; i < nth; i++ {
		if ths[i].state == unused {
			return false
		}
	}
	return true
}

//go:norace
func allFinished() bool {
	for i := 0; i < nth; i++ {
		if ths[i].state != finished {
			return false
		}
	}
	return true
}

//go:norace
func someOutside() bool { return nOut > 0 }

//go:norace
func isOutside(i int) bool { return ths[i].state == outside }

//go:norace
func streak(i int) int { return ths[i].streak }

// waitOutside waits for a thread that is blocked outside.
//
//go:norace
func waitOutside() bool {
	n := nOut
	for t := time.Now(); time.Since(t) < deadSecond*time.Second; {
		if nOut != n {
			return true
		}
		runtime.Gosched()
	}
	return false
}

// enabled lists the threads that can go on, the last one first.
//
//go:norace
func enabled(last int) (l [maxThreads]int, n int) {
	if last >= 0 && can(last) {
		l[0], n = last, 1
	}
	for i := 0; i < nth; i++ {
		if i != last && can(i) {
			l[n] = i
			n++
		}
	}
	return
}

//go:norace
func can(i int) bool {
	return ths[i].state == parked && (ths[i].blk == nil || ths[i].blk.Ready())
}

// resume lets a thread run up to its next point.
//
//go:norace
func resume(i int) {
	for k := 0; k < nth; k++ {
		if k != i {
			ths[k].streak = 0
		}
	}
	ths[i].streak++
	turn = i
	n := 0
	var t0 time.Time
	for turn != -1 {
		runtime.Gosched()
		if n++; n&1023 == 0 {
			if t0.IsZero() {
				t0 = time.Now()
			} else if time.Since(t0) > outsideMs*time.Millisecond && ths[i].state == running && !busy(i) {
				ths[i].state = outside
				nOut++
				cur, turn = -1, -1
			}
		}
	}
}

// busy tells if a thread computes, as opposed to waiting.
//
//go:norace
func busy(i int) bool {
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	want := "goroutine " + strconv.FormatInt(ths[i].goid, 10) + " ["
	s := string(buf[:n])
	for k := 0; k+len(want) < len(s); k++ {
		if s[k:k+len(want)] == want {
			s = s[k+len(want):]
			return len(s) > 4 && (s[:3] == "run") // running, runnable
		}
	}
	return true
}

//go:norace
func asked() (int, string) {
	n := askN
	askN = 0
	return n, askLabel
}

//go:norace
func answer(k int) { askAnswer = k }

//go:norace
func where(i int) string {
	return "T" + strconv.Itoa(i) + ": " + ths[i].op + " " + strconv.FormatUint(uint64(ths[i].obj), 16)
}

//go:norace
func states() string {
	s := ""
	for i := 0; i < nth; i++ {
		s += where(i) + " (" + []string{"unused", "waiting", "running", "finished", "blocked outside"}[ths[i].state] + "); "
	}
	return s
}
