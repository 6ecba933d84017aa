// Package drive runs the scenarios of a property in parallel child processes,
// confirms what they report and writes the evidence file.
package drive

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/core"
)

// A Property is what one check decides.
type Property struct {
	ID          string
	Scenarios   []*core.Scenario
	Assumptions []string
	Rule        string
	Env         []string // extra environment of the children
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

// Add adds scenarios to a property registered under id.
func Add(id string, s ...*core.Scenario) {
	p := registry[id]
	if p == nil {
		p = &Property{ID: id}
		registry[id] = p
	}
	p.Scenarios = append(p.Scenarios, s...)
}

// Describe sets the assumptions of a property.
func Describe(id, rule string, assumptions ...string) {
	Add(id)
	registry[id].Rule = rule
	registry[id].Assumptions = assumptions
}

// Env sets extra environment variables for the children of a property.
func Env(id string, env ...string) {
	Add(id)
	registry[id].Env = append(registry[id].Env, env...)
}

type childOut struct {
	Results []*core.Result
}

// Main is the entry point of the checker binaries.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|child|replay|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "directory of the framework")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	journal := fs.String("journal", "", "")
	out := fs.String("out", "", "")
	budget := fs.Float64("budget", 0, "seconds of exploration")
	only := fs.String("only", "", "only the scenarios with this substring")
	file := fs.String("file", "", "replay file")
	stopAt := fs.Int64("stopat", 0, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "list":
		for id, p := range registry {
			for _, s := range p.Scenarios {
				fmt.Println(id, s.Name)
			}
		}
	case "child":
		child(*prop, *tier, *shard, *shards, *journal, *out, *budget, *only, *stopAt, "")
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "run":
		os.Exit(run(*prop, *tier, *verif, *budget, *only))
	default:
		os.Exit(2)
	}
}

var deepQuick = map[string]bool{}

// Deep makes the quick tier use the bounds of the thorough one in the named
// scenarios of a property (all of them but "deep" if none is named).
func Deep(prop string, names ...string) {
	for _, n := range names {
		deepQuick[prop+"/"+n] = true
	}
	if len(names) == 0 {
		deepQuick[prop] = true
	}
}

func deepBounds(prop string, s *core.Scenario, tier string) bool {
	return tier == "thorough" || deepQuick[prop] && s.Name != "deep" || deepQuick[prop+"/"+s.Name]
}

func child(prop, tier string, shard, shards int, journal, out string, budget float64, only string, stopAt int64, last string) {
	p := registry[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	j := core.OpenJournal(journal)
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var o childOut
	var dist bytes.Buffer
	skip := func(s *core.Scenario) bool {
		return only != "" && !strings.Contains(s.Name, only) || s.ThoroughOnly && tier != "thorough" || s.Serial && shard != 0
	}
	for i, s := range p.Scenarios {
		if skip(s) {
			continue
		}
		// Every scenario gets its share of the time that is left.
		left := 0
		for _, t := range p.Scenarios[i:] {
			if !skip(t) {
				left++
			}
		}
		share := time.Duration(left)
		if tier != "thorough" && share > 2 {
			share = 2 // meant to finish
		}
		till := time.Now().Add(time.Until(deadline) / share)
		n := shards
		if s.Serial {
			n = 1
		}
		sa := int64(0)
		if stopAt > 0 && strings.HasSuffix(only, s.Name) {
			sa = stopAt
		}
		r := core.Explore(s, i, shard, n, deepBounds(prop, s, tier), j, till, sa)
		o.Results = append(o.Results, r)
		binary.Write(&dist, binary.LittleEndian, uint64(i))
		binary.Write(&dist, binary.LittleEndian, uint64(len(r.Distinct)))
		binary.Write(&dist, binary.LittleEndian, r.Distinct)
		r.Distinct = nil
		if r.Failure != nil || s.Name == last {
			break
		}
	}
	if out != "" {
		b, _ := json.Marshal(o)
		if err := os.WriteFile(out+".dist", dist.Bytes(), 0o644); err != nil {
			os.Exit(3)
		}
		if err := os.WriteFile(out, b, 0o644); err != nil {
			os.Exit(3)
		}
	}
	if journal == "" || stopAt > 0 {
		for _, r := range o.Results {
			if r.Failure != nil {
				fmt.Println("REPRODUCED", r.Failure.Msg)
				os.Exit(1)
			}
		}
	}
	os.Exit(0)
}

type replayFile struct {
	Property string
	Tier     string
	Binary   string
	Failure  *core.Failure
}

func find(prop, scen string) *core.Scenario {
	if p := registry[prop]; p != nil {
		for _, s := range p.Scenarios {
			if s.Name == scen {
				return s
			}
		}
	}
	return nil
}

func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f := rf.Failure
	s := find(rf.Property, f.Scenario)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", f.Scenario)
		return 2
	}
	if f.Mode == "history" {
		tier := "quick"
		if f.Thorough {
			tier = "thorough"
		}
		child(rf.Property, tier, f.Shard, f.Shards, "", "", 600, f.Scenario, f.Exec+1, "")
		return 0
	}
	if f.Mode == "all" {
		// every scenario up to this one, as it was found
		child(rf.Property, rf.Tier, f.Shard, f.Shards, "", "", 300, "", 0, f.Scenario)
		return 0
	}
	msg, x := core.Replay(s, f.Choices, f.Dev, f.Thorough)
	if verbose || msg != "" {
		for _, l := range x.Labels {
			fmt.Println("  choice", l)
		}
		for _, l := range x.Notes {
			fmt.Println("  ", l)
		}
	}
	if msg != "" {
		fmt.Println("REPRODUCED", msg)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

const stallLimit = 150 * time.Second

func run(prop, tier, verif string, budget float64, only string) int {
	p := registry[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	start := time.Now()
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 660
		}
	}
	tmp, err := os.MkdirTemp("", "mc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		return 2
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	var (
		mu       sync.Mutex
		wg       sync.WaitGroup
		failures []*core.Failure
		outs     = make([]*childOut, shards)
		notes    []string
		complete = true
	)
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			jf := filepath.Join(tmp, fmt.Sprintf("j%d", i))
			of := filepath.Join(tmp, fmt.Sprintf("o%d", i))
			ef := filepath.Join(tmp, fmt.Sprintf("e%d", i))
			j := core.OpenJournal(jf)
			args := []string{"child", "-prop", prop, "-tier", tier, "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards),
				"-journal", jf, "-out", of, "-budget", fmt.Sprint(budget), "-only", only}
			cmd := exec.Command(self, args...)
			cmd.Env = childEnv(p)
			if e, err := os.Create(ef); err == nil {
				cmd.Stderr = e
				cmd.Stdout = e
				defer e.Close()
			}
			if err := cmd.Start(); err != nil {
				mu.Lock()
				notes = append(notes, "cannot start child: "+err.Error())
				complete = false
				mu.Unlock()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var werr error
			hang := false
			last, lastT := uint32(0), time.Now()
		wait:
			for {
				select {
				case werr = <-done:
					break wait
				case <-time.After(200 * time.Millisecond):
					if j == nil {
						continue
					}
					if b := j.Beats(); b != last {
						last, lastT = b, time.Now()
					} else if time.Since(lastT) > stallLimit {
						hang = true
						cmd.Process.Kill()
						<-done
						break wait
					}
				}
			}
			b, rerr := os.ReadFile(of)
			if werr == nil && !hang && rerr == nil {
				o := new(childOut)
				if json.Unmarshal(b, o) == nil {
					mu.Lock()
					outs[i] = o
					for _, r := range o.Results {
						if r.Failure != nil {
							failures = append(failures, r.Failure)
						}
					}
					mu.Unlock()
					return
				}
			}
			// The process died or hung: the journal says where.
			mu.Lock()
			defer mu.Unlock()
			complete = false
			tail, _ := os.ReadFile(ef)
			why := firstLines(string(tail), 12)
			if hang {
				why = "no progress for " + stallLimit.String()
			} else if werr != nil {
				why = werr.Error() + ": " + why
			}
			if j == nil {
				notes = append(notes, "child died without journal: "+why)
				return
			}
			sc, ex, ch, _ := j.Read()
			if sc < 0 || sc >= len(p.Scenarios) {
				notes = append(notes, "child died: "+why)
				return
			}
			s := p.Scenarios[sc]
			d := s.MaxDev
			if deepBounds(prop, s, tier) && s.ThoroughDev > 0 {
				d = s.ThoroughDev
			}
			failures = append(failures, &core.Failure{Scenario: s.Name, Choices: ch, Msg: "process crash: " + why, Exec: ex, Shard: i, Shards: shards, Thorough: deepBounds(prop, s, tier), Dev: d})
		}(i)
	}
	wg.Wait()

	// Confirm in fresh processes, shortest first.
	order := map[string]int{}
	for i, s := range p.Scenarios {
		order[s.Name] = i
	}
	sort.SliceStable(failures, func(a, b int) bool {
		fa, fb := failures[a], failures[b]
		if order[fa.Scenario] != order[fb.Scenario] {
			return order[fa.Scenario] < order[fb.Scenario]
		}
		if len(fa.Choices) != len(fb.Choices) {
			return len(fa.Choices) < len(fb.Choices)
		}
		for i := range fa.Choices {
			if fa.Choices[i] != fb.Choices[i] {
				return fa.Choices[i] < fb.Choices[i]
			}
		}
		return false
	})
	var confirmed *core.Failure
	unconfirmed := 0
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	rpath := filepath.Join(rdir, prop+".json")
	os.Remove(rpath)
	var detail string
	for n, f := range failures {
		if n >= 6 {
			break
		}
		ok, text := confirm(self, p, rpath, tier, f, n < 2 && only == "" && time.Since(start) < 8*time.Minute)
		if ok {
			confirmed, detail = f, text
			break
		}
		unconfirmed++
		notes = append(notes, "not reproduced: "+f.Scenario+": "+firstLines(f.Msg, 3))
	}
	if confirmed == nil {
		os.Remove(rpath)
	}
	ev := evidence(p, tier, outs, tmp, shards, complete && len(failures) == 0)
	ev["wall_s"] = time.Since(start).Seconds()
	nv := 0
	if confirmed != nil {
		nv = 1
	}
	ev["violations"] = nv
	cov := ev["coverage"].(map[string]interface{})
	if unconfirmed > 0 {
		cov["unconfirmed_reports"] = unconfirmed
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: states=%v transitions=%v traces=%v exhaustive=%v wall=%.1fs\n", prop, tier,
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Println("note:", strings.ToValidUTF8(n, "?"))
	}
	if confirmed != nil {
		fmt.Printf("scenario %s\n%s\n", confirmed.Scenario, strings.ToValidUTF8(firstLines(detail, 60), "?"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rpath)
		return 1
	}
	if cov["traces_validated_against_impl"].(int64) == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	return 0
}

func childEnv(p *Property) []string {
	return append(append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=2500MiB"), p.Env...)
}

func confirm(self string, p *Property, rpath, tier string, f *core.Failure, all bool) (bool, string) {
	for _, mode := range []string{"fresh", "history", "all"} {
		if mode == "all" && !all {
			break
		}
		f.Mode = mode
		b, _ := json.MarshalIndent(replayFile{Property: p.ID, Tier: tier, Binary: filepath.Base(self), Failure: f}, "", " ")
		if err := os.WriteFile(rpath, append(b, '\n'), 0o644); err != nil {
			return false, err.Error()
		}
		tries := 5
		if mode != "fresh" {
			tries = 2
		}
		hits, text := 0, ""
		for i := 0; i < tries; i++ {
			cmd := exec.Command(self, "replay", "-file", rpath)
			cmd.Env = childEnv(p)
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			if cmd.Start() != nil {
				continue
			}
			limit := stallLimit
			if mode == "all" {
				limit *= 2
			}
			t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			timedOut := !t.Stop()
			if timedOut && mode == "all" {
				break // nothing was seen
			}
			if err != nil {
				code := -1
				if cmd.ProcessState != nil {
					code = cmd.ProcessState.ExitCode()
				}
				crash := code == 2 && strings.Contains(out.String(), "goroutine ") || code == -1 && timedOut ||
					code == 2 && strings.Contains(out.String(), "fatal error")
				if code == 1 || code == 66 || crash {
					hits++
					text = out.String()
					if timedOut {
						break
					}
				}
			}
			if hits >= 2 {
				break
			}
		}
		if hits > 0 {
			f.Msg = firstLines(f.Msg, 60)
			return true, f.Msg + "\n" + text
		}
	}
	return false, ""
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	for i := range l {
		if len(l[i]) > 600 {
			l[i] = l[i][:600] + "..."
		}
	}
	return strings.Join(l, "\n")
}

func evidence(p *Property, tier string, outs []*childOut, tmp string, shards int, complete bool) map[string]interface{} {
	seen := map[uint64]map[uint64]struct{}{}
	for i := 0; i < shards; i++ {
		b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("o%d.dist", i)))
		if err != nil {
			continue
		}
		for len(b) >= 16 {
			sc, n := binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
			b = b[16:]
			m := seen[sc]
			if m == nil {
				m = map[uint64]struct{}{}
				seen[sc] = m
			}
			for ; n > 0 && len(b) >= 8; n-- {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
	}
	var (
		states, trans, traces, execs int64
		samples                      []interface{}
		exhaustive                   = complete
		per                          []interface{}
	)
	for i, s := range p.Scenarios {
		var (
			c  core.Counters
			ex = true
			n  int
			dv int
			bd int
			sm []string

			wall float64
		)
		for _, o := range outs {
			if o == nil {
				continue
			}
			for _, r := range o.Results {
				if r.Scenario != s.Name {
					continue
				}
				n++
				if r.WallS > wall {
					wall = r.WallS
				}
				c.Executions += r.Counters.Executions
				c.Transitions += r.Counters.Transitions
				c.Validated += r.Counters.Validated
				ex = ex && r.Exhaustive
				dv += r.Divergences
				bd = r.Bound
				if len(sm) < 2 {
					sm = append(sm, r.Samples...)
				}
			}
		}
		if n == 0 {
			continue
		}
		if len(sm) > 2 {
			sm = sm[:2]
		}
		for _, t := range sm {
			samples = append(samples, s.Name+": "+t)
		}
		exhaustive = exhaustive && ex
		d := int64(len(seen[uint64(i)]))
		states += d
		trans += c.Transitions
		traces += c.Validated
		execs += c.Executions
		m := map[string]interface{}{"scenario": s.Name, "what": s.Doc, "executions": c.Executions, "comparisons": c.Validated,
			"distinct_outcomes": d, "choices_answered": c.Transitions, "exhaustive_within_bounds": ex, "wall_s": math.Round(wall*10) / 10}
		if bd > 0 {
			m["deviation_bound"] = bd
		}
		if dv > 0 {
			m["replay_divergences"] = dv
		}
		per = append(per, m)
	}
	if samples == nil {
		samples = []interface{}{"(none)"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces, "executions": execs,
			"samples": samples, "exhaustive": exhaustive, "scenarios": per,
			"rule": "states: distinct observable outcomes (hash of the bytes or error demanded by the reference model); transitions: answered choice points of the exploration; " +
				"traces: complete executions of the real code compared with the reference model. " + p.Rule,
		},
		"assumptions": append([]string{}, p.Assumptions...),
	}
}
