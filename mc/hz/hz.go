// Package hz runs the scenarios of a property check, writes evidence and violations.
package hz

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mc/ex"
)

// Result of one scenario.
type Result struct {
	Scenario    string
	Kind        string
	Executions  int64
	States      int64
	Transitions int64
	Obs         int64
	Distinct    int64
	Depth       int
	Bound       int
	Exhaustive  bool
	Fixpoint    bool
	Note        string
	Samples     []string
	Err         string
	Wall        time.Duration
	V           *Violation
}

// Violation to be replayed.
type Violation struct {
	Property string
	Scenario string
	Kind     string
	Msg      string
	Choices  []int
	Bound    int
	Log      []string
	Stack    string
	Replayed int
}

// Check of a property.
type Check struct {
	Level    string
	Rule     string
	Assume   []string
	Quick    time.Duration // internal deadline
	Thorough time.Duration
	Run      func(r *R)
}

var checks = map[string]*Check{}

// Register a check.
func Register(id string, c *Check) { checks[id] = c }

// R is a run of a check.
type R struct {
	Prop     string
	Tier     string
	Quick    bool
	Workers  int
	Deadline time.Time
	Scratch  string
	hard     time.Time
	results  []*Result
	mu       sync.Mutex
	replay   *Violation
	only     string
	known    map[string]bool
	knownHit map[string]string
	// Tolerate is a crash of a dependency in a child process: what was running is
	// explored again.
	Tolerate string
	// Expect names the scenarios in which that crash is a listed finding.
	Expect     map[string]string
	ExpectWhat string
}

var running *R

// Known tells whether the finding is listed, and notes that it occurred.
func (r *R) Known(id, what string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.known[id] {
		return false
	}
	if _, ok := r.knownHit[id]; !ok {
		r.knownHit[id] = what
	}
	return true
}

func (r *R) add(x *Result) {
	r.mu.Lock()
	r.results = append(r.results, x)
	r.mu.Unlock()
	fmt.Fprintf(os.Stderr, "[%s] %-28s execs=%d states=%d trans=%d distinct=%d depth=%d bound=%d exhaustive=%v %s %.1fs\n", r.Prop, x.Scenario, x.Executions, x.States, x.Transitions, x.Distinct, x.Depth, x.Bound, x.Exhaustive, x.Note, x.Wall.Seconds())
	if x.Err != "" {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s: %s\n", x.Scenario, x.Err)
		r.finish()
		os.Exit(2)
	}
	if x.V != nil {
		r.violation(x.V)
	}
}

func (r *R) violation(v *Violation) {
	v.Property = r.Prop
	if v.Replayed > 0 && v.Replayed < 5 {
		fmt.Fprintf(os.Stderr, "note: violation reproduced %d of 5 times\n", v.Replayed)
	}
	if v.Replayed == 0 && v.Kind != "stall" {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s: violation did not reproduce: %s\n%s\n", v.Scenario, v.Msg, v.Stack)
		r.finish()
		os.Exit(2)
	}
	p := filepath.Join(*flagReplays, fmt.Sprintf("%s-%s.json", r.Prop, strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			return c
		}
		return '_'
	}, v.Scenario)))
	_ = os.MkdirAll(*flagReplays, 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	fmt.Printf("violation of %s in %s: %s\n", r.Prop, v.Scenario, v.Msg)
	for _, l := range v.Log {
		fmt.Println("   ", l)
	}
	if v.Stack != "" {
		fmt.Println(v.Stack)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
	r.finish()
	os.Exit(1)
}

func (r *R) selected(name string) bool {
	if *flagChild != "" {
		return false
	}
	// a scenario may use up to half of the time that is left
	if left := time.Until(r.hard); left > 0 {
		r.Deadline = time.Now().Add(left / 2)
	} else {
		r.Deadline = time.Now()
	}
	if r.replay != nil {
		return r.replay.Scenario == name
	}
	return r.only == "" || strings.Contains(name, r.only)
}

// Explore runs a stateless exploration.
func (r *R) Explore(name string, bound int, body func(c *ex.Ctx)) {
	r.ExploreW(name, bound, r.Workers, 0, body)
}

// ExploreW with explicit workers and execution cap.
func (r *R) ExploreW(name string, bound, workers int, maxExec int64, body func(c *ex.Ctx)) {
	if !r.selected(name) {
		return
	}
	if r.replay != nil {
		_, v, herr := ex.Once(body, r.replay.Choices, r.replay.Bound)
		r.replayed(v != nil, herr, func() (string, []string, string) { return v.Msg, v.Log, v.Stack })
		return
	}
	ex.StallHook = func(n string, prefix []int, stacks string) {
		r.violation(&Violation{Scenario: n, Kind: "stall", Msg: "an execution makes no progress (hang)", Choices: prefix, Bound: bound, Stack: stacks})
	}
	er := ex.Run(ex.Opts{Name: name, Workers: workers, Bound: bound, Deadline: r.Deadline, MaxExec: maxExec}, body)
	x := &Result{Scenario: name, Kind: "explore", Executions: er.Executions, Transitions: er.Steps, States: er.Points, Distinct: int64(er.Distinct), Bound: bound, Exhaustive: er.Exhaustive, Samples: er.Samples, Err: er.Err, Wall: er.Wall}
	if !er.Exhaustive && er.V == nil {
		x.Note = "cap reached"
	}
	if er.V != nil {
		x.V = &Violation{Scenario: name, Kind: "explore", Msg: er.V.Msg, Choices: er.V.Choices, Bound: bound, Log: er.V.Log, Stack: er.V.Stack, Replayed: er.Replayed}
	}
	r.add(x)
}

// BFS runs an explicit-state search.
func (r *R) BFS(name string, b BFS) {
	if !r.selected(name) {
		return
	}
	if r.replay != nil {
		lines, msg, bad, herr := b.replay(r.replay.Choices)
		he := ""
		if herr {
			he = msg
		}
		r.replayed(bad, he, func() (string, []string, string) { return msg, lines, "" })
		return
	}
	r.runBFS(name, b)
}

// Enum enumerates n inputs; f checks input i and describes its outcome.
func (r *R) Enum(name string, n int, f func(i int, l *Log)) {
	if !r.selected(name) {
		return
	}
	if r.replay != nil {
		l := &Log{Rec: true}
		msg, st, bad, herr := protect(func() { f(r.replay.Choices[0], l) })
		he := ""
		if herr {
			he = msg
		}
		r.replayed(bad, he, func() (string, []string, string) { return msg, l.Lines, st })
		return
	}
	start := time.Now()
	res := &Result{Scenario: name, Kind: "enum", Exhaustive: true}
	var next, done, obs int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := false
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= n {
					return
				}
				mu.Lock()
				st := stop
				mu.Unlock()
				if st {
					return
				}
				if i%64 == 0 && time.Now().After(r.Deadline) {
					mu.Lock()
					res.Exhaustive = false
					stop = true
					mu.Unlock()
					return
				}
				l := &Log{}
				msg, stk, bad, he := protect(func() { f(i, l) })
				atomic.AddInt64(&done, 1)
				atomic.AddInt64(&obs, int64(l.Obs))
				if bad || he {
					mu.Lock()
					stop = true
					if he {
						res.Err = msg + "\n" + stk
					} else if res.V == nil || i < res.V.Choices[0] {
						res.V = &Violation{Scenario: name, Kind: "enum", Msg: msg, Choices: []int{i}, Stack: stk}
					}
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	res.Executions, res.Distinct, res.Transitions, res.Obs = done, done, obs, obs
	if res.V != nil {
		res.Exhaustive = false
		for k := 0; k < 5; k++ {
			l := &Log{Rec: true}
			_, _, bad, _ := protect(func() { f(res.V.Choices[0], l) })
			if bad {
				res.V.Replayed++
				res.V.Log = l.Lines
			}
		}
	} else if res.Err == "" {
		for _, i := range []int{n / 3, n - 1} {
			l := &Log{Rec: true}
			protect(func() { f(i, l) })
			res.Samples = append(res.Samples, fmt.Sprintf("%s[%d]: %s", name, i, strings.Join(trim(l.Lines, 20), " | ")))
		}
	}
	res.Wall = time.Since(start)
	r.add(res)
}

func (r *R) replayed(bad bool, herr string, d func() (string, []string, string)) {
	if herr != "" {
		fmt.Println("replay diverged:", herr)
		os.Exit(2)
	}
	if !bad {
		fmt.Println("replay: no violation")
		os.Exit(0)
	}
	msg, lines, st := d()
	for _, l := range lines {
		fmt.Println("   ", l)
	}
	fmt.Println("replay: violation:", msg)
	if st != "" {
		fmt.Println(st)
	}
	os.Exit(1)
}

var (
	flagTier    = flag.String("tier", "quick", "")
	flagEv      = flag.String("evidence", "", "evidence file")
	flagReplays = flag.String("replays", ".", "directory of replay files")
	flagReplay  = flag.String("replay", "", "replay a violation")
	flagSeed    = flag.Int("seed", 1, "")
	flagOnly    = flag.String("only", "", "scenario filter")
	flagKnown   = flag.String("known", "", "known findings file")
	flagBudget  = flag.Float64("budget", 0, "override the deadline (seconds)")
	flagScratch = flag.String("scratch", "", "scratch directory")
	flagWorkers = flag.Int("workers", 0, "")
	flagProf    = flag.String("cpuprofile", "", "")
)

var startTime = time.Now()

// Main runs the check named by the first argument after flags.
func Main() {
	if !flag.Parsed() {
		flag.Parse()
	}
	id := flag.Arg(0)
	RunCheck(id)
}

// RunCheck runs one check and exits.
func RunCheck(id string) {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	r := &R{Prop: id, Tier: *flagTier, Quick: *flagTier != "thorough", Workers: runtime.NumCPU(), Scratch: *flagScratch, only: *flagOnly, known: map[string]bool{}, knownHit: map[string]string{}}
	if *flagWorkers > 0 {
		r.Workers = *flagWorkers
	}
	running = r
	d := ck.Quick
	if !r.Quick {
		d = ck.Thorough
	}
	if d == 0 {
		d = 200 * time.Second
	}
	if *flagBudget > 0 {
		d = time.Duration(*flagBudget * float64(time.Second))
	}
	r.hard = startTime.Add(d)
	r.Deadline = r.hard
	if *flagKnown != "" {
		var ks struct {
			Findings []struct{ ID, Property string }
		}
		b, err := os.ReadFile(*flagKnown)
		if err == nil {
			err = json.Unmarshal(b, &ks)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
		for _, k := range ks.Findings {
			if k.Property == id {
				r.known[k.ID] = true
			}
		}
	}
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.replay = &Violation{}
		if err := json.Unmarshal(b, r.replay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	ck.Run(r)
	if *flagChild != "" {
		fmt.Fprintln(os.Stderr, "no such scenario:", *flagChild)
		os.Exit(3)
	}
	if r.replay != nil {
		fmt.Fprintln(os.Stderr, "scenario not found:", r.replay.Scenario)
		os.Exit(2)
	}
	r.finish()
	ids := []string{}
	for k := range r.knownHit {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, k, r.knownHit[k])
	}
	os.Exit(0)
}

func (r *R) finish() {
	ck := checks[r.Prop]
	var execs, states, trans, distinct, obs int64
	exh := true
	var samples []string
	var scen []map[string]interface{}
	viol := 0
	traces := int64(0)
	for _, x := range r.results {
		execs += x.Executions
		states += x.States
		trans += x.Transitions
		distinct += x.Distinct
		obs += x.Obs
		if !x.Exhaustive {
			exh = false
		}
		if x.Kind == "bfs" {
			traces += x.Transitions
		} else {
			traces += x.Executions
		}
		for i, s := range x.Samples {
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			if i < 1 || len(r.results) < 6 {
				samples = append(samples, s)
			}
		}
		if x.V != nil {
			viol++
		}
		scen = append(scen, map[string]interface{}{"scenario": x.Scenario, "kind": x.Kind, "executions": x.Executions, "states": x.States, "transitions": x.Transitions, "distinct": x.Distinct, "depth": x.Depth, "bound": x.Bound, "exhaustive": x.Exhaustive, "fixpoint": x.Fixpoint, "note": x.Note, "wall_s": x.Wall.Seconds()})
	}
	cov := map[string]interface{}{"exhaustive": exh, "samples": samples, "scenarios": scen, "rule": ck.Rule}
	switch ck.Level {
	case "model_checking":
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces
		cov["executions"] = execs
		cov["distinct_outcomes"] = distinct
	default:
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = distinct
		cov["observations"] = obs
	}
	kh := []string{}
	for k, v := range r.knownHit {
		kh = append(kh, k+": "+v)
	}
	sort.Strings(kh)
	cov["known_findings_seen"] = kh
	ev := map[string]interface{}{"property": r.Prop, "tier": r.Tier, "seed": *flagSeed, "level": ck.Level, "coverage": cov, "assumptions": ck.Assume, "wall_s": time.Since(startTime).Seconds(), "violations": viol}
	if *flagEv != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*flagEv, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
}
