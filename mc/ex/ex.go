// Package ex is a stateless explorer: a body is run once per complete sequence of
// choices; every alternative of every choice is explored, deviations up to a bound.
package ex

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type point struct {
	n    int
	pick int
	cost int // cost of picking a non-zero alternative
}

// Ctx is one execution.
type Ctx struct {
	prefix  []int
	pts     []point
	spent   int
	bound   int
	log     []string
	Rec     bool // record the log
	outcome uint64
	obs     int
	steps   int64
	Worker  int // index of the exploring worker
	cleanup []func()
}

// Failure is a property violation found in one execution.
type Failure struct{ Msg string }

// Diverged means a replayed prefix did not fit: a harness error, never a violation.
type Diverged struct{ Msg string }

func (c *Ctx) choose(n, cost int) int {
	if n <= 0 {
		panic(Diverged{"choice among nothing"})
	}
	if n == 1 {
		return 0
	}
	if cost > 0 && c.spent+cost > c.bound {
		return 0
	}
	i := len(c.pts)
	pick := 0
	if i < len(c.prefix) {
		pick = c.prefix[i]
		if pick >= n {
			panic(Diverged{fmt.Sprintf("choice %d out of %d at point %d", pick, n, i)})
		}
	}
	if pick != 0 {
		c.spent += cost
	}
	c.pts = append(c.pts, point{n, pick, cost})
	return pick
}

// Choose among n alternatives, all explored.
func (c *Ctx) Choose(n int) int { return c.choose(n, 0) }

// Dev chooses among n alternatives; a non-zero one is a deviation and consumes budget.
func (c *Ctx) Dev(n int) int { return c.choose(n, 1) }

// Budget left.
func (c *Ctx) Budget() int { return c.bound - c.spent }

// Logf records a step of the replayable log.
func (c *Ctx) Logf(f string, a ...interface{}) {
	c.steps++
	if c.Rec {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Step counts a transition without logging.
func (c *Ctx) Step() { c.steps++ }

// Observe folds an observation into the outcome of this execution.
func (c *Ctx) Observe(f string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", c.outcome)
	fmt.Fprintf(h, f, a...)
	c.outcome = h.Sum64()
	c.obs++
	if c.Rec {
		c.log = append(c.log, "  -> "+fmt.Sprintf(f, a...))
	}
}

// Fail reports a violation.
func (c *Ctx) Fail(f string, a ...interface{}) { panic(Failure{fmt.Sprintf(f, a...)}) }

// Assert reports a violation unless ok.
func (c *Ctx) Assert(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(Failure{fmt.Sprintf(f, a...)})
	}
}

// Cleanup registers f to run at the end of the execution.
func (c *Ctx) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

// Choices made.
func (c *Ctx) Choices() []int {
	r := make([]int, len(c.pts))
	for i, p := range c.pts {
		r[i] = p.pick
	}
	return r
}

// Violation is a failing execution.
type Violation struct {
	Scenario string
	Msg      string
	Choices  []int
	Log      []string
	Stack    string
}

// Result of exploring one scenario.
type Result struct {
	Scenario   string
	Executions int64
	Steps      int64
	Points     int64
	Distinct   int
	Bound      int
	Exhaustive bool
	Samples    []string
	V          *Violation
	Err        string // harness error
	Wall       time.Duration
	Replayed   int
}

// Opts of an exploration.
type Opts struct {
	Name     string
	Workers  int
	Bound    int
	Deadline time.Time
	MaxExec  int64
	NSamples int
	Prefixes [][]int // initial prefixes (sharding); nil = the empty one
	Stall    time.Duration
}

func runOnce(f func(*Ctx), prefix []int, bound int, rec bool, worker int) (c *Ctx, v *Violation, herr string) {
	c = &Ctx{prefix: prefix, bound: bound, Rec: rec, Worker: worker}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case Failure:
					v = &Violation{Msg: x.Msg, Choices: c.Choices(), Log: c.log}
				case Diverged:
					herr = x.Msg
				default:
					st := string(debug.Stack())
					if !strings.Contains(st, "zhiqiangxu/mondis") && !strings.Contains(st, "dgraph-io/badger") {
						herr = fmt.Sprintf("panic in harness: %v\n%s", r, st)
						return
					}
					v = &Violation{Msg: fmt.Sprintf("panic: %v", r), Choices: c.Choices(), Log: c.log, Stack: st}
				}
			}
		}()
		defer func() {
			for i := len(c.cleanup) - 1; i >= 0; i-- {
				c.cleanup[i]()
			}
		}()
		f(c)
	}()
	return
}

// Once runs a single execution with the given choices, recording its log.
func Once(f func(*Ctx), choices []int, bound int) (*Ctx, *Violation, string) {
	return runOnce(f, choices, bound, true, 0)
}

// Run explores all executions.
func Run(o Opts, f func(*Ctx)) *Result {
	start := time.Now()
	if o.Workers <= 0 {
		o.Workers = runtime.NumCPU()
	}
	if o.NSamples == 0 {
		o.NSamples = 2
	}
	res := &Result{Scenario: o.Name, Bound: o.Bound, Exhaustive: true}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := o.Prefixes
	if stack == nil {
		stack = [][]int{{}}
	}
	inflight := 0
	stop := false
	outcomes := map[uint64]struct{}{}
	var wg sync.WaitGroup
	// progress watchdog: a single execution that makes no progress
	stall := o.Stall
	if stall == 0 {
		stall = 120 * time.Second
	}
	cur := make([]atomic.Pointer[curExec], o.Workers)
	done := make(chan struct{})
	go func() {
		tk := time.NewTicker(time.Second)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				for i := range cur {
					p := cur[i].Load()
					if p != nil && time.Since(p.t) > stall {
						buf := make([]byte, 1<<18)
						n := runtime.Stack(buf, true)
						fmt.Fprintf(os.Stdout, "STALL scenario=%s prefix=%v\n%s\n", o.Name, p.prefix, buf[:n])
						StallHook(o.Name, p.prefix, string(buf[:n]))
					}
				}
			}
		}
	}()
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && inflight > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					mu.Unlock()
					return
				}
				if (!o.Deadline.IsZero() && time.Now().After(o.Deadline)) || (o.MaxExec > 0 && res.Executions >= o.MaxExec) {
					res.Exhaustive = false
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				prefix := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				inflight++
				needSample := len(res.Samples) < o.NSamples
				mu.Unlock()
				cur[w].Store(&curExec{time.Now(), prefix})
				c, v, herr := runOnce(f, prefix, o.Bound, needSample, w)
				cur[w].Store(nil)
				mu.Lock()
				inflight--
				res.Executions++
				res.Steps += c.steps
				res.Points += int64(len(c.pts) - len(prefix))
				if herr == "" && v == nil && len(c.pts) < len(prefix) {
					herr = fmt.Sprintf("replayed prefix of %d choices but only %d were asked", len(prefix), len(c.pts))
				}
				if herr != "" {
					res.Err = herr
					stop = true
				} else if v != nil {
					if res.V == nil {
						v.Scenario = o.Name
						res.V = v
					}
					stop = true
				} else {
					outcomes[c.outcome] = struct{}{}
					if needSample && len(res.Samples) < o.NSamples && (len(c.log) > 2 || res.Executions > 20) {
						res.Samples = append(res.Samples, o.Name+": "+strings.Join(trim(c.log, 40), " | "))
					}
					// push alternatives
					spent := 0
					for i := 0; i < len(c.pts); i++ {
						p := c.pts[i]
						if i >= len(prefix) {
							for alt := 1; alt < p.n; alt++ {
								if p.cost > 0 && spent+p.cost > o.Bound {
									break
								}
								np := make([]int, i+1)
								for j := 0; j < i; j++ {
									np[j] = c.pts[j].pick
								}
								np[i] = alt
								stack = append(stack, np)
							}
						}
						if p.pick != 0 {
							spent += p.cost
						}
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	close(done)
	res.Distinct = len(outcomes)
	res.Wall = time.Since(start)
	if res.V != nil {
		// replay five times: a failure must be deterministic
		res.Exhaustive = false
		same := 0
		var last *Violation
		for i := 0; i < 5; i++ {
			_, v, _ := runOnce(f, res.V.Choices, o.Bound, true, 0)
			if v != nil {
				same++
				last = v
			}
		}
		res.Replayed = same
		if last != nil {
			last.Scenario = o.Name
			res.V = last
		}
	}
	return res
}

type curExec struct {
	t      time.Time
	prefix []int
}

// StallHook is called when an execution makes no progress.
var StallHook = func(name string, prefix []int, stacks string) {}

func trim(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string{}, l[:n]...), "...")
	}
	return l
}

// Prefixes enumerates choice prefixes of a scenario for sharding over processes.
func Prefixes(f func(*Ctx), bound, depth int) [][]int {
	var out [][]int
	var rec func(prefix []int)
	rec = func(prefix []int) {
		c, _, _ := runOnce(f, prefix, bound, false, 0)
		if len(prefix) >= depth || len(c.pts) <= len(prefix) {
			out = append(out, prefix)
			return
		}
		i := len(prefix)
		for alt := 0; alt < c.pts[i].n; alt++ {
			rec(append(append([]int{}, prefix...), alt))
		}
	}
	rec(nil)
	return out
}

// SliceReq is a part of an exploration handed to a child process.
type SliceReq struct {
	Prefixes [][]int
	Millis   int
	Samples  int
}

// SliceRes is what came of it.
type SliceRes struct {
	Execs    int64
	Steps    int64
	Points   int64
	Outcomes []uint64
	Rest     [][]int
	V        *Violation
	Replayed int
	Err      string
	Samples  []string
}

// Slice explores depth first below the given prefixes for a while.
func Slice(name string, f func(*Ctx), q SliceReq, bound int, before func(prefix []int)) (res SliceRes) {
	end := time.Now().Add(time.Duration(q.Millis) * time.Millisecond)
	stack := q.Prefixes
	outcomes := map[uint64]struct{}{}
	for len(stack) > 0 && (res.Execs == 0 || time.Now().Before(end)) {
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		before(prefix)
		rec := len(res.Samples) < q.Samples
		c, v, herr := runOnce(f, prefix, bound, rec, 0)
		res.Execs++
		res.Steps += c.steps
		res.Points += int64(len(c.pts) - len(prefix))
		if herr == "" && v == nil && len(c.pts) < len(prefix) {
			herr = fmt.Sprintf("replayed prefix of %d choices but only %d were asked", len(prefix), len(c.pts))
		}
		if herr != "" {
			res.Err = fmt.Sprintf("%s (prefix %v)", herr, prefix)
			return
		}
		if v != nil {
			res.V = v
			for i := 0; i < 5; i++ {
				before(v.Choices)
				if _, w, _ := runOnce(f, v.Choices, bound, true, 0); w != nil {
					res.Replayed++
					res.V = w
				}
			}
			res.V.Scenario = name
			return
		}
		if _, ok := outcomes[c.outcome]; !ok {
			outcomes[c.outcome] = struct{}{}
			res.Outcomes = append(res.Outcomes, c.outcome)
		}
		if rec && len(c.log) > 2 {
			res.Samples = append(res.Samples, name+": "+strings.Join(trim(c.log, 60), " | "))
		}
		stack = append(stack, alternatives(c, len(prefix), bound)...)
	}
	res.Rest = stack
	return
}

func alternatives(c *Ctx, from, bound int) (out [][]int) {
	spent := 0
	for i := 0; i < len(c.pts); i++ {
		p := c.pts[i]
		if i >= from {
			for alt := 1; alt < p.n; alt++ {
				if p.cost > 0 && spent+p.cost > bound {
					break
				}
				np := make([]int, i+1)
				for j := 0; j < i; j++ {
					np[j] = c.pts[j].pick
				}
				np[i] = alt
				out = append(out, np)
			}
		}
		if p.pick != 0 {
			spent += p.cost
		}
	}
	return
}
