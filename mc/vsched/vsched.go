// Package vsched is the controlled scheduler of the concurrency checks.  It is copied
// into the instrumented copy of the repository, whose locks, go statements and
// shared-memory statements call it.  One execution runs in one testing/synctest bubble;
// a controller (the bubble's root) lets exactly one task run at a time.
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// Task is a goroutine under control.
type Task struct {
	ID      int
	Name    string
	Main    bool
	gen     int
	wake    chan struct{}
	parked  bool
	want    func() bool
	grant   func()
	Label   string
	done    bool
	killed  bool
	exiting bool
}

// Sched controls one execution.
type Sched struct {
	mu       sync.Mutex
	tasks    []*Task
	byG      map[uint64]*Task
	rootG    uint64
	cur      *Task
	notify   chan struct{}
	steps    int
	switches int
	dying    bool
	failMsg  string
	failSt   string
	gen      int

	// Choose picks among n alternatives; dev: a non-zero pick is a preemption.
	Choose func(n int, dev bool) int
	// Budget is what is left of the preemption bound.
	Budget func() int
	// Trace records the schedule.
	Trace func(f string, a ...interface{})
	// MaxSteps bounds an execution, Horizon its virtual duration.
	MaxSteps int
	Horizon  time.Duration
	// Tick, if not zero, allows time to pass (a deviation) while tasks could run.
	Tick time.Duration
	// Quiet points are not scheduling points (statement points off).
	NoStmt bool
}

var active atomic.Value // *Sched

func load() *Sched { s, _ := active.Load().(*Sched); return s }

// New scheduler; the caller is the root of the bubble.
func New() *Sched {
	return &Sched{byG: map[uint64]*Task{}, rootG: goid(), notify: make(chan struct{}, 1), MaxSteps: 20000, Horizon: 10 * time.Minute, Budget: func() int { return 0 }, Choose: func(int, bool) int { return 0 }}
}

// Install makes s the scheduler of this process.
func (s *Sched) Install() { active.Store(s) }

// Uninstall removes it.
func (s *Sched) Uninstall() { active.Store((*Sched)(nil)) }

// getg is the address of the calling goroutine's descriptor.
func getg() uintptr

// goid identifies a live goroutine; descriptors are reused after its end.
func goid() uint64 { return uint64(getg()) }

// Failed tells whether a violation was recorded.
func (s *Sched) Failed() (string, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.failMsg, s.failSt
}

// Fail records a violation; the first one counts.
func (s *Sched) Fail(msg, stack string) {
	s.mu.Lock()
	if s.failMsg == "" {
		s.failMsg, s.failSt = msg, stack
	}
	s.mu.Unlock()
	s.signal()
}

func (s *Sched) signal() {
	select {
	case s.notify <- struct{}{}:
	default:
	}
}

// Steps and context switches so far.
func (s *Sched) Steps() int { return s.steps }

// Go starts a task of the code under test.
func Go(f func()) {
	s := load()
	if s == nil {
		go f()
		return
	}
	s.spawn("", false, f)
}

// GoCall is the go statement of the code under test: f and its arguments are evaluated
// by the caller.
func GoCall(f interface{}, args ...interface{}) {
	if g, ok := f.(func()); ok {
		Go(g)
		return
	}
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
		if !in[i].IsValid() {
			ft := fv.Type()
			if ft.IsVariadic() && i >= ft.NumIn()-1 {
				in[i] = reflect.Zero(ft.In(ft.NumIn() - 1).Elem())
			} else {
				in[i] = reflect.Zero(ft.In(i))
			}
		}
	}
	Go(func() { fv.Call(in) })
}

// Go starts a main task: the execution ends when all of them have ended.
func (s *Sched) Go(name string, f func()) *Task { return s.spawn(name, true, f) }

func (s *Sched) spawn(name string, main bool, f func()) *Task {
	s.mu.Lock()
	t := &Task{ID: len(s.tasks), Name: name, Main: main, gen: s.gen, wake: make(chan struct{}, 1)}
	if name == "" {
		t.Name = "bg" + strconv.Itoa(t.ID)
	}
	s.tasks = append(s.tasks, t)
	// parked before it runs, in creation order
	t.parked, t.Label = true, "start"
	s.mu.Unlock()
	go func() {
		g := goid()
		s.mu.Lock()
		s.byG[g] = t
		s.mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				s.Fail(Describe(t, r), string(debug.Stack()))
			}
			s.mu.Lock()
			t.done = true
			delete(s.byG, g)
			s.mu.Unlock()
			s.signal()
		}()
		<-t.wake
		if t.killed {
			return
		}
		f()
	}()
	s.signal()
	return t
}

// Describe turns a panic of a task into a message; replaced by the harness.
var Describe = func(t *Task, r interface{}) string { return fmt.Sprintf("panic in %s: %v", t.Name, r) }

// Done tells whether the task ended.
func (t *Task) Done() bool { return t.done }

var hook atomic.Value // func(label string)

// OnPoint has f called at every statement point reached without a scheduler.
func OnPoint(f func(label string)) { hook.Store(f) }

// S is a statement point.
func S(label string) {
	s := load()
	if s == nil {
		if f, _ := hook.Load().(func(string)); f != nil {
			f(label)
		}
		return
	}
	if s.NoStmt {
		if s.gen > 0 {
			Die()
		}
		return
	}
	s.point(label, nil, nil)
}

// Die ends the calling task if it has been killed and is not unwinding yet.
func Die() {
	s := load()
	if s == nil {
		return
	}
	g := goid()
	s.mu.Lock()
	if t := s.byG[g]; t != nil && t.killed {
		s.exit(t)
		return
	}
	s.mu.Unlock()
}

// Point is a scheduling point of the harness (storage operations).  It reports whether
// the task has been killed meanwhile and is unwinding.
func Point(label string) (killed bool) {
	s := load()
	if s == nil {
		return false
	}
	return s.point(label, nil, nil)
}

// Block waits until want holds and then does grant atomically.
func Block(label string, want func() bool, grant func()) {
	s := load()
	if s == nil {
		if !want() {
			panic("vsched: blocked without a scheduler on " + label)
		}
		grant()
		return
	}
	s.point(label, want, grant)
}

func (s *Sched) point(label string, want func() bool, grant func()) (killed bool) {
	g := goid()
	s.mu.Lock()
	if g == s.rootG {
		if want != nil && !want() {
			s.mu.Unlock()
			panic("vsched: the root is blocked on " + label)
		}
		if grant != nil {
			grant()
		}
		s.mu.Unlock()
		return
	}
	t := s.byG[g]
	if t == nil {
		t = &Task{ID: len(s.tasks), Name: "unknown", gen: s.gen, wake: make(chan struct{}, 1)}
		s.tasks = append(s.tasks, t)
		s.byG[g] = t
	}
	if t.killed || s.dying || s.failMsg != "" {
		return s.exit(t)
	}
	s.steps++
	if s.steps > s.MaxSteps {
		s.failMsg = fmt.Sprintf("no end after %d steps (%s at %s)", s.steps, t.Name, label)
		s.failSt = ""
		return s.exit(t)
	}
	if t == s.cur && s.Budget() == 0 && (want == nil || want()) {
		if grant != nil {
			grant()
		}
		s.mu.Unlock()
		return
	}
	t.parked, t.want, t.grant, t.Label = true, want, grant, label
	s.mu.Unlock()
	s.signal()
	<-t.wake
	if t.killed {
		s.mu.Lock()
		return s.exit(t)
	}
	return
}

// exit unwinds a killed task; called with the lock held, releases it.
func (s *Sched) exit(t *Task) bool {
	if t.exiting {
		s.mu.Unlock()
		return true
	}
	t.exiting = true
	s.mu.Unlock()
	runtime.Goexit()
	return true
}

// Unwinding tells whether the calling task has been killed.
func Unwinding() bool {
	s := load()
	if s == nil {
		return false
	}
	g := goid()
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.byG[g]
	return t != nil && (t.killed || t.exiting)
}

// Current is the name of the calling task.
func Current() string {
	s := load()
	if s == nil {
		return ""
	}
	g := goid()
	s.mu.Lock()
	defer s.mu.Unlock()
	if t := s.byG[g]; t != nil {
		return t.Name
	}
	return "root"
}

// Run schedules until all main tasks have ended, or a violation occurs, or stop() holds.
func (s *Sched) Run(stop func() bool) {
	start := time.Now()
	for {
		synctest.Wait()
		s.mu.Lock()
		if s.failMsg != "" {
			s.mu.Unlock()
			return
		}
		if stop != nil && stop() {
			s.mu.Unlock()
			return
		}
		left := 0
		var en []*Task
		for _, t := range s.tasks {
			if t.Main && !t.done && !t.killed {
				left++
			}
			if t.parked && !t.killed && (t.want == nil || t.want()) {
				if t == s.cur {
					en = append([]*Task{t}, en...)
				} else {
					en = append(en, t)
				}
			}
		}
		if left == 0 {
			s.mu.Unlock()
			return
		}
		if time.Since(start) > s.Horizon {
			s.failMsg = fmt.Sprintf("no progress within %v of virtual time:%s", s.Horizon, s.where())
			s.mu.Unlock()
			return
		}
		if len(en) == 0 {
			s.cur = nil
			s.mu.Unlock()
			select {
			case <-s.notify:
			default:
			}
			// nothing can run: let time pass until something parks
			synctest.Wait()
			s.mu.Lock()
			again := s.failMsg != ""
			for _, t := range s.tasks {
				if t.parked && !t.killed && (t.want == nil || t.want()) {
					again = true
				}
			}
			s.mu.Unlock()
			if again {
				continue
			}
			select {
			case <-s.notify:
			case <-time.After(s.Horizon + time.Second):
			}
			continue
		}
		n := len(en)
		tick := s.Tick != 0 && s.Budget() > 0
		if tick {
			n++
		}
		s.mu.Unlock()
		pick := 0
		if n > 1 {
			if en[0] == s.cur {
				pick = s.Choose(n, true)
			} else if tick {
				// switching is free, letting time pass is a deviation
				pick = s.Choose(n-1, false)
				if s.Choose(2, true) == 1 {
					pick = n - 1
				}
			} else {
				pick = s.Choose(n, false)
			}
		}
		if pick >= len(en) {
			if s.Trace != nil {
				s.Trace("time passes: %v", s.Tick)
			}
			time.Sleep(s.Tick)
			continue
		}
		t := en[pick]
		s.mu.Lock()
		if t != s.cur {
			s.switches++
		}
		t.parked = false
		if t.grant != nil {
			t.grant()
		}
		t.want, t.grant = nil, nil
		s.cur = t
		if s.Trace != nil {
			s.Trace("%s: %s", t.Name, t.Label)
		}
		s.mu.Unlock()
		t.wake <- struct{}{}
	}
}

func (s *Sched) where() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.done || t.killed {
			continue
		}
		if t.parked {
			fmt.Fprintf(&b, " %s waits at %s;", t.Name, t.Label)
		} else {
			fmt.Fprintf(&b, " %s is blocked after %s;", t.Name, t.Label)
		}
	}
	return b.String()
}

// Kill ends all tasks: a crash of the process.  They never run again.
func (s *Sched) Kill() {
	s.mu.Lock()
	for _, t := range s.tasks {
		if !t.done && !t.killed {
			t.killed = true
			if t.parked {
				t.parked = false
				t.wake <- struct{}{}
			}
		}
	}
	s.gen++
	s.cur = nil
	s.mu.Unlock()
	synctest.Wait()
}

// End kills everything and waits for it, letting time pass for those blocked on timers.
func (s *Sched) End() (left int) {
	s.mu.Lock()
	s.dying = true
	s.mu.Unlock()
	s.Kill()
	for i := 0; i < 50; i++ {
		synctest.Wait()
		left = 0
		s.mu.Lock()
		for _, t := range s.tasks {
			if !t.done {
				left++
				if t.parked {
					t.parked = false
					t.wake <- struct{}{}
				}
			}
		}
		s.mu.Unlock()
		if left == 0 {
			return
		}
		time.Sleep(time.Hour)
	}
	return
}
