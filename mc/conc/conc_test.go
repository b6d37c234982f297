//go:build conc

// Package conc holds the checks that explore interleavings.  It is compiled against an
// instrumented copy of the repository (cmd/instr).
package conc

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zhiqiangxu/mondis/vsched"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

var (
	flagProp = flag.String("prop", "", "property")
	theT     *testing.T
)

func TestConc(t *testing.T) {
	theT = t
	if *flagProp == "" {
		t.Skip()
	}
	hz.RunCheck(*flagProp)
}

// env is one execution: a controlled scheduler in a bubble of virtual time.
type env struct {
	c *ex.Ctx
	s *vsched.Sched
	// fault budget of storage operations
	faults  int
	faulted int // failures injected by a check that counts them
	dbs     []*kvmem.DB
	// crash: called once at a chosen storage operation
	crashes int
	crashed bool
	atCrash func()
	onOp    func(op *kvmem.Op) error
	points  map[kvmem.Kind]bool
	noFault map[string]bool // tasks whose storage operations do not fail
	quiet   bool            // the harness is looking at something
	look    func()          // called at every storage operation
}

type panicVal struct {
	v  interface{}
	st string
}

func init() {
	vsched.Describe = func(t *vsched.Task, r interface{}) string {
		if f, ok := r.(ex.Failure); ok {
			return f.Msg
		}
		if d, ok := r.(ex.Diverged); ok {
			return "DIVERGED " + d.Msg
		}
		return fmt.Sprintf("panic in %s: %v", t.Name, r)
	}
}

// bubble runs f under a fresh scheduler and reports what went wrong.
func bubble(c *ex.Ctx, f func(e *env)) {
	var pv *panicVal
	func() {
		defer func() {
			if r := recover(); r != nil {
				// goroutines that can never end are left behind by some executions
				if s := fmt.Sprint(r); strings.Contains(s, "deadlock") && strings.Contains(s, "bubble") {
					return
				}
				panic(r)
			}
		}()
		synctest.Test(theT, func(*testing.T) {
			s := vsched.New()
			e := &env{c: c, s: s, noFault: map[string]bool{}}
			s.Choose = func(n int, dev bool) int {
				if dev {
					return c.Dev(n)
				}
				return c.Choose(n)
			}
			s.Budget = c.Budget
			if c.Rec {
				s.Trace = func(f string, a ...interface{}) { c.Logf(f, a...) }
			} else {
				s.Trace = func(string, ...interface{}) { c.Step() }
			}
			s.Install()
			defer func() {
				s.Uninstall()
			}()
			defer func() {
				if r := recover(); r != nil {
					pv = &panicVal{r, string(debug.Stack())}
				}
				s.End()
			}()
			f(e)
		})
	}()
	if pv != nil {
		if _, ok := pv.v.(ex.Failure); ok {
			panic(pv.v)
		}
		if _, ok := pv.v.(ex.Diverged); ok {
			panic(pv.v)
		}
		if strings.Contains(pv.st, "mondis/document") || strings.Contains(pv.st, "mondis/structure") || strings.Contains(pv.st, "mondis/kv") {
			panic(ex.Failure{Msg: fmt.Sprintf("panic: %v\n%s", pv.v, pv.st)})
		}
		panic(fmt.Sprintf("%v\n%s", pv.v, pv.st))
	}
}

// plain runs f without a scheduler: for sequential histories.
func plain(c *ex.Ctx, f func(e *env)) {
	f(&env{c: c})
}

// run schedules the tasks and turns what they reported into this execution's verdict.
func (e *env) run() {
	e.s.Run(nil)
	e.verdict()
}

func (e *env) verdict() {
	if msg, st := e.s.Failed(); msg != "" {
		if strings.HasPrefix(msg, "DIVERGED ") {
			panic(ex.Diverged{Msg: msg[9:]})
		}
		if st != "" && c1(st) {
			msg += "\n" + st
		}
		panic(ex.Failure{Msg: msg})
	}
}

func c1(st string) bool { return strings.Contains(st, "mondis/") }

// db is a storage whose operations are scheduling points and may fail.
func (e *env) db(snap kvmem.Snap) *kvmem.DB {
	d := kvmem.FromSnap(snap)
	e.dbs = append(e.dbs, d)
	d.Hook = func(op *kvmem.Op) error { return e.hook(d, op) }
	return d
}

func (e *env) hook(d *kvmem.DB, op *kvmem.Op) error {
	if d.Dead {
		vsched.Die()
		return kvmem.ErrDead
	}
	if e.quiet {
		return nil
	}
	switch op.Kind {
	case kvmem.KBegin, kvmem.KCommit, kvmem.KCommitted, kvmem.KGet, kvmem.KScan, kvmem.KExists:
		if vsched.Point("kv " + string(op.Kind)) {
			return kvmem.ErrDead
		}
	case kvmem.KDiscard:
		return nil
	}
	if d.Dead {
		return kvmem.ErrDead
	}
	if e.look != nil {
		e.quietly(e.look)
	}
	if e.onOp != nil {
		return e.onOp(op)
	}
	return nil
}

// quietly lets the harness use the code under test without scheduling points.
func (e *env) quietly(f func()) {
	ns := e.s.NoStmt
	e.quiet, e.s.NoStmt = true, true
	f()
	e.quiet, e.s.NoStmt = false, ns
}

// fault lets a storage operation fail, as a deviation.
func (e *env) fault(what string) bool {
	if e.faults <= 0 || (len(e.noFault) > 0 && e.noFault[vsched.Current()]) {
		return false
	}
	if e.c.Dev(2) == 1 {
		e.faults--
		e.c.Logf("FAULT %s", what)
		return true
	}
	return false
}

func (e *env) failf(f string, a ...interface{}) { panic(ex.Failure{Msg: fmt.Sprintf(f, a...)}) }

func must(err error) {
	if err != nil {
		panic(ex.Failure{Msg: "unexpected error: " + err.Error()})
	}
}

var _ = os.Exit
var _ = time.Second
