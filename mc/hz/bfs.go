package hz

import (
	"crypto/sha256"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"mc/ex"
)

// BFS is an explicit-state search whose transition function is the real code: a state
// is a stored content plus the state of the reference model, an operation is applied to
// both, and every observation has to agree.
type BFS struct {
	Init func() []interface{}
	Key  func(s interface{}) string
	NOps func(s interface{}) int
	Name func(s interface{}, op int) string
	// Apply returns nil if the operation is not enabled.  It reports violations through l.
	Apply     func(s interface{}, op int, l *Log) interface{}
	MaxDepth  int
	MaxStates int
}

// Log collects the observations of one transition.
type Log struct {
	Rec   bool
	Lines []string
	Obs   int
}

// Logf records.
func (l *Log) Logf(f string, a ...interface{}) {
	l.Obs++
	if l.Rec {
		l.Lines = append(l.Lines, fmt.Sprintf(f, a...))
	}
}

// Fail reports a violation.
func (l *Log) Fail(f string, a ...interface{}) { panic(ex.Failure{Msg: fmt.Sprintf(f, a...)}) }

// Assert reports a violation unless ok.
func (l *Log) Assert(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(ex.Failure{Msg: fmt.Sprintf(f, a...)})
	}
}

type node struct {
	parent int32
	op     int32
}

type frontierItem struct {
	id int32
	s  interface{}
}

type hkey [16]byte

func hash(s string) (h hkey) {
	x := sha256.Sum256([]byte(s))
	copy(h[:], x[:16])
	return
}

func protect(f func()) (msg, stack string, bad, herr bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case ex.Failure:
				msg, bad = x.Msg, true
			case ex.Diverged:
				msg, herr = x.Msg, true
			default:
				stack = string(debug.Stack())
				msg = fmt.Sprintf("panic: %v", r)
				if strings.Contains(stack, "zhiqiangxu/mondis") {
					bad = true
				} else {
					herr = true
				}
			}
		}
	}()
	f()
	return
}

func (r *R) runBFS(name string, b BFS) {
	start := time.Now()
	res := &Result{Scenario: name, Kind: "bfs", Exhaustive: true}
	seen := map[hkey]int32{}
	var nodes []node
	var level []frontierItem
	inits := b.Init()
	for i, s := range inits {
		k := hash(b.Key(s))
		if _, ok := seen[k]; ok {
			continue
		}
		seen[k] = int32(len(nodes))
		nodes = append(nodes, node{-1, int32(i)})
		level = append(level, frontierItem{int32(len(nodes) - 1), s})
	}
	var mu sync.Mutex
	path := func(id int32, op int) []int {
		var p []int
		if op >= 0 {
			p = append(p, op)
		}
		for id >= 0 {
			p = append(p, int(nodes[id].op))
			id = nodes[id].parent
		}
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		return p
	}
	type viol struct {
		path []int
		msg  string
		st   string
	}
	var v *viol
	herr := ""
	depth := 0
	for len(level) > 0 && (b.MaxDepth == 0 || depth < b.MaxDepth) && v == nil && herr == "" {
		if b.MaxStates > 0 && len(nodes) >= b.MaxStates {
			res.Exhaustive = false
			res.Note = fmt.Sprintf("state cap reached after depth %d", depth)
			break
		}
		type out struct {
			id int32
			op int
			k  hkey
			s  interface{}
		}
		outs := make([][]out, r.Workers)
		var wg sync.WaitGroup
		next := 0
		timeout := false
		for w := 0; w < r.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				local := map[hkey]struct{}{}
				var trans, obs int64
				defer func() {
					mu.Lock()
					res.Transitions += trans
					res.Obs += obs
					mu.Unlock()
				}()
				for {
					mu.Lock()
					if v != nil || herr != "" || timeout || next >= len(level) {
						mu.Unlock()
						return
					}
					lo := next
					next += 16
					if time.Now().After(r.Deadline) {
						timeout = true
						mu.Unlock()
						return
					}
					mu.Unlock()
					for i := lo; i < lo+16 && i < len(level); i++ {
						it := level[i]
						n := b.NOps(it.s)
						for op := 0; op < n; op++ {
							l := &Log{}
							var ns interface{}
							var key string
							msg, st, bad, he := protect(func() {
								ns = b.Apply(it.s, op, l)
								if ns != nil {
									key = b.Key(ns)
								}
							})
							if bad || he {
								mu.Lock()
								if bad {
									p := path(it.id, op)
									if v == nil || len(p) < len(v.path) {
										v = &viol{p, msg, st}
									}
								} else if herr == "" {
									herr = msg + "\n" + st
								}
								mu.Unlock()
								return
							}
							if ns == nil {
								continue
							}
							trans++
							obs += int64(l.Obs)
							k := hash(key)
							if _, ok := seen[k]; ok { // seen is only read during a level
								continue
							}
							if _, ok := local[k]; ok {
								continue
							}
							local[k] = struct{}{}
							outs[w] = append(outs[w], out{it.id, op, k, ns})
						}
					}
				}
			}(w)
		}
		wg.Wait()
		if timeout {
			res.Exhaustive = false
			res.Note = fmt.Sprintf("deadline during depth %d", depth+1)
		}
		level = nil
		for _, os := range outs {
			for _, o := range os {
				if _, ok := seen[o.k]; ok {
					continue
				}
				seen[o.k] = int32(len(nodes))
				nodes = append(nodes, node{o.id, int32(o.op)})
				level = append(level, frontierItem{int32(len(nodes) - 1), o.s})
			}
		}
		sort.Slice(level, func(i, j int) bool { return level[i].id < level[j].id })
		if timeout {
			break
		}
		depth++
	}
	res.Depth = depth
	if len(level) == 0 && v == nil && res.Exhaustive {
		res.Fixpoint = true
	}
	res.States = int64(len(nodes))
	res.Distinct = int64(len(nodes))
	res.Wall = time.Since(start)
	res.Err = herr
	if v == nil && herr == "" {
		// two sample traces: the deepest and one in the middle
		for _, id := range []int{len(nodes) - 1, len(nodes) / 2} {
			lines, _, _, _ := b.replay(path(int32(id), -1))
			res.Samples = append(res.Samples, name+": "+strings.Join(trim(lines, 40), " | "))
		}
	}
	if v != nil {
		res.Exhaustive = false
		same := 0
		var lines []string
		for i := 0; i < 5; i++ {
			ls, _, bad, _ := b.replay(v.path)
			lines = ls
			if bad {
				same++
			}
		}
		res.V = &Violation{Scenario: name, Kind: "bfs", Msg: v.msg, Choices: v.path, Log: lines, Stack: v.st, Replayed: same}
	}
	r.add(res)
}

// replay a path: first element is the index of the initial state.
func (b *BFS) replay(p []int) (lines []string, msg string, bad, herr bool) {
	l := &Log{Rec: true}
	s := b.Init()[p[0]]
	lines = append(lines, "init "+fmt.Sprint(p[0]))
	for _, op := range p[1:] {
		l.Lines = append(l.Lines, b.Name(s, op))
		var ns interface{}
		var st string
		msg, st, bad, herr = protect(func() { ns = b.Apply(s, op, l) })
		if bad || herr {
			l.Lines = append(l.Lines, msg, st)
			break
		}
		s = ns
	}
	lines = append(lines, l.Lines...)
	return
}

func trim(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string{}, l[:n]...), "...")
	}
	return l
}
