package hz

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"
	"syscall"
	"time"

	"mc/ex"
)

var flagChild = flag.String("child", "", "serve slices of the named scenario on descriptors 3 and 4")

// serve is the loop of a child process: requests on descriptor 3, answers on 4, the
// choices of the running execution on 5.
func serve(name string, bound int, body func(*ex.Ctx)) {
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<16)
	out := os.NewFile(4, "res")
	cur := os.NewFile(5, "cur")
	if *flagProf != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", *flagProf, os.Getpid()))
		_ = pprof.StartCPUProfile(f)
		time.AfterFunc(8*time.Second, pprof.StopCPUProfile)
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var q ex.SliceReq
		if err := json.Unmarshal(line, &q); err != nil {
			os.Exit(3)
		}
		var buf []byte
		res := ex.Slice(name, body, q, bound, func(p []int) {
			buf = buf[:0]
			for _, x := range p {
				buf = append(buf, fmt.Sprint(x)...)
				buf = append(buf, ' ')
			}
			buf = append(buf, '\n')
			_, _ = cur.WriteAt(buf, 0)
		})
		b, _ := json.Marshal(res)
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(0)
		}
	}
}

type child struct {
	cmd  *exec.Cmd
	req  *os.File
	res  *bufio.Reader
	resf *os.File
	cur  string
	err  string
}

func startChild(r *R, name string, i int) (*child, error) {
	dir := r.Scratch
	if dir == "" {
		dir = os.TempDir()
	}
	c := &child{cur: filepath.Join(dir, fmt.Sprintf("cur-%d", i)), err: filepath.Join(dir, fmt.Sprintf("err-%d", i))}
	args := append([]string{}, os.Args[1:]...)
	args = append(args, "-child", name)
	// flags come before the first argument that is none
	if n := len(os.Args) - 1; n > 0 && !strings.HasPrefix(os.Args[n], "-") && flag.NArg() > 0 {
		args = append(append([]string{}, os.Args[1:n]...), "-child", name, os.Args[n])
	}
	c.cmd = exec.Command(os.Args[0], args...)
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cf, err := os.Create(c.cur)
	if err != nil {
		return nil, err
	}
	ef, err := os.Create(c.err)
	if err != nil {
		return nil, err
	}
	c.cmd.ExtraFiles = []*os.File{rr, sw, cf}
	c.cmd.Stderr = ef
	if err := c.cmd.Start(); err != nil {
		return nil, err
	}
	rr.Close()
	sw.Close()
	cf.Close()
	ef.Close()
	c.req, c.resf, c.res = rw, sr, bufio.NewReaderSize(sr, 1<<16)
	return c, nil
}

func (c *child) stop() {
	c.req.Close()
	c.resf.Close()
	_ = c.cmd.Process.Kill()
	_ = c.cmd.Wait()
}

func (c *child) choices() (out []int) {
	b, _ := os.ReadFile(c.cur)
	s := strings.SplitN(string(b), "\n", 2)[0]
	for _, f := range strings.Fields(s) {
		x := 0
		fmt.Sscan(f, &x)
		out = append(out, x)
	}
	return
}

func (c *child) stderr() string {
	b, _ := os.ReadFile(c.err)
	var l []string
	for _, x := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(x, "{") {
			l = append(l, x)
		}
	}
	if len(l) > 300 {
		l = l[:300]
	}
	return strings.Join(l, "\n")
}

// ask sends a slice; stall tells that no answer came in time.
func (c *child) ask(q ex.SliceReq, limit time.Duration) (res ex.SliceRes, stall bool, err error) {
	b, _ := json.Marshal(q)
	if _, err = c.req.Write(append(b, '\n')); err != nil {
		return
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(limit):
			stall = true
			_ = c.cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(2 * time.Second)
			_ = c.cmd.Process.Kill()
		}
	}()
	line, err := c.res.ReadBytes('\n')
	close(done)
	if err != nil {
		return
	}
	err = json.Unmarshal(line, &res)
	return
}

// ExploreProc explores in child processes: for code with process-wide state.
func (r *R) ExploreProc(name string, bound int, body func(c *ex.Ctx)) {
	if *flagChild != "" {
		if *flagChild == name {
			serve(name, bound, body)
		}
		return
	}
	if !r.selected(name) {
		return
	}
	if r.replay != nil {
		_, v, herr := ex.Once(body, r.replay.Choices, r.replay.Bound)
		r.replayed(v != nil, herr, func() (string, []string, string) { return v.Msg, v.Log, v.Stack })
		return
	}
	start := time.Now()
	x := &Result{Scenario: name, Kind: "explore", Bound: bound, Exhaustive: true}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{{}}
	inflight, retries := 0, 0
	stop := false
	outcomes := map[uint64]struct{}{}
	var wg sync.WaitGroup
	fail := func(err string) {
		mu.Lock()
		if x.Err == "" {
			x.Err = err
		}
		stop = true
		cond.Broadcast()
		mu.Unlock()
	}
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var c *child
			defer func() {
				if c != nil {
					c.stop()
				}
			}()
			execs := int64(0)
			for {
				mu.Lock()
				for len(stack) == 0 && inflight > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					mu.Unlock()
					return
				}
				if time.Now().After(r.Deadline) {
					x.Exhaustive = false
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				n := len(stack) / (2 * r.Workers)
				if n < 1 {
					n = 1
				}
				var take [][]int
				if n > 48 {
					n = 48
					take = append(take, stack[len(stack)-n:]...)
					stack = stack[:len(stack)-n]
				} else {
					take = append(take, stack[:n]...)
					stack = append([][]int{}, stack[n:]...)
				}
				millis := 300
				if len(stack) < r.Workers {
					millis = 20
				}
				if retries > 0 && n > 1 {
					stack = append(stack, take[1:]...)
					take = take[:1:1]
				}
				if retries > 0 {
					millis = 10
				}
				needs := 0
				if len(x.Samples) < 2 {
					needs = 1
				}
				inflight++
				mu.Unlock()
				if c != nil && execs > 200000 {
					c.stop()
					c, execs = nil, 0
				}
				if c == nil {
					var err error
					if c, err = startChild(r, name, w); err != nil {
						fail("cannot start a child: " + err.Error())
						return
					}
				}
				res, stall, err := c.ask(ex.SliceReq{Prefixes: take, Millis: millis, Samples: needs}, 120*time.Second)
				if err != nil || stall {
					_ = c.cmd.Wait()
					msg := "an execution makes no progress (hang)"
					st := c.stderr()
					if !stall {
						msg = "the process died: " + firstLine(st)
						if r.Tolerate != "" && strings.Contains(firstLine(st), r.Tolerate) {
							// a known crash of a dependency: the slice is explored again
							id, listed := r.Expect[name]
							if listed && r.Known(id, r.ExpectWhat) {
								mu.Lock()
								inflight--
								x.Executions += int64(len(take))
								cond.Broadcast()
								mu.Unlock()
								c.stop()
								c, execs = nil, 0
								continue
							}
							mu.Lock()
							if listed {
								x.V = &Violation{Scenario: name, Kind: "stall", Msg: msg, Choices: c.choices(), Bound: bound, Stack: st}
								stop = true
								cond.Broadcast()
								mu.Unlock()
								return
							}
							retries++
							over := retries > 500
							inflight--
							stack = append(stack, take...)
							cond.Broadcast()
							mu.Unlock()
							c.stop()
							c, execs = nil, 0
							if over {
								fail("too many deaths of children: " + st)
								return
							}
							continue
						}
						if !strings.Contains(st, "zhiqiangxu/mondis/") || strings.Contains(st, "signal: killed") || st == "" {
							fail("child died: " + st)
							return
						}
					}
					mu.Lock()
					if x.V == nil {
						x.V = &Violation{Scenario: name, Kind: "stall", Msg: msg, Choices: c.choices(), Bound: bound, Stack: st}
					}
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				execs += res.Execs
				mu.Lock()
				inflight--
				x.Executions += res.Execs
				x.Transitions += res.Steps
				x.States += res.Points
				for _, o := range res.Outcomes {
					outcomes[o] = struct{}{}
				}
				for _, s := range res.Samples {
					if len(x.Samples) < 2 {
						x.Samples = append(x.Samples, s)
					}
				}
				stack = append(stack, res.Rest...)
				if res.Err != "" {
					if x.Err == "" {
						x.Err = res.Err
					}
					stop = true
				}
				if res.V != nil {
					if x.V == nil {
						x.V = &Violation{Scenario: name, Kind: "explore", Msg: res.V.Msg, Choices: res.V.Choices, Bound: bound, Log: res.V.Log, Stack: res.V.Stack, Replayed: res.Replayed}
					}
					stop = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	x.Distinct = int64(len(outcomes))
	x.Wall = time.Since(start)
	if x.V != nil {
		x.Err = ""
		x.Exhaustive = false
	} else if !x.Exhaustive {
		x.Note = "cap reached"
	}
	if retries > 0 {
		x.Note += fmt.Sprintf(" %d slices explored again after a crash of a dependency", retries)
	}
	r.add(x)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}
