package checks

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"

	"mc/hz"
)

// A history runs in a child process under strace.  Its file operations are replayed
// up to every point (with the last write torn at several places, and for the loss of
// the machine without what was not forced to disk), the directory is rebuilt and the
// provider opened on it.

type durOp struct {
	name string
	do   func(db *mondis.KVDB, reopen func() error) error
	to   func(m map[string]string)
}

func durProvider(kind string) mondis.KVDB {
	if kind == "badger" {
		return provider.NewBadger()
	}
	return provider.NewLevelDB()
}

func durOps(kind string) []durOp {
	set := func(k, v string) durOp {
		return durOp{fmt.Sprintf("set(%s,%s)", k, short(v)), func(db *mondis.KVDB, _ func() error) error { return (*db).Set([]byte(k), []byte(v), nil) },
			func(m map[string]string) { m[k] = v }}
	}
	ops := []durOp{
		set("a", "1"),
		set("b", bigVal),
		{"delete(a)", func(db *mondis.KVDB, _ func() error) error { return (*db).Delete([]byte("a")) }, func(m map[string]string) { delete(m, "a") }},
		{"batch{set a, set b, delete c, set a}", func(db *mondis.KVDB, _ func() error) error {
			wb := (*db).WriteBatch()
			for _, f := range []func() error{
				func() error { return wb.Set([]byte("a"), []byte("x")) },
				func() error { return wb.Set([]byte("b"), []byte("batch"+bigVal)) },
				func() error { return wb.Delete([]byte("c")) },
				func() error { return wb.Set([]byte("a"), []byte("batch")) },
				wb.Commit,
			} {
				if err := f(); err != nil {
					return err
				}
			}
			return nil
		}, func(m map[string]string) { m["a"], m["b"] = "batch", "batch"+bigVal; delete(m, "c") }},
		{"discarded batch", func(db *mondis.KVDB, _ func() error) error {
			wb := (*db).WriteBatch()
			if err := wb.Set([]byte("a"), []byte("never")); err != nil {
				return err
			}
			wb.Discard()
			return nil
		}, func(m map[string]string) {}},
		{"close and reopen", func(_ *mondis.KVDB, reopen func() error) error { return reopen() }, func(m map[string]string) {}},
	}
	if kind == "badger" {
		ops = append(ops, durOp{"txn{set a, delete b, set c}", func(db *mondis.KVDB, _ func() error) error {
			t := (*db).NewTransaction(true)
			defer t.Discard()
			if err := t.Set([]byte("a"), []byte("txn"+bigVal), nil); err != nil {
				return err
			}
			if err := t.Delete([]byte("b")); err != nil {
				return err
			}
			if err := t.Set([]byte("c"), []byte("txn"), nil); err != nil {
				return err
			}
			return t.Commit()
		}, func(m map[string]string) { m["a"], m["c"] = "txn"+bigVal, "txn"; delete(m, "b") }},
			durOp{"discarded txn", func(db *mondis.KVDB, _ func() error) error {
				t := (*db).NewTransaction(true)
				if err := t.Set([]byte("c"), []byte("never"), nil); err != nil {
					return err
				}
				t.Discard()
				return nil
			}, func(m map[string]string) {}},
			durOp{"set(a,tagged)", func(db *mondis.KVDB, _ func() error) error {
				return (*db).Set([]byte("a"), []byte("tagged"), &mondis.VMetaReq{Tag: 3})
			}, func(m map[string]string) { m["a"] = "tagged" }})
	}
	return ops
}

type durJob struct {
	Kind string
	Dir  string
	Ops  []int
}

// Child runs traced histories; it is called by main when asked to.
func Child(jobsFile string) {
	b, err := os.ReadFile(jobsFile)
	if err != nil {
		panic(err)
	}
	var jobs []durJob
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	ack := func(j, i int, err error) {
		e := ""
		if err != nil {
			e = err.Error()
		}
		_, _ = os.Stdout.WriteString(fmt.Sprintf("ACK %d %d %s\n", j, i, e))
	}
	for j, job := range jobs {
		db := durProvider(job.Kind)
		ops := durOps(job.Kind)
		if err := db.Open(mondis.KVOption{Dir: job.Dir}); err != nil {
			ack(j, -1, err)
			continue
		}
		ack(j, 0, nil)
		reopen := func() error {
			if err := db.Close(); err != nil {
				return err
			}
			db = durProvider(job.Kind)
			return db.Open(mondis.KVOption{Dir: job.Dir})
		}
		for i, o := range job.Ops {
			ack(j, i+1, ops[o].do(&db, reopen))
		}
		// an orderly end
		ack(j, len(job.Ops)+1, db.Close())
	}
	os.Exit(0)
}

type fsEvent struct {
	kind   string // write trunc create rename unlink sync ack
	path   string
	to     string
	off    int64
	data   []byte
	sync   bool // data is durable when the call returns
	ack    int
	ackErr string
}

var (
	reCall   = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)$`)
	reResume = regexp.MustCompile(`^(\d+) +<\.\.\. ([a-z0-9_]+) resumed>(.*)$`)
)

func unhex(s string) ([]byte, bool) {
	if len(s) < 2 || s[0] != '"' {
		return nil, false
	}
	end := strings.IndexByte(s[1:], '"')
	if end < 0 {
		return nil, false
	}
	s = s[1 : 1+end]
	out := make([]byte, 0, len(s)/4)
	for i := 0; i+4 <= len(s); i += 4 {
		v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		if err != nil {
			return nil, false
		}
		out = append(out, byte(v))
	}
	return out, true
}

// parseTrace turns an strace log into the file events of every job directory.
func parseTrace(file string, jobs []durJob) ([][]fsEvent, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	type fd struct {
		path string
		off  int64
		sync bool
		app  bool
	}
	fds := map[int]*fd{}
	size := map[string]int64{}
	pending := map[string]string{}
	evs := make([][]fsEvent, len(jobs))
	jobOf := func(p string) int {
		for i := len(jobs) - 1; i >= 0; i-- {
			if strings.HasPrefix(p, jobs[i].Dir+"/") {
				return i
			}
		}
		return -1
	}
	add := func(p string, e fsEvent) {
		if j := jobOf(p); j >= 0 {
			e.path = filepath.Base(p)
			evs[j] = append(evs[j], e)
		}
	}
	for {
		line, err := rd.ReadString('\n')
		if line == "" && err != nil {
			break
		}
		line = strings.TrimRight(line, "\n")
		var call, rest, pid string
		if m := reResume.FindStringSubmatch(line); m != nil {
			pid = m[1]
			call = m[2]
			rest = pending[pid+call] + m[3]
			delete(pending, pid+call)
		} else if m := reCall.FindStringSubmatch(line); m != nil {
			pid, call, rest = m[1], m[2], m[3]
			if i := strings.LastIndex(rest, "<unfinished ...>"); i >= 0 {
				pending[pid+call] = strings.TrimRight(rest[:i], " ")
				continue
			}
		} else {
			continue
		}
		eq := strings.LastIndex(rest, ") = ")
		if eq < 0 {
			eq = strings.LastIndex(rest, ")")
			if eq < 0 || !strings.Contains(rest[eq:], "= ") {
				continue
			}
		}
		args := rest[:eq]
		rets := strings.Fields(rest[strings.LastIndex(rest, "= ")+2:])
		if len(rets) == 0 {
			continue
		}
		ret, perr := strconv.ParseInt(rets[0], 0, 64)
		if perr != nil || ret < 0 {
			continue
		}
		as := strings.Split(args, ", ")
		n := func(i int) int {
			v, _ := strconv.Atoi(as[i])
			return v
		}
		str := func(i int) string {
			b, _ := unhex(as[i])
			return string(b)
		}
		switch call {
		case "openat":
			p := str(1)
			fl := as[2]
			d := &fd{path: p, sync: strings.Contains(fl, "SYNC"), app: strings.Contains(fl, "O_APPEND")}
			fds[int(ret)] = d
			if strings.Contains(fl, "O_DIRECTORY") || jobOf(p) < 0 {
				break
			}
			if _, ok := size[p]; !ok && strings.Contains(fl, "O_CREAT") {
				size[p] = 0
				add(p, fsEvent{kind: "create"})
			}
			if strings.Contains(fl, "O_TRUNC") {
				size[p] = 0
				add(p, fsEvent{kind: "trunc", off: 0})
			}
		case "close":
			delete(fds, n(0))
		case "dup", "dup2", "dup3":
			return nil, fmt.Errorf("unexpected %s", call)
		case "lseek":
			if d := fds[n(0)]; d != nil {
				d.off = ret
			}
		case "write":
			b, ok := unhex(as[1])
			if n(0) == 1 {
				var j, i int
				s := strings.TrimRight(string(b), "\n")
				if k, _ := fmt.Sscanf(s, "ACK %d %d", &j, &i); k == 2 {
					msg := strings.SplitN(s, " ", 4)[3]
					evs[j] = append(evs[j], fsEvent{kind: "ack", ack: i, ackErr: msg})
				}
				break
			}
			d := fds[n(0)]
			if d == nil || jobOf(d.path) < 0 {
				break
			}
			if !ok || int64(len(b)) < ret {
				return nil, fmt.Errorf("write data of %s truncated in the trace", d.path)
			}
			if d.app {
				d.off = size[d.path]
			}
			if ret > 0 {
				add(d.path, fsEvent{kind: "write", off: d.off, data: b[:ret], sync: d.sync})
			}
			d.off += ret
			if d.off > size[d.path] {
				size[d.path] = d.off
			}
		case "pwrite64":
			d := fds[n(0)]
			if d == nil || jobOf(d.path) < 0 {
				break
			}
			b, ok := unhex(as[1])
			if !ok || int64(len(b)) < ret {
				return nil, fmt.Errorf("pwrite data of %s truncated in the trace", d.path)
			}
			off := int64(n(3))
			add(d.path, fsEvent{kind: "write", off: off, data: b[:ret], sync: d.sync})
			if off+ret > size[d.path] {
				size[d.path] = off + ret
			}
		case "writev", "pwritev", "pwritev2", "fallocate", "copy_file_range", "sendfile":
			if d := fds[n(0)]; d != nil && jobOf(d.path) >= 0 {
				return nil, fmt.Errorf("%s on %s is not modelled", call, d.path)
			}
		case "fsync", "fdatasync":
			if d := fds[n(0)]; d != nil {
				add(d.path, fsEvent{kind: "sync"})
			}
		case "ftruncate":
			if d := fds[n(0)]; d != nil {
				add(d.path, fsEvent{kind: "trunc", off: int64(n(1))})
				size[d.path] = int64(n(1))
			}
		case "renameat", "renameat2":
			from, to := str(1), str(3)
			add(from, fsEvent{kind: "rename", to: filepath.Base(to)})
			size[to] = size[from]
			delete(size, from)
			for _, d := range fds {
				if d.path == from {
					d.path = to
				}
			}
		case "rename":
			from, to := str(0), str(1)
			add(from, fsEvent{kind: "rename", to: filepath.Base(to)})
			size[to] = size[from]
			delete(size, from)
		case "unlinkat":
			add(str(1), fsEvent{kind: "unlink"})
			delete(size, str(1))
		case "unlink":
			add(str(0), fsEvent{kind: "unlink"})
			delete(size, str(0))
		}
		if err != nil {
			break
		}
	}
	return evs, nil
}

type fileState struct{ cached, durable []byte }

type dirState map[string]*fileState

func writeAt(b []byte, off int64, data []byte) []byte {
	n := off + int64(len(data))
	if int64(len(b)) < n {
		b = append(append([]byte{}, b...), make([]byte, n-int64(len(b)))...)
	} else {
		b = append([]byte{}, b...)
	}
	copy(b[off:], data)
	return b
}

func (d dirState) apply(e fsEvent, n int) {
	f := d[e.path]
	if f == nil && e.kind != "sync" && e.kind != "unlink" && e.kind != "ack" {
		f = &fileState{}
		d[e.path] = f
	}
	switch e.kind {
	case "write":
		f.cached = writeAt(f.cached, e.off, e.data[:n])
		if e.sync {
			f.durable = writeAt(f.durable, e.off, e.data[:n])
		}
	case "trunc":
		cut := func(b []byte) []byte {
			if int64(len(b)) >= e.off {
				return append([]byte{}, b[:e.off]...)
			}
			return append(append([]byte{}, b...), make([]byte, e.off-int64(len(b)))...)
		}
		f.cached, f.durable = cut(f.cached), cut(f.durable)
	case "rename":
		d[e.to] = f
		delete(d, e.path)
	case "unlink":
		delete(d, e.path)
	case "sync":
		if f != nil {
			f.durable = append([]byte{}, f.cached...)
		}
	}
}

func (d dirState) clone() dirState {
	r := dirState{}
	for k, v := range d {
		c := *v
		r[k] = &c
	}
	return r
}

func (d dirState) hash(machine bool) [32]byte {
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		if k == "LOCK" || k == "LOG" {
			continue
		}
		b := d[k].cached
		if machine {
			b = d[k].durable
		}
		fmt.Fprintf(h, "%s %d ", k, len(b))
		h.Write(b)
	}
	var r [32]byte
	copy(r[:], h.Sum(nil))
	return r
}

// a crash state to recover from
type crashState struct {
	kind    string
	what    string
	files   map[string][]byte
	allowed []map[string]string
}

var durSeq int64

func recoverState(l *hz.Log, root string, cs crashState) {
	dir := filepath.Join(root, fmt.Sprintf("r%d", atomic.AddInt64(&durSeq, 1)))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for n, b := range cs.files {
		if n == "LOCK" {
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			panic(err)
		}
	}
	l.Logf("%s", cs.what)
	if cs.files == nil {
		l.Fail("%s", cs.what)
	}
	db := durProvider(cs.kind)
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		l.Fail("%s: the database cannot be opened again: %v", cs.what, err)
	}
	closed := false
	defer func() {
		if !closed {
			_ = db.Close()
		}
	}()
	read := func() map[string]string {
		m, err := dumpTxn(db)
		l.Assert(err == nil, "%s: scan after recovery: %v", cs.what, err)
		for k, v := range m {
			g, _, err := db.Get([]byte(k))
			l.Assert(err == nil && string(g) == v, "%s: after recovery get(%q)=%q,%v but a scan shows %q", cs.what, k, g, err, v)
		}
		return m
	}
	m := read()
	ok := false
	for _, a := range cs.allowed {
		ok = ok || mapKey(a) == mapKey(m)
	}
	if !ok {
		l.Fail("%s: after recovery the database holds %s, want %s", cs.what, briefMap(m), briefMaps(cs.allowed))
	}
	// it keeps working: write, close, open, read
	if err := db.Set([]byte("z"), []byte("new"), nil); err != nil {
		l.Fail("%s: writing after recovery: %v", cs.what, err)
	}
	closed = true
	if err := db.Close(); err != nil {
		l.Fail("%s: closing after recovery: %v", cs.what, err)
	}
	db = durProvider(cs.kind)
	if err := db.Open(mondis.KVOption{Dir: dir}); err != nil {
		l.Fail("%s: opening again after recovery and close: %v", cs.what, err)
	}
	closed = false
	m["z"] = "new"
	if m2 := read(); mapKey(m2) != mapKey(m) {
		l.Fail("%s: a write after recovery and a close leave %s, want %s", cs.what, briefMap(m2), briefMap(m))
	}
}

func briefMap(m map[string]string) string {
	var b strings.Builder
	b.WriteString("{")
	for i, k := range sortedKeys(m) {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "%s=%s", k, short(m[k]))
	}
	return b.String() + "}"
}

func briefMaps(ms []map[string]string) string {
	var s []string
	for _, m := range ms {
		s = append(s, briefMap(m))
	}
	return strings.Join(s, " or ")
}

func init() {
	hz.Register("P05", &hz.Check{
		Level:  "fault_enumeration",
		Rule:   "every history of the stated operations up to the depth runs traced; a crash state is the directory after every single file operation of it (after every prefix of a small write, and without what was not forced to disk for the loss of a machine running Badger); every distinct crash state is recovered with the provider, read, written, closed and reopened; distinct = distinct crash states",
		Assume: []string{"file names (create, rename, unlink) and sizes are durable in order; the loss of the machine drops all data not forced to disk, partial subsets of it are not enumerated", "the first creation of a LevelDB directory completes", "the file operations of a history as observed with strace are those it performs when it crashes there"},
		Quick:  400_000_000_000,
		Run:    runCrash,
	})
}

func durHistories(kind string, depth int) (out [][]int) {
	n := len(durOps(kind))
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) == depth {
			out = append(out, append([]int{}, h...))
			return
		}
		for o := 0; o < n; o++ {
			rec(append(h, o))
		}
	}
	rec(nil)
	return
}

func runCrash(r *hz.R) {
	root := scratchDir(r)
	defer os.RemoveAll(root)
	for _, kind := range []string{"badger", "leveldb"} {
		d := 5
		if !r.Quick {
			d = 6
		}
		lifecycle(r, root, kind, d)
		depth := 2
		if !r.Quick {
			depth = 3
		}
		hist := durHistories(kind, depth)
		states, ntr, err := crashStates(r, root, kind, hist)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR tracing:", err)
			os.Exit(2)
		}
		fmt.Fprintf(os.Stderr, "%s: %d histories, %d file operations, %d crash states\n", kind, len(hist), ntr, len(states))
		r.Enum(kind+"/crash-states", len(states), func(i int, l *hz.Log) { recoverState(l, root, states[i]) })
	}
}

func crashStates(r *hz.R, root, kind string, hist [][]int) ([]crashState, int, error) {
	ops := durOps(kind)
	shards := r.Workers
	perShard := make([][]durJob, shards)
	jobHist := make([][][]int, shards)
	for i, h := range hist {
		s := i % shards
		dir := filepath.Join(root, fmt.Sprintf("%s-%d-end", kind, i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil, 0, err
		}
		perShard[s] = append(perShard[s], durJob{kind, dir, h})
		jobHist[s] = append(jobHist[s], h)
	}
	evss := make([][][]fsEvent, shards)
	errs := make([]error, shards)
	var wg sync.WaitGroup
	self, err := os.Executable()
	if err != nil {
		return nil, 0, err
	}
	for s := range perShard {
		if len(perShard[s]) == 0 {
			continue
		}
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			jf := filepath.Join(root, fmt.Sprintf("jobs-%s-%d", kind, s))
			tf := filepath.Join(root, fmt.Sprintf("trace-%s-%d", kind, s))
			b, _ := json.Marshal(perShard[s])
			if errs[s] = os.WriteFile(jf, b, 0o644); errs[s] != nil {
				return
			}
			cmd := exec.Command("strace", "-f", "-xx", "-s", "4000000", "-o", tf, "-e", "trace=openat,open,creat,close,dup,dup2,dup3,lseek,write,pwrite64,writev,pwritev,pwritev2,fallocate,copy_file_range,sendfile,fsync,fdatasync,ftruncate,rename,renameat,renameat2,unlink,unlinkat", self, "-child", jf)
			var out bytes.Buffer
			cmd.Stderr = &out
			if err := cmd.Run(); err != nil {
				o := out.String()
				if len(o) > 2000 {
					o = o[len(o)-2000:]
				}
				errs[s] = fmt.Errorf("%v: %s", err, o)
				return
			}
			evss[s], errs[s] = parseTrace(tf, perShard[s])
			_ = os.Remove(tf)
			for _, j := range perShard[s] {
				_ = os.RemoveAll(j.Dir)
			}
		}(s)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, 0, e
		}
	}
	var out []crashState
	seen := map[[32]byte]bool{}
	total := 0
	for s := range perShard {
		for j, evs := range evss[s] {
			h := jobHist[s][j]
			var names []string
			for _, o := range h {
				names = append(names, ops[o].name)
			}
			hs := strings.Join(names, "; ")
			d := dirState{}
			model := map[string]string{}
			failed := false
			acked := -1 // number of acknowledged operations, -1 = not even opened
			emit := func(d dirState, what string) {
				if acked < 0 && kind == "leveldb" {
					return
				}
				allowed := []map[string]string{cloneMap(model)}
				if acked >= 0 && acked < len(h) {
					nm := cloneMap(model)
					ops[h[acked]].to(nm)
					if mapKey(nm) != mapKey(model) {
						allowed = append(allowed, nm)
					}
				}
				var ak []string
				for _, a := range allowed {
					ak = append(ak, mapKey(a))
				}
				for _, machine := range []bool{false, true} {
					if machine && kind != "badger" {
						continue
					}
					hh := d.hash(machine)
					key := sha256.Sum256([]byte(fmt.Sprintf("%x %q", hh, ak)))
					if seen[key] {
						continue
					}
					seen[key] = true
					fs := map[string][]byte{}
					for n, f := range d {
						if machine {
							fs[n] = f.durable
						} else {
							fs[n] = f.cached
						}
					}
					w := "process dies"
					if machine {
						w = "machine dies"
					}
					out = append(out, crashState{kind, fmt.Sprintf("%s [%s]: %s %s", kind, hs, w, what), fs, allowed})
				}
			}
			for i, e := range evs {
				if e.kind == "ack" {
					if e.ackErr != "" {
						what := "open"
						if e.ack >= 1 && e.ack <= len(h) {
							what = ops[h[e.ack-1]].name
						} else if e.ack > len(h) {
							what = "close"
						}
						msg := e.ackErr
						failed = true
						out = append([]crashState{{kind, fmt.Sprintf("%s [%s]: %s fails: %s", kind, hs, what, msg), nil, nil}}, out...)
						continue
					}
					acked = e.ack
					if acked >= 1 && acked <= len(h) {
						ops[h[acked-1]].to(model)
					}
					if acked > len(h) {
						acked = len(h)
					}
					emit(d, fmt.Sprintf("after operation %d was acknowledged", acked))
					continue
				}
				total++
				if e.path == "LOCK" || e.path == "LOG" {
					continue
				}
				if e.kind == "write" && len(e.data) > 1 {
					cuts := map[int]bool{1: true, len(e.data) / 2: true, len(e.data) - 1: true}
					if !r.Quick || len(e.data) <= 64 {
						step := 1
						if len(e.data) > 600 {
							step = len(e.data) / 200
						}
						for c := 1; c < len(e.data); c += step {
							cuts[c] = true
						}
					} else {
						for c := 1; c < len(e.data); c += 1 + len(e.data)/24 {
							cuts[c] = true
						}
					}
					var cs []int
					for c := range cuts {
						cs = append(cs, c)
					}
					sort.Ints(cs)
					for _, c := range cs {
						t := d.clone()
						t.apply(e, c)
						emit(t, fmt.Sprintf("after %d acknowledged operations, with %d of %d bytes of a write to %s at %d", acked, c, len(e.data), e.path, e.off))
					}
				}
				d.apply(e, len(e.data))
				emit(d, fmt.Sprintf("after %d acknowledged operations, after file operation %d (%s %s)", acked, i, e.kind, e.path))
			}
			if acked < len(h) && !failed {
				return nil, total, fmt.Errorf("history [%s]: only %d operations seen in the trace", hs, acked)
			}
		}
	}
	return out, total, nil
}
