//go:build conc

package conc

import (
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/vsched"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	assume := []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04)", "one process at a time works on the store; statements that touch shared memory are atomic", "requests name each collection and each index once; only create-schema requests (adding an index is unfinished in the code, see known findings)"}
	hz.Register("P21", &hz.Check{Level: "model_checking", Rule: "every schedule of clients, worker and schema reloads up to the stated number of deviations (preemptions, storage failures, crashes around a commit); distinct = distinct final catalogues and results", Assume: assume, Run: runP21})
	hz.Register("P22", &hz.Check{Level: "model_checking", Rule: "every request shape of the stated set, in pairs, and every schedule of concurrent requests and id allocations up to the stated number of deviations; distinct = distinct final catalogues", Assume: assume, Run: runP22})
}

func schemaIn(db string, colls ...string) ddl.CreateSchemaInput {
	in := ddl.CreateSchemaInput{DB: db}
	for _, c := range colls {
		// name or name:index,index
		p := strings.SplitN(c, ":", 2)
		in.Collections = append(in.Collections, p[0])
		if len(p) > 1 {
			if in.Indices == nil {
				in.Indices = map[string][]ddl.IndexInfo{}
			}
			for i, n := range strings.Split(p[1], ",") {
				in.Indices[p[0]] = append(in.Indices[p[0]], ddl.IndexInfo{Name: n, Columns: []string{"c" + n, "d"}[:1+i%2], Unique: i%2 == 0})
			}
		}
	}
	return in
}

// ddlLease is how long processes may use a schema that has changed.
var ddlLease time.Duration

// ddlOutage, if not nil, says whether the storage is away; it sees every storage operation of
// the requests and of what they set off.
var ddlOutage func(op *kvmem.Op) bool

// ddlRun explores clients with one request list each.
func ddlRun(c *ex.Ctx, progs [][][]ddl.CreateSchemaInput, faults, crashes int, faulty func(op *kvmem.Op) bool, stmts bool, extra int) {
	p := progs[c.Choose(len(progs))]
	bubble(c, func(e *env) {
		w := newDW(e)
		e.s.NoStmt = !stmts
		if ddlLease > 0 {
			setLease(ddlLease)
			defer setLease(0)
			e.s.MaxSteps = 100000
			e.s.Choose = func(n int, dev bool) int {
				if dev {
					return c.Dev(n)
				}
				return 0
			}
		}
		if extra < 0 { // one schedule
			e.s.Choose = func(int, bool) int { return 0 }
		}
		e.faults, e.crashes = faults, crashes
		outage := func(op *kvmem.Op) bool { return false }
		e.onOp = func(op *kvmem.Op) error {
			e.crashHere(op)
			if !e.noFault[vsched.Current()] && outage(op) {
				return kvmem.ErrInjected
			}
			if faulty(op) && e.fault(string(op.Kind)+" fails") {
				return kvmem.ErrInjected
			}
			return nil
		}
		w.boot(nil)
		if ddlOutage != nil {
			outage = ddlOutage
		}
		for i := range p {
			i := i
			e.s.Go(fmt.Sprint("client", i), func() {
				for _, in := range p[i] {
					q := w.create(in)
					if q.err != nil && !ddlErr(q.err, in) {
						e.failf("creating %q: %v", in.DB, q.err)
					}
				}
			})
		}
		for i := 0; i < extra; i++ {
			i := i
			e.s.Go(fmt.Sprint("ids", i), func() {
				t := w.kvdb.NewTransaction(true)
				defer t.Discard()
				n := i + 1
				start, end, err := meta.NewMeta(t).GenGlobalIDs(n)
				if err == nil {
					err = t.Commit()
				}
				if err != nil {
					return
				}
				if end-start != int64(n) {
					e.failf("asked for %d ids, got (%d, %d]", n, start, end)
				}
				for id := start + 1; id <= end; id++ {
					if o, ok := w.extra[id]; ok {
						e.failf("the id %d was given to %s and to caller %d", id, o, i)
					}
					w.extra[id] = fmt.Sprint("caller ", i)
				}
			})
		}
		crashed := w.runOrCrash()
		outage = func(op *kvmem.Op) bool { return false }
		if crashed {
			w.boot(w.kvdb.Snapshot())
		}
		w.settle(10*time.Second + 20*ddlLease)
		w.verify(true)
		if crashed {
			// new requests keep being served
			e.s.Go("after", func() {
				q := w.create(schemaIn("after", "x:i"))
				if q.err != nil {
					e.failf("after the restart: %v", q.err)
				}
			})
			e.faults = 0
			e.run()
			w.settle(5*time.Second + 20*ddlLease)
			w.verify(true)
		}
		c.Observe("%s", w.state())
	})
}

// ddlStores: document databases on different stores in one process, opened again on what
// they stored in the same process.
func ddlStores(c *ex.Ctx, progs [][]ddl.CreateSchemaInput, depth int) {
	bubble(c, func(e *env) {
		resetSequences()
		e.s.NoStmt = true
		if depth < 0 {
			depth = -depth
			e.s.Choose = func(n int, dev bool) int { return 0 }
		} else { // preemptions at storage operations
			e.s.Choose = func(n int, dev bool) int {
				if dev {
					return c.Dev(n)
				}
				return 0
			}
		}
		var ws []*dw
		var docs []map[string]string
		for range progs {
			w := newDW(e)
			w.open(nil)
			ws = append(ws, w)
			docs = append(docs, map[string]string{})
		}
		for i, p := range progs {
			i, p := i, p
			e.s.Go(fmt.Sprint("client", i), func() {
				for _, in := range p {
					if q := ws[i].create(in); q.err != nil {
						e.failf("creating %q in store %d: %v", in.DB, i, q.err)
					}
				}
			})
		}
		e.run()
		e.s.Choose = func(n int, dev bool) int { return 0 }
		for _, w := range ws {
			w.settle(5 * time.Second)
			w.verify(true)
		}
		n := 0
		insert := func(i int) {
			for _, in := range progs[i] {
				for _, cn := range in.Collections {
					db, err := ws[i].do.DB(in.DB)
					must(err)
					cl, err := db.Collection(cn)
					must(err)
					n++
					d := bson.M{"n": fmt.Sprint(n)}
					did, err := cl.InsertOne(d, nil)
					if err != nil {
						e.failf("inserting into %s.%s of store %d: %v", in.DB, cn, i, err)
					}
					k := fmt.Sprintf("%s.%s.%d", in.DB, cn, did)
					if o, ok := docs[i][k]; ok {
						e.failf("store %d gave the id %d of document %s in %s.%s to document %d", i, did, o, in.DB, cn, n)
					}
					docs[i][k] = fmt.Sprint(n)
				}
			}
		}
		check := func(i int) {
			have := 0
			for _, in := range progs[i] {
				for _, cn := range in.Collections {
					db, err := ws[i].do.DB(in.DB)
					must(err)
					cl, err := db.Collection(cn)
					must(err)
					var l []bson.M
					must(cl.GetAll(&l, nil))
					have += len(l) - 1 // one of the creation
					min, max, err := cl.GetDidRange(nil)
					must(err)
					for did := min; did <= max; did++ {
						if want, ok := docs[i][fmt.Sprintf("%s.%s.%d", in.DB, cn, did)]; ok {
							var d bson.M
							if err := cl.GetOne(did, &d, nil); err != nil || d["n"] != want {
								e.failf("document %s under %d in %s.%s of store %d is %v, %v", want, did, in.DB, cn, i, d, err)
							}
						}
					}
				}
			}
			if have != len(docs[i]) {
				e.failf("store %d holds %d documents, %d were inserted", i, have, len(docs[i]))
			}
		}
		var hist []int
		e.s.Go("history", func() {
			for s := 0; s < depth; s++ {
				op := c.Choose(2 * len(ws))
				hist = append(hist, op)
				i := op / 2
				if op%2 == 0 {
					insert(i)
				} else {
					snap := ws[i].kvdb.Snapshot()
					ws[i].kvdb.Kill()
					ws[i] = newDW(e)
					ws[i].open(snap)
				}
				for k := range ws {
					check(k)
				}
			}
		})
		e.run()
		c.Observe("%v %v", hist, ws[0].state())
	})
}

// ddlErr: refused for a reason.
func ddlErr(err error, in ddl.CreateSchemaInput) bool {
	if err == kvmem.ErrConflict || err == kvmem.ErrInjected || err == kvmem.ErrDead {
		return true
	}
	s := err.Error()
	return strings.Contains(s, ddl.ErrDBAlreadyExists.Error()) || strings.Contains(s, "injected")
}

func runP21(r *hz.R) {
	pb := 1
	if !r.Quick {
		pb = 2
	}
	none := func(op *kvmem.Op) bool { return false }
	commits := func(op *kvmem.Op) bool { return op.Kind == kvmem.KCommit && op.Writes > 0 }
	ops := func(op *kvmem.Op) bool {
		return op.Kind == kvmem.KGet || op.Kind == kvmem.KSet || op.Kind == kvmem.KScan || op.Kind == kvmem.KExists
	}
	type P = [][]ddl.CreateSchemaInput
	same := P{{schemaIn("d1", "a")}, {schemaIn("d1", "b")}}
	two := P{{schemaIn("d1", "a:i,j")}, {schemaIn("d2", "b")}}
	seq := P{{schemaIn("d1", "a:i"), schemaIn("d2"), schemaIn("d1", "b")}}
	dbl := P{{schemaIn("d1", "a", "b")}, {schemaIn("d2", "c"), schemaIn("d1", "c")}}
	r.ExploreProc("schedules", pb, func(c *ex.Ctx) { ddlRun(c, []P{same, two, seq, dbl}, 0, 0, none, true, 0) })
	r.ExploreProc("one request", 2, func(c *ex.Ctx) { ddlRun(c, []P{{{schemaIn("d1", "a:i")}}}, 0, 0, none, true, 0) })
	if !r.Quick {
		r.ExploreProc("storage-level schedules", 2, func(c *ex.Ctx) { ddlRun(c, []P{same, two, seq, dbl}, 0, 0, none, false, 0) })
	}
	r.ExploreProc("failing commits", pb, func(c *ex.Ctx) { ddlRun(c, []P{same, two, seq, dbl}, 2, 0, commits, false, 0) })
	r.ExploreProc("failing operations", pb, func(c *ex.Ctx) { ddlRun(c, []P{seq, two}, 2, 0, ops, false, 0) })
	r.ExploreProc("crashes", pb, func(c *ex.Ctx) { ddlRun(c, []P{same, two, seq, dbl}, 0, 1, none, false, 0) })
	r.ExploreW("adding an index", 0, 1, 0, func(c *ex.Ctx) {
		addIndex(c, func(e *env, w *dw, err error) {
			n := 0
			w.meta(func(m *meta.Meta) {
				q, qerr := m.GetAllDDLJobsInQueue()
				must(qerr)
				n = len(q)
			})
			if err != nil || n != 0 {
				if !r.Known("P21-addindex", "AddIndex on an existing collection never finishes, and its job stays at the head of the queue, so that no later schema request is served") {
					e.failf("adding an index: %v, %d jobs in the queue", err, n)
				}
			}
		})
	})
	r.ExploreProc("failures and crashes", pb+1, func(c *ex.Ctx) { ddlRun(c, []P{seq}, 1, 1, commits, false, 0) })
	leases := []time.Duration{50 * time.Millisecond, 300 * time.Millisecond, time.Second, 7 * time.Second}
	lease := func(c *ex.Ctx, faults, crashes int) {
		ddlLease = leases[c.Choose(len(leases))]
		defer func() { ddlLease = 0 }()
		ddlRun(c, []P{same, two, seq}, faults, crashes, commits, false, 0)
	}
	r.ExploreProc("leases", pb, func(c *ex.Ctx) { lease(c, 0, 0) })
	r.ExploreProc("leases, failures", pb, func(c *ex.Ctx) { lease(c, 1, 0) })
	r.ExploreProc("leases, crashes", pb, func(c *ex.Ctx) { lease(c, 0, 1) })
	// the storage is away for a while, from any operation on
	away := 100
	var lasts []interface{}
	for _, n := range []int{2, 3, 5, 8, 13, 30} {
		lasts = append(lasts, n)
	}
	for _, d := range []time.Duration{500 * time.Millisecond, 1500 * time.Millisecond, 2500 * time.Millisecond, 4500 * time.Millisecond, 20 * time.Second, 2 * time.Minute} {
		lasts = append(lasts, d)
	}
	if !r.Quick {
		away = 250
		for n := 1; n < 60; n++ {
			lasts = append(lasts, n)
		}
	}
	r.ExploreProc("storage away", 0, func(c *ex.Ctx) {
		from, last, what := c.Choose(away), lasts[c.Choose(len(lasts))], c.Choose(4)
		n := 0
		var since time.Time
		ddlOutage = func(op *kvmem.Op) bool {
			switch op.Kind {
			case kvmem.KDiscard, kvmem.KCommitted:
				return false
			}
			write := op.Kind == kvmem.KSet || op.Kind == kvmem.KDelete || op.Kind == kvmem.KCommit
			if what == 1 && op.Update || what == 2 && !op.Update || what == 3 && !write {
				return false
			}
			n++
			if n <= from {
				return false
			}
			if since.IsZero() {
				since = time.Now()
			}
			switch l := last.(type) {
			case int:
				return n <= from+l
			case time.Duration:
				return time.Since(since) < l
			}
			return false
		}
		defer func() { ddlOutage = nil }()
		c.Logf("%s fail from the %dth on, for %v", []string{"all operations", "the operations of read-only transactions", "the operations of update transactions", "writes and commits"}[what], from, last)
		ddlRun(c, []P{seq, two, {{schemaIn("d1", "a:i"), schemaIn("d2", "b"), schemaIn("d3", "c"), schemaIn("d4", "d")}}}, 0, 0, none, false, -1)
	})
	pairs := []P{same, two, {dbl[0], same[1]}, {dbl[0], dbl[1][:1], seq[0][:2]}}
	r.ExploreProc("several stores", pb, func(c *ex.Ctx) { ddlStores(c, pairs[c.Choose(len(pairs))], 1) })
}

func runP22(r *hz.R) {
	pb := 1
	if !r.Quick {
		pb = 2
	}
	none := func(op *kvmem.Op) bool { return false }
	commits := func(op *kvmem.Op) bool { return op.Kind == kvmem.KCommit && op.Writes > 0 }
	type P = [][]ddl.CreateSchemaInput
	// all shapes, in pairs
	var shapes [][]string
	ix := []string{"", ":i", ":i,j", ":i,j,k"}
	shapes = append(shapes, nil)
	for _, a := range ix {
		shapes = append(shapes, []string{"a" + a})
		for _, b := range ix {
			shapes = append(shapes, []string{"b" + b, "a" + a})
			for _, d := range ix[:3] {
				shapes = append(shapes, []string{"b" + b, "a" + a, "c" + d})
			}
		}
	}
	if r.Quick {
		shapes = shapes[:40]
	}
	r.ExploreProc("shapes", 0, func(c *ex.Ctx) {
		x, y := shapes[c.Choose(len(shapes))], shapes[c.Choose(len(shapes))]
		extra := c.Choose(2)
		ddlRun(c, []P{{{schemaIn("d1", x...), schemaIn("d2", y...), schemaIn("d1", "z")}}}, 0, 0, none, false, extra)
	})
	// databases, collections and indexes of the same names
	var alike [][]string
	ix = []string{"", ":n", ":m", ":n,m"}
	alike = append(alike, nil)
	for _, x := range ix {
		alike = append(alike, []string{"n" + x}, []string{"m" + x})
		for _, y := range ix {
			alike = append(alike, []string{"n" + x, "m" + y}, []string{"m" + x, "n" + y})
		}
	}
	r.ExploreProc("names alike", 0, func(c *ex.Ctx) {
		ddlRun(c, []P{{{schemaIn("n", alike[c.Choose(len(alike))]...), schemaIn("m", alike[c.Choose(len(alike))]...), schemaIn("n", "z")}}}, 0, 0, none, false, -1)
	})
	// every number of collections and indexes, and of databases, one after the other
	var wide []P
	widths := sizes(20, 32, 50, 64, 100)
	if !r.Quick {
		widths = sizes(70, 100, 128, 200, 256)
	}
	for _, n := range widths {
		var cs, is, dbs []string
		for i := 0; i < n; i++ {
			cs = append(cs, fmt.Sprintf("c%d:i%d", i, n-i))
			is = append(is, fmt.Sprint("i", n-i))
			dbs = append(dbs, fmt.Sprint("d", i))
		}
		wide = append(wide, P{{schemaIn("d1", cs...), schemaIn("d2", "z:y"), schemaIn("d1", "a")}})
		if n > 0 {
			wide = append(wide, P{{schemaIn("d1", "a:"+strings.Join(is, ","), "b:x", "c:"+strings.Join(is, ",")), schemaIn("d2", "a:i")}})
		}
		var l []ddl.CreateSchemaInput
		for _, d := range dbs {
			l = append(l, schemaIn(d, "a:i"))
		}
		wide = append(wide, P{append(l, schemaIn("d0"))})
	}
	r.ExploreProc("sizes", 0, func(c *ex.Ctx) {
		usedCID = 2000
		ddlRun(c, wide, 0, 0, none, false, -1)
	})
	two := P{{schemaIn("d1", "a:i,j")}, {schemaIn("d2", "b")}}
	dbl := P{{schemaIn("d1", "a:i", "b:i")}, {schemaIn("d2", "c"), schemaIn("d1", "c")}}
	r.ExploreProc("concurrent", pb, func(c *ex.Ctx) { ddlRun(c, []P{two}, 0, 0, none, true, 1) })
	r.ExploreProc("failures", pb, func(c *ex.Ctx) { ddlRun(c, []P{two}, 1, 0, commits, false, 1) })
	r.ExploreProc("crashes", pb, func(c *ex.Ctx) { ddlRun(c, []P{two}, 0, 1, none, false, 1) })
	if !r.Quick {
		r.ExploreProc("concurrent, storage-level", pb, func(c *ex.Ctx) { ddlRun(c, []P{two, dbl}, 0, 0, none, false, 2) })
		r.ExploreProc("more failures", pb, func(c *ex.Ctx) { ddlRun(c, []P{dbl}, 2, 0, commits, false, 2) })
		r.ExploreProc("more crashes", pb, func(c *ex.Ctx) { ddlRun(c, []P{dbl}, 0, 1, none, false, 2) })
	}
}
