//go:build conc

package conc

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/vsched"
	"github.com/zhiqiangxu/util/osc"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P33", &hz.Check{Level: "model_checking", Rule: "every request of the stated shapes (each defect at each position) on every stated catalogue and queue length, every pair of them in a row, and every storage operation of a request failing; the stored catalogue, queue and id counter are compared before and after; every name looked up in every stated schema; distinct = distinct results and queues",
		Assume: []string{"requests name each collection and each index once and give indexes only for the collections they list", "the request is compared with what it stores before the worker takes it: the caller's context has ended, so that it does not wait"}, Run: runP33})
}

// reqView is what a request may change, and what it may not.
type reqView struct {
	queue  []string
	jobs   []*model.Job
	global int64
	rest   string
	dbs    []*model.DBInfo
}

func viewReq(snap kvmem.Snap) (v reqView) {
	t := kvmem.FromSnap(snap).NewTransaction(true)
	defer t.Discard()
	m := meta.NewMeta(t)
	l, err := m.DDLJobQueueLen()
	must(err)
	for i := int64(0); i < l; i++ {
		j, err := m.GetDDLJobByIdx(i)
		must(err)
		if j == nil {
			panic(ex.Failure{Msg: fmt.Sprintf("the queue has %d jobs, none at %d", l, i)})
		}
		v.jobs = append(v.jobs, j)
	}
	for _, j := range v.jobs {
		b, err := j.Encode()
		must(err)
		v.queue = append(v.queue, string(b))
	}
	v.global, err = m.GetGlobalID()
	if err == kv.ErrKeyNotFound {
		v.global, err = 0, nil
	}
	must(err)
	v.dbs, err = m.ListDatabases()
	must(err)
	sv, err := m.GetSchemaVersion()
	must(err)
	h, err := m.GetAllHistoryDDLJobs()
	must(err)
	q2, err := m.GetAllDDLJobsInQueue(meta.AddIndexJobListKey)
	must(err)
	v.rest = fmt.Sprint(sv, len(h), len(q2))
	for _, d := range v.dbs {
		cs, err := m.ListCollections(d.ID)
		must(err)
		v.rest += fmt.Sprintf(" %d %s %v", d.ID, d.Name, d.CollectionOrder)
		for _, c := range cs {
			v.rest += collStr(c)
		}
	}
	return
}

// stores builds a store with databases and waiting jobs.
func reqStore(dbs []ddl.CreateSchemaInput, waiting int) kvmem.Snap {
	db := kvmem.New()
	t := db.NewTransaction(true)
	m := meta.NewMeta(t)
	for _, in := range dbs {
		must(m.CreateDatabase(reqInfo(m, in)))
	}
	for i := 0; i < waiting; i++ {
		in := schemaIn(fmt.Sprint("w", i), "a")
		di := reqInfo(m, in)
		id, err := m.GenGlobalID()
		must(err)
		must(m.EnQueueDDLJob(&model.Job{ID: id, Type: model.ActionCreateSchema, Arg: di}))
	}
	if len(dbs) > 0 {
		v, err := m.GenSchemaVersion()
		must(err)
		must(m.SetSchemaDiff(&model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, Arg: &model.DBInfo{ID: 1, Name: dbs[0].DB}}))
	}
	must(t.Commit())
	return db.Snapshot()
}

func reqInfo(m *meta.Meta, in ddl.CreateSchemaInput) *model.DBInfo {
	id := func() int64 {
		i, err := m.GenGlobalID()
		must(err)
		return i
	}
	di := &model.DBInfo{ID: id(), Name: in.DB, State: osc.StatePublic, Collections: map[string]*model.CollectionInfo{}}
	for _, cn := range in.Collections {
		ci := &model.CollectionInfo{ID: id(), Name: cn, State: osc.StatePublic, Indices: map[string]*model.IndexInfo{}}
		for _, ii := range in.Indices[cn] {
			mi := ii.ToModel()
			mi.ID, mi.State = id(), osc.StatePublic
			ci.Indices[ii.Name] = mi
			ci.IndexOrder = append(ci.IndexOrder, ii.Name)
		}
		di.Collections[cn] = ci
		di.CollectionOrder = append(di.CollectionOrder, cn)
	}
	return di
}

// req is one request to the schema service.
type req struct {
	create *ddl.CreateSchemaInput
	add    *ddl.AddIndexInput
	bad    bool // not well formed
}

func (q *req) String() string {
	if q.create != nil {
		return fmt.Sprintf("CreateSchema(%+v)", *q.create)
	}
	return fmt.Sprintf("AddIndex(%+v)", *q.add)
}

// want says which error a well-formed request meets, nil if it is queued.
func (q *req) want(v reqView) error {
	if q.create != nil {
		full := len(v.jobs) > 100
		for _, d := range v.dbs {
			if d.Name == q.create.DB {
				if full {
					return nil
				}
				return ddl.ErrDBAlreadyExists
			}
		}
		if full {
			return ddl.ErrJobsInQueueExceeded
		}
		return nil
	}
	for _, d := range v.dbs {
		if d.Name == q.add.DB {
			c := d.Collections[q.add.Collection]
			if c == nil {
				return ddl.ErrCollectionNotExists
			}
			if c.Indices[q.add.IndexInfo.Name] != nil {
				return ddl.ErrIndexAlreadyExists
			}
			return nil
		}
	}
	return ddl.ErrDBNotExists
}

// either: two reasons to refuse, any of them will do.
func (q *req) either(v reqView) bool {
	if q.create == nil || len(v.jobs) <= 100 {
		return false
	}
	for _, d := range v.dbs {
		if d.Name == q.create.DB {
			return true
		}
	}
	return false
}

func is(err, target error) bool {
	return err != nil && (errors.Is(err, target) || strings.Contains(err.Error(), target.Error()))
}

// step sends one request and checks its effect on what is stored.
func (q *req) step(e *env, w *dw, mayFail bool) {
	before := w.kvdb.Snapshot()
	v := viewReq(before)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	var job *model.Job
	var err error
	in := q.String()
	if q.create != nil {
		job, err = w.do.DDL().CreateSchema(ctx, *q.create)
	} else {
		job, err = w.do.DDL().AddIndex(ctx, *q.add)
	}
	e.c.Logf("%s: %v", q, err)
	if q.String() != in {
		e.failf("%s changed its argument to %s", in, q)
	}
	n := viewReq(w.kvdb.Snapshot())
	if n.rest != v.rest {
		e.failf("%s changed the catalogue from %s to %s", q, v.rest, n.rest)
	}
	queued := err == context.Canceled
	if !queued {
		if err == nil {
			e.failf("%s returned no error although nobody waited for it", q)
		}
		if !sameStrs(n.queue, v.queue) || n.global != v.global {
			e.failf("%s was refused (%v), yet changed the queue from %d to %d jobs, the last id from %d to %d", q, err, len(v.queue), len(n.queue), v.global, n.global)
		}
		if !reflect.DeepEqual(w.kvdb.Snapshot().Map(), before.Map()) {
			e.failf("%s was refused (%v), yet changed what is stored", q, err)
		}
	}
	if e.faulted > 0 && !queued {
		return
	}
	want := q.want(v)
	switch {
	case q.bad:
		if queued {
			e.failf("%s was accepted", q)
		}
		e.c.Observe("bad")
		return
	case q.either(v):
		if queued || (!is(err, ddl.ErrJobsInQueueExceeded) && !is(err, ddl.ErrDBAlreadyExists)) {
			e.failf("%s with %d jobs waiting: %v", q, len(v.jobs), err)
		}
		return
	case want != nil:
		if queued || !is(err, want) {
			e.failf("%s with %d jobs waiting: %v, want %v", q, len(v.jobs), err, want)
		}
		return
	case !queued:
		e.failf("%s with %d jobs waiting is refused: %v", q, len(v.jobs), err)
	}
	if len(n.queue) != len(v.queue)+1 || !sameStrs(n.queue[:len(v.queue)], v.queue) {
		e.failf("%s: the queue went from %v to %v", q, v.queue, n.queue)
	}
	j := n.jobs[len(n.jobs)-1]
	if job == nil || job.ID != j.ID {
		e.failf("%s reports the job %v, queued is %d", q, job, j.ID)
	}
	ids := map[int64]bool{}
	id := func(what string, id int64) {
		if id <= v.global || id > n.global || ids[id] {
			e.failf("%s: %s got the id %d, the last id went from %d to %d", q, what, id, v.global, n.global)
		}
		ids[id] = true
	}
	id("the job", j.ID)
	if j.State != model.JobStateNone || j.Error != nil || j.ErrorCount != 0 {
		e.failf("%s is queued as %+v", q, j)
	}
	if q.create != nil {
		var d model.DBInfo
		must(j.DecodeArg(&d))
		id("the database", d.ID)
		if j.Type != model.ActionCreateSchema || d.Name != q.create.DB || len(d.Collections) != len(q.create.Collections) || strings.Join(d.CollectionOrder, "\x00") != strings.Join(q.create.Collections, "\x00") {
			e.failf("%s is queued as %d %+v", q, j.Type, d)
		}
		for _, cn := range q.create.Collections {
			c := d.Collections[cn]
			if c == nil || c.Name != cn || len(c.Indices) != len(q.create.Indices[cn]) {
				e.failf("%s is queued with the collection %s", q, collStr(c))
			}
			id("the collection "+cn, c.ID)
			var order []string
			for _, ii := range q.create.Indices[cn] {
				order = append(order, ii.Name)
				q.index(e, c.Indices[ii.Name], ii, id)
			}
			if strings.Join(order, "\x00") != strings.Join(c.IndexOrder, "\x00") {
				e.failf("%s is queued with the index order %v", q, c.IndexOrder)
			}
		}
	} else {
		var i model.IndexInfo
		must(j.DecodeArg(&i))
		q.index(e, &i, q.add.IndexInfo, id)
		if j.Type != model.ActionAddIndex || i.JobRedundant == nil || i.JobRedundant.DB != q.add.DB || i.JobRedundant.Collection != q.add.Collection {
			e.failf("%s is queued as %d %+v", q, j.Type, i)
		}
	}
	e.c.Observe("%s", n.queue[len(n.queue)-1])
}

func (q *req) index(e *env, got *model.IndexInfo, want ddl.IndexInfo, id func(string, int64)) {
	if got == nil || got.Name != want.Name || got.Unique != want.Unique || !reflect.DeepEqual(got.Columns, want.Columns) {
		e.failf("%s is queued with the index %+v instead of %+v", q, got, want)
	}
	id("the index "+got.Name, got.ID)
}

// requests builds the request set: well-formed ones and each defect at each position.
func requests(deep bool) (out []*req) {
	add := func(in ddl.CreateSchemaInput, bad bool) { out = append(out, &req{create: &in, bad: bad}) }
	good := [][]string{nil, {"a"}, {"a:i"}, {"a:i,j"}, {"b", "a"}, {"b:i", "a:i"}, {"c:j,i", "a", "b:i"}}
	if deep {
		good = append(good, []string{"a:i,j,k", "b:k,j,i", "c:i"}, []string{"\x00", "a\x00b:\x00,i"}, []string{"d", "c", "b", "a"})
	}
	for _, g := range good {
		for _, db := range []string{"d0", "d1", "d", "w0"} {
			add(schemaIn(db, g...), false)
		}
		add(schemaIn("", g...), true)
		for pos := 0; pos <= len(g); pos++ {
			h := append(append(append([]string{}, g[:pos]...), ""), g[pos:]...)
			add(schemaIn("d", h...), true)
		}
	}
	for _, g := range good {
		in := schemaIn("d", g...)
		for _, cn := range in.Collections {
			n := len(in.Indices[cn])
			for pos := 0; pos <= n; pos++ {
				for _, bad := range []ddl.IndexInfo{{Name: "", Columns: []string{"c"}}, {Name: "z"}, {Name: "z", Columns: []string{}}, {}, {Unique: true, Name: "z"}} {
					b := schemaIn("d", g...)
					if b.Indices == nil {
						b.Indices = map[string][]ddl.IndexInfo{}
					}
					l := b.Indices[cn]
					b.Indices[cn] = append(append(append([]ddl.IndexInfo{}, l[:pos]...), bad), l[pos:]...)
					add(b, true)
				}
			}
		}
	}
	return
}

func indexRequests() (out []*req) {
	for _, db := range []string{"d0", "d1", "d", ""} {
		for _, c := range []string{"a", "b", "e", ""} {
			for _, ix := range []string{"i", "j", "n", ""} {
				for k, cols := range [][]string{{"x"}, {"x", "y"}, {}, nil} {
					out = append(out, &req{add: &ddl.AddIndexInput{DB: db, Collection: c, IndexInfo: ddl.IndexInfo{Name: ix, Columns: cols, Unique: k%2 == 0}}, bad: db == "" || c == "" || ix == "" || len(cols) == 0})
				}
			}
		}
	}
	return
}

func catalogues() [][]ddl.CreateSchemaInput {
	return [][]ddl.CreateSchemaInput{
		nil,
		{schemaIn("d0")},
		{schemaIn("d0", "a:i", "b"), schemaIn("d1", "b:i,j")},
		{schemaIn("x", "d"), schemaIn("d1", "a:j", "b:n", "e"), schemaIn("d0", "b")},
	}
}

func reqRun(c *ex.Ctx, snap kvmem.Snap, faults int, pick func() *req, n int) {
	bubble(c, func(e *env) {
		e.s.NoStmt = true
		e.s.Choose = func(int, bool) int { return 0 }
		e.s.Budget = func() int { return 0 }
		// the service is opened on an empty store and has nothing to do when the requests come
		w := newDW(e)
		w.boot(nil)
		w.kvdb.Restore(snap)
		e.faults = faults
		e.onOp = func(op *kvmem.Op) error {
			switch op.Kind {
			case kvmem.KGet, kvmem.KSet, kvmem.KScan, kvmem.KExists, kvmem.KCommit, kvmem.KBegin:
				if vsched.Current() == "client" && e.fault(string(op.Kind)+" fails") {
					e.faulted++
					return kvmem.ErrInjected
				}
			}
			return nil
		}
		done := false
		e.s.Go("client", func() {
			for i := 0; i < n; i++ {
				pick().step(e, w, faults > 0)
			}
			done = true
		})
		e.s.Run(func() bool { return done })
		e.verdict()
		e.s.Kill()
	})
}

func runP33(r *hz.R) {
	var stores []kvmem.Snap
	for _, cat := range catalogues() {
		stores = append(stores, reqStore(cat, 0))
	}
	all := append(requests(!r.Quick), indexRequests()...)
	r.ExploreProc("requests", 0, func(c *ex.Ctx) {
		snap := stores[c.Choose(len(stores))]
		q := all[c.Choose(len(all))]
		reqRun(c, snap, 0, func() *req { return q }, 1)
	})
	few := []*req{}
	for i, q := range all {
		if i%9 == 0 || (q.create != nil && !q.bad && i%2 == 0) {
			few = append(few, q)
		}
	}
	r.ExploreProc("two requests", 0, func(c *ex.Ctx) {
		snap := stores[2]
		reqRun(c, snap, 0, func() *req { return few[c.Choose(len(few))] }, 2)
	})
	var full []kvmem.Snap
	lens := []int{0, 1, 2, 98, 99, 100, 101, 102, 150}
	for _, n := range lens {
		full = append(full, reqStore(catalogues()[2], n))
	}
	r.ExploreProc("waiting jobs", 0, func(c *ex.Ctx) {
		snap := full[c.Choose(len(full))]
		reqRun(c, snap, 0, func() *req {
			return []*req{{create: inp(schemaIn("d", "a:i"))}, {create: inp(schemaIn("d1", "a"))}, {create: inp(schemaIn("", "a")), bad: true}, {create: inp(schemaIn("w0"))}}[c.Choose(4)]
		}, 3)
	})
	r.ExploreProc("failing storage", 1, func(c *ex.Ctx) {
		snap := stores[c.Choose(len(stores))]
		var sel []*req
		for i, q := range all {
			if !q.bad && (q.create != nil || i%5 == 0) {
				sel = append(sel, q)
			}
		}
		q := sel[c.Choose(len(sel))]
		reqRun(c, snap, 1, func() *req { return q }, 1)
	})
	if !r.Quick {
		r.ExploreProc("three requests", 0, func(c *ex.Ctx) {
			some := few[:len(few):len(few)]
			if len(some) > 60 {
				some = nil
				for i, q := range few {
					if i%3 == 0 {
						some = append(some, q)
					}
				}
			}
			reqRun(c, stores[2], 0, func() *req { return some[c.Choose(len(some))] }, 3)
		})
		r.ExploreProc("two requests, failing storage", 2, func(c *ex.Ctx) {
			reqRun(c, stores[c.Choose(len(stores))], 2, func() *req { return few[c.Choose(len(few))] }, 2)
		})
	}
	pb := 1
	if !r.Quick {
		pb = 2
	}
	r.ExploreProc("at the same time", pb, func(c *ex.Ctx) { reqRace(c, full) })
	r.ExploreProc("lookups", 0, func(c *ex.Ctx) {
		cats := catalogues()
		cat := cats[c.Choose(len(cats))]
		bubble(c, func(e *env) {
			e.s.NoStmt = true
			w := newDW(e)
			w.boot(reqStore(cat, 0))
			e.s.Go("client", func() { lookups(e, w, cat) })
			e.run()
			c.Observe("%d", len(cat))
		})
	})
	// names that look alike are different names
	names := likeNames()
	named := func(n string) []ddl.CreateSchemaInput {
		return []ddl.CreateSchemaInput{{DB: n, Collections: []string{n}, Indices: map[string][]ddl.IndexInfo{n: {{Name: n, Columns: []string{n}}}}}}
	}
	var namedStores []kvmem.Snap
	for _, n := range names {
		namedStores = append(namedStores, reqStore(named(n), 0))
	}
	r.ExploreProc("names that look alike", 0, func(c *ex.Ctx) {
		i, k, what := c.Choose(len(names)), c.Choose(len(names)), c.Choose(6)
		n, o := names[i], names[k]
		ix := func(db, coll, name string) *req {
			return &req{add: &ddl.AddIndexInput{DB: db, Collection: coll, IndexInfo: ddl.IndexInfo{Name: name, Columns: []string{o, n}}}}
		}
		if what == 5 {
			bubble(c, func(e *env) {
				e.s.NoStmt = true
				e.s.Choose = func(int, bool) int { return 0 }
				e.s.Budget = func() int { return 0 }
				w := newDW(e)
				w.boot(namedStores[i])
				done := false
				e.s.Go("client", func() {
					cat := named(n)
					if o != n {
						cat[0].Collections = append(cat[0].Collections, o)
						cat[0].Indices[o] = []ddl.IndexInfo{{Name: o, Columns: []string{o}}, {Name: n, Columns: []string{n, o}}}
						cat[0].DB = o
						w.create(cat[0])
						cat = append(named(n), cat[0])
						time.Sleep(time.Second)
					}
					lookupNames(e, w, cat, []string{n, o})
					done = true
				})
				e.s.Run(func() bool { return done })
				e.verdict()
				e.s.Kill()
				c.Observe("%q %q", n, o)
			})
			return
		}
		reqRun(c, namedStores[i], 0, func() *req {
			switch what {
			case 0:
				return &req{create: inp(named(o)[0])}
			case 1:
				return ix(o, n, "new")
			case 2:
				return ix(n, o, "new")
			case 3:
				return ix(n, n, o)
			}
			in := ddl.CreateSchemaInput{DB: "new", Collections: []string{o, "a"}, Indices: map[string][]ddl.IndexInfo{o: {{Name: o, Columns: []string{o}}}, "a": {{Name: "a", Columns: []string{"a"}}}}}
			if o != n {
				in.Collections = append(in.Collections, n)
				in.Indices[n] = []ddl.IndexInfo{{Name: n, Columns: []string{n, o}}, {Name: o, Columns: []string{o, n}, Unique: true}}
			}
			return &req{create: &in}
		}, 1)
	})
	r.ExploreProc("new schemas", 0, func(c *ex.Ctx) {
		cats := catalogues()
		cat := cats[c.Choose(len(cats))]
		bubble(c, func(e *env) {
			e.s.NoStmt = true
			w := newDW(e)
			w.boot(nil)
			e.s.Go("client", func() {
				for _, in := range cat {
					w.create(in)
				}
				time.Sleep(time.Second)
				lookups(e, w, cat)
			})
			e.run()
			c.Observe("%d", len(cat))
		})
	})
	r.Enum("validation", 1, func(i int, l *hz.Log) { validation(l) })
}

func inp(in ddl.CreateSchemaInput) *ddl.CreateSchemaInput { return &in }

// lookups: a name can be used exactly if the schema has it.
func lookups(e *env, w *dw, cat []ddl.CreateSchemaInput) {
	lookupNames(e, w, cat, []string{"d0", "d1", "x", "d", "", "a", "b", "e", "i", "j", "n", "z"})
}

func lookupNames(e *env, w *dw, cat []ddl.CreateSchemaInput, names []string) {
	for _, dn := range names {
		var in *ddl.CreateSchemaInput
		for k := range cat {
			if cat[k].DB == dn {
				in = &cat[k]
			}
		}
		db, err := w.do.DB(dn)
		if (err == nil) != (in != nil) || (err != nil && !is(err, ddl.ErrDBNotExists)) {
			e.failf("the database %q, in the schema: %v, looked up: %v", dn, in != nil, err)
		}
		if in == nil {
			continue
		}
		if db.Name != dn {
			e.failf("looking up %q gives %q", dn, db.Name)
		}
		for _, cn := range names {
			has := false
			for _, x := range in.Collections {
				has = has || x == cn
			}
			c, err := db.Collection(cn)
			if (err == nil) != has || (err != nil && !is(err, ddl.ErrCollectionNotExists)) {
				e.failf("the collection %s.%q, in the schema: %v, looked up: %v", dn, cn, has, err)
			}
			if !has {
				continue
			}
			for _, xn := range names {
				has := false
				for _, x := range in.Indices[cn] {
					has = has || x.Name == xn
				}
				ix, err := c.Index(xn)
				if (err == nil) != has || (err == nil && ix == nil) || (err != nil && !is(err, ddl.ErrIndexNotExists)) {
					e.failf("the index %s.%s.%q, in the schema: %v, looked up: %v", dn, cn, xn, has, err)
				}
			}
		}
	}
}

// validation: the inputs of all requests are accepted exactly if they are complete.
func validation(l *hz.Log) {
	names := []string{"", "a", " ", "\x00"}
	var infos []ddl.IndexInfo
	for _, n := range names {
		for _, c := range [][]string{nil, {}, {"c"}, {"c", "d"}} {
			infos = append(infos, ddl.IndexInfo{Name: n, Columns: c})
		}
	}
	okI := func(i ddl.IndexInfo) bool { return i.Name != "" && len(i.Columns) > 0 }
	chk := func(what interface{}, err error, ok bool) {
		l.Assert((err == nil) == ok, "%T %+v is valid: %v, Validate says %v", what, what, ok, err)
	}
	for _, i := range infos {
		chk(i, i.Validate(), okI(i))
	}
	for _, d := range names {
		ds := ddl.DropSchemaInput{DB: d}
		chk(ds, ds.Validate(), d != "")
		for _, c := range names {
			dc := ddl.DropCollectionInput{DB: d, Collection: c}
			chk(dc, dc.Validate(), d != "" && c != "")
			for _, n := range names {
				di := ddl.DropIndexInput{DB: d, Collection: c, IndexName: n}
				chk(di, di.Validate(), d != "" && c != "" && n != "")
			}
			for _, i := range infos {
				ai := ddl.AddIndexInput{DB: d, Collection: c, IndexInfo: i}
				chk(ai, ai.Validate(), d != "" && c != "" && okI(i))
			}
			for n := 0; n <= 3; n++ {
				tot := 1
				for k := 0; k < n; k++ {
					tot *= len(infos)
				}
				for k := 0; k < tot; k++ {
					var list []ddl.IndexInfo
					ok := d != "" && c != ""
					for x, y := k, 0; y < n; x, y = x/len(infos), y+1 {
						list = append(list, infos[x%len(infos)])
						ok = ok && okI(infos[x%len(infos)])
					}
					cc := ddl.CreateCollectionInput{DB: d, Collection: c, Indices: list}
					chk(cc, cc.Validate(), ok)
					cs := ddl.CreateSchemaInput{DB: d, Collections: []string{"y", c, "z"}, Indices: map[string][]ddl.IndexInfo{"y": list}}
					chk(cs, cs.Validate(), ok)
				}
			}
		}
	}
}

func sameStrs(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

// reqRace sends requests at the same time, with the worker kept from serving any.
func reqRace(c *ex.Ctx, full []kvmem.Snap) {
	progs := [][]ddl.CreateSchemaInput{
		{schemaIn("d", "a:i"), schemaIn("e", "b")},
		{schemaIn("d", "a:i"), schemaIn("d", "b")},
		{schemaIn("d", "a:i"), schemaIn("d1", "b"), schemaIn("", "b")},
		{schemaIn("d"), schemaIn("e", "b"), schemaIn("f")},
	}
	p := progs[c.Choose(len(progs))]
	snap := full[[]int{0, 1, 4, 5, 6}[c.Choose(5)]]
	before := viewReq(snap)
	bubble(c, func(e *env) {
		e.s.NoStmt = true
		w := newDW(e)
		w.boot(nil)
		w.kvdb.Restore(snap)
		e.onOp = func(op *kvmem.Op) error {
			if strings.HasPrefix(vsched.Current(), "bg") {
				vsched.Block("held back", func() bool { return false }, func() {})
			}
			return nil
		}
		jobs, errs := make([]*model.Job, len(p)), make([]error, len(p))
		done := 0
		for i := range p {
			i := i
			e.s.Go(fmt.Sprint("client", i), func() {
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				jobs[i], errs[i] = w.do.DDL().CreateSchema(ctx, p[i])
				c.Logf("%+v: %v", p[i], errs[i])
				done++
			})
		}
		e.s.Run(func() bool { return done == len(p) })
		e.verdict()
		e.s.Kill()
		v := viewReq(w.kvdb.Snapshot())
		if v.rest != before.rest {
			e.failf("the catalogue changed")
		}
		n := len(before.queue)
		if len(v.queue) > 101 && len(v.queue) > n {
			e.failf("%d jobs are waiting", len(v.queue))
		}
		if len(v.queue) < n || !sameStrs(v.queue[:n], before.queue) {
			e.failf("the waiting jobs changed")
		}
		queued := 0
		for i := range p {
			switch {
			case errs[i] == context.Canceled:
				queued++
				found := 0
				for _, j := range v.jobs[n:] {
					if j.ID == jobs[i].ID {
						found++
						var d model.DBInfo
						must(j.DecodeArg(&d))
						if d.Name != p[i].DB || len(d.Collections) != len(p[i].Collections) {
							e.failf("%+v is queued as %+v", p[i], d)
						}
					}
				}
				if found != 1 {
					e.failf("the job of %+v is queued %d times", p[i], found)
				}
			case errs[i] == kvmem.ErrConflict:
			case p[i].DB == "" && errs[i] != nil:
			case p[i].DB == "d1" && is(errs[i], ddl.ErrDBAlreadyExists):
			case n+len(p) > 101 && is(errs[i], ddl.ErrJobsInQueueExceeded):
			default:
				e.failf("%+v: %v", p[i], errs[i])
			}
		}
		if len(v.queue) != n+queued {
			e.failf("%d requests were queued, the queue went from %d to %d jobs", queued, n, len(v.queue))
		}
		ids := map[int64]bool{}
		for _, j := range v.jobs {
			var d model.DBInfo
			must(j.DecodeArg(&d))
			for _, id := range append([]int64{j.ID, d.ID}, collIDs(&d)...) {
				if ids[id] || id > v.global {
					e.failf("the id %d is used twice, or beyond the last id %d", id, v.global)
				}
				ids[id] = true
			}
		}
		c.Observe("%v %d", errs, len(v.queue))
	})
}

func collIDs(d *model.DBInfo) (ids []int64) {
	for _, c := range d.Collections {
		ids = append(ids, c.ID)
		for _, i := range c.Indices {
			ids = append(ids, i.ID)
		}
	}
	return
}

// likeNames are different names: in case, in blanks, in composition, a prefix of another, only a zero byte apart.
func likeNames() []string {
	return []string{"db", "DB", "Db", "db ", " db", "db\t", "d", "dbs", "db0", "db00", "d\x00b", "db\x00", "\x00", " ", "0", "00", "d.b", "d/b", "d-b", "d_b", "\"db\"", "<db>", "&lt;db>", "\u00e9", "e\u0301", "\u00df", "ss", "\ufffd", "\u2028", "\U0001f600", "null", "ID", "Name", strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("n", 5000)}
}
