//go:build conc

package conc

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/vsched"
	"github.com/zhiqiangxu/util/osc"
	"go.mongodb.org/mongo-driver/bson"

	"mc/kvmem"
)

// dw is a document database whose schema changes are explored.
type dw struct {
	e    *env
	kvdb *kvmem.DB
	do   *domain.Domain
	reqs []*ddlReq
	// names of databases reported as created
	created map[string]*ddlReq
	extra   map[int64]string // ids drawn directly
	maxID   int64
}

type ddlReq struct {
	in   ddl.CreateSchemaInput
	job  *model.Job
	err  error
	done bool
}

// seqRef is a document id sequence, or all up to an id, that the process keeps.
type seqRef struct {
	kvdb mondis.KVDB
	cid  int64
	all  bool
}

var seqRefs []seqRef

// newSequence creates the document id sequence of a collection.
func newSequence(kvdb mondis.KVDB, dbID, cid, bandwidth int64) {
	seqRefs = append(seqRefs, seqRef{kvdb, cid, false})
	must(dml.CreateSequence(kvdb, dbID, cid, bandwidth))
}

// resetSequences forgets the process-wide document id sequences, without touching storage.
func resetSequences() {
	for _, r := range seqRefs {
		if d, ok := r.kvdb.(*kvmem.DB); ok {
			d.Kill()
		}
		_ = dml.DropSequenceIfExists(r.kvdb, r.cid)
		for cid := int64(1); r.all && cid < r.cid; cid++ {
			_ = dml.DropSequenceIfExists(r.kvdb, cid)
		}
	}
	seqRefs = nil
}

// usedCID is beyond any collection id of the scenario.
var usedCID int64 = 60

func newDW(e *env) *dw {
	return &dw{e: e, created: map[string]*ddlReq{}, extra: map[int64]string{}}
}

// boot starts a process on what is stored, after the end of any earlier one.
func (w *dw) boot(snap kvmem.Snap) {
	resetSequences()
	w.open(snap)
}

// open starts the document database beside whatever else the process has open.
func (w *dw) open(snap kvmem.Snap) {
	w.kvdb = w.e.db(snap)
	seqRefs = append(seqRefs, seqRef{w.kvdb, usedCID, true})
	f, cr := w.e.faults, w.e.crashes
	w.e.faults, w.e.crashes = 0, 0
	w.do = domain.NewDomain(w.kvdb)
	if err := w.do.Init(); err != nil {
		w.e.failf("the domain cannot be opened: %v", err)
	}
	w.e.faults, w.e.crashes = f, cr
}

func (w *dw) meta(f func(m *meta.Meta)) {
	t := kvmem.FromSnap(w.kvdb.Snapshot()).NewTransaction(true)
	defer t.Discard()
	f(meta.NewMeta(t))
}

// create runs one request and checks that what it reports is usable at once.
func (w *dw) create(in ddl.CreateSchemaInput) *ddlReq {
	q := &ddlReq{in: in}
	w.reqs = append(w.reqs, q)
	q.job, q.err = w.do.DDL().CreateSchema(context.Background(), in)
	q.done = true
	w.e.c.Logf("create %q: %v", in.DB, q.err)
	if q.err != nil {
		return q
	}
	if o := w.created[in.DB]; o != nil {
		w.e.failf("the database %q was created twice", in.DB)
	}
	w.created[in.DB] = q
	me := vsched.Current()
	w.e.noFault[me] = true
	defer delete(w.e.noFault, me)
	db, err := w.do.DB(in.DB)
	if err != nil {
		w.e.failf("the database %q, just created, cannot be used: %v", in.DB, err)
	}
	for _, cn := range in.Collections {
		c, err := db.Collection(cn)
		if err != nil {
			w.e.failf("the collection %s.%s, just created, cannot be used: %v", in.DB, cn, err)
		}
		if n, err := c.Count(nil); err != nil || n != 0 {
			w.e.failf("the collection %s.%s, just created, counts %d, %v", in.DB, cn, n, err)
		}
		did, err := c.InsertOne(bson.M{"m": 1}, nil)
		if err != nil || did <= 0 {
			w.e.failf("inserting into %s.%s, just created: %d, %v", in.DB, cn, did, err)
		}
		var d bson.M
		if err := c.GetOne(did, &d, nil); err != nil {
			w.e.failf("reading from %s.%s, just created: %v", in.DB, cn, err)
		}
		iifs, err := c.GetIndices(nil)
		if err != nil || len(iifs) != len(in.Indices[cn]) {
			w.e.failf("%s.%s lists the indexes %v, %v", in.DB, cn, iifs, err)
		}
		for _, ii := range in.Indices[cn] {
			if _, err := c.Index(ii.Name); err != nil {
				w.e.failf("the index %q of %s.%s: %v", ii.Name, in.DB, cn, err)
			}
		}
	}
	return q
}

// sameDB compares what is stored with what was asked for.
func (w *dw) sameDB(db *model.DBInfo, colls []*model.CollectionInfo, in ddl.CreateSchemaInput) {
	e := w.e
	if db.Name != in.DB || db.State != osc.StatePublic {
		e.failf("the database %q is stored as %+v", in.DB, db)
	}
	if len(db.Collections) != len(in.Collections) || len(colls) != len(in.Collections) || !reflect.DeepEqual(append([]string{}, db.CollectionOrder...), append([]string{}, in.Collections...)) {
		e.failf("the database %q is stored with %v, order %v", in.DB, db.Collections, db.CollectionOrder)
	}
	byName := map[string]*model.CollectionInfo{}
	for _, c := range colls {
		byName[c.Name] = c
	}
	for _, cn := range in.Collections {
		for _, ci := range []*model.CollectionInfo{db.Collections[cn], byName[cn]} {
			if ci == nil || ci.Name != cn || ci.State != osc.StatePublic {
				e.failf("the collection %s.%s is stored as %+v", in.DB, cn, ci)
			}
			if ci.ID != db.Collections[cn].ID {
				e.failf("the collection %s.%s has the ids %d and %d", in.DB, cn, ci.ID, db.Collections[cn].ID)
			}
			want := in.Indices[cn]
			var order []string
			for _, ii := range want {
				order = append(order, ii.Name)
				got := ci.Indices[ii.Name]
				if got == nil || got.Name != ii.Name || got.Unique != ii.Unique || got.State != osc.StatePublic || !reflect.DeepEqual(got.Columns, ii.Columns) {
					e.failf("the index %q of %s.%s is stored as %+v", ii.Name, in.DB, cn, got)
				}
				if got.ID != db.Collections[cn].Indices[ii.Name].ID {
					e.failf("the index %q of %s.%s has two ids", ii.Name, in.DB, cn)
				}
			}
			if len(ci.Indices) != len(want) || strings.Join(ci.IndexOrder, "\x00") != strings.Join(order, "\x00") {
				e.failf("%s.%s is stored with the indexes %v in the order %v", in.DB, cn, ci.Indices, ci.IndexOrder)
			}
		}
	}
}

// verify checks the stored schema against the requests; idle: the queue must have drained.
func (w *dw) verify(idle bool) {
	e := w.e
	w.meta(func(m *meta.Meta) {
		dbs, err := m.ListDatabases()
		must(err)
		jobs, err := m.GetAllHistoryDDLJobs()
		must(err)
		queue, err := m.GetAllDDLJobsInQueue()
		must(err)
		global, err := m.GetGlobalID()
		if err == kv.ErrKeyNotFound {
			global, err = 0, nil
		}
		must(err)
		// ids
		ids := map[int64]string{}
		add := func(id int64, what string) {
			if o, ok := ids[id]; ok {
				e.failf("%s and %s have the same id %d", o, what, id)
			}
			if id <= 0 || id > global {
				e.failf("%s has the id %d, the last global id is %d", what, id, global)
			}
			ids[id] = what
		}
		names := map[string]bool{}
		for _, db := range dbs {
			add(db.ID, "database "+db.Name)
			if names[db.Name] {
				e.failf("two databases are named %q", db.Name)
			}
			names[db.Name] = true
			for _, c := range db.Collections {
				add(c.ID, "collection "+db.Name+"."+c.Name)
				for _, i := range c.Indices {
					add(i.ID, "index "+db.Name+"."+c.Name+"."+i.Name)
				}
			}
		}
		for _, j := range jobs {
			add(j.ID, fmt.Sprint("job ", j.ID))
		}
		for _, j := range queue {
			add(j.ID, fmt.Sprint("queued job ", j.ID))
		}
		for id, what := range w.extra {
			add(id, what)
		}
		if global < w.maxID {
			e.failf("the global id went back from %d to %d", w.maxID, global)
		}
		w.maxID = global
		// requests
		var known []ddl.CreateSchemaInput
		for _, q := range w.reqs {
			known = append(known, q.in)
			if !q.done {
				continue
			}
			if q.err == nil {
				found := false
				for _, db := range dbs {
					if db.Name == q.in.DB {
						found = true
						colls, err := m.ListCollections(db.ID)
						must(err)
						w.sameDB(db, colls, q.in)
					}
				}
				if !found {
					e.failf("the database %q, reported as created, does not exist", q.in.DB)
				}
				n := 0
				for _, j := range jobs {
					if j.ID == q.job.ID {
						n++
						if !j.IsSynced() {
							e.failf("the history has the job of %q in the state %v", q.in.DB, j.State)
						}
					}
				}
				if n != 1 {
					e.failf("the job of %q is in the history %d times", q.in.DB, n)
				}
			}
		}
		for _, db := range dbs {
			colls, err := m.ListCollections(db.ID)
			must(err)
			ok, owned := false, false
			for _, q := range w.reqs {
				if q.in.DB != db.Name {
					continue
				}
				owned = true
				if !q.done || q.err == nil {
					ok = true
					if q.done {
						break
					}
				}
			}
			if !owned {
				e.failf("nobody asked for the database %q", db.Name)
			}
			if !ok {
				e.failf("all requests for the database %q failed and yet it exists", db.Name)
			}
			// complete, whoever's it is
			if len(db.Collections) != len(colls) {
				e.failf("the database %q lists %d collections and stores %d", db.Name, len(db.Collections), len(colls))
			}
		}
		// order: the schema versions of the created databases follow their jobs
		v, err := m.GetSchemaVersion()
		must(err)
		var order []string
		for i := int64(1); i <= v; i++ {
			diff, err := m.GetSchemaDiff(i)
			must(err)
			if diff == nil {
				e.failf("the schema change %d is not recorded", i)
			}
			var d model.DBInfo
			must(diff.DecodeArg(&d))
			order = append(order, d.Name)
		}
		if len(order) != len(dbs) {
			e.failf("%d schema changes for %d databases: %v", len(order), len(dbs), order)
		}
		type jd struct {
			id int64
			db string
		}
		var byJob []jd
		for _, j := range jobs {
			if j.Type != model.ActionCreateSchema {
				continue
			}
			var d model.DBInfo
			must(j.DecodeArg(&d))
			if j.Error == nil && !j.IsSynced() {
				e.failf("job %d ended in the state %v without an error", j.ID, j.State)
			}
			if j.IsSynced() {
				byJob = append(byJob, jd{j.ID, d.Name})
			}
		}
		for _, j := range queue {
			if j.IsDone() {
				var d model.DBInfo
				must(j.DecodeArg(&d))
				byJob = append(byJob, jd{j.ID, d.Name})
			}
		}
		sort.Slice(byJob, func(a, b int) bool { return byJob[a].id < byJob[b].id })
		var want []string
		for _, b := range byJob {
			want = append(want, b.db)
		}
		if strings.Join(want, "\x00") != strings.Join(order, "\x00") {
			e.failf("jobs were submitted in the order %v and executed in the order %v", want, order)
		}
		if idle && len(queue) != 0 {
			e.failf("the queue does not drain: %d jobs, the first is %+v", len(queue), queue[0])
		}
		_ = known
	})
}

// settle lets the process run on for a while.
func (w *dw) settle(d time.Duration) {
	f, cr := w.e.faults, w.e.crashes
	w.e.faults, w.e.crashes = 0, 0
	w.e.s.Go("wait", func() { time.Sleep(d) })
	w.e.run()
	w.e.faults, w.e.crashes = f, cr
}

// runOrCrash schedules the tasks until they end or the process crashes; then everything
// starts again on what is stored.
func (w *dw) runOrCrash() (crashed bool) {
	e := w.e
	e.s.Run(func() bool { return e.crashed })
	e.verdict()
	if !e.crashed {
		return false
	}
	e.s.Kill()
	e.verdict()
	e.crashed = false
	return true
}

func (w *dw) state() string {
	s := ""
	w.meta(func(m *meta.Meta) {
		dbs, err := m.ListDatabases()
		must(err)
		sort.Slice(dbs, func(i, j int) bool { return dbs[i].ID < dbs[j].ID })
		for _, d := range dbs {
			s += fmt.Sprintf("%d=%s/%d ", d.ID, d.Name, len(d.Collections))
		}
		jobs, err := m.GetAllHistoryDDLJobs()
		must(err)
		for _, j := range jobs {
			s += fmt.Sprintf("job %d %v %v ", j.ID, j.State, j.Error)
		}
		for _, q := range w.reqs {
			s += fmt.Sprintf("%q %v %v ", q.in.DB, q.done, q.err)
		}
	})
	return s
}

// sameView: the schema a process works with equals the stored one.
func (w *dw) sameView(do *domain.Domain, snap kvmem.Snap, names []string, colls []string) {
	e := w.e
	t := kvmem.FromSnap(snap).NewTransaction(true)
	defer t.Discard()
	m := meta.NewMeta(t)
	dbs, err := m.ListDatabases()
	must(err)
	v, err := m.GetSchemaVersion()
	must(err)
	stored := map[string]*model.DBInfo{}
	for _, d := range dbs {
		stored[d.Name] = d
	}
	for _, n := range names {
		db, err := do.DB(n)
		d := stored[n]
		if d == nil {
			if err == nil {
				e.failf("the schema in memory has the database %q, the stored one has not", n)
			}
			continue
		}
		if err != nil {
			e.failf("the schema in memory lacks the database %q: %v", n, err)
		}
		tx := db.Txn(false)
		mc := tx.StartMetaCache()
		tx.Discard()
		if mc.Version() != v {
			e.failf("the schema in memory has the version %d, the stored one %d", mc.Version(), v)
		}
		list, err := m.ListCollections(d.ID)
		must(err)
		if len(list) != len(d.Collections) {
			e.failf("%q: %d collections against %d", n, len(list), len(d.Collections))
		}
		for _, c := range list {
			got := mc.CollectionInfo(n, c.Name)
			if !sameColl(got, c) {
				e.failf("the schema in memory has %s.%s as %s, stored is %s", n, c.Name, collStr(got), collStr(c))
			}
		}
		for _, cn := range colls {
			if mc.CheckCollectionExists(n, cn) != (d.Collections[cn] != nil) {
				e.failf("the schema in memory is wrong about the existence of %s.%s", n, cn)
			}
		}
	}
}

func collStr(c *model.CollectionInfo) string {
	if c == nil {
		return "nothing"
	}
	s := fmt.Sprintf("{%d %q %v %v", c.ID, c.Name, c.State, c.IndexOrder)
	for _, n := range c.IndexOrder {
		s += fmt.Sprintf(" %+v", c.Indices[n])
	}
	return s + "}"
}

func sameColl(a, b *model.CollectionInfo) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.Indices) != len(b.Indices) {
		return false
	}
	for n, i := range a.Indices {
		j := b.Indices[n]
		if j == nil || i.ID != j.ID || i.Name != j.Name || i.Unique != j.Unique || i.State != j.State || strings.Join(i.Columns, "\x00") != strings.Join(j.Columns, "\x00") {
			return false
		}
	}
	return collStr(&model.CollectionInfo{ID: a.ID, Name: a.Name, State: a.State, IndexOrder: nil}) == collStr(&model.CollectionInfo{ID: b.ID, Name: b.Name, State: b.State, IndexOrder: nil}) && strings.Join(a.IndexOrder, "\x00") == strings.Join(b.IndexOrder, "\x00")
}

func setLease(d time.Duration) { config.Load().Lease = d }

// crashHook: the process may die around every commit that changes something.
func (e *env) crashHere(op *kvmem.Op) {
	if e.crashes <= 0 || e.crashed {
		return
	}
	if (op.Kind == kvmem.KCommit && op.Writes > 0) || op.Kind == kvmem.KCommitted {
		if e.c.Dev(2) == 1 {
			e.crashes--
			e.crashed = true
			e.c.Logf("CRASH at %s", op.Kind)
			for _, d := range e.dbs {
				d.Kill()
			}
			vsched.Block("crashed", func() bool { return false }, func() {})
		}
	}
}
