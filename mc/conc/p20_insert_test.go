//go:build conc

package conc

import (
	"fmt"

	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/txn"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P20", &hz.Check{Level: "model_checking", Rule: "every schedule, up to the stated number of deviations (preemptions and failing storage operations), of two or three threads inserting alone, in explicit transactions, under ids of their own choice and across a schema change, with leases of two ids; every document operation in transactions older than the collection and in read-only ones; distinct = distinct outcomes",
		Assume: []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04); a commit that fails wrote nothing", "ids chosen by the application lie apart from those the store assigns"}, Run: runP20})
}

const ownID = 500

type inserted struct {
	coll int
	did  int64
	doc  string
}

// insWorld collects what the threads did.
type insWorld struct {
	e     *env
	db    *dml.DB
	colls [2]*dml.Collection
	p     *pub
	got   []inserted
	// documents under ids chosen by the application
	created int      // how many times one was reported new
	ownDocs []string // what was stored there
	failed  int
}

func (w *insWorld) insert(coll int, name string, t *txn.Txn) (inserted, error) {
	d := bson.M{"by": name}
	did, err := w.colls[coll].InsertOne(d, t)
	if err == nil && (did <= 0 || did >= ownID) {
		w.e.failf("%s: insert returned the id %d", name, did)
	}
	return inserted{coll, did, docStr(d)}, err
}

func (w *insWorld) ok(name string, err error, faults int, version int64) bool {
	switch {
	case err == nil:
		return true
	case err == kvmem.ErrInjected && w.e.faults < faults:
	case err == txn.ErrDDLConflict && w.p.begun > version:
	case err == kvmem.ErrConflict && len(name) > 3 && name[len(name)-3:] == "own":
	default:
		w.e.failf("%s: %v", name, err)
	}
	w.failed++
	return false
}

// programs of a thread.
var insProgs = []struct {
	name string
	f    func(w *insWorld, me string)
}{
	{"two inserts", func(w *insWorld, me string) {
		for i := 0; i < 2; i++ {
			fb, v := w.e.faults, w.p.done
			n := fmt.Sprint(me, i)
			r, err := w.insert(0, n, nil)
			if w.ok(n, err, fb, v) {
				w.got = append(w.got, r)
			}
		}
	}},
	{"one insert", func(w *insWorld, me string) {
		fb, v := w.e.faults, w.p.done
		r, err := w.insert(0, me, nil)
		if w.ok(me, err, fb, v) {
			w.got = append(w.got, r)
		}
	}},
	{"two inserts in a transaction", func(w *insWorld, me string) { w.txn(me, []int{0, 0}, true, false) }},
	{"a transaction over two collections", func(w *insWorld, me string) { w.txn(me, []int{0, 1}, true, false) }},
	{"a discarded transaction, then an insert", func(w *insWorld, me string) {
		w.txn(me+"d", []int{0}, false, false)
		fb, v := w.e.faults, w.p.done
		r, err := w.insert(0, me, nil)
		if w.ok(me, err, fb, v) {
			w.got = append(w.got, r)
		}
	}},
	{"managed insert", func(w *insWorld, me string) { w.own(me+"own", nil, false) }},
	{"upsert", func(w *insWorld, me string) { w.own(me+"own", nil, true) }},
	{"insert and managed insert in a transaction", func(w *insWorld, me string) { w.txn(me+"own", []int{0}, true, true) }},
}

// own stores a document under an id of its own choice.
func (w *insWorld) own(me string, t *txn.Txn, upsert bool) {
	d := bson.M{"by": me}
	fb, v := w.e.faults, w.p.done
	var isNew bool
	var err error
	if upsert {
		isNew, err = w.colls[0].UpsertOne(ownID, d, t)
	} else {
		err = w.colls[0].InsertOneManaged(ownID, d, t)
		isNew = err == nil
	}
	if !upsert && err == dml.ErrDocExists {
		return
	}
	if w.ok(me, err, fb, v) {
		if isNew {
			w.created++
		}
		w.ownDocs = append(w.ownDocs, docStr(d))
	}
}

func (w *insWorld) txn(me string, colls []int, commit, own bool) {
	fb, v := w.e.faults, w.p.done
	t := w.db.Txn(true)
	defer t.Discard()
	var rs []inserted
	for i, cl := range colls {
		n := fmt.Sprint(me, i)
		r, err := w.insert(cl, n, t)
		if !w.ok(n, err, fb, v) {
			return
		}
		rs = append(rs, r)
		for _, o := range rs[:i] {
			if o.coll == r.coll && o.did == r.did {
				w.e.failf("%s: both inserts of the transaction got the id %d", me, r.did)
			}
		}
	}
	d := bson.M{"by": me}
	did := false
	if own {
		err := w.colls[0].InsertOneManaged(ownID, d, t)
		if err != dml.ErrDocExists {
			if !w.ok(me, err, fb, v) {
				return
			}
			did = true
		}
	}
	if !commit {
		return
	}
	if w.ok(me, t.Commit(), fb, v) {
		w.got = append(w.got, rs...)
		if did {
			w.created++
			w.ownDocs = append(w.ownDocs, docStr(d))
		}
	}
}

// check what is stored against what was reported.
func (w *insWorld) check(when string) {
	e := w.e
	want := [2]map[int64]string{{}, {}}
	for _, r := range w.got {
		if o, dup := want[r.coll][r.did]; dup {
			e.failf("%s: %s and %s were both reported stored under the id %d", when, o, r.doc, r.did)
		}
		want[r.coll][r.did] = r.doc
	}
	for i, cl := range w.colls {
		n := len(want[i])
		if i == 0 && len(w.ownDocs) > 0 {
			n++
		}
		have, err := cl.Count(nil)
		if err != nil || have != n {
			e.failf("%s: collection %d has %d documents, %v; %d were reported stored: %v", when, i, have, err, n, w.got)
		}
		for did, doc := range want[i] {
			var d bson.M
			if err := cl.GetOne(did, &d, nil); err != nil || docStr(d) != doc {
				e.failf("%s: %s was reported stored under %d, there is %v, %v", when, doc, did, d, err)
			}
		}
	}
	var d bson.M
	err := w.colls[0].GetOne(ownID, &d, nil)
	if len(w.ownDocs) == 0 {
		if err != dml.ErrDocNotFound {
			e.failf("%s: nobody stored a document under %d, there is %v, %v", when, ownID, d, err)
		}
		return
	}
	if w.created != 1 {
		e.failf("%s: %d operations report having created the document %d", when, w.created, ownID)
	}
	for _, o := range w.ownDocs {
		if err == nil && docStr(d) == o {
			return
		}
	}
	e.failf("%s: the documents %v were stored under %d, there is %v, %v", when, w.ownDocs, ownID, d, err)
}

func runP20(r *hz.R) {
	pb, depth := 2, 5
	if !r.Quick {
		pb, depth = 3, 7
	}
	run := func(c *ex.Ctx, progs []int, schemaChange bool, bw int64, faults int, onlyCommits bool) {
		bubble(c, func(e *env) {
			kvdb := e.db(nil)
			w := &insWorld{e: e, p: newPub(1)}
			resetSequences()
			for _, id := range []int64{1, 2} {
				newSequence(kvdb, 1000, id, bw)
			}
			defer func() {
				kvdb.Hook = nil // later executions must not run into it
			}()
			var err error
			w.db, err = dml.NewDB("db", kvdb, w.p.h)
			must(err)
			for i, n := range []string{"a", "b"} {
				w.colls[i], err = w.db.Collection(n)
				must(err)
			}
			e.noFault["schema"] = true
			e.faults = faults
			e.onOp = func(op *kvmem.Op) error {
				switch op.Kind {
				case kvmem.KCommit:
					if op.Writes > 0 && e.fault("commit fails") {
						return kvmem.ErrInjected
					}
				case kvmem.KGet, kvmem.KExists, kvmem.KSet:
					if !onlyCommits && e.fault(string(op.Kind)+" fails") {
						return kvmem.ErrInjected
					}
				}
				return nil
			}
			for i, k := range progs {
				i, k := i, k
				e.s.Go(fmt.Sprint("t", i), func() { insProgs[k].f(w, fmt.Sprint("t", i)) })
			}
			if schemaChange {
				e.s.Go("schema", func() { must(w.p.publish(1)) })
			}
			e.run()
			e.faults = 0
			w.check("at the end")
			// ids given back by failed inserts serve later ones
			for i := 0; i < 3; i++ {
				for cl := range w.colls {
					n := fmt.Sprint("later", cl, i)
					r, err := w.insert(cl, n, nil)
					if err != nil {
						e.failf("a later insert: %v", err)
					}
					w.got = append(w.got, r)
				}
			}
			w.check("after later inserts")
			c.Observe("%v %v %v", w.got, w.ownDocs, w.failed)
		})
	}
	np := len(insProgs)
	r.ExploreProc("two threads", pb, func(c *ex.Ctx) {
		a := c.Choose(np)
		b := a + c.Choose(np-a)
		run(c, []int{a, b}, false, 2, 0, true)
	})
	r.ExploreProc("failing commits", pb, func(c *ex.Ctx) {
		a := c.Choose(5)
		b := a + c.Choose(5-a)
		run(c, []int{a, b}, false, 2, 2, true)
	})
	r.ExploreProc("failing operations", pb, func(c *ex.Ctx) {
		a := c.Choose(np)
		b := a + c.Choose(np-a)
		run(c, []int{a, b}, false, 1, 1, false)
	})
	r.ExploreProc("schema change", pb, func(c *ex.Ctx) {
		a := c.Choose(3)
		b := a + c.Choose(3-a)
		run(c, []int{a + 1, b + 1}, true, 2, 1, true)
	})
	r.ExploreProc("three threads", pb-1, func(c *ex.Ctx) {
		a := c.Choose(3)
		b := a + c.Choose(3-a)
		d := b + c.Choose(3-b)
		run(c, []int{a, b, d}, c.Choose(2) == 1, 2, 1, true)
	})
	r.ExploreProc("several stores", 0, func(c *ex.Ctx) {
		a, b := schemaIn("d", "a", "b"), schemaIn("d", "a")
		// one schedule of the creations, every history after them
		ddlStores(c, [][]ddl.CreateSchemaInput{{a}, {b}}, -depth)
	})
	// transactions that must refuse
	r.ExploreProc("refused", 0, func(c *ex.Ctx) {
		op, when, explicit := c.Choose(6), c.Choose(3), c.Choose(2) == 1
		update := c.Choose(2) == 1
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			w := &insWorld{e: e, p: newPub(1)}
			var err error
			w.db, err = dml.NewDB("db", kvdb, w.p.h)
			must(err)
			begin := func(at int) *txn.Txn {
				if explicit && when == at {
					return w.db.Txn(update)
				}
				return nil
			}
			t := begin(0)
			must(w.p.publish(102)) // db2 with collection 102
			if t == nil {
				t = begin(1)
			}
			must(w.p.publish(50))
			if t == nil {
				t = begin(2)
			}
			resetSequences()
			newSequence(kvdb, 1002, 102, 2)
			db2, err := dml.NewDB("db2", kvdb, w.p.h)
			must(err)
			cl, err := db2.Collection("a")
			must(err)
			// what the schema of the transaction knows
			known := t == nil || when > 0
			before := kvdb.Snapshot().Key()
			d := bson.M{"x": "y"}
			var did int64 = ownID
			switch op {
			case 0:
				did, err = cl.InsertOne(d, t)
			case 1:
				err = cl.InsertOneManaged(did, d, t)
			case 2:
				_, err = cl.UpsertOne(did, d, t)
			case 3:
				_, err = cl.UpdateOne(did, d, t)
			case 4:
				err = cl.DeleteOne(did, t)
			case 5:
				var n int
				n, err = cl.DeleteAll(t)
				if n != 0 {
					e.failf("%d documents deleted from an empty collection", n)
				}
			}
			name := []string{"insert", "managed insert", "upsert", "update", "delete", "delete all"}[op]
			writes := op <= 2 || op == 4
			switch {
			case !known:
				if err != dml.ErrCollectionNotExists {
					e.failf("%s in a transaction older than the collection: %v", name, err)
				}
			case t != nil && !update && writes:
				if err == nil {
					e.failf("%s in a read-only transaction succeeded", name)
				}
			default:
				if err != nil {
					e.failf("%s: %v", name, err)
				}
			}
			failed := err != nil
			if t != nil {
				if err := t.Commit(); err != nil {
					e.failf("commit after %s (%v): %v", name, failed, err)
				}
				t.Discard()
			}
			var got bson.M
			gerr := cl.GetOne(did, &got, nil)
			if failed || op >= 3 {
				if gerr != dml.ErrDocNotFound && did != 0 {
					e.failf("%s failed or wrote nothing, there is %v, %v", name, got, gerr)
				}
				if n, err := cl.Count(nil); n != 0 || err != nil {
					e.failf("%s failed or wrote nothing, there are %d documents, %v", name, n, err)
				}
				if !failed && op > 2 || !known {
					if kvdb.Snapshot().Key() != before {
						e.failf("%s changed the database", name)
					}
				}
			} else if gerr != nil || docStr(got) != docStr(d) {
				e.failf("%s reported success, there is %v, %v", name, got, gerr)
			}
			c.Observe("%v %v %v", op, known, failed)
		})
	})
}
