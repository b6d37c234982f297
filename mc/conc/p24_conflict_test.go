//go:build conc

package conc

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P24", &hz.Check{Level: "model_checking", Rule: "every combination of the schema version a transaction starts at, the collections it uses, and the number and kind of later schema changes around the size of the change log; every kind of document operation; every schedule of transactions and schema updates up to the stated number of deviations; distinct = distinct outcomes",
		Assume: []string{"schema changes reach the handle the way the domain publishes them: a clone of the current cache with the change applied", "a change published while Commit is running may or may not be noticed", "the change log holds the last 100 changes since the last full load"}, Run: runP24})
}

const p24log = 100

// pub publishes schema changes and remembers what each touched.
type pub struct {
	h    *schema.Handle
	full int64 // version of the last full load

	begun   int64 // the last version whose publication has begun
	done    int64 // the last version published
	touched map[int64][]int64
}

func p24db(name string, ids map[string]int64) *model.DBInfo {
	d := &model.DBInfo{ID: 1000, Name: name, Collections: map[string]*model.CollectionInfo{}}
	for _, n := range []string{"a", "b"} {
		if id, ok := ids[n]; ok {
			d.Collections[n] = &model.CollectionInfo{ID: id, Name: n}
			d.CollectionOrder = append(d.CollectionOrder, n)
		}
	}
	return d
}

func newPub(full int64) *pub {
	p := &pub{h: schema.NewHandle(), full: full, begun: full, done: full, touched: map[int64][]int64{}}
	must(p.h.Update(context.Background(), schema.NewMetaCache(full, []*model.DBInfo{p24db("db", map[string]int64{"a": 1, "b": 2})})))
	return p
}

// publish one change that touches the collections.
func (p *pub) publish(ids ...int64) error {
	v := p.done + 1
	p.begun = v
	p.touched[v] = ids
	d := &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, CollectionIDs: ids}
	raw, err := json.Marshal(p24db(fmt.Sprint("db", v), map[string]int64{"a": 100 + v}))
	must(err)
	d.RawArg = raw
	mc := p.h.Get().Clone()
	if err := mc.ApplyDiffs([]*model.SchemaDiff{d}); err != nil {
		return err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if err := p.h.Update(ctx, mc); err != nil {
		return err
	}
	p.done = v
	return nil
}

// reload publishes the schema from scratch.
func (p *pub) reload() error {
	v := p.done + 1
	p.begun, p.full = v, v
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if err := p.h.Update(ctx, schema.NewMetaCache(v, []*model.DBInfo{p24db("db", map[string]int64{"a": 1, "b": 2})})); err != nil {
		return err
	}
	p.done = v
	return nil
}

// hit: did a change in (from, to] touch one of the collections?
func (p *pub) hit(from, to int64, used []int64) bool {
	for v := from + 1; v <= to; v++ {
		for _, id := range p.touched[v] {
			for _, u := range used {
				if u == id {
					return true
				}
			}
		}
	}
	return false
}

// covers: does the change log reach back to the version?
func (p *pub) covers(from, to int64) bool { return covers(p.full, from, to) }

func covers(full, from, to int64) bool {
	start := full + 1
	if to-p24log+1 > start {
		start = to - p24log + 1
	}
	return from+1 >= start
}

func runP24(r *hz.R) {
	pb := 2
	if !r.Quick {
		pb = 3
	}
	lens := []int{0, 1, 2, 3, 99, 100, 101, 102}
	if !r.Quick {
		lens = []int{0, 1, 2, 3, 4, 50, 98, 99, 100, 101, 102, 103, 199, 200, 201}
	}
	// one transaction against histories of schema changes
	r.ExploreProc("windows", 0, func(c *ex.Ctx) {
		before := []int{0, 1, 2, 99, 100, 101}[c.Choose(6)]
		after := lens[c.Choose(len(lens))]
		used := [][]int64{nil, {1}, {2}, {1, 2}, {9}}[c.Choose(5)]
		// where the change is that touches collection 1
		at := -1
		if after > 0 {
			switch c.Choose(4) {
			case 1:
				at = 0
			case 2:
				at = after - 1
			case 3:
				at = after / 2
			}
		}
		full := c.Choose(2) == 1 && after > 0 // a full load in between
		fault := c.Choose(3)                  // 1: the storage refuses the commit, 2: nothing was written
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			p := newPub(int64(1 + c.Choose(2)*6))
			for i := 0; i < before; i++ {
				must(p.publish(50))
			}
			tx := txn.NewTxn(p.h, true, kvdb)
			defer tx.Discard()
			start := p.done
			if v := tx.StartMetaCache().Version(); v != start {
				e.failf("the transaction starts at version %d, published is %d", v, start)
			}
			tx.ReferredCollections(used...)
			if fault != 2 {
				must(tx.Set([]byte("k"), []byte("v"), nil))
			}
			cancels := [2]int{}
			tx.AddCancelFunc(func() { cancels[0]++ })
			tx.AddCancelFunc(func() { cancels[1]++ })
			for i := 0; i < after; i++ {
				ids := []int64{50, 51}
				if i == at {
					ids = []int64{50, 1, 51}
				}
				if full && i == after/2 {
					// what the skipped changes touched cannot be seen in a full load
					must(p.reload())
					p.touched[p.done] = ids
					continue
				}
				must(p.publish(ids...))
			}
			if fault == 1 {
				kvdb.Hook = func(op *kvmem.Op) error {
					if op.Kind == kvmem.KCommit {
						return kvmem.ErrInjected
					}
					return nil
				}
			}
			err := tx.Commit()
			kvdb.Hook = nil
			covered := p.covers(start, p.done)
			want := error(nil)
			if p.hit(start, p.done, used) {
				want = txn.ErrDDLConflict
			} else if fault == 1 {
				want = kvmem.ErrInjected
			}
			if err == txn.ErrDDLConflict && !covered {
				want = err // may be refused
			}
			if err != want {
				e.failf("started at %d, last full load %d, now %d, change of collection 1 at %d, used %v: commit returned %v, expected %v", start, p.full, p.done, start+int64(at)+1, used, err, want)
			}
			n := 0
			if want != nil {
				n = 1
			}
			if cancels != [2]int{n, n} {
				e.failf("commit returned %v, the cancel actions ran %v times", err, cancels)
			}
			_, _, gerr := kvdb.Get([]byte("k"))
			if (gerr == nil) != (err == nil && fault != 2) {
				e.failf("commit returned %v, reading what it wrote %v", err, gerr)
			}
			if err == txn.ErrDDLConflict {
				if err := tx.Commit(); err != txn.ErrDDLConflict || cancels != [2]int{1, 1} {
					e.failf("committing again after a schema conflict returned %v, the cancel actions ran %v times", err, cancels)
				}
			}
			// nothing is left locked
			must(p.publish(50))
			t2 := txn.NewTxn(p.h, true, kvdb)
			defer t2.Discard()
			t2.ReferredCollections(1)
			must(t2.Set([]byte("k2"), nil, nil))
			if err := t2.Commit(); err != nil {
				e.failf("a later transaction: %v", err)
			}
			if cancels != [2]int{n, n} {
				e.failf("the cancel actions ran again")
			}
			c.Observe("%v %v", want, covered)
		})
	})
	// a commit while the next changes are applied to a clone of the schema, not yet published
	batches := []int{1, 2, 99, 100, 101}
	r.ExploreProc("between", 0, func(c *ex.Ctx) {
		before := []int{0, 1, 99, 100, 101}[c.Choose(5)]
		after := []int{0, 1, 2, 50, 99, 100}[c.Choose(6)]
		batch := batches[c.Choose(len(batches))]
		at := []int{-1, 0, after / 2, after - 1}[c.Choose(4)] // of the changes after the start
		bat := []int{-1, 0, batch / 2, batch - 1}[c.Choose(4)]
		broken := c.Choose(2) == 1 // the last of the changes cannot be applied
		plain(c, func(e *env) {
			p := newPub(1)
			kvdb := kvmem.New()
			for i := 0; i < before; i++ {
				must(p.publish(50))
			}
			var ts [2]*txn.Txn
			for i := range ts {
				ts[i] = txn.NewTxn(p.h, true, kvdb)
				defer ts[i].Discard()
				ts[i].ReferredCollections(1)
				must(ts[i].Set([]byte(fmt.Sprint("k", i)), nil, nil))
			}
			start := p.done
			for i := 0; i < after; i++ {
				if i == at {
					must(p.publish(50, 1))
				} else {
					must(p.publish(51))
				}
			}
			var ds []*model.SchemaDiff
			touched := map[int64][]int64{}
			for i := 0; i < batch; i++ {
				v := p.done + 1 + int64(i)
				d := &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, CollectionIDs: []int64{60}}
				if i == bat {
					d.CollectionIDs = []int64{1}
				}
				touched[v] = d.CollectionIDs
				d.RawArg = []byte(fmt.Sprintf(`{"ID":%d,"Name":"db%d"}`, 5000+v, v))
				ds = append(ds, d)
			}
			if broken {
				ds[batch-1].RawArg = []byte("{")
			}
			mc := p.h.Get().Clone()
			if err := mc.ApplyDiffs(ds); (err != nil) != broken {
				e.failf("applying %d changes (the last one broken: %v) returned %v", batch, broken, err)
			}
			commit := func(i int, when string) {
				err := ts[i].Commit()
				hit := p.hit(start, p.done, []int64{1})
				ok := err == nil && !hit || err == txn.ErrDDLConflict && (hit || !p.covers(start, p.done))
				if !ok {
					e.failf("%s: started at %d, published %d, collection 1 changed in between: %v: commit returned %v", when, start, p.done, hit, err)
				}
				c.Observe("%v", err)
			}
			commit(0, fmt.Sprintf("%d changes wait to be published", batch))
			if !broken {
				must(p.h.Update(context.Background(), mc))
				p.done += int64(batch)
				for v, ids := range touched {
					p.touched[v] = ids
				}
			}
			commit(1, "after that")
		})
	})
	// transactions that use many collections
	counts := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 200, 256, 257}
	r.ExploreProc("many collections", 0, func(c *ex.Ctx) {
		n := counts[c.Choose(len(counts))]
		group := []int{1, 2, 3, n}[c.Choose(4)] // ids per call
		twice := c.Choose(2) == 1               // some calls are repeated
		changed := 1 + c.Choose(3)              // ids per change
		pos := c.Choose(changed)                // where in it the used one is
		k := c.Choose(n + 1)                    // the used collection that changes, n: none
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			p := newPub(1)
			tx := txn.NewTxn(p.h, true, kvdb)
			defer tx.Discard()
			id := func(i int) int64 { return int64(1000 + i*7%(4*n+1)) }
			for i := 0; i < n; i += group {
				var ids []int64
				for j := i; j < i+group && j < n; j++ {
					ids = append(ids, id(j))
				}
				tx.ReferredCollections(ids...)
				if twice {
					tx.ReferredCollections(ids[:1]...)
				}
			}
			tx.ReferredCollections()
			must(tx.Set([]byte("k"), []byte("v"), nil))
			ids := []int64{900, 901, 902}[:changed]
			if k < n {
				ids[pos] = id(k)
			}
			must(p.publish(ids...))
			err := tx.Commit()
			if (err == txn.ErrDDLConflict) != (k < n) || (err != nil) != (k < n) {
				e.failf("%d collections in calls of %d (repeated: %v), a change touches %v (collection %d of them): commit returned %v", n, group, twice, ids, k, err)
			}
			_, _, gerr := kvdb.Get([]byte("k"))
			if (gerr == nil) != (err == nil) {
				e.failf("commit returned %v, reading what it wrote %v", err, gerr)
			}
			c.Observe("%v", err)
		})
	})
	// before the first schema, and read-only transactions
	r.ExploreProc("no schema", 0, func(c *ex.Ctx) {
		update, publish := c.Choose(2) == 1, c.Choose(2) == 1
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			p := &pub{h: schema.NewHandle(), touched: map[int64][]int64{}}
			tx := txn.NewTxn(p.h, update, kvdb)
			defer tx.Discard()
			if update {
				must(tx.Set([]byte("k"), nil, nil))
			}
			if publish {
				must(p.h.Update(context.Background(), schema.NewMetaCache(1, nil)))
				p.done, p.begun, p.full = 1, 1, 1
			}
			err := tx.Commit()
			// nothing was used: may be refused if there was a change, must not be otherwise
			if err != nil && (err != txn.ErrDDLConflict || !update || !publish) {
				e.failf("update=%v, first schema published meanwhile=%v: commit returned %v", update, publish, err)
			}
			must(p.h.Update(context.Background(), schema.NewMetaCache(2, nil)))
			c.Observe("%v", err)
		})
	})
	// every document operation counts as a use
	ops := []struct {
		name string
		f    func(cl *dml.Collection, t *txn.Txn) error
	}{
		{"InsertOne", func(cl *dml.Collection, t *txn.Txn) error { _, err := cl.InsertOne(bson.M{"x": 1}, t); return err }},
		{"InsertOneManaged", func(cl *dml.Collection, t *txn.Txn) error { return cl.InsertOneManaged(70, bson.M{"x": 1}, t) }},
		{"UpdateOne", func(cl *dml.Collection, t *txn.Txn) error { _, err := cl.UpdateOne(1, bson.M{"x": 2}, t); return err }},
		{"UpdateOne absent", func(cl *dml.Collection, t *txn.Txn) error {
			_, err := cl.UpdateOne(99, bson.M{"x": 2}, t)
			return err
		}},
		{"UpsertOne", func(cl *dml.Collection, t *txn.Txn) error { _, err := cl.UpsertOne(1, bson.M{"x": 2}, t); return err }},
		{"DeleteOne", func(cl *dml.Collection, t *txn.Txn) error { return cl.DeleteOne(1, t) }},
		{"GetOne", func(cl *dml.Collection, t *txn.Txn) error { var d bson.M; return cl.GetOne(1, &d, t) }},
		{"GetMany", func(cl *dml.Collection, t *txn.Txn) error { var d []bson.M; return cl.GetMany([]int64{1}, &d, t) }},
		{"GetAll", func(cl *dml.Collection, t *txn.Txn) error { var d []bson.M; return cl.GetAll(&d, t) }},
		{"Count", func(cl *dml.Collection, t *txn.Txn) error { _, err := cl.Count(t); return err }},
		{"GetDidRange", func(cl *dml.Collection, t *txn.Txn) error { _, _, err := cl.GetDidRange(t); return err }},
		{"DeleteAll", func(cl *dml.Collection, t *txn.Txn) error { _, err := cl.DeleteAll(t); return err }},
		{"GetIndices", func(cl *dml.Collection, t *txn.Txn) error { _, err := cl.GetIndices(t); return err }},
	}
	r.ExploreProc("operations", 0, func(c *ex.Ctx) {
		o1, o2 := c.Choose(len(ops)), c.Choose(len(ops))
		touch := [][]int64{{50}, {1}, {2}, {50, 2}, {2, 1}}[c.Choose(5)]
		second := c.Choose(2) == 1 // a later change that touches nothing
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			resetSequences()
			newSequence(kvdb, 1000, 1, 10)
			newSequence(kvdb, 1000, 2, 10)
			p := newPub(1)
			db, err := dml.NewDB("db", kvdb, p.h)
			must(err)
			a, err := db.Collection("a")
			must(err)
			b, err := db.Collection("b")
			must(err)
			for _, cl := range []*dml.Collection{a, b} {
				if did, err := cl.InsertOne(bson.M{"x": 0}, nil); err != nil || did != 1 {
					e.failf("inserting: %d, %v", did, err)
				}
			}
			tx := db.Txn(true)
			defer tx.Discard()
			if err := ops[o1].f(a, tx); err != nil {
				e.failf("%s: %v", ops[o1].name, err)
			}
			if err := ops[o2].f(b, tx); err != nil {
				e.failf("%s: %v", ops[o2].name, err)
			}
			must(tx.Set([]byte("mark"), nil, nil))
			must(p.publish(touch...))
			if second {
				must(p.publish(50))
			}
			before := kvdb.Snapshot().Key()
			err = tx.Commit()
			if hit := p.hit(1, p.done, []int64{1, 2}); hit != (err == txn.ErrDDLConflict) || hit != (err != nil) {
				e.failf("%s on collection 1, %s on collection 2, changes of %v: commit returned %v", ops[o1].name, ops[o2].name, touch, err)
			}
			if err != nil && kvdb.Snapshot().Key() != before {
				e.failf("%s, %s: the refused commit wrote something", ops[o1].name, ops[o2].name)
			}
			if _, _, gerr := kvdb.Get([]byte("mark")); (gerr == kv.ErrKeyNotFound) != (err != nil) {
				e.failf("the commit returned %v, reading: %v", err, gerr)
			}
			must(p.publish(50))
			c.Observe("%v", err)
		})
	})
	// transactions and schema updates at once
	r.ExploreProc("schedules", pb, func(c *ex.Ctx) {
		ntx := 1 + c.Choose(2)
		kinds := [2]int{c.Choose(4), c.Choose(4)}
		faults := c.Choose(2)
		bubble(c, func(e *env) {
			kvdb := e.db(nil)
			p := newPub(1)
			e.faults = faults
			e.onOp = func(op *kvmem.Op) error {
				if op.Kind == kvmem.KCommit && op.Writes > 0 && e.fault("commit fails") {
					return kvmem.ErrInjected
				}
				return nil
			}
			var outs [2]string
			e.noFault["schema"] = true
			e.s.Go("schema", func() {
				for _, k := range kinds {
					// stored first, then published, as the domain does
					must(kvdb.Set([]byte("version"), []byte{byte(p.done + 1)}, nil))
					var err error
					switch k {
					case 0:
						err = p.publish(50)
					case 1:
						err = p.publish(1)
					case 2:
						err = p.publish(2, 3)
					case 3:
						p.touched[p.done+1] = []int64{1}
						err = p.reload()
					}
					if err != nil {
						e.failf("publishing: %v", err)
					}
				}
			})
			for i := 0; i < ntx; i++ {
				i := i
				e.s.Go(fmt.Sprint("txn", i), func() {
					lo := p.done
					tx := txn.NewTxn(p.h, true, kvdb)
					defer tx.Discard()
					start := tx.StartMetaCache().Version()
					if start < lo || start > p.begun {
						e.failf("the transaction starts at version %d, published are %d to %d", start, lo, p.begun)
					}
					v, _, err := tx.Get([]byte("version"))
					stored := int64(1)
					if err == nil {
						stored = int64(v[0])
					}
					if stored < start {
						e.failf("the transaction has the schema %d and data from when it was %d", start, stored)
					}
					used := []int64{int64(i + 1)}
					tx.ReferredCollections(used...)
					must(tx.Set([]byte{'k', byte(i)}, nil, nil))
					cancels := 0
					tx.AddCancelFunc(func() { cancels++ })
					before := p.done
					fb := e.faults
					err = tx.Commit()
					n := 1
					switch err {
					case nil:
						n = 0
						if p.hit(start, before, used) {
							e.failf("started at %d, version %d was published when the commit began, used %v, changes %v: committed", start, before, used, p.touched)
						}
					case txn.ErrDDLConflict:
						if !p.hit(start, p.begun, used) && p.covers(start, p.begun) {
							e.failf("started at %d, now %d, used %v, changes %v, full load %d: refused", start, p.begun, used, p.touched, p.full)
						}
					case kvmem.ErrInjected:
						if e.faults == fb {
							e.failf("failure reported without one")
						}
					case kvmem.ErrConflict:
					default:
						e.failf("commit: %v", err)
					}
					if cancels != n {
						e.failf("commit returned %v and ran the cancel action %d times", err, cancels)
					}
					outs[i] = fmt.Sprint(err)
				})
			}
			e.run()
			for i := 0; i < ntx; i++ {
				_, _, err := kvmem.FromSnap(kvdb.Snapshot()).Get([]byte{'k', byte(i)})
				if (err == nil) != (outs[i] == "<nil>") {
					e.failf("transaction %d: %s, reading what it wrote %v", i, outs[i], err)
				}
			}
			e.s.Go("last", func() {
				if err := p.publish(50); err != nil {
					e.failf("publishing at the end: %v", err)
				}
			})
			e.run()
			c.Observe("%v %v", kinds, outs)
		})
	})
}
