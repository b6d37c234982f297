package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P34", &hz.Check{
		Level:  "fault_enumeration",
		Rule:   "every operation of the stated set, alone and after every other one in the same transaction, on every stated content, with every storage operation of it failing (once, or from there on; at the start of a scan, at any of its entries, at its end); compared with the same run without failures; distinct = distinct outcomes",
		Assume: []string{"the storage reports its failures as errors (kvmem, bound to Badger by P01-P04, with the failing operation having no effect)"},
		Run:    runP34,
	})
}

// fop is an operation on a transaction, with a description of its result.
type fop struct {
	name string
	f    func(t mondis.ProviderTxn) (string, error)
}

func strs(l [][]byte) string { return fmt.Sprintf("%q", l) }

func structFops() (out []fop) {
	add := func(name string, f func(t *structure.TxStructure) (string, error)) {
		out = append(out, fop{name, func(t mondis.ProviderTxn) (string, error) { return f(structure.New(t, []byte("p"))) }})
	}
	b := func(s string) []byte { return []byte(s) }
	num := func(n int64, err error) (string, error) { return fmt.Sprint(n), err }
	val := func(v []byte, err error) (string, error) { return fmt.Sprintf("%q %v", v, v == nil), err }
	done := func(err error) (string, error) { return "", err }
	pairs := func(l []structure.HashPair, err error) (string, error) {
		s := ""
		for _, p := range l {
			s += fmt.Sprintf("%q=%q ", p.Field, p.Value)
		}
		return s, err
	}
	for _, k := range []string{"h", "n"} {
		k := k
		for _, fl := range []string{"a", "c", "z"} {
			fl := fl
			add("HSet "+k+" "+fl, func(t *structure.TxStructure) (string, error) { return done(t.HSet(b(k), b(fl), b("5"))) })
			add("HGet "+k+" "+fl, func(t *structure.TxStructure) (string, error) { return val(t.HGet(b(k), b(fl))) })
			add("HInc "+k+" "+fl, func(t *structure.TxStructure) (string, error) { return num(t.HInc(b(k), b(fl), 3)) })
			add("HGetInt64 "+k+" "+fl, func(t *structure.TxStructure) (string, error) { return num(t.HGetInt64(b(k), b(fl))) })
			add("HSetInt64 "+k+" "+fl, func(t *structure.TxStructure) (string, error) { return done(t.HSetInt64(b(k), b(fl), -4)) })
			add("HDel "+k+" "+fl, func(t *structure.TxStructure) (string, error) { return done(t.HDel(b(k), b(fl))) })
		}
		add("HDel "+k+" a z c", func(t *structure.TxStructure) (string, error) { return done(t.HDel(b(k), b("a"), b("z"), b("c"))) })
		add("HDel "+k+" all", func(t *structure.TxStructure) (string, error) {
			return done(t.HDel(b(k), b("a"), b("b"), b("c")))
		})
		add("HLen "+k, func(t *structure.TxStructure) (string, error) { return num(t.HLen(b(k))) })
		add("HKeys "+k, func(t *structure.TxStructure) (string, error) { l, err := t.HKeys(b(k)); return strs(l), err })
		add("HGetAll "+k, func(t *structure.TxStructure) (string, error) { return pairs(t.HGetAll(b(k))) })
		add("HGetN "+k, func(t *structure.TxStructure) (string, error) { return pairs(t.HGetN(b(k), 2)) })
		add("HGetNDesc "+k, func(t *structure.TxStructure) (string, error) { return pairs(t.HGetNDesc(b(k), 2)) })
		add("HClear "+k, func(t *structure.TxStructure) (string, error) { return done(t.HClear(b(k))) })
	}
	for _, k := range []string{"l", "n"} {
		k := k
		add("LPush "+k, func(t *structure.TxStructure) (string, error) { return done(t.LPush(b(k), b("p"), b("q"))) })
		add("RPush "+k, func(t *structure.TxStructure) (string, error) { return done(t.RPush(b(k), b("p"), b("q"))) })
		add("LPop "+k, func(t *structure.TxStructure) (string, error) { return val(t.LPop(b(k))) })
		add("RPop "+k, func(t *structure.TxStructure) (string, error) { return val(t.RPop(b(k))) })
		add("LLen "+k, func(t *structure.TxStructure) (string, error) { return num(t.LLen(b(k))) })
		add("LGetAll "+k, func(t *structure.TxStructure) (string, error) { l, err := t.LGetAll(b(k)); return strs(l), err })
		for _, i := range []int64{0, 1, -1, 7} {
			i := i
			add(fmt.Sprintf("LIndex %s %d", k, i), func(t *structure.TxStructure) (string, error) { return val(t.LIndex(b(k), i)) })
			add(fmt.Sprintf("LSet %s %d", k, i), func(t *structure.TxStructure) (string, error) { return done(t.LSet(b(k), i, b("s"))) })
		}
		add("LClear "+k, func(t *structure.TxStructure) (string, error) { return done(t.LClear(b(k))) })
	}
	for _, k := range []string{"s", "n"} {
		k := k
		add("Set "+k, func(t *structure.TxStructure) (string, error) { return done(t.Set(b(k), b("7"))) })
		add("Get "+k, func(t *structure.TxStructure) (string, error) { return val(t.Get(b(k))) })
		add("Clear "+k, func(t *structure.TxStructure) (string, error) { return done(t.Clear(b(k))) })
		add("GetInt64 "+k, func(t *structure.TxStructure) (string, error) { return num(t.GetInt64(b(k))) })
		add("SetInt64 "+k, func(t *structure.TxStructure) (string, error) { return done(t.SetInt64(b(k), 11)) })
		add("Inc "+k, func(t *structure.TxStructure) (string, error) { return num(t.Inc(b(k), 2)) })
	}
	return
}

func structSnaps() (out []kvmem.Snap) {
	out = append(out, nil)
	for n := 1; n <= 3; n++ {
		db := kvmem.New()
		t := db.NewTransaction(true)
		s := structure.New(t, []byte("p"))
		for i := 0; i < n; i++ {
			_ = s.HSet([]byte("h"), []byte{byte('a' + i)}, []byte(fmt.Sprint(i+1)))
			_ = s.RPush([]byte("l"), []byte(fmt.Sprint("e", i)))
		}
		_ = s.SetInt64([]byte("s"), int64(n))
		_ = s.HSet([]byte("h2"), []byte("a"), []byte("x"))
		_ = s.RPush([]byte("l2"), []byte("x"))
		_ = t.Commit()
		out = append(out, db.Snapshot())
	}
	return
}

func jsn(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func faultJob(id int64) *model.Job {
	return &model.Job{ID: id, Type: model.ActionCreateSchema, Arg: &model.DBInfo{ID: id, Name: fmt.Sprint("j", id)}}
}

func metaFops() (out []fop) {
	add := func(name string, f func(m *meta.Meta) (string, error)) {
		out = append(out, fop{name, func(t mondis.ProviderTxn) (string, error) { return f(meta.NewMeta(t)) }})
	}
	num := func(n int64, err error) (string, error) { return fmt.Sprint(n), err }
	done := func(err error) (string, error) { return "", err }
	any := func(v interface{}, err error) (string, error) { return jsn(v), err }
	add("GetGlobalID", func(m *meta.Meta) (string, error) { return num(m.GetGlobalID()) })
	add("GenGlobalID", func(m *meta.Meta) (string, error) { return num(m.GenGlobalID()) })
	add("GenGlobalIDs", func(m *meta.Meta) (string, error) {
		a, b, err := m.GenGlobalIDs(5)
		return fmt.Sprint(a, b), err
	})
	add("GetSchemaVersion", func(m *meta.Meta) (string, error) { return num(m.GetSchemaVersion()) })
	add("GenSchemaVersion", func(m *meta.Meta) (string, error) { return num(m.GenSchemaVersion()) })
	add("GetBootstrapVersion", func(m *meta.Meta) (string, error) { return num(m.GetBootstrapVersion()) })
	add("FinishBootstrap", func(m *meta.Meta) (string, error) { return done(m.FinishBootstrap(3)) })
	add("ListDatabases", func(m *meta.Meta) (string, error) { return any(m.ListDatabases()) })
	for _, d := range []int64{1, 2, 9} {
		d := d
		n := fmt.Sprint(" ", d)
		add("CreateDatabase"+n, func(m *meta.Meta) (string, error) { return done(m.CreateDatabase(mkDB(d, 1))) })
		add("UpdateDatabase"+n, func(m *meta.Meta) (string, error) { return done(m.UpdateDatabase(mkDB(d, 1))) })
		add("DropDatabase"+n, func(m *meta.Meta) (string, error) { return done(m.DropDatabase(d)) })
		add("GetDatabase"+n, func(m *meta.Meta) (string, error) { return any(m.GetDatabase(d)) })
		add("ListCollections"+n, func(m *meta.Meta) (string, error) { return any(m.ListCollections(d)) })
		for _, c := range []int64{5, 8} {
			c := c
			n := fmt.Sprint(" ", d, " ", c)
			add("CreateCollection"+n, func(m *meta.Meta) (string, error) { return done(m.CreateCollection(d, mkColl(c, 1))) })
			add("UpdateCollection"+n, func(m *meta.Meta) (string, error) { return done(m.UpdateCollection(d, mkColl(c, 1))) })
			add("DropCollection"+n, func(m *meta.Meta) (string, error) { return done(m.DropCollection(d, c, true)) })
			add("DropCollection keeping ids"+n, func(m *meta.Meta) (string, error) { return done(m.DropCollection(d, c, false)) })
			add("GetCollection"+n, func(m *meta.Meta) (string, error) { return any(m.GetCollection(d, c)) })
		}
	}
	for _, v := range []int64{1, 2, 7} {
		v := v
		n := fmt.Sprint(" ", v)
		add("GetSchemaDiff"+n, func(m *meta.Meta) (string, error) { return any(m.GetSchemaDiff(v)) })
		add("SetSchemaDiff"+n, func(m *meta.Meta) (string, error) {
			return done(m.SetSchemaDiff(&model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, Arg: mkDB(v, 0)}))
		})
	}
	for _, key := range []meta.JobListKeyType{meta.DefaultJobListKey, meta.AddIndexJobListKey} {
		key := key
		n := fmt.Sprintf(" %s", key)
		add("EnQueueDDLJob"+n, func(m *meta.Meta) (string, error) { return done(m.EnQueueDDLJob(faultJob(31), key)) })
		add("DDLJobQueueLen"+n, func(m *meta.Meta) (string, error) { return num(m.DDLJobQueueLen(key)) })
		add("GetAllDDLJobsInQueue"+n, func(m *meta.Meta) (string, error) { return any(m.GetAllDDLJobsInQueue(key)) })
		for _, i := range []int64{0, 1, 5} {
			i := i
			add(fmt.Sprint("GetDDLJobByIdx", n, " ", i), func(m *meta.Meta) (string, error) { return any(m.GetDDLJobByIdx(i, key)) })
			add(fmt.Sprint("UpdateDDLJob", n, " ", i), func(m *meta.Meta) (string, error) { return done(m.UpdateDDLJob(i, faultJob(32), key)) })
		}
	}
	add("DeQueueDDLJob", func(m *meta.Meta) (string, error) { return any(m.DeQueueDDLJob()) })
	for _, id := range []int64{21, 22, 29} {
		id := id
		n := fmt.Sprint(" ", id)
		add("AddHistoryDDLJob"+n, func(m *meta.Meta) (string, error) { return done(m.AddHistoryDDLJob(faultJob(id))) })
		add("GetHistoryDDLJob"+n, func(m *meta.Meta) (string, error) { return any(m.GetHistoryDDLJob(id)) })
		add("UpdateDDLReorgStartHandle"+n, func(m *meta.Meta) (string, error) { return done(m.UpdateDDLReorgStartHandle(faultJob(id), 4)) })
		add("UpdateDDLReorgHandle"+n, func(m *meta.Meta) (string, error) { return done(m.UpdateDDLReorgHandle(faultJob(id), 4, 9, 0)) })
		add("RemoveDDLReorgHandle"+n, func(m *meta.Meta) (string, error) { return done(m.RemoveDDLReorgHandle(faultJob(id))) })
		add("GetDDLReorgHandle"+n, func(m *meta.Meta) (string, error) {
			a, b, err := m.GetDDLReorgHandle(faultJob(id))
			return fmt.Sprint(a, b), err
		})
	}
	add("GetAllHistoryDDLJobs", func(m *meta.Meta) (string, error) { return any(m.GetAllHistoryDDLJobs()) })
	for _, n := range []int{0, 1, 9} {
		n := n
		add(fmt.Sprint("GetLastNHistoryDDLJobs ", n), func(m *meta.Meta) (string, error) { return any(m.GetLastNHistoryDDLJobs(n)) })
	}
	return
}

func metaSnaps() (out []kvmem.Snap) {
	out = append(out, nil)
	for n := 1; n <= 2; n++ {
		db := kvmem.New()
		t := db.NewTransaction(true)
		m := meta.NewMeta(t)
		_, _, _ = m.GenGlobalIDs(40)
		_ = m.FinishBootstrap(1)
		for d := int64(1); d <= int64(n); d++ {
			_ = m.CreateDatabase(mkDB(d, 0))
			for c := int64(5); c < 5+int64(n); c++ {
				_ = m.CreateCollection(d, mkColl(c, 0))
			}
			v, _ := m.GenSchemaVersion()
			_ = m.SetSchemaDiff(&model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, Arg: mkDB(d, 0)})
			_ = m.EnQueueDDLJob(faultJob(10 + d))
			_ = m.EnQueueDDLJob(faultJob(15+d), meta.AddIndexJobListKey)
			_ = m.AddHistoryDDLJob(faultJob(20 + d))
			_ = m.UpdateDDLReorgHandle(faultJob(20+d), d, d+7, 0)
		}
		_ = t.Commit()
		out = append(out, db.Snapshot())
	}
	return
}

// faulted runs an operation, with another before it in the same transaction, once without
// failures and once with the k-th storage operation failing.
func faulted(c *ex.Ctx, snaps []kvmem.Snap, fops []fop, firsts []int) {
	snap := snaps[c.Choose(len(snaps))]
	first := firsts[c.Choose(len(firsts))]
	op := fops[c.Choose(len(fops))]
	mode := c.Choose(3) // fails once, from there on, is too big
	run := func(arm func(db *kvmem.DB)) (res string, err error, content string) {
		db := kvmem.FromSnap(snap)
		t := db.NewTransaction(true)
		defer t.Discard()
		if first >= 0 {
			_, _ = fops[first].f(t)
		}
		arm(db)
		res, err = op.f(t)
		db.Hook = nil
		m, derr := dumpTxn(t)
		if derr != nil {
			c.Fail("reading everything: %v", derr)
		}
		return res, err, mapKey(m)
	}
	// the run without failures counts the storage operations
	var kinds []kvmem.Kind
	want, werr, wcontent := run(func(db *kvmem.DB) {
		db.Entries = true
		db.Hook = func(o *kvmem.Op) error { kinds = append(kinds, o.Kind); return nil }
	})
	if len(kinds) == 0 {
		return
	}
	k := c.Choose(len(kinds))
	inj := kvmem.ErrInjected
	if mode == 2 {
		if kinds[k] != kvmem.KSet && kinds[k] != kvmem.KDelete {
			return
		}
		inj = kv.ErrTxnTooBig
	}
	if first >= 0 {
		c.Logf("%s, then", fops[first].name)
	}
	c.Logf("%s, storage operation %d (%s) of %v fails, mode %d", op.name, k, kinds[k], kinds, mode)
	n := 0
	got, gerr, gcontent := run(func(db *kvmem.DB) {
		db.Entries = true
		db.Hook = func(o *kvmem.Op) error {
			n++
			if n == k+1 || (mode == 1 && n > k) {
				return inj
			}
			return nil
		}
	})
	c.Observe("%s %v %v", op.name, kinds[k], gerr)
	switch {
	case gerr != nil && (errors.Is(gerr, inj) || strings.Contains(gerr.Error(), inj.Error())):
		// reported; the caller discards the transaction
	case gerr == werr && (gerr != nil || got == want) && gcontent == wcontent:
		// it made no difference
	default:
		c.Fail("%s: storage operation %d (%s) fails with %v, the answer is %.300q, %v; without the failure %.300q, %v; same effect: %v", op.name, k, kinds[k], inj, got, gerr, want, werr, gcontent == wcontent)
	}
}

func runP34(r *hz.R) {
	all := func(n int) (l []int) {
		for i := -1; i < n; i++ {
			l = append(l, i)
		}
		return
	}
	so, ss := structFops(), structSnaps()
	mo, ms := metaFops(), metaSnaps()
	r.ExploreProc("structures", 0, func(c *ex.Ctx) { faulted(c, ss, so, all(len(so))) })
	r.ExploreProc("documents", 0, func(c *ex.Ctx) { docFaulted(c, dmlWorld, !r.Quick) })
	r.ExploreProc("legacy documents", 0, func(c *ex.Ctx) { docFaulted(c, legacyWorld, !r.Quick) })
	r.ExploreProc("catalogue and jobs", 0, func(c *ex.Ctx) { faulted(c, ms, mo, all(len(mo))) })
}

// fworld is a document database in which one operation meets a failure.
type fworld struct {
	begin  func(update bool) ftx
	ops    []fdop
	read   func(t ftx) string // all documents
	close  func()
	insert func(coll int) // one more document
}

type ftx interface {
	Commit() error
	Discard()
}

type fdop struct {
	name  string
	write bool
	own   bool // only in a transaction of its own
	pre   func()
	f     func(t ftx) (string, error)
}

const fIDs = 6 // documents that can exist

func dmlWorld(kvdb *kvmem.DB) *fworld {
	h := schema.NewHandle()
	info := &model.DBInfo{ID: 1, Name: "d", Collections: map[string]*model.CollectionInfo{"a": {ID: 2, Name: "a"}, "b": {ID: 3, Name: "b"}}, CollectionOrder: []string{"a", "b"}}
	if err := h.Update(context.Background(), schema.NewMetaCache(1, []*model.DBInfo{info})); err != nil {
		panic(err)
	}
	for _, cid := range []int64{2, 3} {
		if err := dml.CreateSequence(kvdb, 1, cid, 2); err != nil {
			panic(err)
		}
	}
	db, err := dml.NewDB("d", kvdb, h)
	if err != nil {
		panic(err)
	}
	var cs []*dml.Collection
	for _, n := range []string{"a", "b"} {
		c, err := db.Collection(n)
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
	}
	T := func(t ftx) *txn.Txn {
		if t == nil {
			return nil
		}
		return t.(*txn.Txn)
	}
	w := &fworld{begin: func(u bool) ftx { return db.Txn(u) }}
	w.read = func(t ftx) string {
		s := ""
		for _, c := range cs {
			for did := int64(1); did <= fIDs+4; did++ {
				var d bson.M
				if err := c.GetOne(did, &d, T(t)); err == nil {
					s += fmt.Sprint(did, d, " ")
				} else if err != dml.ErrDocNotFound {
					panic(err)
				}
			}
			s += ";"
		}
		return s
	}
	w.insert = func(i int) {
		if _, err := cs[i].InsertOne(bson.M{"v": "0"}, nil); err != nil {
			panic(err)
		}
	}
	w.close = func() {
		kvdb.Hook = nil
		_ = dml.DropSequence(kvdb, 2)
		_ = dml.DropSequence(kvdb, 3)
	}
	c := cs[0]
	add := func(name string, write bool, f func(t *txn.Txn) (string, error)) {
		w.ops = append(w.ops, fdop{name: name, write: write, f: func(t ftx) (string, error) { return f(T(t)) }})
	}
	yes := func(b bool, err error) (string, error) { return fmt.Sprint(b), err }
	doc := bson.M{"v": "n"}
	add("InsertOne", true, func(t *txn.Txn) (string, error) { n, err := c.InsertOne(doc, t); return fmt.Sprint(n), err })
	for _, did := range []int64{1, fIDs} {
		did := did
		n := fmt.Sprint(" ", did)
		add("InsertOneManaged"+n, true, func(t *txn.Txn) (string, error) { return "", c.InsertOneManaged(did, doc, t) })
		add("UpdateOne"+n, true, func(t *txn.Txn) (string, error) { return yes(c.UpdateOne(did, doc, t)) })
		add("UpsertOne"+n, true, func(t *txn.Txn) (string, error) { return yes(c.UpsertOne(did, doc, t)) })
		add("DeleteOne"+n, true, func(t *txn.Txn) (string, error) { return "", c.DeleteOne(did, t) })
		add("GetOne"+n, false, func(t *txn.Txn) (string, error) {
			var d bson.M
			err := c.GetOne(did, &d, t)
			return fmt.Sprint(d), err
		})
		add("GetMany 2,"+n, false, func(t *txn.Txn) (string, error) {
			var d []bson.M
			err := c.GetMany([]int64{2, did}, &d, t)
			return fmt.Sprint(d), err
		})
	}
	add("DeleteAll", true, func(t *txn.Txn) (string, error) { n, err := c.DeleteAll(t); return fmt.Sprint(n), err })
	add("Count", false, func(t *txn.Txn) (string, error) { n, err := c.Count(t); return fmt.Sprint(n), err })
	add("GetAll", false, func(t *txn.Txn) (string, error) {
		var d []bson.M
		err := c.GetAll(&d, t)
		return fmt.Sprint(d), err
	})
	add("GetDidRange", false, func(t *txn.Txn) (string, error) { a, b, err := c.GetDidRange(t); return fmt.Sprint(a, b), err })
	return w
}

func legacyWorld(kvdb *kvmem.DB) *fworld {
	db := document.NewDB(kvdb)
	var cs []*document.Collection
	for _, n := range []string{"a", "b"} {
		c, err := db.Collection(n)
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
	}
	T := func(t ftx) mondis.ProviderTxn {
		if t == nil {
			return nil
		}
		return t.(mondis.ProviderTxn)
	}
	idx := func(l []document.IndexDefinition) string {
		s := make([]string, 0, len(l))
		for _, d := range l {
			s = append(s, fmt.Sprint(d))
		}
		return fmt.Sprint(sortedStrs(s))
	}
	w := &fworld{begin: func(u bool) ftx { return kvdb.NewTransaction(u) }, close: func() {}}
	w.read = func(t ftx) string {
		s := ""
		for _, c := range cs {
			for _, did := range append([]int64{0, 1000, 1001, 1002}, someIDs...) {
				if d, err := c.GetOne(did, T(t)); err == nil {
					s += fmt.Sprint(did, d, " ")
				} else if err != document.ErrDocNotFound {
					panic(err)
				}
			}
			s += idx(c.GetIndexes()) + ";"
		}
		return s
	}
	w.insert = func(i int) {
		if _, err := cs[i].InsertOne(bson.M{"v": "0"}, nil); err != nil {
			panic(err)
		}
	}
	c := cs[0]
	if _, err := c.CreateIndex(document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "x"}}}); err != nil {
		panic(err)
	}
	add := func(name string, write bool, f func(t mondis.ProviderTxn) (string, error)) {
		w.ops = append(w.ops, fdop{name: name, write: write, f: func(t ftx) (string, error) { return f(T(t)) }})
	}
	yes := func(b bool, err error) (string, error) { return fmt.Sprint(b), err }
	doc := bson.M{"v": "n"}
	add("InsertOne", true, func(t mondis.ProviderTxn) (string, error) { n, err := c.InsertOne(doc, t); return fmt.Sprint(n), err })
	for _, did := range []int64{1, fIDs} {
		did := did
		n := fmt.Sprint(" ", did)
		add("InsertOneManaged"+n, true, func(t mondis.ProviderTxn) (string, error) { return "", c.InsertOneManaged(did, doc, t) })
		add("UpdateOne"+n, true, func(t mondis.ProviderTxn) (string, error) { return yes(c.UpdateOne(did, doc, t)) })
		add("UpsertOne"+n, true, func(t mondis.ProviderTxn) (string, error) { return yes(c.UpsertOne(did, doc, t)) })
		add("DeleteOne"+n, true, func(t mondis.ProviderTxn) (string, error) { return "", c.DeleteOne(did, t) })
		add("GetOne"+n, false, func(t mondis.ProviderTxn) (string, error) { d, err := c.GetOne(did, t); return fmt.Sprint(d), err })
		add("GetMany 2,"+n, false, func(t mondis.ProviderTxn) (string, error) {
			d, err := c.GetMany([]int64{2, did}, t)
			return fmt.Sprint(d), err
		})
	}
	add("DeleteAll", true, func(t mondis.ProviderTxn) (string, error) { n, err := c.DeleteAll(t); return fmt.Sprint(n), err })
	add("Count", false, func(t mondis.ProviderTxn) (string, error) { n, err := c.Count(t); return fmt.Sprint(n), err })
	own := func(name string, write bool, f func() (string, error)) {
		w.ops = append(w.ops, fdop{name: name, write: write, own: true, f: func(ftx) (string, error) { return f() }})
	}
	for _, n := range []string{"i", "j"} {
		n := n
		own("CreateIndex "+n, true, func() (string, error) {
			id, err := c.CreateIndex(document.IndexDefinition{Name: n, Fields: []document.IndexField{{Name: "y"}}})
			return fmt.Sprint(id), err
		})
		own("DropIndex "+n, true, func() (string, error) { return yes(c.DropIndex(n)) })
	}
	own("CreateIndex on the same columns", true, func() (string, error) {
		id, err := c.CreateIndex(document.IndexDefinition{Name: "k", Fields: []document.IndexField{{Name: "x"}}})
		return fmt.Sprint(id), err
	})
	// operations for which the store has to obtain further ids
	own("InsertOne beyond the lease", true, func() (string, error) { n, err := c.InsertOne(doc, nil); return fmt.Sprint(n), err })
	w.ops[len(w.ops)-1].pre = func() {
		for {
			n, err := c.InsertOne(doc, nil)
			if err != nil {
				panic(err)
			}
			if err = c.DeleteOne(n, nil); err != nil {
				panic(err)
			}
			if n%1000 == 0 {
				return
			}
		}
	}
	own("CreateIndex beyond the lease", true, func() (string, error) {
		id, err := c.CreateIndex(document.IndexDefinition{Name: "l", Fields: []document.IndexField{{Name: "l"}}})
		return fmt.Sprint(id), err
	})
	w.ops[len(w.ops)-1].pre = func() {
		for {
			n, err := c.CreateIndex(document.IndexDefinition{Name: "t", Fields: []document.IndexField{{Name: "t"}}})
			if err != nil {
				panic(err)
			}
			if _, err = c.DropIndex("t"); err != nil {
				panic(err)
			}
			if n%50 == 0 {
				return
			}
		}
	}
	own("a collection beyond the lease", false, func() (string, error) {
		n, err := db.Collection("new")
		if err != nil {
			return "", err
		}
		if d, err := n.GetOne(1, nil); err != document.ErrDocNotFound {
			return fmt.Sprint(d), fmt.Errorf("the new collection has a document: %v", err)
		}
		return idx(n.GetIndexes()), nil
	})
	w.ops[len(w.ops)-1].pre = func() {
		for i := len(cs); i < 50; i++ {
			if _, err := db.Collection(fmt.Sprint("f", i)); err != nil {
				panic(err)
			}
		}
	}
	for _, n := range []string{"a", "b", "c"} {
		n := n
		own("opening "+n+" again", false, func() (string, error) {
			db := document.NewDB(kvdb)
			c, err := db.Collection(n)
			if err != nil {
				return "", err
			}
			d, err := c.GetOne(1, nil)
			if err == document.ErrDocNotFound {
				err = nil
			}
			return fmt.Sprint(d, idx(c.GetIndexes())), err
		})
	}
	return w
}

// ids of documents in the legacy store
var someIDs = func() (l []int64) {
	for did := int64(1); did <= fIDs+4; did++ {
		l = append(l, did)
	}
	return
}()

func sortedStrs(l []string) []string {
	sort.Strings(l)
	return l
}

// docFaulted runs a document operation once without failures and once with the k-th storage
// operation failing.
func docFaulted(c *ex.Ctx, mk func(kvdb *kvmem.DB) *fworld, deep bool) {
	nops := 0
	{
		w := mk(kvmem.New())
		nops = len(w.ops)
		w.close()
	}
	docs := c.Choose(4)
	where := c.Choose(4) // own transaction, update transaction, after another operation in one, read-only transaction
	oi, first := c.Choose(nops), 0
	if where == 2 || (where == 0 && deep) {
		first = c.Choose(nops)
	}
	mode := c.Choose(3)
	type result struct {
		res           string
		err           error
		before, after string
	}
	run := func(arm func(db *kvmem.DB)) (r result) {
		db := kvmem.New()
		w := mk(db)
		defer w.close()
		for i := 0; i < docs; i++ {
			w.insert(0)
		}
		w.insert(1)
		op := w.ops[oi]
		if op.own && where != 0 {
			r.res = "-"
			return
		}
		var t ftx
		if where > 0 {
			t = w.begin(where != 3)
			defer t.Discard()
		}
		if (where == 2 && !w.ops[first].own) || (where == 0 && deep) {
			_, _ = w.ops[first].f(t)
		}
		if op.pre != nil {
			op.pre()
		}
		r.before = w.read(t)
		arm(db)
		r.res, r.err = op.f(t)
		db.Hook = nil
		r.after = w.read(t)
		return
	}
	count := func(o *kvmem.Op) bool {
		switch o.Kind {
		case kvmem.KBegin, kvmem.KDiscard, kvmem.KCommitted:
			return false
		}
		return o.Kind != kvmem.KCommit || o.Writes > 0
	}
	var kinds []kvmem.Kind
	want := run(func(db *kvmem.DB) {
		db.Entries = true
		db.Hook = func(o *kvmem.Op) error {
			if count(o) {
				kinds = append(kinds, o.Kind)
			}
			return nil
		}
	})
	if len(kinds) == 0 {
		return
	}
	k := c.Choose(len(kinds))
	inj := kvmem.ErrInjected
	if mode == 2 {
		if kinds[k] != kvmem.KSet && kinds[k] != kvmem.KDelete {
			return
		}
		inj = kv.ErrTxnTooBig
	}
	n := 0
	got := run(func(db *kvmem.DB) {
		db.Entries = true
		db.Hook = func(o *kvmem.Op) error {
			if !count(o) {
				return nil
			}
			n++
			if n == k+1 || (mode == 1 && n > k) {
				return inj
			}
			return nil
		}
	})
	w := mk(kvmem.New())
	op := w.ops[oi]
	if where == 2 || (where == 0 && deep) {
		c.Logf("%s, then", w.ops[first].name)
	}
	w.close()
	c.Logf("%s (in %d), storage operation %d (%s) of %v fails, mode %d", op.name, where, k, kinds[k], kinds, mode)
	c.Observe("%s %v %v", op.name, kinds[k], got.err)
	bad := ""
	switch {
	case got.err != nil && (errors.Is(got.err, inj) || strings.Contains(got.err.Error(), inj.Error())):
		if where == 0 && op.name != "DeleteAll" && got.after != got.before {
			bad = "the failed operation had an effect"
		}
	case sameText(got.err, want.err) && (got.err != nil || got.res == want.res) && got.after == want.after:
		// it made no difference
	default:
		bad = "wrong answer"
	}
	if bad != "" {
		c.Fail("%s: %s: storage operation %d (%s) of %v fails with %v, the answer is %.300q, %v; without the failure %.300q, %v; documents before %s after %s, without the failure %s", bad, op.name, k, kinds[k], kinds, inj, got.res, got.err, want.res, want.err, got.before, got.after, want.after)
	}
}

func sameText(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Error() == b.Error()
}
