//go:build conc

package conc

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"

	"context"
)

func init() {
	assume := []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04; some scenarios run on Badger itself)", "ids chosen by the application lie apart from those the store assigns"}
	rule := "every sequence of document operations up to the stated depth, alone and inside an explicit transaction, with everything read back after each step, and every storage operation of the last step failing; distinct = distinct final contents and results"
	hz.Register("P18", &hz.Check{Level: "model_checking", Rule: rule, Assume: assume, Run: runP18})
	hz.Register("P19", &hz.Check{Level: "model_checking", Rule: "every set of empty and filled neighbours and every sequence of operations up to the stated depth over several collections with adjacent ids; everything read back after each step; distinct = distinct final contents", Assume: assume, Run: runP19})
	hz.Register("P25", &hz.Check{Level: "model_checking", Rule: rule, Assume: assume, Run: runP25})
}

type docTx interface {
	Commit() error
	Discard()
}

// collAPI is a collection of either document layer.
type collAPI struct {
	name     string
	cid      int64
	insert   func(doc bson.M, t docTx) (int64, error)
	managed  func(did int64, doc bson.M, t docTx) error
	update   func(did int64, doc bson.M, t docTx) (bool, error)
	upsert   func(did int64, doc bson.M, t docTx) (bool, error)
	del      func(did int64, t docTx) error
	delAll   func(t docTx) (int, error)
	get      func(did int64, t docTx) (bson.M, error)
	many     func(dids []int64, t docTx) ([]bson.M, error)
	count    func(t docTx) (int, error)
	all      func(t docTx) ([]bson.M, error)
	rng      func(t docTx) (min, max int64, err error)
	indexes  func() error
	runIn    func(update bool, f func(t docTx) error) error // the collection's transaction helpers
	dml      *dml.Collection                                // of the schema layer
	notFound error
	exists   error
}

func dmlColl(name string, cid int64, c *dml.Collection) *collAPI {
	T := func(t docTx) *txn.Txn {
		if t == nil {
			return nil
		}
		return t.(*txn.Txn)
	}
	return &collAPI{name: name, cid: cid, dml: c,
		insert:  func(doc bson.M, t docTx) (int64, error) { return c.InsertOne(doc, T(t)) },
		managed: func(did int64, doc bson.M, t docTx) error { return c.InsertOneManaged(did, doc, T(t)) },
		update:  func(did int64, doc bson.M, t docTx) (bool, error) { return c.UpdateOne(did, doc, T(t)) },
		upsert:  func(did int64, doc bson.M, t docTx) (bool, error) { return c.UpsertOne(did, doc, T(t)) },
		del:     func(did int64, t docTx) error { return c.DeleteOne(did, T(t)) },
		delAll:  func(t docTx) (int, error) { return c.DeleteAll(T(t)) },
		get:     func(did int64, t docTx) (d bson.M, err error) { err = c.GetOne(did, &d, T(t)); return },
		many:    func(dids []int64, t docTx) (d []bson.M, err error) { err = c.GetMany(dids, &d, T(t)); return },
		count:   func(t docTx) (int, error) { return c.Count(T(t)) },
		all:     func(t docTx) (d []bson.M, err error) { err = c.GetAll(&d, T(t)); return },
		rng:     func(t docTx) (int64, int64, error) { return c.GetDidRange(T(t)) },
		indexes: func() error {
			l, err := c.GetIndices(nil)
			if err == nil && len(l) != 0 {
				err = fmt.Errorf("%d indexes", len(l))
			}
			return err
		},
		runIn: func(update bool, f func(t docTx) error) error {
			g := func(t *txn.Txn) error { return f(t) }
			if update {
				return c.RunInNewUpdateTxn(g)
			}
			return c.RunInNewTxn(g)
		},
		notFound: dml.ErrDocNotFound, exists: dml.ErrDocExists}
}

func legacyColl(name string, cid int64, c *document.Collection, idx []document.IndexDefinition) *collAPI {
	T := func(t docTx) mondis.ProviderTxn {
		if t == nil {
			return nil
		}
		return t.(mondis.ProviderTxn)
	}
	return &collAPI{name: name, cid: cid,
		insert:  func(doc bson.M, t docTx) (int64, error) { return c.InsertOne(doc, T(t)) },
		managed: func(did int64, doc bson.M, t docTx) error { return c.InsertOneManaged(did, doc, T(t)) },
		update:  func(did int64, doc bson.M, t docTx) (bool, error) { return c.UpdateOne(did, doc, T(t)) },
		upsert:  func(did int64, doc bson.M, t docTx) (bool, error) { return c.UpsertOne(did, doc, T(t)) },
		del:     func(did int64, t docTx) error { return c.DeleteOne(did, T(t)) },
		delAll:  func(t docTx) (int, error) { return c.DeleteAll(T(t)) },
		get:     func(did int64, t docTx) (bson.M, error) { return c.GetOne(did, T(t)) },
		many:    func(dids []int64, t docTx) ([]bson.M, error) { return c.GetMany(dids, T(t)) },
		count:   func(t docTx) (int, error) { return c.Count(T(t)) },
		indexes: func() error {
			if l := c.GetIndexes(); fmt.Sprint(sortIdx(l)) != fmt.Sprint(sortIdx(idx)) {
				return fmt.Errorf("the collection has the indexes %v, created were %v", l, idx)
			}
			return nil
		},
		notFound: document.ErrDocNotFound, exists: document.ErrDocIDExists}
}

func sortIdx(l []document.IndexDefinition) []document.IndexDefinition {
	l = append([]document.IndexDefinition{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}

// docs is the reference: documents by collection and id.
type docs map[string]map[int64]string

func (d docs) clone() docs {
	o := docs{}
	for n, m := range d {
		o[n] = map[int64]string{}
		for k, v := range m {
			o[n][k] = v
		}
	}
	return o
}

// docWorld runs operations against collections and the reference.
type docWorld struct {
	e     *env
	colls []*collAPI
	begin func(update bool) docTx
	com   docs
	// the open transaction
	tx       docTx
	txUpdate bool
	view     docs
	wr       map[string]map[int64]*string
	given    map[string]map[int64]bool // ids handed out for good
	pend     map[string][]int64        // ids handed out in the open transaction
	changed  bool                      // committed content changed since the transaction began
	step     int
	ids      []int64
}

func newDocWorld(e *env, colls []*collAPI, begin func(bool) docTx, ids []int64) *docWorld {
	w := &docWorld{e: e, colls: colls, begin: begin, com: docs{}, given: map[string]map[int64]bool{}, pend: map[string][]int64{}, ids: ids}
	for _, c := range colls {
		w.com[c.name] = map[int64]string{}
		w.given[c.name] = map[int64]bool{}
	}
	return w
}

func docStr(d bson.M) string {
	keys := make([]string, 0, len(d))
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := "{"
	for _, k := range keys {
		s += fmt.Sprintf("%s:%v ", k, d[k])
	}
	return s + "}"
}

// doc of this step; some are empty, nested or long.
func (w *docWorld) doc() bson.M {
	w.step++
	switch w.step % 4 {
	case 2:
		return bson.M{}
	case 3:
		return bson.M{"s": int32(w.step), "n": bson.M{"x": "y"}}
	}
	return bson.M{"s": int32(w.step)}
}

func (w *docWorld) cur(t docTx) docs {
	if t != nil {
		return w.view
	}
	return w.com
}

// set records a write.
func (w *docWorld) set(c *collAPI, did int64, v *string, t docTx) {
	m := w.cur(t)[c.name]
	if v == nil {
		delete(m, did)
	} else {
		m[did] = *v
	}
	if t == nil {
		w.changed = true
		return
	}
	if w.wr[c.name] == nil {
		w.wr[c.name] = map[int64]*string{}
	}
	w.wr[c.name][did] = v
}

// fault runs f with the k-th storage operation failing, and tells whether it did.
type faulter struct {
	db   *kvmem.DB
	left int
	hit  bool
	err  error // the error, kvmem.ErrInjected if nil
}

func (f *faulter) arm(k int) {
	f.left, f.hit = k, false
	f.db.Hook = func(op *kvmem.Op) error {
		switch op.Kind {
		case kvmem.KGet, kvmem.KExists, kvmem.KSet, kvmem.KDelete, kvmem.KScan, kvmem.KCommit:
			if op.Kind == kvmem.KCommit && op.Writes == 0 {
				return nil
			}
			f.left--
			if f.left == 0 {
				f.hit = true
				if f.err != nil {
					return f.err
				}
				return kvmem.ErrInjected
			}
		}
		return nil
	}
}

func (f *faulter) disarm() { f.db.Hook = nil }

const (
	opInsert = iota
	opManaged
	opUpdate
	opUpsert
	opDelete
	opDelAll
	opBad
	opBadManaged
	opBegin
	opBeginRO
	opCommit
	opDiscard
)

type docOp struct {
	kind int
	coll int
	did  int64
	tx   bool
}

var opNames = []string{"insert", "managed insert", "update", "upsert", "delete", "delete all", "insert of an unencodable document", "managed insert of an unencodable document", "begin", "begin read-only", "commit", "discard"}

func (o docOp) String() string {
	s := fmt.Sprintf("%s c%d/%d", opNames[o.kind], o.coll, o.did)
	if o.tx {
		s += " in the transaction"
	}
	return s
}

// do one operation; f: faults are armed.
func (w *docWorld) do(o docOp, f *faulter) {
	e := w.e
	faulted := func() bool { return f != nil && f.hit }
	ok := func(err error) bool { // true: the operation took effect
		if err == nil {
			return true
		}
		if faulted() {
			return false
		}
		if o.tx && !w.txUpdate && o.kind < opBegin {
			return false
		}
		e.failf("%v: %v", o, err)
		return false
	}
	var t docTx
	if o.tx {
		t = w.tx
	}
	var c *collAPI
	if o.kind < opBegin {
		c = w.colls[o.coll]
	}
	readOnly := func(err error) {
		if o.tx && !w.txUpdate && err == nil {
			e.failf("%v: succeeded in a read-only transaction", o)
		}
	}
	switch o.kind {
	case opInsert:
		d := w.doc()
		s := docStr(d)
		did, err := c.insert(d, t)
		readOnly(err)
		if !ok(err) {
			return
		}
		if did <= 0 {
			e.failf("%v: the id is %d", o, did)
		}
		if w.given[c.name][did] {
			e.failf("%v: the id %d was given before", o, did)
		}
		for _, p := range w.pend[c.name] {
			if p == did {
				e.failf("%v: the id %d was given before in this transaction", o, did)
			}
		}
		w.set(c, did, &s, t)
		if t == nil {
			w.given[c.name][did] = true
		} else {
			w.pend[c.name] = append(w.pend[c.name], did)
		}
	case opManaged:
		d := w.doc()
		s := docStr(d)
		err := c.managed(o.did, d, t)
		if _, has := w.cur(t)[c.name][o.did]; has {
			if err != c.exists && !faulted() {
				e.failf("%v on an existing document: %v", o, err)
			}
			if err == nil {
				e.failf("%v on an existing document succeeded", o)
			}
			return
		}
		readOnly(err)
		if ok(err) {
			w.set(c, o.did, &s, t)
		}
	case opUpdate:
		d := w.doc()
		s := docStr(d)
		exists, err := c.update(o.did, d, t)
		_, has := w.cur(t)[c.name][o.did]
		if has {
			readOnly(err)
		}
		if !ok(err) {
			return
		}
		if exists != has {
			e.failf("%v reports existence %v, it is %v", o, exists, has)
		}
		if has {
			w.set(c, o.did, &s, t)
		}
	case opUpsert:
		d := w.doc()
		s := docStr(d)
		isNew, err := c.upsert(o.did, d, t)
		_, has := w.cur(t)[c.name][o.did]
		readOnly(err)
		if !ok(err) {
			return
		}
		if isNew == has {
			e.failf("%v reports new %v, the document existed: %v", o, isNew, has)
		}
		w.set(c, o.did, &s, t)
	case opDelete:
		err := c.del(o.did, t)
		readOnly(err)
		if ok(err) {
			w.set(c, o.did, nil, t)
		}
	case opDelAll:
		n, err := c.delAll(t)
		m := w.cur(t)[c.name]
		if len(m) > 0 {
			readOnly(err)
		}
		if err != nil && t != nil && faulted() {
			// part of it may be in the transaction; it is discarded
			w.discard()
			return
		}
		if !ok(err) {
			return
		}
		if n != len(m) {
			e.failf("%v reports %d documents, there were %d", o, n, len(m))
		}
		for did := range m {
			w.set(c, did, nil, t)
		}
	case opBad:
		did, err := c.insert(bson.M{"f": make(chan int)}, t)
		if err == nil {
			e.failf("%v succeeded with the id %d", o, did)
		}
	case opBadManaged:
		if err := c.managed(o.did, bson.M{"f": make(chan int)}, t); err == nil {
			e.failf("%v succeeded", o)
		}
	case opBegin, opBeginRO:
		w.txUpdate = o.kind == opBegin
		w.tx = w.begin(w.txUpdate)
		w.view, w.wr, w.changed = w.com.clone(), map[string]map[int64]*string{}, false
	case opCommit:
		err := w.tx.Commit()
		if w.txUpdate {
			switch {
			case err == nil:
				for n, m := range w.wr {
					for did, v := range m {
						if v == nil {
							delete(w.com[n], did)
						} else {
							w.com[n][did] = *v
						}
					}
				}
				for n, ids := range w.pend {
					for _, id := range ids {
						if w.given[n][id] {
							e.failf("the id %d was given to a committed insert before", id)
						}
						w.given[n][id] = true
					}
				}
			case faulted():
			case w.changed && isConflict(err):
			default:
				e.failf("commit: %v", err)
			}
		}
		w.discard()
	case opDiscard:
		w.discard()
	}
}

func isConflict(err error) bool {
	return err == kvmem.ErrConflict || (err != nil && err.Error() == kvmem.ErrConflict.Error())
}

func (w *docWorld) discard() {
	w.tx.Discard()
	w.tx = nil
	w.pend = map[string][]int64{}
}

// verify reads everything back.
func (w *docWorld) verify(t docTx) {
	e := w.e
	for _, c := range w.colls {
		m := w.cur(t)[c.name]
		where := fmt.Sprintf("collection %s (transaction %v)", c.name, t != nil)
		var ids []int64
		for did := range m {
			ids = append(ids, did)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		n, err := c.count(t)
		if err != nil || n != len(m) {
			e.failf("%s counts %d, %v; it has %v", where, n, err, m)
		}
		probe := append(append([]int64{}, w.ids...), 1, 2, 3)
		for _, did := range append(probe, ids...) {
			d, err := c.get(did, t)
			want, has := m[did]
			if !has {
				if err != c.notFound {
					e.failf("%s: getting the absent document %d returned %v, %v", where, did, d, err)
				}
				continue
			}
			if err != nil || docStr(d) != want {
				e.failf("%s: getting %d returned %v, %v, stored was %s", where, did, d, err, want)
			}
		}
		var rev []int64
		for i := len(ids) - 1; i >= 0; i-- {
			rev = append(rev, ids[i])
		}
		l, err := c.many(rev, t)
		if err != nil || len(l) != len(rev) {
			e.failf("%s: getting %v returned %v, %v", where, rev, l, err)
		}
		for i, d := range l {
			if docStr(d) != m[rev[i]] {
				e.failf("%s: getting %v returned %v, number %d is %s", where, rev, l, i, m[rev[i]])
			}
		}
		// an id asked for twice is returned twice
		twice := append(append([]int64{}, ids...), rev...)
		l, err = c.many(twice, t)
		if err != nil || len(l) != len(twice) {
			e.failf("%s: getting %v returned %v, %v", where, twice, l, err)
		}
		for i, d := range l {
			if docStr(d) != m[twice[i]] {
				e.failf("%s: getting %v returned %v, number %d is %s", where, twice, l, i, m[twice[i]])
			}
		}
		if _, err := c.many(append(append([]int64{}, rev...), 987654), t); err != c.notFound {
			e.failf("%s: getting %v and an absent document returned %v", where, rev, err)
		}
		if c.all != nil {
			l, err := c.all(t)
			if err != nil || len(l) != len(ids) {
				e.failf("%s: listing returned %v, %v, stored is %v", where, l, err, m)
			}
			for i, d := range l {
				if docStr(d) != m[ids[i]] {
					e.failf("%s: listing returned %v, stored is %v", where, l, m)
				}
			}
		}
		if c.rng != nil {
			min, max, err := c.rng(t)
			var wmin, wmax int64
			if len(ids) > 0 {
				wmin, wmax = ids[0], ids[len(ids)-1]
			}
			if err != nil || min != wmin || max != wmax {
				e.failf("%s: the id range is %d to %d, %v, stored is %v", where, min, max, err, m)
			}
		}
		if err := c.indexes(); err != nil {
			e.failf("%s: %v", where, err)
		}
	}
}

var badgers = map[string]mondis.KVDB{}
var badgerUse int

// badgerFor the current process, emptied.
func badgerFor(r *hz.R) mondis.KVDB {
	badgerUse++
	d := badgers["b"]
	if d == nil || badgerUse%2000 == 0 {
		if d != nil {
			_ = d.Close()
		}
		dir, err := os.MkdirTemp(r.Scratch, "docs")
		if err != nil {
			panic(err)
		}
		d = provider.NewBadger()
		if err := d.Open(mondis.KVOption{Dir: filepath.Join(dir, "b")}); err != nil {
			panic(err)
		}
		badgers["b"] = d
		return d
	}
	var keys [][]byte
	_ = d.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		keys = append(keys, append([]byte(nil), k...))
		return true
	})
	t := d.NewTransaction(true)
	defer t.Discard()
	for _, k := range keys {
		must(t.Delete(k))
	}
	must(t.Commit())
	return d
}

// newDML opens collections of the schema layer with the given ids; db i has colls[i].
func newDML(kvdb mondis.KVDB, colls []map[string]int64) (map[string]*collAPI, func(bool) docTx) {
	h := schema.NewHandle()
	var infos []*model.DBInfo
	for i, m := range colls {
		d := &model.DBInfo{ID: int64(1000 + i), Name: fmt.Sprint("db", i), Collections: map[string]*model.CollectionInfo{}}
		for n, id := range m {
			d.Collections[n] = &model.CollectionInfo{ID: id, Name: n}
		}
		infos = append(infos, d)
	}
	must(h.Update(context.Background(), schema.NewMetaCache(1, infos)))
	resetSequences() // of earlier executions
	out := map[string]*collAPI{}
	var any *dml.DB
	for i, m := range colls {
		db, err := dml.NewDB(fmt.Sprint("db", i), kvdb, h)
		must(err)
		any = db
		for n, id := range m {
			newSequence(kvdb, int64(1000+i), id, 2)
			c, err := db.Collection(n)
			must(err)
			out[fmt.Sprint(i, n)] = dmlColl(fmt.Sprint(i, n), id, c)
		}
	}
	return out, func(u bool) docTx { return any.Txn(u) }
}

// alphabet of operations on one collection.
func docAlphabet(coll int, ids, upd []int64) (out []docOp) {
	out = append(out, docOp{kind: opInsert, coll: coll})
	for _, id := range ids {
		out = append(out, docOp{kind: opManaged, coll: coll, did: id})
	}
	for _, id := range append(append([]int64{}, upd...), ids...) {
		out = append(out, docOp{kind: opUpdate, coll: coll, did: id}, docOp{kind: opDelete, coll: coll, did: id})
	}
	for _, id := range ids {
		out = append(out, docOp{kind: opUpsert, coll: coll, did: id})
	}
	out = append(out, docOp{kind: opDelAll, coll: coll}, docOp{kind: opBad, coll: coll}, docOp{kind: opBadManaged, coll: coll, did: 555})
	return
}

// docHistory runs one history; the last step may have a storage fault.
func docHistory(c *ex.Ctx, w *docWorld, alpha []docOp, depth, faults int, kv mondis.KVDB) {
	for i := 0; i < depth; i++ {
		n := len(alpha)
		var o docOp
		if w.tx == nil {
			k := c.Choose(n + 2)
			switch {
			case k < n:
				o = alpha[k]
			case k == n:
				o = docOp{kind: opBegin}
			default:
				o = docOp{kind: opBeginRO}
			}
		} else {
			k := c.Choose(2*n + 2)
			switch {
			case k < n:
				o = alpha[k]
				o.tx = true
			case k < 2*n:
				o = alpha[k-n]
			case k == 2*n:
				o = docOp{kind: opCommit}
			default:
				o = docOp{kind: opDiscard}
			}
		}
		var f *faulter
		if i == depth-1 && faults > 0 && o.kind != opBegin && o.kind != opBeginRO && o.kind != opDiscard {
			if k := c.Choose(faults + 1); k > 0 {
				f = &faulter{db: kv.(*kvmem.DB)}
				f.arm(k)
				c.Logf("storage operation %d fails", k)
			}
		}
		c.Logf("%v", o)
		w.do(o, f)
		if f != nil {
			f.disarm()
		}
		w.verify(nil)
		if w.tx != nil {
			w.verify(w.tx)
		}
	}
	// a transaction left open has no effect
	if w.tx != nil {
		w.discard()
		w.verify(nil)
	}
	c.Observe("%v", w.com)
}

// ranTx stands for a transaction that a helper has ended.
type ranTx struct{ err error }

func (t *ranTx) Commit() error { return t.err }
func (t *ranTx) Discard()      {}

// docHelpers runs transactions through the helpers of the schema API.
func docHelpers(c *ex.Ctx, w *docWorld, alpha []docOp, rounds, depth int, kvdb *kvmem.DB) {
	e := w.e
	errs := []error{fmt.Errorf("the function fails"), kvmem.ErrInjected, kv.ErrTxnTooBig, kv.ErrKeyNotFound, kvmem.ErrConflict}
	for r := 0; r < rounds; r++ {
		if k := c.Choose(len(alpha) + 1); k > 0 {
			w.do(alpha[k-1], nil)
		}
		update := c.Choose(2) == 0
		end := c.Choose(4) // success, error, panic, failing commit
		if !update && end == 3 {
			end = 0
		}
		begun, ended := kvdb.Begun, kvdb.Ended
		errF := errs[0]
		if end == 1 || end == 3 {
			errF = errs[c.Choose(len(errs))]
		}
		var f *faulter
		calls := 0
		var pv interface{}
		var err error
		func() {
			defer func() {
				pv = recover()
				if x, ok := pv.(ex.Failure); ok {
					panic(x)
				}
				if x, ok := pv.(ex.Diverged); ok {
					panic(x)
				}
			}()
			err = w.colls[0].runIn(update, func(t docTx) error {
				calls++
				w.tx, w.txUpdate = t, update
				w.view, w.wr, w.changed = w.com.clone(), map[string]map[int64]*string{}, false
				for i := 0; i < depth; i++ {
					k := c.Choose(2*len(alpha) + 1)
					if k == 0 {
						break
					}
					o := alpha[(k-1)%len(alpha)]
					o.tx = k <= len(alpha)
					c.Logf("%v", o)
					w.do(o, nil)
					w.verify(nil)
					w.verify(w.tx)
				}
				switch end {
				case 1:
					return errF
				case 2:
					panic("the function panics")
				case 3:
					f = &faulter{db: kvdb, err: errF}
					f.arm(1)
				}
				return nil
			})
		}()
		if f != nil {
			f.disarm()
		}
		c.Logf("helper (update %v, ending %d): %v %v", update, end, err, pv)
		if calls != 1 {
			e.failf("the function was called %d times", calls)
		}
		if kvdb.Begun-begun != kvdb.Ended-ended {
			e.failf("a transaction was left open")
		}
		switch {
		case end == 2:
			if pv != "the function panics" {
				e.failf("the function panicked, the helper: %v, %v", pv, err)
			}
			w.tx = &ranTx{}
			w.discard()
		case pv != nil:
			panic(pv)
		case end == 1:
			if err != errF {
				e.failf("the function failed, the helper returned %v", err)
			}
			w.tx = &ranTx{}
			w.discard()
		default:
			if !update && err != nil {
				e.failf("a read-only transaction: %v", err)
			}
			if update && f != nil && f.hit && err != errF {
				e.failf("the commit failed with %v, the helper returned %v", errF, err)
			}
			w.tx = &ranTx{err}
			w.do(docOp{kind: opCommit}, f)
		}
		w.verify(nil)
	}
	c.Observe("%v", w.com)
}

// docSizes: a collection of n documents, filled in one of several ways and changed in one of
// several ways, next to a small one.
func docSizes(c *ex.Ctx, w *docWorld, ns []int) {
	idOf := []func(i int) int64{
		nil,
		func(i int) int64 { return 1<<20 + int64(i) },
		func(i int) int64 { return -3 - int64(i)*7 },
		func(i int) int64 { return 1<<62 - 200 + int64(i) },
	}
	n := ns[c.Choose(len(ns))]
	fill := c.Choose(len(idOf))
	inTx := c.Choose(2) == 1
	edit := c.Choose(6)
	c.Logf("%d documents, ids %d, in a transaction %v, edit %d", n, fill, inTx, edit)
	w.do(docOp{kind: opManaged, coll: 1, did: 1 << 30}, nil)
	begin := func() {
		if inTx {
			w.do(docOp{kind: opBegin}, nil)
		}
	}
	end := func() {
		if inTx {
			w.verify(w.tx)
			w.do(docOp{kind: opCommit}, nil)
		}
		w.verify(nil)
	}
	begin()
	for i := 0; i < n; i++ {
		o := docOp{kind: opInsert, tx: inTx}
		if f := idOf[fill]; f != nil {
			o = docOp{kind: opManaged, did: f(i), tx: inTx}
			if i%3 == 1 {
				o.kind = opUpsert
			}
		}
		w.do(o, nil)
	}
	end()
	var ids []int64
	for did := range w.com[w.colls[0].name] {
		ids = append(ids, did)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	begin()
	switch edit {
	case 0:
		w.do(docOp{kind: opDelAll, tx: inTx}, nil)
	case 1: // all but the last, then a new one
		for i, did := range ids {
			if i+1 < len(ids) {
				w.do(docOp{kind: opDelete, did: did, tx: inTx}, nil)
			}
		}
		w.do(docOp{kind: opInsert, tx: inTx}, nil)
	case 2:
		for i, did := range ids {
			w.do(docOp{kind: []int{opUpdate, opDelete, opUpsert}[i%3], did: did, tx: inTx}, nil)
		}
	case 3: // empty it and use it again
		w.do(docOp{kind: opDelAll, tx: inTx}, nil)
		for i := 0; i < 3; i++ {
			w.do(docOp{kind: opInsert, tx: inTx}, nil)
		}
		for i, did := range ids {
			if i%5 == 0 && fill > 0 {
				w.do(docOp{kind: opManaged, did: did, tx: inTx}, nil)
			}
		}
	case 4: // the neighbour
		w.do(docOp{kind: opDelAll, coll: 1, tx: inTx}, nil)
	case 5: // discarded
		if !inTx {
			w.do(docOp{kind: opBegin}, nil)
		}
		w.do(docOp{kind: opDelAll, tx: true}, nil)
		w.do(docOp{kind: opInsert, tx: true}, nil)
		w.verify(w.tx)
		w.do(docOp{kind: opDiscard}, nil)
		w.verify(nil)
		c.Observe("%d", len(w.com[w.colls[0].name]))
		return
	}
	end()
	c.Observe("%d", len(w.com[w.colls[0].name]))
}

type typedDoc struct {
	A int64             `bson:"a"`
	S string            `bson:"s"`
	L []string          `bson:"l"`
	M map[string]int32  `bson:"m"`
	P *typedDoc         `bson:"p"`
	T time.Time         `bson:"t"`
	B []byte            `bson:"b"`
	F float64           `bson:"f"`
	X map[string]string `bson:"x,omitempty"`
}

// docContents are documents of every kind of value.
func docContents() (out []bson.M) {
	vals := []interface{}{
		int32(0), int32(-1), int32(math.MaxInt32), int64(math.MinInt64), int64(math.MaxInt64), 0.5, -1e300, math.Inf(1), true, false, nil,
		"", "a", "with\x00nul", "\u00e9\u4e16", strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("z", 5000), strings.Repeat("w", 70000),
		[]byte{}, []byte{0, 255}, bytes.Repeat([]byte{7}, 300),
		bson.A{}, bson.A{int32(1), "two", bson.A{nil}}, bson.M{}, bson.M{"deep": bson.M{"er": bson.A{bson.M{"x": int64(1)}}}},
		time.Unix(1600000000, 5e6).UTC(), primitive.NewObjectIDFromTimestamp(time.Unix(1, 0)), primitive.Regex{Pattern: "a.*", Options: "i"}, primitive.Timestamp{T: 1, I: 2},
	}
	for _, v := range vals {
		out = append(out, bson.M{"v": v})
	}
	wide := bson.M{}
	for i := 0; i < 300; i++ {
		wide[fmt.Sprintf("f%03d", i)] = int32(i)
	}
	out = append(out, wide, bson.M{}, bson.M{"": "empty name"}, bson.M{"_id": int64(99), "did": int64(1)})
	return
}

// canon is what reading a stored document back must give.
func canon(doc interface{}) string {
	b, err := bson.Marshal(doc)
	must(err)
	var m bson.M
	must(bson.Unmarshal(b, &m))
	return fmt.Sprintf("%#v", m)
}

// docValues stores one document by one way and reads it by all others.
func docValues(c *ex.Ctx, e *env, a *collAPI, begin func(bool) docTx, contents []bson.M) {
	k := c.Choose(len(contents))
	way := c.Choose(4)
	inTx := c.Choose(2) == 1
	doc := contents[k]
	want := canon(doc)
	var t docTx
	if inTx {
		t = begin(true)
		defer t.Discard()
	}
	first := bson.M{"old": strings.Repeat("o", 3*(k%50)), "more": int32(1)}
	must(a.managed(-9, first, t))
	did := int64(77)
	var err error
	switch way {
	case 0:
		did, err = a.insert(doc, t)
	case 1:
		err = a.managed(did, doc, t)
	case 2:
		must(a.managed(did, first, t))
		_, err = a.update(did, doc, t)
	case 3:
		must(a.managed(did, first, t))
		_, err = a.upsert(did, doc, t)
	}
	c.Logf("content %d stored as %d by way %d, in a transaction %v: %v", k, did, way, inTx, err)
	if err != nil {
		e.failf("storing %v: %v", want, err)
	}
	read := func(t docTx) {
		d, err := a.get(did, t)
		if g := fmt.Sprintf("%#v", d); err != nil || g != want {
			e.failf("getting %d returned %.300s, %v, stored was %.300s", did, g, err, want)
		}
		l, err := a.many([]int64{did, -9, did}, t)
		if err != nil || len(l) != 3 {
			e.failf("getting many returned %v, %v", l, err)
		}
		for i, w := range []string{want, canon(first), want} {
			if g := fmt.Sprintf("%#v", l[i]); g != w {
				e.failf("getting many, number %d is %.300s, stored was %.300s", i, g, w)
			}
		}
		if a.all != nil {
			l, err := a.all(t)
			if err != nil || len(l) != 2 {
				e.failf("listing returned %d documents, %v", len(l), err)
			}
			for i, w := range []string{canon(first), want} {
				if g := fmt.Sprintf("%#v", l[i]); g != w {
					e.failf("listing, number %d is %.300s, stored was %.300s", i, g, w)
				}
			}
		}
	}
	read(t)
	if inTx {
		if err := t.Commit(); err != nil {
			e.failf("commit: %v", err)
		}
	}
	read(nil)
	ro := begin(false)
	defer ro.Discard()
	read(ro)
	c.Observe("%d %d %v", k, way, inTx)
}

// typedValues stores and reads documents as Go values of the application's types.
func typedValues(c *ex.Ctx, e *env, cl *dml.Collection) {
	mk := func(i int) *typedDoc {
		d := &typedDoc{A: int64(i) << 40, S: strings.Repeat("s", i), T: time.Unix(int64(i), 0).UTC(), F: float64(i) / 3}
		for j := 0; j < i; j++ {
			d.L = append(d.L, fmt.Sprint(i, j))
		}
		if i > 0 {
			d.M = map[string]int32{"k": int32(i)}
			d.B = []byte{byte(i)}
		}
		if i%2 == 1 {
			d.P = &typedDoc{A: int64(i), T: d.T}
			d.X = map[string]string{"only": fmt.Sprint(i)}
		}
		return d
	}
	norm := func(d *typedDoc) string { return canon(d) }
	n := 1 + c.Choose(6)
	form := c.Choose(4)
	var dids []int64
	for i := 0; i < n; i++ {
		d := mk(i)
		var doc interface{} = d
		switch form {
		case 1:
			doc = *d
		case 2:
			var o bson.D
			b, err := bson.Marshal(d)
			must(err)
			must(bson.Unmarshal(b, &o))
			doc = o
		case 3:
			b, err := bson.Marshal(d)
			must(err)
			doc = bson.Raw(b)
		}
		did, err := cl.InsertOne(doc, nil)
		if err != nil {
			e.failf("inserting %v: %v", doc, err)
		}
		dids = append(dids, did)
	}
	chk := func(what string, i int, d *typedDoc) {
		if norm(d) != norm(mk(i)) {
			e.failf("%s, number %d is %s, stored was %s", what, i, norm(d), norm(mk(i)))
		}
	}
	for i, did := range dids {
		var d typedDoc
		if err := cl.GetOne(did, &d, nil); err != nil {
			e.failf("getting %d: %v", did, err)
		}
		chk("getting", i, &d)
		var raw bson.Raw
		if err := cl.GetOne(did, &raw, nil); err != nil || canon(raw) != norm(mk(i)) {
			e.failf("getting %d as it is stored: %v", did, err)
		}
	}
	// appended to what the caller has
	kept := typedDoc{S: "mine"}
	vs := []typedDoc{kept}
	if err := cl.GetMany(dids, &vs, nil); err != nil || len(vs) != n+1 || vs[0].S != "mine" {
		e.failf("getting many into values returned %d, %v", len(vs), err)
	}
	var ps []*typedDoc
	if err := cl.GetMany(dids, &ps, nil); err != nil || len(ps) != n {
		e.failf("getting many into pointers returned %d, %v", len(ps), err)
	}
	var av []typedDoc
	if err := cl.GetAll(&av, nil); err != nil || len(av) != n {
		e.failf("listing into values returned %d, %v", len(av), err)
	}
	var ap []*typedDoc
	if err := cl.GetAll(&ap, nil); err != nil || len(ap) != n {
		e.failf("listing into pointers returned %d, %v", len(ap), err)
	}
	for i := range dids {
		chk("getting many into values", i, &vs[i+1])
		chk("getting many into pointers", i, ps[i])
		chk("listing into values", i, &av[i])
		chk("listing into pointers", i, ap[i])
	}
	// what was returned is the caller's own
	for i := range ps {
		ps[i].L = append(ps[i].L[:0], "changed")
		vs[i+1].B = append(vs[i+1].B[:0], 99)
	}
	for i, did := range dids {
		var d typedDoc
		must(cl.GetOne(did, &d, nil))
		chk("getting again", i, &d)
	}
	c.Observe("%d %d", n, form)
}

// docCounts are the sizes covered.
func docCounts(r *hz.R) (ns []int) {
	n, round := 20, []int{32, 64, 100, 128, 200, 256}
	if !r.Quick {
		n, round = 70, []int{100, 128, 200, 256, 300, 500, 512, 1000, 1024}
	}
	for i := 5; i <= n; i++ {
		ns = append(ns, i)
	}
	for _, c := range round {
		ns = append(ns, c-1, c, c+1)
	}
	return
}

func runP18(r *hz.R) {
	depth := 4
	if !r.Quick {
		depth = 5
	}
	ids := []int64{-5, 0, 1000}
	hist := func(c *ex.Ctx, kvdb mondis.KVDB, alpha []docOp, depth, faults int) {
		plain(c, func(e *env) {
			m, begin := newDML(kvdb, []map[string]int64{{"a": 2, "b": 3}, {"a": 1}})
			w := newDocWorld(e, []*collAPI{m["0a"]}, begin, ids)
			docHistory(c, w, alpha, depth, faults, kvdb)
		})
	}
	alpha := docAlphabet(0, ids, []int64{1, 2})
	small := docAlphabet(0, []int64{0}, []int64{1})
	r.ExploreProc("histories", 0, func(c *ex.Ctx) { hist(c, kvmem.New(), alpha, depth, 0) })
	if !r.Quick {
		r.ExploreProc("longer histories", 0, func(c *ex.Ctx) { hist(c, kvmem.New(), small, depth+1, 0) })
	}
	r.ExploreProc("failures", 0, func(c *ex.Ctx) { hist(c, kvmem.New(), small, depth, 5) })
	rounds := 1
	if !r.Quick {
		rounds = 2
	}
	r.ExploreProc("transaction helpers", 0, func(c *ex.Ctx) {
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			m, begin := newDML(kvdb, []map[string]int64{{"a": 2, "b": 3}, {"a": 1}})
			w := newDocWorld(e, []*collAPI{m["0a"]}, begin, ids)
			docHelpers(c, w, small, rounds, 3-rounds, kvdb)
		})
	})
	ns := docCounts(r)
	sized := func(c *ex.Ctx, kvdb mondis.KVDB, ns []int) {
		plain(c, func(e *env) {
			m, begin := newDML(kvdb, []map[string]int64{{"a": 2, "b": 3}, {"a": 1}})
			docSizes(c, newDocWorld(e, []*collAPI{m["0a"], m["0b"]}, begin, ids), ns)
		})
	}
	r.ExploreProc("sizes", 0, func(c *ex.Ctx) { sized(c, kvmem.New(), ns) })
	contents := docContents()
	values := func(c *ex.Ctx, kvdb mondis.KVDB) {
		plain(c, func(e *env) {
			m, begin := newDML(kvdb, []map[string]int64{{"a": 2, "b": 3}, {"a": 1}})
			docValues(c, e, m["0a"], begin, contents)
		})
	}
	r.ExploreProc("contents", 0, func(c *ex.Ctx) { values(c, kvmem.New()) })
	r.ExploreProc("contents on Badger", 0, func(c *ex.Ctx) { values(c, badgerFor(r)) })
	r.ExploreProc("typed contents", 0, func(c *ex.Ctx) {
		plain(c, func(e *env) {
			m, _ := newDML(kvmem.New(), []map[string]int64{{"a": 2, "b": 3}, {"a": 1}})
			typedValues(c, e, m["0a"].dml)
		})
	})
	r.ExploreProc("on Badger", 0, func(c *ex.Ctx) { hist(c, badgerFor(r), small, depth-1, 0) })
	r.ExploreProc("sizes on Badger", 0, func(c *ex.Ctx) { sized(c, badgerFor(r), []int{17, 101, 257}) })
}

func runP19(r *hz.R) {
	depth := 2
	if !r.Quick {
		depth = 3
	}
	layouts := [][]map[string]int64{
		{{"a": 1, "b": 2}, {"a": 3}},
		{{"a": 255, "b": 256}, {"a": 257}},
		{{"a": 1, "c": 3}, {"b": 2}},
		{{"a": 0x5f64, "b": 0x5f65}, {"a": 0x7fffffffffffffff}},
	}
	names := [][]string{{"0a", "0b", "1a"}, {"0a", "0b", "1a"}, {"0a", "1b", "0c"}, {"0a", "0b", "1a"}}
	ids := []int64{-1 << 63, -1, 0, 1<<63 - 1}
	body := func(c *ex.Ctx, kvdb mondis.KVDB, depth int) {
		plain(c, func(e *env) {
			l := c.Choose(len(layouts))
			m, begin := newDML(kvdb, layouts[l])
			var colls []*collAPI
			for _, n := range names[l] {
				colls = append(colls, m[n])
			}
			// other data in the same database
			for _, k := range []string{"a", "c", "c\xff\xff\xff\xff\xff\xff\xff\xff\xff", "d", "m_x"} {
				must(kvdb.Set([]byte(k), []byte("other"), nil))
			}
			w := newDocWorld(e, colls, begin, ids)
			// who is filled, and how
			for i := range colls {
				switch c.Choose(3) {
				case 1:
					w.do(docOp{kind: opInsert, coll: i}, nil)
				case 2:
					w.do(docOp{kind: opManaged, coll: i, did: ids[0]}, nil)
					w.do(docOp{kind: opManaged, coll: i, did: ids[3]}, nil)
				}
			}
			w.verify(nil)
			var alpha []docOp
			for i := range colls {
				for _, id := range []int64{1, ids[0], ids[3]} {
					alpha = append(alpha, docOp{kind: opDelete, coll: i, did: id}, docOp{kind: opUpsert, coll: i, did: id + 0})
				}
				alpha = append(alpha, docOp{kind: opInsert, coll: i}, docOp{kind: opDelAll, coll: i}, docOp{kind: opUpdate, coll: i, did: 1})
			}
			// inserting under the ids that the store assigns is not covered
			var a []docOp
			for _, o := range alpha {
				if o.kind == opUpsert && o.did == 1 {
					continue
				}
				a = append(a, o)
			}
			docHistory(c, w, a, depth, 0, kvdb)
			for _, k := range []string{"a", "c", "c\xff\xff\xff\xff\xff\xff\xff\xff\xff", "d", "m_x"} {
				if v, _, err := kvdb.Get([]byte(k)); err != nil || string(v) != "other" {
					e.failf("other data in the database changed: %q is %q, %v", k, v, err)
				}
			}
		})
	}
	r.ExploreProc("neighbours", 0, func(c *ex.Ctx) { body(c, kvmem.New(), depth) })
	r.ExploreProc("on Badger", 0, func(c *ex.Ctx) { body(c, badgerFor(r), depth-1) })
}

func runP25(r *hz.R) {
	depth := 4
	if !r.Quick {
		depth = 5
	}
	ids := []int64{-5, 0, 5000}
	hist := func(c *ex.Ctx, kvdb mondis.KVDB, colls int, alpha []docOp, depth, faults int) {
		plain(c, func(e *env) {
			db := document.NewDB(kvdb)
			var cs []*collAPI
			for i, n := range []string{"a", "b", "ab"}[:colls] {
				h, err := db.Collection(n)
				must(err)
				var idx []document.IndexDefinition
				if i == 0 {
					d := document.IndexDefinition{Name: "n", Fields: []document.IndexField{{Name: "s"}}}
					_, err := h.CreateIndex(d)
					must(err)
					idx = append(idx, d)
				}
				cs = append(cs, legacyColl(n, 0, h, idx))
			}
			w := newDocWorld(e, cs, func(u bool) docTx { return kvdb.NewTransaction(u) }, ids)
			docHistory(c, w, alpha, depth, faults, kvdb)
			// the same after opening it again
			db.Close()
			db = document.NewDB(kvdb)
			for i, n := range []string{"a", "b", "ab"}[:colls] {
				h, err := db.Collection(n)
				must(err)
				var idx []document.IndexDefinition
				if i == 0 {
					idx = append(idx, document.IndexDefinition{Name: "n", Fields: []document.IndexField{{Name: "s"}}})
				}
				w.colls[i] = legacyColl(n, 0, h, idx)
			}
			w.verify(nil)
			// ids are not given again
			for i := range w.colls {
				w.do(docOp{kind: opInsert, coll: i}, nil)
			}
			w.verify(nil)
		})
	}
	alpha := docAlphabet(0, ids, []int64{1, 2})
	small := docAlphabet(0, []int64{0}, []int64{1})
	var two []docOp
	for i := 0; i < 3; i++ {
		two = append(two, docOp{kind: opInsert, coll: i}, docOp{kind: opUpsert, coll: i, did: 0}, docOp{kind: opDelete, coll: i, did: 1}, docOp{kind: opDelAll, coll: i}, docOp{kind: opUpdate, coll: i, did: 1})
	}
	r.ExploreProc("histories", 0, func(c *ex.Ctx) { hist(c, kvmem.New(), 1, alpha, depth, 0) })
	if !r.Quick {
		r.ExploreProc("longer histories", 0, func(c *ex.Ctx) { hist(c, kvmem.New(), 1, small, depth+1, 0) })
	}
	r.ExploreProc("three collections", 0, func(c *ex.Ctx) { hist(c, kvmem.New(), 3, two, depth, 0) })
	r.ExploreProc("failures", 0, func(c *ex.Ctx) {
		hist(c, kvmem.New(), 2, append(append([]docOp{}, small...), docOp{kind: opDelAll, coll: 1}, docOp{kind: opInsert, coll: 1}), depth, 5)
	})
	ns := append(docCounts(r), 999, 1000, 1001) // around the lease of the sequence
	r.ExploreProc("sizes", 0, func(c *ex.Ctx) {
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			db := document.NewDB(kvdb)
			var cs []*collAPI
			for _, n := range []string{"a", "b"} {
				h, err := db.Collection(n)
				must(err)
				cs = append(cs, legacyColl(n, 0, h, nil))
			}
			w := newDocWorld(e, cs, func(u bool) docTx { return kvdb.NewTransaction(u) }, ids)
			docSizes(c, w, ns)
			db.Close()
			db = document.NewDB(kvdb)
			for i, n := range []string{"a", "b"} {
				h, err := db.Collection(n)
				must(err)
				w.colls[i] = legacyColl(n, 0, h, nil)
			}
			w.verify(nil)
			w.do(docOp{kind: opInsert}, nil)
			w.verify(nil)
		})
	})
	contents := docContents()
	r.ExploreProc("contents", 0, func(c *ex.Ctx) {
		plain(c, func(e *env) {
			kvdb := kvmem.New()
			h, err := document.NewDB(kvdb).Collection("a")
			must(err)
			docValues(c, e, legacyColl("a", 0, h, nil), func(u bool) docTx { return kvdb.NewTransaction(u) }, contents)
		})
	})
	r.ExploreProc("on Badger", 0, func(c *ex.Ctx) { hist(c, badgerFor(r), 2, two[:10], depth-1, 0) })
}
