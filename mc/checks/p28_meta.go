package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/util"
	"github.com/zhiqiangxu/util/osc"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

var errF = errors.New("function error")

// commitErrs are the reasons a commit gives for failing.
var commitErrs = []error{kvmem.ErrInjected, kv.ErrTxnTooBig, kvmem.ErrConflict, kv.ErrKeyNotFound}

// ---------------------------------------------------------------------- P28

func checkHelper(c *ex.Ctx) {
	helpers := []string{"RunInNewUpdateTxn", "RunInNewUpdateTxnWithCancel", "RunInNewUpdateTxnWithCallback", "RunInNewUpdateTxnWithCallback(nil)", "RunInNewTxn"}
	h := c.Choose(len(helpers))
	base := kvmem.New()
	_ = base.Set([]byte("old"), []byte("0"), nil)
	db := kvmem.FromSnap(base.Snapshot())
	before := db.Snapshot().Key()
	commits, failCommit := 0, false
	var commitErr error
	db.Hook = func(op *kvmem.Op) error {
		if op.Kind == kvmem.KCommit {
			commits++
			k := c.Choose(len(commitErrs) + 1)
			if failCommit = k > 0; failCommit {
				commitErr = commitErrs[k-1]
				return commitErr
			}
		}
		return nil
	}
	calls, cancels, callbacks, nw := 0, 0, 0, 0
	var fErr error
	panicked := false
	fn := func(txn mondis.ProviderTxn) error {
		calls++
		nw = c.Choose(3)
		c.Logf("the function makes %d writes", nw)
		for i := 0; i < nw; i++ {
			err := txn.Set([]byte{'a' + byte(i)}, []byte("v"), nil)
			if h == 4 {
				c.Assert(err != nil, "a write in a read-only transaction was accepted")
			} else {
				c.Assert(err == nil, "write failed: %v", err)
			}
		}
		if v, _, err := txn.Get([]byte("old")); err != nil || string(v) != "0" {
			c.Fail("the function cannot read the database: %q %v", v, err)
		}
		switch c.Choose(6) {
		case 1:
			fErr = errF
		case 2:
			fErr = kv.ErrTxnTooBig
		case 4:
			fErr = kv.ErrKeyNotFound
		case 5:
			fErr = kvmem.ErrConflict
		case 3:
			panicked = true
			panic(errF)
		}
		return fErr
	}
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r != interface{}(errF) {
					panic(r)
				}
			}
		}()
		switch h {
		case 0:
			err = util.RunInNewUpdateTxn(db, fn)
		case 1:
			err = util.RunInNewUpdateTxnWithCancel(db, fn, func() { cancels++ })
		case 2:
			err = util.RunInNewUpdateTxnWithCallback(db, fn, func() {
				callbacks++
				c.Assert(db.Snapshot().Len() == 1+nw, "the callback runs before the commit")
			})
		case 3:
			err = util.RunInNewUpdateTxnWithCallback(db, fn, nil)
		case 4:
			err = util.RunInNewTxn(db, fn)
		}
	}()
	db.Hook = nil
	changed := db.Snapshot().Key() != before
	c.Logf("%s: function error %v, panic %v, commit failed %v", helpers[h], fErr, panicked, failCommit)
	c.Observe("%d %v %d %d %v %v", h, err, cancels, callbacks, changed, panicked)
	c.Assert(calls == 1, "%s called the function %d times", helpers[h], calls)
	c.Assert(db.Begun == db.Ended, "%s left %d transactions open", helpers[h], db.Begun-db.Ended)
	ok := fErr == nil && !panicked
	switch {
	case panicked:
		c.Assert(!changed && commits == 0, "writes of a function that panicked were kept")
		c.Assert(cancels+callbacks == 0, "cancel or callback ran although nothing was committed")
	case h == 4:
		c.Assert(!changed, "a read-only transaction changed the database")
		c.Assert(err == fErr, "RunInNewTxn returned %v, the function %v", err, fErr)
	case !ok:
		c.Assert(!changed && commits == 0, "writes of a function that failed were kept (%d commits)", commits)
		c.Assert(err == fErr, "%s returned %v, the function failed with %v", helpers[h], err, fErr)
		c.Assert(cancels == 0 && callbacks == 0, "cancel/callback ran without a commit")
	case failCommit:
		c.Assert(!changed && commits == 1, "the commit failed, yet something changed")
		c.Assert(err == commitErr, "%s returned %v, the commit failed with %v", helpers[h], err, commitErr)
		want := 0
		if h == 1 {
			want = 1
		}
		c.Assert(cancels == want, "the cancel function ran %d times after a failed commit", cancels)
		c.Assert(callbacks == 0, "the callback ran although the commit failed")
	default:
		c.Assert(err == nil, "%s returned %v although everything succeeded", helpers[h], err)
		c.Assert(commits == 1, "%d commits", commits)
		c.Assert(cancels == 0, "the cancel function ran although the commit succeeded")
		want := 0
		if h == 2 {
			want = 1
		}
		c.Assert(callbacks == want, "the callback ran %d times", callbacks)
	}
	if ok && !failCommit && h != 4 {
		c.Assert(db.Snapshot().Len() == 1+nw, "%d of %d writes are visible", db.Snapshot().Len()-1, nw)
	}
}

func checkTooBig(c *ex.Ctx, maxRounds int) {
	db := kvmem.New()
	commits := 0
	commitErr := error(nil)
	inHelper := true
	db.Hook = func(op *kvmem.Op) error {
		if op.Kind == kvmem.KCommit && inHelper {
			commits++
			if k := c.Dev(len(commitErrs) + 1); k > 0 {
				commitErr = commitErrs[k-1]
				return commitErr
			}
		}
		return nil
	}
	first := db.NewTransaction(true)
	want := map[string]string{}
	var seen []mondis.ProviderTxn
	calls := 0
	var last error
	f := func(txn mondis.ProviderTxn) error {
		if commitErr != nil {
			c.Fail("the function runs again after a failed commit")
		}
		if calls > 0 && last != kv.ErrTxnTooBig {
			c.Fail("the function runs again after it returned %v", last)
		}
		if calls == 0 {
			c.Assert(txn == mondis.ProviderTxn(first), "the first call got another transaction")
		}
		for _, s := range seen {
			c.Assert(s != txn, "a transaction was used twice")
		}
		if calls > 0 {
			// earlier rounds are committed, visible to all, before the next one starts
			m := db.Snapshot().Map()
			c.Assert(reflect.DeepEqual(m, want), "before round %d the database has %v, want %v", calls+1, m, want)
		}
		// the transaction of a round builds on all rounds before it: it sees what they
		// wrote and may change it
		for k := range want {
			v, _, err := txn.Get([]byte(k))
			c.Assert(err == nil && string(v) == want[k], "in round %d, %q is %q (%v), want %q", calls+1, k, v, err, want[k])
		}
		seen = append(seen, txn)
		calls++
		if err := txn.Set([]byte("count"), []byte(fmt.Sprint(calls)), nil); err != nil {
			c.Fail("write refused: %v", err)
		}
		k := fmt.Sprintf("k%03d", calls)
		if err := txn.Set([]byte(k), []byte("v"), nil); err != nil {
			c.Fail("write refused: %v", err)
		}
		last = kv.ErrTxnTooBig
		if calls >= maxRounds {
			last = nil
			switch c.Choose(3) {
			case 1:
				last = errF
			case 2:
				last = kv.ErrTxnTooBig
			}
		} else {
			switch c.Dev(3) {
			case 1:
				last = nil
			case 2:
				last = errF
			}
		}
		if last == kv.ErrTxnTooBig {
			want[k], want["count"] = "v", fmt.Sprint(calls)
		}
		return last
	}
	undo := func() {
		delete(want, fmt.Sprintf("k%03d", calls))
		want["count"] = fmt.Sprint(calls - 1)
		if calls == 1 {
			delete(want, "count")
		}
	}
	final, err := util.TryCommitWhenTxnTooBig(db, first, f)
	inHelper = false
	c.Logf("%d calls, %d commits, last result %v, commit error %v", calls, commits, last, commitErr)
	c.Observe("%d %d %v %v %v", calls, commits, last, commitErr, err)
	c.Assert(final != nil, "no transaction returned")
	c.Assert(calls <= 100, "the function was called %d times", calls)
	if commitErr != nil {
		c.Assert(err == commitErr, "returned %v, the commit failed with %v", err, commitErr)
		undo()
	} else {
		c.Assert(err == last, "returned %v, the function's last result is %v", err, last)
		c.Assert(commits == calls-1, "%d calls, %d commits", calls, commits)
		c.Assert(final == seen[len(seen)-1], "the transaction returned is not the one last used")
		if last == kv.ErrTxnTooBig {
			c.Assert(calls == 100, "gave up after %d calls", calls)
			undo()
		}
		m := db.Snapshot().Map()
		c.Assert(reflect.DeepEqual(m, want), "the database has %d entries, want %d", len(m), len(want))
		if last == nil {
			// the caller commits the rest
			c.Assert(final.Commit() == nil, "the returned transaction cannot be committed")
			want[fmt.Sprintf("k%03d", calls)], want["count"] = "v", fmt.Sprint(calls)
		} else {
			final.Discard()
		}
	}
	m := db.Snapshot().Map()
	c.Assert(reflect.DeepEqual(m, want), "the database has %d entries, want %d", len(m), len(want))
	final.Discard()
	c.Assert(db.Begun == db.Ended, "%d transactions left open", db.Begun-db.Ended)
}

func init() {
	hz.Register("P28", &hz.Check{
		Level: "model_checking",
		Rule:  "every combination of helper, number of writes, function result (success, error, too big, panic) and commit result; for the too-big helper every sequence of results and commit faults up to the round bound, and the retry limit; the real helpers on the in-memory provider",
		Run: func(r *hz.R) {
			r.Explore("helpers", 0, checkHelper)
			r.Explore("helpers-writes", 0, func(c *ex.Ctx) {
				// the committed content is exactly what the function wrote, deleted and overwrote
				db := kvmem.New()
				want := map[string]string{"a": "0", "b": "0"}
				for k, v := range want {
					_ = db.Set([]byte(k), []byte(v), nil)
				}
				h := c.Choose(3)
				fail := c.Choose(2) == 1
				next := cloneMap(want)
				fn := func(txn mondis.ProviderTxn) error {
					for i := 0; i < 3; i++ {
						k := []string{"a", "b", "c"}[c.Choose(3)]
						if c.Choose(2) == 0 {
							v := fmt.Sprint(i)
							c.Assert(txn.Set([]byte(k), []byte(v), nil) == nil, "set")
							next[k] = v
						} else {
							c.Assert(txn.Delete([]byte(k)) == nil, "delete")
							delete(next, k)
						}
					}
					if fail {
						return errF
					}
					return nil
				}
				switch h {
				case 0:
					_ = util.RunInNewUpdateTxn(db, fn)
				case 1:
					_ = util.RunInNewUpdateTxnWithCancel(db, fn, func() {})
				default:
					_ = util.RunInNewUpdateTxnWithCallback(db, fn, nil)
				}
				if !fail {
					want = next
				}
				got := db.Snapshot().Map()
				c.Observe("%v", got)
				c.Assert(reflect.DeepEqual(got, want), "the database has %v, want %v", got, want)
			})
			// real commit conflicts: somebody else changes what the function read
			r.Explore("helpers-conflict", 0, func(c *ex.Ctx) {
				db := kvmem.New()
				_ = db.Set([]byte("a"), []byte("0"), nil)
				h, other := c.Choose(3), c.Choose(2) == 1
				cancels, callbacks := 0, 0
				fn := func(txn mondis.ProviderTxn) error {
					_, _, err := txn.Get([]byte("a"))
					if err != nil {
						return err
					}
					if other {
						_ = db.Set([]byte("a"), []byte("other"), nil)
					}
					return txn.Set([]byte("a"), []byte("mine"), nil)
				}
				var err error
				switch h {
				case 0:
					err = util.RunInNewUpdateTxn(db, fn)
				case 1:
					err = util.RunInNewUpdateTxnWithCancel(db, fn, func() { cancels++ })
				default:
					err = util.RunInNewUpdateTxnWithCallback(db, fn, func() { callbacks++ })
				}
				got := db.Snapshot().Map()["a"]
				c.Observe("%v %q %d %d", err, got, cancels, callbacks)
				if other {
					c.Assert(err != nil && got == "other", "a conflicting commit: error %v, value %q", err, got)
					c.Assert(callbacks == 0 && (h != 1 || cancels == 1), "cancel ran %d times, callback %d times after a conflict", cancels, callbacks)
				} else {
					c.Assert(err == nil && got == "mine", "commit: error %v, value %q", err, got)
					c.Assert(cancels == 0 && (h != 2 || callbacks == 1), "cancel ran %d times, callback %d times", cancels, callbacks)
				}
			})
			rounds := 6
			if !r.Quick {
				rounds = 12
			}
			r.Explore("too-big", 20, func(c *ex.Ctx) { checkTooBig(c, rounds) })
			r.Explore("too-big-limit", 1, func(c *ex.Ctx) { checkTooBig(c, 1000) })
			ds := []time.Duration{-1, 0, 1, 2, 3, time.Second, 1 << 62}
			r.Enum("choose-time", len(ds)*len(ds), func(i int, l *hz.Log) {
				b, m := ds[i/len(ds)], ds[i%len(ds)]
				got := util.ChooseTime(b, m)
				l.Logf("ChooseTime(%d,%d)=%d", b, m, got)
				want := b
				if b == 0 || b > m {
					want = m
				}
				l.Assert(got == want, "ChooseTime(%d,%d) = %d, want %d", b, m, got, want)
			})
		},
	})
}

// ---------------------------------------------------------------------- P29

type catDB struct {
	variant int
	colls   map[int64]int   // collection id -> variant
	ids     map[int64]int64 // collection id -> last id leased
}

type catState struct {
	snap kvmem.Snap
	m    map[int64]*catDB
}

func (s *catState) clone() map[int64]*catDB {
	r := map[int64]*catDB{}
	for k, d := range s.m {
		n := &catDB{d.variant, map[int64]int{}, map[int64]int64{}}
		for a, b := range d.colls {
			n.colls[a] = b
		}
		for a, b := range d.ids {
			n.ids[a] = b
		}
		r[k] = n
	}
	return r
}

func mkColl(id int64, variant int) *model.CollectionInfo {
	c := &model.CollectionInfo{ID: id, Name: fmt.Sprintf("c%d\x00\"", id), State: osc.StatePublic}
	if variant == 1 {
		c.State = osc.StateDeleteOnly
		c.Indices = map[string]*model.IndexInfo{"i": {ID: 9, Name: "i", Columns: []string{"x", "y"}, Unique: true, State: osc.StateWriteOnly, JobRedundant: &model.IndexInfoRedundant{Collection: "c", DB: "d", CID: id}}}
		c.IndexOrder = []string{"i"}
	}
	return c
}

func mkDB(id int64, variant int) *model.DBInfo {
	d := &model.DBInfo{ID: id, Name: fmt.Sprintf("d%d", id), State: osc.StatePublic}
	if variant == 1 {
		d.Collections = map[string]*model.CollectionInfo{"c": mkColl(7, 1)}
		d.CollectionOrder = []string{"c"}
		d.State = osc.StateAbsent
	}
	return d
}

func sameJSON(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func js(a interface{}) string { x, _ := json.Marshal(a); return string(x) }

type catOp struct {
	name string
	// do applies the operation to store and model; refusal means no effect at all
	do func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) (ok bool)
}

func catOps(dbIDs, cids []int64, bw int64) (ops []catOp) {
	res := func(l *hz.Log, err, want error, what string) {
		l.Logf("%s -> %v", what, err)
		l.Assert(err == want, "%s returned %v, want %v", what, err, want)
	}
	for _, d := range dbIDs {
		d := d
		for v := 0; v < 2; v++ {
			v := v
			ops = append(ops, catOp{fmt.Sprintf("CreateDatabase(%d,v%d)", d, v), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
				err := meta.NewMeta(t).CreateDatabase(mkDB(d, v))
				if m[d] != nil {
					res(l, err, meta.ErrDBExists, "CreateDatabase of an existing database")
					return true
				}
				res(l, err, nil, "CreateDatabase")
				m[d] = &catDB{v, map[int64]int{}, map[int64]int64{}}
				return true
			}}, catOp{fmt.Sprintf("UpdateDatabase(%d,v%d)", d, v), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
				err := meta.NewMeta(t).UpdateDatabase(mkDB(d, v))
				if m[d] == nil {
					res(l, err, meta.ErrDBNotExists, "UpdateDatabase of a missing database")
					return true
				}
				res(l, err, nil, "UpdateDatabase")
				m[d].variant = v
				return true
			}})
		}
		ops = append(ops, catOp{fmt.Sprintf("DropDatabase(%d)", d), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
			err := meta.NewMeta(t).DropDatabase(d)
			if m[d] == nil {
				res(l, err, meta.ErrDBNotExists, "DropDatabase of a missing database")
				return true
			}
			res(l, err, nil, "DropDatabase")
			delete(m, d)
			return true
		}})
		for _, c := range cids {
			c := c
			for v := 0; v < 2; v++ {
				v := v
				ops = append(ops, catOp{fmt.Sprintf("CreateCollection(%d,%d,v%d)", d, c, v), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
					err := meta.NewMeta(t).CreateCollection(d, mkColl(c, v))
					if m[d] == nil {
						res(l, err, meta.ErrDBNotExists, "CreateCollection in a missing database")
						return true
					}
					if _, ok := m[d].colls[c]; ok {
						res(l, err, meta.ErrCollectionExists, "CreateCollection of an existing collection")
						return true
					}
					res(l, err, nil, "CreateCollection")
					m[d].colls[c] = v
					return true
				}}, catOp{fmt.Sprintf("UpdateCollection(%d,%d,v%d)", d, c, v), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
					err := meta.NewMeta(t).UpdateCollection(d, mkColl(c, v))
					if m[d] == nil {
						res(l, err, meta.ErrDBNotExists, "UpdateCollection in a missing database")
						return true
					}
					if _, ok := m[d].colls[c]; !ok {
						res(l, err, meta.ErrCollectionNotExists, "UpdateCollection of a missing collection")
						return true
					}
					res(l, err, nil, "UpdateCollection")
					m[d].colls[c] = v
					return true
				}})
			}
			for _, auto := range []bool{false, true} {
				auto := auto
				ops = append(ops, catOp{fmt.Sprintf("DropCollection(%d,%d,%v)", d, c, auto), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
					err := meta.NewMeta(t).DropCollection(d, c, auto)
					if m[d] == nil {
						res(l, err, meta.ErrDBNotExists, "DropCollection in a missing database")
						return true
					}
					if _, ok := m[d].colls[c]; !ok {
						res(l, err, meta.ErrCollectionNotExists, "DropCollection of a missing collection")
						return true
					}
					res(l, err, nil, "DropCollection")
					delete(m[d].colls, c)
					if auto {
						delete(m[d].ids, c)
					}
					return true
				}})
			}
			ops = append(ops, catOp{fmt.Sprintf("lease ids of (%d,%d)", d, c), func(db *kvmem.DB, t mondis.ProviderTxn, m map[int64]*catDB, l *hz.Log) bool {
				if t != nil || m[d] == nil || m[d].ids[c] >= 2*bw {
					return false // runs its own transaction
				}
				if _, ok := m[d].colls[c]; !ok {
					return false
				}
				s, err := meta.NewDocIDSequence(db, d, c, bw)
				l.Assert(err == nil, "NewDocIDSequence: %v", err)
				id, err := s.Next()
				l.Logf("next id %d %v", id, err)
				l.Assert(err == nil && id == m[d].ids[c]+1, "the next id is %d (%v), the last lease ended at %d", id, err, m[d].ids[c])
				m[d].ids[c] += bw
				return true
			}})
		}
	}
	return
}

func observeCat(t mondis.ProviderTxn, m map[int64]*catDB, dbIDs, cids []int64, l *hz.Log) {
	mt := meta.NewMeta(t)
	all, err := mt.ListDatabases()
	l.Obs++
	l.Assert(err == nil && len(all) == len(m), "ListDatabases: %d databases, %v, want %d", len(all), err, len(m))
	for _, g := range all {
		d := m[g.ID]
		if d == nil || !sameJSON(g, mkDB(g.ID, d.variant)) {
			l.Fail("ListDatabases shows %s", js(g))
		}
	}
	for _, id := range dbIDs {
		d := m[id]
		g, err := mt.GetDatabase(id)
		l.Obs++
		cl, lerr := mt.ListCollections(id)
		if d == nil {
			l.Assert(err == meta.ErrDBNotExists, "GetDatabase(%d) of a missing database: %v %v", id, g, err)
			l.Assert(lerr == meta.ErrDBNotExists, "ListCollections(%d) of a missing database: %v", id, lerr)
		} else {
			if err != nil || !sameJSON(g, mkDB(id, d.variant)) {
				l.Fail("GetDatabase(%d) = %s, %v want %s", id, js(g), err, js(mkDB(id, d.variant)))
			}
			l.Assert(lerr == nil && len(cl) == len(d.colls), "ListCollections(%d): %d entries, %v, want %d", id, len(cl), lerr, len(d.colls))
			for _, c := range cl {
				v, ok := d.colls[c.ID]
				if !ok || !sameJSON(c, mkColl(c.ID, v)) {
					l.Fail("ListCollections(%d) shows %s", id, js(c))
				}
			}
		}
		for _, cid := range cids {
			c, err := mt.GetCollection(id, cid)
			l.Obs++
			if d == nil {
				l.Assert(err == meta.ErrDBNotExists, "GetCollection(%d,%d) in a missing database: %v", id, cid, err)
				continue
			}
			v, ok := d.colls[cid]
			if !ok {
				l.Assert(err == meta.ErrCollectionNotExists, "GetCollection(%d,%d) of a missing collection: %v", id, cid, err)
				continue
			}
			if err != nil || !sameJSON(c, mkColl(cid, v)) {
				l.Fail("GetCollection(%d,%d) = %s, %v want %s", id, cid, js(c), err, js(mkColl(cid, v)))
			}
		}
	}
}

func catKey(m map[int64]*catDB) string {
	var ks []string
	for k, d := range m {
		ks = append(ks, fmt.Sprint(k, d.variant, d.colls, d.ids))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func catBFS(dbIDs, cids []int64, bw int64, pairs bool, depth int) hz.BFS {
	ops := catOps(dbIDs, cids, bw)
	n := len(ops)
	total := n
	if pairs {
		total += n * n
	}
	return hz.BFS{
		Init: func() []interface{} { return []interface{}{&catState{nil, map[int64]*catDB{}}} },
		Key:  func(s interface{}) string { x := s.(*catState); return x.snap.Key() + catKey(x.m) },
		NOps: func(interface{}) int { return total },
		Name: func(_ interface{}, op int) string {
			if op < n {
				return "txn{" + ops[op].name + "}"
			}
			op -= n
			return "txn{" + ops[op/n].name + "; " + ops[op%n].name + "}"
		},
		MaxDepth: depth,
		Apply: func(si interface{}, op int, l *hz.Log) interface{} {
			s := si.(*catState)
			seq := []int{op}
			if op >= n {
				seq = []int{(op - n) / n, (op - n) % n}
			}
			db := kvmem.FromSnap(s.snap)
			m := s.clone()
			var t mondis.ProviderTxn
			own := len(seq) == 1 && strings.HasPrefix(ops[op].name, "lease")
			before := catKey(m)
			if !own {
				t = db.NewTransaction(true)
			}
			for _, o := range seq {
				if !ops[o].do(db, t, m, l) {
					return nil
				}
				if len(seq) > 1 {
					observeCat(t, m, dbIDs, cids, l)
				}
			}
			if !own {
				l.Assert(db.Snapshot().Key() == s.snap.Key(), "uncommitted changes are visible")
				l.Assert(t.Commit() == nil, "commit failed")
			}
			if len(seq) == 1 && catKey(m) == before {
				if db.Snapshot().Key() != s.snap.Key() {
					// a refused (or repeated) operation has no effect
					l.Fail("the operation changed the store: %s", db.Snapshot())
				}
			}
			rt := db.NewTransaction(false)
			observeCat(rt, m, dbIDs, cids, l)
			// id counters: what a new sequence would hand out
			for _, d := range dbIDs {
				if m[d] == nil {
					continue
				}
				for _, c := range cids {
					if _, ok := m[d].colls[c]; !ok && m[d].ids[c] == 0 {
						continue
					}
					probe := kvmem.FromSnap(db.Snapshot())
					q, err := meta.NewDocIDSequence(probe, d, c, bw)
					l.Assert(err == nil, "NewDocIDSequence: %v", err)
					id, err := q.Next()
					l.Obs++
					l.Assert(err == nil && id == m[d].ids[c]+1, "the next id of (%d,%d) is %d (%v), want %d", d, c, id, err, m[d].ids[c]+1)
				}
			}
			return &catState{db.Snapshot(), m}
		},
	}
}

type verState struct {
	snap    kvmem.Snap
	version int64
	boot    int64
	global  int64
	diffs   map[int64]int
}

func mkDiff(v int64, variant int) *model.SchemaDiff {
	d := &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, Arg: mkDB(v, variant)}
	if variant == 1 {
		d.Type = model.ActionAddIndex
		d.CollectionIDs = []int64{1, -1, 1 << 60}
	}
	return d
}

func verBFS(lim int64) hz.BFS {
	versions := []int64{0, 1, 10, 11}
	type op struct {
		name string
		do   func(mt *meta.Meta, s *verState, l *hz.Log) bool
	}
	ops := []op{
		{"GenSchemaVersion", func(mt *meta.Meta, s *verState, l *hz.Log) bool {
			if s.version >= lim {
				return false
			}
			v, err := mt.GenSchemaVersion()
			l.Logf("%d %v", v, err)
			l.Assert(err == nil && v == s.version+1, "GenSchemaVersion = %d,%v after %d", v, err, s.version)
			s.version = v
			return true
		}},
		{"GenGlobalID", func(mt *meta.Meta, s *verState, l *hz.Log) bool {
			if s.global >= lim {
				return false
			}
			v, err := mt.GenGlobalID()
			l.Logf("%d %v", v, err)
			l.Assert(err == nil && v == s.global+1, "GenGlobalID = %d,%v after %d", v, err, s.global)
			s.global = v
			return true
		}},
	}
	for _, n := range []int{1, 3} {
		n := n
		ops = append(ops, op{fmt.Sprintf("GenGlobalIDs(%d)", n), func(mt *meta.Meta, s *verState, l *hz.Log) bool {
			if s.global >= lim {
				return false
			}
			a, b, err := mt.GenGlobalIDs(n)
			l.Logf("(%d,%d] %v", a, b, err)
			l.Assert(err == nil && a == s.global && b == a+int64(n), "GenGlobalIDs(%d) = (%d,%d],%v after %d", n, a, b, err, s.global)
			s.global = b
			return true
		}})
	}
	for _, b := range []int64{0, 1, 2} {
		b := b
		ops = append(ops, op{fmt.Sprintf("FinishBootstrap(%d)", b), func(mt *meta.Meta, s *verState, l *hz.Log) bool {
			l.Assert(mt.FinishBootstrap(b) == nil, "FinishBootstrap failed")
			s.boot = b
			return true
		}})
	}
	for _, v := range versions {
		for x := 0; x < 2; x++ {
			v, x := v, x
			ops = append(ops, op{fmt.Sprintf("SetSchemaDiff(%d,v%d)", v, x), func(mt *meta.Meta, s *verState, l *hz.Log) bool {
				l.Assert(mt.SetSchemaDiff(mkDiff(v, x)) == nil, "SetSchemaDiff failed")
				s.diffs[v] = x
				return true
			}})
		}
	}
	return hz.BFS{
		Init: func() []interface{} { return []interface{}{&verState{diffs: map[int64]int{}}} },
		Key:  func(s interface{}) string { return s.(*verState).snap.Key() },
		NOps: func(interface{}) int { return len(ops) },
		Name: func(_ interface{}, o int) string { return "txn{" + ops[o].name + "}" },
		Apply: func(si interface{}, o int, l *hz.Log) interface{} {
			old := si.(*verState)
			s := &verState{old.snap, old.version, old.boot, old.global, map[int64]int{}}
			for k, v := range old.diffs {
				s.diffs[k] = v
			}
			db := kvmem.FromSnap(s.snap)
			t := db.NewTransaction(true)
			if !ops[o].do(meta.NewMeta(t), s, l) {
				return nil
			}
			l.Assert(t.Commit() == nil, "commit failed")
			s.snap = db.Snapshot()
			mt := meta.NewMeta(db.NewTransaction(false))
			v, err := mt.GetSchemaVersion()
			l.Assert(err == nil && v == s.version, "GetSchemaVersion = %d,%v want %d", v, err, s.version)
			v, err = mt.GetBootstrapVersion()
			l.Assert(err == nil && v == s.boot, "GetBootstrapVersion = %d,%v want %d", v, err, s.boot)
			if s.global > 0 {
				v, err = mt.GetGlobalID()
				l.Assert(err == nil && v == s.global, "GetGlobalID = %d,%v want %d", v, err, s.global)
			}
			for _, n := range versions {
				d, err := mt.GetSchemaDiff(n)
				x, ok := s.diffs[n]
				if !ok {
					l.Assert(err == nil && d == nil, "GetSchemaDiff(%d) of a version without entry: %v %v", n, d, err)
					continue
				}
				w := mkDiff(n, x)
				if err != nil || d == nil || d.Version != w.Version || d.Type != w.Type || !sameJSON(d.CollectionIDs, w.CollectionIDs) {
					l.Fail("GetSchemaDiff(%d) = %s, %v want %s", n, js(d), err, js(w))
				}
				arg := &model.DBInfo{}
				if err := d.DecodeArg(arg); err != nil || !sameJSON(arg, w.Arg) {
					l.Fail("argument of entry %d: %s, %v want %s", n, js(arg), err, js(w.Arg))
				}
			}
			return s
		},
	}
}

func init() {
	hz.Register("P29", &hz.Check{
		Level:  "model_checking",
		Rule:   "every reachable catalogue state over colliding database and collection ids (breadth first, transitions are the real catalogue operations, single and in ordered pairs inside one transaction), each compared in full with a model; versions, bootstrap mark, global ids and change log likewise; distinct = distinct store contents",
		Assume: []string{"the in-memory provider agrees with Badger (checked by P01-P03)"},
		Run: func(r *hz.R) {
			r.BFS("versions", verBFS(3))
			catSizes(r)
			if r.Quick {
				r.BFS("one-db", catBFS([]int64{1}, []int64{1, 11}, 2, true, 0))
				r.BFS("two-dbs", catBFS([]int64{1, 11}, []int64{1, 2}, 1, false, 4))
			} else {
				r.BFS("one-db", catBFS([]int64{1}, []int64{1, 11}, 2, true, 0))
				r.BFS("two-dbs", catBFS([]int64{1, 11}, []int64{1, 12}, 1, true, 5))
				r.BFS("three-dbs", catBFS([]int64{1, 11, -1}, []int64{1, -1}, 1, false, 6))
			}
		},
	})
}
