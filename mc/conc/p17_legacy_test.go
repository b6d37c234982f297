//go:build conc

package conc

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P17", &hz.Check{
		Level:  "model_checking",
		Rule:   "every schedule of the tasks up to the stated number of preemptions and storage faults, and every sequential history up to the depth; distinct = distinct histories of results",
		Assume: []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04)", "statements that touch shared memory are atomic; a data race inside one statement is not modelled", "documents are inserted under ids the application did not choose itself"},
		Run:    runP17,
	})
}

// cids reads the collection ids from the stored catalogue.
func cids(e *env, snap kvmem.Snap) map[string]int64 {
	out := map[string]int64{}
	by := map[int64]string{}
	prefix := document.EncodeMetaCollectionName2IDKey(nil, "")
	prefix = prefix[:len(prefix)-9]
	for k, v := range snap.Map() {
		if !strings.HasPrefix(k, string(prefix)) {
			continue
		}
		_, name, err := memcomparable.DecodeBytes([]byte(k[len(prefix):]), nil)
		if err != nil {
			e.failf("catalogue entry %q: %v", k, err)
		}
		id, err := numeric.DecodeFromBinary([]byte(v))
		if err != nil {
			e.failf("catalogue entry %q: %v", k, err)
		}
		if o, ok := by[int64(id)]; ok {
			e.failf("the collections %q and %q have the same id %d", o, name, id)
		}
		by[int64(id)] = string(name)
		out[string(name)] = int64(id)
	}
	return out
}

// legacy is what has been acknowledged.
type legacy struct {
	cid  map[string]int64
	docs map[string]map[int64]string
	iids map[int64]string
	n    int
}

func newLegacy() *legacy {
	return &legacy{cid: map[string]int64{}, docs: map[string]map[int64]string{}, iids: map[int64]string{}}
}

func (l *legacy) doc(e *env, coll string, did int64, mark string) {
	m := l.docs[coll]
	if m == nil {
		m = map[int64]string{}
		l.docs[coll] = m
	}
	if o, ok := m[did]; ok {
		e.failf("the document id %d of %q was given to %s and to %s", did, coll, o, mark)
	}
	if did <= 0 {
		e.failf("document id %d", did)
	}
	m[did] = mark
}

func (l *legacy) index(e *env, iid int64, mark string) {
	if o, ok := l.iids[iid]; ok {
		e.failf("the index id %d was given to %s and to %s", iid, o, mark)
	}
	l.iids[iid] = mark
}

// check compares what is stored with what was acknowledged.
func (l *legacy) check(e *env, snap kvmem.Snap) {
	cs := cids(e, snap)
	for n, c := range l.cid {
		if cs[n] != c {
			e.failf("the collection %q had the id %d, now %d", n, c, cs[n])
		}
	}
	for n, c := range cs {
		l.cid[n] = c
	}
	m := snap.Map()
	for n, docs := range l.docs {
		for did, mark := range docs {
			v, ok := m[string(document.EncodeCollectionDocumentKey(nil, cs[n], did))]
			if !ok {
				e.failf("the document %s of %q, inserted as %d, is not stored", mark, n, did)
			}
			var d bson.M
			if err := bson.Unmarshal([]byte(v), &d); err != nil || fmt.Sprint(d["m"]) != mark {
				e.failf("under the id %d of %q there is %v, not %s", did, n, d, mark)
			}
		}
	}
}

func (l *legacy) key() string {
	var s []string
	for n, c := range l.cid {
		s = append(s, fmt.Sprint("c", n, c))
	}
	for n, d := range l.docs {
		for did, m := range d {
			s = append(s, fmt.Sprint("d", n, did, m))
		}
	}
	for i, m := range l.iids {
		s = append(s, fmt.Sprint("i", i, m))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func legacyErr(err error) bool {
	return err == kvmem.ErrConflict || err == kvmem.ErrInjected || err == kvmem.ErrDead || closedErr(err)
}

func closedErr(err error) bool {
	return err == document.ErrAlreadyClosed || err == document.ErrAlreadyClosing || (err != nil && strings.Contains(err.Error(), "closed"))
}

// legacyProg runs the operations on one store instance.
func legacyProg(e *env, who string, db *document.DB, l *legacy, ops []string) {
	for i, op := range ops {
		mark := fmt.Sprint(who, ".", i)
		f := strings.Fields(op)
		if f[0] == "close" {
			db.Close()
			continue
		}
		c, err := db.Collection(f[1])
		if err != nil {
			if !legacyErr(err) {
				e.failf("%s: collection %q: %v", mark, f[1], err)
			}
			continue
		}
		switch f[0] {
		case "open":
		case "ins":
			did, err := c.InsertOne(bson.M{"m": mark}, nil)
			if err == nil {
				l.doc(e, f[1], did, mark)
			} else if !legacyErr(err) {
				e.failf("%s: insert: %v", mark, err)
			}
		case "ix":
			iid, err := c.CreateIndex(document.IndexDefinition{Name: "n" + mark, Fields: []document.IndexField{{Name: "f" + mark}}})
			if err == nil {
				l.index(e, iid, mark)
			} else if !legacyErr(err) {
				e.failf("%s: create index: %v", mark, err)
			}
		}
	}
}

// seqProgs17 drive the bare sequence.
type bareSeq struct{ s *document.Sequence }

func runP17(r *hz.R) {
	pb := 2
	if !r.Quick {
		pb = 3
	}
	// the bare sequence: threads of one instance, several instances, faults, crash
	nexts := [][]int{{2, 2}, {3, 1}, {1, 1, 1}}
	r.ExploreProc("sequence/shared", pb, func(c *ex.Ctx) {
		bw := uint64(1 + c.Choose(2))
		p := nexts[c.Choose(len(nexts))]
		bubble(c, func(e *env) {
			db := e.db(nil)
			s, err := document.NewSequence(db, []byte("k"), bw)
			must(err)
			h := &ids{held: map[int64]string{}}
			e.faults = 1
			e.onOp = commitFault(e)
			for i, n := range p {
				who, n := fmt.Sprint("t", i), n
				e.s.Go(who, func() {
					last := uint64(0)
					for j := 0; j < n; j++ {
						id, err := s.Next()
						if err != nil {
							if !legacyErr(err) {
								e.failf("next: %v", err)
							}
							continue
						}
						if id <= last {
							e.failf("%s was handed %d after %d", who, id, last)
						}
						last = id
						h.take(e, who, int64(id))
					}
				})
			}
			e.run()
			c.Observe("%s", h.key())
		})
	})
	r.ExploreProc("sequence/instances", pb, func(c *ex.Ctx) {
		bw := uint64(1 + c.Choose(2))
		p := nexts[c.Choose(len(nexts))]
		crash := c.Choose(2) == 1
		bubble(c, func(e *env) {
			db := e.db(nil)
			h := &ids{held: map[int64]string{}}
			e.faults = 1
			e.onOp = commitFault(e)
			for i, n := range p {
				i, who, n := i, fmt.Sprint("i", i), n
				e.s.Go(who, func() {
					// an instance whose first lease failed is used all the same, as the store does
					s, err := document.NewSequence(db, []byte("k"), bw)
					if err != nil && !legacyErr(err) {
						e.failf("open: %v", err)
					}
					for j := 0; j < n; j++ {
						id, err := s.Next()
						if err == nil {
							h.take(e, who, int64(id))
						} else if !legacyErr(err) {
							e.failf("next: %v", err)
						}
					}
					if i == 0 {
						if err := s.ReleaseRemaining(); err != nil && !legacyErr(err) {
							e.failf("release: %v", err)
						}
						id, err := s.Next()
						if err == nil {
							h.take(e, who, int64(id))
						} else if !legacyErr(err) {
							e.failf("next: %v", err)
						}
					}
				})
			}
			e.run()
			if crash {
				e.faults = 0
				s, err := document.NewSequence(e.db(db.Snapshot()), []byte("k"), bw)
				must(err)
				for j := 0; j < 3; j++ {
					id, err := s.Next()
					must(err)
					h.take(e, "successor", int64(id))
				}
			}
			c.Observe("%s", h.key())
		})
	})
	r.ExploreProc("sequence/histories", 0, func(c *ex.Ctx) { legacySeqHistory(c, r.Quick) })
	// the store: threads of one instance
	dbProgs := [][][]string{
		{{"ins a"}, {"ins a"}},
		{{"ins a"}, {"ins b"}},
		{{"ix a", "ins a"}, {"ix b"}},
		{{"ins a", "close"}, {"ins a"}},
		{{"open a", "open b"}, {"open b", "open a"}},
	}
	r.ExploreProc("store/shared", 2, func(c *ex.Ctx) {
		p := dbProgs[c.Choose(len(dbProgs))]
		bubble(c, func(e *env) {
			kvdb := e.db(nil)
			db := document.NewDB(kvdb)
			l := newLegacy()
			e.faults = 1
			e.onOp = commitFault(e)
			for i := range p {
				i, who := i, fmt.Sprint("t", i)
				e.s.Go(who, func() { legacyProg(e, who, db, l, p[i]) })
			}
			e.run()
			l.check(e, kvdb.Snapshot())
			c.Observe("%s", l.key())
		})
	})
	r.ExploreProc("store/instances", pb-1, func(c *ex.Ctx) {
		p := dbProgs[c.Choose(len(dbProgs))]
		end := c.Choose(2)
		bubble(c, func(e *env) {
			kvdb := e.db(nil)
			l := newLegacy()
			e.faults = 1
			e.onOp = commitFault(e)
			for i := range p {
				i, who := i, fmt.Sprint("i", i)
				e.s.Go(who, func() { legacyProg(e, who, document.NewDB(kvdb), l, p[i]) })
			}
			e.run()
			l.check(e, kvdb.Snapshot())
			e.faults = 0
			db2 := e.db(kvdb.Snapshot())
			db := document.NewDB(db2)
			legacyProg(e, "s", db, l, []string{"ins a", "open c", "ins b", "ix a"})
			if end == 1 {
				db.Close()
				db = document.NewDB(db2)
				legacyProg(e, "r", db, l, []string{"ins a", "ix b"})
			}
			l.check(e, db2.Snapshot())
			c.Observe("%s", l.key())
		})
	})
	r.ExploreProc("store/histories", 0, func(c *ex.Ctx) { legacyHistory(c, r.Quick) })
	ns := []int{1, 7, 9, 10, 11, 33, 49, 50, 51, 99, 100, 101, 127, 129, 255, 257}
	long := []int{999, 1000, 1001, 1024, 1999, 2000, 2001, 2049}
	if !r.Quick {
		for n := 2; n <= 260; n++ {
			ns = append(ns, n)
		}
		long = append(long, 1500, 3000, 3001, 4097, 5001)
	}
	r.ExploreProc("sequence/sizes", 0, func(c *ex.Ctx) { legacySizes(c, "sequence", append(ns, 1001)) })
	r.ExploreProc("store/many collections", 0, func(c *ex.Ctx) { legacySizes(c, "open", ns) })
	r.ExploreProc("store/many indexes", 0, func(c *ex.Ctx) { legacySizes(c, "ix", ns) })
	r.ExploreProc("store/many documents", 0, func(c *ex.Ctx) { legacySizes(c, "ins", append(ns, long...)) })
}

// legacySizes: many ids from one or two instances, which end or fail in between.
func legacySizes(c *ex.Ctx, what string, ns []int) {
	n := ns[c.Choose(len(ns))]
	plan := c.Choose(7)
	bw := uint64(0)
	if what == "sequence" {
		bw = []uint64{1, 2, 10, 50, 64, 100, 1000}[c.Choose(7)]
	}
	plain(c, func(e *env) {
		kvdb := e.db(nil)
		fail := false
		e.onOp = func(op *kvmem.Op) error {
			if fail && op.Kind == kvmem.KCommit && op.Writes > 0 {
				fail = false
				return kvmem.ErrInjected
			}
			return nil
		}
		l := newLegacy()
		h := &ids{held: map[int64]string{}}
		dbs := make([]*document.DB, 2)
		seqs := make([]*document.Sequence, 2)
		open := func(i int) {
			if what == "sequence" {
				s, err := document.NewSequence(kvdb, []byte("k"), bw)
				if err != nil {
					e.failf("open: %v", err)
				}
				seqs[i] = s
				return
			}
			dbs[i] = document.NewDB(kvdb)
		}
		end := func(i int) {
			if what == "sequence" {
				must(seqs[i].ReleaseRemaining())
				return
			}
			dbs[i].Close()
		}
		k := 0
		take := func(i int) {
			k++
			who := fmt.Sprint("t", k)
			switch what {
			case "sequence":
				id, err := seqs[i].Next()
				if err == nil {
					h.take(e, who, int64(id))
				} else if err != kvmem.ErrInjected {
					e.failf("id %d: %v", k, err)
				}
			case "open":
				legacyProg(e, who, dbs[i], l, []string{"open c" + who})
			default:
				legacyProg(e, who, dbs[i], l, []string{what + " a"})
			}
		}
		c.Logf("%s: %d, plan %d, lease %d", what, n, plan, bw)
		open(0)
		if plan == 2 || plan == 3 {
			open(1)
		}
		for j := 0; j < n; j++ {
			i := 0
			switch plan {
			case 2: // two instances in turns
				i = j % 2
			case 3: // one after the other
				if j >= n/2 {
					i = 1
				}
			case 4: // orderly ends in between
				if j%37 == 36 {
					end(0)
					open(0)
				}
			case 5: // crashes in between
				if j%37 == 36 {
					open(0)
				}
			case 6: // failing commits
				fail = j%11 == 10
			}
			take(i)
		}
		fail = false
		if plan%2 == 0 {
			end(0)
		}
		open(0)
		for j := 0; j < 3; j++ {
			take(0)
		}
		l.check(e, kvdb.Snapshot())
		c.Observe("%d %d %s", len(h.held), len(l.iids), l.key())
	})
}

func commitFault(e *env) func(op *kvmem.Op) error {
	return func(op *kvmem.Op) error {
		if op.Kind == kvmem.KCommit && op.Writes > 0 && e.fault("commit fails") {
			return kvmem.ErrInjected
		}
		return nil
	}
}

// legacySeqHistory: all sequences of operations on one or two instances of a sequence.
func legacySeqHistory(c *ex.Ctx, quick bool) {
	depth := 6
	if !quick {
		depth = 8
	}
	bw := uint64(1 + c.Choose(3))
	plain(c, func(e *env) {
		db := e.db(nil)
		fail := ""
		e.onOp = func(op *kvmem.Op) error {
			if string(op.Kind) == fail {
				fail = ""
				return kvmem.ErrInjected
			}
			return nil
		}
		h := &ids{held: map[int64]string{}}
		nb, err := document.NewSequence(db, []byte("k1"), 2)
		must(err)
		n1, err := nb.Next()
		must(err)
		open := func() *document.Sequence {
			s, err := document.NewSequence(db, []byte("k"), bw)
			if err != nil && err != kvmem.ErrInjected {
				e.failf("open: %v", err)
			}
			return s
		}
		is := []*document.Sequence{open()}
		for d := 0; d < depth; d++ {
			i := 0
			if len(is) > 1 {
				i = c.Choose(2)
			}
			ops := []string{"next", "release", "reopen", "fail commit", "fail get"}
			if len(is) == 1 {
				ops = append(ops, "second instance")
			}
			op := ops[c.Choose(len(ops))]
			c.Logf("%s %d", op, i)
			switch op {
			case "next":
				id, err := is[i].Next()
				if err == nil {
					h.take(e, fmt.Sprint("step ", d), int64(id))
				} else if err != kvmem.ErrInjected {
					e.failf("next: %v", err)
				}
			case "release":
				if err := is[i].ReleaseRemaining(); err != nil && err != kvmem.ErrInjected {
					e.failf("release: %v", err)
				}
			case "reopen":
				is[i] = open()
			case "second instance":
				is = append(is, open())
			case "fail commit":
				fail = string(kvmem.KCommit)
			case "fail get":
				fail = string(kvmem.KGet)
			}
		}
		fail = ""
		n2, err := nb.Next()
		must(err)
		if n2 != n1+1 {
			e.failf("the neighbour's ids went from %d to %d", n1, n2)
		}
		c.Observe("%s", h.key())
	})
}

// legacyHistory: all sequences of store operations, enough of them at once to use up leases.
func legacyHistory(c *ex.Ctx, quick bool) {
	depth := 5
	if !quick {
		depth = 6
	}
	plain(c, func(e *env) {
		kvdb := e.db(nil)
		fail := false
		e.onOp = func(op *kvmem.Op) error {
			if op.Kind == kvmem.KCommit && op.Writes > 0 && fail {
				fail = false
				return kvmem.ErrInjected
			}
			return nil
		}
		l := newLegacy()
		dbs := []*document.DB{document.NewDB(kvdb)}
		for d := 0; d < depth; d++ {
			i := 0
			if len(dbs) > 1 {
				i = c.Choose(2)
			}
			ops := []string{"ins a", "ins ab", "ix a", "open lots", "ix lots", "crash", "reopen", "fail next commit"}
			if len(dbs) == 1 {
				ops = append(ops, "second instance")
			}
			op := ops[c.Choose(len(ops))]
			c.Logf("%s %d", op, i)
			who := fmt.Sprint("s", d)
			switch op {
			case "open lots":
				for j := 0; j < 51; j++ {
					legacyProg(e, who, dbs[i], l, []string{fmt.Sprint("open ", who, "x", j)})
				}
			case "ix lots":
				var p []string
				for j := 0; j < 51; j++ {
					p = append(p, "ix a")
				}
				legacyProg(e, who, dbs[i], l, p)
			case "crash":
				dbs[i] = document.NewDB(kvdb)
			case "reopen":
				dbs[i].Close()
				dbs[i] = document.NewDB(kvdb)
			case "second instance":
				dbs = append(dbs, document.NewDB(kvdb))
			case "fail next commit":
				fail = true
			default:
				legacyProg(e, who, dbs[i], l, []string{op})
			}
		}
		l.check(e, kvdb.Snapshot())
		c.Observe("%s", l.key())
	})
}

var (
	_ mondis.KVDB = (*kvmem.DB)(nil)
	_             = bytes.Equal
)
