//go:build conc

package conc

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P23", &hz.Check{Level: "model_checking", Rule: "every sequence of gaps between refreshes up to the stated number (gaps of one, a few, and around the retained change log), every schedule of schema changes and refreshes up to the stated number of deviations, every sequence of valid and invalid change lists applied to a cache; distinct = distinct final schemas",
		Assume: []string{"a second domain on the same store is refreshed by opening it again, which is what the code offers for refreshing at a chosen moment", "the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04)"}, Run: runP23})
}

// storedView renders the stored schema; views are keyed by version.
func storedView(snap kvmem.Snap, names []string) (v int64, s string) {
	t := kvmem.FromSnap(snap).NewTransaction(true)
	defer t.Discard()
	m := meta.NewMeta(t)
	v, err := m.GetSchemaVersion()
	must(err)
	dbs, err := m.ListDatabases()
	must(err)
	sort.Slice(dbs, func(i, j int) bool { return dbs[i].Name < dbs[j].Name })
	known := map[string]bool{}
	for _, n := range names {
		known[n] = true
	}
	var b strings.Builder
	for _, d := range dbs {
		if !known[d.Name] {
			panic(ex.Failure{Msg: "nobody asked for the database " + d.Name})
		}
		list, err := m.ListCollections(d.ID)
		must(err)
		sort.Slice(list, func(i, j int) bool { return list[i].Name < list[j].Name })
		fmt.Fprintf(&b, "%s(", d.Name)
		for _, c := range list {
			b.WriteString(collStr2(c))
		}
		b.WriteString(")")
	}
	return v, b.String()
}

func collStr2(c *model.CollectionInfo) string {
	s := fmt.Sprintf("{%d %s %v %d", c.ID, c.Name, c.State, len(c.Indices))
	for _, n := range c.IndexOrder {
		i := c.Indices[n]
		if i == nil {
			s += " nothing"
			continue
		}
		s += fmt.Sprintf(" %d %s %v %v %v", i.ID, i.Name, i.Unique, i.State, strings.Join(i.Columns, ","))
	}
	return s + "}"
}

var p23colls = []string{"a", "b", "c", "x"}

// cacheView renders what a schema cache says.
func cacheView(mc *schema.MetaCache, names []string) string {
	ns := append([]string{}, names...)
	sort.Strings(ns)
	var b strings.Builder
	for _, n := range ns {
		if !mc.CheckDBExists(n) {
			continue
		}
		fmt.Fprintf(&b, "%s(", n)
		for _, cn := range p23colls {
			c := mc.CollectionInfo(n, cn)
			if (c != nil) != mc.CheckCollectionExists(n, cn) {
				panic(ex.Failure{Msg: fmt.Sprintf("%s.%s exists and does not", n, cn)})
			}
			if c != nil {
				for _, i := range append([]string{"zz"}, c.IndexOrder...) {
					if mc.CheckIndexExists(n, cn, i) != (c.Indices[i] != nil) {
						panic(ex.Failure{Msg: fmt.Sprintf("index %s of %s.%s exists and does not", i, n, cn)})
					}
				}
				b.WriteString(collStr2(c))
			}
		}
		b.WriteString(")")
	}
	return b.String()
}

// watcher compares the schemas in memory with the stored ones at every step.
type watcher struct {
	w     *dw
	names []string
	views map[int64]string
	kvc   int
	seen  map[*schema.MetaCache]string
	last  map[*domain.Domain]int64
	dos   []*domain.Domain
}

func newWatcher(w *dw, names []string) *watcher {
	return &watcher{w: w, names: names, views: map[int64]string{}, kvc: -1, seen: map[*schema.MetaCache]string{}, last: map[*domain.Domain]int64{}}
}

// cache of a domain, nil before its first schema.
func (x *watcher) cache(do *domain.Domain) *schema.MetaCache {
	for _, n := range x.names {
		db, err := do.DB(n)
		if err == nil {
			t := db.Txn(false)
			defer t.Discard()
			return t.StartMetaCache()
		}
		if err != dml.ErrDBNotExists {
			x.w.e.failf("opening %q: %v", n, err)
		}
	}
	return nil
}

func (x *watcher) stored() {
	if x.kvc != x.w.kvdb.Commits {
		x.kvc = x.w.kvdb.Commits
		v, s := storedView(x.w.kvdb.Snapshot(), x.names)
		if o, ok := x.views[v]; ok && o != s {
			x.w.e.failf("the stored schema changed without a new version %d: %s, now %s", v, o, s)
		}
		x.views[v] = s
	}
}

func (x *watcher) look() {
	x.stored()
	for _, do := range x.dos {
		mc := x.cache(do)
		if mc == nil {
			if x.last[do] > 0 {
				x.w.e.failf("the schema in memory is gone")
			}
			continue
		}
		v := mc.Version()
		if v < x.last[do] {
			x.w.e.failf("the schema in memory went back from version %d to %d", x.last[do], v)
		}
		x.last[do] = v
		if _, ok := x.seen[mc]; ok {
			continue
		}
		s := cacheView(mc, x.names)
		x.seen[mc] = s
		want, ok := x.views[v]
		if !ok {
			x.w.e.failf("the schema in memory has the version %d, which was never stored", v)
		}
		if s != want {
			x.w.e.failf("the schema in memory of version %d is\n%s\nstored was\n%s", v, s, want)
		}
	}
}

// final: nothing a reader holds has changed, and everything is up to date.
func (x *watcher) final(current bool) {
	x.look()
	for mc, s := range x.seen {
		if now := cacheView(mc, x.names); now != s {
			x.w.e.failf("a schema of version %d held by a reader changed from\n%s\nto\n%s", mc.Version(), s, now)
		}
	}
	v, _ := storedView(x.w.kvdb.Snapshot(), x.names)
	for i, do := range x.dos {
		if current && x.last[do] != v {
			x.w.e.failf("domain %d works with the schema version %d, stored is %d", i, x.last[do], v)
		}
	}
}

// refresh a reader's domain.
func (x *watcher) refresh(do *domain.Domain) error {
	err := do.Init()
	if err == dml.ErrSequenceAlreadyExists {
		return nil
	}
	return err
}

func runP23(r *hz.R) {
	pb := 1
	if !r.Quick {
		pb = 2
	}
	shape := func(db string, i int) ddl.CreateSchemaInput {
		return schemaIn(db, [][]string{{"a"}, {"b:i,j", "a"}, {"c:k"}, {"a:i", "b:i", "c"}}[i%4]...)
	}
	gaps := func(c *ex.Ctx, sets [][]int) {
		var gs []int
		for _, s := range sets {
			gs = append(gs, s[c.Choose(len(s))])
		}
		off := c.Choose(2)
		total := 1
		for _, g := range gs {
			total += g
		}
		var names []string
		for i := 0; i < total; i++ {
			names = append(names, fmt.Sprint("d", i))
		}
		bubble(c, func(e *env) {
			e.s.Choose = func(n int, dev bool) int { return 0 }
			e.s.Budget = func() int { return 0 }
			e.s.MaxSteps = 2000000
			e.s.Horizon = 24 * time.Hour
			e.s.NoStmt = true
			w := newDW(e)
			usedCID = int64(8 * total)
			w.boot(nil)
			x := newWatcher(w, names)
			next := 0
			create := func(k int) {
				e.s.Go("client", func() {
					for i := 0; i < k; i++ {
						in := shape(names[next], next+off)
						next++
						if _, err := w.do.DDL().CreateSchema(context.Background(), in); err != nil {
							e.failf("creating %q: %v", in.DB, err)
						}
						e.quietly(x.stored)
					}
				})
				e.run()
			}
			create(1)
			reader := domain.NewDomain(w.kvdb)
			must(x.refresh(reader))
			x.dos = []*domain.Domain{w.do, reader}
			x.final(true)
			for _, g := range gs {
				create(g)
				must(x.refresh(reader))
				fresh := domain.NewDomain(w.kvdb)
				must(x.refresh(fresh))
				x.dos = []*domain.Domain{w.do, reader, fresh}
				x.final(true)
			}
			c.Observe("%d", len(x.seen))
		})
	}
	around := []int{1, 99, 100, 101}
	small := []int{1, 2, 3}
	if !r.Quick {
		around = []int{1, 2, 50, 98, 99, 100, 101, 102, 150, 201}
	}
	r.ExploreProc("gaps around the change log", 0, func(c *ex.Ctx) { gaps(c, [][]int{around, around}) })
	r.ExploreProc("small gaps", 0, func(c *ex.Ctx) { gaps(c, [][]int{small, small, small, small}) })

	schedules := func(c *ex.Ctx, names []string, stmts bool, reads, faults int, lease time.Duration, lag, readers int) {
		bubble(c, func(e *env) {
			w := newDW(e)
			if lease > 0 {
				setLease(lease)
				defer setLease(0)
				e.s.MaxSteps = 100000
			}
			w.boot(nil)
			x := newWatcher(w, append([]string{"d0", "lag"}, names...))
			e.s.NoStmt = true
			e.quietly(func() {})
			e.s.Go("first", func() {
				if _, err := w.do.DDL().CreateSchema(context.Background(), shape("d0", 1)); err != nil {
					e.failf("creating: %v", err)
				}
			})
			b := e.s.Budget
			e.s.Budget = func() int { return 0 }
			ch := e.s.Choose
			e.s.Choose = func(int, bool) int { return 0 }
			e.run()
			reader := domain.NewDomain(w.kvdb)
			fresh := lag < 0 // the reader loads its first schema while changes are made
			if !fresh {
				must(x.refresh(reader))
			}
			if lag > 0 {
				x.stored()
				e.s.Go("lag", func() {
					if _, err := w.do.DDL().CreateSchema(context.Background(), shape("lag", 2)); err != nil {
						e.failf("creating: %v", err)
					}
				})
				e.run()
			}
			e.s.Budget, e.s.Choose = b, ch
			x.dos = []*domain.Domain{w.do}
			if !fresh {
				x.dos = append(x.dos, reader)
			}
			x.look()
			e.look = x.look
			e.s.NoStmt = !stmts
			e.faults = faults
			e.onOp = func(op *kvmem.Op) error {
				// refreshes only read
				if (op.Kind == kvmem.KGet || op.Kind == kvmem.KScan || op.Kind == kvmem.KExists) && e.fault(string(op.Kind)+" fails") {
					return kvmem.ErrInjected
				}
				return nil
			}
			e.s.Go("client", func() {
				for i, n := range names {
					_, err := w.do.DDL().CreateSchema(context.Background(), shape(n, i))
					if err != nil && faults == 0 {
						e.failf("creating %q: %v", n, err)
					}
					if err == nil {
						e.quietly(func() {
							x.look()
							if x.last[w.do] == 0 || !strings.Contains(x.seen[x.cache(w.do)], n+"(") {
								e.failf("the schema change of %q is not in memory when reported", n)
							}
						})
					}
				}
			})
			for k := 0; k < readers; k++ {
				e.s.Go(fmt.Sprint("reader", k), func() {
					for i := 0; i < reads; i++ {
						var v0 int64
						e.quietly(func() { x.stored(); v0, _ = storedView(w.kvdb.Snapshot(), x.names) })
						err := x.refresh(reader)
						if err != nil && faults == 0 {
							e.failf("refreshing: %v", err)
						}
						e.quietly(func() {
							if err == nil && fresh {
								fresh = false
								x.dos = append(x.dos, reader)
							}
							x.look()
							if err == nil && x.last[reader] < v0 {
								e.failf("after a refresh the schema has the version %d, stored before it was %d", x.last[reader], v0)
							}
						})
					}
				})
			}
			e.run()
			e.look = nil
			e.faults = 0
			e.s.Budget, e.s.Choose = func() int { return 0 }, func(int, bool) int { return 0 }
			w.settle(5 * time.Second)
			must(x.refresh(reader))
			x.final(true)
			v, s := storedView(w.kvdb.Snapshot(), x.names)
			c.Observe("%d %s", v, s)
		})
	}
	r.ExploreProc("schedules", pb+1, func(c *ex.Ctx) { schedules(c, []string{"d1"}, true, 2, 0, 0, 0, 1) })
	r.ExploreProc("storage-level schedules", pb+2, func(c *ex.Ctx) { schedules(c, []string{"d1", "d2"}, false, 1, 0, 0, 0, 1) })
	// the worker's and the timer's refresh of one domain may meet
	r.ExploreProc("refreshes at once", pb, func(c *ex.Ctx) { schedules(c, []string{"d1"}, true, 1, 0, 0, 1, 2) })
	r.ExploreProc("first schema", pb+1, func(c *ex.Ctx) { schedules(c, []string{"d1"}, false, 2, 0, 0, -1, 1) })
	r.ExploreProc("failing reads", pb+1, func(c *ex.Ctx) { schedules(c, []string{"d1"}, false, 2, 2, 0, 0, 1) })
	r.ExploreProc("timed refreshes", pb, func(c *ex.Ctx) { schedules(c, []string{"d1"}, false, 0, 0, time.Second, 0, 0) })

	r.ExploreProc("cache operations", 0, p23cache)
	r.ExploreW("adding an index", 0, 1, 0, func(c *ex.Ctx) {
		addIndex(c, func(e *env, w *dw, err error) {
			x := newWatcher(w, []string{"d0"})
			v, s := storedView(w.kvdb.Snapshot(), x.names)
			mc := x.cache(w.do)
			if mc.Version() != v || cacheView(mc, x.names) != s {
				if !r.Known("P23-addindex", "after AddIndex on an existing collection the schema in memory stays at the version before it for ever: a change of this kind cannot be applied") {
					e.failf("after adding an index the schema in memory has the version %d, stored is %d: %s", mc.Version(), v, s)
				}
			}
		})
	})
}

// p23cache applies valid and invalid change lists to caches.
func p23cache(c *ex.Ctx) {
	names := []string{"d0", "d1", "d2", "d3", "d4", "d5"}
	info := func(i int, id int64) *model.DBInfo {
		in := schemaIn(names[i], [][]string{{"a"}, {"b:i,j", "a"}, {"c:k"}, {"a:i", "b:i", "c"}}[i%4]...)
		d := &model.DBInfo{ID: id, Name: in.DB, Collections: map[string]*model.CollectionInfo{}, CollectionOrder: in.Collections, State: 7}
		for k, cn := range in.Collections {
			ci := &model.CollectionInfo{ID: id + int64(k) + 1, Name: cn}
			for _, ii := range in.Indices[cn] {
				iif := ii.ToModel()
				if ci.Indices == nil {
					ci.Indices = map[string]*model.IndexInfo{}
				}
				ci.Indices[ii.Name] = iif
				ci.IndexOrder = append(ci.IndexOrder, ii.Name)
			}
			d.Collections[cn] = ci
		}
		return d
	}
	diff := func(v int64, i int) *model.SchemaDiff {
		d := &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, Arg: info(i, v*10), CollectionIDs: []int64{v*10 + 1}}
		raw, err := json.Marshal(d.Arg)
		must(err)
		d.RawArg = raw
		return d
	}
	base := int64(c.Choose(2)) * 7
	src := []*model.DBInfo{info(0, 1)}
	if base == 0 {
		base = 1
	}
	cur := schema.NewMetaCache(base, src)
	h := schema.NewHandle()
	must(h.Update(context.Background(), cur))
	type held struct {
		mc *schema.MetaCache
		s  string
	}
	hold := []held{{cur, cacheView(cur, names)}}
	have := map[int]bool{0: true}
	full := []*model.DBInfo{info(0, 1)}
	// the caller keeps and changes what it gave
	src[0].Name = "changed"
	src[0].Collections["a"].Name = "changed"
	src[0].Collections["zz"] = &model.CollectionInfo{}
	ver := base
	var log []string
	for step := 0; step < 3; step++ {
		next := -1
		for i := range names {
			if !have[i] {
				next = i
				break
			}
		}
		k := c.Choose(8)
		var ds []*model.SchemaDiff
		ok := true
		n := 1
		switch k {
		case 0:
			ds = []*model.SchemaDiff{diff(ver+1, next)}
		case 1:
			n = 2
			ds = []*model.SchemaDiff{diff(ver+1, next)}
			if next+1 < len(names) {
				ds = append(ds, diff(ver+2, next+1))
			} else {
				n = 1
			}
		case 2: // a gap before it
			ok = false
			ds = []*model.SchemaDiff{diff(ver+2, next)}
		case 3: // applied already
			ok = false
			ds = []*model.SchemaDiff{diff(ver, next)}
		case 4: // a gap inside
			ok = false
			ds = []*model.SchemaDiff{diff(ver+1, next), diff(ver+3, next)}
		case 5: // the database exists
			ok = false
			ds = []*model.SchemaDiff{diff(ver+1, 0)}
		case 6: // an unknown change
			ok = false
			d := diff(ver+1, next)
			d.Type = model.ActionType(99)
			ds = []*model.SchemaDiff{d}
		case 7: // its argument does not decode
			ok = false
			d := diff(ver+1, next)
			d.RawArg = []byte("{")
			ds = []*model.SchemaDiff{d}
		}
		log = append(log, fmt.Sprint(k))
		nc := h.Get().Clone()
		err := nc.ApplyDiffs(ds)
		if ok != (err == nil) {
			c.Fail("step %v: applying the changes returned %v", log, err)
		}
		if ok {
			must(h.Update(context.Background(), nc))
			for i := 0; i < n; i++ {
				have[next+i] = true
				full = append(full, info(next+i, (ver+int64(i)+1)*10))
			}
			ver += int64(n)
			// the change records stay the caller's
			for _, d := range ds {
				for i := range d.CollectionIDs {
					d.CollectionIDs[i] = -1
				}
			}
			hold = append(hold, held{nc, cacheView(nc, names)})
		}
		got := h.Get()
		if got.Version() != ver {
			c.Fail("step %v: the version is %d, expected %d", log, got.Version(), ver)
		}
		f := schema.NewMetaCache(ver, full)
		if a, b := cacheView(got, names), cacheView(f, names); a != b {
			c.Fail("step %v: step by step\n%s\nfrom scratch\n%s", log, a, b)
		}
		for _, o := range hold {
			if s := cacheView(o.mc, names); s != o.s {
				c.Fail("step %v: a published schema changed from\n%s\nto\n%s", log, o.s, s)
			}
		}
	}
	c.Observe("%v", log)
}

// addIndex runs one AddIndex request on an existing collection, with a minute to finish.
func addIndex(c *ex.Ctx, check func(e *env, w *dw, err error)) {
	bubble(c, func(e *env) {
		e.s.Choose = func(int, bool) int { return 0 }
		e.s.Budget = func() int { return 0 }
		e.s.NoStmt = true
		e.s.MaxSteps = 1000000
		e.s.Horizon = time.Hour
		w := newDW(e)
		w.boot(nil)
		var err error
		e.s.Go("client", func() {
			w.create(schemaIn("d0", "a:i", "b"))
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			_, err = w.do.DDL().AddIndex(ctx, ddl.AddIndexInput{DB: "d0", Collection: "a", IndexInfo: ddl.IndexInfo{Name: "n", Columns: []string{"q"}}})
		})
		e.run()
		w.settle(time.Minute)
		e.quietly(func() { check(e, w, err) })
	})
}
