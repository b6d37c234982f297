//go:build conc

package conc

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/zhiqiangxu/mondis/document"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P26", &hz.Check{
		Level:  "model_checking",
		Rule:   "every sequence of index operations up to the depth, and every schedule of two or three tasks on one collection up to the stated number of preemptions and storage faults; distinct = distinct final catalogues and results",
		Assume: []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04)", "statements that touch shared memory are atomic; a data race inside one statement is not modelled", "index definitions are changed through one open store at a time"},
		Run:    runP26,
	})
}

type ixf struct {
	n string
	d bool
}

func ixdef(name string, uniq bool, fs ...ixf) document.IndexDefinition {
	d := document.IndexDefinition{Name: name, Option: document.IndexOption{Unique: uniq}}
	for _, f := range fs {
		d.Fields = append(d.Fields, document.IndexField{Name: f.n, Desc: f.d})
	}
	return d
}

// columns is what makes two indexes cover the same columns: order does not matter, nor
// does the direction of a single column.
func columns(d document.IndexDefinition) string {
	var s []string
	for _, f := range d.Fields {
		if len(d.Fields) == 1 {
			f.Desc = false
		}
		s = append(s, fmt.Sprintf("%q %v", f.Name, f.Desc))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

type ixModel map[string]document.IndexDefinition

func (m ixModel) clone() ixModel {
	o := ixModel{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m ixModel) create(d document.IndexDefinition) bool {
	if _, ok := m[d.Name]; ok {
		return false
	}
	for _, o := range m {
		if columns(o) == columns(d) {
			return false
		}
	}
	m[d.Name] = d
	return true
}

func (m ixModel) list() []document.IndexDefinition {
	l := []document.IndexDefinition{}
	for _, d := range m {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}

// ixlist is the index list of the collection. What is reported is the caller's: changing it has
// no effect.
func ixlist(c *document.Collection) []document.IndexDefinition {
	own := c.GetIndexes()
	for i := range own {
		own[i].Name, own[i].Option.Unique = "changed", !own[i].Option.Unique
		for j := range own[i].Fields {
			own[i].Fields[j].Name = "changed"
			own[i].Fields[j].Desc = !own[i].Fields[j].Desc
		}
	}
	l := c.GetIndexes()
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}

// reopened is the index list of the collection in a store opened afresh on what is stored.
func reopened(e *env, snap kvmem.Snap, coll string) []document.IndexDefinition {
	c, err := document.NewDB(kvmem.FromSnap(snap)).Collection(coll)
	if err != nil {
		e.failf("the collection %q cannot be reopened: %v", coll, err)
	}
	return ixlist(c)
}

func (e *env) ixCheck(snap kvmem.Snap, coll string, c *document.Collection, m ixModel) {
	want := m.list()
	if got := ixlist(c); !reflect.DeepEqual(got, want) {
		e.failf("%q: the open collection lists %v, should be %v", coll, got, want)
	}
	if got := reopened(e, snap, coll); !reflect.DeepEqual(got, want) {
		e.failf("%q: the reopened collection lists %v, should be %v", coll, got, want)
	}
}

var ixDefs = []document.IndexDefinition{
	ixdef("n", true, ixf{"a", false}),
	ixdef("n", false, ixf{"b", true}, ixf{"a", false}),
	ixdef("n1", false, ixf{"a", true}),
	ixdef("n1", false, ixf{"a", false}, ixf{"b", true}),
	ixdef("n1", true, ixf{"ab", false}),
	ixdef("\x00n", false, ixf{"a", true}, ixf{"b", true}),
	ixdef("", false, ixf{"z", true}),
	ixdef("n2", false),
}

func ixHistory(c *ex.Ctx, quick bool) {
	depth := 4
	if !quick {
		depth = 5
	}
	plain(c, func(e *env) {
		kvdb := e.db(nil)
		fail, hurt := "", false
		e.onOp = func(op *kvmem.Op) error {
			if string(op.Kind) == fail && (op.Kind != kvmem.KCommit || op.Writes > 0) {
				fail = ""
				hurt = true
				return kvmem.ErrInjected
			}
			return nil
		}
		colls := []string{"a", "b"}
		var db *document.DB
		hs := make([]*document.Collection, 2)
		open := func() {
			db = document.NewDB(kvdb)
			for i, n := range colls {
				var err error
				hs[i], err = db.Collection(n)
				must(err)
			}
		}
		open()
		ms := []ixModel{{}, {}}
		docs := kvdb.Snapshot()
		_ = docs
		did, err := hs[0].InsertOne(bson.M{"a": 1}, nil)
		must(err)
		ids := map[int64]bool{}
		steps := 0
		for d := 0; d < depth; d++ {
			nops := len(ixDefs) + 6
			op := c.Choose(nops)
			// the second collection follows the first with fewer choices
			ci := 0
			if op < 3 || op == len(ixDefs) {
				ci = c.Choose(2)
			}
			h, m := hs[ci], ms[ci]
			hurt = false
			bad := func(err error) bool { return err != nil && !hurt }
			switch {
			case op < len(ixDefs):
				def := ixDefs[op]
				def.Fields = append([]document.IndexField(nil), def.Fields...)
				arg := def.Clone()
				c.Logf("create %v in %s", def, colls[ci])
				iid, err := h.CreateIndex(arg)
				if !reflect.DeepEqual(arg.Fields, def.Fields) && !(len(arg.Fields) == 0 && len(def.Fields) == 0) {
					e.failf("CreateIndex(%v) changed the caller's fields to %v", def, arg.Fields)
				}
				// the caller may do with its own data what it likes
				for i := range arg.Fields {
					arg.Fields[i].Name = "scribble"
				}
				ok := def.Name != "" && len(def.Fields) > 0
				if ok {
					ok = m.clone().create(def)
				}
				switch {
				case err == nil && !ok:
					e.failf("creating %v succeeded beside %v", def, m.list())
				case err == nil:
					m.create(def)
					if ids[iid] {
						e.failf("the index id %d was given twice", iid)
					}
					ids[iid] = true
				case ok && bad(err):
					e.failf("creating %v beside %v: %v", def, m.list(), err)
				}
			case op < len(ixDefs)+3:
				name := []string{"n", "n1", "\x00n"}[op-len(ixDefs)]
				c.Logf("drop %q in %s", name, colls[ci])
				exists, err := h.DropIndex(name)
				_, had := m[name]
				if bad(err) {
					e.failf("drop: %v", err)
				}
				if err == nil {
					if exists != had {
						e.failf("dropping %q answered %v with %v", name, exists, m.list())
					}
					delete(m, name)
				}
			case op == len(ixDefs)+3:
				c.Logf("reopen")
				fail = ""
				open()
			case op == len(ixDefs)+4:
				c.Logf("fail commit")
				fail = string(kvmem.KCommit)
			case op == len(ixDefs)+5:
				c.Logf("fail get")
				fail = string(kvmem.KGet)
			}
			steps++
			for i, n := range colls {
				e.ixCheck(kvdb.Snapshot(), n, hs[i], ms[i])
			}
		}
		fail = ""
		if _, err := hs[0].GetOne(did, nil); err != nil {
			e.failf("the document is gone: %v", err)
		}
		c.Observe("%v %v", ms[0].list(), ms[1].list())
	})
}

// ixSizes: every number of indexes, and of columns in one, with every one of them still
// refused a second time, dropped in different orders.
func ixSizes(c *ex.Ctx, max []int) {
	n := max[c.Choose(len(max))]
	kind := c.Choose(3)
	order := c.Choose(3)
	plain(c, func(e *env) {
		kvdb := e.db(nil)
		h, err := document.NewDB(kvdb).Collection("a")
		must(err)
		m := ixModel{}
		ids := map[int64]bool{}
		mk := func(i int) document.IndexDefinition {
			switch kind {
			case 0:
				return ixdef(fmt.Sprint("x", i), i%2 == 0, ixf{fmt.Sprint("f", i), i%3 == 0})
			case 1: // all share their first columns
				return ixdef(fmt.Sprint("x", i), false, ixf{"a", false}, ixf{"b", true}, ixf{fmt.Sprint("f", i), true})
			default: // growing: i+1 columns
				d := ixdef(fmt.Sprint("x", i), false)
				for k := 0; k <= i; k++ {
					d.Fields = append(d.Fields, document.IndexField{Name: fmt.Sprint("f", k), Desc: k%2 == 0})
				}
				return d
			}
		}
		swapped := func(d document.IndexDefinition, name string) document.IndexDefinition {
			d.Name = name
			f := append([]document.IndexField(nil), d.Fields...)
			for i, j := 0, len(f)-1; i < j; i, j = i+1, j-1 {
				f[i], f[j] = f[j], f[i]
			}
			d.Fields = f
			return d
		}
		full := func() {
			for i := 0; i < n; i++ {
				d := mk(i)
				_, has := m[d.Name]
				for k, o := range []document.IndexDefinition{ixdef(d.Name, false, ixf{"other", false}), swapped(d, "other")} {
					if !has {
						continue
					}
					if _, err := h.CreateIndex(o); err == nil {
						e.failf("with %d indexes %v was created beside %v (%d)", len(m), o, d, k)
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			d := mk(i)
			id, err := h.CreateIndex(d.Clone())
			if err != nil || !m.create(d) {
				e.failf("creating index %d, %v: %v", i, d, err)
			}
			if ids[id] {
				e.failf("the index id %d was given twice", id)
			}
			ids[id] = true
		}
		e.ixCheck(kvdb.Snapshot(), "a", h, m)
		full()
		// once more from a store opened afresh
		h, err = document.NewDB(kvdb).Collection("a")
		must(err)
		e.ixCheck(kvdb.Snapshot(), "a", h, m)
		full()
		for k := 0; k < n; k++ {
			i := []int{k, n - 1 - k, (k*7 + 3) % n}[order]
			name := fmt.Sprint("x", i)
			_, had := m[name]
			exists, err := h.DropIndex(name)
			if err != nil || exists != had {
				e.failf("dropping %q with %d indexes: %v %v", name, len(m), exists, err)
			}
			delete(m, name)
			if k%8 == 0 || len(m) < 4 {
				e.ixCheck(kvdb.Snapshot(), "a", h, m)
			}
			if k == n/2 {
				// what was dropped can be created again
				d := mk(i)
				id, err := h.CreateIndex(d.Clone())
				if err != nil || !m.create(d) || ids[id] {
					e.failf("creating %v again: %v, id %d", d, err, id)
				}
				e.ixCheck(kvdb.Snapshot(), "a", h, m)
			}
		}
		e.ixCheck(kvdb.Snapshot(), "a", h, m)
		c.Observe("%d %d %d %d", n, kind, order, len(m))
	})
}

func runP26(r *hz.R) {
	pb := 2
	if !r.Quick {
		pb = 3
	}
	r.ExploreProc("histories", 0, func(c *ex.Ctx) { ixHistory(c, r.Quick) })
	widths := sizes(24, 32, 50, 64, 100)
	if !r.Quick {
		widths = sizes(70, 100, 128, 200, 256)
	}
	r.ExploreProc("sizes", 0, func(c *ex.Ctx) { ixSizes(c, widths) })
	na := ixdef("n", false, ixf{"b", true}, ixf{"a", false})
	nb := ixdef("n", true, ixf{"c", false})
	ma := ixdef("m", true, ixf{"a", false}, ixf{"b", true})
	type op struct {
		create *document.IndexDefinition
		drop   string
	}
	cr := func(d document.IndexDefinition) op { return op{create: &d} }
	dr := func(n string) op { return op{drop: n} }
	// before, then the tasks
	type prog struct {
		pre   []op
		tasks [][]op
	}
	progs := []prog{
		{nil, [][]op{{cr(na)}, {cr(nb)}}},
		{nil, [][]op{{cr(na)}, {cr(ma)}}},
		{nil, [][]op{{cr(na), dr("n")}, {dr("n"), cr(nb)}}},
		{[]op{cr(na)}, [][]op{{dr("n"), cr(nb)}, {dr("n")}}},
		{[]op{cr(na)}, [][]op{{dr("n")}, {cr(ma)}, {cr(nb)}}},
		{[]op{cr(na)}, [][]op{{dr("n"), cr(na)}, {dr("n"), cr(ma)}}},
	}
	r.ExploreProc("concurrent", pb, func(c *ex.Ctx) {
		p := progs[c.Choose(len(progs))]
		bubble(c, func(e *env) {
			kvdb := e.db(nil)
			h, err := document.NewDB(kvdb).Collection("a")
			must(err)
			type done struct {
				op   op
				task int
				hit  bool
				err  error
			}
			var hist []done
			do := func(task int, o op) {
				if o.create != nil {
					_, err := h.CreateIndex(o.create.Clone())
					hist = append(hist, done{o, task, err == nil, err})
				} else {
					hit, err := h.DropIndex(o.drop)
					if err != nil && err != kvmem.ErrConflict && err != kvmem.ErrInjected {
						e.failf("drop: %v", err)
					}
					hist = append(hist, done{o, task, hit && err == nil, err})
				}
			}
			base := ixModel{}
			for _, o := range p.pre {
				do(-1, o)
				base.create(*o.create)
			}
			hist = nil
			e.faults = 1
			e.onOp = commitFault(e)
			for i := range p.tasks {
				i := i
				e.s.Go(fmt.Sprint("t", i), func() {
					for _, o := range p.tasks[i] {
						do(i, o)
					}
				})
			}
			e.run()
			got := ixlist(h)
			stored := reopened(e, kvdb.Snapshot(), "a")
			if !reflect.DeepEqual(got, stored) {
				e.failf("the open collection lists %v, reopened %v", got, stored)
			}
			// some order of what took effect explains the result
			var eff [][]done
			for i := range p.tasks {
				var l []done
				for _, d := range hist {
					if d.task == i && d.hit {
						l = append(l, d)
					}
				}
				eff = append(eff, l)
			}
			if !explain(base, eff, func(o done) (document.IndexDefinition, string) {
				if o.op.create != nil {
					return *o.op.create, ""
				}
				return document.IndexDefinition{}, o.op.drop
			}, stored) {
				e.failf("no order of the successful operations %v leads to %v", hist, stored)
			}
			c.Observe("%v %v", stored, len(hist))
		})
	})
}

// explain looks for an order of the successful operations that leads to the list.
func explain[D any](base ixModel, eff [][]D, get func(D) (document.IndexDefinition, string), want []document.IndexDefinition) bool {
	empty := true
	for i, l := range eff {
		if len(l) == 0 {
			continue
		}
		empty = false
		m := base.clone()
		def, drop := get(l[0])
		if drop != "" {
			if _, ok := m[drop]; !ok {
				continue
			}
			delete(m, drop)
		} else if !m.create(def) {
			continue
		}
		rest := append([][]D{}, eff...)
		rest[i] = l[1:]
		if explain(m, rest, get, want) {
			return true
		}
	}
	return empty && reflect.DeepEqual(base.list(), want)
}

// sizes are all numbers up to n and the neighbourhoods of larger round numbers.
func sizes(n int, round ...int) (r []int) {
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	for _, c := range round {
		for d := -1; d <= 1; d++ {
			if c+d > n {
				r = append(r, c+d)
			}
		}
	}
	return
}
