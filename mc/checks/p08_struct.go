package checks

import (
	"fmt"
	"math"
	"strconv"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

// one namespace mixing all kinds
type nsModel struct {
	str  map[string]string
	hash hashModel
	list listModel
}

func newNS() nsModel { return nsModel{map[string]string{}, hashModel{}, listModel{}} }
func (m nsModel) clone() nsModel {
	return nsModel{cloneMap(m.str), m.hash.clone(), m.list.clone()}
}

type nsOp struct {
	name string
	ns   int
	do   func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool
}

func strOps(k string, lim int64) (ops []nsOp) {
	kb := []byte(k)
	add := func(n string, f func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool) {
		ops = append(ops, nsOp{name: fmt.Sprintf(n, k), do: f})
	}
	for _, v := range []string{"x", ""} {
		v := v
		add("Set(%q,"+strconv.Quote(v)+")", func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool {
			err := tx.Set(kb, []byte(v))
			l.Assert(err == nil, "Set failed: %v", err)
			m.str[k] = v
			return true
		})
	}
	add("Clear(%q)", func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool {
		err := tx.Clear(kb)
		l.Assert(err == nil, "Clear failed: %v", err)
		delete(m.str, k)
		return true
	})
	for _, n := range []int64{0, -1, math.MaxInt64, math.MinInt64} {
		n := n
		add("SetInt64(%q,"+fmt.Sprint(n)+")", func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool {
			err := tx.SetInt64(kb, n)
			l.Assert(err == nil, "SetInt64 failed: %v", err)
			m.str[k] = strconv.FormatInt(n, 10)
			return true
		})
	}
	for _, st := range []int64{1, -3} {
		st := st
		add("Inc(%q,"+fmt.Sprint(st)+")", func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool {
			old, ok := m.str[k]
			var base int64
			var perr error
			if ok {
				base, perr = strconv.ParseInt(old, 10, 64)
			}
			if perr == nil {
				s := base + st
				if (st > 0 && s < base) || (st < 0 && s > base) {
					return false
				}
				if base > -1000 && base < 1000 && (s > lim || s < -lim) {
					return false
				}
			}
			n, err := tx.Inc(kb, st)
			l.Logf("-> %d %v", n, err)
			if perr != nil {
				l.Assert(err != nil, "Inc of %q succeeded with %d", old, n)
				return true
			}
			l.Assert(err == nil && n == base+st, "Inc(%q,%d) = %d,%v want %d", k, st, n, err, base+st)
			m.str[k] = strconv.FormatInt(n, 10)
			return true
		})
	}
	return
}

func observeStr(tx *structure.TxStructure, m map[string]string, keys []string, l *hz.Log) {
	for _, k := range keys {
		v, err := tx.Get([]byte(k))
		want, ok := m[k]
		l.Obs++
		if !ok {
			l.Assert(cls(err) == "notfound", "Get(%q) of an absent string = %q,%v", k, v, err)
			_, err = tx.GetInt64([]byte(k))
			l.Assert(cls(err) == "notfound", "GetInt64(%q) of an absent counter: %v", k, err)
			continue
		}
		l.Assert(err == nil && string(v) == want, "Get(%q) = %q,%v want %q", k, v, err, want)
		wi, perr := strconv.ParseInt(want, 10, 64)
		gi, err := tx.GetInt64([]byte(k))
		if perr != nil {
			l.Assert(err != nil, "GetInt64(%q) of %q = %d", k, want, gi)
		} else {
			l.Assert(err == nil && gi == wi, "GetInt64(%q) = %d,%v want %d", k, gi, err, wi)
		}
	}
}

// mixed operations of one key: one or two of each kind
func mixOps(k string) (ops []nsOp) {
	for _, o := range strOps(k, 2) {
		switch o.name {
		case fmt.Sprintf("Set(%q,\"x\")", k), fmt.Sprintf("Clear(%q)", k), fmt.Sprintf("Inc(%q,1)", k):
			ops = append(ops, o)
		}
	}
	for _, o := range hashOps([]string{k}, []string{"f"}, []string{"x"}, 1) {
		o := o
		switch o.name {
		case fmt.Sprintf("HSet(%q,\"f\",\"x\")", k), fmt.Sprintf("HClear(%q)", k):
			ops = append(ops, nsOp{name: o.name, do: func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool { return o.do(tx, m.hash, l) }})
		}
	}
	for _, o := range listOps([]string{k}, []string{"a"}, 1) {
		o := o
		switch o.name {
		case fmt.Sprintf("LPush(%q,[\"a\"])", k), fmt.Sprintf("RPush(%q,[\"a\"])", k), fmt.Sprintf("LClear(%q)", k), fmt.Sprintf("RPop(%q)", k):
			ops = append(ops, nsOp{name: o.name, do: func(tx *structure.TxStructure, m nsModel, l *hz.Log) bool { return o.do(tx, m.list, l) }})
		}
	}
	return
}

type mixState struct {
	snap kvmem.Snap
	ns   []nsModel
}

func observeNS(tx *structure.TxStructure, m nsModel, keys []string, l *hz.Log) {
	observeStr(tx, m.str, keys, l)
	observeHash(tx, m.hash, keys, []string{"f"}, l)
	observeList(tx, m.list, keys, l)
}

func mixBFS(prefixes, keys []string, strOnly bool, depth int, pairs bool) hz.BFS {
	var ops []nsOp
	for i := range prefixes {
		for _, k := range keys {
			var os []nsOp
			if strOnly {
				os = strOps(k, 4)
			} else {
				os = mixOps(k)
			}
			for _, o := range os {
				o.ns = i
				ops = append(ops, o)
			}
		}
	}
	n := len(ops)
	total := n
	if pairs {
		total += n * n
	}
	return hz.BFS{
		Init: func() []interface{} {
			s := &mixState{}
			for range prefixes {
				s.ns = append(s.ns, newNS())
			}
			return []interface{}{s}
		},
		Key:  func(s interface{}) string { return s.(*mixState).snap.Key() },
		NOps: func(interface{}) int { return total },
		Name: func(_ interface{}, op int) string {
			d := func(o nsOp) string { return fmt.Sprintf("%q:%s", prefixes[o.ns], o.name) }
			if op < n {
				return "txn{" + d(ops[op]) + "}"
			}
			op -= n
			return "txn{" + d(ops[op/n]) + "; " + d(ops[op%n]) + "}"
		},
		MaxDepth: depth,
		Apply: func(si interface{}, op int, l *hz.Log) interface{} {
			s := si.(*mixState)
			seq := []int{op}
			if op >= n {
				seq = []int{(op - n) / n, (op - n) % n}
			}
			db := kvmem.FromSnap(s.snap)
			ns := make([]nsModel, len(s.ns))
			for i := range ns {
				ns[i] = s.ns[i].clone()
			}
			t := db.NewTransaction(true)
			rm := newRoomy(prefixes...)
			obs := func(t mondis.ProviderTxn) {
				for i := range ns {
					observeNS(structure.New(t, rm.pref[i]), ns[i], keys, l)
				}
			}
			for _, o := range seq {
				if !ops[o].do(structure.New(t, rm.pref[ops[o].ns]), ns[ops[o].ns], l) {
					return nil
				}
				if len(seq) > 1 {
					obs(t)
				}
			}
			if err := t.Commit(); err != nil {
				l.Fail("commit: %v", err)
			}
			obs(db.NewTransaction(false))
			l.Assert(rm.intact(prefixes...), "the bytes behind the prefix given to New have changed: %x", rm.all)
			return &mixState{db.Snapshot(), ns}
		},
	}
}

func init() {
	hz.Register("P08", &hz.Check{
		Level:  "model_checking",
		Rule:   "every reachable store content (breadth first, the real operations, alone and in pairs inside one transaction), every string, hash and list of every namespace compared in full with plain maps and slices after each step; distinct = distinct store contents",
		Assume: []string{"the in-memory provider agrees with Badger (checked by P01-P03)", "namespace prefixes do not extend one another"},
		Run: func(r *hz.R) {
			dk := 8
			if r.Quick {
				dk = 6
			}
			r.BFS("strings", mixBFS([]string{"p"}, []string{"", "k", "k\x00"}, true, dk-1, false))
			r.BFS("string-pairs", mixBFS([]string{"p"}, []string{"k", "k\x00\x00\x00\x00\x00\x00\x00"}, true, dk-1, true))
			r.BFS("kinds-one-key", mixBFS([]string{"p"}, []string{"k"}, false, 8, true))
			r.BFS("kinds-extended-keys", mixBFS([]string{"p"}, []string{"k", "k\x00"}, false, dk+1, false))
			r.BFS("kinds-boundary-keys", mixBFS([]string{""}, []string{"\xff\xff\xff\xff\xff\xff\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff"}, false, dk+1, false))
			r.BFS("kinds-empty-key", mixBFS([]string{"p"}, []string{"", "\x00"}, false, dk+1, false))
			r.BFS("kinds-flag-keys", mixBFS([]string{"p"}, []string{"kkkkkkkk", "kkkkkkkkh"}, false, dk+1, false))
			r.BFS("namespaces", mixBFS([]string{"p", "q", "\xff"}, []string{"k"}, false, dk, false))
			r.BFS("namespaces-bytes", mixBFS([]string{"p\x00", "p\xff", "pk"}, []string{"k"}, false, dk, false))
			// counters of package kv on raw keys
			r.Explore("counters", 0, func(c *ex.Ctx) {
				db := kvmem.New()
				want := map[string]int64{}
				steps := []int64{1, -1, 0, 7, math.MaxInt64 / 4, math.MinInt64 / 4}
				keys := []string{"a", "a\x00"}
				depth := 3
				if !r.Quick {
					depth = 4
				}
				for i := 0; i < depth; i++ {
					k := keys[c.Choose(len(keys))]
					st := steps[c.Choose(len(steps))]
					set := c.Choose(2) == 1
					t := db.NewTransaction(true)
					if set {
						c.Logf("SetInt64(%q,%d)", k, st)
						err := kv.SetInt64(t, kv.Key(k), st)
						c.Assert(err == nil, "SetInt64: %v", err)
						want[k] = st
					} else {
						n, err := kv.IncInt64(t, kv.Key(k), st)
						c.Logf("IncInt64(%q,%d) = %d,%v", k, st, n, err)
						want[k] += st
						c.Assert(err == nil && n == want[k], "IncInt64(%q,%d) = %d,%v want %d", k, st, n, err, want[k])
					}
					c.Assert(t.Commit() == nil, "commit failed")
					rt := db.NewTransaction(false)
					for _, k := range keys {
						n, err := kv.GetInt64(rt, kv.Key(k))
						w, ok := want[k]
						c.Observe("%q=%d,%s", k, n, cls(err))
						if ok {
							c.Assert(err == nil && n == w, "GetInt64(%q) = %d,%v want %d", k, n, err, w)
						} else {
							c.Assert(cls(err) == "notfound", "GetInt64(%q) of an absent counter = %d,%v", k, n, err)
						}
					}
				}
			})
		},
	})
}
