package checks

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/mondis/structure"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

type listModel map[string][]string

func (m listModel) clone() listModel {
	r := listModel{}
	for k, v := range m {
		r[k] = append([]string{}, v...)
	}
	return r
}

func (m listModel) put(k string, v []string) {
	if len(v) == 0 {
		delete(m, k)
	} else {
		m[k] = v
	}
}

type listOp struct {
	name string
	do   func(tx *structure.TxStructure, m listModel, l *hz.Log) bool
}

func bs(ss []string) [][]byte {
	var r [][]byte
	for _, s := range ss {
		r = append(r, []byte(s))
	}
	return r
}

func listOps(keys, values []string, maxLen int) (ops []listOp) {
	add := func(n string, f func(tx *structure.TxStructure, m listModel, l *hz.Log) bool) {
		ops = append(ops, listOp{n, f})
	}
	for _, k := range keys {
		k := k
		kb := []byte(k)
		var pushes [][]string
		for _, v := range values {
			pushes = append(pushes, []string{v})
		}
		pushes = append(pushes, []string{values[0], values[len(values)-1]}, []string{})
		for _, left := range []bool{true, false} {
			left := left
			nm := map[bool]string{true: "L", false: "R"}[left]
			for _, p := range pushes {
				p := p
				add(fmt.Sprintf("%sPush(%q,%q)", nm, k, p), func(tx *structure.TxStructure, m listModel, l *hz.Log) bool {
					if len(m[k])+len(p) > maxLen {
						return false
					}
					var err error
					if left {
						err = tx.LPush(kb, bs(p)...)
					} else {
						err = tx.RPush(kb, bs(p)...)
					}
					l.Logf("-> %v", err)
					l.Assert(err == nil, "%sPush failed: %v", nm, err)
					cur := append([]string{}, m[k]...)
					for _, v := range p {
						if left {
							cur = append([]string{v}, cur...)
						} else {
							cur = append(cur, v)
						}
					}
					m.put(k, cur)
					return true
				})
			}
			add(fmt.Sprintf("%sPop(%q)", nm, k), func(tx *structure.TxStructure, m listModel, l *hz.Log) bool {
				var d []byte
				var err error
				if left {
					d, err = tx.LPop(kb)
				} else {
					d, err = tx.RPop(kb)
				}
				l.Logf("-> %q %v", d, err)
				cur := m[k]
				if len(cur) == 0 {
					l.Assert(cls(err) == "notfound", "%sPop of an absent list = %q,%v", nm, d, err)
					return true
				}
				want := cur[0]
				rest := cur[1:]
				if !left {
					want = cur[len(cur)-1]
					rest = cur[:len(cur)-1]
				}
				l.Assert(err == nil && string(d) == want, "%sPop(%q) = %q,%v want %q of %q", nm, k, d, err, want, cur)
				m.put(k, append([]string{}, rest...))
				return true
			})
		}
		for i := -maxLen - 1; i <= maxLen; i++ {
			i := i
			for _, v := range values[:1] {
				v := v + "!"
				add(fmt.Sprintf("LSet(%q,%d,%q)", k, i, v), func(tx *structure.TxStructure, m listModel, l *hz.Log) bool {
					err := tx.LSet(kb, int64(i), []byte(v))
					l.Logf("-> %v", err)
					cur := m[k]
					j := i
					if j < 0 {
						j += len(cur)
					}
					if j < 0 || j >= len(cur) {
						l.Assert(err != nil, "LSet(%q,%d) out of the range of %q succeeded", k, i, cur)
						return true
					}
					l.Assert(err == nil, "LSet(%q,%d) of %q failed: %v", k, i, cur, err)
					cur = append([]string{}, cur...)
					cur[j] = v
					m.put(k, cur)
					return true
				})
			}
		}
		add(fmt.Sprintf("LClear(%q)", k), func(tx *structure.TxStructure, m listModel, l *hz.Log) bool {
			err := tx.LClear(kb)
			l.Logf("-> %v", err)
			l.Assert(err == nil, "LClear failed: %v", err)
			delete(m, k)
			return true
		})
	}
	return
}

func observeList(tx *structure.TxStructure, m listModel, keys []string, l *hz.Log) {
	for _, k := range keys {
		kb := []byte(k)
		cur := m[k]
		n, err := tx.LLen(kb)
		l.Obs++
		l.Assert(err == nil && n == int64(len(cur)), "LLen(%q) = %d,%v want %d", k, n, err, len(cur))
		all, err := tx.LGetAll(kb)
		l.Assert(err == nil && len(all) == len(cur), "LGetAll(%q) = %q,%v want reverse of %q", k, all, err, cur)
		for i := range all {
			l.Assert(string(all[i]) == cur[len(cur)-1-i], "LGetAll(%q) = %q want reverse of %q", k, all, cur)
		}
		for i := -len(cur) - 2; i <= len(cur)+1; i++ {
			v, err := tx.LIndex(kb, int64(i))
			l.Obs++
			j := i
			if j < 0 {
				j += len(cur)
			}
			switch {
			case len(cur) == 0:
				l.Assert(cls(err) == "notfound", "LIndex(%q,%d) of an absent list = %q,%v", k, i, v, err)
			case j < 0 || j >= len(cur):
				l.Assert(len(v) == 0 && (err == nil || cls(err) == "notfound"), "LIndex(%q,%d) out of the range of %q = %q,%v", k, i, cur, v, err)
			default:
				l.Assert(err == nil && string(v) == cur[j], "LIndex(%q,%d) = %q,%v want %q of %q", k, i, v, err, cur[j], cur)
			}
		}
	}
}

type listState struct {
	snap kvmem.Snap
	m    listModel
}

func listBFS(prefix string, keys, values []string, maxLen, depth int, pairs bool) hz.BFS {
	ops := listOps(keys, values, maxLen)
	n := len(ops)
	total := n
	if pairs {
		total += n * n
	}
	return hz.BFS{
		Init: func() []interface{} { return []interface{}{&listState{nil, listModel{}}} },
		Key:  func(s interface{}) string { return s.(*listState).snap.Key() },
		NOps: func(interface{}) int { return total },
		Name: func(_ interface{}, op int) string {
			if op < n {
				return "txn{" + ops[op].name + "}"
			}
			op -= n
			return "txn{" + ops[op/n].name + "; " + ops[op%n].name + "}"
		},
		MaxDepth: depth,
		Apply: func(si interface{}, op int, l *hz.Log) interface{} {
			s := si.(*listState)
			seq := []int{op}
			if op >= n {
				seq = []int{(op - n) / n, (op - n) % n}
			}
			db := kvmem.FromSnap(s.snap)
			m := s.m.clone()
			t := db.NewTransaction(true)
			rm := newRoomy(prefix)
			tx := structure.New(t, rm.pref[0])
			for _, o := range seq {
				if !ops[o].do(tx, m, l) {
					return nil
				}
				if len(seq) > 1 {
					observeList(tx, m, keys, l)
				}
			}
			l.Assert(db.Snapshot().Key() == s.snap.Key(), "uncommitted changes are visible")
			if err := t.Commit(); err != nil {
				l.Fail("commit: %v", err)
			}
			rt := db.NewTransaction(false)
			observeList(structure.New(rt, rm.pref[0]), m, keys, l)
			l.Assert(rm.intact(prefix), "the bytes behind the prefix given to New have changed: %x", rm.all)
			ns := db.Snapshot()
			want := 0
			for _, v := range m {
				want += len(v) + 1
			}
			l.Assert(ns.Len() == want, "the store holds %d entries, %d elements and list heads should be there: %s", ns.Len(), want, ns)
			return &listState{ns, m}
		},
	}
}

func init() {
	hz.Register("P07", &hz.Check{
		Level:  "model_checking",
		Rule:   "every store content reachable within the depth (breadth first, transitions are the real list operations, single and in ordered pairs inside one transaction), each compared in full with a slice; distinct = distinct store contents",
		Assume: []string{"the in-memory provider agrees with Badger (checked by P01-P03 and by the histories this check replays on Badger)"},
		Run: func(r *hz.R) {
			if r.Quick {
				r.BFS("one-list", listBFS("p", []string{"k"}, []string{"a", ""}, 3, 6, true))
				r.BFS("two-lists", listBFS("", []string{"k", "k\x00"}, []string{"a"}, 2, 6, false))
				r.BFS("long-list", listBFS("", []string{""}, []string{"a"}, 5, 9, false))
			} else {
				r.BFS("one-list", listBFS("p", []string{"k"}, []string{"a", ""}, 4, 9, true))
				r.BFS("two-lists", listBFS("", []string{"k", "k\x00"}, []string{"a", "b"}, 3, 7, false))
				r.BFS("long-list", listBFS("", []string{""}, []string{"a"}, 7, 16, false))
			}
			listSizes(r)
			ops := listOps([]string{"k"}, []string{"a", ""}, 4)
			ops = append(ops, listOps([]string{"k\x00"}, []string{"b"}, 4)...)
			var use []listOp
			for _, o := range ops {
				if !strings.HasPrefix(o.name, "LSet") || strings.Contains(o.name, `"k",0`) || strings.Contains(o.name, `"k",-2`) {
					use = append(use, o)
				}
			}
			depth := 3
			if !r.Quick {
				depth = 4
			}
			p := badgerPool(r)
			defer p.close()
			r.Explore("badger-histories", 0, func(c *ex.Ctx) {
				t := p.get(c.Worker).NewTransaction(true)
				defer t.Discard()
				tx := structure.New(t, []byte("p"))
				m := listModel{}
				l := &hz.Log{}
				for i := 0; i < depth; i++ {
					o := use[c.Choose(len(use))]
					c.Logf("%s", o.name)
					if !o.do(tx, m, l) {
						return
					}
					observeList(tx, m, []string{"k", "k\x00"}, l)
					c.Observe("%v", m)
				}
			})
		},
	})
}
