package checks

import (
	"fmt"
	"time"

	"github.com/zhiqiangxu/mondis"

	"mc/ex"
	"mc/hz"
)

// one transaction of a history and what the specification knows about it
type mtxn struct {
	t       mondis.ProviderTxn
	update  bool
	snap    map[string]string
	pend    map[string]*string
	reads   map[string]bool
	startAt int // number of commits when it began
	done    bool
	begun   bool
	acted   bool
}

func (t *mtxn) view() map[string]string {
	m := cloneMap(t.snap)
	for k, v := range t.pend {
		if v == nil {
			delete(m, k)
		} else {
			m[k] = *v
		}
	}
	return m
}

func init() {
	hz.Register("P03", &hz.Check{
		Level:  "model_checking",
		Quick:  300 * time.Second,
		Rule:   "every interleaving of the stated operations of two or three transactions up to the depth (operations are chosen on the fly, so every program and every schedule of it is covered), on the real Badger provider and on the in-memory model; distinct = distinct sequences of observations",
		Assume: []string{"transactions are driven operation by operation from one goroutine, as each ProviderTxn is documented for; Badger's own internal concurrency is trusted"},
		Run: func(r *hz.R) {
			for _, st := range stores(r) {
				if !st.txn {
					st.done()
					continue
				}
				d := 0
				if !r.Quick {
					d = 1
				}
				// updates: who is an update transaction
				isolation(r, st, "two-updates", []bool{true, true}, 5+d, []string{"a", "b"}, "both", false, false)
				isolation(r, st, "conflicts", []bool{true, true}, 5+d, []string{"a", "b"}, "get", false, true)
				isolation(r, st, "conflicts-one-key", []bool{true, true}, 6+d, []string{"a"}, "get", false, true)
				isolation(r, st, "existing", []bool{true, true}, 5+d, []string{"a"}, "exists", false, true)
				isolation(r, st, "missing", []bool{true, true}, 5+d, []string{"b"}, "exists", false, true)
				isolation(r, st, "update-and-reader", []bool{true, false}, 6+d, []string{"a", "b"}, "both", true, false)
				isolation(r, st, "scans", []bool{true, true}, 5+d, []string{"a"}, "get", true, true)
				isolation(r, st, "three", []bool{true, true, true}, 5+d, []string{"a"}, "get", false, true)
				st.done()
			}
		},
	})
}

// isolation explores histories of as many transactions as upd names (true: an
// update transaction) over the keys; read tells whether they read by Get, by
// Exists or by both.
func isolation(r *hz.R, st store, name string, upd []bool, depth int, keys []string, read string, scans, begun bool) {
	r.Explore(st.name+"/"+name, 0, func(c *ex.Ctx) {
		db := st.get(c.Worker)
		cur := map[string]string{"a": "0"}
		c.Assert(db.Set([]byte("a"), []byte("0"), nil) == nil, "set failed")
		lastCommit := map[string]int{}
		commits := 0
		ts := make([]*mtxn, len(upd))
		for i := range ts {
			ts[i] = &mtxn{update: upd[i], pend: map[string]*string{}, reads: map[string]bool{}}
		}
		if begun {
			for _, t := range ts {
				t.t = db.NewTransaction(t.update)
				t.begun, t.snap = true, cloneMap(cur)
			}
		}
		defer func() {
			for _, t := range ts {
				if t.t != nil {
					t.t.Discard()
				}
			}
		}()
		committed := func(what string) {
			m, err := dumpTxn(db)
			c.Assert(err == nil && mapKey(m) == mapKey(cur), "%s: the database holds %v (%v), want %v", what, m, err, cur)
		}
		val := 0
		type act struct {
			name string
			do   func()
		}
		for step := 0; step < depth; step++ {
			var acts []act
			fresh := false
			for i, t := range ts {
				i, t := i, t
				if t.done {
					continue
				}
				if !t.begun {
					if fresh && upd[i] == upd[i-1] {
						continue // symmetric to beginning the previous one
					}
					fresh = true
					acts = append(acts, act{fmt.Sprintf("T%d.begin", i), func() {
						t.t = db.NewTransaction(t.update)
						t.begun, t.snap, t.startAt = true, cloneMap(cur), commits
					}})
					continue
				}
				if i > 0 && begun && !t.acted && !ts[i-1].acted && upd[i] == upd[i-1] {
					continue // symmetric to acting in the previous one
				}
				for _, k := range keys {
					k := k
					acts = append(acts, act{fmt.Sprintf("T%d.read(%q)", i, k), func() {
						want, ok := t.view()[k]
						if read != "exists" {
							v, _, err := t.t.Get([]byte(k))
							c.Observe("%s %q", cls(err), v)
							if ok {
								c.Assert(err == nil && string(v) == want, "T%d reads %q=%q (%v), want %q", i, k, v, err, want)
							} else {
								c.Assert(cls(err) == "notfound", "T%d reads %q=%q (%v), want not found", i, k, v, err)
							}
						}
						if read != "get" {
							ex, err := t.t.Exists([]byte(k))
							c.Observe("%s %v", cls(err), ex)
							c.Assert(err == nil && ex == ok, "T%d: exists(%q)=%v,%v want %v", i, k, ex, err, ok)
						}
						if _, mine := t.pend[k]; !mine {
							t.reads[k] = true
						}
					}})
					if !t.update {
						continue
					}
					acts = append(acts, act{fmt.Sprintf("T%d.set(%q)", i, k), func() {
						val++
						v := fmt.Sprint(val)
						err := t.t.Set([]byte(k), []byte(v), nil)
						c.Assert(err == nil, "set: %v", err)
						t.pend[k] = &v
					}}, act{fmt.Sprintf("T%d.delete(%q)", i, k), func() {
						err := t.t.Delete([]byte(k))
						c.Assert(err == nil, "delete: %v", err)
						t.pend[k] = nil
					}})
				}
				if !t.update {
					acts = append(acts, act{fmt.Sprintf("T%d.refused-writes", i), func() {
						err := t.t.Set([]byte(keys[0]), []byte("x"), nil)
						c.Assert(err != nil, "a read-only transaction accepts a write")
						err = t.t.Delete([]byte(keys[0]))
						c.Assert(err != nil, "a read-only transaction accepts a delete")
					}})
				}
				if scans {
					acts = append(acts, act{fmt.Sprintf("T%d.scan", i), func() {
						m, err := dumpTxn(t.t)
						c.Observe("%v", m)
						c.Assert(err == nil && mapKey(m) == mapKey(t.view()), "T%d scans %v (%v), want %v", i, m, err, t.view())
						for k := range m {
							t.reads[k] = true
						}
					}})
				}
				acts = append(acts, act{fmt.Sprintf("T%d.commit", i), func() {
					err := t.t.Commit()
					t.done = true
					conflict := false
					for k := range t.reads {
						conflict = conflict || lastCommit[k] > t.startAt
					}
					c.Observe("%v", err == nil)
					if len(t.pend) == 0 {
						c.Assert(err == nil, "committing T%d, which wrote nothing, fails: %v", i, err)
						return
					}
					if err == nil {
						c.Assert(!conflict, "T%d commits although what it read has changed since it began", i)
						commits++
						cur = func() map[string]string {
							n := &mtxn{snap: cur, pend: t.pend}
							return n.view()
						}()
						for k := range t.pend {
							lastCommit[k] = commits
						}
					} else {
						c.Assert(commits > t.startAt, "T%d fails to commit (%v) although nothing else was committed since it began", i, err)
						c.Assert(conflict || st.name != "kvmem", "T%d fails to commit (%v) although nothing it read has changed", i, err)
					}
				}}, act{fmt.Sprintf("T%d.discard", i), func() {
					t.t.Discard()
					t.done = true
				}})
			}
			if len(acts) == 0 {
				break
			}
			a := acts[c.Choose(len(acts))]
			c.Logf("%s", a.name)
			ts[a.name[1]-'0'].acted = true
			a.do()
			committed("after " + a.name)
		}
		for _, t := range ts {
			if t.t != nil {
				t.t.Discard()
			}
		}
		committed("after discarding what is open")
	})
}
