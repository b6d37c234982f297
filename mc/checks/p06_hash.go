package checks

import (
	"fmt"
	"sort"
	"strconv"

	"github.com/zhiqiangxu/mondis/structure"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

// model of the hashes of one namespace: key -> field -> value
type hashModel map[string]map[string]string

func (m hashModel) clone() hashModel {
	r := hashModel{}
	for k, f := range m {
		r[k] = cloneMap(f)
	}
	return r
}

func (m hashModel) fields(k string) []string { return sortedKeys(m[k]) }

func (m hashModel) set(k, f, v string) {
	if m[k] == nil {
		m[k] = map[string]string{}
	}
	m[k][f] = v
}

func (m hashModel) del(k, f string) {
	delete(m[k], f)
	if len(m[k]) == 0 {
		delete(m, k)
	}
}

type hashState struct {
	snap kvmem.Snap
	m    hashModel
}

type hashOp struct {
	name string
	do   func(tx *structure.TxStructure, m hashModel, l *hz.Log) bool // false: not enabled
}

func hashOps(keys, fields, values []string, lim int64) (ops []hashOp) {
	for _, k := range keys {
		k := k
		for _, f := range fields {
			f := f
			for _, v := range values {
				v := v
				ops = append(ops, hashOp{fmt.Sprintf("HSet(%q,%q,%q)", k, f, v), func(tx *structure.TxStructure, m hashModel, l *hz.Log) bool {
					var vb []byte
					if v != "" || len(f)%2 == 0 {
						vb = []byte(v)
					}
					err := tx.HSet([]byte(k), []byte(f), vb)
					l.Logf("-> %v", err)
					l.Assert(err == nil, "HSet(%q,%q,%q) failed: %v", k, f, v, err)
					m.set(k, f, v)
					return true
				}})
			}
			for _, st := range []int64{1, -1} {
				st := st
				ops = append(ops, hashOp{fmt.Sprintf("HInc(%q,%q,%d)", k, f, st), func(tx *structure.TxStructure, m hashModel, l *hz.Log) bool {
					old, ok := m[k][f]
					var base int64
					var perr error
					if ok && old != "" {
						base, perr = strconv.ParseInt(old, 10, 64)
					}
					if perr == nil && (base+st > lim || base+st < -lim) {
						return false
					}
					n, err := tx.HInc([]byte(k), []byte(f), st)
					l.Logf("-> %d %v", n, err)
					if perr != nil {
						l.Assert(err != nil, "HInc on %q succeeded with %d", old, n)
						return true
					}
					if ok && old == "" && err != nil {
						return true // incrementing an empty value may be refused
					}
					l.Assert(err == nil, "HInc(%q,%q,%d) failed: %v", k, f, st, err)
					l.Assert(n == base+st, "HInc(%q,%q,%d) = %d, want %d", k, f, st, n, base+st)
					m.set(k, f, strconv.FormatInt(n, 10))
					return true
				}})
			}
			ops = append(ops, hashOp{fmt.Sprintf("HSetInt64(%q,%q,2)", k, f), func(tx *structure.TxStructure, m hashModel, l *hz.Log) bool {
				err := tx.HSetInt64([]byte(k), []byte(f), 2)
				l.Logf("-> %v", err)
				l.Assert(err == nil, "HSetInt64 failed: %v", err)
				m.set(k, f, "2")
				return true
			}})
		}
		// deletions of every subset sequence of up to two fields (repeats included)
		for i, f := range fields {
			fs := [][]string{{f}}
			for _, g := range fields[i:] {
				fs = append(fs, []string{f, g})
			}
			for _, sel := range fs {
				sel := sel
				ops = append(ops, hashOp{fmt.Sprintf("HDel(%q,%q)", k, sel), func(tx *structure.TxStructure, m hashModel, l *hz.Log) bool {
					var bs [][]byte
					for _, s := range sel {
						bs = append(bs, []byte(s))
					}
					err := tx.HDel([]byte(k), bs...)
					l.Logf("-> %v", err)
					l.Assert(err == nil, "HDel failed: %v", err)
					for _, s := range sel {
						m.del(k, s)
					}
					return true
				}})
			}
		}
		ops = append(ops, hashOp{fmt.Sprintf("HClear(%q)", k), func(tx *structure.TxStructure, m hashModel, l *hz.Log) bool {
			err := tx.HClear([]byte(k))
			l.Logf("-> %v", err)
			l.Assert(err == nil, "HClear failed: %v", err)
			delete(m, k)
			return true
		}})
	}
	return
}

func observeHash(tx *structure.TxStructure, m hashModel, keys, fields []string, l *hz.Log) {
	for _, k := range keys {
		kb := []byte(k)
		n, err := tx.HLen(kb)
		l.Obs++
		l.Assert(err == nil && n == int64(len(m[k])), "HLen(%q) = %d,%v, the hash has %d fields %q", k, n, err, len(m[k]), m.fields(k))
		fs := m.fields(k)
		got, err := tx.HKeys(kb)
		l.Assert(err == nil && len(got) == len(fs), "HKeys(%q) = %q,%v want %q", k, got, err, fs)
		for i := range got {
			l.Assert(string(got[i]) == fs[i], "HKeys(%q) = %q want %q", k, got, fs)
		}
		for _, f := range fields {
			v, err := tx.HGet(kb, []byte(f))
			want, ok := m[k][f]
			l.Obs++
			if !ok {
				l.Assert(cls(err) == "notfound", "HGet(%q,%q) of an absent field = %q,%v", k, f, v, err)
				continue
			}
			l.Assert(err == nil && string(v) == want, "HGet(%q,%q) = %q,%v want %q", k, f, v, err, want)
			if wi, e := strconv.ParseInt(want, 10, 64); e == nil {
				gi, err := tx.HGetInt64(kb, []byte(f))
				l.Assert(err == nil && gi == wi, "HGetInt64(%q,%q) = %d,%v want %d", k, f, gi, err, wi)
			}
		}
		chk := func(what string, p []structure.HashPair, err error, want []string) {
			l.Obs++
			l.Assert(err == nil && len(p) == len(want), "%s(%q) = %q,%v want fields %q", what, k, p, err, want)
			for i := range p {
				l.Assert(string(p[i].Field) == want[i] && string(p[i].Value) == m[k][want[i]], "%s(%q) entry %d = %q, want %q=%q", what, k, i, p[i], want[i], m[k][want[i]])
			}
		}
		all, err := tx.HGetAll(kb)
		chk("HGetAll", all, err, fs)
		rev := append([]string{}, fs...)
		sort.Sort(sort.Reverse(sort.StringSlice(rev)))
		for c := -1; c <= len(fs)+1; c++ {
			w := c
			if w < 0 {
				w = 0
			}
			if w > len(fs) {
				w = len(fs)
			}
			p, err := tx.HGetN(kb, c)
			chk(fmt.Sprintf("HGetN %d", c), p, err, fs[:w])
			p, err = tx.HGetNDesc(kb, c)
			chk(fmt.Sprintf("HGetNDesc %d", c), p, err, rev[:w])
		}
	}
}

func checkHashStore(s kvmem.Snap, m hashModel, l *hz.Log) {
	want := 0
	for _, f := range m {
		want += len(f) + 1
	}
	l.Assert(s.Len() == want, "the store holds %d entries, %d fields and their lengths should be there: %s", s.Len(), want, s)
}

func hashBFS(prefix string, keys, fields, values []string, lim int64, depth int, pairs bool) hz.BFS {
	ops := hashOps(keys, fields, values, lim)
	n := len(ops)
	total := n
	if pairs {
		total += n * n
	}
	return hz.BFS{
		Init: func() []interface{} { return []interface{}{&hashState{nil, hashModel{}}} },
		Key:  func(s interface{}) string { return s.(*hashState).snap.Key() },
		NOps: func(interface{}) int { return total },
		Name: func(_ interface{}, op int) string {
			if op < n {
				return "txn{" + ops[op].name + "}"
			}
			op -= n
			return "txn{" + ops[op/n].name + "; " + ops[op%n].name + "}"
		},
		MaxDepth: depth,
		Apply: func(si interface{}, op int, l *hz.Log) interface{} {
			s := si.(*hashState)
			seq := []int{op}
			if op >= n {
				seq = []int{(op - n) / n, (op - n) % n}
			}
			db := kvmem.FromSnap(s.snap)
			m := s.m.clone()
			t := db.NewTransaction(true)
			rm := newRoomy(prefix)
			tx := structure.New(t, rm.pref[0])
			for _, o := range seq {
				if !ops[o].do(tx, m, l) {
					return nil
				}
				if len(seq) > 1 {
					observeHash(tx, m, keys, fields, l)
				}
			}
			l.Assert(db.Snapshot().Key() == s.snap.Key(), "uncommitted changes are visible")
			if err := t.Commit(); err != nil {
				l.Fail("commit: %v", err)
			}
			rt := db.NewTransaction(false)
			observeHash(structure.New(rt, rm.pref[0]), m, keys, fields, l)
			l.Assert(rm.intact(prefix), "the bytes behind the prefix given to New have changed: %x", rm.all)
			ns := db.Snapshot()
			checkHashStore(ns, m, l)
			return &hashState{ns, m}
		},
	}
}

func init() {
	hz.Register("P06", &hz.Check{
		Level:  "model_checking",
		Rule:   "every reachable store content (breadth first, transitions are the real hash operations, single and in ordered pairs inside one transaction), each compared in full with a map of maps; distinct = distinct store contents",
		Assume: []string{"the in-memory provider agrees with Badger (checked by P01-P03 and by the histories this check replays on Badger)"},
		Run: func(r *hz.R) {
			long := "\xff\xff\xff\xff\xff\xff\xff\xff"
			d := 0
			_ = d
			if r.Quick {
				r.BFS("one-hash", hashBFS("p", []string{"k"}, []string{"", "f", long}, []string{"", "x"}, 2, 0, true))
				r.BFS("two-hashes", hashBFS("", []string{"k", "k\x00"}, []string{"f", "f\x00"}, []string{"", "x"}, 1, 0, false))
			} else {
				r.BFS("one-hash", hashBFS("p", []string{"k"}, []string{"", "f", long}, []string{"", "x", "7"}, 3, 0, true))
				r.BFS("two-hashes", hashBFS("", []string{"k", "k\x00"}, []string{"f", "f\x00"}, []string{"", "x"}, 2, 0, true))
				r.BFS("three-hashes", hashBFS("\xff", []string{"", "k", "k\x00"}, []string{"f", "\xff"}, []string{"", "x"}, 1, 0, false))
			}
			hashSizes(r)
			hashOnBadger(r, "badger-histories")
		},
	})
}

// hashOnBadger runs every short history inside one transaction of the real provider.
func hashOnBadger(r *hz.R, name string) {
	keys, fields := []string{"k", "k\x00"}, []string{"", "f\xff"}
	ops := hashOps(keys[:1], fields, []string{"", "x"}, 2)
	ops = append(ops, hashOps(keys[1:], fields[1:], []string{"x"}, 2)...)
	depth := 3
	if !r.Quick {
		depth = 4
	}
	p := badgerPool(r)
	defer p.close()
	r.Explore(name, 0, func(c *ex.Ctx) {
		db := p.get(c.Worker)
		t := db.NewTransaction(true)
		defer t.Discard()
		tx := structure.New(t, []byte("p"))
		m := hashModel{}
		l := &hz.Log{}
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops))]
			c.Logf("%s", o.name)
			if !o.do(tx, m, l) {
				return
			}
			observeHash(tx, m, keys, fields, l)
			c.Observe("%v", m)
		}
	})
}
