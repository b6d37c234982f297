package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

// the store under test, by name
type store struct {
	name string
	get  func(w int) mondis.KVDB
	meta bool
	rev  bool
	txn  bool
	done func()
}

func stores(r *hz.R) []store {
	b, l := badgerPool(r), leveldbPool(r)
	return []store{
		{"badger", b.clean, true, true, true, b.close},
		{"leveldb", l.clean, false, false, false, l.close},
		{"kvmem", func(int) mondis.KVDB { return kvmem.New() }, true, true, true, func() {}},
	}
}

// reference value
type rval struct {
	v   string
	tag byte
	// 0 = no expiry, otherwise seconds from the write
	ttl   time.Duration
	wrote time.Time
}

func (v rval) live() bool { return v.ttl == 0 || v.ttl > time.Minute }

func (v rval) checkMeta(m mondis.VMetaResp) string {
	if m.Tag != v.tag {
		return fmt.Sprintf("tag %d, want %d", m.Tag, v.tag)
	}
	if v.ttl == 0 {
		if m.ExpiresAt != 0 {
			return fmt.Sprintf("expires at %d, want never", m.ExpiresAt)
		}
		return ""
	}
	lo, hi := uint64(v.wrote.Add(v.ttl).Unix())-1, uint64(time.Now().Add(v.ttl).Unix())+1
	if m.ExpiresAt < lo || m.ExpiresAt > hi {
		return fmt.Sprintf("expires at %d, want %d..%d", m.ExpiresAt, lo, hi)
	}
	return ""
}

type refMap map[string]rval

func (m refMap) clone() refMap {
	r := refMap{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m refMap) keys() []string {
	var r []string
	for k, v := range m {
		if v.live() {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// observePoint compares point reads with the reference map.
func (m refMap) observe(c *ex.Ctx, what string, op mondis.ProviderKVOP, keys []string) {
	for _, k := range keys {
		kb := []byte(k)
		v, meta, err := op.Get(kb)
		ok, xerr := op.Exists(kb)
		want, has := m[k]
		has = has && want.live()
		c.Step()
		c.Observe("%s%v%v%s", cls(err), ok, has, short(string(v)))
		if !has {
			c.Assert(cls(err) == "notfound", "%s: Get(%q) of an absent key = %q,%v", what, k, short(string(v)), err)
			c.Assert(xerr == nil && !ok, "%s: Exists(%q) of an absent key = %v,%v", what, k, ok, xerr)
			continue
		}
		c.Assert(err == nil && string(v) == want.v, "%s: Get(%q) = %q,%v want %q", what, k, short(string(v)), err, short(want.v))
		c.Assert(xerr == nil && ok, "%s: Exists(%q) = %v,%v for an existing key", what, k, ok, xerr)
		if s := want.checkMeta(meta); s != "" {
			c.Fail("%s: Get(%q) metadata: %s", what, k, s)
		}
		for i := range v {
			v[i] ^= 0x55 // the result belongs to the caller
		}
		c.Assert(string(kb) == k, "%s: the key was modified", what)
	}
	n := 0
	err := op.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		n++
		w, ok := m[string(k)]
		c.Assert(ok && w.live() && w.v == string(v), "%s: scan shows %q=%q, want %q (present %v)", what, k, short(string(v)), short(w.v), ok)
		return true
	})
	c.Assert(err == nil && n == len(m.keys()), "%s: scan of everything delivers %d entries (%v), want %d", what, n, err, len(m.keys()))
}

var bigVal = strings.Repeat("B", 100) // beyond Badger's inline threshold
var hugeVal = strings.Repeat("H", 5000)

type kvOp struct {
	name string
	k    string
	del  bool
	v    []byte
	meta *mondis.VMetaReq
}

func kvOps(keys []string, vals [][]byte, metas []*mondis.VMetaReq) (ops []kvOp) {
	for _, k := range keys {
		for _, v := range vals {
			ops = append(ops, kvOp{name: fmt.Sprintf("Set(%q,%q)", k, short(string(v))), k: k, v: v})
		}
		for _, m := range metas {
			ops = append(ops, kvOp{name: fmt.Sprintf("Set(%q,%q,tag=%d ttl=%v)", k, "m", m.Tag, m.TTL), k: k, v: []byte("m"), meta: m})
		}
		ops = append(ops, kvOp{name: fmt.Sprintf("Delete(%q)", k), k: k, del: true})
	}
	return
}

func (o kvOp) run(c *ex.Ctx, op mondis.CommonKVOP, kb, vb []byte) error {
	if o.del {
		return op.Delete(kb)
	}
	return op.Set(kb, vb, o.meta)
}

func (o kvOp) apply(m refMap) {
	if o.del {
		delete(m, o.k)
		return
	}
	v := rval{v: string(o.v), wrote: time.Now()}
	if o.meta != nil {
		v.tag, v.ttl = o.meta.Tag, o.meta.TTL
	}
	m[o.k] = v
}

func scramble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] = 0xEE
		}
	}
}

func dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func init() {
	metas := []*mondis.VMetaReq{{}, {Tag: 7}, {Tag: 255, TTL: time.Hour}, {TTL: time.Nanosecond, Tag: 1}}
	hz.Register("P01", &hz.Check{
		Level:  "model_checking",
		Rule:   "every history of the stated operations up to the depth, on the real Badger and LevelDB providers (and on the in-memory model they are compared with), all keys read back and the whole store scanned after every step; distinct = distinct sequences of observations",
		Assume: []string{"keys that a provider refuses (empty, reserved, longer than 65000 bytes) only appear in the scenario of odd keys", "a TTL of 1ns stands for a passed TTL, one of an hour for a running one"},
		Run: func(r *hz.R) {
			for _, st := range stores(r) {
				st := st
				run := func(name string, depth int, keys []string, vals [][]byte, ms []*mondis.VMetaReq, modes int) {
					ops := kvOps(keys, vals, ms)
					r.Explore(st.name+"/"+name, 0, func(c *ex.Ctx) {
						db := st.get(c.Worker)
						m := refMap{}
						for i := 0; i < depth; i++ {
							o := ops[c.Choose(len(ops))]
							mode := 0
							if st.txn {
								mode = c.Choose(modes)
							}
							kb, vb := []byte(o.k), dup(o.v)
							c.Logf("%s mode %d", o.name, mode)
							var err error
							switch mode {
							case 0:
								err = o.run(c, db, kb, vb)
							case 1:
								t := db.NewTransaction(true)
								err = o.run(c, t, kb, vb)
								if err == nil {
									err = t.Commit()
								}
								t.Discard()
							}
							if !st.meta && o.meta != nil {
								c.Assert(err != nil, "%s accepts metadata it cannot store", st.name)
								m.observe(c, "after the refused write", db, keys)
								continue
							}
							c.Assert(err == nil, "%s: %v", o.name, err)
							c.Assert(string(kb) == o.k && string(vb) == string(o.v), "%s modified the caller's buffers", o.name)
							o.apply(m)
							scramble(kb, vb)
							m.observe(c, "after "+o.name, db, keys)
						}
					})
				}
				d := 0
				if !r.Quick {
					d = 1
				}
				run("values", 3+d, []string{"a", "a\x00"}, [][]byte{[]byte("1"), {}, nil, []byte(bigVal)}, nil, 2)
				run("metadata", 3, []string{"a", "b"}, [][]byte{[]byte("1")}, metas, 2)
				run("keys", 2+d, []string{"\x00", "\x00\x00", "\xff", "\xff\xff", "!", "a", strings.Repeat("k", 300)}, [][]byte{[]byte("1"), []byte(hugeVal)}, nil, 1)
				heldValues(r, st, 3+d)
				oddKeys(r, st, 2+d)
				if st.meta {
					allTags(r, st)
				}
				if st.txn {
					runTxnMap(r, st, 3+d)
					batchSizes(r, st, true)
				}
				st.done()
			}
		},
	})
	hz.Register("P02", &hz.Check{
		Level:  "model_checking",
		Rule:   "every content of three keys (each never written, written once or twice, deleted or expired, with a pending set or delete or none) times every prefix, offset, direction and stopping point of the universe, on both providers; distinct = contents",
		Assume: []string{"no scan is nested in another scan of the same update transaction (Badger forbids it)"},
		Run:    runScans,
	})
	hz.Register("P04", &hz.Check{
		Level:  "model_checking",
		Rule:   "every history of sets, deletes, commits and discards on two open batches mixed with direct writes up to the depth, on both providers, everything read back after every step; distinct = distinct sequences of observations",
		Assume: []string{"a batch takes ownership of the buffers handed to it until it is committed or discarded"},
		Run:    runBatches,
	})
}

// oddKeys: a store may refuse a key, with an error and without an effect, but a write it
// accepts is there.
func oddKeys(r *hz.R, st store, depth int) {
	if st.name == "kvmem" {
		return // accepts every key
	}
	keys := []string{"", "!badger!", "!badger!x", "!badger", "a", strings.Repeat("k", 1000), strings.Repeat("k", 65000), strings.Repeat("k", 65001), strings.Repeat("k", 70000)}
	modes := 1
	if st.txn {
		modes = 4
	}
	r.Explore(st.name+"/odd keys", 0, func(c *ex.Ctx) {
		db := st.get(c.Worker)
		m := map[string]string{}
		check := func(what string) {
			n := 0
			for _, k := range keys {
				v, _, err := db.Get([]byte(k))
				ok, xerr := db.Exists([]byte(k))
				c.Step()
				c.Observe("%s %v %v", cls(err), ok, xerr == nil)
				if w, has := m[k]; has {
					n++
					c.Assert(err == nil && string(v) == w, "%s: Get(%s) = %q,%v want %q", what, short(k), short(string(v)), err, w)
					c.Assert(xerr == nil && ok, "%s: Exists(%s) = %v,%v", what, short(k), ok, xerr)
				} else {
					c.Assert(err != nil, "%s: Get(%s) of an absent key = %q", what, short(k), short(string(v)))
					c.Assert(!ok, "%s: an absent key %s exists", what, short(k))
				}
			}
			got := 0
			err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
				if string(k) == "x" || string(k) == "y" {
					return true
				}
				got++
				w, has := m[string(k)]
				c.Assert(has && w == string(v), "%s: scan shows %s=%q", what, short(string(k)), short(string(v)))
				return true
			})
			c.Assert(err == nil && got == n, "%s: scan shows %d entries (%v), want %d", what, got, err, n)
		}
		for i := 0; i < depth; i++ {
			k := keys[c.Choose(len(keys))]
			del := c.Choose(2) == 1
			mode := c.Choose(modes)
			v := fmt.Sprint("v", i)
			c.Logf("%s, delete %v, mode %d", short(k), del, mode)
			do := func(o mondis.CommonKVOP) error {
				if del {
					return o.Delete([]byte(k))
				}
				return o.Set([]byte(k), []byte(v), nil)
			}
			var err error
			next := cloneMap(m)
			switch mode {
			case 0:
				err = do(db)
			case 1: // alone in a transaction
				t := db.NewTransaction(true)
				if err = do(t); err == nil {
					err = t.Commit()
				}
				t.Discard()
			case 2: // between other writes, which are committed anyway
				t := db.NewTransaction(true)
				c.Assert(t.Set([]byte("x"), []byte(v), nil) == nil, "set")
				err = do(t)
				c.Assert(t.Set([]byte("y"), []byte(v), nil) == nil, "set")
				c.Assert(t.Commit() == nil, "commit")
			case 3: // in a batch
				b := db.WriteBatch()
				if del {
					err = b.Delete([]byte(k))
				} else {
					err = b.Set([]byte(k), []byte(v))
				}
				if err == nil {
					err = b.Commit()
				} else {
					b.Discard()
				}
			}
			c.Logf("%v", err)
			if err == nil {
				if del {
					delete(next, k)
				} else {
					next[k] = v
				}
			}
			m = next
			check(fmt.Sprintf("after step %d", i))
		}
	})
}

// allTags: every tag, with and without a time to live, written in every way.
func allTags(r *hz.R, st store) {
	r.Explore(st.name+"/tags", 0, func(c *ex.Ctx) {
		db := st.get(c.Worker)
		tag := byte(c.Choose(256))
		ttl := []time.Duration{0, time.Second, time.Minute + 1, 90 * time.Minute, 24 * time.Hour, 365 * 24 * time.Hour}[c.Choose(6)]
		over := c.Choose(2) == 1
		m := refMap{}
		if over {
			o := kvOp{k: "a", v: []byte("0"), meta: &mondis.VMetaReq{Tag: ^tag, TTL: time.Hour}}
			c.Assert(o.run(c, db, []byte("a"), o.v) == nil, "set")
		}
		o := kvOp{k: "a", v: []byte("1"), meta: &mondis.VMetaReq{Tag: tag, TTL: ttl}}
		var err error
		if c.Choose(2) == 0 {
			err = o.run(c, db, []byte("a"), o.v)
		} else {
			t := db.NewTransaction(true)
			if err = o.run(c, t, []byte("a"), o.v); err == nil {
				err = t.Commit()
			}
			t.Discard()
		}
		c.Assert(err == nil, "set: %v", err)
		o.apply(m)
		c.Logf("tag %d ttl %v over %v", tag, ttl, over)
		if ttl == time.Second {
			// may be gone any moment
			_, meta, err := db.Get([]byte("a"))
			v := m["a"]
			if err == nil {
				if s := v.checkMeta(meta); s != "" {
					c.Fail("metadata: %s", s)
				}
			}
			return
		}
		m.observe(c, "after the write", db, []string{"a"})
	})
}

// runTxnMap: several operations inside one transaction, committed or discarded.
func runTxnMap(r *hz.R, st store, depth int) {
	keys := []string{"a", "b"}
	ops := kvOps(keys, [][]byte{[]byte("1"), {}}, []*mondis.VMetaReq{{Tag: 9}, {TTL: time.Nanosecond}})
	r.Explore(st.name+"/in-transaction", 0, func(c *ex.Ctx) {
		db := st.get(c.Worker)
		m := refMap{}
		if c.Choose(2) == 1 {
			c.Assert(db.Set([]byte("a"), []byte("0"), nil) == nil, "set failed")
			m["a"] = rval{v: "0"}
		}
		t := db.NewTransaction(true)
		defer t.Discard()
		p := m.clone()
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops))]
			c.Logf("%s", o.name)
			err := o.run(c, t, []byte(o.k), dup(o.v))
			c.Assert(err == nil, "%s: %v", o.name, err)
			o.apply(p)
			p.observe(c, "inside after "+o.name, t, keys)
		}
		m.observe(c, "outside before the end", db, keys)
		if c.Choose(2) == 0 {
			c.Logf("commit")
			c.Assert(t.Commit() == nil, "commit failed")
			p.observe(c, "after commit", db, keys)
		} else {
			c.Logf("discard")
			t.Discard()
			m.observe(c, "after discard", db, keys)
		}
	})
}

// ---- P02

type scanEnt struct{ k, v string }

func refScan(m map[string]string, o mondis.ProviderScanOption) (out []scanEnt) {
	for _, k := range sortedKeys(m) {
		if len(k) < len(o.Prefix) || k[:len(o.Prefix)] != string(o.Prefix) {
			continue
		}
		if len(o.Offset) > 0 && (!o.Reverse && k < string(o.Offset) || o.Reverse && k > string(o.Offset)) {
			continue
		}
		out = append(out, scanEnt{k, m[k]})
	}
	if o.Reverse {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return
}

func runScans(r *hz.R) {
	unis := [][]string{
		{"a", "a\x00", "b"},
		{"ab", "abc", "b"},
		{"\xfe", "\xff", "\xff\xff"},
		{"p\x00", "p\xff", "q"},
	}
	if !r.Quick {
		unis = append(unis, []string{"\x00", "\x00\x00", "\x01"}, []string{"a", "aa", "ab", "b"}, []string{"\xff\xff", "\xff\xff\xff", "\xff\xfe"})
	}
	for _, st := range stores(r) {
		st := st
		scanSizes(r, st)
		for ui, uni := range unis {
			uni := uni
			if st.name == "kvmem" && len(uni) > 3 {
				continue
			}
			ext := map[string]bool{"": true}
			for _, k := range uni {
				ext[k] = true
				ext[k[:len(k)-1]] = true
				ext[k+"\x00"] = true
				ext[k+"\xff"] = true
				ext[string(kv.Key(k).PrefixNext())] = true
			}
			var ps [][]byte
			ps = append(ps, nil)
			var exts []string
			for k := range ext {
				exts = append(exts, k)
			}
			sort.Strings(exts)
			for _, k := range exts {
				ps = append(ps, []byte(k))
			}
			base, pend := 5, 3
			if !st.txn {
				base, pend = 4, 1
			}
			per := base * pend
			if len(uni) > 3 {
				per = 4 * pend
				base = 4
			}
			n := 1
			for range uni {
				n *= per
			}
			dirs := 2
			var scans int64
			var mu = make(chan int, r.Workers)
			for i := 0; i < r.Workers; i++ {
				mu <- i
			}
			r.Enum(fmt.Sprintf("%s/universe-%d", st.name, ui), n, func(ci int, l *hz.Log) {
				w := <-mu
				defer func() { mu <- w }()
				db := st.get(w)
				live := map[string]string{}
				pendSt := map[string]int{}
				x := ci
				for _, k := range uni {
					s := x % per
					x /= per
					pendSt[k] = s / base
					kb := []byte(k)
					var err error
					set := func(v string, m *mondis.VMetaReq) {
						if err == nil {
							err = db.Set(kb, []byte(v), m)
						}
					}
					switch s % base {
					case 1:
						set("1"+k, nil)
						live[k] = "1" + k
					case 2:
						set("0"+k, nil)
						var m *mondis.VMetaReq
						if st.meta {
							m = &mondis.VMetaReq{Tag: 5, TTL: time.Hour}
						}
						set(bigVal+k, m)
						live[k] = bigVal + k
					case 3:
						set("0"+k, nil)
						if err == nil {
							err = db.Delete(kb)
						}
					case 4:
						set("0"+k, nil)
						set("e"+k, &mondis.VMetaReq{TTL: time.Nanosecond})
					}
					l.Assert(err == nil, "preparing: %v", err)
				}
				l.Logf("content %v pending %v", sortedKeys(live), pendSt)
				check := func(what string, op mondis.ProviderKVOP, want map[string]string) {
					for _, p := range ps {
						for _, o := range ps {
							for d := 0; d < dirs; d++ {
								opt := mondis.ProviderScanOption{Reverse: d == 1, Prefix: p, Offset: o}
								exp := refScan(want, opt)
								for stop := len(exp) + 1; stop >= 1; stop-- {
									if stop == len(exp) && stop > 1 && d == 0 {
										continue
									}
									i := 0
									atomic.AddInt64(&scans, 1)
									l.Obs++
									calls := 0
									err := op.Scan(opt, func(k, v []byte, meta mondis.VMetaResp) bool {
										calls++
										if tagged := st.meta && v != nil && strings.HasPrefix(string(v), "BB"); tagged != (meta.Tag == 5) || tagged != (meta.ExpiresAt != 0) {
											l.Fail("%s: scan delivers %q with metadata %+v", what, k, meta)
										}
										if i >= len(exp) || i >= stop || exp[i].k != string(k) || exp[i].v != string(v) {
											w := "nothing"
											if i < len(exp) && i < stop {
												w = fmt.Sprintf("%q=%q", exp[i].k, short(exp[i].v))
											}
											l.Fail("%s: scan reverse=%v prefix=%q offset=%q delivers %q=%q as entry %d, want %s (of %d, stopping after %d)", what, opt.Reverse, p, o, k, short(string(v)), i, w, len(exp), stop)
										}
										i++
										return i < stop
									})
									if !st.rev && opt.Reverse {
										l.Assert(err != nil && calls == 0, "%s: reversed scan on %s: %v", what, st.name, err)
										break
									}
									want := len(exp)
									if stop < want {
										want = stop
									}
									if err != nil || i != want {
										l.Fail("%s: scan reverse=%v prefix=%q offset=%q stopping after %d delivers %d entries, want %d (error %v)", what, opt.Reverse, p, o, stop, i, want, err)
									}
								}
							}
						}
					}
				}
				anyPend := false
				for _, s := range pendSt {
					anyPend = anyPend || s > 0
				}
				if !anyPend {
					check("direct", db, live)
					if st.txn {
						t := db.NewTransaction(false)
						check("read-only transaction", t, live)
						t.Discard()
					}
				}
				if st.txn {
					t := db.NewTransaction(true)
					in := cloneMap(live)
					var err error
					for _, k := range uni {
						switch pendSt[k] {
						case 1:
							err = t.Set([]byte(k), []byte("p"+k), nil)
							in[k] = "p" + k
						case 2:
							err = t.Delete([]byte(k))
							delete(in, k)
						}
						l.Assert(err == nil, "pending write: %v", err)
					}
					check("update transaction", t, in)
					t.Discard()
				}
			})
		}
		st.done()
	}
}

// ---- P04

func runBatches(r *hz.R) {
	for _, st := range stores(r) {
		st := st
		batchSizes(r, st, false)
		keys := []string{"a", "b"}
		depth := 5
		if !r.Quick {
			depth = 6
		}
		if st.name == "kvmem" {
			depth = 5
		}
		type bop struct {
			k    string
			kind int // 0 set, 1 delete
		}
		r.Explore(st.name+"/batches", 0, func(c *ex.Ctx) {
			db := st.get(c.Worker)
			m := refMap{}
			c.Assert(db.Set([]byte("a"), []byte("0"), nil) == nil, "set failed")
			m["a"] = rval{v: "0"}
			type batch struct {
				b    mondis.ProviderWriteBatch
				ops  []kvOp
				open bool
			}
			bs := []*batch{{b: db.WriteBatch(), open: true}, {b: db.WriteBatch(), open: true}}
			defer func() {
				for _, b := range bs {
					if b.open {
						b.b.Discard()
					}
				}
			}()
			val := 0
			for i := 0; i < depth; i++ {
				type act struct {
					name string
					do   func()
				}
				var acts []act
				for bi, b := range bs {
					if !b.open {
						continue
					}
					b, bi := b, bi
					if bi == 1 && len(b.ops) == 0 && len(bs[0].ops) == 0 && bs[0].open {
						continue // symmetric to using batch 0 first
					}
					for _, k := range keys {
						k := k
						acts = append(acts, act{fmt.Sprintf("batch%d.Set(%q)", bi, k), func() {
							val++
							v := fmt.Sprintf("%d", val)
							err := b.b.Set([]byte(k), []byte(v))
							c.Assert(err == nil, "batch set: %v", err)
							b.ops = append(b.ops, kvOp{k: k, v: []byte(v)})
						}}, act{fmt.Sprintf("batch%d.Delete(%q)", bi, k), func() {
							err := b.b.Delete([]byte(k))
							c.Assert(err == nil, "batch delete: %v", err)
							b.ops = append(b.ops, kvOp{k: k, del: true})
						}})
					}
					acts = append(acts, act{fmt.Sprintf("batch%d.Commit", bi), func() {
						err := b.b.Commit()
						c.Assert(err == nil, "batch commit: %v", err)
						for _, o := range b.ops {
							o.apply(m)
						}
						b.open = false
						if c.Choose(2) == 1 {
							c.Logf("discard after commit")
							b.b.Discard()
						}
					}}, act{fmt.Sprintf("batch%d.Discard", bi), func() {
						b.b.Discard()
						b.open = false
					}})
				}
				acts = append(acts, act{"db.Set(\"a\")", func() {
					val++
					o := kvOp{k: "a", v: []byte(fmt.Sprintf("%d", val))}
					c.Assert(o.run(c, db, []byte(o.k), dup(o.v)) == nil, "direct set failed")
					o.apply(m)
				}}, act{"db.Delete(\"b\")", func() {
					c.Assert(db.Delete([]byte("b")) == nil, "direct delete failed")
					delete(m, "b")
				}})
				a := acts[c.Choose(len(acts))]
				c.Logf("%s", a.name)
				a.do()
				m.observe(c, "after "+a.name, db, keys)
			}
		})
		// batches of every size class that fit one transaction: nothing before the end,
		// everything or nothing after it
		var sizes []int
		for n := 1; n <= 16384; n *= 2 {
			sizes = append(sizes, n-1, n, n+1)
		}
		for n := 10; n <= 10000; n *= 10 {
			sizes = append(sizes, n-1, n, n+1, 3*n)
		}
		type sized struct{ n, vlen, end int }
		var szs []sized
		for end := 0; end < 2; end++ {
			for _, n := range sizes {
				szs = append(szs, sized{n, 8, end})
			}
			for _, vl := range []int{1 << 10, 1 << 16, 1 << 20, 4 << 20} {
				szs = append(szs, sized{1, vl, end}, sized{2, vl, end})
			}
			for _, n := range []int{64, 128, 129} {
				szs = append(szs, sized{n, 1 << 15, end})
			}
		}
		slots := make(chan int, 16)
		for w := 0; w < cap(slots); w++ {
			slots <- 200 + w
		}
		r.Enum(st.name+"/batch-sizes", len(szs), func(i int, l *hz.Log) {
			sz := szs[i]
			slot := <-slots
			defer func() { slots <- slot }()
			db := st.get(slot)
			m := map[string]string{}
			for j := 0; j < 4; j++ {
				k := fmt.Sprintf("k%05d", j*5)
				l.Assert(db.Set([]byte(k), []byte("before"), nil) == nil, "set failed")
				m[k] = "before"
			}
			check := func(when string) {
				n := 0
				err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
					n++
					if w, ok := m[string(k)]; !ok || w != string(v) {
						l.Fail("%s, batch of %d operations with values of %d bytes: %q = %.20q, want %.20q (present %v)", when, sz.n, sz.vlen, k, v, w, ok)
					}
					return true
				})
				l.Assert(err == nil && n == len(m), "%s, batch of %d operations with values of %d bytes: %d entries (%v), want %d", when, sz.n, sz.vlen, n, err, len(m))
			}
			b := db.WriteBatch()
			p := map[string]string{}
			for k, v := range m {
				p[k] = v
			}
			for j := 0; j < sz.n; j++ {
				k := fmt.Sprintf("k%05d", j)
				if j%5 == 0 && j%2 == 1 {
					l.Assert(b.Delete([]byte(k)) == nil, "batch delete")
					delete(p, k)
					continue
				}
				v := fmt.Sprintf("%0*d", sz.vlen, j)
				if err := b.Set([]byte(k), []byte(v)); err != nil {
					l.Fail("batch set %d: %v", j, err)
				}
				p[k] = v
			}
			check("before the end")
			if sz.end == 0 {
				if err := b.Commit(); err != nil {
					l.Fail("commit of %d operations: %v", sz.n, err)
				}
				m = p
				check("after commit")
			} else {
				b.Discard()
				check("after discard")
			}
			l.Logf("%d operations, values of %d bytes", sz.n, sz.vlen)
		})
		if st.name != "kvmem" {
			// a batch larger than one Badger transaction
			total := 60000
			if st.name == "badger" {
				total = 150000
			}
			r.Enum(st.name+"/large-batch", 2, func(i int, l *hz.Log) {
				db := st.get(100 + i)
				b := db.WriteBatch()
				want := map[string]string{}
				for j := 0; j < total; j++ {
					k := fmt.Sprintf("k%07d", j%(total/2))
					if i == 1 && j%3 == 0 && j > total/2 {
						l.Assert(b.Delete([]byte(k)) == nil, "batch delete")
						delete(want, k)
						continue
					}
					v := fmt.Sprint(j)
					if err := b.Set([]byte(k), []byte(v)); err != nil {
						l.Fail("batch set %d: %v", j, err)
					}
					want[k] = v
				}
				if err := b.Commit(); err != nil {
					l.Fail("batch commit: %v", err)
				}
				n := 0
				err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
					n++
					if want[string(k)] != string(v) {
						l.Fail("after a large batch %q=%q, want %q", k, v, want[string(k)])
					}
					return true
				})
				l.Assert(err == nil && n == len(want), "after a large batch %d entries (%v), want %d", n, err, len(want))
				l.Logf("%d operations, %d entries", total, n)
			})
		}
		st.done()
	}
}
