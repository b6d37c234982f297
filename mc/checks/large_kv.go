package checks

import (
	"fmt"
	"sort"

	"github.com/zhiqiangxu/mondis"

	"mc/ex"
	"mc/hz"
)

// kvSizes are the numbers of entries used on the real stores.
func kvSizes(quick bool) []int {
	if quick {
		return []int{12, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 500, 999, 1000, 1001, 1025}
	}
	return append(sizes(66, 100, 128, 200, 256, 300, 400, 500, 512, 600, 1000, 1024, 2000, 2048), 5000)
}

// near are the positions worth looking at among n.
func near(n int) []int {
	m := map[int]bool{}
	for _, c := range append([]int{0, 1, n / 2, n - 2, n - 1}, roundSizes...) {
		for d := -1; d <= 1; d++ {
			if c+d >= 0 && c+d < n {
				m[c+d] = true
			}
		}
	}
	var r []int
	for c := range m {
		r = append(r, c)
	}
	sort.Ints(r)
	return r
}

var kvKeyOf = []func(i int) string{
	func(i int) string { return fmt.Sprint("p", i) },
	func(i int) string { return "p" + string([]byte{byte(i >> 8), byte(i)}) },
}

func kvValOf(i int) string {
	switch i % 7 {
	case 3:
		return ""
	case 5:
		return bigVal + fmt.Sprint(i)
	}
	return fmt.Sprint(i)
}

// fillKV writes n entries under the prefix, deletes some again, and some neighbours.
func fillKV(db mondis.KVDB, n, style int, l *hz.Log) map[string]string {
	m := map[string]string{}
	t := db.WriteBatch()
	put := func(k, v string) {
		l.Assert(t.Set([]byte(k), []byte(v)) == nil, "set")
		m[k] = v
	}
	for _, k := range []string{"o", "o\xff\xff\xff", "q", "q0", "\xff"} {
		put(k, "n")
	}
	for i := 0; i < n; i++ {
		put(kvKeyOf[style](i), kvValOf(i))
	}
	l.Assert(t.Commit() == nil, "commit")
	t = db.WriteBatch()
	for i := 2; i < n; i += 11 {
		l.Assert(t.Delete([]byte(kvKeyOf[style](i))) == nil, "delete")
		delete(m, kvKeyOf[style](i))
	}
	l.Assert(t.Commit() == nil, "commit")
	return m
}

// scanSizes: ranges of many entries, every direction, offsets and stopping points around
// the round positions, alone and with pending changes among them.
func scanSizes(r *hz.R, st store) {
	ns := kvSizes(r.Quick)
	if r.Quick {
		ns = []int{12, 64, 65, 100, 101, 110, 111, 128, 129, 256, 257, 1000, 1001, 1100, 1101}
	}
	mu := make(chan int, r.Workers)
	for i := 0; i < r.Workers; i++ {
		mu <- i
	}
	r.Enum(st.name+"/sizes", len(ns)*len(kvKeyOf), func(i int, l *hz.Log) {
		w := <-mu
		defer func() { mu <- w }()
		style := i % len(kvKeyOf)
		n := ns[len(ns)-1-i/len(kvKeyOf)]
		db := st.get(w)
		live := fillKV(db, n, style, l)
		l.Logf("%d entries, keys as %d", n, style)
		check := func(what string, op mondis.ProviderKVOP, want map[string]string) {
			for _, p := range []string{"", "p", "p1", "p\x01", "o"} {
				for d := 0; d < 2; d++ {
					base := refScan(want, mondis.ProviderScanOption{Reverse: d == 1, Prefix: []byte(p)})
					offs := [][]byte{nil, []byte("a"), []byte("\xff\xff")}
					pos := near(len(base))
					for _, x := range pos {
						offs = append(offs, []byte(base[x].k))
						if x%3 == 0 {
							offs = append(offs, []byte(base[x].k+"\x00"))
						}
					}
					for oi, o := range offs {
						opt := mondis.ProviderScanOption{Reverse: d == 1, Prefix: []byte(p), Offset: o}
						exp := refScan(want, opt)
						stops := []int{len(exp) + 1, 1}
						if oi == 0 {
							for _, x := range near(len(exp)) {
								stops = append(stops, x+1)
							}
						}
						for _, stop := range stops {
							got := 0
							l.Obs++
							err := op.Scan(opt, func(k, v []byte, _ mondis.VMetaResp) bool {
								if got >= len(exp) || got >= stop || exp[got].k != string(k) || exp[got].v != string(v) {
									l.Fail("%s: scan of %d entries, reverse=%v prefix=%q offset=%q, delivers %q=%q as entry %d of %d, stopping after %d", what, n, opt.Reverse, p, o, k, short(string(v)), got, len(exp), stop)
								}
								got++
								return got < stop
							})
							if !st.rev && opt.Reverse {
								l.Assert(err != nil && got == 0, "%s: reversed scan: %v", what, err)
								break
							}
							if w := clamp(stop, len(exp)); err != nil || got != w {
								l.Fail("%s: scan of %d entries, reverse=%v prefix=%q offset=%q stopping after %d delivers %d, want %d (%v)", what, n, opt.Reverse, p, o, stop, got, w, err)
							}
						}
					}
				}
			}
		}
		check("direct", db, live)
		if !st.txn {
			return
		}
		t := db.NewTransaction(true)
		defer t.Discard()
		in := cloneMap(live)
		for x := 0; x < n; x++ {
			k := kvKeyOf[style](x)
			switch {
			case x%5 == 1:
				l.Assert(t.Set([]byte(k), []byte("new"), nil) == nil, "set")
				in[k] = "new"
			case x%5 == 2:
				l.Assert(t.Delete([]byte(k)) == nil, "delete")
				delete(in, k)
			case x%17 == 0:
				l.Assert(t.Set([]byte(k+"!"), []byte("more"), nil) == nil, "set")
				in[k+"!"] = "more"
			}
		}
		check("update transaction", t, in)
		check("outside", db, live)
	})
}

// batchSizes: batches (or transactions) of many writes, committed or discarded.
func batchSizes(r *hz.R, st store, txn bool) {
	ns := kvSizes(r.Quick)
	mu := make(chan int, r.Workers)
	for i := 0; i < r.Workers; i++ {
		mu <- i
	}
	name := "/many writes"
	if txn {
		name = "/many writes in a transaction"
	}
	r.Enum(st.name+name, len(ns)*2*2, func(i int, l *hz.Log) {
		w := <-mu
		defer func() { mu <- w }()
		style := i % 2
		i /= 2
		commit := i%2 == 0
		n := ns[len(ns)-1-i/2]
		db := st.get(w)
		want := fillKV(db, 40, style, l)
		before := cloneMap(want)
		var op mondis.CommonKVOP
		var t mondis.ProviderTxn
		var b mondis.ProviderWriteBatch
		if txn {
			t = db.NewTransaction(true)
			defer t.Discard()
			op = t
		} else {
			b = db.WriteBatch()
		}
		write := func(k, v string, del bool) {
			var err error
			switch {
			case txn && del:
				err = op.Delete([]byte(k))
			case txn:
				err = op.Set([]byte(k), []byte(v), nil)
			case del:
				err = b.Delete([]byte(k))
			default:
				err = b.Set([]byte(k), []byte(v))
			}
			l.Assert(err == nil, "writing %q: %v", k, err)
			if del {
				delete(want, k)
			} else {
				want[k] = v
			}
		}
		for x := 0; x < n; x++ {
			k := kvKeyOf[style](x)
			write(k, "a"+kvValOf(x), false)
			if x%3 == 0 {
				write(k, "b"+kvValOf(x+1), false)
			}
			if x%4 == 1 {
				write(k, "", true)
			}
			if x%8 == 1 {
				write(k, "c", false)
			}
		}
		l.Logf("%d keys as %d, commit %v", n, style, commit)
		same := func(what string, op mondis.ProviderKVOP, m map[string]string) {
			got := map[string]string{}
			err := op.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
				got[string(k)] = string(v)
				return true
			})
			l.Assert(err == nil && len(got) == len(m), "%s: %d entries (%v), want %d", what, len(got), err, len(m))
			for k, v := range m {
				l.Assert(got[k] == v, "%s: %q is %q, want %q", what, k, short(got[k]), short(v))
				l.Obs++
			}
			for x := 0; x < n; x++ {
				k := kvKeyOf[style](x)
				v, _, err := op.Get([]byte(k))
				w, ok := m[k]
				l.Assert(ok && err == nil && string(v) == w || !ok && cls(err) == "notfound", "%s: Get(%q) = %q, %v, want %q", what, k, short(string(v)), err, short(w))
			}
		}
		if txn {
			same("inside", t, want)
			same("outside before the end", db, before)
		}
		if commit {
			var err error
			if txn {
				err = t.Commit()
			} else {
				err = b.Commit()
			}
			l.Assert(err == nil, "commit: %v", err)
			same("after the commit", db, want)
			return
		}
		if txn {
			t.Discard()
		} else {
			b.Discard()
		}
		same("after the discard", db, before)
	})
}

// heldValues: what a read returned stays what it was, whatever is done afterwards.
func heldValues(r *hz.R, st store, depth int) {
	keys := []string{"a", "b"}
	vals := []string{"1", "22", "", bigVal, hugeVal}
	r.Explore(st.name+"/held values", 0, func(c *ex.Ctx) {
		db := st.get(c.Worker)
		type held struct {
			b    []byte
			want string
		}
		var hs []held
		m := map[string]string{}
		var t mondis.ProviderTxn
		defer func() {
			if t != nil {
				t.Discard()
			}
		}()
		take := func(op mondis.CommonKVOP, k, want string, ok bool) {
			v, _, err := op.Get([]byte(k))
			if !ok {
				return
			}
			c.Assert(err == nil && string(v) == want, "Get(%q) = %q, %v, want %q", k, short(string(v)), err, short(want))
			hs = append(hs, held{v, want})
		}
		for i := 0; i < depth; i++ {
			k := keys[c.Choose(2)]
			switch o := c.Choose(len(vals) + 2); {
			case o < len(vals):
				c.Assert(db.Set([]byte(k), []byte(vals[o]), nil) == nil, "set")
				m[k] = vals[o]
			case o == len(vals):
				c.Assert(db.Delete([]byte(k)) == nil, "delete")
				delete(m, k)
			default:
				if !st.txn {
					return
				}
				if t != nil {
					t.Discard()
				}
				t = db.NewTransaction(i%2 == 0)
				for _, x := range keys {
					w, ok := m[x]
					take(t, x, w, ok)
				}
				if i%2 == 0 {
					nv := "in the transaction"
					c.Assert(t.Set([]byte(k), []byte(nv), nil) == nil, "set")
					take(t, k, nv, true)
				}
			}
			for _, x := range keys {
				w, ok := m[x]
				take(db, x, w, ok)
			}
			for j, h := range hs {
				c.Assert(string(h.b) == h.want, "the value returned by read %d was %q, it changed to %q", j, short(h.want), short(string(h.b)))
			}
		}
		c.Observe("%v", m)
	})
}
