package checks

import (
	"fmt"
	"math"
	"sort"
	"strconv"

	"github.com/zhiqiangxu/mondis/structure"

	"mc/hz"
	"mc/kvmem"
)

// Size dimension: the scenarios of the other files cover every history of small
// contents; the ones here cover every size up to a bound (and around the powers of two
// and ten beyond it) with a fixed family of histories, so a limit, a batch size or a
// digit boundary inside the code cannot hide behind small contents.

// sizes are all numbers up to n and the neighbourhoods of larger round numbers.
func sizes(n int, round ...int) (r []int) {
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	for _, c := range round {
		for d := -1; d <= 1; d++ {
			if c+d > n {
				r = append(r, c+d)
			}
		}
	}
	return
}

var roundSizes = []int{64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024}

func sizesFor(quick bool) []int {
	if quick {
		return sizes(34, roundSizes...)
	}
	return append(sizes(140, roundSizes...), 2047, 2048, 2049)
}

// limits are the counts worth asking for of a collection of n.
func limits(n int) []int {
	m := map[int]bool{}
	for _, c := range []int{-1, 0, 1, 2, n / 2, n - 1, n, n + 1, 2 * n, math.MaxInt32, math.MaxInt64} {
		m[c] = true
	}
	for _, c := range roundSizes {
		for d := -1; d <= 1; d++ {
			if c+d <= n+1 {
				m[c+d] = true
			}
		}
	}
	if n <= 34 {
		for i := 0; i <= n; i++ {
			m[i] = true
		}
	}
	var r []int
	for c := range m {
		r = append(r, c)
	}
	sort.Ints(r)
	return r
}

func clamp(c, n int) int {
	if c < 0 {
		return 0
	}
	if c > n {
		return n
	}
	return c
}

// observeHashLarge is observeHash without the quadratic part.
func observeHashLarge(tx *structure.TxStructure, m hashModel, keys []string, l *hz.Log) {
	for _, k := range keys {
		kb := []byte(k)
		fs := m.fields(k)
		n, err := tx.HLen(kb)
		l.Obs++
		l.Assert(err == nil && n == int64(len(fs)), "HLen(%q) = %d,%v, the hash has %d fields", k, n, err, len(fs))
		got, err := tx.HKeys(kb)
		l.Assert(err == nil && len(got) == len(fs), "HKeys(%q) shows %d fields (%v) of %d", k, len(got), err, len(fs))
		for i := range got {
			l.Assert(string(got[i]) == fs[i], "HKeys(%q)[%d] = %q want %q", k, i, got[i], fs[i])
		}
		for _, f := range fs {
			v, err := tx.HGet(kb, []byte(f))
			l.Obs++
			l.Assert(err == nil && string(v) == m[k][f], "HGet(%q,%q) = %q,%v want %q", k, f, v, err, m[k][f])
		}
		chk := func(what string, p []structure.HashPair, err error, want int, desc bool) {
			l.Obs++
			l.Assert(err == nil && len(p) == want, "%s of %d fields shows %d (%v), want %d", what, len(fs), len(p), err, want)
			for i := range p {
				f := fs[i%len(fs)]
				if desc {
					f = fs[len(fs)-1-i]
				}
				l.Assert(string(p[i].Field) == f && string(p[i].Value) == m[k][f], "%s of %d fields: entry %d is %q=%q, want %q=%q", what, len(fs), i, p[i].Field, p[i].Value, f, m[k][f])
			}
		}
		all, err := tx.HGetAll(kb)
		chk("HGetAll", all, err, len(fs), false)
		for _, c := range limits(len(fs)) {
			p, err := tx.HGetN(kb, c)
			chk(fmt.Sprintf("HGetN %d", c), p, err, clamp(c, len(fs)), false)
			p, err = tx.HGetNDesc(kb, c)
			chk(fmt.Sprintf("HGetNDesc %d", c), p, err, clamp(c, len(fs)), true)
		}
	}
}

var hashField = []func(i int) string{
	func(i int) string { return strconv.Itoa(i) },
	func(i int) string { return string([]byte{byte(i >> 8), byte(i)}) },
}

// hashSizes: a hash of n fields, filled in one of several ways, then changed in one of
// several ways, between two small hashes with neighbouring keys.
func hashSizes(r *hz.R) {
	ns := sizesFor(r.Quick)
	const fills, edits = 4, 9
	keys := []string{"k", "k\x00", "j\xff", ""}
	r.Enum("sizes", len(ns)*len(hashField)*fills*edits, func(i int, l *hz.Log) {
		edit := i % edits
		i /= edits
		fill := i % fills
		i /= fills
		fn := hashField[i%len(hashField)]
		n := ns[len(ns)-1-i/len(hashField)]
		db := kvmem.New()
		m := hashModel{}
		k := []byte("k")
		var t = db.NewTransaction(true)
		tx := structure.New(t, []byte("p"))
		ok := func(err error, what string) { l.Assert(err == nil, "%s failed: %v", what, err) }
		next := func() {
			ok(t.Commit(), "commit")
			t = db.NewTransaction(true)
			tx = structure.New(t, []byte("p"))
		}
		for _, o := range keys[1:] {
			ok(tx.HSet([]byte(o), []byte("f"), []byte("o")), "HSet")
			m.set(o, "f", "o")
		}
		for j := 0; j < n; j++ {
			f := fn(j)
			if fill == 2 {
				f = fn(n - 1 - j)
			}
			switch fill {
			case 3:
				v, err := tx.HInc(k, []byte(f), int64(j+1))
				l.Assert(err == nil && v == int64(j+1), "HInc = %d,%v", v, err)
				m.set("k", f, strconv.Itoa(j+1))
			default:
				ok(tx.HSet(k, []byte(f), []byte(strconv.Itoa(j))), "HSet")
				m.set("k", f, strconv.Itoa(j))
			}
			if fill == 1 && (j%16 == 15 || n < 10) {
				next()
			}
		}
		observeHashLarge(tx, m, keys, l)
		if edit%2 == 0 {
			next()
		}
		l.Logf("%d fields, filled as %d, edited as %d", n, fill, edit)
		all := m.fields("k")
		del := func(fs ...string) {
			ok(tx.HDel(k, bs(fs)...), "HDel")
			for _, f := range fs {
				m.del("k", f)
			}
		}
		var odd []string
		for j, f := range all {
			if j%2 == 1 {
				odd = append(odd, f)
			}
		}
		switch edit {
		case 0:
			ok(tx.HClear(k), "HClear")
			delete(m, "k")
		case 1: // everything in one call, with unknown and repeated fields
			del(append(append(append([]string{"none"}, all...), "f"), all...)...)
		case 2: // all but the first
			if n > 0 {
				del(all[1:]...)
			}
		case 3: // all but the last, one at a time
			for j := 0; j+1 < n; j++ {
				del(all[j])
			}
		case 4:
			del(odd...)
		case 5: // overwrite and count up
			for j, f := range all {
				if j%3 == 0 {
					ok(tx.HSet(k, []byte(f), []byte("new")), "HSet")
					m.set("k", f, "new")
					continue
				}
				old, _ := strconv.ParseInt(m["k"][f], 10, 64)
				v, err := tx.HInc(k, []byte(f), 9)
				l.Assert(err == nil && v == old+9, "HInc = %d,%v want %d", v, err, old+9)
				m.set("k", f, strconv.FormatInt(v, 10))
			}
		case 6: // drop the odd ones, refill them, clear
			del(odd...)
			for _, f := range odd {
				ok(tx.HSetInt64(k, []byte(f), 5), "HSetInt64")
				m.set("k", f, "5")
			}
			observeHashLarge(tx, m, keys, l)
			next()
			ok(tx.HClear(k), "HClear")
			delete(m, "k")
		case 7: // clear and refill within one transaction
			ok(tx.HClear(k), "HClear")
			delete(m, "k")
			for _, f := range odd {
				ok(tx.HSet(k, []byte(f), nil), "HSet")
				m.set("k", f, "")
			}
		case 8: // the neighbours
			ok(tx.HClear([]byte(keys[1])), "HClear")
			ok(tx.HDel([]byte(keys[2]), []byte("f")), "HDel")
			delete(m, keys[1])
			delete(m, keys[2])
		}
		observeHashLarge(tx, m, keys, l)
		next()
		observeHashLarge(tx, m, keys, l)
		t.Discard()
		want := 0
		for _, f := range m {
			want += len(f) + 1
		}
		l.Assert(db.Snapshot().Len() == want, "the store holds %d entries, want %d", db.Snapshot().Len(), want)
	})
	// counters at every digit and sign boundary
	var vals []int64
	for _, v := range []int64{0, 1, 2, 5, 9, 10, 11, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 99999, 100000, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 9999999999, 10000000000, 1<<53 - 1, 1 << 53, 1<<53 + 1, 999999999999999999, 1000000000000000000, math.MaxInt64 - 1, math.MaxInt64} {
		vals = append(vals, v, -v)
	}
	vals = append(vals, math.MinInt64)
	r.Enum("counters", len(vals)*len(vals), func(i int, l *hz.Log) {
		a, b := vals[i/len(vals)], vals[i%len(vals)]
		sum := a + b
		if (a > 0 && b > 0 && sum < 0) || (a < 0 && b < 0 && sum >= 0) {
			return // out of range
		}
		db := kvmem.New()
		t := db.NewTransaction(true)
		tx := structure.New(t, nil)
		k, f := []byte("k"), []byte("f")
		l.Assert(tx.HSetInt64(k, f, a) == nil, "HSetInt64(%d)", a)
		g, err := tx.HGetInt64(k, f)
		l.Assert(err == nil && g == a, "HGetInt64 = %d,%v want %d", g, err, a)
		n, err := tx.HInc(k, f, b)
		l.Logf("%d + %d -> %d %v", a, b, n, err)
		l.Assert(err == nil && n == sum, "HInc of %d by %d = %d,%v", a, b, n, err)
		g, err = tx.HGetInt64(k, f)
		l.Assert(err == nil && g == sum, "HGetInt64 = %d,%v want %d", g, err, sum)
		v, err := tx.HGet(k, f)
		l.Assert(err == nil && string(v) == strconv.FormatInt(sum, 10), "HGet = %q,%v want %d", v, err, sum)
		c, err := tx.HLen(k)
		l.Assert(err == nil && c == 1, "HLen = %d,%v want 1", c, err)
		n, err = tx.HInc(k, []byte("new"), a)
		l.Assert(err == nil && n == a, "HInc of an absent field by %d = %d,%v", a, n, err)
		c, err = tx.HLen(k)
		l.Assert(err == nil && c == 2, "HLen = %d,%v want 2", c, err)
		l.Obs += 6
	})
	// lengths of keys, fields and values
	lens := []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096}
	fills2 := []byte{0, 'a', 0xff}
	nl := len(lens)
	r.Enum("lengths", nl*nl*len(fills2), func(i int, l *hz.Log) {
		b := fills2[i%len(fills2)]
		i /= len(fills2)
		mk := func(n int) string {
			s := make([]byte, n)
			for j := range s {
				s[j] = b
			}
			return string(s)
		}
		kl, fl := lens[i/nl], lens[i%nl]
		db := kvmem.New()
		t := db.NewTransaction(true)
		tx := structure.New(t, []byte("p"))
		m := hashModel{}
		keys := []string{mk(kl), mk(kl + 1), mk(kl) + "m"}
		for ki, k := range keys {
			for _, f := range []string{mk(fl), mk(fl + 1), mk(fl) + "\x00m"} {
				v := strconv.Itoa(ki) + mk((kl+fl)%300)
				l.Assert(tx.HSet([]byte(k), []byte(f), []byte(v)) == nil, "HSet")
				m.set(k, f, v)
			}
		}
		l.Logf("keys of %d bytes, fields of %d bytes of %#x", kl, fl, b)
		observeHashLarge(tx, m, keys, l)
		l.Assert(t.Commit() == nil, "commit")
		t = db.NewTransaction(true)
		tx = structure.New(t, []byte("p"))
		l.Assert(tx.HDel([]byte(keys[0]), []byte(mk(fl))) == nil, "HDel")
		m.del(keys[0], mk(fl))
		l.Assert(tx.HClear([]byte(keys[1])) == nil, "HClear")
		delete(m, keys[1])
		observeHashLarge(tx, m, keys, l)
		l.Assert(t.Commit() == nil, "commit")
		checkHashStore(db.Snapshot(), m, l)
	})
}

// ---------------------------------------------------------------------- P07

func observeListLarge(tx *structure.TxStructure, m listModel, keys []string, l *hz.Log) {
	for _, k := range keys {
		kb := []byte(k)
		cur := m[k]
		n, err := tx.LLen(kb)
		l.Obs++
		l.Assert(err == nil && n == int64(len(cur)), "LLen(%q) = %d,%v want %d", k, n, err, len(cur))
		all, err := tx.LGetAll(kb)
		l.Assert(err == nil && len(all) == len(cur), "LGetAll(%q) shows %d elements (%v) of %d", k, len(all), err, len(cur))
		for i := range all {
			l.Assert(string(all[i]) == cur[len(cur)-1-i], "LGetAll(%q)[%d] = %q want %q", k, i, all[i], cur[len(cur)-1-i])
		}
		for i := -len(cur) - 2; i <= len(cur)+1; i++ {
			v, err := tx.LIndex(kb, int64(i))
			l.Obs++
			j := i
			if j < 0 {
				j += len(cur)
			}
			switch {
			case len(cur) == 0:
				l.Assert(cls(err) == "notfound", "LIndex(%q,%d) of an absent list = %q,%v", k, i, v, err)
			case j < 0 || j >= len(cur):
				l.Assert(len(v) == 0 && (err == nil || cls(err) == "notfound"), "LIndex(%q,%d) of %d elements = %q,%v", k, i, len(cur), v, err)
			default:
				l.Assert(err == nil && string(v) == cur[j], "LIndex(%q,%d) of %d elements = %q,%v want %q", k, i, len(cur), v, err, cur[j])
			}
		}
	}
}

func reverse(s []string) []string {
	r := make([]string, len(s))
	for i, v := range s {
		r[len(s)-1-i] = v
	}
	return r
}

// listSizes: a list of n elements, filled in one of several ways, drifted so that its
// internal positions are on either side of zero, then changed in one of several ways.
func listSizes(r *hz.R) {
	ns := sizesFor(r.Quick)
	const fills, drifts, edits = 4, 3, 7
	keys := []string{"k", "k\x00", ""}
	r.Enum("sizes", len(ns)*fills*drifts*edits, func(i int, l *hz.Log) {
		edit := i % edits
		i /= edits
		drift := i % drifts
		i /= drifts
		fill := i % fills
		n := ns[len(ns)-1-i/fills]
		db := kvmem.New()
		m := listModel{}
		k := []byte("k")
		t := db.NewTransaction(true)
		tx := structure.New(t, []byte("p"))
		ok := func(err error, what string) { l.Assert(err == nil, "%s failed: %v", what, err) }
		next := func() {
			ok(t.Commit(), "commit")
			t = db.NewTransaction(true)
			tx = structure.New(t, []byte("p"))
		}
		for _, o := range keys[1:] {
			ok(tx.RPush([]byte(o), []byte("o")), "RPush")
			m[o] = []string{"o"}
		}
		pop := func(left bool) {
			cur := m["k"]
			var v []byte
			var err error
			var want string
			if left {
				v, err = tx.LPop(k)
				want = cur[0]
				m.put("k", cur[1:])
			} else {
				v, err = tx.RPop(k)
				want = cur[len(cur)-1]
				m.put("k", cur[:len(cur)-1])
			}
			l.Assert(err == nil && string(v) == want, "pop (left %v) of %d elements = %q,%v want %q", left, len(cur), v, err, want)
		}
		var vs []string
		for j := 0; j < n; j++ {
			vs = append(vs, strconv.Itoa(j))
		}
		switch fill {
		case 0:
			ok(tx.RPush(k, bs(vs)...), "RPush")
			m.put("k", vs)
		case 1:
			ok(tx.LPush(k, bs(vs)...), "LPush")
			m.put("k", reverse(vs))
		case 2:
			for j, v := range vs {
				ok(tx.RPush(k, []byte(v)), "RPush")
				m.put("k", append(m["k"], v))
				if j%16 == 15 {
					next()
				}
			}
		case 3: // from the middle
			h := n / 2
			ok(tx.LPush(k, bs(vs[:h])...), "LPush")
			ok(tx.RPush(k, bs(vs[h:])...), "RPush")
			m.put("k", append(reverse(vs[:h]), vs[h:]...))
		}
		// a list that is used as a queue moves through its positions
		if n > 0 && drift > 0 {
			d := 2*n + 5
			if n > 300 {
				d = 40
			}
			for j := 0; j < d; j++ {
				v := "d" + strconv.Itoa(j)
				if drift == 1 {
					ok(tx.RPush(k, []byte(v)), "RPush")
					m.put("k", append(append([]string{}, m["k"]...), v))
				} else {
					ok(tx.LPush(k, []byte(v)), "LPush")
					m.put("k", append([]string{v}, m["k"]...))
				}
				pop(drift == 1)
			}
		}
		observeListLarge(tx, m, keys, l)
		if edit%2 == 0 {
			next()
		}
		l.Logf("%d elements, filled as %d, drift %d, edited as %d", n, fill, drift, edit)
		switch edit {
		case 0:
			ok(tx.LClear(k), "LClear")
			delete(m, "k")
		case 1:
			for len(m["k"]) > 0 {
				pop(true)
			}
			v, err := tx.LPop(k)
			l.Assert(cls(err) == "notfound", "LPop of an emptied list = %q,%v", v, err)
		case 2:
			for len(m["k"]) > 0 {
				pop(false)
			}
			v, err := tx.RPop(k)
			l.Assert(cls(err) == "notfound", "RPop of an emptied list = %q,%v", v, err)
			ok(tx.RPush(k, []byte("again")), "RPush")
			m.put("k", []string{"again"})
		case 3: // every position is set, by either index
			cur := append([]string{}, m["k"]...)
			for j := range cur {
				cur[j] = "s" + strconv.Itoa(j)
				idx := int64(j)
				if j%2 == 1 {
					idx -= int64(len(cur))
				}
				ok(tx.LSet(k, idx, []byte(cur[j])), "LSet")
			}
			m.put("k", cur)
			for _, idx := range []int64{int64(len(cur)), int64(len(cur)) + 1, -int64(len(cur)) - 1, math.MaxInt64, math.MinInt64} {
				l.Assert(tx.LSet(k, idx, []byte("x")) != nil, "LSet(%d) of %d elements succeeded", idx, len(cur))
			}
		case 4: // both ends in turn, down to one element
			for j := 0; len(m["k"]) > 1; j++ {
				pop(j%2 == 0)
			}
		case 5: // grow by as much at either end in one call
			ok(tx.LPush(k, bs(vs)...), "LPush")
			ok(tx.RPush(k, bs(vs)...), "RPush")
			m.put("k", append(append(reverse(vs), m["k"]...), vs...))
		case 6: // clear and refill in one transaction
			ok(tx.LClear(k), "LClear")
			ok(tx.LPush(k, []byte("x"), []byte("y")), "LPush")
			m.put("k", []string{"y", "x"})
		}
		observeListLarge(tx, m, keys, l)
		next()
		observeListLarge(tx, m, keys, l)
		t.Discard()
		want := 0
		for _, v := range m {
			want += len(v) + 1
		}
		l.Assert(db.Snapshot().Len() == want, "the store holds %d entries, want %d", db.Snapshot().Len(), want)
	})
}
