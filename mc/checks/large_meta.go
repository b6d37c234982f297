package checks

import (
	"math"
	"sort"

	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"

	"mc/hz"
	"mc/kvmem"
)

// idSeqs are id sequences crossing digit, byte and sign boundaries.
var idSeqs = []func(i int) int64{
	func(i int) int64 { return int64(i + 1) },
	func(i int) int64 { return 250 - int64(i) },
	func(i int) int64 { return 1<<40 - 7 + int64(i)*3 },
	func(i int) int64 { return math.MaxInt64 - int64(i) },
}

// catSizes: n databases, or n collections of one database, created, changed and dropped.
func catSizes(r *hz.R) {
	ns := sizesFor(r.Quick)
	var use []int
	for _, n := range ns {
		if n <= 300 || (!r.Quick && n <= 513) {
			use = append(use, n)
		}
	}
	const edits = 3
	r.Enum("sizes", len(use)*len(idSeqs)*2*edits, func(i int, l *hz.Log) {
		edit := i % edits
		i /= edits
		colls := i%2 == 1
		i /= 2
		id := idSeqs[i%len(idSeqs)]
		n := use[len(use)-1-i/len(idSeqs)]
		db := kvmem.New()
		m := map[int64]*catDB{}
		t := db.NewTransaction(true)
		ok := func(err error, what string) { l.Assert(err == nil, "%s: %v", what, err) }
		next := func() {
			ok(t.Commit(), "commit")
			t = db.NewTransaction(true)
		}
		const home = 77777
		mk := func(d int64, v int) {
			ok(meta.NewMeta(t).CreateDatabase(mkDB(d, v)), "CreateDatabase")
			m[d] = &catDB{v, map[int64]int{}, map[int64]int64{}}
		}
		mk(home, 0)
		ok(meta.NewMeta(t).CreateCollection(home, mkColl(-1000005, 1)), "CreateCollection")
		m[home].colls[-1000005] = 1
		dbIDs, cids := []int64{home}, []int64{-1000005}
		var ids []int64
		for j := 0; j < n; j++ {
			x := id(j)
			ids = append(ids, x)
			if colls {
				ok(meta.NewMeta(t).CreateCollection(home, mkColl(x, j%2)), "CreateCollection")
				m[home].colls[x] = j % 2
				cids = append(cids, x)
			} else {
				mk(x, j%2)
				dbIDs = append(dbIDs, x)
			}
			if j == n/2 {
				next()
			}
		}
		l.Logf("%d ids from %d, collections %v, edit %d", n, id(0), colls, edit)
		observeCat(t, m, dbIDs, cids, l)
		next()
		mt := meta.NewMeta(t)
		switch edit {
		case 0: // everything goes
			if colls {
				ok(mt.DropDatabase(home), "DropDatabase")
				delete(m, home)
			} else {
				for _, x := range ids {
					ok(mt.DropDatabase(x), "DropDatabase")
					delete(m, x)
				}
			}
		case 1: // every other one goes, the others change
			for j, x := range ids {
				switch {
				case colls && j%2 == 0:
					ok(mt.DropCollection(home, x, j%4 == 0), "DropCollection")
					delete(m[home].colls, x)
				case colls:
					ok(mt.UpdateCollection(home, mkColl(x, 0)), "UpdateCollection")
					m[home].colls[x] = 0
				case j%2 == 0:
					ok(mt.DropDatabase(x), "DropDatabase")
					delete(m, x)
				default:
					ok(mt.UpdateDatabase(mkDB(x, 0)), "UpdateDatabase")
					m[x].variant = 0
				}
			}
		case 2: // names taken are refused, and refusals have no effect
			for _, x := range ids {
				var err, want error
				if colls {
					err, want = mt.CreateCollection(home, mkColl(x, 1)), meta.ErrCollectionExists
				} else {
					err, want = mt.CreateDatabase(mkDB(x, 1)), meta.ErrDBExists
				}
				l.Assert(err == want, "creating %d again: %v, want %v", x, err, want)
			}
			l.Assert(mt.DropCollection(home, -1000006, true) == meta.ErrCollectionNotExists, "dropping a missing collection")
			l.Assert(mt.DropDatabase(home+1) == meta.ErrDBNotExists, "dropping a missing database")
		}
		observeCat(t, m, dbIDs, cids, l)
		next()
		observeCat(t, m, dbIDs, cids, l)
		t.Discard()
	})
	// versions, ids and the change log along one long history
	steps := 1100
	if !r.Quick {
		steps = 5000
	}
	r.Enum("long-history", 2, func(k int, l *hz.Log) {
		db := kvmem.New()
		var ver, gid int64
		for i := 0; i < steps; i++ {
			t := db.NewTransaction(true)
			mt := meta.NewMeta(t)
			v, err := mt.GenSchemaVersion()
			l.Assert(err == nil && v == ver+1, "GenSchemaVersion = %d,%v after %d", v, err, ver)
			ver = v
			g, err := mt.GenGlobalID()
			l.Assert(err == nil && g == gid+1, "GenGlobalID = %d,%v after %d", g, err, gid)
			gid = g
			if k == 1 {
				n := 1 + i%7
				a, b, err := mt.GenGlobalIDs(n)
				l.Assert(err == nil && a == gid && b == a+int64(n), "GenGlobalIDs(%d) = (%d,%d],%v after %d", n, a, b, err, gid)
				gid = b
			}
			l.Assert(mt.SetSchemaDiff(mkDiff(ver, i%2)) == nil, "SetSchemaDiff")
			l.Assert(mt.FinishBootstrap(ver) == nil, "FinishBootstrap")
			l.Assert(t.Commit() == nil, "commit")
			rt := db.NewTransaction(false)
			mt = meta.NewMeta(rt)
			v, err = mt.GetSchemaVersion()
			l.Assert(err == nil && v == ver, "GetSchemaVersion = %d,%v want %d", v, err, ver)
			v, err = mt.GetBootstrapVersion()
			l.Assert(err == nil && v == ver, "GetBootstrapVersion = %d,%v want %d", v, err, ver)
			g, err = mt.GetGlobalID()
			l.Assert(err == nil && g == gid, "GetGlobalID = %d,%v want %d", g, err, gid)
			rt.Discard()
			l.Obs += 6
		}
		rt := db.NewTransaction(false)
		defer rt.Discard()
		mt := meta.NewMeta(rt)
		for x := int64(1); x <= ver; x++ {
			d, err := mt.GetSchemaDiff(x)
			w := mkDiff(x, int(x-1)%2)
			l.Assert(err == nil && d != nil, "GetSchemaDiff(%d) of %d: %v %v", x, ver, d, err)
			l.Assert(d.Version == x && d.Type == w.Type && sameJSON(d.CollectionIDs, w.CollectionIDs), "GetSchemaDiff(%d) = %s", x, js(d))
			arg := &model.DBInfo{}
			l.Assert(d.DecodeArg(arg) == nil && sameJSON(arg, w.Arg), "argument of entry %d: %s", x, js(arg))
			l.Obs++
		}
		d, err := mt.GetSchemaDiff(ver + 1)
		l.Assert(err == nil && d == nil, "GetSchemaDiff beyond the last version: %v %v", d, err)
		l.Logf("versions up to %d, ids up to %d", ver, gid)
	})
	// blocks of ids of every order of magnitude
	blocks := []int{1, 9, 10, 11, 99, 100, 255, 256, 65535, 65536, 1 << 31, 1<<53 + 1, 1 << 61}
	r.Enum("id-blocks", len(blocks)*len(blocks), func(i int, l *hz.Log) {
		db := kvmem.New()
		var at int64
		for _, n := range []int{blocks[i/len(blocks)], blocks[i%len(blocks)]} {
			t := db.NewTransaction(true)
			a, b, err := meta.NewMeta(t).GenGlobalIDs(n)
			l.Assert(err == nil && a == at && b == at+int64(n), "GenGlobalIDs(%d) = (%d,%d],%v after %d", n, a, b, err, at)
			at = b
			l.Assert(t.Commit() == nil, "commit")
		}
		t := db.NewTransaction(true)
		g, err := meta.NewMeta(t).GenGlobalID()
		l.Logf("%d", g)
		l.Assert(err == nil && g == at+1, "GenGlobalID = %d,%v after %d", g, err, at)
	})
}

// jobSizes: n jobs in a queue, changed, taken out in order and archived.
func jobSizes(r *hz.R) {
	var use []int
	for _, n := range sizesFor(r.Quick) {
		if !r.Quick || n <= 300 {
			use = append(use, n)
		}
	}
	r.Enum("sizes", len(use)*len(idSeqs)*2, func(i int, l *hz.Log) {
		q := i % 2
		i /= 2
		id := idSeqs[i%len(idSeqs)]
		n := use[len(use)-1-i/len(idSeqs)]
		db := kvmem.New()
		t := db.NewTransaction(true)
		ok := func(err error, what string) { l.Assert(err == nil, "%s: %v", what, err) }
		next := func() {
			ok(t.Commit(), "commit")
			t = db.NewTransaction(true)
		}
		ok(meta.NewMeta(t, listKeys[1-q]).EnQueueDDLJob(mkJob(5, 0)), "EnQueueDDLJob")
		kind := func(j int) int { return j % 3 }
		for j := 0; j < n; j++ {
			ok(meta.NewMeta(t).EnQueueDDLJob(mkJob(id(j), kind(j)), listKeys[q]), "EnQueueDDLJob")
		}
		next()
		m := meta.NewMeta(t, listKeys[q])
		at := func(x int) {
			g, err := m.GetDDLJobByIdx(int64(x))
			l.Obs++
			l.Assert(err == nil, "GetDDLJobByIdx(%d): %v", x, err)
			if x >= n {
				l.Assert(g == nil, "GetDDLJobByIdx(%d) of %d returned a job", x, n)
				return
			}
			if d := jobDiff(g, mkJob(id(x), kind(x))); d != "" {
				l.Fail("GetDDLJobByIdx(%d) of %d: %s", x, n, d)
			}
		}
		for j := 0; j < n+2; j++ {
			at(j)
		}
		ln, err := m.DDLJobQueueLen()
		l.Assert(err == nil && ln == int64(n), "DDLJobQueueLen = %d,%v want %d", ln, err, n)
		all, err := m.GetAllDDLJobsInQueue()
		l.Assert(err == nil && len(all) == n, "GetAllDDLJobsInQueue: %d jobs, %v, want %d", len(all), err, n)
		seen := map[int64]bool{}
		for _, j := range all {
			seen[j.ID] = true
		}
		l.Assert(len(seen) == n, "GetAllDDLJobsInQueue shows %d different jobs of %d", len(seen), n)
		// every other job changes in place
		for j := 0; j < n; j += 2 {
			ok(m.UpdateDDLJob(int64(j), mkJob(id(j), 2)), "UpdateDDLJob")
		}
		kind0 := kind
		kind = func(j int) int {
			if j%2 == 0 {
				return 2
			}
			return kind0(j)
		}
		l.Assert(m.UpdateDDLJob(int64(n), mkJob(1, 0)) == meta.ErrJobNotExists, "UpdateDDLJob(%d) of %d", n, n)
		next()
		m = meta.NewMeta(t, listKeys[q])
		for j := 0; j < n+2; j++ {
			at(j)
		}
		// first in, first out
		for j := 0; j < n; j++ {
			g, err := m.DeQueueDDLJob()
			ok(err, "DeQueueDDLJob")
			if d := jobDiff(g, mkJob(id(j), kind(j))); d != "" {
				l.Fail("DeQueueDDLJob %d of %d: %s", j, n, d)
			}
			ok(m.AddHistoryDDLJob(g), "AddHistoryDDLJob")
			l.Obs++
		}
		g, err := m.DeQueueDDLJob()
		l.Assert(err == nil && g == nil, "DeQueueDDLJob of an empty queue: %v %v", g, err)
		next()
		m = meta.NewMeta(t)
		ln, err = m.DDLJobQueueLen(listKeys[1-q])
		l.Assert(err == nil && ln == 1, "the other queue has %d jobs (%v), want 1", ln, err)
		var ids []int64
		kinds := map[int64]int{}
		for j := 0; j < n; j++ {
			ids = append(ids, id(j))
			kinds[id(j)] = kind(j)
			g, err := m.GetHistoryDDLJob(id(j))
			ok(err, "GetHistoryDDLJob")
			if d := jobDiff(g, mkJob(id(j), kind(j))); d != "" {
				l.Fail("GetHistoryDDLJob(%d): %s", id(j), d)
			}
			l.Obs++
		}
		neg := false
		for _, x := range ids {
			neg = neg || x < 0
		}
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		hist, err := m.GetAllHistoryDDLJobs()
		l.Assert(err == nil && len(hist) == n, "GetAllHistoryDDLJobs: %d jobs, %v, want %d", len(hist), err, n)
		if neg {
			return // job ids are positive; the order of others is not specified
		}
		for _, c := range limits(n) {
			last, err := m.GetLastNHistoryDDLJobs(c)
			want := clamp(c, n)
			l.Obs++
			l.Assert(err == nil && len(last) == want, "GetLastNHistoryDDLJobs(%d) of %d: %d jobs, %v", c, n, len(last), err)
			for x, j := range last {
				w := ids[n-1-x]
				l.Assert(j.ID == w, "GetLastNHistoryDDLJobs(%d)[%d] is job %d, want %d", c, x, j.ID, w)
				if c == n {
					if d := jobDiff(j, mkJob(w, kinds[w])); d != "" {
						l.Fail("GetLastNHistoryDDLJobs(%d)[%d]: %s", c, x, d)
					}
				}
			}
		}
		l.Logf("%d jobs from %d", n, id(0))
		t.Discard()
	})
}
