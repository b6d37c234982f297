package checks

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

// onPoint installs a function that client and server call before each of their statements;
// nil in a harness built without these points.
var onPoint func(f func(label string))

// stopAt makes whoever reaches the k-th point of one request wait until it is released.
type stopAt struct {
	left    int64
	on      int32
	reached chan string
	release chan bool
}

func (s *stopAt) point(label string) {
	if atomic.LoadInt32(&s.on) == 1 && atomic.AddInt64(&s.left, -1) == 0 {
		atomic.StoreInt32(&s.on, 0)
		s.reached <- label
		<-s.release
	}
}

// unit is a request, or a transaction of several.
type unit []rop

func (u unit) String() string {
	if len(u) == 1 {
		return u[0].String()
	}
	return fmt.Sprint([]rop(u))
}

func (u unit) remote(cl mondis.Client) string {
	one := func(o rop, t mondis.KVOP) string {
		a, err := o.remote(t)
		return fmt.Sprintf("%s %v;", a, err)
	}
	if len(u) == 1 {
		return one(u[0], cl)
	}
	s, update := "", false
	for _, o := range u {
		update = update || o.isWrite()
	}
	f := func(t mondis.Txn) error {
		for _, o := range u {
			s += one(o, t)
		}
		return nil
	}
	if update {
		return s + fmt.Sprint(cl.Update(f))
	}
	return s + fmt.Sprint(cl.View(f))
}

// units of one client: what they touch starts with p
func unitsOf(p string) []unit {
	return []unit{
		{gget(p)}, {gexists(p)}, {gset(p+"s", p, &mondis.VMetaReq{Tag: p[0], TTL: time.Hour})}, {gdel(p + "1")}, {gscan(false, p, "", 4)}, {gscan(true, p, p+"3", 2)},
		{gget(p + "x")}, {gexists(p + "x")},
		{gset(p+"t", p, nil), gget(p), gscan(false, p, "", 3)}, {gget(p), gexists(p + "2"), gscan(true, p, "", 3)},
	}
}

// overlaps stops one request at every statement of client and server, and has another one
// run completely meanwhile; the two touch different keys, so that both answers are known.
func overlaps(r *hz.R) {
	overlapsOf(r, "overlaps", 160, unitsOf)
}

// txnUnits are transactions only
func txnUnits(p string) []unit {
	m := &mondis.VMetaReq{Tag: p[0], TTL: time.Hour}
	return []unit{
		{gset(p+"t", p, nil), gget(p + "t"), gscan(false, p, "", 3)}, {gget(p), gexists(p + "2"), gscan(true, p, "", 3)},
		{gget(p), gset(p+"1", p, m), gget(p + "1")}, {gset(p, p, m), gdel(p + "2"), gexists(p + "2"), gset(p+"2", "", nil)},
		{gscan(false, p, "", 2), gdel(p), gscan(false, p, "", 2)}, {gset("c"+p, p, m)},
		{gget(p), gget(p + "x"), gscan(false, p, p+"1", 1), gset(p+"x", "1", nil), gget(p + "x")},
	}
}

func overlapsOf(r *hz.R, name string, max int, unitsOf func(string) []unit) {
	if onPoint == nil {
		return
	}
	pre := kvmem.New()
	for i, k := range []string{"a", "a1", "a2", "a3", "b", "b1", "b2", "b3", "b4"} {
		_ = pre.Set([]byte(k), []byte(fmt.Sprintf("%s-%d", k, i)), &mondis.VMetaReq{Tag: byte(i)})
	}
	snap := pre.Snapshot()
	as, bs := unitsOf("a"), unitsOf("b")
	r.ExploreProc(name, 0, func(c *ex.Ctx) {
		a, b := as[c.Choose(len(as))], bs[c.Choose(len(bs))]
		conns := 1 + c.Choose(2)
		d, twin := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		st := &stopAt{reached: make(chan string, 1), release: make(chan bool)}
		var once sync.Once
		letgo := func() { once.Do(func() { close(st.release) }) }
		defer letgo()
		onPoint(st.point)
		defer onPoint(func(string) {})
		var cls []mondis.Client
		for i := 0; i < conns; i++ {
			l := &link{}
			cls = append(cls, rem.newClient(l))
			c.Cleanup(l.close)
		}
		ca, cb := cls[0], cls[conns-1]
		// what both answer one after the other
		rt := localTwin(twin)
		want := func(u unit) string { return rt(u) }
		first := func(u unit, cl mondis.Client) string {
			got, w := u.remote(cl), want(u)
			if got != w {
				c.Fail("%v: the client returns %.300q, the database says %.300q", u, got, w)
			}
			return got
		}
		first(b, cb)
		first(a, ca)
		c.Assert(await(d.Idle), "transactions stay open")
		at := 1 + c.Choose(max)
		wa, wb := want(a), want(b)
		ra, rb := make(chan string, 1), make(chan string, 1)
		atomic.StoreInt64(&st.left, int64(at))
		atomic.StoreInt32(&st.on, 1)
		go func() { ra <- a.remote(ca) }()
		ga, gb, where := "", "", ""
		ended := false
		select {
		case where = <-st.reached:
		case ga = <-ra:
			ended = true
			atomic.StoreInt32(&st.on, 0)
			select {
			case where = <-st.reached: // the server still works on it
			default:
			}
		}
		if where == "" {
			c.Observe("over %v", ga == wa)
			c.Assert(ga == wa, "%v: the client returns %.300q, the database says %.300q", a, ga, wa)
			return
		}
		c.Logf("%v waits at %s, %v runs (%d connections)", a, where, b, conns)
		go func() { rb <- b.remote(cb) }()
		got := false
		select {
		case gb = <-rb:
			got = true
		case <-time.After(100 * time.Millisecond): // it may have to wait
		}
		letgo()
		limit := time.After(30 * time.Second)
		if !got {
			select {
			case gb = <-rb:
			case <-limit:
				c.Fail("%v gets no answer", b)
			}
		}
		if !ended {
			select {
			case ga = <-ra:
			case <-limit:
				c.Fail("%v gets no answer", a)
			}
		}
		if ga != wa || gb != wb {
			c.Fail("%v waits at %s while %v runs: the answers are %.300q and %.300q, should be %.300q and %.300q", a, where, b, ga, gb, wa, wb)
		}
		c.Assert(await(d.Idle), "transactions stay open")
		c.Assert(d.Snapshot().Key() == twin.Snapshot().Key(), "%v waits at %s while %v runs: the database has %v, should have %v", a, where, b, d.Snapshot(), twin.Snapshot())
		c.Observe("%s %v %v", where, a, b)
	})
}

// localTwin answers units on a local database.
func localTwin(d *kvmem.DB) func(u unit) string {
	one := func(o rop, t mondis.ProviderKVOP) string {
		a, err := o.local(t)
		return fmt.Sprintf("%s %v;", a, err)
	}
	return func(u unit) string {
		if len(u) == 1 {
			return one(u[0], d)
		}
		update := false
		for _, o := range u {
			update = update || o.isWrite()
		}
		t := d.NewTransaction(update)
		defer t.Discard()
		s := ""
		for _, o := range u {
			s += one(o, t)
		}
		if update {
			return s + fmt.Sprint(t.Commit())
		}
		return s + fmt.Sprint(nil)
	}
}
