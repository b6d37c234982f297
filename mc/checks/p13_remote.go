package checks

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P13", &hz.Check{Level: "model_checking",
		Rule:   "every sequence of client requests up to the stated depth over a real connection, with every answer of the database (success, each error); every size and option of the stated sets; every order in which the database executes concurrent requests on one connection; distinct = distinct answers and contents",
		Assume: []string{"qrpc delivers frames in order and matches answers by request id; loopback does not lose data", "the database behind the server is the in-memory provider bound to Badger by P01-P04, and Badger itself in one scenario"},
		Run:    runP13})
}

// fixedClock keeps expiry times equal on both sides.
func fixedClock() {
	now := time.Now()
	kvmem.Now = func() time.Time { return now }
}

func remoteAlphabet(tx bool) []rop {
	h := &mondis.VMetaReq{TTL: time.Hour}
	out := []rop{
		gset("a", "x", nil), gset("a", "", nil), gset("ab", "yy", nil), gset("ab", "", &mondis.VMetaReq{Tag: 255}), gset("b", "z", h), gset("b", "", &mondis.VMetaReq{TTL: time.Hour, Tag: 7}),
		gset("", "x", nil), gset("a", "x", &mondis.VMetaReq{}), gset("b", "w", &mondis.VMetaReq{TTL: -time.Hour, Tag: 1}),
		gget("a"), gget("ab"), gget("b"), gget(""),
		gexists("a"), gexists("b"), gexists(""),
		gdel("a"), gdel("b"), gdel(""),
	}
	for _, rev := range []bool{false, true} {
		out = append(out, gscan(rev, "", "", 10), gscan(rev, "a", "", 10), gscan(rev, "", "ab", 1), gscan(rev, "a", "ab", 2), gscan(rev, "", "", 0))
	}
	out = append(out, gscan(false, "", "", -1), gscan(false, "", "", 1<<40))
	return out
}

// provErrs are the answers a database can give.
func provErrs(o rop, k kvmem.Kind) []error {
	switch {
	case k == kvmem.KSet, k == kvmem.KDelete:
		return []error{nil, kv.ErrTxnTooBig, errOther}
	case k == kvmem.KGet && o.kind == rGet:
		return []error{nil, kv.ErrKeyNotFound, errOther}
	}
	return []error{nil, errOther}
}

var opKinds = map[int]kvmem.Kind{rSet: kvmem.KSet, rGet: kvmem.KGet, rExists: kvmem.KExists, rDelete: kvmem.KDelete, rScan: kvmem.KScan}

func runP13(r *hz.R) {
	r.Tolerate = qrpcCrash
	fixedClock()
	defer func() { kvmem.Now = time.Now }()
	depth := 3
	if !r.Quick {
		depth = 4
	}
	pre := kvmem.New()
	_ = pre.Set([]byte("ab"), []byte("0"), &mondis.VMetaReq{Tag: 9})
	snap := pre.Snapshot()
	alpha := remoteAlphabet(false)
	history := func(c *ex.Ctx, alpha []rop, depth int, faults bool) {
		d, twin := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		for i := 0; i < depth; i++ {
			o := alpha[c.Choose(len(alpha))]
			if faults {
				k := opKinds[o.kind]
				if o.isWrite() && c.Choose(2) == 1 {
					k = kvmem.KCommit
				}
				es := provErrs(o, k)
				e := es[c.Choose(len(es))]
				failing(d, k, e)
				failing(twin, k, e)
				if e != nil {
					c.Logf("the database fails with: %v", e)
				}
			}
			c.Logf("%v", o)
			ra, re := o.remote(cl)
			la, le := o.local(twin)
			if !sameErr(re, le) || ra != la {
				c.Fail("%v: the client returns %.300q, %v; the database %.300q, %v", o, ra, re, la, le)
			}
			d.Hook, twin.Hook = nil, nil
			c.Assert(d.Snapshot().Key() == twin.Snapshot().Key(), "%v: the served database has %v, expected %v", o, d.Snapshot(), twin.Snapshot())
			c.Observe("%v %v", la, le)
		}
		c.Assert(await(func() bool { return d.Idle() }), "transactions stay open")
	}
	r.ExploreProc("histories", 0, func(c *ex.Ctx) { history(c, alpha, depth, false) })
	r.ExploreProc("refused keys", 0, func(c *ex.Ctx) { history(c, refusedKeys("", strings.Repeat("k", 65001), "!badger!"), 2, false) })
	small := []rop{gset("a", "x", nil), gset("b", "", &mondis.VMetaReq{Tag: 3}), gget("a"), gget("ab"), gexists("ab"), gdel("ab"), gscan(false, "", "", 10), gscan(true, "", "", 1)}
	r.ExploreProc("failures", 0, func(c *ex.Ctx) { history(c, small, depth-1, true) })

	// pages
	big := kvmem.New()
	tb := big.NewTransaction(true)
	for i := 0; i < mondis.MaxEntry+3; i++ {
		_ = tb.Set([]byte(fmt.Sprintf("k%05d", i)), []byte{byte(i)}, &mondis.VMetaReq{Tag: byte(i)})
	}
	_ = tb.Set([]byte("z"), nil, nil)
	_ = tb.Commit()
	bigSnap := big.Snapshot()
	limits := []int{-1, 0, 1, 2, mondis.MaxEntry - 1, mondis.MaxEntry, mondis.MaxEntry + 1, mondis.MaxEntry + 2, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 1, 1<<63 - 1}
	prefixes := []string{"", "k", "k0000", "z", "y"}
	offsets := []string{"", "k00001", "k01001", "k01002", "z"}
	r.ExploreProc("pages", 0, func(c *ex.Ctx) {
		o := gscan(c.Choose(2) == 1, prefixes[c.Choose(len(prefixes))], offsets[c.Choose(len(offsets))], limits[c.Choose(len(limits))])
		mode := c.Choose(3) // plain, first in a transaction, later in a transaction after another scan
		d, twin := kvmem.FromSnap(bigSnap), kvmem.FromSnap(bigSnap)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		c.Logf("%v, mode %d", o, mode)
		la, le := o.local(twin)
		check := func(ra string, re error) {
			if !sameErr(re, le) || ra != la {
				c.Fail("%v: the client returns %d bytes: %.300q, %v; the database %d bytes: %.300q, %v", o, len(ra), ra, re, len(la), la, le)
			}
		}
		if mode == 0 {
			check(o.remote(cl))
		} else {
			err := cl.View(func(t mondis.Txn) error {
				if mode == 2 {
					for _, p := range []rop{gscan(false, "z", "", 5), gscan(false, "k", "", 2)} {
						ra, re := p.remote(t)
						la, le := p.local(twin)
						if !sameErr(re, le) || ra != la {
							c.Fail("%v: the client returns %.300q, %v; the database %.300q, %v", p, ra, re, la, le)
						}
					}
				}
				check(o.remote(t))
				return nil
			})
			c.Assert(err == nil, "View: %v", err)
		}
		c.Observe("%v", len(la))
	})

	// sizes and contents
	sizes := []int{0, 1, 2, 126, 127, 128, 129, 1000, 1023, 1024, 1025, 16383, 16384, 65535, 65536, 1 << 20, 3 << 20}
	r.ExploreProc("sizes", 0, func(c *ex.Ctx) {
		ks, vs := 1+sizes[c.Choose(15)], sizes[c.Choose(len(sizes))]
		fill := c.Choose(3)
		tx := c.Choose(2) == 1
		mk := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				switch fill {
				case 0:
					b[i] = byte(i)
				case 1:
					b[i] = 0xff
				}
			}
			return b
		}
		d, twin := kvmem.New(), kvmem.New()
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		key := mk(ks)
		set := rop{kind: rSet, k: key, v: mk(vs), meta: &mondis.VMetaReq{TTL: time.Duration(vs) * time.Second, Tag: byte(vs)}}
		ops := []rop{set, {kind: rGet, k: key}, {kind: rExists, k: key}, gscan(false, "", "", 5), {kind: rExists, k: key[:ks-1]}, {kind: rScan, scan: mondis.ScanOption{Limit: 3, ProviderScanOption: mondis.ProviderScanOption{Prefix: key[:ks-1], Offset: key, Reverse: true}}}, {kind: rDelete, k: key}, {kind: rGet, k: key}}
		c.Logf("key of %d bytes, value of %d bytes, filled %d, in a transaction: %v", ks, vs, fill, tx)
		do := func(t mondis.KVOP, lt mondis.ProviderKVOP) {
			for _, o := range ops {
				ra, re := o.remote(t)
				la, le := o.local(lt)
				if !sameErr(re, le) || ra != la {
					c.Fail("%v: the client returns %.200q, %v; the database %.200q, %v", o, ra, re, la, le)
				}
			}
		}
		if tx {
			lt := twin.NewTransaction(true)
			err := cl.Update(func(t mondis.Txn) error { do(t, lt); return nil })
			c.Assert(err == nil, "Update: %v", err)
			_ = lt.Commit()
		} else {
			do(cl, twin)
		}
		c.Assert(d.Snapshot().Key() == twin.Snapshot().Key(), "the contents differ")
		c.Observe("%v", vs)
	})

	remoteMeta(r)
	overlaps(r)

	// concurrent requests on one connection: the database executes them in every order
	conc := []rop{gset("a", "1", nil), gset("b", "2", &mondis.VMetaReq{Tag: 4}), gget("a"), gget("b"), gget("ab"), gexists("ab"), gdel("ab"), gscan(false, "", "", 10)}
	r.ExploreProc("concurrent", 0, func(c *ex.Ctx) {
		n := 2 + c.Choose(2)
		prog := make([]int, n)
		for i := range prog {
			lo := 0
			if i > 0 {
				lo = prog[i-1]
			}
			prog[i] = lo + c.Choose(len(conc)-lo)
		}
		d, twin := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		_ = d.Set([]byte("a"), []byte("0"), nil)
		_ = twin.Set([]byte("a"), []byte("0"), nil)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		// every request waits at the beginning of its transaction
		var mu sync.Mutex
		var parked []chan bool
		d.Hook = func(op *kvmem.Op) error {
			if op.Kind == kvmem.KBegin {
				ch := make(chan bool)
				mu.Lock()
				parked = append(parked, ch)
				mu.Unlock()
				<-ch
			}
			return nil
		}
		type ans struct {
			a   string
			err error
		}
		answers := make([]chan ans, n)
		for i, p := range prog {
			o := conc[p]
			c.Logf("request %d: %v", i, o)
			answers[i] = make(chan ans, 1)
			ch := answers[i]
			go func() {
				a, err := o.remote(cl)
				ch <- ans{a, err}
			}()
			c.Assert(await(func() bool { mu.Lock(); defer mu.Unlock(); return len(parked) == i+1 }), "request %d does not reach the database while %d others are executing", i, i)
		}
		left := make([]int, n)
		for i := range left {
			left[i] = i
		}
		for len(left) > 0 {
			k := c.Choose(len(left))
			i := left[k]
			left = append(append([]int{}, left[:k]...), left[k+1:]...)
			c.Logf("the database executes request %d", i)
			close(parked[i])
			var a ans
			select {
			case a = <-answers[i]:
			case <-time.After(20 * time.Second):
				c.Fail("request %d gets no answer", i)
			}
			la, le := conc[prog[i]].local(twin)
			if !sameErr(a.err, le) || a.a != la {
				c.Fail("request %d (%v): the client returns %q, %v; the database %q, %v", i, conc[prog[i]], a.a, a.err, la, le)
			}
			c.Observe("%v %v", la, le)
		}
		d.Hook = nil
		c.Assert(d.Snapshot().Key() == twin.Snapshot().Key(), "the contents differ")
	})
}

// refusedKeys are operations on keys that storages refuse, and on others
func refusedKeys(refused ...string) []rop {
	ops := []rop{gset("a", "x", &mondis.VMetaReq{Tag: 5}), gget("a"), gexists("a"), gdel("a"), gscan(false, "", "", 10), gscan(true, "a", "a", 1)}
	for _, k := range refused {
		ops = append(ops, gset(k, "v", nil), gget(k), gexists(k), gdel(k))
	}
	return ops
}
