package checks

import (
	"fmt"
	"math"
	"time"

	"github.com/zhiqiangxu/mondis"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

// longTxns: transactions of many operations, many transactions after each other and many
// open at once, over one connection.
func longTxns(r *hz.R, snap kvmem.Snap, step func(c *ex.Ctx, o rop, update bool, t mondis.Txn, twin mondis.ProviderTxn) error) {
	ns := []int{17, 33, 65, 100, 101, 129, 257, 513}
	nest := 12
	if !r.Quick {
		ns = append(sizes(40, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024), 3000)
		nest = 40
	}
	alpha := func(i int) rop {
		k := fmt.Sprint("k", i%37)
		switch i % 9 {
		case 0, 3:
			return gset(k, fmt.Sprint("v", i), nil)
		case 1:
			return gget(fmt.Sprint("k", (i-1)%37))
		case 2:
			return gset(k, "", &mondis.VMetaReq{Tag: byte(i)})
		case 4:
			return gexists(fmt.Sprint("k", (i-1)%37))
		case 5:
			return gscan(i%2 == 0, "k", "", 7)
		case 6:
			return gdel(fmt.Sprint("k", (i*7)%37))
		case 7:
			return gget("none")
		}
		return gscan(false, "", "k2", 1000)
	}
	r.ExploreProc("long transactions", 0, func(c *ex.Ctx) {
		n := ns[c.Choose(len(ns))]
		kind := c.Choose(3) // one long one, many short ones, many read-only ones
		end := c.Choose(2)
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		c.Logf("%d operations, kind %d, end %d", n, kind, end)
		per, txns, update := n, 1, kind < 2
		if kind > 0 {
			per, txns = 2, (n+1)/2
		}
		at := 0
		for x := 0; x < txns; x++ {
			twin := td.NewTransaction(update)
			run := cl.View
			if update {
				run = cl.Update
			}
			fail := end == 1 && (txns == 1 || x%3 == 1)
			err := run(func(t mondis.Txn) error {
				for i := 0; i < per; i++ {
					o := alpha(at)
					at++
					if o.isWrite() && !update {
						continue
					}
					_ = step(c, o, update, t, twin)
				}
				if fail {
					return errCallback
				}
				return nil
			})
			if fail {
				c.Assert(err == errCallback, "transaction %d: %v, the callback returned an error", x, err)
				twin.Discard()
			} else {
				c.Assert(err == nil, "transaction %d: %v", x, err)
				if update {
					_ = twin.Commit()
				}
				twin.Discard()
			}
			if d.Snapshot().Key() != td.Snapshot().Key() {
				c.Fail("after transaction %d of %d: the database has %v, expected %v", x, txns, d.Snapshot(), td.Snapshot())
			}
		}
		c.Assert(await(d.Idle), "transactions stay open")
	})
	r.ExploreProc("nested", 0, func(c *ex.Ctx) {
		n := 1 + c.Choose(nest)
		failing := c.Choose(n+1) - 1
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		c.Logf("%d transactions inside each other, number %d fails", n, failing)
		var open func(i int)
		open = func(i int) {
			if i == n {
				return
			}
			twin := td.NewTransaction(true)
			k := fmt.Sprint("n", i)
			err := cl.Update(func(t mondis.Txn) error {
				_ = step(c, gset(k, "mine", nil), true, t, twin)
				open(i + 1)
				_ = step(c, gget(k), true, t, twin)
				_ = step(c, gget(fmt.Sprint("n", i+1)), true, t, twin)
				_ = step(c, gget("a"), true, t, twin)
				if i == failing {
					return errCallback
				}
				return nil
			})
			if i == failing {
				c.Assert(err == errCallback, "transaction %d: %v", i, err)
				twin.Discard()
			} else {
				lerr := twin.Commit()
				twin.Discard()
				c.Assert(sameErr(err, lerr), "transaction %d: the client returns %v, a local transaction %v", i, err, lerr)
			}
		}
		open(0)
		if d.Snapshot().Key() != td.Snapshot().Key() {
			c.Fail("the database has %v, expected %v", d.Snapshot(), td.Snapshot())
		}
		c.Assert(await(d.Idle), "transactions stay open")
		c.Observe("%d", failing)
	})
}

// metadata: the tag and the time to live of a set reach the database exactly as given, and what
// the database says about them reaches the client.
func remoteMeta(r *hz.R) {
	ttls := []time.Duration{0, 1, 2, 127, 128, 255, 256, time.Microsecond, time.Millisecond - 1, time.Millisecond, 999 * time.Millisecond, time.Second - 1, time.Second, time.Second + 1, 1500 * time.Millisecond, 59*time.Second + 999*time.Millisecond, time.Minute, time.Hour, time.Hour + 1, 24 * time.Hour,
		1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<31*time.Second - 1, 1 << 31 * time.Second, 1<<32*time.Second + 1, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, -1, -time.Millisecond, -time.Second, -1500 * time.Millisecond, -time.Hour, -1 << 31, -1<<31 - 1, -1 << 32, math.MinInt64, math.MinInt64 + 1}
	for i := uint(8); i < 63; i += 7 {
		ttls = append(ttls, 1<<i-1, 1<<i, 1<<i+1)
	}
	fewTags := []byte{0, 1, 127, 128, 255}
	fewTTLs := []time.Duration{0, 1, 1500 * time.Millisecond, time.Hour, -1}
	r.ExploreProc("metadata", 0, func(c *ex.Ctx) {
		var m *mondis.VMetaReq
		if c.Choose(2) == 0 {
			m = &mondis.VMetaReq{TTL: ttls[c.Choose(len(ttls))], Tag: fewTags[c.Choose(len(fewTags))]}
		} else {
			m = &mondis.VMetaReq{TTL: fewTTLs[c.Choose(len(fewTTLs))], Tag: byte(c.Choose(256))}
		}
		after := [][]*mondis.VMetaReq{{m}, {nil, m}, {m, nil}, {{Tag: 3, TTL: time.Minute}, m, nil}, {m, {}}}[c.Choose(5)]
		tx := c.Choose(2) == 1
		again := c.Choose(2) == 1 // over the same key
		d, twin := kvmem.New(), kvmem.New()
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		var got []string
		d.Hook = func(op *kvmem.Op) error {
			if op.Kind == kvmem.KSet {
				got = append(got, metaStr(op.Meta))
			}
			return nil
		}
		do := func(t mondis.KVOP, lt mondis.ProviderKVOP) {
			for i, am := range after {
				k := []byte("k")
				if !again {
					k = []byte{'k', byte(i)}
				}
				got = nil
				for _, o := range []rop{{kind: rSet, k: k, v: []byte{byte(i)}, meta: am}, {kind: rGet, k: k}, {kind: rExists, k: k}, gscan(false, "", "", 9)} {
					ra, re := o.remote(t)
					la, le := o.local(lt)
					if !sameErr(re, le) || ra != la {
						c.Fail("%v with %v (transaction: %v): the client returns %.200q, %v; the database %.200q, %v", o, metaStr(am), tx, ra, re, la, le)
					}
				}
				if len(got) != 1 || got[0] != metaStr(am) {
					c.Fail("set with %v (transaction: %v): the database got %v", metaStr(am), tx, got)
				}
			}
		}
		if tx {
			lt := twin.NewTransaction(true)
			err := cl.Update(func(t mondis.Txn) error { do(t, lt); return nil })
			c.Assert(err == nil, "Update: %v", err)
			_ = lt.Commit()
		} else {
			do(cl, twin)
		}
		d.Hook = nil
		c.Assert(d.Snapshot().Key() == twin.Snapshot().Key(), "set with %v: the contents differ", after)
		c.Observe("%v", metaStr(m))
	})
}

// metaStr describes what is asked for; asking for nothing is the same as not asking.
func metaStr(m *mondis.VMetaReq) string {
	if m == nil {
		m = &mondis.VMetaReq{}
	}
	return fmt.Sprintf("ttl %d tag %d", m.TTL, m.Tag)
}
