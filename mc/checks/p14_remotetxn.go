package checks

import (
	"errors"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P14", &hz.Check{Level: "model_checking",
		Rule:   "every sequence of operations of a remote transaction up to the stated depth with every way to end it, every write of somebody else between them, every storage failure, every interleaving of two remote transactions, and every frame at which the connection is lost, before it, inside it and after its execution; distinct = distinct answers and contents",
		Assume: []string{"a lost connection is seen by the server as closed; frames are not reordered", "the database behind the server is the in-memory provider bound to Badger by P01-P04"},
		Run:    runP14})
}

var errCallback = errors.New("the callback gives up")

// outcomes of a callback
const (
	endNil = iota
	endErr
	endPanic
	endCommit         // explicit commit, then more operations
	endDiscard        // explicit discard, then more operations
	endCommitReturns  // explicit commit, then an error
	endDiscardReturns // explicit discard, then an error
	endCount
)

var endNames = []string{"returns nil", "returns an error", "panics", "commits itself", "discards itself", "commits itself and returns an error", "discards itself and returns an error"}

type sentinel struct{}

// runTxn calls Update or View and reports a panic of the callback.
func runTxn(cl mondis.Client, update bool, f func(t mondis.Txn) error) (err error, panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(sentinel); !ok {
				panic(p)
			}
			panicked = true
		}
	}()
	if update {
		return cl.Update(f), false
	}
	return cl.View(f), false
}

func p14Alphabet() []rop {
	return []rop{
		gset("a", "x", nil), gset("a", "", &mondis.VMetaReq{Tag: 9}), gset("b", "yy", &mondis.VMetaReq{TTL: time.Hour}),
		gget("a"), gget("b"), gexists("a"), gexists("ab"), gdel("a"), gdel("ab"),
		gscan(false, "", "", 10), gscan(true, "", "", 1), gscan(false, "a", "", 5),
	}
}

func p14Snap() kvmem.Snap {
	d := kvmem.New()
	_ = d.Set([]byte("a"), []byte("0"), &mondis.VMetaReq{Tag: 1})
	_ = d.Set([]byte("ab"), []byte("1"), nil)
	return d.Snapshot()
}

func runP14(r *hz.R) {
	r.Tolerate = qrpcCrash
	fixedClock()
	defer func() { kvmem.Now = time.Now }()
	snap := p14Snap()
	alpha := p14Alphabet()
	outside := []rop{{kind: -1}, gset("a", "o", nil), gdel("ab")}

	// one step of a transaction: same answer from the client and the twin
	step := func(c *ex.Ctx, o rop, update bool, t mondis.Txn, twin mondis.ProviderTxn) error {
		ra, re := o.remote(t)
		if o.isWrite() && !update {
			c.Assert(re == client.ErrMutateForROTxn, "%v in a read-only transaction answers %v", o, re)
			return re
		}
		la, le := o.local(twin)
		if !sameErr(re, le) || ra != la {
			c.Fail("%v: the client returns %.300q, %v; a local transaction %.300q, %v", o, ra, re, la, le)
		}
		c.Observe("%v %v", la, le)
		return re
	}

	single := func(c *ex.Ctx, depth int, alpha, outside []rop, faults bool) {
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		update := faults || c.Choose(2) == 0
		n := c.Choose(depth + 1)
		at, out := -1, outside[0]
		if len(outside) > 1 && n > 0 {
			at = c.Choose(n + 1)
			if at > 0 {
				out = outside[1+c.Choose(len(outside)-1)]
			}
		}
		end := c.Choose(endCount)
		commitFails := faults && c.Choose(2) == 1
		var twin mondis.ProviderTxn
		begun, committed, commitTried := false, false, false
		var twinErr error
		c.Logf("update=%v", update)
		ended := func() {
			if twin == nil {
				return
			}
			if commitTried && update {
				failWhen(td, kvmem.KCommit, commitFails)
				twinErr = twin.Commit()
				td.Hook = nil
				committed = twinErr == nil
			} else {
				twin.Discard()
			}
		}
		err, panicked := runTxn(cl, update, func(t mondis.Txn) error {
			for i := 0; i < n; i++ {
				o := alpha[c.Choose(len(alpha))]
				if !begun && (update || !o.isWrite()) {
					begun = true
					twin = td.NewTransaction(update)
				}
				if faults {
					k := opKinds[o.kind]
					es := provErrs(o, k)
					e := es[c.Choose(len(es))]
					failing(d, k, e)
					failing(td, k, e)
					if e != nil {
						c.Logf("the database fails with: %v", e)
					}
				}
				c.Logf("%v", o)
				step(c, o, update, t, twin)
				d.Hook, td.Hook = nil, nil
				c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "after %v, not committed, the database has %v, expected %v", o, d.Snapshot(), td.Snapshot())
				if i+1 == at {
					c.Logf("somebody else: %v", out)
					_, _ = out.local(d)
					_, _ = out.local(td)
				}
			}
			failWhen(d, kvmem.KCommit, commitFails)
			if commitFails {
				c.Logf("the commit fails")
			}
			c.Logf("the callback %s", endNames[end])
			switch end {
			case endErr:
				ended()
				return errCallback
			case endPanic:
				ended()
				panic(sentinel{})
			case endCommit, endCommitReturns:
				if !update {
					return nil // nothing is promised about committing a read-only transaction
				}
				commitTried = true
				ended()
				e := t.Commit()
				c.Assert((e == nil) == (twinErr == nil), "commit returns %v, expected %v", e, twinErr)
			case endDiscard, endDiscardReturns:
				ended()
				t.Discard()
				c.Assert(await(d.Idle), "a discarded transaction stays open")
			default:
				commitTried = true
				ended()
				return nil
			}
			if begun {
				// the transaction has ended
				for _, o := range []rop{gset("z", "z", nil), gget("a"), gdel("ab"), gscan(false, "", "", 2)} {
					_, e := o.remote(t)
					c.Assert(e != nil, "%v after the end of the transaction succeeds", o)
				}
				c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "after its end the database has %v, expected %v", d.Snapshot(), td.Snapshot())
			}
			if end == endCommitReturns || end == endDiscardReturns {
				return errCallback
			}
			return nil
		})
		d.Hook = nil
		c.Logf("-> %v", err)
		switch end {
		case endNil:
			c.Assert((err == nil) == (twinErr == nil), "it returns %v, expected %v", err, twinErr)
		case endErr, endCommitReturns, endDiscardReturns:
			if update || end == endErr {
				c.Assert(err == errCallback, "it returns %v, not the error of the callback", err)
			}
		case endPanic:
			c.Assert(panicked, "the panic of the callback is lost")
		case endDiscard:
			// committing what was discarded
			c.Assert(!update || !begun || err != nil, "it returns nil although the transaction was discarded")
		}
		c.Assert(await(d.Idle), "the transaction stays open")
		c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "at the end the database has %v, expected %v (committed: %v)", d.Snapshot(), td.Snapshot(), committed)
		// the connection still works
		for _, o := range []rop{gset("q", "q", nil), gget("a"), gscan(false, "", "", 10)} {
			ra, re := o.remote(cl)
			la, le := o.local(td)
			if !sameErr(re, le) || ra != la {
				c.Fail("%v afterwards: the client returns %.300q, %v; expected %.300q, %v", o, ra, re, la, le)
			}
		}
		c.Observe("%v %v", committed, d.Snapshot().Key())
	}
	small := []rop{gset("a", "x", nil), gset("b", "", &mondis.VMetaReq{Tag: 3}), gget("a"), gexists("ab"), gdel("ab"), gscan(false, "", "", 10)}
	depth := 2
	if !r.Quick {
		depth = 3
	}
	longTxns(r, snap, step)
	r.ExploreProc("transactions", 0, func(c *ex.Ctx) { single(c, depth, alpha, outside, false) })
	r.ExploreProc("refused keys", 0, func(c *ex.Ctx) { single(c, depth+1, refusedKeys(""), outside[:1], false) })
	r.ExploreProc("longer", 0, func(c *ex.Ctx) { single(c, depth+1, small, outside[:1], false) })
	r.ExploreProc("failures", 0, func(c *ex.Ctx) { single(c, depth, small, outside[:1], true) })

	// two transactions in every interleaving
	two := func(c *ex.Ctx, steps int, alpha []rop) {
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		l := &link{}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		cls := []mondis.Client{cl, cl}
		if c.Choose(2) == 1 {
			l2 := &link{}
			cls[1] = rem.newClient(l2)
			c.Cleanup(l2.close)
		}
		type reply struct {
			a   string
			err error
		}
		var in [2]chan rop // kind -1: the callback returns; v says what
		var outc [2]chan reply
		var fin [2]chan error
		var twin [2]mondis.ProviderTxn
		var upd [2]bool
		done := [2]bool{}
		left := [2]int{}
		for i := range in {
			upd[i] = i == 0 || c.Choose(2) == 0
			left[i] = steps
			in[i], outc[i], fin[i] = make(chan rop, 1), make(chan reply, 1), make(chan error, 1)
			i := i
			go func() {
				err, _ := runTxn(cls[i], upd[i], func(t mondis.Txn) error {
					for o := range in[i] {
						if o.kind == -1 {
							if len(o.v) > 0 {
								return errCallback
							}
							return nil
						}
						a, e := o.remote(t)
						outc[i] <- reply{a, e}
					}
					return errCallback
				})
				fin[i] <- err
			}()
		}
		c.Cleanup(func() {
			for i := range in {
				if !done[i] {
					close(in[i])
				}
			}
		})
		for !done[0] || !done[1] {
			w := 0
			if done[0] {
				w = 1
			} else if !done[1] {
				w = c.Choose(2)
			}
			if left[w] == 0 {
				fail := c.Choose(2) == 1
				o := rop{kind: -1}
				if fail {
					o.v = []byte{1}
				}
				done[w] = true
				in[w] <- o
				var err error
				select {
				case err = <-fin[w]:
				case <-time.After(20 * time.Second):
					c.Fail("transaction %d does not end", w)
				}
				c.Logf("transaction %d ends, callback failing=%v: %v", w, fail, err)
				var le error
				if fail {
					twin[w].Discard()
					c.Assert(err == errCallback, "transaction %d returns %v, not the error of the callback", w, err)
				} else {
					if upd[w] {
						le = twin[w].Commit()
					} else {
						twin[w].Discard()
					}
					c.Assert((err == nil) == (le == nil), "transaction %d returns %v, expected %v", w, err, le)
				}
				c.Observe("end %v", le)
			} else {
				left[w]--
				o := alpha[c.Choose(len(alpha))]
				if o.isWrite() && !upd[w] {
					o = gget(string(o.k))
				}
				if twin[w] == nil {
					twin[w] = td.NewTransaction(upd[w])
				}
				in[w] <- o
				var a reply
				select {
				case a = <-outc[w]:
				case <-time.After(20 * time.Second):
					c.Fail("transaction %d gets no answer to %v", w, o)
				}
				la, le := o.local(twin[w])
				c.Logf("transaction %d: %v: %v %v", w, o, a.a, a.err)
				if !sameErr(a.err, le) || a.a != la {
					c.Fail("transaction %d, %v: the client returns %.300q, %v; a local transaction %.300q, %v", w, o, a.a, a.err, la, le)
				}
				c.Observe("%v %v", la, le)
			}
			c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "the database has %v, expected %v", d.Snapshot(), td.Snapshot())
		}
		c.Assert(await(d.Idle), "a transaction stays open")
	}
	pair := small
	overlapsOf(r, "overlaps", 260, txnUnits)
	r.ExploreProc("two transactions", 0, func(c *ex.Ctx) { two(c, 2, pair) })
	if !r.Quick {
		r.ExploreProc("two longer transactions", 0, func(c *ex.Ctx) {
			two(c, 3, []rop{small[0], small[2], gset("ab", "2", nil), small[5]})
		})
	}

	// the connection is lost
	lost := func(c *ex.Ctx, maxOps int) {
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		update := c.Choose(2) == 0
		n := 1 + c.Choose(maxOps)
		// what the transaction does
		prog := make([]rop, n)
		for i := range prog {
			prog[i] = small[c.Choose(len(small))]
			if !update && prog[i].isWrite() {
				prog[i] = gget(string(prog[i].k))
			}
		}
		l := &link{}
		l.cutAt = 1 + c.Choose(n+1) // the last frame commits, or discards
		l.mode = 1 + c.Choose(3)
		if l.mode == cutTorn {
			l.torn = []int{1, 15, 16, 1 << 30}[c.Choose(4)]
		}
		stops := c.Choose(2) == 0  // the callback returns the error
		l.again = c.Choose(2) == 1 // the client connects again
		early := c.Choose(2) == 1  // the new connection is there before the callback continues
		first := c.Choose(3)       // what the new connection is used for before that
		if !l.again && (early || first > 0) || !early && first > 0 {
			return
		}
		var seen int64
		d.Hook = func(op *kvmem.Op) error {
			if op.Kind != kvmem.KBegin {
				atomic.AddInt64(&seen, 1)
			}
			return nil
		}
		l.waitFor = func() {
			if l.cutAt == n+1 {
				await(d.Idle)
			} else {
				await(func() bool { return atomic.LoadInt64(&seen) >= int64(l.cutAt) })
			}
		}
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		modes := []string{"", "before it is sent", fmt.Sprintf("after %d of its bytes", l.torn), "before its answer"}
		c.Logf("update=%v, frame %d is lost %s, the callback stops: %v, connects again: %v early: %v first: %d", update, l.cutAt, modes[l.mode], stops, l.again, early, first)

		var openTxn chan bool
		var openDone chan error
		wait := func() {
			if l.again && early {
				ok := await(func() bool {
					_, err := cl.Exists([]byte("ab"))
					return err == nil
				})
				c.Assert(ok, "the client does not connect again")
				switch first {
				case 1:
					c.Assert(cl.Set([]byte("other"), []byte("1"), nil) == nil, "set on the new connection fails")
					_ = td.Set([]byte("other"), []byte("1"), nil)
				case 2:
					// another transaction is open meanwhile
					openTxn, openDone = make(chan bool), make(chan error, 1)
					ready := make(chan error, 1)
					go func() {
						openDone <- cl.Update(func(t mondis.Txn) error {
							ready <- t.Set([]byte("open"), []byte("2"), nil)
							<-openTxn
							return nil
						})
					}()
					select {
					case e := <-ready:
						c.Assert(e == nil, "a transaction on the new connection fails: %v", e)
					case <-time.After(20 * time.Second):
						c.Fail("a transaction on the new connection hangs")
					}
				}
			}
		}
		twin := td.NewTransaction(update)
		fresh, begun := l.cutAt == 1 && l.mode != cutExecuted && !stops, false
		var err error
		finished := make(chan error, 1)
		var pan interface{}
		go func() {
			defer func() {
				if p := recover(); p != nil {
					pan = p
					finished <- nil
				}
			}()
			e, _ := runTxn(cl, update, func(t mondis.Txn) error {
				for i, o := range prog {
					ra, re := o.remote(t)
					if i+1 < l.cutAt {
						la, le := o.local(twin)
						if !sameErr(re, le) || ra != la {
							c.Fail("%v: the client returns %.300q, %v; a local transaction %.300q, %v", o, ra, re, la, le)
						}
						continue
					}
					if fresh && i+1 > l.cutAt {
						if re == nil || re == kv.ErrKeyNotFound {
							// the first request did not get out and failed, so the transaction begins here
							if !begun {
								begun = true
								twin.Discard()
								twin = td.NewTransaction(update)
							}
							la, le := o.local(twin)
							if !sameErr(re, le) || ra != la {
								c.Fail("%v: the client returns %.300q, %v; a local transaction %.300q, %v", o, ra, re, la, le)
							}
						} else if begun {
							c.Fail("%v: %v", o, re)
						}
						continue
					}
					c.Assert(re != nil && re != kv.ErrKeyNotFound, "%v succeeds although the connection is lost: %v", o, re)
					if i+1 == l.cutAt {
						wait()
					}
					if stops {
						return re
					}
				}
				return nil
			})
			finished <- e
		}()
		select {
		case err = <-finished:
		case <-time.After(30 * time.Second):
			c.Fail("the transaction does not end after the connection is lost")
		}
		if pan != nil {
			if f, ok := pan.(ex.Failure); ok {
				panic(f)
			}
			c.Fail("panic in the client: %v", pan)
		}
		c.Logf("-> %v", err)
		if openTxn != nil {
			close(openTxn)
			select {
			case e := <-openDone:
				c.Assert(e == nil, "the other transaction fails: %v", e)
			case <-time.After(20 * time.Second):
				c.Fail("the other transaction hangs")
			}
			_ = td.Set([]byte("open"), []byte("2"), nil)
		}
		c.Assert(await(d.Idle), "the transaction stays open after the connection is lost")
		committed := update && l.cutAt == n+1 && l.mode == cutExecuted || begun && update && err == nil
		if fresh && !begun {
			err = errCut // nothing was begun
		}
		if committed {
			_ = twin.Commit()
		} else {
			twin.Discard()
			if update {
				c.Assert(err != nil, "it returns nil but nothing is committed")
			}
		}
		c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "the database has %v, expected %v (commit executed: %v)", d.Snapshot(), td.Snapshot(), committed)
		d.Hook = nil
		// a new client works
		l3 := &link{}
		cl3 := rem.newClient(l3)
		c.Cleanup(l3.close)
		for _, o := range []rop{gget("a"), gscan(false, "", "", 10)} {
			ra, re := o.remote(cl3)
			la, le := o.local(td)
			if !sameErr(re, le) || ra != la {
				c.Fail("%v afterwards: the client returns %.300q, %v; expected %.300q, %v", o, ra, re, la, le)
			}
		}
		c.Observe("%v %v", committed, d.Snapshot().Key())
	}
	ml := 3
	if !r.Quick {
		ml = 4
	}
	r.ExploreProc("lost connections", 0, func(c *ex.Ctx) { lost(c, ml) })

	// plain requests whose connection is lost are executed completely or not at all
	r.ExploreProc("lost requests", 0, func(c *ex.Ctx) {
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		o := alpha[c.Choose(len(alpha))]
		l := &link{cutAt: 1, mode: 1 + c.Choose(3)}
		if l.mode == cutTorn {
			l.torn = []int{1, 15, 16, 1 << 30}[c.Choose(4)]
		}
		l.again = c.Choose(2) == 1
		l.waitFor = func() { await(func() bool { return d.Begun > 0 && d.Idle() }) }
		cl := rem.newClient(l)
		c.Cleanup(l.close)
		c.Logf("%v, mode %d, torn %d, connects again: %v", o, l.mode, l.torn, l.again)
		res := make(chan error, 1)
		go func() { _, e := o.remote(cl); res <- e }()
		var err error
		select {
		case err = <-res:
		case <-time.After(20 * time.Second):
			c.Fail("%v hangs", o)
		}
		c.Assert(err != nil && err != kv.ErrKeyNotFound, "%v: %v although the connection is lost", o, err)
		if l.mode == cutExecuted {
			_, _ = o.local(td)
		}
		c.Assert(await(d.Idle), "the transaction stays open")
		if l.again {
			c.Assert(await(func() bool { _, e := cl.Exists([]byte("ab")); return e == nil }), "the client does not connect again")
		} else {
			// a client without a connection answers with errors, alone and in transactions
			after := alpha[c.Choose(len(alpha))]
			intxn := c.Choose(2) == 1
			c.Logf("afterwards %v, in a transaction: %v", after, intxn)
			go func() {
				if !intxn {
					_, e := after.remote(cl)
					res <- e
					return
				}
				var in error
				e := cl.Update(func(t mondis.Txn) error { _, in = after.remote(t); return in })
				if e == nil {
					e = in
				}
				res <- e
			}()
			select {
			case err = <-res:
			case <-time.After(20 * time.Second):
				c.Fail("%v hangs without a connection", after)
			}
			c.Assert(err != nil && err != kv.ErrKeyNotFound, "%v: %v without a connection", after, err)
			c.Assert(await(d.Idle), "the transaction stays open")
		}
		c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "the database has %v, expected %v", d.Snapshot(), td.Snapshot())
		c.Observe("%v", d.Snapshot().Key())
	})
}

// failWhen the condition holds, operations of the kind fail.
func failWhen(d *kvmem.DB, k kvmem.Kind, cond bool) {
	d.Hook = nil
	if cond {
		failing(d, k, errOther)
	}
}
