//go:build conc

package conc

import (
	"fmt"
	"sort"
	"sync/atomic"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P16", &hz.Check{
		Level:  "model_checking",
		Rule:   "every schedule of the tasks up to the stated number of preemptions, with storage faults and crashes as further choices; distinct = distinct histories of results",
		Assume: []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04)", "statements that touch shared memory are atomic; a data race inside one statement is not modelled", "Clear is not used while other instances are live"},
		Run:    runP16,
	})
}

// seqAPI is what both kinds of sequence offer.
type seqAPI interface {
	Next() (int64, error)
	NextN(n int64) ([]sequence.IDRange, error)
	PutBack(vals ...int64)
	ReleaseRemaining() error
	ReNew() error
	Close(bool) error
}

type seqKind struct {
	name string
	mk   func(db mondis.KVDB, bw int64) (seqAPI, error)
}

var seqKinds = []seqKind{
	{"hash", func(db mondis.KVDB, bw int64) (seqAPI, error) {
		s, err := meta.NewDocIDSequence(db, 1, 2, bw)
		if err != nil {
			return nil, err
		}
		return s, nil
	}},
	{"string", func(db mondis.KVDB, bw int64) (seqAPI, error) {
		s, err := sequence.NewString(db, []byte("kw"), bw)
		if err != nil {
			return nil, err
		}
		return s, nil
	}},
}

// ids tracks who holds which id: an id is held from the moment it is handed out until it
// is put back.
type ids struct {
	held map[int64]string
	ever int
}

func (h *ids) take(e *env, who string, id int64) {
	if id <= 0 {
		e.failf("%s was handed the id %d", who, id)
	}
	if o, ok := h.held[id]; ok {
		e.failf("the id %d was handed to %s and to %s", id, o, who)
	}
	h.held[id] = who
	h.ever++
}

func (h *ids) key() string {
	var l []string
	for id, w := range h.held {
		l = append(l, fmt.Sprint(id, w))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

type seqProg []string

func (p seqProg) run(e *env, who string, s seqAPI, h *ids) {
	var last int64
	for _, op := range p {
		switch op {
		case "next":
			id, err := s.Next()
			if err == nil {
				h.take(e, who, id)
				last = id
			} else {
				e.expectErr(who, err)
			}
		case "next2", "next3", "next5":
			n := int64(op[4] - '0')
			rs, err := s.NextN(n)
			if err != nil {
				e.expectErr(who, err)
				continue
			}
			got := int64(0)
			for _, r := range rs {
				for id := r.Start + 1; id <= r.End; id++ {
					h.take(e, who, id)
					got++
				}
			}
			if got != n {
				e.failf("%s asked for %d ids and got %d: %v", who, n, got, rs)
			}
		case "putback":
			if last != 0 {
				delete(h.held, last)
				s.PutBack(last)
				last = 0
			}
		case "release":
			if err := s.ReleaseRemaining(); err != nil {
				e.expectErr(who, err)
			}
		case "renew":
			if err := s.ReNew(); err != nil {
				e.expectErr(who, err)
			}
		case "close":
			_ = s.Close(true)
		}
	}
}

// expectErr: an error is only an answer if something went wrong.
func (e *env) expectErr(who string, err error) {
	if err == sequence.ErrSequenceClosed || err == kvmem.ErrConflict || err == kvmem.ErrInjected || err == kvmem.ErrDead {
		return
	}
	e.failf("%s: unexpected error %v", who, err)
}

type fullSeq interface {
	seqAPI
	Clear() error
}

// seqHistory: every sequence of operations on one sequence and a neighbour, with up to two
// live instances, failing commits, crashes (an instance abandoned) and reopening.
func seqHistory(c *ex.Ctx, k seqKind, quick bool) {
	depth := 5
	if !quick {
		depth = 6
	}
	bw := []int64{1, 2, 3}[c.Choose(3)]
	plain(c, func(e *env) {
		db := e.db(nil)
		failNext := kvmem.Kind("")
		e.onOp = func(op *kvmem.Op) error {
			if op.Kind == failNext {
				failNext = ""
				return kvmem.ErrInjected
			}
			return nil
		}
		type inst struct {
			s    fullSeq
			last int64
			max  int64
			dead bool
			back []int64
		}
		h := &ids{held: map[int64]string{}}
		open := func() *inst {
			s, err := k.mk(db, bw)
			if err != nil {
				e.failf("cannot open the sequence: %v", err)
			}
			return &inst{s: s.(fullSeq)}
		}
		// a neighbour in the same hash, and its next id
		nb, err := meta.NewDocIDSequence(db, 1, 3, 2)
		must(err)
		nbNext, err := nb.Next()
		must(err)
		is := []*inst{open()}
		for d := 0; d < depth; d++ {
			i := is[0]
			if len(is) > 1 {
				i = is[c.Choose(2)]
			}
			ops := []string{"next", "next2", "next4", "putback", "release", "renew", "close", "crash", "fail next commit", "fail next get"}
			if len(is) == 1 {
				ops = append(ops, "second instance", "clear")
			}
			op := ops[c.Choose(len(ops))]
			c.Logf("%s", op)
			who := fmt.Sprintf("step %d", d)
			ok := func(err error) bool {
				if i.dead {
					if err != sequence.ErrSequenceClosed {
						e.failf("%s on a closed sequence: %v", op, err)
					}
					return false
				}
				if err != nil && err != kvmem.ErrInjected {
					e.failf("%s: %v", op, err)
				}
				return err == nil
			}
			took := func(id int64, fresh bool) {
				h.take(e, who, id)
				if fresh {
					if id <= i.max {
						e.failf("%s: the id %d follows %d", op, id, i.max)
					}
					i.max = id
				}
				i.last = id
			}
			switch op {
			case "next":
				back := len(i.back) > 0
				id, err := i.s.Next()
				if !ok(err) {
					break
				}
				if back {
					found := false
					for j, b := range i.back {
						if b == id {
							i.back = append(i.back[:j:j], i.back[j+1:]...)
							found = true
							break
						}
					}
					took(id, !found)
				} else {
					took(id, true)
				}
			case "next2", "next4":
				n := int64(op[4] - '0')
				rs, err := i.s.NextN(n)
				if !ok(err) {
					break
				}
				if len(rs) < 1 || len(rs) > 2 {
					e.failf("NextN(%d) answered %v", n, rs)
				}
				got := int64(0)
				for _, r := range rs {
					for id := r.Start + 1; id <= r.End; id++ {
						took(id, true)
						got++
					}
				}
				if got != n {
					e.failf("NextN(%d) answered %v", n, rs)
				}
			case "putback":
				if i.last != 0 && !i.dead {
					delete(h.held, i.last)
					i.s.PutBack(i.last)
					i.back = append(i.back, i.last)
					i.last = 0
				}
			case "release":
				ok(i.s.ReleaseRemaining())
			case "renew":
				ok(i.s.ReNew())
			case "close":
				if ok(i.s.Close(c.Choose(2) == 1)) || !i.dead {
					i.dead = true
				}
			case "crash":
				failNext = ""
				// the instance is abandoned; a new one opens on what is stored
				for j, o := range is {
					if o == i {
						is[j] = open()
					}
				}
			case "second instance":
				failNext = ""
				is = append(is, open())
			case "fail next commit":
				failNext = kvmem.KCommit
			case "fail next get":
				failNext = kvmem.KGet
			case "clear":
				if ok(i.s.Clear()) {
					// a fresh start
					h.held = map[int64]string{}
					i.max, i.last, i.back = 0, 0, nil
					id, err := i.s.Next()
					if err != nil && err != kvmem.ErrInjected {
						e.failf("next after clear: %v", err)
					}
					if err == nil {
						if id != 1 {
							e.failf("the first id after clear is %d", id)
						}
						took(id, true)
					}
				}
			}
		}
		failNext = ""
		n2, err := nb.Next()
		must(err)
		if n2 != nbNext+1 {
			e.failf("the neighbour's ids went from %d to %d", nbNext, n2)
		}
		nb2, err := meta.NewDocIDSequence(db, 1, 3, 2)
		must(err)
		if n3, err := nb2.Next(); err != nil || n3 <= n2 {
			e.failf("the neighbour handed out %d and then, reopened, %d (%v)", n2, n3, err)
		}
		c.Observe("%s", h.key())
	})
}

func runP16(r *hz.R) {
	pb := 2
	if !r.Quick {
		pb = 3
	}
	progs := [][]seqProg{
		{{"next", "next"}, {"next", "next"}},
		{{"next", "next3"}, {"next2", "next"}},
		{{"next", "putback", "next"}, {"next", "next2"}},
		{{"next", "release", "next"}, {"next", "next"}},
		{{"next3", "renew", "next"}, {"next", "release", "next"}},
		{{"next", "close"}, {"next", "next2"}, {"next"}},
	}
	for _, k := range seqKinds {
		k := k
		r.ExploreProc(k.name+"/histories", 0, func(c *ex.Ctx) { seqHistory(c, k, r.Quick) })
		r.ExploreProc(k.name+"/sizes", 0, func(c *ex.Ctx) { seqSizes(c, k, r.Quick) })
		// one instance shared by threads
		r.ExploreProc(k.name+"/shared", pb, func(c *ex.Ctx) {
			bw := []int64{1, 2}[c.Choose(2)]
			p := progs[c.Choose(len(progs))]
			bubble(c, func(e *env) {
				db := e.db(nil)
				s, err := k.mk(db, bw)
				must(err)
				h := &ids{held: map[int64]string{}}
				for i := range p {
					i := i
					who := fmt.Sprint("t", i)
					e.s.Go(who, func() { p[i].run(e, who, s, h) })
				}
				e.run()
				c.Observe("%s", h.key())
			})
		})
		// several instances over one store, storage faults, then a crash and a successor
		r.ExploreProc(k.name+"/instances", pb, func(c *ex.Ctx) {
			bw := []int64{1, 2}[c.Choose(2)]
			p := progs[c.Choose(len(progs))]
			crash := c.Choose(2) == 1
			bubble(c, func(e *env) {
				db := e.db(nil)
				h := &ids{held: map[int64]string{}}
				var alive atomic.Int32
				e.onOp = func(op *kvmem.Op) error {
					if op.Kind == kvmem.KCommit && e.fault("commit fails") {
						return kvmem.ErrInjected
					}
					return nil
				}
				e.faults = 1
				for i := range p {
					i := i
					who := fmt.Sprint("i", i)
					alive.Add(1)
					e.s.Go(who, func() {
						s, err := k.mk(db, bw)
						if err != nil {
							e.expectErr(who, err)
							return
						}
						p[i].run(e, who, s, h)
					})
				}
				e.run()
				if crash {
					db2 := e.db(db.Snapshot())
					e.faults = 0
					e.s.Go("next", func() {
						s, err := k.mk(db2, bw)
						must(err)
						seqProg{"next", "next2", "next"}.run(e, "successor", s, h)
					})
					e.run()
				}
				c.Observe("%s", h.key())
			})
		})
	}
}

// seqSizes: long uses of sequences with large and small leases, ids put back in numbers,
// reopened in between.
func seqSizes(c *ex.Ctx, k seqKind, quick bool) {
	bws := []int64{1, 2, 7, 10, 50, 64, 100, 1000, 1 << 40}
	ns := []int{9, 10, 11, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 2001}
	if quick {
		ns = []int{10, 11, 50, 51, 65, 100, 101, 128, 129, 257, 1001}
	}
	bw, n := bws[c.Choose(len(bws))], ns[c.Choose(len(ns))]
	plan := c.Choose(6)
	end := c.Choose(4)
	plain(c, func(e *env) {
		db := e.db(nil)
		mk := func() fullSeq {
			s, err := k.mk(db, bw)
			must(err)
			return s.(fullSeq)
		}
		s := mk()
		h := &ids{held: map[int64]string{}}
		c.Logf("leases of %d, %d ids, plan %d, end %d", bw, n, plan, end)
		var got []int64
		next := func(who string) int64 {
			id, err := s.Next()
			if err != nil {
				e.failf("%s: %v", who, err)
			}
			h.take(e, who, id)
			got = append(got, id)
			return id
		}
		block := func(n int64) {
			rs, err := s.NextN(n)
			if err != nil {
				e.failf("NextN(%d): %v", n, err)
			}
			cnt := int64(0)
			for _, r := range rs {
				for id := r.Start + 1; id <= r.End; id++ {
					h.take(e, "block", id)
					got = append(got, id)
					cnt++
				}
			}
			if cnt != n {
				e.failf("NextN(%d) answered %d ids: %v", n, cnt, rs)
			}
		}
		back := func(vs ...int64) {
			for _, v := range vs {
				delete(h.held, v)
			}
			s.PutBack(vs...)
		}
		switch plan {
		case 0:
			for i := 0; i < n; i++ {
				if id := next("one by one"); id != int64(i+1) {
					e.failf("id %d of an undisturbed sequence is %d", i+1, id)
				}
			}
		case 1:
			block(int64(n))
		case 2:
			block(3)
			block(int64(n))
			next("after the block")
			block(int64(n))
		case 3: // all are put back, one by one, and handed out again
			block(int64(n))
			all := append([]int64{}, got...)
			for _, id := range all {
				back(id)
			}
			for range all {
				next("again")
			}
			next("more")
		case 4: // in one call
			block(int64(n))
			back(append([]int64{}, got...)...)
			for i := 0; i < n/2; i++ {
				next("again")
			}
			block(int64(n))
			for i := 0; i < n/2+3; i++ {
				next("more")
			}
		case 5: // putting back and taking in turn
			for i := 0; i < n; i++ {
				id := next("turn")
				if i%3 != 2 {
					back(id)
				}
			}
		}
		top := int64(0)
		for _, id := range got {
			if id > top {
				top = id
			}
		}
		switch end {
		case 0: // abandoned
			s = mk()
		case 1:
			must(s.Close(true))
			if _, err := s.Next(); err == nil {
				e.failf("a closed sequence answers")
			}
			s = mk()
		case 2:
			must(s.ReleaseRemaining())
		case 3:
			must(s.ReNew())
		}
		for i := 0; i < n+3; i++ {
			next("afterwards")
		}
		c.Observe("%d %d", len(h.held), top)
	})
}
