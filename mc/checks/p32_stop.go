package checks

import (
	"errors"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/server"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P32", &hz.Check{Level: "model_checking",
		Rule:   "every request and transaction of the stated set stopped before and after each of its database calls, beside no other, an idle update or an idle read-only transaction of another connection, while the server is stopped; start and stop with every failure of the database; distinct = distinct outcomes",
		Assume: []string{"a database call that is in progress goes on only after the stop had 25 ms to close the database", "the database behind the server is the in-memory provider bound to Badger by P01-P04, and Badger itself in one scenario"},
		Run:    runP32})
}

// stopDB watches how the database behind a server is used while it is closed.
type stopDB struct {
	mondis.KVDB
	mu       sync.Mutex
	n        int // calls so far
	park     int // this call waits
	post     bool
	in       int
	txns     int
	opened   int
	closed   int
	bad      string
	openErr  error
	closeErr error
	parked   chan string
	release  chan struct{}
	closing  chan struct{}
}

func newStopDB(d mondis.KVDB) *stopDB {
	return &stopDB{KVDB: d, parked: make(chan string, 1), release: make(chan struct{}), closing: make(chan struct{})}
}

func (s *stopDB) call(name string, f func()) {
	s.mu.Lock()
	s.n++
	here := s.n == s.park
	post := s.post
	if s.closed > 0 && s.bad == "" {
		s.bad = name + " on the closed database"
	}
	s.in++
	s.mu.Unlock()
	if here && !post {
		s.parked <- name
		<-s.release
	}
	f()
	if here && post {
		s.parked <- name
		<-s.release
	}
	s.mu.Lock()
	s.in--
	s.mu.Unlock()
}

func (s *stopDB) Open(o mondis.KVOption) error {
	s.mu.Lock()
	s.opened++
	e := s.openErr
	s.mu.Unlock()
	if e != nil {
		return e
	}
	return s.KVDB.Open(o)
}

func (s *stopDB) Close() error {
	s.mu.Lock()
	s.closed++
	if s.closed == 1 {
		close(s.closing)
	}
	if s.bad == "" {
		switch {
		case s.in > 0:
			s.bad = "the database is closed during an operation"
		case s.txns > 0:
			s.bad = "the database is closed while a transaction is open"
		}
	}
	e := s.closeErr
	in := s.in
	s.mu.Unlock()
	if e != nil {
		return e
	}
	if in > 0 {
		return nil // reported; the store is left alone
	}
	return s.KVDB.Close()
}

func (s *stopDB) Set(k, v []byte, m *mondis.VMetaReq) (err error) {
	s.call("set", func() { err = s.KVDB.Set(k, v, m) })
	return
}
func (s *stopDB) Exists(k []byte) (e bool, err error) {
	s.call("exists", func() { e, err = s.KVDB.Exists(k) })
	return
}
func (s *stopDB) Get(k []byte) (v []byte, m mondis.VMetaResp, err error) {
	s.call("get", func() { v, m, err = s.KVDB.Get(k) })
	return
}
func (s *stopDB) Delete(k []byte) (err error) {
	s.call("delete", func() { err = s.KVDB.Delete(k) })
	return
}
func (s *stopDB) Scan(o mondis.ProviderScanOption, f func(k, v []byte, m mondis.VMetaResp) bool) (err error) {
	s.call("scan", func() { err = s.KVDB.Scan(o, f) })
	return
}
func (s *stopDB) NewTransaction(update bool) mondis.ProviderTxn {
	t := &stopTxn{s: s}
	s.call("begin", func() { t.ProviderTxn = s.KVDB.NewTransaction(update) })
	s.mu.Lock()
	s.txns++
	s.mu.Unlock()
	return t
}

type stopTxn struct {
	mondis.ProviderTxn
	s     *stopDB
	ended bool
}

func (t *stopTxn) end() {
	t.s.mu.Lock()
	if !t.ended {
		t.ended = true
		t.s.txns--
	}
	t.s.mu.Unlock()
}
func (t *stopTxn) Set(k, v []byte, m *mondis.VMetaReq) (err error) {
	t.s.call("set in a transaction", func() { err = t.ProviderTxn.Set(k, v, m) })
	return
}
func (t *stopTxn) Exists(k []byte) (e bool, err error) {
	t.s.call("exists in a transaction", func() { e, err = t.ProviderTxn.Exists(k) })
	return
}
func (t *stopTxn) Get(k []byte) (v []byte, m mondis.VMetaResp, err error) {
	t.s.call("get in a transaction", func() { v, m, err = t.ProviderTxn.Get(k) })
	return
}
func (t *stopTxn) Delete(k []byte) (err error) {
	t.s.call("delete in a transaction", func() { err = t.ProviderTxn.Delete(k) })
	return
}
func (t *stopTxn) Scan(o mondis.ProviderScanOption, f func(k, v []byte, m mondis.VMetaResp) bool) (err error) {
	t.s.call("scan in a transaction", func() { err = t.ProviderTxn.Scan(o, f) })
	return
}
func (t *stopTxn) Commit() (err error) {
	t.s.call("commit", func() { err = t.ProviderTxn.Commit() })
	t.end()
	return
}
func (t *stopTxn) Discard() {
	t.s.call("discard", func() { t.ProviderTxn.Discard() })
	t.end()
}

// refused tells whether nobody listens any more.
func refused(addr string) bool {
	n := atomic.AddInt64(&srcNext, 1)
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, byte(1+(n/250)%250), byte(1+n%250))}, Timeout: 10 * time.Second}
	c, err := d.Dial("tcp", addr)
	if err != nil {
		return true
	}
	_ = c.(*net.TCPConn).SetLinger(0)
	_ = c.Close()
	return false
}

// program of the client that is being served when the server stops.
type stopProg struct {
	name   string
	direct bool
	update bool
	ops    []rop
}

func runP32(r *hz.R) {
	r.Tolerate = qrpcCrash
	r.Workers *= 4 // a stop mostly waits
	fixedClock()
	defer func() { kvmem.Now = time.Now }()
	ops := []rop{gset("a", "x", nil), gget("a"), gexists("ab"), gdel("ab"), gscan(false, "", "", 10)}
	var progs []stopProg
	for _, o := range ops {
		progs = append(progs, stopProg{name: o.String(), direct: true, ops: []rop{o}})
	}
	for _, o := range ops {
		progs = append(progs, stopProg{name: "update: " + o.String(), update: true, ops: []rop{o}})
		if !o.isWrite() {
			progs = append(progs, stopProg{name: "view: " + o.String(), ops: []rop{o}})
		}
	}
	two := [][2]int{{0, 3}, {3, 0}, {0, 1}, {1, 0}}
	if !r.Quick {
		two = nil
		for i := range ops {
			for j := range ops {
				two = append(two, [2]int{i, j})
			}
		}
	}
	for _, p := range two {
		progs = append(progs, stopProg{name: "update: " + ops[p[0]].String() + "; " + ops[p[1]].String(), update: true, ops: []rop{ops[p[0]], ops[p[1]]}})
	}

	// open gives the database of an execution and how to look at it after the stop.
	stopping := func(c *ex.Ctx, open func() (mondis.KVDB, func() kvmem.Snap)) {
		p := progs[c.Choose(len(progs))]
		maxCalls := 1
		if !p.direct {
			maxCalls = len(p.ops) + 2 // begin, operations, commit or discard
		}
		at := c.Choose(maxCalls + 1) // 0: nothing is running
		post := at > 0 && c.Choose(2) == 1
		other := c.Choose(3)
		db, after := open()
		s := newStopDB(db)
		rem := startServer(s)
		stopped := make(chan error, 1)
		released := false
		release := func() {
			if !released {
				released = true
				close(s.release)
			}
		}
		stopping := false
		c.Cleanup(func() {
			release()
			if !stopping {
				_ = rem.srv.Stop()
			}
		})
		// the other client
		lb := &link{}
		b := rem.newClient(lb)
		c.Cleanup(lb.close)
		c.Assert(b.Set([]byte("s"), []byte("1"), nil) == nil, "a set fails")
		bin, bout := make(chan struct{}), make(chan error, 1)
		bready := make(chan struct{})
		if other > 0 {
			go func() {
				err, _ := runTxn(b, other == 1, func(t mondis.Txn) error {
					var e error
					if other == 1 {
						e = t.Set([]byte("i"), []byte("1"), nil)
					} else {
						_, e = t.Exists([]byte("i"))
					}
					if e != nil {
						return e
					}
					close(bready)
					<-bin
					if other == 1 {
						return nil // commit
					}
					_, e = t.Exists([]byte("s"))
					return e
				})
				bout <- err
			}()
			select {
			case <-bready:
			case e := <-bout:
				c.Fail("a transaction does not start: %v", e)
			}
			c.Cleanup(func() {
				select {
				case <-bin:
				default:
					close(bin)
				}
			})
		}
		// the client that is being served
		la := &link{}
		a := rem.newClient(la)
		c.Cleanup(la.close)
		s.mu.Lock()
		s.n, s.park, s.post = 0, at, post
		s.mu.Unlock()
		aerr := make(chan error, 1)
		go func() {
			if p.direct {
				_, e := p.ops[0].remote(a)
				aerr <- e
				return
			}
			e, _ := runTxn(a, p.update, func(t mondis.Txn) error {
				for _, o := range p.ops {
					if _, e := o.remote(t); e != nil {
						return e
					}
				}
				return nil
			})
			aerr <- e
		}()
		var ae error
		adone := false
		where := "nothing"
		select {
		case where = <-s.parked:
		case ae = <-aerr:
			adone = true
			c.Assert(ae == nil, "%s fails: %v", p.name, ae)
		case <-time.After(20 * time.Second):
			c.Fail("%s gets no answer", p.name)
		}
		c.Logf("%s is at its %s (done=%v)", p.name, where, post)
		stopping = true
		go func() { stopped <- rem.srv.Stop() }()
		// what does the stop do while the call is in progress?
		if !adone {
			c.Assert(await(func() bool { return refused(rem.addr) }), "the server still accepts connections")
			select {
			case <-s.closing:
			case e := <-stopped:
				c.Fail("the stop returns %v while a request (%s) is being executed", e, p.name)
			case <-time.After(25 * time.Millisecond):
			}
		}
		release()
		select {
		case e := <-stopped:
			c.Assert(e == nil, "the stop fails: %v", e)
		case <-time.After(60 * time.Second):
			c.Fail("the stop does not return")
		}
		s.mu.Lock()
		bad, closed, in, open1 := s.bad, s.closed, s.in, s.txns
		s.mu.Unlock()
		c.Assert(bad == "", "%s (%s, %s)", bad, p.name, where)
		c.Assert(closed == 1, "the database was closed %d times", closed)
		c.Assert(in == 0 && open1 == 0, "after the stop %d operations and %d transactions are still running", in, open1)
		c.Assert(refused(rem.addr), "the stopped server still accepts connections")
		if !adone {
			select {
			case ae = <-aerr:
			case <-time.After(20 * time.Second):
				c.Fail("%s gets neither an answer nor an error when the server is stopped", p.name)
			}
		}
		if other > 0 {
			close(bin)
			select {
			case e := <-bout:
				c.Assert(e != nil, "a transaction continues on a stopped server")
			case <-time.After(20 * time.Second):
				c.Fail("a transaction open during the stop gets no error")
			}
		}
		select {
		case <-rem.done:
		case <-time.After(20 * time.Second):
			c.Fail("the start does not return after the stop")
		}
		time.Sleep(time.Millisecond)
		s.mu.Lock()
		bad = s.bad
		s.mu.Unlock()
		c.Assert(bad == "", "after the stop: %s", bad)
		// the content: everything acknowledged, nothing else
		td := kvmem.FromSnap(p14Snap())
		_ = td.Set([]byte("s"), []byte("1"), nil)
		without := td.Snapshot().Key()
		tt := td.NewTransaction(true)
		for _, o := range p.ops {
			_, _ = o.local(tt)
		}
		_ = tt.Commit()
		with := td.Snapshot().Key()
		got := after().Key()
		if got != with && (ae == nil || got != without) {
			c.Fail("%s at its %s, answered with %v: after the stop the database has %q, expected %q or, without an acknowledgement, %q", p.name, where, ae, got, with, without)
		}
		c.Observe("%v %v", ae == nil, got)
	}
	r.ExploreProc("stopping", 0, func(c *ex.Ctx) {
		stopping(c, func() (mondis.KVDB, func() kvmem.Snap) {
			d := kvmem.FromSnap(p14Snap())
			return d, d.Snapshot
		})
	})
	r.ExploreProc("stopping on Badger", 0, func(c *ex.Ctx) {
		stopping(c, func() (mondis.KVDB, func() kvmem.Snap) {
			dir, err := os.MkdirTemp(r.Scratch, "p32")
			if err != nil {
				panic(err)
			}
			c.Cleanup(func() { _ = os.RemoveAll(dir) })
			return &dirDB{KVDB: provider.NewBadger(), dir: dir}, func() kvmem.Snap {
				b := provider.NewBadger()
				if err := b.Open(mondis.KVOption{Dir: dir}); err != nil {
					c.Fail("the database cannot be opened after the stop: %v", err)
				}
				defer b.Close()
				d := kvmem.New()
				_ = b.Scan(mondis.ProviderScanOption{}, func(k, v []byte, m mondis.VMetaResp) bool {
					var req *mondis.VMetaReq
					if m.Tag != 0 {
						req = &mondis.VMetaReq{Tag: m.Tag}
					}
					_ = d.Set(append([]byte{}, k...), append([]byte{}, v...), req)
					return true
				})
				return d.Snapshot()
			}
		})
	})

	// failures of the database while starting and stopping
	r.ExploreProc("start and stop", 0, func(c *ex.Ctx) {
		errDB := errors.New("the database does not want to")
		s := newStopDB(kvmem.New())
		switch c.Choose(4) {
		case 0: // cannot be opened
			s.openErr = errDB
			addr := nextAddr()
			srv := server.New(addr, s, server.Option{}, mondis.KVOption{})
			done := make(chan error, 1)
			go func() { done <- srv.Start() }()
			select {
			case e := <-done:
				c.Assert(e == errDB, "the start returns %v, not the error of the database", e)
			case <-time.After(20 * time.Second):
				c.Fail("a server whose database cannot be opened starts")
			}
			c.Assert(refused(addr), "a server whose database cannot be opened accepts connections")
		case 1: // cannot be closed
			s.closeErr = errDB
			rem := startServer(s)
			e := rem.srv.Stop()
			c.Assert(e == errDB, "the stop returns %v, not the error of the database", e)
			c.Assert(refused(rem.addr), "the stopped server accepts connections")
		case 2: // the address is taken
			other := startServer(kvmem.New())
			c.Cleanup(func() { _ = other.srv.Stop() })
			srv := server.New(other.addr, s, server.Option{}, mondis.KVOption{})
			done := make(chan error, 1)
			go func() { done <- srv.Start() }()
			select {
			case e := <-done:
				c.Assert(e != nil, "a server whose address is taken reports no error")
			case <-time.After(20 * time.Second):
				c.Fail("a server whose address is taken starts")
			}
			e := srv.Stop()
			c.Assert(e == nil && s.closed == 1, "stopping it afterwards returns %v, the database was closed %d times", e, s.closed)
			l := &link{}
			cl := other.newClient(l)
			c.Cleanup(l.close)
			c.Assert(cl.Set([]byte("k"), []byte("v"), nil) == nil, "the server that has the address no longer serves")
		case 3: // started and stopped without a client
			rem := startServer(s)
			e := rem.srv.Stop()
			c.Assert(e == nil && s.closed == 1 && s.opened == 1 && s.bad == "", "start and stop: %v, opened %d times, closed %d times %s", e, s.opened, s.closed, s.bad)
			select {
			case <-rem.done:
			case <-time.After(20 * time.Second):
				c.Fail("the start does not return after the stop")
			}
		}
	})
}

// dirDB is a database that is opened in a directory and filled.
type dirDB struct {
	mondis.KVDB
	dir string
}

func (d *dirDB) Open(mondis.KVOption) error {
	if err := d.KVDB.Open(mondis.KVOption{Dir: d.dir}); err != nil {
		return err
	}
	if err := d.KVDB.Set([]byte("a"), []byte("0"), &mondis.VMetaReq{Tag: 1}); err != nil {
		return err
	}
	return d.KVDB.Set([]byte("ab"), []byte("1"), nil)
}
