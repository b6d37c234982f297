package checks

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/qrpc"
	"go.uber.org/zap"

	"mc/kvmem"
)

// qrpcCrash is a race in qrpc: its server panics when one goroutine closes a
// connection while another one writes to it (closeUntracked closes the socket before it
// cancels the context).
const qrpcCrash = "bug in qrpc inflight"

func init() { qrpc.SetLogger(zap.NewNop()) }

// gate is the database a server serves; executions replace what is behind it.
type gate struct {
	v atomic.Value // gateDB
}

type gateDB struct{ mondis.KVDB }

func (g *gate) set(d mondis.KVDB)            { g.v.Store(gateDB{d}) }
func (g *gate) db() mondis.KVDB              { return g.v.Load().(gateDB).KVDB }
func (g *gate) Open(o mondis.KVOption) error { return g.db().Open(o) }
func (g *gate) Close() error                 { return g.db().Close() }
func (g *gate) Set(k, v []byte, m *mondis.VMetaReq) error {
	return g.db().Set(k, v, m)
}
func (g *gate) Exists(k []byte) (bool, error)                  { return g.db().Exists(k) }
func (g *gate) Get(k []byte) ([]byte, mondis.VMetaResp, error) { return g.db().Get(k) }
func (g *gate) Delete(k []byte) error                          { return g.db().Delete(k) }
func (g *gate) Scan(o mondis.ProviderScanOption, f func(k, v []byte, m mondis.VMetaResp) bool) error {
	return g.db().Scan(o, f)
}
func (g *gate) WriteBatch() mondis.ProviderWriteBatch         { return g.db().WriteBatch() }
func (g *gate) NewTransaction(update bool) mondis.ProviderTxn { return g.db().NewTransaction(update) }

// remote is a running server of one worker.
type remote struct {
	addr string
	g    *gate
	srv  server.KVServer
	done chan error
}

var (
	remotes  sync.Map // worker -> *remote
	portNext int64
	srcNext  int64
)

func nextAddr() string {
	n := atomic.AddInt64(&portNext, 1)
	return fmt.Sprintf("127.%d.%d.1:%d", 1+os.Getpid()%250, 1+(os.Getpid()/250)%250, 10000+n%20000)
}

// startServer on an address nobody else uses.
func startServer(d mondis.KVDB) *remote {
	for try := 0; ; try++ {
		addr := nextAddr()
		r := &remote{addr: addr, g: &gate{}, done: make(chan error, 1)}
		r.g.set(d)
		r.srv = server.New(addr, r.g, server.Option{}, mondis.KVOption{})
		go func() { r.done <- r.srv.Start() }()
		for i := 0; i < 2000; i++ {
			c, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				_ = c.Close()
				return r
			}
			select {
			case <-r.done:
				i = 1 << 30
			default:
				time.Sleep(200 * time.Microsecond)
			}
		}
		if try > 50 {
			panic("no server could be started")
		}
	}
}

// remoteFor the worker, serving d.
func remoteFor(worker int, d mondis.KVDB) *remote {
	if v, ok := remotes.Load(worker); ok {
		r := v.(*remote)
		r.g.set(d)
		return r
	}
	r := startServer(d)
	remotes.Store(worker, r)
	return r
}

// where a connection is lost
const (
	cutNone     = iota
	cutBefore   // the k-th frame is not sent
	cutTorn     // only the first bytes of the k-th frame are sent
	cutExecuted // the k-th frame was executed, its answer is not received
)

// link is the connection of a client; it can be cut and hands out no second one
// unless told to.
type link struct {
	r       *remote
	mu      sync.Mutex
	writes  int
	cutAt   int // frame number, from 1
	mode    int
	torn    int // how many bytes of the frame are sent
	cut     bool
	again   bool // dial again after the cut
	dials   int
	conns   []*linkConn
	waitFor func() // called after the frame to be cut was sent: returns once it was executed
	sizes   []int
}

type linkConn struct {
	net.Conn
	l       *link
	reading int32
}

// started waits until the client reads from the connection: qrpc crashes when a
// connection is lost before that.
func (c *linkConn) started() {
	await(func() bool { return atomic.LoadInt32(&c.reading) == 1 })
}

var errCut = errors.New("the connection is cut")

func (l *link) dial(string, qrpc.DialConfig) (net.Conn, error) {
	l.mu.Lock()
	l.dials++
	if l.dials > 1 && !l.again {
		l.mu.Unlock()
		runtime.Goexit() // the loop that keeps reconnecting ends
	}
	l.mu.Unlock()
	n := atomic.AddInt64(&srcNext, 1)
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, byte(1+(n/250)%250), byte(1+n%250))}, Timeout: 10 * time.Second}
	c, err := d.Dial("tcp", l.r.addr)
	if err != nil {
		return nil, err
	}
	_ = c.(*net.TCPConn).SetLinger(0)
	lc := &linkConn{Conn: c, l: l}
	l.mu.Lock()
	l.conns = append(l.conns, lc)
	l.mu.Unlock()
	return lc, nil
}

// Write is called once per frame.
func (c *linkConn) Write(b []byte) (int, error) {
	l := c.l
	l.mu.Lock()
	if !l.cut || l.again {
		l.writes++
		l.sizes = append(l.sizes, len(b))
	}
	hit := !l.cut && l.writes == l.cutAt
	if hit {
		l.cut = true
	}
	l.mu.Unlock()
	if !hit {
		return c.Conn.Write(b)
	}
	c.started()
	switch l.mode {
	case cutBefore:
		_ = c.Conn.Close()
		return 0, errCut
	case cutTorn:
		n := l.torn
		if n >= len(b) {
			n = len(b) - 1
		}
		_ = c.Conn.(*net.TCPConn).SetLinger(-1)
		_, _ = c.Conn.Write(b[:n])
		_ = c.Conn.Close()
		return 0, errCut
	default:
		n, err := c.Conn.Write(b)
		l.waitFor()
		_ = c.Conn.Close()
		return n, err
	}
}

// Read returns nothing that arrived after the cut frame.
func (c *linkConn) Read(b []byte) (int, error) {
	atomic.StoreInt32(&c.reading, 1)
	n, err := c.Conn.Read(b)
	l := c.l
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.cut && len(l.conns) > 0 && l.conns[0] == c {
		return 0, errCut
	}
	return n, err
}

// newClient connected to the server.
func (r *remote) newClient(l *link) mondis.Client {
	l.r = r
	return client.New(r.addr, client.Option{QrpcConfig: qrpc.ConnectionConfig{OverlayNetwork: l.dial}})
}

func (l *link) close() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.again = false
	if l.dials == 0 {
		l.dials = 1
	}
	for _, c := range l.conns {
		c.started()
		_ = c.Conn.Close()
	}
}

// await polls until the condition holds.
func await(f func() bool) bool {
	for i := 0; i < 200; i++ {
		if f() {
			return true
		}
		runtime.Gosched()
	}
	end := time.Now().Add(20 * time.Second)
	for d := 20 * time.Microsecond; time.Now().Before(end); {
		if f() {
			return true
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d *= 2
		}
	}
	return f()
}

// sameErr: does the remote error say what the local one does?
func sameErr(rem, loc error) bool {
	switch {
	case loc == nil:
		return rem == nil
	case loc == kv.ErrKeyNotFound, loc == kv.ErrTxnTooBig:
		return rem == loc
	}
	return rem != nil && rem != kv.ErrKeyNotFound && rem != kv.ErrTxnTooBig && strings.Contains(rem.Error(), loc.Error())
}

// rop is one operation, remote and local.
type rop struct {
	kind int
	k, v []byte
	meta *mondis.VMetaReq
	scan mondis.ScanOption
}

const (
	rSet = iota
	rGet
	rExists
	rDelete
	rScan
)

func (o rop) String() string {
	switch o.kind {
	case rSet:
		return fmt.Sprintf("set %s to %s %v", shortB(o.k), shortB(o.v), o.meta)
	case rGet:
		return "get " + shortB(o.k)
	case rExists:
		return "exists " + shortB(o.k)
	case rDelete:
		return "delete " + shortB(o.k)
	}
	return fmt.Sprintf("scan reverse=%v prefix=%q offset=%q limit=%d", o.scan.Reverse, o.scan.Prefix, o.scan.Offset, o.scan.Limit)
}

// remote answer, described.
func (o rop) remote(t mondis.KVOP) (string, error) {
	switch o.kind {
	case rSet:
		return "", t.Set(o.k, o.v, o.meta)
	case rDelete:
		return "", t.Delete(o.k)
	case rExists:
		e, err := t.Exists(o.k)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(e), nil
	case rGet:
		v, m, err := t.Get(o.k)
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%x %d %d", v, m.ExpiresAt, m.Tag), nil
	}
	l, err := t.Scan(o.scan)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	for _, e := range l {
		fmt.Fprintf(&b, "%x=%x %d %d;", e.Key, e.Value, e.Meta.ExpiresAt, e.Meta.Tag)
	}
	return b.String(), nil
}

// local answer: what the served database says.
func (o rop) local(t mondis.ProviderKVOP) (string, error) {
	switch o.kind {
	case rSet:
		return "", t.Set(o.k, o.v, o.meta)
	case rDelete:
		return "", t.Delete(o.k)
	case rExists:
		e, err := t.Exists(o.k)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(e), nil
	case rGet:
		v, m, err := t.Get(o.k)
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%x %d %d", v, m.ExpiresAt, m.Tag), nil
	}
	lim := o.scan.Limit
	if lim <= 0 {
		return "", nil
	}
	if lim > mondis.MaxEntry {
		lim = mondis.MaxEntry
	}
	var b bytes.Buffer
	err := t.Scan(o.scan.ProviderScanOption, func(k, v []byte, m mondis.VMetaResp) bool {
		fmt.Fprintf(&b, "%x=%x %d %d;", k, v, m.ExpiresAt, m.Tag)
		lim--
		return lim > 0
	})
	if err != nil {
		return "", err
	}
	return b.String(), nil
}

func (o rop) isWrite() bool { return o.kind == rSet || o.kind == rDelete }

func gset(k, v string, m *mondis.VMetaReq) rop {
	return rop{kind: rSet, k: []byte(k), v: []byte(v), meta: m}
}
func gget(k string) rop    { return rop{kind: rGet, k: []byte(k)} }
func gexists(k string) rop { return rop{kind: rExists, k: []byte(k)} }
func gdel(k string) rop    { return rop{kind: rDelete, k: []byte(k)} }
func gscan(rev bool, prefix, offset string, limit int) rop {
	o := mondis.ScanOption{Limit: limit}
	o.Reverse, o.Prefix, o.Offset = rev, []byte(prefix), []byte(offset)
	return rop{kind: rScan, scan: o}
}

// failing database operations.
func failing(d *kvmem.DB, k kvmem.Kind, err error) {
	d.Hook = func(op *kvmem.Op) error {
		if op.Kind == k {
			return err
		}
		return nil
	}
}

var errOther = errors.New("something else went wrong")

func shortB(b []byte) string {
	if len(b) > 20 {
		return fmt.Sprintf("%q... (%d bytes)", b[:20], len(b))
	}
	return fmt.Sprintf("%q", b)
}
