package checks

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/pb"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/qrpc"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P15", &hz.Check{Level: "model_checking",
		Rule:   "every payload of the stated grammar of missing, truncated, mistyped and extreme messages for every command, alone and at every position of a transaction stream with a commit sent behind it, every scan limit of the stated set, and every malformed frame header, while another connection has a transaction open; distinct = distinct answers",
		Assume: []string{"a crash whose stack lies in the qrpc dependency alone is not charged to mondis, except where it is the listed finding", "the database behind the server is the in-memory provider bound to Badger by P01-P04"},
		Run:    runP15})
}

// raw is a connection without a client behind it.
type raw struct {
	c  net.Conn
	id uint64
}

type rawFrame struct {
	id      uint64
	cmd     qrpc.Cmd
	flags   qrpc.FrameFlag
	payload []byte
}

func (r *remote) raw() *raw {
	n := atomic.AddInt64(&srcNext, 1)
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, byte(1+(n/250)%250), byte(1+n%250))}, Timeout: 10 * time.Second}
	c, err := d.Dial("tcp", r.addr)
	if err != nil {
		panic(err)
	}
	_ = c.(*net.TCPConn).SetLinger(0)
	return &raw{c: c, id: 1}
}

func frameBytes(id uint64, cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) []byte {
	b := make([]byte, 16, 16+len(payload))
	binary.BigEndian.PutUint32(b, uint32(12+len(payload)))
	binary.BigEndian.PutUint64(b[4:], id)
	binary.BigEndian.PutUint32(b[12:], uint32(cmd)&0xffffff|uint32(flags)<<24)
	return append(b, payload...)
}

func (r *raw) send(b []byte) { _, _ = r.c.Write(b) }

// read one frame; false when the connection is closed, and hung if nothing comes.
func (r *raw) read(patience time.Duration) (f rawFrame, ok, hung bool) {
	_ = r.c.SetReadDeadline(time.Now().Add(patience))
	h := make([]byte, 16)
	if _, err := io.ReadFull(r.c, h); err != nil {
		ne, is := err.(net.Error)
		return f, false, is && ne.Timeout()
	}
	f.id = binary.BigEndian.Uint64(h[4:])
	w := binary.BigEndian.Uint32(h[12:])
	f.cmd, f.flags = qrpc.Cmd(w&0xffffff), qrpc.FrameFlag(w>>24)
	f.payload = make([]byte, binary.BigEndian.Uint32(h)-12)
	if _, err := io.ReadFull(r.c, f.payload); err != nil {
		return f, false, false
	}
	return f, true, false
}

// building payloads
func varint(x uint64) []byte {
	var b []byte
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func tag(field, wt int) []byte { return varint(uint64(field)<<3 | uint64(wt)) }

func fbytes(field int, v string) []byte {
	return append(append(tag(field, 2), varint(uint64(len(v)))...), v...)
}

func fvar(field int, v uint64) []byte { return append(tag(field, 0), varint(v)...) }

func cat(l ...[]byte) (out []byte) {
	for _, b := range l {
		out = append(out, b...)
	}
	return
}

type payload struct {
	name string
	b    []byte
	op   *rop // what it asks for; nil: malformed
}

var respOf = map[qrpc.Cmd]qrpc.Cmd{server.SetCmd: server.SetRespCmd, server.GetCmd: server.GetRespCmd, server.ExistsCmd: server.ExistsRespCmd, server.DeleteCmd: server.DeleteRespCmd, server.ScanCmd: server.ScanRespCmd}

var rawCmds = []qrpc.Cmd{server.SetCmd, server.GetCmd, server.ExistsCmd, server.DeleteCmd, server.ScanCmd}

// broken payloads every decoder has to refuse.
func broken(good []byte) []payload {
	out := []payload{
		{name: "an unfinished tag", b: []byte{0x80}},
		{name: "an endless tag", b: []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}},
		{name: "a first field without value", b: tag(1, 2)},
		{name: "a first field of the wrong type", b: fvar(1, 5)},
		{name: "a first field longer than the message", b: cat(tag(1, 2), varint(100), []byte("x"))},
		{name: "a first field of huge length", b: cat(tag(1, 2), varint(1<<62))},
		{name: "a first field of negative length", b: cat(tag(1, 2), varint(math.MaxUint64))},
		{name: "a first field of overflowing length", b: cat(tag(1, 2), varint(math.MaxInt64))},
		{name: "field zero", b: cat(tag(0, 2), varint(1), []byte("x"))},
		{name: "the end of a group", b: tag(1, 4)},
		{name: "an illegal type", b: cat(tag(9, 7), []byte{0})},
		{name: "another illegal type", b: cat(tag(9, 6), []byte{0})},
		{name: "an unknown field longer than the message", b: cat(tag(15, 2), varint(9), []byte("abc"))},
		{name: "an unknown field of negative length", b: cat(tag(15, 2), varint(math.MaxUint64))},
		{name: "an unknown fixed64 cut short", b: cat(tag(15, 1), []byte{1, 2, 3})},
		{name: "noise", b: []byte("\x93\x18\x07noise\xff\xfe")},
	}
	for i := 1; i < len(good); i++ {
		out = append(out, payload{name: fmt.Sprintf("a good message cut after %d bytes", i), b: good[:i]})
	}
	return out
}

func opset(k, v string, m *mondis.VMetaReq) *rop { o := gset(k, v, m); return &o }

// payloads of a command
func payloads(cmd qrpc.Cmd) []payload {
	key := fbytes(1, "a")
	unknown := cat(fvar(20, 7), fbytes(21, "zz"), cat(tag(22, 5), []byte{1, 2, 3, 4}), cat(tag(23, 1), []byte{1, 2, 3, 4, 5, 6, 7, 8}))
	ask := func(k string) *rop {
		var o rop
		switch cmd {
		case server.GetCmd:
			o = gget(k)
		case server.ExistsCmd:
			o = gexists(k)
		case server.DeleteCmd:
			o = gdel(k)
		}
		return &o
	}
	switch cmd {
	case server.SetCmd:
		meta := func(b []byte) []byte { return fbytes(3, string(b)) }
		val := fbytes(2, "x")
		out := []payload{
			{"nothing", nil, opset("", "", nil)},
			{"a key", key, opset("a", "", nil)},
			{"key and value", cat(key, val), opset("a", "x", nil)},
			{"value before key", cat(val, key), opset("a", "x", nil)},
			{"only a value", val, opset("", "x", nil)},
			{"two keys", cat(fbytes(1, "q"), val, key), opset("a", "x", nil)},
			{"unknown fields", cat(unknown, key, val), opset("a", "x", nil)},
			{"an empty meta", cat(key, val, meta(nil)), opset("a", "x", &mondis.VMetaReq{})},
			{"a tag", cat(key, val, meta(fvar(2, 200))), opset("a", "x", &mondis.VMetaReq{Tag: 200})},
			{"a time to live", cat(key, val, meta(fvar(1, uint64(time.Hour)))), opset("a", "x", &mondis.VMetaReq{TTL: time.Hour})},
			{"a negative time to live", cat(key, val, meta(fvar(1, math.MaxUint64))), opset("a", "x", &mondis.VMetaReq{TTL: -1})},
			{"the longest time to live", cat(key, val, meta(fvar(1, math.MaxInt64))), opset("a", "x", &mondis.VMetaReq{TTL: math.MaxInt64})},
			{"the most negative time to live", cat(key, val, meta(fvar(1, 1<<63))), opset("a", "x", &mondis.VMetaReq{TTL: math.MinInt64})},
		}
		for _, p := range []payload{
			{"a meta of the wrong type", cat(key, val, fvar(3, 1)), nil},
			{"a time to live of the wrong type", cat(key, val, meta(fbytes(1, "t"))), nil},
			{"a tag of the wrong type", cat(key, val, meta(fbytes(2, "t"))), nil},
			{"an unfinished meta", cat(key, val, meta([]byte{0x08})), nil},
			{"a meta longer than the message", cat(key, val, tag(3, 2), varint(50), fvar(2, 1)), nil},
			{"an endless time to live", cat(key, val, meta(cat(tag(1, 0), []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}))), nil},
			{"a value of the wrong type", cat(key, fvar(2, 1)), nil},
		} {
			out = append(out, p)
		}
		// cutting between fields leaves a good message, so only cut inside them
		good := cat(fbytes(1, "abcdef"))
		return append(out, broken(good)...)
	case server.ScanCmd:
		pso := func(b []byte) []byte { return fbytes(1, string(b)) }
		sc := func(rev bool, p, o string, lim int) *rop { s := gscan(rev, p, o, lim); return &s }
		out := []payload{
			{"nothing", nil, sc(false, "", "", 0)},
			{"only a limit", fvar(2, 10), sc(false, "", "", 10)},
			{"only options", pso(fbytes(2, "a")), sc(false, "a", "", 0)},
			{"empty options", cat(pso(nil), fvar(2, 10)), sc(false, "", "", 10)},
			{"limit first", cat(fvar(2, 1), pso(fbytes(2, "a"))), sc(false, "a", "", 1)},
			{"reverse", cat(pso(fvar(1, 1)), fvar(2, 10)), sc(true, "", "", 10)},
			{"reverse from an offset", cat(pso(cat(fvar(1, 1), fbytes(2, "a"), fbytes(3, "ab"))), fvar(2, 10)), sc(true, "a", "ab", 10)},
			{"unknown fields", cat(unknown, pso(unknown), fvar(2, 10)), sc(false, "", "", 10)},
			{"a long prefix", cat(pso(fbytes(2, string(make([]byte, 70000)))), fvar(2, 10)), sc(false, string(make([]byte, 70000)), "", 10)},
			{"an offset outside of the prefix", cat(pso(cat(fbytes(2, "b"), fbytes(3, "a"))), fvar(2, 10)), sc(false, "b", "a", 10)},
			{"options of the wrong type", fvar(1, 1), nil},
			{"a limit of the wrong type", cat(pso(nil), fbytes(2, "x")), nil},
			{"a reverse of the wrong type", cat(pso(fbytes(1, "x")), fvar(2, 10)), nil},
			{"a prefix of the wrong type", cat(pso(fvar(2, 1)), fvar(2, 10)), nil},
			{"unfinished options", cat(pso([]byte{0x12}), fvar(2, 10)), nil},
			{"options longer than the message", cat(fvar(2, 10), tag(1, 2), varint(50), fvar(1, 1)), nil},
		}
		return append(out, broken(pso(fbytes(2, "abc")))...)
	}
	out := []payload{
		{"nothing", nil, ask("")},
		{"a key", key, ask("a")},
		{"two keys", cat(fbytes(1, "q"), key), ask("a")},
		{"unknown fields", cat(unknown, key, unknown), ask("a")},
		{"a long key", fbytes(1, string(make([]byte, 60000))), ask(string(make([]byte, 60000)))},
	}
	return append(out, broken(fbytes(1, "abcdef"))...)
}

// decode an answer the way rop.remote prints it.
func decodeAnswer(cmd qrpc.Cmd, p []byte) (a string, code int32, msg string, err error) {
	switch cmd {
	case server.SetRespCmd:
		var r pb.SetResponse
		err = r.Unmarshal(p)
		return "", r.Code, r.Msg, err
	case server.DeleteRespCmd:
		var r pb.DeleteResponse
		err = r.Unmarshal(p)
		return "", r.Code, r.Msg, err
	case server.ExistsRespCmd:
		var r pb.ExistsResponse
		err = r.Unmarshal(p)
		return fmt.Sprint(r.Exists), r.Code, r.Msg, err
	case server.GetRespCmd:
		var r pb.GetResponse
		err = r.Unmarshal(p)
		return fmt.Sprintf("%x %d %d", r.Value, r.Meta.GetExpiresAt(), r.Meta.GetTag()), r.Code, r.Msg, err
	case server.ScanRespCmd:
		var r pb.ScanResponse
		err = r.Unmarshal(p)
		for _, e := range r.Entries {
			a += fmt.Sprintf("%x=%x %d %d;", e.Key, e.Value, e.Meta.GetExpiresAt(), e.Meta.GetTag())
		}
		return a, r.Code, r.Msg, err
	case server.CommitRespCmd:
		var r pb.CommitResponse
		err = r.Unmarshal(p)
		return "", r.Code, r.Msg, err
	}
	return "", 0, "", fmt.Errorf("unexpected command %d", cmd)
}

const rstFlag = qrpc.StreamRstFlag

// neighbour is another connection with an open transaction.
type neighbour struct {
	c    *ex.Ctx
	cl   mondis.Client
	step chan rop
	ans  chan error
	fin  chan error
	over bool
}

func newNeighbour(c *ex.Ctx, rem *remote) *neighbour {
	l := &link{}
	n := &neighbour{c: c, cl: rem.newClient(l), step: make(chan rop, 1), ans: make(chan error, 1), fin: make(chan error, 1)}
	go func() {
		n.fin <- n.cl.Update(func(t mondis.Txn) error {
			for o := range n.step {
				_, e := o.remote(t)
				n.ans <- e
			}
			return nil
		})
	}()
	c.Cleanup(func() {
		if !n.over {
			close(n.step)
		}
		l.close()
	})
	return n
}

func (n *neighbour) do(o rop) {
	n.step <- o
	select {
	case e := <-n.ans:
		n.c.Assert(e == nil, "the other connection: %v: %v", o, e)
	case <-time.After(20 * time.Second):
		n.c.Fail("the other connection: %v gets no answer", o)
	}
}

func (n *neighbour) end() {
	n.over = true
	close(n.step)
	select {
	case e := <-n.fin:
		n.c.Assert(e == nil, "the transaction of the other connection: %v", e)
	case <-time.After(20 * time.Second):
		n.c.Fail("the transaction of the other connection does not end")
	}
}

// others still work: the transaction of the neighbour, its direct requests, new connections.
func (n *neighbour) check(rem *remote, d, td *kvmem.DB) {
	n.do(gset("nb2", "2", nil))
	n.end()
	_ = td.Set([]byte("nb"), []byte("1"), nil)
	_ = td.Set([]byte("nb2"), []byte("2"), nil)
	l := &link{}
	cl := rem.newClient(l)
	n.c.Cleanup(l.close)
	for _, x := range []mondis.Client{n.cl, cl} {
		for _, o := range []rop{gget("a"), gscan(false, "nb", "", 10)} {
			type ans struct {
				a string
				e error
			}
			ch := make(chan ans, 1)
			x := x
			go func() { a, e := o.remote(x); ch <- ans{a, e} }()
			var r ans
			select {
			case r = <-ch:
			case <-time.After(20 * time.Second):
				n.c.Fail("%v of another connection gets no answer", o)
			}
			la, le := o.local(td)
			if !sameErr(r.e, le) || r.a != la {
				n.c.Fail("%v of another connection: %.200q %v, expected %.200q %v", o, r.a, r.e, la, le)
			}
		}
	}
	n.c.Assert(await(d.Idle), "a transaction stays open")
	n.c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "the database has %v, expected %v", d.Snapshot(), td.Snapshot())
}

func runP15(r *hz.R) {
	r.Tolerate = qrpcCrash
	fixedClock()
	defer func() { kvmem.Now = time.Now }()
	snap := p14Snap()
	byCmd := map[qrpc.Cmd][]payload{}
	for _, c := range rawCmds {
		byCmd[c] = payloads(c)
	}
	// the beginning of an ordinary transaction
	open := frameBytes(1, qrpc.CmdWithOpaque(server.SetCmd, 1), qrpc.StreamFlag, cat(fbytes(1, "a"), fbytes(2, "evil")))
	// judge the answer to a payload
	judge := func(c *ex.Ctx, cmd qrpc.Cmd, id uint64, p payload, f rawFrame, ok, hung bool, twin mondis.ProviderKVOP) (alive bool) {
		if hung {
			c.Fail("no answer and no closed connection")
		}
		if p.op == nil {
			if !ok {
				c.Observe("closed")
				return false
			}
			c.Assert(f.id == id, "the answer is for request %d instead of %d", f.id, id)
			if f.flags&rstFlag != 0 {
				c.Observe("reset")
				return false
			}
			_, code, _, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(f.cmd == respOf[cmd] && err == nil && code != server.CodeOK, "the answer is no error: command %d, %q", f.cmd, f.payload)
			c.Observe("code %d", code)
			return false
		}
		c.Assert(ok && f.flags&rstFlag == 0 && f.id == id, "a well-formed request is not answered (open: %v, frame %+v)", ok, f)
		a, code, msg, err := decodeAnswer(f.cmd, f.payload)
		c.Assert(f.cmd == respOf[cmd] && err == nil, "the answer is no answer: command %d, %.200q: %v", f.cmd, f.payload, err)
		la, le := p.op.local(twin)
		if (code == server.CodeOK) != (le == nil) || le == nil && !p.op.isWrite() && la != a {
			c.Fail("%v answers %.200q, code %d %s; the database %.200q, %v", p.op, a, code, msg, la, le)
		}
		c.Observe("%s %d", la, code)
		return true
	}

	// alone
	r.ExploreProc("alone", 0, func(c *ex.Ctx) {
		cmd := rawCmds[c.Choose(len(rawCmds))]
		ps := byCmd[cmd]
		p := ps[c.Choose(len(ps))]
		flags := []qrpc.FrameFlag{qrpc.NBFlag, 0}[c.Choose(2)]
		twice := c.Choose(2) == 1 // the request is repeated on the connection
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		n := newNeighbour(c, rem)
		n.do(gset("nb", "1", nil))
		a := rem.raw()
		c.Cleanup(func() { _ = a.c.Close() })
		c.Logf("command %d with %s: %.40x, flags %d", cmd, p.name, p.b, flags)
		a.send(frameBytes(1, cmd, flags, p.b))
		f, ok, hung := a.read(20 * time.Second)
		alive := judge(c, cmd, 1, p, f, ok, hung, td)
		if twice && alive {
			a.send(frameBytes(3, cmd, flags, p.b))
			f, ok, hung = a.read(20 * time.Second)
			judge(c, cmd, 3, p, f, ok, hung, td)
		}
		c.Assert(d.Snapshot().Key() == td.Snapshot().Key(), "the database has %v, expected %v", d.Snapshot(), td.Snapshot())
		n.check(rem, d, td)
	})

	// inside a transaction
	type sent struct {
		cmd qrpc.Cmd
		b   []byte
	}
	goods := []sent{{server.SetCmd, cat(fbytes(1, "a"), fbytes(2, "evil"))}, {server.DeleteCmd, fbytes(1, "ab")}, {server.ScanCmd, fvar(2, 5)}}
	maxBefore := 1
	if !r.Quick {
		maxBefore = 2
	}
	r.ExploreProc("in a transaction", 0, func(c *ex.Ctx) {
		nb := c.Choose(maxBefore + 1)
		before := make([]sent, nb)
		for i := range before {
			before[i] = goods[c.Choose(len(goods))]
		}
		cmd := rawCmds[c.Choose(len(rawCmds))]
		ps := byCmd[cmd]
		p := ps[c.Choose(len(ps))]
		// what is sent behind it without waiting: nothing, a commit, a write and a commit
		behind := c.Choose(3)
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		n := newNeighbour(c, rem)
		n.do(gset("nb", "1", nil))
		twin := td.NewTransaction(true)
		a := rem.raw()
		c.Cleanup(func() { _ = a.c.Close() })
		for i, s := range before {
			cm := s.cmd
			if i == 0 {
				cm = qrpc.CmdWithOpaque(cm, 1)
			}
			c.Logf("command %d: %x", s.cmd, s.b)
			a.send(frameBytes(1, cm, qrpc.StreamFlag, s.b))
			f, ok, hung := a.read(20 * time.Second)
			c.Assert(!hung && ok && f.id == 1 && f.flags&rstFlag == 0, "a well-formed request of a transaction is not answered (open: %v, frame %+v)", ok, f)
			_, code, msg, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(err == nil && code == server.CodeOK, "a well-formed request of a transaction is answered with %d %s %v", code, msg, err)
			switch s.cmd {
			case server.SetCmd:
				_ = twin.Set([]byte("a"), []byte("evil"), nil)
			case server.DeleteCmd:
				_ = twin.Delete([]byte("ab"))
			}
		}
		c.Logf("command %d with %s: %.40x, behind it %d", cmd, p.name, p.b, behind)
		cm := cmd
		if nb == 0 {
			cm = qrpc.CmdWithOpaque(cm, 1)
		}
		out := frameBytes(1, cm, qrpc.StreamFlag, p.b)
		if behind == 2 {
			out = append(out, frameBytes(1, server.SetCmd, qrpc.StreamFlag, cat(fbytes(1, "b"), fbytes(2, "evil")))...)
		}
		if behind > 0 {
			out = append(out, frameBytes(1, server.CommitCmd, qrpc.StreamFlag|qrpc.StreamEndFlag, nil)...)
		}
		a.send(out)
		f, ok, hung := a.read(20 * time.Second)
		alive := judge(c, cmd, 1, p, f, ok, hung, twin)
		commits := false
		if alive && behind > 0 {
			if behind == 2 {
				f, ok, hung = a.read(20 * time.Second)
				_, code, _, err := decodeAnswer(f.cmd, f.payload)
				c.Assert(!hung && ok && err == nil && code == server.CodeOK, "the set behind it is not answered")
				_ = twin.Set([]byte("b"), []byte("evil"), nil)
			}
			f, ok, hung = a.read(20 * time.Second)
			_, code, _, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(!hung && ok && err == nil && code == server.CodeOK && f.cmd == server.CommitRespCmd, "the commit behind it is not answered")
			commits = true
		}
		if commits {
			c.Assert(twin.Commit() == nil, "twin")
		} else {
			twin.Discard()
			if alive {
				_ = a.c.Close()
			}
		}
		n.check(rem, d, td)
	})

	// as deep as a frame allows
	r.ExploreProc("nesting", 0, func(c *ex.Ctx) {
		cmd := rawCmds[c.Choose(len(rawCmds))]
		inner := c.Choose(2) == 1
		stream := c.Choose(2) == 1
		depth := []int{100, 100000, qrpc.DefaultMaxFrameSize - 40}[c.Choose(3)]
		closed := c.Choose(2) == 1 // with the ends of the groups
		if inner && cmd != server.SetCmd && cmd != server.ScanCmd {
			return
		}
		if closed {
			depth /= 2
		}
		g := make([]byte, depth, 2*depth)
		for i := range g {
			g[i] = 15<<3 | 3
		}
		if closed {
			for i := 0; i < depth; i++ {
				g = append(g, 15<<3|4)
			}
		}
		f := 3
		if cmd == server.ScanCmd {
			f = 1
		}
		b := g
		if inner {
			b = fbytes(f, string(g))
		}
		p := payload{name: "deep", b: b}
		if closed {
			switch cmd {
			case server.SetCmd:
				o := gset("", "", nil)
				if inner {
					o.meta = &mondis.VMetaReq{}
				}
				p.op = &o
			case server.GetCmd:
				o := gget("")
				p.op = &o
			case server.ExistsCmd:
				o := gexists("")
				p.op = &o
			case server.DeleteCmd:
				o := gdel("")
				p.op = &o
			case server.ScanCmd:
				o := gscan(false, "", "", 0)
				p.op = &o
			}
		}
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		n := newNeighbour(c, rem)
		n.do(gset("nb", "1", nil))
		a := rem.raw()
		c.Cleanup(func() { _ = a.c.Close() })
		c.Logf("command %d with %d nested groups, closed: %v, inside a field: %v, in a transaction: %v", cmd, depth, closed, inner, stream)
		flags := qrpc.NBFlag
		if stream {
			a.send(open)
			_, ok, _ := a.read(20 * time.Second)
			c.Assert(ok, "the transaction does not begin")
			flags = qrpc.StreamFlag
		}
		a.send(frameBytes(1, cmd, flags, p.b))
		fr, ok, hung := a.read(60 * time.Second)
		if p.op == nil {
			judge(c, cmd, 1, p, fr, ok, hung, td)
		} else {
			// refusing what is nested this deep is as good as ignoring it
			c.Assert(!hung, "no answer and no closed connection")
		}
		_ = a.c.Close()
		n.check(rem, d, td)
	})

	// limits
	big := kvmem.New()
	tb := big.NewTransaction(true)
	for i := 0; i < mondis.MaxEntry+5; i++ {
		_ = tb.Set([]byte(fmt.Sprintf("k%05d", i)), []byte{byte(i)}, nil)
	}
	_ = tb.Commit()
	bigSnap := big.Snapshot()
	limits := []int64{math.MinInt64, math.MinInt32, -1000, -2, -1, 0, 1, mondis.MaxEntry - 1, mondis.MaxEntry, mondis.MaxEntry + 1, mondis.MaxEntry + 5, 1 << 20, math.MaxInt32, math.MaxInt32 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 3, math.MaxInt64}
	r.ExploreProc("limits", 0, func(c *ex.Ctx) {
		lim := limits[c.Choose(len(limits))]
		pos := c.Choose(3) // alone, first in a transaction, later in it
		rev := c.Choose(2)
		d := kvmem.FromSnap(bigSnap)
		rem := remoteFor(c.Worker, d)
		a := rem.raw()
		c.Cleanup(func() { _ = a.c.Close() })
		b := cat(fbytes(1, string(fvar(1, uint64(rev)))), fvar(2, uint64(lim)))
		c.Logf("limit %d, position %d, reverse %d", lim, pos, rev)
		flags := qrpc.StreamFlag
		if pos == 0 {
			flags = 0
		}
		var visited int64
		d.Hook = func(op *kvmem.Op) error { return nil }
		if pos == 2 {
			a.send(frameBytes(1, server.ScanCmd, flags, cat(fvar(2, 2))))
			f, ok, _ := a.read(20 * time.Second)
			_, code, _, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(ok && err == nil && code == server.CodeOK, "the first scan fails")
		}
		a.send(frameBytes(1, server.ScanCmd, flags, b))
		f, ok, hung := a.read(20 * time.Second)
		c.Assert(ok && !hung && f.cmd == server.ScanRespCmd, "no answer")
		var resp pb.ScanResponse
		c.Assert(resp.Unmarshal(f.payload) == nil, "an undecodable answer")
		want := 0
		if l32 := int32(lim); l32 > 0 {
			want = int(l32)
			if want > mondis.MaxEntry {
				want = mondis.MaxEntry
			}
		}
		c.Assert(resp.Code == server.CodeOK && len(resp.Entries) == want || resp.Code != server.CodeOK && want == 0 && len(resp.Entries) == 0, "limit %d returns %d entries, code %d", lim, len(resp.Entries), resp.Code)
		_ = a.c.Close()
		c.Assert(await(d.Idle), "a transaction stays open")
		c.Observe("%d %d", want, visited)
	})

	// headers
	headers := []payload{
		{name: "size 0", b: cat([]byte{0, 0, 0, 0}, make([]byte, 12))},
		{name: "size 11", b: cat([]byte{0, 0, 0, 11}, make([]byte, 12))},
		{name: "the largest size", b: cat([]byte{255, 255, 255, 255}, make([]byte, 12))},
		{name: "one above the maximum", b: cat([]byte{0, 0xa0, 0, 1}, []byte{0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0})},
		{name: "half a header", b: []byte{0, 0, 0, 12, 0, 0, 0}},
		{name: "half a payload", b: frameBytes(1, server.SetCmd, 0, cat(fbytes(1, "a"), fbytes(2, "evil")))[:20]},
		{name: "noise", b: []byte("GET / HTTP/1.1\r\nHost: localhost\r\n\r\n")},
		{name: "a compressed payload", b: frameBytes(1, server.SetCmd, qrpc.CodecFlag, cat(fbytes(1, "a"), fbytes(2, "evil")))},
		{name: "nothing", b: nil},
	}
	for _, cm := range []qrpc.Cmd{1, 3, 5, 7, 8, 9, 10, 11, 13, 14, 15, 77, 0xffff, 0xffffff} {
		for _, fl := range []qrpc.FrameFlag{0, qrpc.NBFlag, qrpc.StreamFlag, qrpc.StreamFlag | qrpc.StreamEndFlag, rstFlag} {
			headers = append(headers, payload{name: fmt.Sprintf("command %d, flags %d", cm, fl), b: frameBytes(1, cm, fl, fbytes(1, "a"))})
		}
	}
	r.ExploreProc("headers", 0, func(c *ex.Ctx) {
		h := headers[c.Choose(len(headers))]
		inTxn := c.Choose(2) == 1 // another transaction of the same connection is open
		same := inTxn && c.Choose(2) == 1
		if inTxn && !same && len(h.b) >= 16 && h.b[3] == 15 && qrpc.FrameFlag(h.b[12])&(rstFlag|qrpc.CodecFlag) == 0 {
			return // see "closing beside a transaction"
		}
		closes := c.Choose(3) // the connection is then closed, half-closed, or used for another request
		d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
		rem := remoteFor(c.Worker, d)
		n := newNeighbour(c, rem)
		n.do(gset("nb", "1", nil))
		a := rem.raw()
		c.Cleanup(func() { _ = a.c.Close() })
		c.Logf("%s, transaction open: %v, same request: %v, closes %d", h.name, inTxn, same, closes)
		if inTxn {
			a.send(open)
			f, ok, _ := a.read(20 * time.Second)
			_, code, _, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(ok && err == nil && code == server.CodeOK, "the transaction does not begin: %+v %v", f, err)
		}
		b := append([]byte{}, h.b...)
		commit := same && len(b) >= 16 && b[15] == byte(server.CommitCmd) && b[14] == 0 && b[3] == 12+3 && qrpc.FrameFlag(b[12])&rstFlag == 0
		if inTxn && !same && len(b) >= 12 {
			b[11] = 9
		}
		a.send(b)
		// a commit within the transaction is a commit
		if commit {
			_ = td.Set([]byte("a"), []byte("evil"), nil)
			f, ok, hung := a.read(20 * time.Second)
			_, code, _, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(ok && !hung && err == nil && code == server.CodeOK, "the commit is not answered")
		}
		switch closes {
		case 0:
			_ = a.c.(*net.TCPConn).SetLinger(-1)
			_ = a.c.Close()
		case 1:
			_ = a.c.(*net.TCPConn).CloseWrite()
		default:
			a.send(frameBytes(11, server.GetCmd, 0, fbytes(1, "a")))
		}
		if closes == 2 {
			defer func() { c.Assert(await(d.Idle), "a transaction stays open") }()
			n.do(gget("ab"))
			_ = a.c.Close()
		}
		n.check(rem, d, td)
		c.Observe("%v", d.Snapshot().Key())
	})

	// a connection that the server closes while one of its transactions is open
	r.Expect = map[string]string{"closing beside a transaction": "P15-qrpc-close"}
	r.ExpectWhat = "a connection that is closed by the server because of one request while it has a transaction open can stop the whole server (panic in qrpc)"
	r.ExploreProc("closing beside a transaction", 0, func(c *ex.Ctx) {
		kind := c.Choose(2) // a malformed request, an unknown command
		for i := 0; i < 300; i++ {
			d, td := kvmem.FromSnap(snap), kvmem.FromSnap(snap)
			rem := remoteFor(c.Worker, d)
			n := newNeighbour(c, rem)
			n.do(gset("nb", "1", nil))
			a := rem.raw()
			a.send(open)
			f, ok, _ := a.read(20 * time.Second)
			_, code, _, err := decodeAnswer(f.cmd, f.payload)
			c.Assert(ok && err == nil && code == server.CodeOK, "the transaction does not begin: %+v %v", f, err)
			if kind == 0 {
				a.send(frameBytes(9, server.GetCmd, qrpc.NBFlag, fvar(1, 5)))
			} else {
				a.send(frameBytes(9, 77, qrpc.NBFlag, nil))
			}
			n.check(rem, d, td)
			_ = a.c.Close()
		}
	})
}
