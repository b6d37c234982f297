// Package kvmem is an in-memory mondis.KVDB with the transactional semantics of
// the Badger provider (snapshot reads, own pending writes, conflict detection on
// keys read, last write wins), plus seams for exploration: a hook in front of
// every operation (scheduling point, fault injection), cheap snapshots, poisoned
// scan buffers, and retained (not copied) write buffers until commit, as Badger
// does.  Its agreement with the real Badger provider is itself checked (P01-P03
// run the same histories on both).
package kvmem

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
)

// Errors of the provider model.
var (
	ErrConflict  = errors.New("Transaction Conflict. Please retry")
	ErrReadOnly  = errors.New("No sets or deletes are allowed in a read-only transaction")
	ErrDiscarded = errors.New("This transaction has been discarded. Create a new one")
	ErrEmptyKey  = errors.New("Key cannot be empty")
	ErrDead      = errors.New("kvmem: process is dead")
	ErrInjected  = errors.New("kvmem: injected fault")
	ErrClosed    = errors.New("kvmem: closed")
)

// Kind of operation announced to the hook.
type Kind string

// Operation kinds.
const (
	KBegin     Kind = "begin"
	KGet       Kind = "get"
	KExists    Kind = "exists"
	KSet       Kind = "set"
	KDelete    Kind = "delete"
	KScan      Kind = "scan"
	KCommit    Kind = "commit"
	KCommitted Kind = "committed" // after the effect of a commit with writes
	KDiscard   Kind = "discard"
	KEntry     Kind = "entry" // before each entry of a scan, and after the last, if DB.Entries
)

// Op is what the hook sees.
type Op struct {
	Kind   Kind
	Key    []byte
	Update bool
	Writes int
	Txn    *Txn
	Val    []byte           // of a set
	Meta   *mondis.VMetaReq // of a set
}

type ent struct {
	k   string
	v   []byte
	tag byte
	exp uint64
}

// Snap is an immutable database content.
type Snap []ent

// DB implements mondis.KVDB.
type DB struct {
	mu      sync.Mutex
	snap    Snap
	ts      uint64
	last    map[string]uint64
	Hook    func(op *Op) error
	Entries bool // the hook sees the entries of scans and may end them with an error
	Max     int  // maximum number of writes per transaction, 0 = unlimited
	Commits int
	Dead    bool
	closed  bool
	openTx  map[*Txn]struct{}
	Begun   int // transactions created
	Ended   int // transactions discarded or committed
	Ops     int64
}

var _ mondis.KVDB = (*DB)(nil)

// New database.
func New() *DB { return &DB{last: map[string]uint64{}, ts: 1} }

// FromSnap starts a database from a content.
func FromSnap(s Snap) *DB { d := New(); d.snap = s; return d }

// Restore replaces the content; no transaction may be open.
func (d *DB) Restore(s Snap) {
	d.mu.Lock()
	d.snap = s
	d.mu.Unlock()
}

// Snapshot returns the current committed content.
func (d *DB) Snapshot() Snap { d.mu.Lock(); defer d.mu.Unlock(); return d.snap }

// Key is a canonical printable form of a content.
func (s Snap) Key() string {
	var b strings.Builder
	for _, e := range s {
		fmt.Fprintf(&b, "%d:%s=%d:%s", len(e.k), e.k, len(e.v), e.v)
		if e.tag != 0 || e.exp != 0 {
			fmt.Fprintf(&b, "#%d,%d", e.tag, e.exp)
		}
		b.WriteByte(';')
	}
	return b.String()
}

// Map form (values as strings).
func (s Snap) Map() map[string]string {
	m := map[string]string{}
	for _, e := range s {
		m[e.k] = string(e.v)
	}
	return m
}

// String is human readable.
func (s Snap) String() string {
	var b strings.Builder
	for _, e := range s {
		fmt.Fprintf(&b, "%q=%q ", e.k, e.v)
	}
	return b.String()
}

// Len is the number of entries.
func (s Snap) Len() int { return len(s) }

func (s Snap) find(k string) (int, bool) {
	i := sort.Search(len(s), func(i int) bool { return s[i].k >= k })
	return i, i < len(s) && s[i].k == k
}

func (d *DB) hook(op *Op) error {
	if d.Hook != nil {
		if err := d.Hook(op); err != nil {
			return err
		}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Ops++
	if d.Dead {
		return ErrDead
	}
	return nil
}

// Open implements mondis.KVDB.
func (d *DB) Open(mondis.KVOption) error { d.closed = false; return nil }

// Close implements mondis.KVDB.
func (d *DB) Close() error { d.mu.Lock(); d.closed = true; d.mu.Unlock(); return nil }

// Closed tells whether the database is closed.
func (d *DB) Closed() bool { d.mu.Lock(); defer d.mu.Unlock(); return d.closed }

// Kill makes every further operation fail without effect.
func (d *DB) Kill() { d.mu.Lock(); d.Dead = true; d.mu.Unlock() }

type pend struct {
	key []byte // retained reference
	val []byte // retained reference
	del bool
	tag byte
	exp uint64
}

// Txn implements mondis.ProviderTxn.
type Txn struct {
	d         *DB
	update    bool
	readTs    uint64
	snap      Snap
	pending   map[string]*pend
	nwrites   int
	reads     map[string]struct{}
	discarded bool
	iters     int
	// BeginErr poisons the transaction (dead process)
	beginErr error
}

// NewTransaction implements mondis.KVDB.
func (d *DB) NewTransaction(update bool) mondis.ProviderTxn {
	t := &Txn{d: d, update: update}
	t.beginErr = d.hook(&Op{Kind: KBegin, Update: update, Txn: t})
	d.mu.Lock()
	defer d.mu.Unlock()
	t.readTs = d.ts
	t.snap = d.snap
	d.Begun++
	if update {
		t.pending = map[string]*pend{}
		t.reads = map[string]struct{}{}
	}
	return t
}

// Now is the clock of all databases.
var Now = time.Now

func expired(exp uint64) bool { return exp != 0 && exp <= uint64(Now().Unix()) }

func (t *Txn) pre(k Kind, key []byte) error {
	if t.beginErr != nil {
		return t.beginErr
	}
	return t.d.hook(&Op{Kind: k, Key: key, Update: t.update, Writes: len(t.pending), Txn: t})
}

func (t *Txn) modify(k []byte, p *pend) error {
	switch {
	case !t.update:
		return ErrReadOnly
	case t.discarded:
		return ErrDiscarded
	case len(k) == 0:
		return ErrEmptyKey
	}
	if t.d.Max > 0 && t.nwrites+1 > t.d.Max {
		return kv.ErrTxnTooBig
	}
	t.nwrites++
	p.key = k
	t.pending[string(k)] = p
	return nil
}

// Set implements mondis.ProviderTxn.
func (t *Txn) Set(k, v []byte, meta *mondis.VMetaReq) error {
	if t.beginErr != nil {
		return t.beginErr
	}
	if err := t.d.hook(&Op{Kind: KSet, Key: k, Update: t.update, Writes: len(t.pending), Txn: t, Val: v, Meta: meta}); err != nil {
		return err
	}
	p := &pend{val: v}
	if meta != nil {
		p.tag = meta.Tag
		if meta.TTL != 0 {
			p.exp = uint64(Now().Add(meta.TTL).Unix())
		}
	}
	return t.modify(k, p)
}

// Delete implements mondis.ProviderTxn.
func (t *Txn) Delete(k []byte) error {
	if err := t.pre(KDelete, k); err != nil {
		return err
	}
	return t.modify(k, &pend{del: true})
}

func (t *Txn) get(k []byte) (v []byte, meta mondis.VMetaResp, err error) {
	if len(k) == 0 {
		err = ErrEmptyKey
		return
	}
	if t.discarded {
		err = ErrDiscarded
		return
	}
	if t.update {
		if p, ok := t.pending[string(k)]; ok && bytes.Equal(p.key, k) {
			if p.del || expired(p.exp) {
				err = kv.ErrKeyNotFound
				return
			}
			return append([]byte(nil), p.val...), mondis.VMetaResp{ExpiresAt: p.exp, Tag: p.tag}, nil
		}
		t.reads[string(k)] = struct{}{}
	}
	i, ok := t.snap.find(string(k))
	if !ok || expired(t.snap[i].exp) {
		err = kv.ErrKeyNotFound
		return
	}
	e := t.snap[i]
	return append([]byte(nil), e.v...), mondis.VMetaResp{ExpiresAt: e.exp, Tag: e.tag}, nil
}

// Get implements mondis.ProviderTxn.
func (t *Txn) Get(k []byte) (v []byte, meta mondis.VMetaResp, err error) {
	if err = t.pre(KGet, k); err != nil {
		return
	}
	return t.get(k)
}

// Exists implements mondis.ProviderTxn.
func (t *Txn) Exists(k []byte) (bool, error) {
	if err := t.pre(KExists, k); err != nil {
		return false, err
	}
	_, _, err := t.get(k)
	if err == kv.ErrKeyNotFound {
		return false, nil
	}
	return err == nil, err
}

// merged content seen by the transaction now.
func (t *Txn) view() Snap {
	if len(t.pending) == 0 {
		return t.snap
	}
	return merge(t.snap, t.pending)
}

func merge(s Snap, pending map[string]*pend) Snap {
	upd := make([]*pend, 0, len(pending))
	for _, p := range pending {
		upd = append(upd, p)
	}
	sort.Slice(upd, func(i, j int) bool { return bytes.Compare(upd[i].key, upd[j].key) < 0 })
	out := make(Snap, 0, len(s)+len(upd))
	i := 0
	for _, p := range upd {
		k := string(p.key)
		for i < len(s) && s[i].k < k {
			out = append(out, s[i])
			i++
		}
		if i < len(s) && s[i].k == k {
			i++
		}
		if !p.del {
			out = append(out, ent{k: k, v: append([]byte(nil), p.val...), tag: p.tag, exp: p.exp})
		}
	}
	out = append(out, s[i:]...)
	return out
}

// Select is the specification of a scan over a content: keys with the prefix at or
// after (at or before, reversed) the offset, in order.
func (s Snap) Select(o mondis.ProviderScanOption) []int {
	var idx []int
	for i, e := range s {
		if !strings.HasPrefix(e.k, string(o.Prefix)) || expired(e.exp) {
			continue
		}
		if len(o.Offset) > 0 {
			if !o.Reverse && e.k < string(o.Offset) {
				continue
			}
			if o.Reverse && e.k > string(o.Offset) {
				continue
			}
		}
		idx = append(idx, i)
	}
	if o.Reverse {
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	return idx
}

// Scan implements mondis.ProviderTxn.
func (t *Txn) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	if err := t.pre(KScan, o.Prefix); err != nil {
		return err
	}
	if t.discarded {
		panic("Transaction has already been discarded")
	}
	if t.iters > 0 && t.update {
		panic("Only one iterator can be active at one time, for a RW txn.")
	}
	t.iters++
	defer func() { t.iters-- }()
	v := t.view()
	for _, i := range v.Select(o) {
		if t.d.Entries {
			if err := t.pre(KEntry, []byte(v[i].k)); err != nil {
				return err
			}
		}
		e := v[i]
		if t.update {
			t.reads[e.k] = struct{}{}
		}
		kb, vb := []byte(e.k), append([]byte{}, e.v...)
		goon := fn(kb, vb, mondis.VMetaResp{ExpiresAt: e.exp, Tag: e.tag})
		// key and value are only valid before fn returns
		for j := range kb {
			kb[j] = 0xDB
		}
		for j := range vb {
			vb[j] = 0xDB
		}
		if !goon {
			return nil
		}
	}
	if t.d.Entries {
		return t.pre(KEntry, nil)
	}
	return nil
}

// StartTS implements mondis.ProviderTxn.
func (t *Txn) StartTS() uint64 { return t.readTs }

// Commit implements mondis.ProviderTxn.
func (t *Txn) Commit() error {
	if t.discarded {
		panic("Trying to commit a discarded txn")
	}
	defer t.end()
	if err := t.pre(KCommit, nil); err != nil {
		return err
	}
	if len(t.pending) == 0 {
		return nil
	}
	d := t.d
	d.mu.Lock()
	if d.Dead {
		d.mu.Unlock()
		return ErrDead
	}
	for r := range t.reads {
		if d.last[r] > t.readTs {
			d.mu.Unlock()
			return ErrConflict
		}
	}
	d.ts++
	for _, p := range t.pending {
		d.last[string(p.key)] = d.ts
	}
	d.snap = merge(d.snap, t.pending)
	d.Commits++
	d.mu.Unlock()
	if d.Hook != nil {
		_ = d.Hook(&Op{Kind: KCommitted, Update: true, Writes: len(t.pending), Txn: t})
	}
	return nil
}

func (t *Txn) end() {
	if t.discarded {
		return
	}
	t.discarded = true
	t.d.mu.Lock()
	t.d.Ended++
	t.d.mu.Unlock()
}

// Discard implements mondis.ProviderTxn.
func (t *Txn) Discard() {
	if t.discarded {
		return
	}
	if t.iters > 0 {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	t.end()
}

// Pending content (for tests of discard behaviour).
func (t *Txn) Pending() int { return len(t.pending) }

// Direct operations.

// Set implements mondis.KVDB.
func (d *DB) Set(k, v []byte, meta *mondis.VMetaReq) error {
	t := d.NewTransaction(true)
	defer t.Discard()
	if err := t.Set(k, v, meta); err != nil {
		return err
	}
	return t.Commit()
}

// Delete implements mondis.KVDB.
func (d *DB) Delete(k []byte) error {
	t := d.NewTransaction(true)
	defer t.Discard()
	if err := t.Delete(k); err != nil {
		return err
	}
	return t.Commit()
}

// Exists implements mondis.KVDB.
func (d *DB) Exists(k []byte) (bool, error) {
	t := d.NewTransaction(false)
	defer t.Discard()
	return t.Exists(k)
}

// Get implements mondis.KVDB.
func (d *DB) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	t := d.NewTransaction(false)
	defer t.Discard()
	return t.Get(k)
}

// Scan implements mondis.KVDB.
func (d *DB) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	t := d.NewTransaction(false)
	defer t.Discard()
	return t.Scan(o, fn)
}

type wb struct{ t *Txn }

func (w wb) Set(k, v []byte) error   { return w.t.Set(k, v, nil) }
func (w wb) Delete(key []byte) error { return w.t.Delete(key) }
func (w wb) Commit() error           { return w.t.Commit() }
func (w wb) Discard()                { w.t.Discard() }

// WriteBatch implements mondis.KVDB.
func (d *DB) WriteBatch() mondis.ProviderWriteBatch {
	return wb{d.NewTransaction(true).(*Txn)}
}

// Idle tells whether every transaction has ended.
func (d *DB) Idle() bool { d.mu.Lock(); defer d.mu.Unlock(); return d.Begun == d.Ended }
