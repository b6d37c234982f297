package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"

	"mc/hz"
)

// pool of real databases, one per explorer worker.
type pool struct {
	mu  sync.Mutex
	dir string
	mk  func() mondis.KVDB
	m   map[int]mondis.KVDB
	use map[int]int
	n   int
}

func newPool(r *hz.R, mk func() mondis.KVDB) *pool {
	return &pool{dir: scratchDir(r), mk: mk, m: map[int]mondis.KVDB{}, use: map[int]int{}}
}

func badgerPool(r *hz.R) *pool  { return newPool(r, provider.NewBadger) }
func leveldbPool(r *hz.R) *pool { return newPool(r, provider.NewLevelDB) }

func scratchDir(r *hz.R) string {
	d, err := os.MkdirTemp(r.Scratch, "db")
	if err != nil {
		panic(err)
	}
	return d
}

func (p *pool) get(w int) mondis.KVDB {
	p.mu.Lock()
	defer p.mu.Unlock()
	if d := p.m[w]; d != nil {
		return d
	}
	p.n++
	dir := filepath.Join(p.dir, fmt.Sprint(p.n))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	d := p.mk()
	if err := d.Open(mondis.KVOption{Dir: dir}); err != nil {
		panic(err)
	}
	p.m[w] = d
	return d
}

// clean returns an empty database; it is replaced by a new one now and then, because
// old versions slow every scan down.
func (p *pool) clean(w int) mondis.KVDB {
	p.mu.Lock()
	p.use[w]++
	old := p.m[w]
	if p.use[w]%64 == 0 && old != nil {
		delete(p.m, w)
		p.mu.Unlock()
		_ = old.Close()
		return p.get(w)
	}
	p.mu.Unlock()
	d := p.get(w)
	wipe(d)
	return d
}

func (p *pool) close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, d := range p.m {
		_ = d.Close()
	}
	_ = os.RemoveAll(p.dir)
}

// wipe removes everything through the provider.
func wipe(d mondis.KVDB) {
	var ks [][]byte
	if err := d.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		ks = append(ks, append([]byte{}, k...))
		return true
	}); err != nil {
		panic(err)
	}
	for _, k := range ks {
		if err := d.Delete(k); err != nil {
			panic(err)
		}
	}
}
