package checks

import (
	"fmt"
	"os"
	"sync/atomic"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"

	"mc/ex"
	"mc/hz"
)

// lifecycle: two instances of a provider and one directory. Whatever the order of opening,
// closing and writing, a directory is open at most once, and what was acknowledged is there for
// whoever has it open, also after attempts to open it that failed.
func lifecycle(r *hz.R, root, kind string, depth int) {
	var nr int64
	r.Explore(kind+"/lifecycle", 0, func(c *ex.Ctx) {
		dir := fmt.Sprintf("%s/life%d", root, atomic.AddInt64(&nr, 1))
		defer os.RemoveAll(dir)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		inst := []mondis.KVDB{durProvider(kind), durProvider(kind)}
		open := [2]bool{}
		ever := [2]bool{}
		defer func() {
			for i := range inst {
				if open[i] {
					_ = inst[i].Close()
				}
			}
		}()
		want := map[string]string{}
		for s := 0; s < depth; s++ {
			// the choices that make sense now
			type act struct {
				name string
				i    int
			}
			var as []act
			for i := range inst {
				as = append(as, act{"open", i}, act{"close", i})
				if open[i] {
					as = append(as, act{"set", i}, act{"delete", i})
				}
			}
			a := as[c.Choose(len(as))]
			other := open[1-a.i]
			db := inst[a.i]
			k, v := fmt.Sprint("k", s%2), fmt.Sprint("v", s)
			var err error
			switch a.name {
			case "open":
				err = db.Open(mondis.KVOption{Dir: dir})
				c.Logf("%d opens: %v", a.i, err)
				c.Assert((err == nil) == (!open[a.i] && !other), "opening: %v; open already: by itself %v, by another %v", err, open[a.i], other)
				if err == nil {
					open[a.i], ever[a.i] = true, true
				}
			case "close":
				err = db.Close()
				c.Logf("%d closes: %v", a.i, err)
				if open[a.i] {
					c.Assert(err == nil, "closing: %v", err)
				}
				if !ever[a.i] {
					c.Assert(err == nil, "closing what was never open: %v", err)
				}
				open[a.i] = false
			case "set":
				err = db.Set([]byte(k), []byte(v), nil)
				c.Logf("%d sets %s: %v", a.i, k, err)
				c.Assert(err == nil, "set: %v", err)
				want[k] = v
			case "delete":
				k = fmt.Sprint("k", (s+1)%2)
				err = db.Delete([]byte(k))
				c.Logf("%d deletes %s: %v", a.i, k, err)
				c.Assert(err == nil, "delete: %v", err)
				delete(want, k)
			}
			c.Observe("%s %v", a.name, err == nil)
			for i := range inst {
				if !open[i] {
					continue
				}
				for _, k := range []string{"k0", "k1"} {
					v, _, err := inst[i].Get([]byte(k))
					w, has := want[k]
					c.Step()
					if has {
						c.Assert(err == nil && string(v) == w, "%s is %q (%v), written was %q", k, v, err, w)
					} else {
						c.Assert(err == kv.ErrKeyNotFound, "%s is %q (%v), it was never written or is deleted", k, v, err)
					}
				}
			}
		}
	})
}
