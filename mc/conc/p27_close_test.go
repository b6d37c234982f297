//go:build conc

package conc

import (
	"fmt"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"go.mongodb.org/mongo-driver/bson"

	"mc/ex"
	"mc/hz"
	"mc/kvmem"
)

func init() {
	hz.Register("P27", &hz.Check{
		Level:  "model_checking",
		Rule:   "every schedule of the tasks up to the stated number of preemptions; distinct = distinct results",
		Assume: []string{"the storage serialises transactions as the Badger provider does (kvmem, bound to it by P01-P04)", "statements that touch shared memory are atomic; the third-party close counter is atomic between its calls"},
		Run:    runP27,
	})
}

type closeOp struct {
	name  string
	noTxn bool // does not take a transaction of the caller
	f     func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error
}

func closeOps() []closeOp {
	return []closeOp{
		{"insert", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.InsertOne(bson.M{"m": "x"}, tx)
			return err
		}},
		{"managed", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			return c.InsertOneManaged(7777, bson.M{"m": "x"}, tx)
		}},
		{"update", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.UpdateOne(1, bson.M{"m": "y"}, tx)
			return err
		}},
		{"upsert", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.UpsertOne(7778, bson.M{"m": "y"}, tx)
			return err
		}},
		{"delete", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error { return c.DeleteOne(1, tx) }},
		{"get", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.GetOne(1, tx)
			return err
		}},
		{"many", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.GetMany([]int64{1}, tx)
			return err
		}},
		{"count", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.Count(tx)
			return err
		}},
		{"all", false, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.DeleteAll(tx)
			return err
		}},
		{"index", true, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.CreateIndex(ixdef("n2", false, ixf{"q", false}))
			return err
		}},
		{"drop", true, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := c.DropIndex("n")
			return err
		}},
		{"open", true, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			c2, err := db.Collection("new")
			if err == nil && c2 == nil {
				return fmt.Errorf("no collection and no error")
			}
			return err
		}},
		{"open old", true, func(db *document.DB, c *document.Collection, tx mondis.ProviderTxn) error {
			_, err := db.Collection("a")
			return err
		}},
	}
}

func runP27(r *hz.R) {
	pb := 2
	if !r.Quick {
		pb = 3
	}
	body := func(c *ex.Ctx, pick func(ops []closeOp) [][]closeOp, closers int, inTxn bool) {
		all := closeOps()
		tasks := pick(all)
		bubble(c, func(e *env) {
			kvdb := e.db(nil)
			db := document.NewDB(kvdb)
			h, err := db.Collection("a")
			must(err)
			did, err := h.InsertOne(bson.M{"m": "0"}, nil)
			must(err)
			if did != 1 {
				e.failf("the first document got the id %d", did)
			}
			_, err = h.CreateIndex(ixdef("n", false, ixf{"f", false}))
			must(err)
			var txs []mondis.ProviderTxn
			newTxn := func() (t mondis.ProviderTxn) {
				if inTxn {
					t = kvdb.NewTransaction(true)
					txs = append(txs, t)
				}
				return
			}
			lateTx := kvdb.NewTransaction(true)
			defer lateTx.Discard()
			closedBy := 0
			e.onOp = func(op *kvmem.Op) error {
				if closedBy > 0 && op.Kind != kvmem.KDiscard && op.Kind != kvmem.KCommitted {
					e.failf("the storage is used (%s %q) after the store was closed", op.Kind, op.Key)
				}
				return nil
			}
			var acked []string
			for i := range tasks {
				i := i
				tx := newTxn()
				e.s.Go(fmt.Sprint("t", i), func() {
					for _, o := range tasks[i] {
						before := closedBy
						err := o.f(db, h, tx)
						switch {
						case err == nil && before > 0:
							e.failf("%s succeeded on a closed store", o.name)
						case err == nil && inTxn:
						case err == nil:
							acked = append(acked, o.name)
						case closedErr(err) || err == kvmem.ErrConflict || err == document.ErrDocNotFound:
						case len(tasks) == 2 && tasks[0][0].name == tasks[1][0].name && (o.name == "index" || o.name == "drop" || o.name == "managed"):
							// the other one was first
						default:
							e.failf("%s: %v", o.name, err)
						}
					}
				})
			}
			for i := 0; i < closers; i++ {
				e.s.Go(fmt.Sprint("closer", i), func() {
					db.Close()
					closedBy++
				})
			}
			e.run()
			for _, t := range txs {
				t.Discard()
			}
			// everything is refused now, and closing again is harmless
			db.Close()
			for _, o := range all {
				for _, tx := range []mondis.ProviderTxn{nil, lateTx} {
					if err := o.f(db, h, tx); !closedErr(err) {
						e.failf("%s on a closed store: %v", o.name, err)
					}
				}
			}
			db.Close()
			// acknowledged writes are there
			e.onOp = nil
			re := document.NewDB(kvmem.FromSnap(kvdb.Snapshot()))
			rh, err := re.Collection("a")
			must(err)
			gone := false
			for _, a := range acked {
				gone = gone || a == "all" || a == "delete"
			}
			for _, a := range acked {
				switch a {
				case "insert":
					n, err := rh.Count(nil)
					must(err)
					if n < 2 && !gone {
						e.failf("an acknowledged insert is lost")
					}
				case "managed":
					if _, err := rh.GetOne(7777, nil); err != nil && !gone {
						e.failf("an acknowledged managed insert is lost: %v", err)
					}
				case "upsert":
					if _, err := rh.GetOne(7778, nil); err != nil && !gone {
						e.failf("an acknowledged upsert is lost: %v", err)
					}
				case "index":
					if l := ixlist(rh); len(l) == 0 || l[len(l)-1].Name != "n2" {
						e.failf("an acknowledged index is lost: %v", l)
					}
				case "drop":
					for _, d := range ixlist(rh) {
						if d.Name == "n" {
							e.failf("an acknowledged drop is lost")
						}
					}
				}
			}
			c.Observe("%v", acked)
		})
	}
	r.ExploreProc("one operation, two closers", pb, func(c *ex.Ctx) {
		o := c.Choose(len(closeOps()))
		inTxn := c.Choose(2) == 1
		if inTxn && closeOps()[o].noTxn {
			return
		}
		body(c, func(ops []closeOp) [][]closeOp { return [][]closeOp{{ops[o]}} }, 2, inTxn)
	})
	r.ExploreProc("two operations, one closer", pb, func(c *ex.Ctx) {
		n := len(closeOps())
		i := c.Choose(n)
		j := c.Choose(n)
		if j < i {
			return
		}
		body(c, func(ops []closeOp) [][]closeOp { return [][]closeOp{{ops[i]}, {ops[j]}} }, 1, false)
	})
}
