package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/util/osc"

	"mc/hz"
	"mc/kvmem"
)

// jobKinds are the shapes of jobs stored by the checks.
func mkJob(id int64, kind int) *model.Job {
	j := &model.Job{ID: id, Type: model.ActionCreateSchema, Arg: mkDB(id, 1), StartTS: math.MaxUint64, DependencyID: -id}
	switch kind {
	case 1:
		j.State, j.Error, j.ErrorCount = model.JobStateCancelled, errors.New("db \"x\" exists\n\u00e9"), 3
	case 2:
		j.State, j.SchemaState, j.Type = model.JobStateSynced, osc.StatePublic, model.ActionAddIndex
		j.Arg = &model.IndexInfo{ID: id, Name: "i", Columns: []string{"a"}}
	}
	return j
}

// jobDiff compares two jobs, "" if they are equal.
func jobDiff(g, w *model.Job) string {
	if g == nil {
		return "no job"
	}
	e := func(err error) string {
		if err == nil {
			return "<nil>"
		}
		return "error " + err.Error()
	}
	s := func(j *model.Job) string {
		return fmt.Sprintf("id %d type %d state %d schemastate %d error %q count %d ts %d dep %d", j.ID, j.Type, j.State, j.SchemaState, e(j.Error), j.ErrorCount, j.StartTS, j.DependencyID)
	}
	if a, b := s(g), s(w); a != b {
		return fmt.Sprintf("got {%s}, want {%s}", a, b)
	}
	arg := reflect.New(reflect.TypeOf(w.Arg).Elem()).Interface()
	if err := g.DecodeArg(arg); err != nil {
		return "DecodeArg: " + err.Error()
	}
	if !sameJSON(arg, w.Arg) {
		return fmt.Sprintf("argument %s want %s", js(arg), js(w.Arg))
	}
	return ""
}

type jobRef struct {
	id   int64
	kind int
}

type jobState struct {
	snap kvmem.Snap
	q    [2][]jobRef
	hist map[int64]int
	re   map[int64][2]int64 // reorg handles; end math.MinInt64 = not stored
}

func (s *jobState) clone() *jobState {
	n := &jobState{snap: s.snap, hist: map[int64]int{}, re: map[int64][2]int64{}}
	for i := range s.q {
		n.q[i] = append([]jobRef{}, s.q[i]...)
	}
	for k, v := range s.hist {
		n.hist[k] = v
	}
	for k, v := range s.re {
		n.re[k] = v
	}
	return n
}

var listKeys = []meta.JobListKeyType{meta.DefaultJobListKey, meta.AddIndexJobListKey}

type jobOp struct {
	name string
	do   func(db *kvmem.DB, s *jobState, l *hz.Log) bool
}

// inTxn runs f in a transaction of the job's store; style 1 selects the queue by NewMeta, 0 by argument.
func inTxn(db *kvmem.DB, q int, l *hz.Log, f func(m *meta.Meta, key []meta.JobListKeyType)) {
	t := db.NewTransaction(true)
	f(meta.NewMeta(t, listKeys[q]), nil)
	l.Assert(t.Commit() == nil, "commit failed")
}

func queueOps(maxLen int, kinds int) (ops []jobOp) {
	for q := 0; q < 2; q++ {
		q := q
		for k := 0; k < kinds; k++ {
			k := k
			for style := 0; style < 2; style++ {
				style := style
				ops = append(ops, jobOp{fmt.Sprintf("EnQueueDDLJob(queue %d, kind %d, style %d)", q, k, style), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
					if len(s.q[q]) >= maxLen {
						return false
					}
					id := int64(len(s.q[0]) + 2*len(s.q[1]) + 1)
					t := db.NewTransaction(true)
					var err error
					if style == 0 {
						err = meta.NewMeta(t).EnQueueDDLJob(mkJob(id, k), listKeys[q])
					} else {
						err = meta.NewMeta(t, listKeys[q]).EnQueueDDLJob(mkJob(id, k))
					}
					l.Assert(err == nil && t.Commit() == nil, "EnQueueDDLJob: %v", err)
					s.q[q] = append(s.q[q], jobRef{id, k})
					return true
				}})
			}
			for idx := int64(0); idx <= int64(maxLen); idx++ {
				idx := idx
				ops = append(ops, jobOp{fmt.Sprintf("UpdateDDLJob(queue %d, %d, kind %d)", q, idx, k), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
					t := db.NewTransaction(true)
					var err error
					id := int64(90 + k)
					if idx%2 == 0 {
						err = meta.NewMeta(t, listKeys[1-q]).UpdateDDLJob(idx, mkJob(id, k), listKeys[q])
					} else {
						err = meta.NewMeta(t, listKeys[q]).UpdateDDLJob(idx, mkJob(id, k))
					}
					l.Logf("%v", err)
					if idx >= int64(len(s.q[q])) {
						l.Assert(err == meta.ErrJobNotExists, "UpdateDDLJob(%d) in a queue of %d returned %v", idx, len(s.q[q]), err)
						l.Assert(t.Commit() == nil, "commit")
						return true
					}
					l.Assert(err == nil && t.Commit() == nil, "UpdateDDLJob(%d): %v", idx, err)
					s.q[q][idx] = jobRef{id, k}
					return true
				}})
			}
		}
		ops = append(ops, jobOp{fmt.Sprintf("DeQueueDDLJob(queue %d)", q), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
			t := db.NewTransaction(true)
			j, err := meta.NewMeta(t, listKeys[q]).DeQueueDDLJob()
			l.Assert(err == nil && t.Commit() == nil, "DeQueueDDLJob: %v", err)
			if len(s.q[q]) == 0 {
				l.Assert(j == nil, "DeQueueDDLJob of an empty queue returned a job")
				return true
			}
			if d := jobDiff(j, mkJob(s.q[q][0].id, s.q[q][0].kind)); d != "" {
				l.Fail("DeQueueDDLJob: %s", d)
			}
			s.q[q] = s.q[q][1:]
			return true
		}})
		// moving the head to the history, as the worker does, in one transaction
		ops = append(ops, jobOp{fmt.Sprintf("finish head of queue %d", q), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
			if len(s.q[q]) == 0 {
				return false
			}
			t := db.NewTransaction(true)
			m := meta.NewMeta(t, listKeys[q])
			j, err := m.GetDDLJobByIdx(0)
			l.Assert(err == nil && j != nil, "GetDDLJobByIdx(0): %v %v", j, err)
			_, err = m.DeQueueDDLJob()
			l.Assert(err == nil, "DeQueueDDLJob: %v", err)
			l.Assert(m.AddHistoryDDLJob(j) == nil && t.Commit() == nil, "AddHistoryDDLJob")
			h := s.q[q][0]
			s.hist[h.id] = h.kind
			s.q[q] = s.q[q][1:]
			return true
		}})
	}
	return
}

func histOps(ids []int64, kinds int) (ops []jobOp) {
	for _, id := range ids {
		for k := 0; k < kinds; k++ {
			id, k := id, k
			ops = append(ops, jobOp{fmt.Sprintf("AddHistoryDDLJob(%d, kind %d)", id, k), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
				inTxn(db, 0, l, func(m *meta.Meta, _ []meta.JobListKeyType) {
					l.Assert(m.AddHistoryDDLJob(mkJob(id, k)) == nil, "AddHistoryDDLJob failed")
				})
				s.hist[id] = k
				return true
			}})
		}
	}
	return
}

func reorgOps(ids []int64, handles []int64) (ops []jobOp) {
	for _, id := range ids {
		id := id
		for _, h := range handles {
			h := h
			ops = append(ops, jobOp{fmt.Sprintf("UpdateDDLReorgStartHandle(%d,%d)", id, h), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
				inTxn(db, 0, l, func(m *meta.Meta, _ []meta.JobListKeyType) {
					l.Assert(m.UpdateDDLReorgStartHandle(mkJob(id, 0), h) == nil, "UpdateDDLReorgStartHandle failed")
				})
				r, ok := s.re[id]
				if !ok {
					r[1] = math.MinInt64
				}
				r[0] = h
				s.re[id] = r
				return true
			}})
			for _, e := range handles {
				e := e
				ops = append(ops, jobOp{fmt.Sprintf("UpdateDDLReorgHandle(%d,%d,%d)", id, h, e), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
					inTxn(db, 0, l, func(m *meta.Meta, _ []meta.JobListKeyType) {
						l.Assert(m.UpdateDDLReorgHandle(mkJob(id, 0), h, e, 5) == nil, "UpdateDDLReorgHandle failed")
					})
					s.re[id] = [2]int64{h, e}
					return true
				}})
			}
		}
		ops = append(ops, jobOp{fmt.Sprintf("RemoveDDLReorgHandle(%d)", id), func(db *kvmem.DB, s *jobState, l *hz.Log) bool {
			inTxn(db, 0, l, func(m *meta.Meta, _ []meta.JobListKeyType) {
				l.Assert(m.RemoveDDLReorgHandle(mkJob(id, 0)) == nil, "RemoveDDLReorgHandle failed")
			})
			delete(s.re, id)
			return true
		}})
	}
	return
}

func observeJobs(db *kvmem.DB, s *jobState, ids []int64, l *hz.Log) {
	t := db.NewTransaction(false)
	defer t.Discard()
	for q := 0; q < 2; q++ {
		for style := 0; style < 2; style++ {
			m := meta.NewMeta(t, listKeys[1-q])
			key := []meta.JobListKeyType{listKeys[q]}
			if style == 1 {
				m, key = meta.NewMeta(t, listKeys[q]), nil
			}
			n, err := m.DDLJobQueueLen(key...)
			l.Obs++
			l.Assert(err == nil && n == int64(len(s.q[q])), "DDLJobQueueLen(queue %d) = %d,%v want %d", q, n, err, len(s.q[q]))
			for i := 0; i <= len(s.q[q])+1; i++ {
				j, err := m.GetDDLJobByIdx(int64(i), key...)
				l.Obs++
				l.Assert(err == nil, "GetDDLJobByIdx(queue %d, %d) of %d failed: %v", q, i, len(s.q[q]), err)
				if i >= len(s.q[q]) {
					l.Assert(j == nil, "GetDDLJobByIdx(queue %d, %d) beyond the end returned a job", q, i)
					continue
				}
				if d := jobDiff(j, mkJob(s.q[q][i].id, s.q[q][i].kind)); d != "" {
					l.Fail("GetDDLJobByIdx(queue %d, %d): %s", q, i, d)
				}
			}
			all, err := m.GetAllDDLJobsInQueue(key...)
			l.Assert(err == nil && len(all) == len(s.q[q]), "GetAllDDLJobsInQueue(queue %d): %d jobs, %v, want %d", q, len(all), err, len(s.q[q]))
			var got, want []string
			for i, j := range all {
				got = append(got, fmt.Sprint(j.ID, j.Type, j.State, j.Error, string(j.RawArg)))
				w := mkJob(s.q[q][i].id, s.q[q][i].kind)
				want = append(want, fmt.Sprint(w.ID, w.Type, w.State, w.Error, js(w.Arg)))
			}
			sort.Strings(got)
			sort.Strings(want)
			if !reflect.DeepEqual(got, want) {
				l.Fail("GetAllDDLJobsInQueue(queue %d): %q want %q", q, got, want)
			}
		}
	}
	m := meta.NewMeta(t)
	var hs []int64
	for _, id := range ids {
		j, err := m.GetHistoryDDLJob(id)
		k, ok := s.hist[id]
		l.Obs++
		l.Assert(err == nil, "GetHistoryDDLJob(%d): %v", id, err)
		if !ok {
			l.Assert(j == nil, "GetHistoryDDLJob(%d) found a job that was never archived", id)
			continue
		}
		if d := jobDiff(j, mkJob(id, k)); d != "" {
			l.Fail("GetHistoryDDLJob(%d): %s", id, d)
		}
	}
	for id := range s.hist {
		hs = append(hs, id)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	all, err := m.GetAllHistoryDDLJobs()
	l.Assert(err == nil && len(all) == len(hs), "GetAllHistoryDDLJobs: %d jobs, %v, want %d", len(all), err, len(hs))
	seen := map[int64]bool{}
	for _, j := range all {
		k, ok := s.hist[j.ID]
		l.Assert(ok && !seen[j.ID], "GetAllHistoryDDLJobs shows job %d", j.ID)
		seen[j.ID] = true
		if d := jobDiff(j, mkJob(j.ID, k)); d != "" {
			l.Fail("GetAllHistoryDDLJobs: %s", d)
		}
	}
	for n := 0; n <= len(hs)+1; n++ {
		last, err := m.GetLastNHistoryDDLJobs(n)
		want := n
		if want > len(hs) {
			want = len(hs)
		}
		l.Obs++
		l.Assert(err == nil && len(last) == want, "GetLastNHistoryDDLJobs(%d): %d jobs, %v, want %d", n, len(last), err, want)
		for i, j := range last {
			id := hs[len(hs)-1-i]
			if d := jobDiff(j, mkJob(id, s.hist[id])); d != "" {
				l.Fail("GetLastNHistoryDDLJobs(%d)[%d]: %s", n, i, d)
			}
		}
	}
	for _, id := range ids {
		r, ok := s.re[id]
		a, b, err := m.GetDDLReorgHandle(mkJob(id, 0))
		l.Obs++
		switch {
		case !ok:
			l.Assert(err == kv.ErrKeyNotFound, "GetDDLReorgHandle(%d) = %d,%d,%v although nothing is stored", id, a, b, err)
		case r[1] == math.MinInt64:
			l.Assert(err == kv.ErrKeyNotFound && a == r[0], "GetDDLReorgHandle(%d) = %d,%d,%v want start %d only", id, a, b, err, r[0])
		default:
			l.Assert(err == nil && a == r[0] && b == r[1], "GetDDLReorgHandle(%d) = %d,%d,%v want %v", id, a, b, err, r)
		}
	}
}

func jobBFS(ops []jobOp, ids []int64, depth int) hz.BFS {
	n := len(ops)
	return hz.BFS{
		Init: func() []interface{} { return []interface{}{(&jobState{}).clone()} },
		Key:  func(s interface{}) string { return s.(*jobState).snap.Key() },
		NOps: func(interface{}) int { return n },
		Name: func(_ interface{}, op int) string { return ops[op].name },
		Apply: func(si interface{}, op int, l *hz.Log) interface{} {
			s := si.(*jobState).clone()
			db := kvmem.FromSnap(s.snap)
			if !ops[op].do(db, s, l) {
				return nil
			}
			s.snap = db.Snapshot()
			observeJobs(db, s, ids, l)
			return s
		},
		MaxDepth: depth,
	}
}

func init() {
	hz.Register("P30", &hz.Check{
		Level:  "model_checking",
		Rule:   "every reachable store content within the depth over both queues, the history and the reorganisation records (breadth first, transitions are the real catalogue operations with jobs with and without errors), each compared in full with a model; distinct = distinct store contents",
		Assume: []string{"the in-memory provider agrees with Badger (checked by P01-P03)"},
		Run: func(r *hz.R) {
			jobSizes(r)
			ids := []int64{1, 2, 3, 4, 5, 6, 255, 256, 90, 91, 92, 1 << 40}
			if r.Quick {
				r.BFS("queues", jobBFS(queueOps(2, 2), ids, 6))
				r.BFS("history", jobBFS(append(histOps([]int64{1, 255, 256, 1 << 40}, 3), queueOps(1, 1)...), ids, 4))
				r.BFS("reorg", jobBFS(reorgOps([]int64{1, 256}, []int64{0, -1, math.MaxInt64}), ids, 0))
			} else {
				r.BFS("queues", jobBFS(queueOps(3, 3), ids, 7))
				r.BFS("history", jobBFS(append(histOps([]int64{1, 255, 256, 1 << 40}, 3), queueOps(1, 2)...), ids, 6))
				r.BFS("reorg", jobBFS(append(reorgOps([]int64{1, 2, 256}, []int64{0, -1, math.MaxInt64}), histOps([]int64{1}, 1)...), ids, 0))
			}
		},
	})
}

// ---------------------------------------------------------------------- P31

func indexShapes() (r []*model.IndexInfo) {
	for _, red := range []*model.IndexInfoRedundant{nil, {Collection: "c", DB: "d", CID: 4}} {
		for _, cols := range [][]string{nil, {}, {"x"}, {"x", "y"}} {
			for _, u := range []bool{false, true} {
				r = append(r, &model.IndexInfo{ID: 3, Name: "i", JobRedundant: red, Columns: cols, Unique: u, State: osc.StatePublic})
			}
		}
	}
	return
}

func freshIndex(k int, name string) *model.IndexInfo {
	s := indexShapes()
	i := s[k%len(s)]
	i.Name = name
	if i.Columns != nil {
		c := make([]string, len(i.Columns), len(i.Columns)+2) // spare capacity: an append would not move it
		copy(c, i.Columns)
		i.Columns = c
	}
	return i
}

const nIdx = 16

// collection shapes: 0 nil indices, 1 no index, 2.. one index, then two
const nColl = 2 + nIdx + nIdx*3

func freshColl(k int, name string) *model.CollectionInfo {
	c := &model.CollectionInfo{ID: 2, Name: name, State: osc.StateWriteOnly}
	add := func(n int, in string) {
		c.Indices[in] = freshIndex(n, in)
		c.IndexOrder = append(c.IndexOrder, in)
	}
	if k >= 1 {
		c.Indices = map[string]*model.IndexInfo{}
		c.IndexOrder = make([]string, 0, 4)
	}
	if k >= 2 && k < 2+nIdx {
		add(k-2, "i")
	}
	if k >= 2+nIdx {
		k -= 2 + nIdx
		add(k%nIdx, "i")
		add((k/nIdx)*5, "j")
	}
	return c
}

const nDB = 2 + nColl + nColl*4

func freshDB(k int) *model.DBInfo {
	d := &model.DBInfo{ID: 1, Name: "d", State: osc.StateDeleteOnly}
	add := func(n int, cn string) {
		d.Collections[cn] = freshColl(n, cn)
		d.CollectionOrder = append(d.CollectionOrder, cn)
	}
	if k >= 1 {
		d.Collections = map[string]*model.CollectionInfo{}
		d.CollectionOrder = make([]string, 0, 4)
	}
	if k >= 2 && k < 2+nColl {
		add(k-2, "c")
	}
	if k >= 2+nColl {
		k -= 2 + nColl
		add(k%nColl, "c")
		add((k/nColl)*17, "e")
	}
	return d
}

// canon renders a description; nil and empty containers are the same.
func canon(v reflect.Value, b *strings.Builder) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canon(v.Elem(), b)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			canon(v.Field(i), b)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		b.WriteString("map[")
		for _, k := range ks {
			b.WriteString(k.String() + "=")
			canon(v.MapIndex(k), b)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canon(v.Index(i), b)
			b.WriteString(" ")
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

func canonOf(x interface{}) string {
	var b strings.Builder
	canon(reflect.ValueOf(x), &b)
	return b.String()
}

// mutate applies the n-th single mutation reachable from v; it returns how many there are (n beyond: none applied).
func mutate(v reflect.Value, n int) int {
	count := 0
	hit := func(f func()) {
		if count == n {
			f()
		}
		count++
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			hit(func() {
				v.SetMapIndex(reflect.ValueOf("new"), reflect.Zero(v.Type().Elem()))
			})
			for _, k := range keys {
				k := k
				e := v.MapIndex(k)
				hit(func() { v.SetMapIndex(k, reflect.Value{}) })
				walk(e)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			if v.Cap() > v.Len() {
				hit(func() { reflect.Append(v, reflect.ValueOf("appended")) })
				hit(func() { v.Set(reflect.Append(v, reflect.ValueOf("appended"))) })
			}
		case reflect.String:
			if v.CanSet() {
				hit(func() { v.SetString(v.String() + "!") })
			}
		case reflect.Int64, reflect.Int:
			if v.CanSet() {
				hit(func() { v.SetInt(v.Int() + 1000) })
			}
		case reflect.Uint8:
			if v.CanSet() {
				hit(func() { v.SetUint(v.Uint() ^ 1) })
			}
		case reflect.Bool:
			if v.CanSet() {
				hit(func() { v.SetBool(!v.Bool()) })
			}
		}
	}
	walk(v)
	return count
}

// full includes what lies between length and capacity of every slice, where an append may land.
func fullCanon(x interface{}) string {
	var b strings.Builder
	canon(reflect.ValueOf(x), &b)
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
			for _, k := range ks {
				walk(v.MapIndex(k))
			}
		case reflect.Slice:
			w := v.Slice(0, v.Cap())
			fmt.Fprintf(&b, "%v", w.Interface())
		}
	}
	walk(reflect.ValueOf(x))
	return b.String()
}

func checkClone(l *hz.Log, fresh func() (orig, clone interface{})) {
	o, c := fresh()
	want := canonOf(o)
	l.Logf("%s", want)
	if g := canonOf(c); g != want {
		l.Fail("the clone is %s, the original %s", g, want)
	}
	n := mutate(reflect.ValueOf(o), -1)
	for i := 0; i < n; i++ {
		o, c := fresh()
		before := fullCanon(c)
		mutate(reflect.ValueOf(o), i)
		l.Obs++
		if after := fullCanon(c); after != before {
			l.Fail("mutation %d of the original changed the clone:\n%s\n%s", i, before, after)
		}
	}
	_, c = fresh()
	n = mutate(reflect.ValueOf(c), -1)
	for i := 0; i < n; i++ {
		o, c := fresh()
		before := fullCanon(o)
		mutate(reflect.ValueOf(c), i)
		l.Obs++
		if after := fullCanon(o); after != before {
			l.Fail("mutation %d of the clone changed the original:\n%s\n%s", i, before, after)
		}
	}
}

func init() {
	hz.Register("P31", &hz.Check{
		Level: "model_checking",
		Rule:  "every description shape up to two collections and two indexes each, and for each every single mutation of either copy; every add/update on every collection shape; every combination of job and change-log fields through encode and decode, twice",
		Run: func(r *hz.R) {
			r.Enum("clone-index", nIdx, func(i int, l *hz.Log) {
				checkClone(l, func() (interface{}, interface{}) { o := freshIndex(i, "i"); return o, o.Clone() })
			})
			r.Enum("clone-collection", nColl, func(i int, l *hz.Log) {
				checkClone(l, func() (interface{}, interface{}) { o := freshColl(i, "c"); return o, o.Clone() })
			})
			r.Enum("clone-db", nDB, func(i int, l *hz.Log) {
				checkClone(l, func() (interface{}, interface{}) { o := freshDB(i); return o, o.Clone() })
			})
			// every width, to a bound
			var wide [][2]int
			widths := sizes(8, 10, 16, 32)
			if !r.Quick {
				widths = sizes(20, 32, 64, 100)
			}
			for _, n := range widths {
				wide = append(wide, [2]int{n, 0}, [2]int{n, 1}, [2]int{1, n}, [2]int{2, n})
			}
			if !r.Quick {
				for _, n := range sizes(20, 32) {
					wide = append(wide, [2]int{n, n / 2}, [2]int{n / 3, n})
				}
			}
			r.Enum("clone-wide", len(wide), func(i int, l *hz.Log) {
				nc, ni := wide[i][0], wide[i][1]
				mk := func() *model.DBInfo {
					d := freshDB(1)
					for c := 0; c < nc; c++ {
						cn := fmt.Sprint("c", nc-c)
						ci := freshColl(1, cn)
						for k := 0; k < ni; k++ {
							in := fmt.Sprint("i", ni-k)
							if !ci.AddIndexInfo(freshIndex(k, in)) {
								l.Fail("adding index %q to %q failed", in, cn)
							}
						}
						if len(ci.Indices) != ni || len(ci.IndexOrder) != ni {
							l.Fail("%d indexes added, the collection has %d in order %v", ni, len(ci.Indices), ci.IndexOrder)
						}
						d.Collections[cn] = ci
						d.CollectionOrder = append(d.CollectionOrder, cn)
					}
					return d
				}
				checkClone(l, func() (interface{}, interface{}) { o := mk(); return o, o.Clone() })
				b, err := json.Marshal(mk())
				var g model.DBInfo
				if err != nil || json.Unmarshal(b, &g) != nil || canonOf(&g) != canonOf(mk()) {
					l.Fail("%d collections with %d indexes are not what they were after encoding", nc, ni)
				}
			})
			// adding and updating
			names := []string{"i", "j", "k", ""}
			r.Enum("indexes", nColl*len(names)*nIdx*2, func(i int, l *hz.Log) {
				add := i%2 == 0
				i /= 2
				k := i % nIdx
				i /= nIdx
				name := names[i%len(names)]
				shape := i / len(names)
				c, ref := freshColl(shape, "c"), freshColl(shape, "c")
				iif := freshIndex(k, name)
				iif.ID, iif.State = 77, osc.StateWriteReorganization
				exists := ref.Indices[name] != nil
				l.Assert(c.IndexExists(name) == exists && (c.IndexInfo(name) != nil) == exists, "IndexExists(%q) = %v", name, c.IndexExists(name))
				var ok bool
				if add {
					ok = c.AddIndexInfo(iif)
				} else {
					ok = c.UpdateIndexInfo(iif)
				}
				l.Logf("%s add=%v %q -> %v", canonOf(ref), add, name, ok)
				l.Assert(ok == (exists != add), "add=%v of index %q (exists: %v) returned %v", add, name, exists, ok)
				if ok {
					if add {
						ref.IndexOrder = append(ref.IndexOrder, name)
					}
					if ref.Indices == nil {
						ref.Indices = map[string]*model.IndexInfo{}
					}
					w := freshIndex(k, name)
					w.ID, w.State = 77, osc.StateWriteReorganization
					ref.Indices[name] = w
				}
				if g, w := canonOf(c), canonOf(ref); g != w {
					l.Fail("add=%v of index %q left %s, want %s", add, name, g, w)
				}
				// the stored definition is its own copy
				before := fullCanon(c)
				n := mutate(reflect.ValueOf(iif), -1)
				for m := 0; m < n; m++ {
					mutate(reflect.ValueOf(iif), m)
					l.Obs++
					l.Assert(fullCanon(c) == before, "changing the caller's index definition changed the collection")
				}
			})
			cnames := []string{"c", "e", "x", ""}
			r.Enum("collections", nDB*len(cnames), func(i int, l *hz.Log) {
				name := cnames[i%len(cnames)]
				d, ref := freshDB(i/len(cnames)), freshDB(i/len(cnames))
				exists := ref.Collections[name] != nil
				l.Assert(d.CollectionExists(name) == exists && (d.CollectionInfo(name) != nil) == exists, "CollectionExists(%q) = %v", name, d.CollectionExists(name))
				ok := d.UpdateCollectionInfo(freshColl(20, name))
				l.Logf("update %q of %s -> %v", name, canonOf(ref), ok)
				l.Assert(ok == exists, "UpdateCollectionInfo(%q) returned %v", name, ok)
				if ok {
					ref.Collections[name] = freshColl(20, name)
				}
				if g, w := canonOf(d), canonOf(ref); g != w {
					l.Fail("updating collection %q left %s, want %s", name, g, w)
				}
			})
			// serialisation
			errs := []error{nil, errors.New(""), errors.New("x"), errors.New("\"quoted\"\n\u00e9\x00"), fmt.Errorf("wrapped %w", kv.ErrKeyNotFound)}
			args := []interface{}{nil, &model.DBInfo{}, freshDB(nDB - 1), freshIndex(11, "i")}
			ints := []int64{0, -1, math.MaxInt64, math.MinInt64}
			var jobs []*model.Job
			for _, e := range errs {
				for _, a := range args {
					for t := 0; t <= 9; t++ {
						for st := 0; st <= 7; st++ {
							n := ints[(t+st)%4]
							jobs = append(jobs, &model.Job{ID: ints[t%4], Type: model.ActionType(t), State: model.JobState(st), Error: e, ErrorCount: ints[st%4], Arg: a, SchemaState: osc.SchemaState(t % 6), StartTS: uint64(n), DependencyID: n})
						}
					}
				}
			}
			r.Enum("jobs", len(jobs), func(i int, l *hz.Log) {
				w := *jobs[i]
				j := w
				cmp := func(g *model.Job, what string) {
					l.Obs++
					es := func(e error) string {
						if e == nil {
							return "nil"
						}
						return "error:" + e.Error()
					}
					// json text cannot carry the bytes of invalid UTF-8, the errors here are valid
					if g.ID != w.ID || g.Type != w.Type || g.State != w.State || es(g.Error) != es(w.Error) || g.ErrorCount != w.ErrorCount || g.SchemaState != w.SchemaState || g.StartTS != w.StartTS || g.DependencyID != w.DependencyID {
						l.Fail("%s: %+v, want %+v", what, g, w)
					}
					if w.Arg == nil {
						return
					}
					a := reflect.New(reflect.TypeOf(w.Arg).Elem()).Interface()
					if err := g.DecodeArg(a); err != nil || canonOf(a) != canonOf(w.Arg) {
						l.Fail("%s: argument %s (%v), want %s", what, canonOf(a), err, canonOf(w.Arg))
					}
					l.Assert(g.Arg == a, "%s: DecodeArg did not set Arg", what)
				}
				b, err := j.Encode()
				l.Logf("%s %v", b, err)
				l.Assert(err == nil && json.Valid(b), "Encode: %v", err)
				cmp(&j, "the encoded job itself")
				var d model.Job
				l.Assert(d.Decode(b) == nil, "Decode failed")
				cmp(&d, "decoded")
				// into a used record, and again after a change of progress
				u := *mkJob(7, 1)
				u.Error = errors.New("old")
				l.Assert(u.Decode(b) == nil, "Decode failed")
				cmp(&u, "decoded into a used record")
				for _, e := range errs {
					x := d
					x.Error, x.ErrorCount, x.State = e, 5, model.JobStateCancelled
					b2, err := x.Encode()
					l.Assert(err == nil, "Encode: %v", err)
					var y model.Job
					l.Assert(y.Decode(b2) == nil, "Decode of %s failed", b2)
					save := w
					w.Error, w.ErrorCount, w.State = e, 5, model.JobStateCancelled
					cmp(&y, "changed, encoded and decoded")
					w = save
				}
			})
			var diffs []*model.SchemaDiff
			for _, a := range args {
				for t := 0; t <= 9; t++ {
					for _, v := range ints {
						for _, c := range [][]int64{nil, {1}, {5, -1, math.MaxInt64}} {
							diffs = append(diffs, &model.SchemaDiff{Version: v, Type: model.ActionType(t), CollectionIDs: c, Arg: a})
						}
					}
				}
			}
			r.Enum("diffs", len(diffs), func(i int, l *hz.Log) {
				w := diffs[i]
				x := *w
				b, err := x.Encode()
				l.Logf("%s %v", b, err)
				l.Assert(err == nil, "Encode: %v", err)
				for k := 0; k < 2; k++ {
					var d model.SchemaDiff
					l.Assert(d.Decode(b) == nil, "Decode failed")
					if d.Version != w.Version || d.Type != w.Type || fmt.Sprint(d.CollectionIDs) != fmt.Sprint(w.CollectionIDs) {
						l.Fail("decoded %+v, want %+v", d, w)
					}
					b, err = d.Encode()
					l.Assert(err == nil, "Encode: %v", err)
					if w.Arg == nil {
						continue
					}
					a := reflect.New(reflect.TypeOf(w.Arg).Elem()).Interface()
					if err := d.DecodeArg(a); err != nil || canonOf(a) != canonOf(w.Arg) {
						l.Fail("argument %s (%v), want %s", canonOf(a), err, canonOf(w.Arg))
					}
				}
			})
			// states and names
			r.Enum("states", 256, func(i int, l *hz.Log) {
				j := &model.Job{State: model.JobState(i)}
				got := fmt.Sprint(j.IsSynced(), j.IsDone(), j.IsCancelled(), j.IsRollingback(), j.IsCancelling(), j.IsRollbackDone(), j.IsFinished())
				want := fmt.Sprint(i == 6, i == 4, i == 5, i == 2, i == 7, i == 3, i == 4 || i == 3 || i == 5)
				l.Logf("%s %s %s", got, j.State, model.ActionType(i))
				l.Assert(got == want, "state %d: %s want %s", i, got, want)
			})
		},
	})
}
