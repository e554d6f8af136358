package core

import (
	"context"
	"sync"
	"testing"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// faultPlan is a generated storage failure.
type faultPlan struct {
	op         string // get, set, del, any
	at         int
	persistent bool
	after      bool // the operation is done, but reported as failed
	cancel     bool // the context is cancelled instead

	mu     sync.Mutex
	n      int
	hits   int
	cancFn func()
}

func genFault(c *h.Case) *faultPlan {
	f := &faultPlan{
		op:         rapid.SampledFrom([]string{"get", "set", "set", "del", "any"}).Draw(c.T, "faultop"),
		at:         rapid.IntRange(1, 10).Draw(c.T, "at"),
		persistent: rapid.IntRange(0, 2).Draw(c.T, "persistent") == 0,
		after:      rapid.IntRange(0, 3).Draw(c.T, "after") == 0,
	}
	f.cancel = rapid.IntRange(0, 9).Draw(c.T, "cancel") == 0
	c.Logf("fault: %s number %d, persistent=%v after=%v cancel=%v", f.op, f.at, f.persistent, f.after, f.cancel)
	return f
}

func (f *faultPlan) fn(op, set, key string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.op != "any" && f.op != op {
		return nil
	}
	f.n++
	if f.n != f.at && !(f.persistent && f.n > f.at) {
		return nil
	}
	f.hits++
	if f.cancel {
		f.cancFn()
		return nil
	}
	if f.after && op != "get" {
		return m.ErrAfter
	}
	return m.ErrInjected
}

// with runs fn with the fault active. It returns how often it struck.
func (f *faultPlan) with(mem *m.Store, fn func(ctx context.Context)) int {
	ctx, cancel := context.WithCancel(m.Ctx)
	defer cancel()
	f.cancFn = cancel
	mem.CtxAware = f.cancel
	mem.SetFault(f.fn)
	fn(ctx)
	mem.SetFault(nil)
	mem.CtxAware = false
	return f.hits
}

func TestC09(t *testing.T) {
	h.Run(t, "two lists sharing a store and cache; one operation of every kind (update, insert, delete, populate, split, re-index, repair, verify, queries, clone, delete list, save catalogue), starting loaded, released or with evicted cache, runs while the n-th storage read/write/delete (or all from then on) fails before or after taking effect, or its context is cancelled; success must be complete and durable, failure must leave the other list and untouched elements intact (for failed writes after repair), and everything must keep working; non-trivial: the fault struck during the operation", func(c *h.Case) {
		w := m.NewWorld(c, 40)
		e := w.Create(30, nil)
		other := w.Create(15, nil)
		for n := rapid.IntRange(0, 4).Draw(c.T, "ops"); n > 0; n-- {
			e.RandomWrite(15)
		}
		if rapid.Bool().Draw(c.T, "osplit") {
			other.ForceSplit()
		}
		rounds := rapid.IntRange(1, 3).Draw(c.T, "rounds")
		for r := 0; r < rounds; r++ {
			if _, ok := w.Envs[e.ID]; !ok {
				break
			}
			switch rapid.IntRange(0, 3).Draw(c.T, "start") {
			case 0:
				e.Release()
			case 1:
				if cc, ok := w.Cache.(*m.Cache); ok {
					c.Logf("evict cache")
					cc.Clear()
				}
			case 2:
				w.Reopen()
				e, other = w.Envs[e.ID], w.Envs[other.ID]
			}
			faultRound(c, w, e)
			other.All()
			other.Verify()
		}
		w.Reopen()
		for _, id := range w.IDs() {
			w.Envs[id].All()
			w.Envs[id].Verify()
		}
	})
}

func faultRound(c *h.Case, w *m.World, e *m.Env) {
	any := func(rankdb.ElementID) bool { return true }
	old := e.Mo.Clone()
	next := e.Mo.Clone()
	touched := map[rankdb.ElementID]bool{}
	var op func(ctx context.Context) error
	readOnly, all := false, false
	name := ""
	var check func()
	switch k := rapid.IntRange(0, 13).Draw(c.T, "faulted"); k {
	case 0, 1, 2:
		name = "update"
		es := e.P.Elems(c, e.P.PickIDs(c, rapid.IntRange(1, 15).Draw(c.T, "n"), any))
		radius, results := rapid.IntRange(0, 2).Draw(c.T, "radius"), rapid.Bool().Draw(c.T, "results")
		c.Logf("update under fault: results=%v %s", results, m.Strs(es))
		for _, x := range es {
			touched[x.ID] = true
			if o, ok := next[x.ID]; ok && x.Payload == nil {
				x.Payload = o.Payload
			}
			next.Put(x)
		}
		var res rankdb.RankedElements
		op = func(ctx context.Context) (err error) {
			res, err = e.List.UpdateElements(ctx, e.Bs, m.Copy(es), radius, results)
			return
		}
		check = func() {
			if results {
				var ids []rankdb.ElementID
				for _, x := range es {
					ids = append(ids, x.ID)
				}
				m.CheckRanked(c, next, res, ids, radius, "UpdateElements that reported success")
			}
		}
	case 3, 4:
		name = "insert"
		es := e.P.Elems(c, e.P.PickIDs(c, rapid.IntRange(1, 15).Draw(c.T, "n"), func(id rankdb.ElementID) bool { _, ok := old[id]; return !ok }))
		c.Logf("insert under fault: %s", m.Strs(es))
		next.Put(es...)
		for _, x := range es {
			touched[x.ID] = true
		}
		op = func(ctx context.Context) error { return e.List.Insert(ctx, e.Bs, m.Copy(es)) }
	case 5, 6:
		name = "delete"
		ids := e.P.PickIDs(c, rapid.IntRange(1, 15).Draw(c.T, "n"), any)
		c.Logf("delete under fault: %v", ids)
		for _, id := range ids {
			delete(next, id)
			touched[id] = true
		}
		op = func(ctx context.Context) error { return e.List.DeleteElements(ctx, e.Bs, m.CopyIDs(ids)) }
	case 7:
		name, all = "populate", true
		es := e.P.Elems(c, e.P.PickIDs(c, rapid.IntRange(0, 25).Draw(c.T, "n"), any))
		c.Logf("populate under fault: %s", m.Strs(es))
		next = m.Model{}
		next.Put(es...)
		op = func(ctx context.Context) error { return e.List.Populate(ctx, e.Bs, m.Copy(es)) }
	case 8, 9:
		name = "split"
		c.Logf("split under fault")
		op = func(ctx context.Context) error { return e.List.ForceSplit(ctx, e.Bs) }
	case 10:
		name = "reindex"
		c.Logf("reindex under fault")
		op = func(ctx context.Context) error { return e.List.Reindex(ctx, e.Bs) }
	case 11:
		name = "repair"
		c.Logf("repair under fault")
		op = func(ctx context.Context) error { return e.List.Repair(ctx, e.Bs, false) }
	case 12:
		name, readOnly = "read", true
		ids := e.P.PickIDs(c, rapid.IntRange(1, 8).Draw(c.T, "n"), any)
		kind := rapid.IntRange(0, 7).Draw(c.T, "kind")
		c.Logf("query %d under fault: %v", kind, ids)
		op = func(ctx context.Context) error { return faultedQuery(c, ctx, e, kind, ids) }
	case 13:
		switch rapid.IntRange(0, 1).Draw(c.T, "kind") {
		case 0:
			name, readOnly = "save-catalogue", true
			c.Logf("save catalogue under fault")
			op = func(ctx context.Context) error { return w.Mgr.SaveLists(ctx, false) }
			check = func() {
				w.Reopen()
			}
		case 1:
			name = "delete-list"
			c.Logf("delete list under fault")
			op = func(ctx context.Context) error { return w.Mgr.DeleteList(ctx, e.ID) }
		}
	}
	f := genFault(c)
	var err error
	hits := f.with(w.Mem, func(ctx context.Context) {
		c.Do(name+" under fault", func() { err = op(ctx) })
	})
	if hits > 0 {
		c.Nontrivial()
		c.Class("fault:" + name)
		if err != nil {
			c.Class("failed:" + name)
		}
	}
	c.Logf("-> hits=%d err=%v", hits, err != nil)
	if name == "delete-list" {
		delete(w.Envs, e.ID)
		if _, ok := w.Mgr.Lists.ByID(e.ID); ok && err == nil {
			c.Fatalf("deleted list is still in the catalogue")
		}
		w.Mgr.Lists.Delete(e.ID)
		return
	}
	if err == nil {
		e.Mo = next
		if check != nil {
			check()
		}
		e.All()
		e.Verify()
		// Durable: a new process sees the same.
		l := m.Reload(c, e.Bs, e.List, nil)
		x := *e
		x.List = l
		x.All()
		x.Verify()
		return
	}
	if hits == 0 {
		c.Fatalf("%s failed though no storage operation failed: %v", name, err)
	}
	if readOnly {
		e.All()
		e.Verify()
		return
	}
	unlocked(e)
	// Everything must answer now, and repair must bring back what was not touched.
	c.Do("queries after failure", func() {
		_, _ = e.List.GetRankTop(m.Ctx, e.Bs, 0, 10)
		_, _ = e.List.GetRankBottom(m.Ctx, e.Bs, 0, 10)
		_, _ = e.List.GetElements(m.Ctx, e.Bs, old.IDs(), 2)
		_, _ = e.List.GetElements(m.Ctx, e.Bs, next.IDs(), 2)
		_, _ = e.List.GetRankScoreDesc(m.Ctx, e.Bs, 5, 10)
		_, _ = e.List.GetPercentile(m.Ctx, e.Bs, 0.5, 3)
		_ = e.List.Verify(m.Ctx, e.Bs)
		_ = e.List.VerifyElements(m.Ctx, e.Bs)
	})
	if rapid.Bool().Draw(c.T, "evict") {
		if cc, ok := w.Cache.(*m.Cache); ok {
			cc.Clear()
		}
	}
	c.Do("repair after failure", func() {
		if err := e.List.Repair(m.Ctx, e.Bs, false); err != nil {
			c.Fatalf("repair after a failed %s: %v", name, err)
		}
	})
	var got rankdb.Elements
	c.Do("read after repair", func() {
		var err error
		got, err = e.List.GetRankTop(m.Ctx, e.Bs, 0, len(old)+len(next)+10)
		if err != nil && err != rankdb.ErrOffsetOutOfBounds {
			c.Fatalf("reading after repair: %v", err)
		}
	})
	mo := m.Model{}
	for _, x := range got {
		if _, dup := mo[x.ID]; dup {
			c.Fatalf("element %d is in the list twice after repair", x.ID)
		}
		mo.Put(x)
	}
	same := func(want m.Model) string {
		return m.DiffElems(mo.Sorted(), want.Sorted())
	}
	if all {
		if d1, d2 := same(old), same(next); d1 != "" && d2 != "" {
			c.Fatalf("after a failed %s the list holds neither the old nor the new content: %s; %s", name, d1, d2)
		}
	} else {
		want := m.Model{}
		for id, x := range old {
			if !touched[id] {
				want.Put(x)
			}
		}
		for id := range touched {
			x, ok := mo[id]
			if !ok {
				continue
			}
			o, inOld := old[id]
			n, inNext := next[id]
			if !(inOld && m.Same(x, o)) && !(inNext && m.Same(x, n)) {
				c.Fatalf("after a failed %s element %d has a value nobody wrote: %s", name, id, m.Str(x))
			}
			want.Put(x)
		}
		if d := same(want); d != "" {
			c.Fatalf("after a failed %s and repair, elements that were not touched changed: %s", name, d)
		}
	}
	e.Mo = mo
	e.All()
	e.LenStats()
	e.Verify()
	unlocked(e)
}

// faultedQuery runs a query that must return the right answer or an error.
func faultedQuery(c *h.Case, ctx context.Context, e *m.Env, kind int, ids []rankdb.ElementID) error {
	sorted := e.Mo.Sorted()
	switch kind {
	case 0, 1:
		r, err := e.List.GetElements(ctx, e.Bs, m.CopyIDs(ids), 2)
		if err == nil {
			m.CheckRanked(c, e.Mo, r, ids, 2, "GetElements that reported success")
		}
		return err
	case 2:
		r, err := e.List.GetRankTop(ctx, e.Bs, 0, len(sorted)+1)
		if err == rankdb.ErrOffsetOutOfBounds && len(sorted) == 0 {
			return nil
		}
		if err == nil {
			if d := m.DiffElems(r, sorted); d != "" {
				c.Fatalf("GetRankTop reported success under a storage failure, but: %s", d)
			}
		}
		return err
	case 3:
		if len(sorted) == 0 {
			return nil
		}
		r, err := e.List.GetRankBottom(ctx, e.Bs, len(sorted)-1, len(sorted)+1)
		if err == nil && len(r) != len(sorted) {
			c.Fatalf("GetRankBottom reported success under a storage failure, but returned %d of %d", len(r), len(sorted))
		}
		return err
	case 4:
		r, err := e.List.GetRankScoreDesc(ctx, e.Bs, 1<<64-1, len(sorted)+1)
		if err == nil && len(r) != len(sorted) {
			c.Fatalf("GetRankScoreDesc reported success under a storage failure, but returned %d of %d", len(r), len(sorted))
		}
		return err
	case 5:
		_, err := e.List.GetPercentile(ctx, e.Bs, 0.5, 2)
		return err
	case 6:
		return e.List.VerifyElements(ctx, e.Bs)
	}
	n, err := e.List.Len(ctx, e.Bs)
	if err == nil && n != len(sorted) {
		c.Fatalf("Len reported success under a storage failure, but %d, want %d", n, len(sorted))
	}
	return err
}
