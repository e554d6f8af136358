package core

import (
	"testing"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

func TestC11(t *testing.T) {
	h.Run(t, "catalogues of up to 4 lists (equal element IDs, shared cache, same or different storage sets) under interleaved writes, splits, re-index, repair, clone, release, re-open and list deletion; after each step all lists are compared and the set of stored blobs must be exactly what the lists refer to; non-trivial: at least 2 lists, of which one has several partitions, and a list was deleted", func(c *h.Case) {
		w := m.NewWorld(c, 30)
		w.Create(25, nil)
		multi, deleted := false, false
		n := rapid.IntRange(2, 12).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			e := w.Pick()
			switch k := rapid.IntRange(0, 14).Draw(c.T, "step"); {
			case k <= 2 || e == nil:
				if len(w.Envs) < 4 {
					if e != nil && rapid.IntRange(0, 2).Draw(c.T, "clone") == 0 {
						w.Create(0, e)
						c.Class("clone")
					} else {
						w.Create(25, nil)
					}
				}
			case k <= 7:
				c.Logf("on %s:", e.ID)
				c.Class("op:" + e.RandomWrite(12))
			case k == 8:
				c.Logf("on %s:", e.ID)
				e.Reindex()
			case k == 9:
				c.Logf("repair %s", e.ID)
				c.Do("Repair", func() {
					if err := e.List.Repair(m.Ctx, e.Bs, false); err != nil {
						c.Fatalf("Repair of a healthy list: %v", err)
					}
				})
			case k == 10:
				c.Logf("on %s:", e.ID)
				e.Release()
			case k == 11:
				w.Reopen()
			default:
				if rapid.IntRange(0, 3).Draw(c.T, "rel") == 0 {
					e.Release()
				}
				w.Delete(e)
				deleted = true
				c.Class("delete-list")
				old := e.List
				c.Do("use of a deleted list", func() {
					if r, err := old.GetElements(m.Ctx, e.Bs, e.Mo.IDs(), 0); err == nil && len(r) > 0 {
						c.Fatalf("a deleted list still returns elements")
					}
				})
			}
			w.All()
			w.CheckStore()
			for _, id := range w.IDs() {
				if s, _ := w.Envs[id].Segments(); len(s.Segments) > 1 && len(w.Envs) > 1 {
					multi = true
				}
			}
		}
		if multi && deleted {
			c.Nontrivial()
		}
		for _, id := range w.IDs() {
			w.Envs[id].Verify()
		}
		for _, id := range w.IDs() {
			w.Delete(w.Envs[id])
			w.CheckStore()
			w.All()
		}
	})
}

func TestC12(t *testing.T) {
	h.Run(t, "lists after generated histories are cloned (other sizes, other storage set, loaded or released source) once or in chains; clone and source are compared with the model, written independently and deleted; some clones run with the n-th storage operation failing or a source partition damaged and must then fail or be complete; non-trivial: the source has at least 2 partitions", func(c *h.Case) {
		w := m.NewWorld(c, 40)
		src := w.Create(35, nil)
		for n := rapid.IntRange(0, 4).Draw(c.T, "ops"); n > 0; n-- {
			src.RandomWrite(15)
		}
		if rapid.IntRange(0, 2).Draw(c.T, "rel") == 0 {
			src.Release()
		}
		if s, _ := src.Segments(); len(s.Segments) > 1 {
			c.Nontrivial()
			c.Class("multi-partition")
		}
		switch rapid.IntRange(0, 3).Draw(c.T, "mode") {
		case 0: // failing store
			faultyClone(w, src)
			return
		case 1: // damaged source
			if rapid.Bool().Draw(c.T, "damage") {
				damagedClone(w, src)
				return
			}
		}
		cl := w.Create(0, src)
		cl.All()
		cl.Verify()
		cl.LenStats()
		if cl.List.Set != cl.Set || cl.List.SplitSize != cl.Split || cl.List.MergeSize != cl.Merge {
			c.Fatalf("clone has other settings than asked for: %v", cl.List)
		}
		src.All()
		for n := rapid.IntRange(1, 8).Draw(c.T, "after"); n > 0; n-- {
			e := w.Pick()
			switch k := rapid.IntRange(0, 9).Draw(c.T, "step"); {
			case k < 6:
				c.Logf("on %s:", e.ID)
				e.RandomWrite(12)
			case k == 6:
				if len(w.Envs) < 4 {
					w.Create(0, e).Verify()
				}
			case k == 7:
				w.Reopen()
			case k == 8 && len(w.Envs) > 1:
				w.Delete(e)
				c.Class("deleted")
			}
			w.All()
		}
		for _, id := range w.IDs() {
			w.Envs[id].Verify()
			query(w.Envs[id])
		}
	})
}

func cloneWith(w *m.World, src *m.Env) (*rankdb.List, error) {
	c := w.C
	merge, split := m.GenSizes(c)
	opts := []rankdb.ListOption{rankdb.WithListOption.MergeSplitSize(merge, split), rankdb.WithListOption.Clone(src.List)}
	if rapid.Bool().Draw(c.T, "withcache") && w.Cache != nil {
		opts = append(opts, rankdb.WithListOption.Cache(w.Cache))
	}
	set := w.GenSet()
	c.Logf("clone to set %s merge=%d split=%d", set, merge, split)
	var l *rankdb.List
	var err error
	c.Do("NewList clone", func() { l, err = rankdb.NewList(m.Ctx, "clone", set, w.Mem, opts...) })
	return l, err
}

func checkClone(w *m.World, src *m.Env, l *rankdb.List) {
	cl := &m.Env{C: w.C, P: w.P, Mem: w.Mem, Bs: w.Mem, Mo: src.Mo.Clone(), Set: l.Set, ID: l.ID, List: l, Merge: l.MergeSize, Split: l.SplitSize}
	cl.All()
	cl.Verify()
	cl.Reopen(nil)
	cl.All()
	cl.Verify()
}

func faultyClone(w *m.World, src *m.Env) {
	c := w.C
	kind := rapid.SampledFrom([]string{"get", "set", "any"}).Draw(c.T, "fault")
	at := rapid.IntRange(1, 12).Draw(c.T, "at")
	persistent := rapid.Bool().Draw(c.T, "persistent")
	c.Logf("storage operation %d (%s) fails, persistent=%v", at, kind, persistent)
	if cc, ok := w.Cache.(*m.Cache); ok && rapid.Bool().Draw(c.T, "clearcache") {
		cc.Clear()
	}
	n, hit := 0, false
	w.Mem.SetFault(func(op, set, key string) error {
		if kind != "any" && op != kind {
			return nil
		}
		n++
		if n == at || persistent && n > at {
			hit = true
			return m.ErrInjected
		}
		return nil
	})
	l, err := cloneWith(w, src)
	w.Mem.SetFault(nil)
	if hit {
		c.Class("clone-fault-hit")
	}
	if !hit && err != nil {
		c.Fatalf("clone failed though no storage operation failed: %v", err)
	}
	if err == nil {
		checkClone(w, src, l)
	}
	src.All()
	src.Verify()
	if l, err = cloneWith(w, src); err != nil {
		c.Fatalf("clone failed after the store recovered: %v", err)
	}
	checkClone(w, src, l)
}

func damagedClone(w *m.World, src *m.Env) {
	c := w.C
	s, _ := src.Segments()
	i := rapid.IntRange(0, len(s.Segments)-1).Draw(c.T, "partition")
	w.Mem.Drop(src.Set, s.Segments[i].StorageKey())
	c.Logf("partition %d lost", i)
	w.Reopen()
	if _, err := cloneWith(w, src); err == nil {
		c.Fatalf("clone of a list with an unreadable partition reports success")
	}
	c.Class("damaged-source")
	unlocked(src)
}
