package core

import (
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

func unlocked(e *m.Env) {
	e.C.Do("VerifyUnlocked", func() {
		if err := e.List.VerifyUnlocked(m.Ctx, 2*time.Second); err != nil {
			e.C.Fatalf("locks are held after the operations returned: %v", err)
		}
	})
}

// reopenMaybe changes the state the list is in before an operation.
func reopenMaybe(e *m.Env) {
	switch rapid.IntRange(0, 3).Draw(e.C.T, "state") {
	case 0:
		e.Release()
	case 1:
		e.Reopen(m.GenCache(e.C))
	}
}

func TestC06(t *testing.T) {
	h.Run(t, "lists after generated histories (also cloned, re-indexed, released, re-opened) are verified, then one generated damage is done to the stored data (a partition, index partition or table lost, truncated or undecodable; an element removed, added, duplicated, replaced, swapped in order, exchanged with another partition, or its index entry changed; table entries dropped or changed) and the re-opened list is verified again; the store must be unchanged by verification; non-trivial: the damaged list has at least 2 partitions", func(c *h.Case) {
		e := m.NewEnv(c, 50)
		history(e, 6, 15)
		if rapid.IntRange(0, 3).Draw(c.T, "re") == 0 {
			e.Reindex()
		}
		reopenMaybe(e)
		before := e.Mem.Snapshot()
		e.Verify()
		if d := m.DiffSnapshots(before, e.Mem.Snapshot()); d != "" {
			c.Fatalf("verification changed the stored data: %s", d)
		}
		s, _ := e.Segments()
		if len(s.Segments) > 1 {
			c.Nontrivial()
			c.Class("multi-partition")
		}
		d := e.GenDamage(0)
		switch {
		case d.Index:
			c.Class("damage:index")
		case d.Table || d.TableEdit:
			c.Class("damage:table")
		case d.Lost:
			c.Class("damage:partition-lost")
		default:
			c.Class("damage:content")
		}
		e.Reopen(m.GenCache(c))
		before = e.Mem.Snapshot()
		var err1, err2 error
		c.Do("Verify", func() { err1 = e.List.Verify(m.Ctx, e.Bs) })
		c.Do("VerifyElements", func() { err2 = e.List.VerifyElements(m.Ctx, e.Bs) })
		if d.IndexTable {
			// Reported or rebuilt.
			if err2 == nil {
				e.All()
				e.Verify()
			}
			unlocked(e)
			return
		}
		if d := m.DiffSnapshots(before, e.Mem.Snapshot()); d != "" {
			c.Fatalf("verification changed the stored data: %s", d)
		}
		if err2 == nil && !(d.TableEdit && err1 != nil) {
			c.Fatalf("verification does not report: %s (Verify: %v, VerifyElements: %v)", d.What, err1, err2)
		}
		unlocked(e)
	})
}

func TestC07(t *testing.T) {
	h.Run(t, "the stored data of lists after generated histories is damaged up to 3 times (see C06), in the running process or before re-opening; re-index (index damage only), repair without and with permission to drop, then full verification, comparison with the readable elements, and further writes; non-trivial: at least 2 partitions", func(c *h.Case) {
		e := m.NewEnv(c, 50)
		history(e, 6, 15)
		reopenMaybe(e)
		s, _ := e.Segments()
		if len(s.Segments) > 1 {
			c.Nontrivial()
			c.Class("multi-partition")
		}
		indexOnly := rapid.IntRange(0, 2).Draw(c.T, "kind") == 0
		kinds := 0
		if indexOnly {
			kinds = 1
		}
		var lost, table, data bool
		content := e.Mo.Sorted()
		for n := rapid.IntRange(0, 3).Draw(c.T, "damages"); n > 0; n-- {
			d := e.GenDamage(kinds)
			lost = d.Unreadable
			table = table || d.Table
			data = data || !d.Index
			content = d.Content
			if d.Table || d.TableEdit || d.IndexTable {
				break
			}
		}
		if data || rapid.Bool().Draw(c.T, "reopen") {
			// Data in memory or in the cache is not read again.
			e.Reopen(m.GenCache(c))
		} else if e.Cache != nil {
			e.Cache.(*m.Cache).Clear()
		}
		if !data && (indexOnly && rapid.Bool().Draw(c.T, "useReindex")) {
			c.Class("reindex")
			e.Reindex()
			e.All()
			e.Verify()
			unlocked(e)
			after(e)
			return
		}
		var err error
		if !rapid.Bool().Draw(c.T, "directly") || !(lost || table) {
			before := e.Mem.Snapshot()
			c.Logf("repair without dropping")
			c.Do("Repair(false)", func() { err = e.List.Repair(m.Ctx, e.Bs, false) })
			unlocked(e)
			switch {
			case table && err == nil:
				content = nil
			case (lost || table) && err == nil:
				c.Fatalf("Repair reports success without permission to drop the unreadable partition")
			case lost || table:
				if d := m.DiffSnapshots(before, e.Mem.Snapshot()); d != "" {
					c.Fatalf("a refused repair changed the stored data: %s", d)
				}
			case err != nil:
				c.Fatalf("Repair failed though all partitions are readable: %v", err)
			}
		}
		if lost || table {
			c.Class("repair-drop")
			c.Logf("repair with dropping")
			c.Do("Repair(true)", func() { err = e.List.Repair(m.Ctx, e.Bs, true) })
			if err != nil {
				c.Fatalf("Repair with permission to drop failed: %v", err)
			}
			if table {
				content = nil
			}
		} else {
			c.Class("repair")
		}
		adopt(e, content)
		e.All()
		e.LenStats()
		e.Verify()
		unlocked(e)
		after(e)
	})
}

// adopt sets the model to the content, where the de-duplication rule applies.
func adopt(e *m.Env, content []m.Elem) {
	c := e.C
	mo, amb := m.BestOf(content)
	e.Mo = mo
	for id, cands := range amb {
		c.Do("GetElements", func() {
			r, err := e.List.GetElements(m.Ctx, e.Bs, []rankdb.ElementID{id}, 0)
			if err != nil || len(r) != 1 {
				c.Fatalf("element %d is missing after repair: %v %v", id, r, err)
			}
			for _, x := range cands {
				if m.Same(x, r[0].Element) {
					e.Mo.Put(x)
					return
				}
			}
			c.Fatalf("element %d has unexpected content after repair: %s", id, m.Str(r[0].Element))
		})
	}
}

// after checks that the list keeps working, also when re-opened.
func after(e *m.Env) {
	for n := rapid.IntRange(0, 3).Draw(e.C.T, "after"); n > 0; n-- {
		e.RandomWrite(10)
		e.All()
	}
	e.Reopen(nil)
	e.All()
	e.Verify()
}
