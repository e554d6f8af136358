package core

import (
	"fmt"
	"testing"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// query performs one generated query of every kind.
func query(e *m.Env) {
	c := e.C
	n := len(e.Mo)
	e.Top(rapid.IntRange(0, n).Draw(c.T, "off"), rapid.IntRange(1, 10).Draw(c.T, "limit"))
	e.Bottom(rapid.IntRange(0, n).Draw(c.T, "off"), rapid.IntRange(1, 10).Draw(c.T, "limit"))
	e.ScoreDesc(e.P.ProbeScore(c, e.Mo), rapid.IntRange(1, 10).Draw(c.T, "limit"))
	e.Percentile(rapid.Float64Range(0, 1).Draw(c.T, "p"), rapid.IntRange(0, 4).Draw(c.T, "radius"))
	e.Lookup([]rankdb.ElementID{e.P.ID(c), e.P.ID(c)}, rapid.IntRange(0, 6).Draw(c.T, "radius"))
	e.LenStats()
}

func TestC08(t *testing.T) {
	h.Run(t, "histories of writes interleaved with releasing, pruning, evicting cached partitions (all, every n-th, capacity 0..3), re-opening with another or no cache, and re-opening from a catalogue that was saved before later element writes; every query is compared after each step; non-trivial: at least 2 partitions and at least one re-open or release after a write", func(c *h.Case) {
		e := m.NewEnv(c, 45)
		// A catalogue that is only saved now and then.
		var mgr *rankdb.Manager
		saved := false
		newMgr := func(cache rankdb.Cache) *rankdb.Manager {
			mg, err := rankdb.NewManager(e.Bs, "catalogue")
			if err != nil {
				c.Fatalf("NewManager: %v", err)
			}
			if err := mg.NewLists(cache); err != nil {
				c.Fatalf("NewLists: %v", err)
			}
			return mg
		}
		mgr = newMgr(e.Cache)
		mgr.Lists.Add(e.List)
		wrote, reloaded := false, false
		n := rapid.IntRange(2, 12).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 14).Draw(c.T, "step"); k {
			case 0, 1, 2, 3, 4, 5:
				op := e.RandomWrite(15)
				if op == "populate" {
					saved = false
				}
				wrote = true
			case 6:
				if rapid.Bool().Draw(c.T, "prune") {
					c.Logf("prune")
					c.Do("Prune", func() {
						if err := mgr.Lists.Prune(m.Ctx); err != nil {
							c.Fatalf("Prune: %v", err)
						}
					})
				} else {
					e.Release()
				}
				reloaded = reloaded || wrote
			case 7, 8:
				if cc, ok := e.Cache.(*m.Cache); ok {
					if rapid.Bool().Draw(c.T, "all") {
						c.Logf("evict all")
						cc.Clear()
					} else {
						a, b := rapid.IntRange(0, 3).Draw(c.T, "start"), rapid.IntRange(1, 4).Draw(c.T, "every")
						c.Logf("evict %d %d", a, b)
						cc.EvictEvery(a, b)
					}
				}
			case 9, 10:
				c.Logf("save catalogue")
				c.Do("SaveLists", func() {
					if err := mgr.SaveLists(m.Ctx, false); err != nil {
						c.Fatalf("SaveLists: %v", err)
					}
				})
				saved = true
			case 11, 12:
				if !saved {
					continue
				}
				cache := m.GenCache(c)
				c.Logf("load catalogue saved earlier, cache=%v", cache != nil)
				c.Class("load-older-catalogue")
				mgr = newMgr(cache)
				c.Do("LoadLists", func() {
					if err := mgr.LoadLists(m.Ctx, cache); err != nil {
						c.Fatalf("LoadLists: %v", err)
					}
				})
				l, ok := mgr.Lists.ByID(e.ID)
				if !ok || len(mgr.Lists.All()) != 1 {
					c.Fatalf("the loaded catalogue holds %v", mgr.Lists.All())
				}
				e.List, e.Cache = l, cache
				reloaded = reloaded || wrote
				if fmt.Sprint(l.Metadata) != "map[k:v]" || l.Set != e.Set || l.MergeSize != e.Merge || l.SplitSize != e.Split {
					c.Fatalf("list settings changed: %v", l)
				}
			case 13:
				e.Reopen(m.GenCache(c))
				mgr = newMgr(e.Cache)
				mgr.Lists.Add(e.List)
				reloaded = reloaded || wrote
			case 14:
				e.Reindex()
				saved = false
			}
			e.All()
			query(e)
		}
		s, _ := e.Segments()
		if len(s.Segments) > 1 && reloaded {
			c.Nontrivial()
		}
		e.Verify()
	})
}
