package m

import (
	"fmt"
	"sort"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
)

// World is a catalogue of several lists with their models in one store.
type World struct {
	C     *h.Case
	Mem   *Store
	Cache rankdb.Cache
	Mgr   *rankdb.Manager
	Envs  map[rankdb.ListID]*Env
	P     *Profile
	Meta  map[string]string // metadata of the next list, if not nil
	next  int
}

// NewWorld creates an empty catalogue.
func NewWorld(c *h.Case, nIDs int) *World {
	w := &World{C: c, Mem: NewStore(), Cache: GenCache(c), Envs: map[rankdb.ListID]*Env{}, P: GenProfile(c, nIDs)}
	w.Mgr = w.newMgr(w.Cache)
	return w
}

func (w *World) newMgr(cache rankdb.Cache) *rankdb.Manager {
	m, err := rankdb.NewManager(w.Mem, "catalogue")
	if err != nil {
		w.C.Fatalf("NewManager: %v", err)
	}
	if err := m.NewLists(cache); err != nil {
		w.C.Fatalf("NewLists: %v", err)
	}
	return m
}

// NewMgr replaces the manager by a new one.
func (w *World) NewMgr() { w.Mgr = w.newMgr(w.Cache) }

// IDs returns the list IDs in order.
func (w *World) IDs() []rankdb.ListID {
	var res []rankdb.ListID
	for id := range w.Envs {
		res = append(res, id)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// Pick draws one of the lists.
func (w *World) Pick() *Env {
	ids := w.IDs()
	if len(ids) == 0 {
		return nil
	}
	return w.Envs[rapid.SampledFrom(ids).Draw(w.C.T, "list")]
}

// GenSet draws a storage set name.
func (w *World) GenSet() string {
	return rapid.SampledFrom([]string{"set", "set", "other", "s"}).Draw(w.C.T, "set")
}

// Create adds a new list. If clone is given its content is cloned.
func (w *World) Create(maxElems int, clone *Env) *Env {
	c := w.C
	w.next++
	e := &Env{C: c, P: w.P, Mem: w.Mem, Bs: w.Mem, Cache: w.Cache, Mo: Model{}, Set: w.GenSet(),
		ID: rankdb.ListID(fmt.Sprintf("list-%d", w.next))}
	e.Merge, e.Split = GenSizes(c)
	meta := map[string]string{"n": fmt.Sprint(w.next)}
	if w.Meta != nil {
		meta, w.Meta = w.Meta, nil
	}
	opts := []rankdb.ListOption{
		rankdb.WithListOption.MergeSplitSize(e.Merge, e.Split),
		rankdb.WithListOption.LoadIndex(rapid.Bool().Draw(c.T, "loadindex")),
		rankdb.WithListOption.Metadata(meta),
		rankdb.WithListOption.Cache(w.Cache),
	}
	if w.Cache == nil {
		opts = opts[:3]
	}
	var es []Elem
	if clone != nil {
		c.Logf("clone %s to %s set=%s merge=%d split=%d", clone.ID, e.ID, e.Set, e.Merge, e.Split)
		opts = append(opts, rankdb.WithListOption.Clone(clone.List))
	} else {
		es = w.P.Elems(c, w.P.PickIDs(c, rapid.IntRange(0, maxElems).Draw(c.T, "n"), func(rankdb.ElementID) bool { return true }))
		c.Logf("create %s set=%s merge=%d split=%d %s", e.ID, e.Set, e.Merge, e.Split, Strs(es))
	}
	c.Do("NewList", func() {
		l, err := rankdb.NewList(Ctx, e.ID, e.Set, e.Bs, opts...)
		if err != nil {
			c.Fatalf("NewList failed: %v", err)
		}
		e.List = l
	})
	w.Mgr.Lists.Add(e.List)
	w.Envs[e.ID] = e
	if clone != nil {
		e.Mo = clone.Mo.Clone()
	} else if len(es) > 0 {
		e.Populate(es)
	}
	return e
}

// Delete removes a list through the catalogue.
func (w *World) Delete(e *Env) {
	c := w.C
	c.Logf("delete list %s", e.ID)
	c.Do("DeleteList", func() {
		if err := w.Mgr.DeleteList(Ctx, e.ID); err != nil {
			c.Fatalf("DeleteList: %v", err)
		}
	})
	delete(w.Envs, e.ID)
}

// CheckStore checks that exactly the data of the existing lists is stored.
func (w *World) CheckStore() {
	c := w.C
	used := map[string]bool{}
	for _, id := range w.IDs() {
		e := w.Envs[id]
		for k := range UsedKeys(e) {
			used[e.Set+"\x00"+k] = true
		}
	}
	snap := w.Mem.Snapshot()
	for k := range snap {
		if len(k) > 9 && k[:9] == "catalogue" {
			continue
		}
		if !used[k] {
			c.Fatalf("blob %q is stored, but no list refers to it", k)
		}
	}
	for k := range used {
		if _, ok := snap[k]; !ok {
			c.Fatalf("blob %q is used by a list, but not stored", k)
		}
	}
}

// Reopen saves and loads the catalogue.
func (w *World) Reopen() {
	c := w.C
	w.Cache = GenCache(c)
	c.Logf("reopen catalogue, cache=%v", w.Cache != nil)
	c.Do("reopen", func() {
		if err := w.Mgr.SaveLists(Ctx, false); err != nil {
			c.Fatalf("SaveLists: %v", err)
		}
		w.Mgr = w.newMgr(w.Cache)
		if err := w.Mgr.LoadLists(Ctx, w.Cache); err != nil {
			c.Fatalf("LoadLists: %v", err)
		}
	})
	w.Adopt()
}

// Adopt takes the lists from the catalogue.
func (w *World) Adopt() {
	c := w.C
	all := w.Mgr.Lists.All()
	if len(all) != len(w.Envs) {
		c.Fatalf("catalogue holds %v, want %v", all, w.IDs())
	}
	for _, id := range w.IDs() {
		e := w.Envs[id]
		l, ok := w.Mgr.Lists.ByID(id)
		if !ok {
			c.Fatalf("list %s is not in the catalogue %v", id, all)
		}
		e.List, e.Cache = l, w.Cache
	}
}

// All compares all lists.
func (w *World) All() {
	for _, id := range w.IDs() {
		w.Envs[id].All()
	}
}
