package core

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// sees checks that elements that were stable are present once, unchanged and in order.
func sees(c *h.Case, what string, got []m.Elem, stable m.Model, ordered bool) {
	seen := map[rankdb.ElementID]bool{}
	var last *m.Elem
	for i := range got {
		want, ok := stable[got[i].ID]
		if !ok {
			continue
		}
		if seen[want.ID] {
			c.Fatalf("%s: element %d, which did not change, is seen twice in %s", what, want.ID, m.Strs(got))
		}
		seen[want.ID] = true
		if !m.Same(got[i], want) {
			c.Fatalf("%s: element that did not change is seen as %s, want %s", what, m.Str(got[i]), m.Str(want))
		}
		if ordered && last != nil && !m.Above(*last, want) {
			c.Fatalf("%s: elements that did not change are seen in another order: %s before %s", what, m.Str(*last), m.Str(want))
		}
		w := want
		last = &w
	}
	for id := range stable {
		if !seen[id] {
			c.Fatalf("%s: element %d, which did not change, is missing in %s", what, id, m.Strs(got))
		}
	}
}

func plain(re rankdb.RankedElements) []m.Elem {
	var r []m.Elem
	for _, e := range re {
		r = append(r, e.Element)
	}
	return r
}

type cop struct {
	kind  string
	elems []m.Elem
	ids   []rankdb.ElementID
	n     int
	flag  bool
}

// delays installs generated delays before storage operations.
func delays(c *h.Case, st *m.Store) {
	pat := rapid.SliceOfN(rapid.IntRange(0, 9), 1, 24).Draw(c.T, "delays")
	var n int64
	st.SetBefore(func(op, set, key string) {
		k := int(atomic.AddInt64(&n, 1))
		switch pat[k%len(pat)] {
		case 0, 1, 2:
			runtime.Gosched()
		case 3, 4:
			time.Sleep(time.Duration(20+k%7*30) * time.Microsecond)
		case 5:
			for i := 0; i < 20; i++ {
				runtime.Gosched()
			}
		}
	})
}

// genOps draws the operations of one worker that owns the given IDs. own is its model, which is updated as the script runs.
func genOps(c *h.Case, p *m.Profile, owned []rankdb.ElementID, own m.Model, maint bool) []cop {
	var res []cop
	cur := own.Clone()
	pick := func(n int, ok func(rankdb.ElementID) bool) []rankdb.ElementID {
		var cand []rankdb.ElementID
		for _, id := range owned {
			if ok(id) {
				cand = append(cand, id)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		at := rapid.IntRange(0, len(cand)-1).Draw(c.T, "at")
		var r []rankdb.ElementID
		for i := 0; i < n && i < len(cand); i++ {
			r = append(r, cand[(at+i)%len(cand)])
		}
		return r
	}
	any := func(rankdb.ElementID) bool { return true }
	kinds := []string{"update", "update", "update", "delete", "insert", "get", "get", "top", "bottom", "score", "own", "own", "len", "pct", "around"}
	if maint {
		kinds = append(kinds, "split", "split", "release", "release", "reindex", "verify", "verifyall", "clone", "backup", "repair", "evict", "save")
	}
	for n := rapid.IntRange(2, 12).Draw(c.T, "nops"); n > 0; n-- {
		o := cop{kind: rapid.SampledFrom(kinds).Draw(c.T, "kind"), flag: rapid.Bool().Draw(c.T, "flag")}
		switch o.kind {
		case "update":
			o.ids = pick(rapid.IntRange(1, 8).Draw(c.T, "n"), any)
			o.elems = p.Elems(c, o.ids)
			for i := range o.elems { // a nil payload keeps the old one
				if o.elems[i].Payload == nil {
					o.elems[i].Payload = cur[o.elems[i].ID].Payload
				}
			}
			cur.Put(o.elems...)
			o.n = rapid.IntRange(0, 3).Draw(c.T, "radius")
		case "insert":
			o.ids = pick(rapid.IntRange(1, 8).Draw(c.T, "n"), func(id rankdb.ElementID) bool { _, ok := cur[id]; return !ok })
			o.elems = p.Elems(c, o.ids)
			cur.Put(o.elems...)
		case "delete":
			o.ids = pick(rapid.IntRange(1, 6).Draw(c.T, "n"), any)
			for _, id := range o.ids {
				delete(cur, id)
			}
		case "score":
			o.n = 1000
		}
		if len(o.ids) == 0 && (o.kind == "update" || o.kind == "insert" || o.kind == "delete") {
			continue
		}
		res = append(res, o)
	}
	return res
}

// runOps executes a worker's operations.
func runOps(c *h.Case, e *m.Env, w int, ops []cop, stable, own m.Model, owned []rankdb.ElementID) {
	var stIDs []rankdb.ElementID
	for _, el := range stable.Sorted() {
		stIDs = append(stIDs, el.ID)
	}
	l, bs, ctx := e.List, e.Bs, m.Ctx
	for i, o := range ops {
		what := fmt.Sprintf("worker %d, operation %d (%s)", w, i, o.kind)
		bad := func(err error) {
			if err != nil {
				c.Fatalf("%s failed: %v", what, err)
			}
		}
		switch o.kind {
		case "update":
			re, err := l.UpdateElements(ctx, bs, m.Copy(o.elems), o.n, o.flag)
			bad(err)
			if o.flag {
				got := plain(re)
				mo := m.Model{}
				mo.Put(o.elems...)
				sees(c, what+" result", got, mo, false)
			}
			own.Put(o.elems...)
		case "insert":
			bad(l.Insert(ctx, bs, m.Copy(o.elems)))
			own.Put(o.elems...)
		case "delete":
			bad(l.DeleteElements(ctx, bs, m.CopyIDs(o.ids)))
			for _, id := range o.ids {
				delete(own, id)
			}
		case "get":
			if len(stIDs) == 0 {
				continue
			}
			re, err := l.GetElements(ctx, bs, m.CopyIDs(stIDs), 0)
			bad(err)
			sees(c, what, plain(re), stable, false)
		case "around":
			if len(stIDs) == 0 {
				continue
			}
			re, err := l.GetElements(ctx, bs, m.CopyIDs(stIDs[len(stIDs)/2:len(stIDs)/2+1]), 3)
			bad(err)
			if len(re) != 1 {
				c.Fatalf("%s: element %d, which did not change, is not found", what, stIDs[len(stIDs)/2])
			}
		case "own":
			re, err := l.GetElements(ctx, bs, m.CopyIDs(owned), 0)
			bad(err)
			sees(c, what+" (nobody else writes these)", plain(re), own, false)
			if len(re) != len(own) {
				c.Fatalf("%s: %d elements found, %d exist (nobody else writes these)", what, len(re), len(own))
			}
		case "top":
			es, err := l.GetRankTop(ctx, bs, 0, 100000)
			if err == rankdb.ErrOffsetOutOfBounds && len(stable) == 0 {
				continue
			}
			bad(err)
			sees(c, what, es, stable, true)
		case "bottom":
			es, err := l.GetRankBottom(ctx, bs, 0, 100000)
			if err == rankdb.ErrOffsetOutOfBounds && len(stable) == 0 {
				continue
			}
			bad(err)
			_ = es // which rank is the bottom depends on the moment
		case "score":
			re, err := l.GetRankScoreDesc(ctx, bs, ^uint64(0), 100000)
			if err == rankdb.ErrOffsetOutOfBounds && len(stable) == 0 {
				continue
			}
			bad(err)
			sees(c, what, plain(re), stable, true)
		case "pct":
			_, err := l.GetPercentile(ctx, bs, 0.5, 2)
			bad(err)
		case "len":
			n, err := l.Len(ctx, bs)
			bad(err)
			if n < len(stable) {
				c.Fatalf("%s: length %d, but %d elements did not change", what, n, len(stable))
			}
			st, err := l.Stats(ctx, bs, o.flag)
			bad(err)
			if st.Elements < len(stable) {
				c.Fatalf("%s: statistics report %d elements, but %d elements did not change", what, st.Elements, len(stable))
			}
		case "split":
			bad(l.ForceSplit(ctx, bs))
		case "release":
			l.ReleaseSegments(ctx)
		case "reindex":
			bad(l.Reindex(ctx, bs))
		case "verify":
			bad(l.Verify(ctx, bs))
		case "verifyall":
			bad(l.VerifyElements(ctx, bs))
		case "repair":
			bad(l.Repair(ctx, bs, false))
		case "evict":
			if mc, ok := e.Cache.(*m.Cache); ok {
				mc.EvictEvery(i, 2)
			}
		case "save":
			wr := rankdb.NewWriterMsg()
			l.RLock()
			err := l.EncodeMsg(wr.Writer())
			l.RUnlock()
			bad(err)
			wr.Close()
		case "clone":
			cl, err := rankdb.NewList(ctx, rankdb.ListID(fmt.Sprintf("clone-%d-%d", w, i)), "clones", bs, rankdb.WithListOption.Clone(l), rankdb.WithListOption.MergeSplitSize(e.Merge, e.Split))
			bad(err)
			es, err := cl.GetRankTop(ctx, bs, 0, 100000)
			if err == rankdb.ErrOffsetOutOfBounds && len(stable) == 0 {
				continue
			}
			bad(err)
			sees(c, what, es, stable, true)
			if err := cl.VerifyElements(ctx, bs); err != nil {
				c.Fatalf("%s: the clone does not verify: %v", what, err)
			}
		case "backup":
			wr := rankdb.NewWriterMsg()
			bad(l.Backup(ctx, bs, wr))
			b := append([]byte(nil), wr.Buffer().Bytes()...)
			wr.Close()
			st := m.NewStore()
			rl, err := rankdb.RestoreList(ctx, st, rankdb.NewReaderMsgp(b), nil, nil)
			bad(err)
			es, err := rl.GetRankTop(ctx, st, 0, 100000)
			if err == rankdb.ErrOffsetOutOfBounds && len(stable) == 0 {
				continue
			}
			bad(err)
			sees(c, what, es, stable, true)
			if err := rl.VerifyElements(ctx, st); err != nil {
				c.Fatalf("%s: the restored backup does not verify: %v", what, err)
			}
		}
	}
}

func TestC10(t *testing.T) {
	h.Run(t, "2-8 goroutines execute generated scripts against one list (updates, inserts and deletes of elements owned by that goroutine, all queries, split/merge, release, re-index, repair, verify, clone, backup, cache eviction) with generated storage delays, in 1-3 rounds; during a round each goroutine must see its own elements as it last wrote them and all elements nobody writes exactly once, unchanged and in order; after each round the list must hold exactly the acknowledged content and verify; deadlocks and crashes are detected; non-trivial: at least two goroutines write, one of them does maintenance, and the list has several partitions", func(c *h.Case) {
		e := m.NewEnv(c, 60)
		if rapid.IntRange(0, 3).Draw(c.T, "presplit") > 0 {
			e.ForceSplit()
		}
		rounds := rapid.IntRange(1, 3).Draw(c.T, "rounds")
		for r := 0; r < rounds; r++ {
			workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
			ids := e.P.PickIDs(c, 1<<20, func(rankdb.ElementID) bool { return true })
			owner := map[rankdb.ElementID]int{}
			owned := make([][]rankdb.ElementID, workers)
			for i, id := range ids {
				// about a third is stable
				k := (i*7 + r) % (workers + (workers+1)/2)
				if k < workers {
					owner[id] = k
					owned[k] = append(owned[k], id)
				} else {
					owner[id] = -1
				}
			}
			stable := m.Model{}
			own := make([]m.Model, workers)
			for i := range own {
				own[i] = m.Model{}
			}
			for id, el := range e.Mo {
				if k, ok := owner[id]; ok && k >= 0 {
					own[k][id] = el
				} else {
					stable[id] = el
				}
			}
			writers, maint := 0, 0
			fns := make([]func(), workers)
			for w := 0; w < workers; w++ {
				w := w
				mt := rapid.IntRange(0, 2).Draw(c.T, "maint") > 0
				ops := genOps(c, e.P, owned[w], own[w], mt)
				wr, mn := false, false
				line := ""
				for _, o := range ops {
					line += " " + o.kind
					if len(o.elems) > 0 {
						line += "[" + m.Strs(o.elems) + "]"
					} else if len(o.ids) > 0 {
						line += fmt.Sprint(o.ids)
					}
					switch o.kind {
					case "update", "insert", "delete":
						wr = true
					case "split", "release", "reindex", "clone", "backup", "repair", "evict", "verify", "verifyall":
						mn = true
					}
				}
				if wr {
					writers++
				}
				if mn {
					maint++
				}
				c.Logf("round %d worker %d:%s", r, w, line)
				fns[w] = func() { runOps(c, e, w, ops, stable, own[w], owned[w]) }
			}
			segs, _ := e.Segments()
			if writers >= 2 && maint > 0 && len(segs.Segments) > 1 {
				c.Nontrivial()
			}
			c.Logf("stable: %v", len(stable))
			delays(c, e.Mem)
			c.Par("concurrent round", fns...)
			e.Mem.SetBefore(nil)
			mo := m.Model{}
			for id, el := range stable {
				mo[id] = el
			}
			for _, o := range own {
				for id, el := range o {
					mo[id] = el
				}
			}
			e.Mo = mo
			e.All()
			e.Verify()
			unlocked(e)
			if rapid.IntRange(0, 2).Draw(c.T, "reopen") == 0 {
				e.Reopen(m.GenCache(c))
				e.All()
			}
		}
	})
}
