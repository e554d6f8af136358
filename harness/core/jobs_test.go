package core

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// tooBig reports a partition that can be split, but is larger than the split size.
func tooBig(e *m.Env) string {
	s, idx := e.Segments()
	chk := func(what string, sizes []int, elems []m.Elem) string {
		pos := 0
		for i, n := range sizes {
			if pos+n > len(elems) {
				return "changing"
			}
			part := elems[pos : pos+n]
			pos += n
			if n > e.Split && n > 1 {
				mid, last := part[(n+1)/2-1], part[n-1]
				if mid.Score != last.Score || mid.TieBreaker != last.TieBreaker {
					return fmt.Sprintf("%s partition %d holds %d elements (split size %d): %v", what, i, n, e.Split, sizes)
				}
			}
		}
		return ""
	}
	var ie []m.Elem
	ids := e.Mo.IDs()
	for i := len(ids) - 1; i >= 0; i-- {
		ie = append(ie, m.Elem{Score: uint64(ids[i])})
	}
	if r := chk("element", m.SizesOf(s), e.Mo.Sorted()); r != "" {
		return r
	}
	return chk("index", m.SizesOf(idx), ie)
}

func TestC27(t *testing.T) {
	h.Run(t, "1-3 lists with the manager's saver, pruner and splitter running at generated short intervals (with storage delays, transient failures of catalogue writes, with or without backup copies) while generated queries, writes, list creations and deletions run sequentially and from 1-5 goroutines; results are compared with the model throughout, grown lists must get split, then the jobs are shut down in stages as the server does, must acknowledge and stay quiet, and the catalogue they left is loaded in a new manager and compared completely; non-trivial: a list with several partitions and at least 2 jobs with short intervals", func(c *h.Case) {
		w := m.NewWorld(c, 40)
		var back *m.Store
		if rapid.Bool().Draw(c.T, "backup") {
			back = m.NewStore()
			w.Mgr.Backup = blobstore.StoreWithSet(back, bakSet)
			w.Mgr.BackupEvery = rapid.IntRange(0, 3).Draw(c.T, "backupevery")
		}
		for n := rapid.IntRange(1, 3).Draw(c.T, "lists"); n > 0; n-- {
			w.Create(30, nil)
		}
		durs := []time.Duration{0, 300 * time.Microsecond, time.Millisecond, 4 * time.Millisecond}
		save := rapid.SampledFrom(durs).Draw(c.T, "save")
		prune := rapid.SampledFrom(durs).Draw(c.T, "prune")
		c.Logf("jobs: save every %v, prune every %v, backup=%v every %d", save, prune, back != nil, w.Mgr.BackupEvery)
		saveCh, pruneCh, splitCh := make(chan chan struct{}), make(chan chan struct{}), make(chan chan struct{})
		w.Mgr.StartIntervalSaver(m.Ctx, save, saveCh)
		w.Mgr.StartListPruner(m.Ctx, prune, pruneCh)
		w.Mgr.StartListSplitter(m.Ctx, w.Mem, splitCh)
		stopped := map[chan chan struct{}]bool{}
		var smu sync.Mutex
		stop := func(name string, ch chan chan struct{}) {
			smu.Lock()
			again := stopped[ch]
			stopped[ch] = true
			smu.Unlock()
			if again {
				return
			}
			ack := make(chan struct{})
			wait := 60 * time.Second
			if h.Failing() {
				wait = 5 * time.Second
			}
			select {
			case ch <- ack:
			case <-time.After(wait):
				c.Fatalf("%s did not accept the shutdown request for %v", name, wait)
			}
			select {
			case <-ack:
			case <-time.After(wait):
				c.Fatalf("%s did not acknowledge the shutdown for %v", name, wait)
			}
		}
		c.Defer(func() { // after a failure, do not leave jobs behind
			for _, ch := range []chan chan struct{}{saveCh, pruneCh, splitCh} {
				if !stopped[ch] {
					select {
					case ch <- make(chan struct{}):
					case <-time.After(2 * time.Second):
					}
				}
			}
		})
		delays(c, w.Mem)
		var failing int32
		w.Mem.SetFault(func(op, set, key string) error {
			if set == "catalogue" && op == "set" && atomic.LoadInt32(&failing) != 0 {
				return m.ErrInjected
			}
			return nil
		})
		multi := false
		for n := rapid.IntRange(1, 6).Draw(c.T, "steps"); n > 0; n-- {
			e := w.Pick()
			switch k := rapid.IntRange(0, 12).Draw(c.T, "step"); {
			case k == 0:
				if len(w.Envs) < 4 {
					w.Create(30, nil)
				}
			case k == 1:
				if len(w.Envs) > 1 {
					w.Delete(e)
				}
			case k == 2:
				v := int32(rapid.IntRange(0, 1).Draw(c.T, "failing"))
				c.Logf("catalogue writes fail: %v", v != 0)
				atomic.StoreInt32(&failing, v)
			case k <= 6:
				c.Logf("on %s:", e.ID)
				c.Class("op:" + e.RandomWrite(20))
				e.All()
			case k == 7: // grow
				ids := e.P.PickIDs(c, 1<<20, func(rankdb.ElementID) bool { return true })
				c.Logf("grow %s", e.ID)
				es := e.P.Elems(c, ids)
				e.Update(es, 0, false)
				deadline := time.Now().Add(30 * time.Second)
				for i := 0; ; i++ {
					var big string
					c.Do("read partition tables", func() { big = tooBig(e) })
					if big == "" {
						break
					}
					if time.Now().After(deadline) && i > 50 {
						c.Fatalf("list %s is not split by the splitter: %s", e.ID, big)
					}
					// Any write may request another round of splitting.
					x := es[0]
					x.Payload = e.Mo[x.ID].Payload
					c.Do("UpdateElements", func() {
						if _, err := e.List.UpdateElements(m.Ctx, e.Bs, m.Copy([]m.Elem{x}), 0, false); err != nil {
							c.Fatalf("UpdateElements: %v", err)
						}
					})
					e.Mo.Put(x)
					time.Sleep(time.Duration(i) * 100 * time.Microsecond)
				}
				e.All()
				c.Class("grown")
			default: // concurrent round over all lists
				var fns []func()
				var done []func()
				for _, id := range w.IDs() {
					e := w.Envs[id]
					workers := rapid.IntRange(1, 3).Draw(c.T, "workers")
					ids := e.P.PickIDs(c, 1<<20, func(rankdb.ElementID) bool { return true })
					owned := make([][]rankdb.ElementID, workers)
					own := make([]m.Model, workers)
					stable := m.Model{}
					for i := range own {
						own[i] = m.Model{}
					}
					for i, id := range ids {
						if k := i % (workers + 1); k < workers {
							owned[k] = append(owned[k], id)
							if el, ok := e.Mo[id]; ok {
								own[k][id] = el
							}
						} else if el, ok := e.Mo[id]; ok {
							stable[id] = el
						}
					}
					for k := range own {
						k := k
						ops := genOps(c, e.P, owned[k], own[k], false)
						line := ""
						for _, o := range ops {
							line += " " + o.kind
							if len(o.elems) > 0 {
								line += "[" + m.Strs(o.elems) + "]"
							} else if len(o.ids) > 0 {
								line += fmt.Sprint(o.ids)
							}
						}
						c.Logf("concurrently on %s:%s", e.ID, line)
						fns = append(fns, func() { runOps(c, e, k, ops, stable, own[k], owned[k]) })
					}
					done = append(done, func() {
						mo := stable.Clone()
						for _, o := range own {
							for id, el := range o {
								mo[id] = el
							}
						}
						e.Mo = mo
					})
				}
				c.Par("concurrent use", fns...)
				for _, d := range done {
					d()
				}
				w.All()
				c.Class("concurrent")
			}
			for _, id := range w.IDs() {
				var s *rankdb.Segments
				c.Do("read partition tables", func() { s, _ = w.Envs[id].Segments() })
				if len(s.Segments) > 1 {
					multi = true
				}
			}
		}
		if multi && save > 0 && prune > 0 {
			c.Nontrivial()
		}
		atomic.StoreInt32(&failing, 0)
		c.Logf("shutdown")
		c.Par("shutdown of pruner and splitter", func() { stop("pruner", pruneCh) }, func() { stop("splitter", splitCh) })
		c.Do("shutdown of saver", func() { stop("saver", saveCh) })
		before := w.Mem.Count()
		time.Sleep(2 * time.Millisecond)
		if n := w.Mem.Count(); n != before {
			c.Fatalf("%d storage operations after all jobs acknowledged their shutdown", n-before)
		}
		w.Mem.SetBefore(nil)
		old := w.Mgr
		w.Cache = m.GenCache(c)
		w.NewMgr()
		w.Mgr.Backup = old.Backup
		c.Do("LoadLists", func() {
			if err := w.Mgr.LoadLists(m.Ctx, w.Cache); err != nil {
				c.Fatalf("LoadLists after shutdown: %v", err)
			}
		})
		w.Adopt()
		w.All()
		for _, id := range w.IDs() {
			w.Envs[id].Verify()
		}
		w.CheckStore()
		if back != nil {
			for _, k := range back.Keys(bakSet) {
				if !strings.HasPrefix(k, "lists-backup") {
					c.Fatalf("unexpected blob %q in backup storage", k)
				}
			}
		}
	})
}
