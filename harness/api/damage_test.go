package api

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/etcd-io/bbolt"
	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

// onBolt are the configurations whose files can be damaged while the server is down.
var onBolt = []Conf{
	{Name: "bolt", Storage: "BoltDB", Cache: 3, CacheType: "LRU"},
	{Name: "bolt-nocache", Storage: "BoltDB", Cache: 0, Retry: true},
	{Name: "bolt-lazy", Storage: "BoltDB", Cache: 50, CacheType: "ARC", Lazy: true},
}

// harm tells what was done to the stored data of a list.
type harm struct {
	what  []string
	lost  bool // a partition is unreadable
	table bool // the partition table is
	index bool // part of the index is
	itab  bool // the index table is
	// readable content
	rest []m.Elem
}

// spoil damages stored data while no server runs. It returns what was done by list.
func (w *W) spoil(dir string) map[string]*harm {
	c := w.C
	db, err := bbolt.Open(filepath.Join(dir, "bolt.db"), 0644, &bbolt.Options{Timeout: 20 * time.Second, NoSync: true})
	if err != nil {
		c.Fatalf("VERIF-ERROR: opening the database: %v", err)
	}
	_ = db.Close()
	st, err := boltstore.NewBoltStore(filepath.Join(dir, "bolt.db"), &bbolt.Options{Timeout: 20 * time.Second, NoSync: true})
	if err != nil {
		c.Fatalf("VERIF-ERROR: opening the store: %v", err)
	}
	defer st.Close()
	ctx := context.Background()
	man, err := rankdb.NewManager(st, "rankdb")
	if err == nil {
		err = man.LoadLists(ctx, nil)
	}
	if err != nil {
		c.Fatalf("the stored catalogue can not be loaded: %v", err)
	}
	res := map[string]*harm{}
	for _, id := range w.ids() {
		if rapid.IntRange(0, 1).Draw(c.T, "harm "+id) == 0 {
			continue
		}
		l := w.Lists[id]
		rl, ok := man.Lists.ByID(rankdb.ListID(id))
		if !ok {
			c.Fatalf("list %s is not in the stored catalogue", id)
		}
		ws := blobstore.StoreWithSet(st, l.Set)
		scores, err := rl.Scores.Load(ctx, ws, nil)
		if err != nil {
			c.Fatalf("partition table of %s: %v", id, err)
		}
		index, err := rl.Index.Load(ctx, ws, nil)
		if err != nil {
			c.Fatalf("index table of %s: %v", id, err)
		}
		d := &harm{}
		done := map[string]bool{}
		breakBlob := func(key, name string) bool {
			b, err := st.Get(ctx, l.Set, key)
			if err != nil || len(b) < 2 || done[key] {
				return false
			}
			done[key] = true
			how := ""
			switch rapid.IntRange(0, 3).Draw(c.T, "how") {
			case 0:
				how, err = "lost", st.Delete(ctx, l.Set, key)
			case 1:
				n := rapid.IntRange(1, len(b)-1).Draw(c.T, "keep")
				how, err = fmt.Sprintf("cut to %d of %d bytes", n, len(b)), st.Set(ctx, l.Set, key, b[:n])
			case 2:
				b[0] ^= 64
				how, err = "of another version", st.Set(ctx, l.Set, key, b)
			case 3:
				b[1] = 0xc1
				how, err = "of an invalid type", st.Set(ctx, l.Set, key, b)
			}
			if err != nil {
				c.Fatalf("VERIF-ERROR: %v", err)
			}
			d.what = append(d.what, name+" "+how)
			return true
		}
		part := func(t *rankdb.Segments) (string, int, bool) {
			var ns []int
			for i := range t.Segments {
				if t.Segments[i].N > 0 {
					ns = append(ns, i)
				}
			}
			if len(ns) == 0 {
				return "", 0, false
			}
			i := rapid.SampledFrom(ns).Draw(c.T, "partition")
			return t.Segments[i].StorageKey(), i, true
		}
		gone := map[int]bool{}
		switch k := rapid.IntRange(0, 9).Draw(c.T, "kind"); k {
		case 0:
			d.table = breakBlob(string(rl.Scores), "partition table")
		case 1:
			d.itab = breakBlob(string(rl.Index), "index table")
		default:
			for n := rapid.IntRange(1, 3).Draw(c.T, "n"); n > 0; n-- {
				if k < 5 || k < 8 && n > 1 {
					if key, i, ok := part(index); ok && breakBlob(key, fmt.Sprintf("index partition %d", i)) {
						d.index = true
					}
				} else if key, i, ok := part(scores); ok && breakBlob(key, fmt.Sprintf("partition %d", i)) {
					d.lost = true
					gone[i] = true
				}
			}
		}
		if len(d.what) == 0 {
			continue
		}
		if !d.table {
			for i := range scores.Segments {
				if scores.Segments[i].N == 0 || gone[i] {
					continue
				}
				b, err := st.Get(ctx, l.Set, scores.Segments[i].StorageKey())
				if err != nil {
					c.Fatalf("partition %d of %s: %v", i, id, err)
				}
				es, _, err := m.DecodeElements(b)
				if err != nil {
					c.Fatalf("partition %d of %s: %v", i, id, err)
				}
				d.rest = append(d.rest, es...)
			}
		}
		c.Logf("list %s of %d partitions: %s", id, len(scores.Segments), strings.Join(d.what, ", "))
		res[id] = d
	}
	return res
}

// readHarmed reads from a damaged list: errors are fine, wrong data is not.
func (w *W) readHarmed(l *L, d *harm) {
	c := w.C
	sorted := l.Mo.Sorted()
	base := "/lists/" + l.ID
	same := func(what string, es []resElem) {
		for _, e := range es {
			x, ok := l.Mo[toID(e.ID)]
			if !ok {
				c.Fatalf("%s has element %d, which the list does not have", what, e.ID)
			}
			w.same(what, e, x)
		}
	}
	switch rapid.IntRange(0, 5).Draw(c.T, "read") {
	case 0:
		id := w.genID()
		r := w.send(Req{Method: "GET", Path: base + "/elements/" + u64(id), Query: url.Values{"range": {"2"}}})
		if r.Status == 200 {
			var g resElem
			r.Decode(c, &g)
			if g.ID != id {
				c.Fatalf("element %d was returned for %d", g.ID, id)
			}
			same("element of the damaged list", []resElem{g})
		} else if r.Status == 404 {
			if _, there := l.Mo[toID(id)]; there && !d.lost && !d.table && !d.index && !d.itab {
				c.Fatalf("element %d of %s is reported as not found: %v", id, l.ID, r)
			}
		} else if r.Status < 400 {
			c.Fatalf("reading from damaged list %s: %v", l.ID, r)
		}
	case 1:
		ids := w.genIDs(5)
		r := w.send(Req{Method: "POST", Path: base + "/elements/find", Body: reqIDs{IDs: ids}})
		if r.Status == 200 {
			var g resMulti
			r.Decode(c, &g)
			same("found in the damaged list", g.Found)
		}
	case 2, 3:
		r := w.send(Req{Method: "GET", Path: base + "/range", Query: url.Values{"from_top": {"0"}, "limit": {"1000"}}})
		if r.Status != 200 {
			if !d.lost && !d.table && r.Status == 404 && len(sorted) > 0 {
				c.Fatalf("the elements of %s are reported as not found: %v", l.ID, r)
			}
			break
		}
		var g []resElem
		r.Decode(c, &g)
		same("range of the damaged list", g)
		if len(g) != len(sorted) && !d.table {
			c.Fatalf("the range of damaged list %s has %d elements without an error, want %d", l.ID, len(g), len(sorted))
		}
	case 4:
		r := w.send(Req{Method: "GET", Path: base, Query: url.Values{"top_bottom": {"true"}}})
		if r.Status == 200 {
			var g resList
			r.Decode(c, &g)
			w.checkDef(l, &g)
		}
	case 5:
		r := w.send(Req{Method: "GET", Path: base + "/percentile", Query: url.Values{"from_top": {"50"}}})
		if r.Status == 200 {
			var g resElem
			r.Decode(c, &g)
			same("percentile of the damaged list", []resElem{g})
		}
	}
}

// TestC29 starts a server on damaged storage.
func TestC29(t *testing.T) {
	h.Assume("Damage is done while the server is down, to single stored blobs of some lists (lost, cut, another version, undecodable); the catalogue itself is intact (see C15)",
		"A list whose partition table is lost counts as empty after repair")
	h.Run(t, "a case is non-trivial when at least one list was damaged and one with elements was not", func(c *h.Case) {
		cf := onBolt[rapid.IntRange(0, len(onBolt)-1).Draw(c.T, "conf")]
		c.Logf("server %s", cf.Name)
		dir := scratch()
		var s *Srv
		defer func() {
			s.Kill()
			_ = os.RemoveAll(dir)
		}()
		boot := func() {
			var err error
			s, err = start(cf, dir)
			if err != nil {
				c.Fatalf("server %s: %v", cf.Name, err)
			}
		}
		stop := func() {
			if err := s.Stop(2 * time.Minute); err != nil {
				c.Fatalf("%v", err)
			}
			if s.code != 0 {
				c.Fatalf("the server ended with status %d: %s", s.code, s.logs)
			}
		}
		boot()
		w := NewW(c, s, m.GenProfile(c, 80))
		w.names = []string{"aa", "ab", "a-1", "zz"}
		for i := rapid.IntRange(2, 4).Draw(c.T, "lists"); i > 0; i-- {
			w.create(w.names[i-1], 80)
		}
		for i := rapid.IntRange(0, 6).Draw(c.T, "steps"); i > 0; i-- {
			w.drawCT()
			w.elemOp()
		}
		w.CT = tJSON
		stop()
		hs := w.spoil(dir)
		boot()
		w.S = s
		all := w.Lists
		names := w.ids()
		intact := map[string]*L{}
		for n, l := range all {
			if hs[n] == nil {
				intact[n] = l
				if len(l.Mo) > 0 && len(hs) > 0 {
					c.Nontrivial()
				}
			}
		}
		// Every list is still there and the intact ones are as they were.
		checkIntact := func() {
			for n := range intact {
				w.All(intact[n])
			}
			var res resLists
			w.want(200, Req{Method: "GET", Path: "/lists", Query: url.Values{"limit": {"1000"}}}, &res)
			if len(res.Lists) != len(names) {
				c.Fatalf("there are %d lists, want %q", len(res.Lists), names)
			}
			for i := range res.Lists {
				w.checkDef(all[names[i]], &res.Lists[i])
			}
		}
		checkIntact()
		var harmed []string
		for n := range hs {
			harmed = append(harmed, n)
		}
		sort.Strings(harmed)
		for i := rapid.IntRange(0, 5).Draw(c.T, "reads"); i > 0 && len(harmed) > 0; i-- {
			n := rapid.SampledFrom(harmed).Draw(c.T, "damaged list")
			w.readHarmed(all[n], hs[n])
		}
		if rapid.Bool().Draw(c.T, "element op") && len(intact) > 0 {
			w.Lists = intact
			for i := 0; i < 3; i++ {
				w.elemOp()
			}
			w.Lists = all
		}
		// A backup has the intact lists and names the others.
		if rapid.IntRange(0, 2).Draw(c.T, "backup") == 0 {
			w.backupHarmed(names, intact, hs)
		}
		// Verification names the damaged lists and no other.
		if rapid.Bool().Draw(c.T, "verify") {
			var g resX
			w.want(200, Req{Method: "PUT", Path: "/xlist/verify", Query: url.Values{"elements": {"true"}}, Body: reqQL{}}, &g)
			for _, n := range names {
				d := hs[n]
				switch {
				case g.Errors[n] == "" && g.Success[n] == nil:
					c.Fatalf("verification does not report on list %s", n)
				case d == nil && g.Errors[n] != "":
					c.Fatalf("verification reports an error of undamaged list %s: %s", n, g.Errors[n])
				case d != nil && g.Errors[n] == "" && !d.itab && !(d.table && len(all[n].Mo) == 0):
					c.Fatalf("verification does not report the damage of list %s (%s)", n, strings.Join(d.what, ", "))
				}
			}
			c.Class("verified")
		}
		// Repair.
		for len(harmed) > 0 {
			i := rapid.IntRange(0, len(harmed)-1).Draw(c.T, "next")
			n := harmed[i]
			d, l := hs[n], all[n]
			how := rapid.IntRange(0, 4).Draw(c.T, "repair by")
			fix := []string{n}
			clear := rapid.Bool().Draw(c.T, "clear")
			q := url.Values{}
			if clear {
				q.Set("clear", "true")
			}
			errs := map[string]string{}
			one := func(path string) {
				var g resOp
				w.want(200, Req{Method: "PUT", Path: path, Query: q}, &g)
				if g.Error != nil {
					errs[n] = *g.Error
				} else if g.List == nil {
					c.Fatalf("%s of %s returned no list", path, n)
				} else {
					w.checkDef(l, g.List)
				}
			}
			c.Logf("repair %s, kind %d, clear %v", n, how, clear)
			switch how {
			case 0:
				one("/lists/" + n + "/repair")
			case 1:
				q.Set("repair", "true")
				one("/lists/" + n + "/verify")
			case 2:
				if d.lost || d.table {
					continue
				}
				w.want(200, Req{Method: "PUT", Path: "/lists/" + n + "/reindex"}, nil)
			case 3, 4:
				q.Set("repair", "true")
				q.Set("elements", "true")
				ql := reqQL{}
				if how == 3 {
					ql.Lists = []string{n}
				} else {
					fix = harmed
				}
				var g resX
				w.want(200, Req{Method: "PUT", Path: "/xlist/verify", Query: q, Body: ql}, &g)
				for k, e := range g.Errors {
					errs[k] = e
					if hs[k] == nil {
						c.Fatalf("repairing reports an error of undamaged list %s: %s", k, e)
					}
				}
				for _, k := range fix {
					if g.Success[k] == nil && g.Errors[k] == "" {
						c.Fatalf("repairing does not report on list %s", k)
					}
				}
			}
			left := append([]string(nil), harmed...)
			for _, k := range fix {
				d := hs[k]
				refuse := (d.lost || d.table) && !clear
				switch e := errs[k]; {
				case e != "" && !refuse:
					c.Fatalf("list %s (%s) is not repaired: %s", k, strings.Join(d.what, ", "), e)
				case e == "" && refuse && d.lost:
					c.Fatalf("list %s (%s) was repaired without permission to drop what is lost", k, strings.Join(d.what, ", "))
				case e != "":
					c.Class("refused")
					continue
				}
				c.Class("repaired")
				mo, _ := m.BestOf(d.rest)
				all[k].Mo = mo
				intact[k] = all[k]
				for j := range left {
					if left[j] == k {
						left = append(left[:j:j], left[j+1:]...)
						break
					}
				}
			}
			harmed = left
			checkIntact()
		}
		w.CheckAll()
		for i := rapid.IntRange(0, 4).Draw(c.T, "after"); i > 0; i-- {
			w.elemOp()
		}
		if rapid.IntRange(0, 2).Draw(c.T, "restart") == 0 {
			stop()
			boot()
			w.S = s
		}
		w.CheckAll()
		for _, id := range w.ids() {
			var g resOp
			w.want(200, Req{Method: "PUT", Path: "/lists/" + id + "/verify"}, &g)
			if g.Error != nil {
				c.Fatalf("list %s does not verify after the repair: %s", id, *g.Error)
			}
		}
		stop()
	})
}

// backupHarmed makes a backup of all lists and restores it under other names.
func (w *W) backupHarmed(names []string, intact map[string]*L, hs map[string]*harm) {
	c := w.C
	var r reqBackup
	r.Destination.Type = "file"
	p := filepath.Join(w.S.Dir, "harmed.bin")
	r.Destination.Path = &p
	var cb resCallback
	w.want(201, Req{Method: "PUT", Path: "/xlist/backup", Body: r}, &cb)
	st := w.await(cb)
	bad := 0
	for _, n := range names {
		if hs[n] == nil && st.Errors[n] != "" {
			c.Fatalf("the backup reports an error of undamaged list %s: %s", n, st.Errors[n])
		}
		if hs[n] != nil && hs[n].lost && st.Errors[n] == "" {
			c.Fatalf("the backup reports no error of damaged list %s (%s)", n, strings.Join(hs[n].what, ", "))
		}
		if st.Errors[n] != "" {
			bad++
		}
	}
	if st.Lists != len(names) || st.ListsDone != len(names)-bad || len(st.Errors) != bad {
		c.Fatalf("backup of %q with damage in %d lists: %+v", names, len(hs), st)
	}
	b, err := ioutil.ReadFile(p)
	if err != nil {
		c.Fatalf("backup file: %v", err)
	}
	var g resRestore
	w.want(200, Req{Method: "POST", Path: "/xlist/restore", Query: url.Values{"list_id_prefix": {"r-"}}, Raw: b}, &g)
	if len(g.Errors) > 0 || g.Restored == nil || *g.Restored != len(names)-bad {
		e, _ := json.Marshal(g)
		c.Fatalf("restoring the %d lists in the backup: %s", len(names)-bad, e)
	}
	for _, n := range names {
		if st.Errors[n] != "" {
			w.want(404, Req{Method: "GET", Path: "/lists/r-" + n}, nil)
			continue
		}
		if hs[n] == nil || !hs[n].table {
			w.All(intactOr(intact[n], w.Lists[n]).clone("r-" + n))
		}
		w.want(204, Req{Method: "DELETE", Path: "/lists/r-" + n}, nil)
	}
	c.Class("backup of damaged lists")
}

func intactOr(a, b *L) *L {
	if a != nil {
		return a
	}
	return b
}
