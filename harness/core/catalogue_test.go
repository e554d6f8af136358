package core

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// attrs are the catalogued attributes of a list.
type attrs struct {
	Set          string
	Meta         string
	Merge, Split int
	Load         bool
}

func attrsOf(l *rankdb.List) attrs {
	var ks []string
	for k, v := range l.Metadata {
		ks = append(ks, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ks)
	return attrs{l.Set, strings.Join(ks, ","), l.MergeSize, l.SplitSize, l.LoadIndex}
}

type snap map[rankdb.ListID]attrs

func snapOf(ls *rankdb.Lists) snap {
	s := snap{}
	for _, id := range ls.All() {
		l, ok := ls.ByID(id)
		if !ok {
			continue
		}
		s[id] = attrsOf(l)
		if l.ID != id {
			s["!"+id] = attrs{}
		}
	}
	return s
}

// copyState is what a stored catalogue copy may be.
type copyState struct {
	opts    []snap // possible contents; nil entry: absent
	damaged bool   // or unreadable
}

func (s copyState) String() string {
	r := ""
	for _, o := range s.opts {
		if o == nil {
			r += " absent"
		} else {
			r += fmt.Sprintf(" %d-lists", len(o))
		}
	}
	if s.damaged {
		r += " damaged"
	}
	return r
}

func has(opts []snap, s snap) bool {
	for _, o := range opts {
		if o != nil && reflect.DeepEqual(o, s) {
			return true
		}
	}
	return false
}

func absent(opts []snap) bool {
	for _, o := range opts {
		if o == nil {
			return true
		}
	}
	return false
}

func present(opts []snap) bool {
	for _, o := range opts {
		if o != nil {
			return true
		}
	}
	return false
}

const (
	primKey = "lists"
	bakSet  = "backup-set"
	bakKey  = "lists-backup"
)

func TestC15(t *testing.T) {
	h.Run(t, "histories of creating, cloning, writing and deleting lists (metadata, sizes, sets, index preloading), saving the catalogue with or without a backup copy under storage faults (before or after taking effect), damaging either stored copy (dropped, truncated, emptied, bits flipped, bytes inserted, swapped for another blob) and loading into a new manager, also with failing reads and with lists already present; a loaded catalogue must be exactly the primary's or, if unusable, the backup's, and what still exists must have all its content; non-trivial: at least two lists were loaded from a copy with content", func(c *h.Case) {
		w := m.NewWorld(c, 30)
		var back *m.Store
		if rapid.IntRange(0, 3).Draw(c.T, "backup") > 0 {
			back = w.Mem
			if rapid.Bool().Draw(c.T, "ownstore") {
				back = m.NewStore()
			}
		}
		setBackup := func() {
			if back != nil {
				w.Mgr.Backup = blobstore.StoreWithSet(back, bakSet)
			}
		}
		setBackup()
		prim, bak := copyState{opts: []snap{nil}}, copyState{opts: []snap{nil}}
		genMeta := func() map[string]string {
			n := rapid.IntRange(0, 3).Draw(c.T, "nmeta")
			var r map[string]string
			for i := 0; i < n; i++ {
				if r == nil {
					r = map[string]string{}
				}
				r[rapid.SampledFrom([]string{"a", "b", "", "country", "æøå"}).Draw(c.T, "mk")] = rapid.SampledFrom([]string{"1", "2", "", "x y", "\x00\xff", strings.Repeat("long", 60)}).Draw(c.T, "mv")
			}
			return r
		}
		dead := map[rankdb.ListID]bool{}

		steps := rapid.IntRange(2, 12).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			switch k := rapid.IntRange(0, 11).Draw(c.T, "step"); {
			case k <= 2:
				if len(w.Envs) < 4 {
					var cl *m.Env
					if len(w.Envs) > 0 && rapid.IntRange(0, 3).Draw(c.T, "clone") == 0 {
						cl = w.Pick()
					}
					w.Meta = genMeta()
					w.Create(15, cl)
				}
			case k == 3:
				if e := w.Pick(); e != nil {
					w.Delete(e)
					dead[e.ID] = true
				}
			case k == 4:
				if e := w.Pick(); e != nil {
					c.Logf("on %s:", e.ID)
					if rapid.Bool().Draw(c.T, "del") {
						e.Delete(e.P.PickIDs(c, 5, func(rankdb.ElementID) bool { return true }))
					} else {
						e.Update(e.P.Elems(c, e.P.PickIDs(c, rapid.IntRange(1, 10).Draw(c.T, "batch"), func(rankdb.ElementID) bool { return true })), 1, true)
					}
				}
			case k <= 7: // save
				cur := snapOf(&w.Mgr.Lists)
				toBackup := back != nil && rapid.Bool().Draw(c.T, "tobackup")
				fp := rapid.SampledFrom([]string{"", "", "", "before", "after"}).Draw(c.T, "primfault")
				fb := rapid.SampledFrom([]string{"", "", "", "before", "after"}).Draw(c.T, "bakfault")
				c.Logf("save backup=%v primary fault=%q backup fault=%q", toBackup, fp, fb)
				fault := func(op, set, key string) error {
					f := ""
					if set == "catalogue" && key == primKey {
						f = fp
					} else if set == bakSet && key == bakKey {
						f = fb
					}
					switch f {
					case "before":
						return m.ErrInjected
					case "after":
						return m.ErrAfter
					}
					return nil
				}
				w.Mem.SetFault(fault)
				if back != nil {
					back.SetFault(fault)
				}
				var err error
				c.Do("SaveLists", func() { err = w.Mgr.SaveLists(m.Ctx, toBackup) })
				w.Mem.SetFault(nil)
				if back != nil {
					back.SetFault(nil)
				}
				if fp == "" && err != nil && (!toBackup || fb == "") {
					c.Fatalf("SaveLists failed: %v", err)
				}
				if fp != "" && err == nil {
					c.Fatalf("SaveLists reported success, but the store refused the catalogue")
				}
				if err == nil {
					prim = copyState{opts: []snap{cur}}
				} else if fp != "before" {
					prim.opts = append(prim.opts, cur)
				}
				if toBackup {
					switch fb {
					case "":
						bak = copyState{opts: []snap{cur}}
					case "after":
						bak.opts = append(bak.opts, cur)
					}
				}
				c.Class("save")
			case k == 8: // damage
				st, set, key, cs := w.Mem, "catalogue", primKey, &prim
				if back != nil && rapid.Bool().Draw(c.T, "dmgbackup") {
					st, set, key, cs = back, bakSet, bakKey, &bak
				}
				b, ok := st.Peek(set, key)
				if !ok {
					continue
				}
				kind := rapid.SampledFrom([]string{"drop", "truncate", "empty", "flip", "insert", "junk", "other"}).Draw(c.T, "damage")
				c.Logf("%s %s/%s", kind, set, key)
				c.Class("damage-" + kind)
				if kind == "drop" {
					st.Drop(set, key)
					*cs = copyState{opts: []snap{nil}}
					continue
				}
				old := string(b)
				switch kind {
				case "truncate":
					b = b[:rapid.IntRange(0, len(b)).Draw(c.T, "len")]
				case "empty":
					b = b[:0]
				case "flip":
					for n := rapid.IntRange(1, 3).Draw(c.T, "n"); n > 0 && len(b) > 0; n-- {
						b[rapid.IntRange(0, len(b)-1).Draw(c.T, "at")] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit")))
					}
				case "insert":
					at := rapid.IntRange(0, len(b)).Draw(c.T, "at")
					b = append(append(append([]byte{}, b[:at]...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(c.T, "ins")...), b[at:]...)
				case "junk":
					b = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(c.T, "junk")
				case "other":
					for _, k := range st.Keys("set") {
						b, _ = st.Peek("set", k)
					}
				}
				st.Put(set, key, b)
				if string(b) != old {
					cs.damaged = true
				}
			default: // load in a new process
				w2 := &m.World{C: c, Mem: w.Mem, Cache: m.GenCache(c), Envs: map[rankdb.ListID]*m.Env{}, P: w.P}
				w2.NewMgr()
				old := w.Mgr
				w.Mgr = w2.Mgr
				setBackup()
				before := snap{}
				if rapid.IntRange(0, 2).Draw(c.T, "preloaded") == 0 {
					l, err := rankdb.NewList(m.Ctx, "already-there", "tmp", m.NewStore())
					if err != nil {
						c.Fatalf("NewList: %v", err)
					}
					w.Mgr.Lists.Add(l)
					before = snapOf(&w.Mgr.Lists)
				}
				getP := rapid.IntRange(0, 5).Draw(c.T, "getprim") == 0
				getB := rapid.IntRange(0, 5).Draw(c.T, "getbak") == 0
				fault := func(op, set, key string) error {
					if op == "get" && (getP && set == "catalogue" && key == primKey || getB && set == bakSet && key == bakKey) {
						return m.ErrInjected
					}
					return nil
				}
				c.Logf("load: primary%v backup%v (configured=%v) read faults: primary=%v backup=%v preloaded=%v", prim, bak, back != nil, getP, getB, len(before))
				w.Mem.SetFault(fault)
				if back != nil {
					back.SetFault(fault)
				}
				var err error
				c.Do("LoadLists", func() { err = w.Mgr.LoadLists(m.Ctx, w2.Cache) })
				w.Mem.SetFault(nil)
				if back != nil {
					back.SetFault(nil)
				}
				got := snapOf(&w.Mgr.Lists)
				p, b := prim, bak
				if getP {
					p = copyState{damaged: true}
				}
				if getB {
					b = copyState{damaged: true}
				}
				if back == nil {
					b = copyState{opts: []snap{nil}}
				}
				// An intact primary must be used. Damaged data may still hold its old content.
				pReadable := present(p.opts) && !absent(p.opts) && !p.damaged
				pUnusable := !present(p.opts) || absent(p.opts) || p.damaged
				bReadable := present(b.opts) && !absent(b.opts) && !b.damaged
				if err != nil {
					if pReadable || bReadable {
						c.Fatalf("LoadLists failed though a readable copy exists: %v", err)
					}
					if !reflect.DeepEqual(got, before) {
						c.Fatalf("failed LoadLists left %v, before it was %v", got, before)
					}
					if err == blobstore.ErrBlobNotFound {
						if !absent(p.opts) {
							c.Fatalf("LoadLists: the catalogue exists, but is reported as not found")
						}
						c.Class("fresh")
					} else {
						c.Class("load-failed")
					}
					// Back to what was loaded before.
					w.Mgr = old
					if rapid.Bool().Draw(c.T, "startfresh") || !reflect.DeepEqual(got, before) {
						continue
					}
					continue
				}
				switch {
				case has(p.opts, got):
					c.Class("load-primary")
				case pUnusable && has(b.opts, got):
					c.Class("load-backup")
				default:
					c.Fatalf("LoadLists loaded %v\nprimary may be %v (damaged=%v)\nbackup may be %v (damaged=%v)", got, p.opts, p.damaged, b.opts, b.damaged)
				}
				nonempty := 0
				for id := range got {
					if e, ok := w.Envs[id]; ok && len(e.Mo) > 0 {
						nonempty++
					}
				}
				if len(got) > 1 && nonempty > 0 {
					c.Nontrivial()
				}
				// Continue with what was loaded.
				w.Cache = w2.Cache
				for id := range got {
					if dead[id] {
						w.Mgr.Lists.Delete(id)
					}
				}
				for _, id := range w.IDs() {
					if _, ok := got[id]; !ok {
						dead[id] = true
						delete(w.Envs, id)
					}
				}
				w.Adopt()
				w.All()
			}
		}
	})
}

func TestC16(t *testing.T) {
	alpha := []string{"a", "b", "aa", "ab", "a-", "a.", "A", "B", "Z", "_", "-", ".", "0", "00", "01", "10", "1", "2", "~", "æ", "list", "list-", "list-1", "list-10", "list-2", "list_2", " ", "\x00", "\xff"}
	st := m.NewStore()
	h.Run(t, "catalogues of 0-25 lists (IDs prefixes of each other, of mixed case, digits and punctuation) with generated sets and metadata under additions, replacements and deletions; pages of any size after and before any ID (existing, between, first, last, empty), page walks in both directions, selections by metadata and sets, lookups of repeated and unknown IDs are compared with the sorted reference catalogue; non-trivial: at least 4 lists and a page that starts and ends inside", func(c *h.Case) {
		mgr, err := rankdb.NewManager(m.NewStore(), "x")
		if err != nil {
			c.Fatalf("NewManager: %v", err)
		}
		if err := mgr.NewLists(nil); err != nil {
			c.Fatalf("NewLists: %v", err)
		}
		ls := &mgr.Lists
		mo := map[rankdb.ListID]*rankdb.List{}
		genID := func(name string) rankdb.ListID {
			switch rapid.IntRange(0, 3).Draw(c.T, name+"k") {
			case 0:
				return rankdb.ListID(rapid.StringN(1, 3, 6).Draw(c.T, name))
			case 1:
				return rankdb.ListID(rapid.SampledFrom(alpha).Draw(c.T, name) + rapid.SampledFrom(alpha).Draw(c.T, name))
			}
			return rankdb.ListID(rapid.SampledFrom(alpha).Draw(c.T, name))
		}
		sorted := func() []rankdb.ListID {
			var r []rankdb.ListID
			for id := range mo {
				r = append(r, id)
			}
			sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
			return r
		}
		ids := func(l []*rankdb.List) []rankdb.ListID {
			var r []rankdb.ListID
			for _, x := range l {
				if x == nil {
					c.Fatalf("nil list in a page")
				}
				if mo[x.ID] != x {
					c.Fatalf("page holds another list object for %q", x.ID)
				}
				r = append(r, x.ID)
			}
			return r
		}
		sets := []string{"s1", "s2", "s3", "S1"}
		mk := []string{"k1", "k2", "k3"}
		mv := []string{"v1", "v2", "V1"}
		anyID := func(name string) rankdb.ListID {
			s := sorted()
			if len(s) > 0 && rapid.IntRange(0, 2).Draw(c.T, name+"ex") > 0 {
				return rapid.SampledFrom(s).Draw(c.T, name)
			}
			return genID(name)
		}
		add := func() {
			id := genID("id")
			meta := map[string]string{}
			for n := rapid.IntRange(0, 3).Draw(c.T, "nmeta"); n > 0; n-- {
				meta[rapid.SampledFrom(mk).Draw(c.T, "mk")] = rapid.SampledFrom(mv).Draw(c.T, "mv")
			}
			set := rapid.SampledFrom(sets).Draw(c.T, "set")
			if len(meta) == 0 && rapid.Bool().Draw(c.T, "nilmeta") {
				meta = nil
			}
			c.Logf("add %q set=%s meta=%v", id, set, meta)
			l, err := rankdb.NewList(m.Ctx, id, set, st, rankdb.WithListOption.Metadata(meta))
			if err != nil {
				c.Fatalf("NewList(%q): %v", id, err)
			}
			c.Do("Add", func() { ls.Add(l) })
			mo[id] = l
		}
		after := func(from rankdb.ListID, n int) []rankdb.ListID {
			var got []*rankdb.List
			var page rankdb.PageInfo
			c.Do("SortedIDsAfter", func() { got, page = ls.SortedIDsAfter(from, n) })
			var want []rankdb.ListID
			var p rankdb.PageInfo
			if n > 0 {
				for _, id := range sorted() {
					switch {
					case id <= from:
						p.Before++
					case len(want) < n:
						want = append(want, id)
					default:
						p.After++
					}
				}
			}
			if g := ids(got); !reflect.DeepEqual(g, want) {
				c.Fatalf("SortedIDsAfter(%q, %d) = %q, want %q (all: %q)", from, n, g, want, sorted())
			}
			if page != p {
				c.Fatalf("SortedIDsAfter(%q, %d): page info %+v, want %+v (all: %q)", from, n, page, p, sorted())
			}
			if p.Before > 0 && p.After > 0 && len(want) > 0 && len(mo) > 3 {
				c.Nontrivial()
			}
			return want
		}
		before := func(to rankdb.ListID, n int) []rankdb.ListID {
			var got []*rankdb.List
			var page rankdb.PageInfo
			c.Do("SortedIDsBefore", func() { got, page = ls.SortedIDsBefore(to, n) })
			var want []rankdb.ListID
			var p rankdb.PageInfo
			if n > 0 {
				s := sorted()
				for i := len(s) - 1; i >= 0; i-- {
					switch {
					case s[i] >= to:
						p.After++
					case len(want) < n:
						want = append([]rankdb.ListID{s[i]}, want...)
					default:
						p.Before++
					}
				}
			}
			if g := ids(got); !reflect.DeepEqual(g, want) {
				c.Fatalf("SortedIDsBefore(%q, %d) = %q, want %q (all: %q)", to, n, g, want, sorted())
			}
			if page != p {
				c.Fatalf("SortedIDsBefore(%q, %d): page info %+v, want %+v (all: %q)", to, n, page, p, sorted())
			}
			if p.Before > 0 && p.After > 0 && len(want) > 0 && len(mo) > 3 {
				c.Nontrivial()
			}
			return want
		}
		for n := rapid.IntRange(0, 25).Draw(c.T, "lists"); n > 0; n-- {
			add()
		}
		for n := rapid.IntRange(1, 12).Draw(c.T, "ops"); n > 0; n-- {
			switch rapid.IntRange(0, 9).Draw(c.T, "op") {
			case 0:
				add()
			case 1:
				id := anyID("del")
				c.Logf("delete %q", id)
				c.Do("Delete", func() { ls.Delete(id) })
				delete(mo, id)
				if _, ok := ls.ByID(id); ok {
					c.Fatalf("ByID(%q) finds a deleted list", id)
				}
			case 2, 3:
				from := rankdb.ListID("")
				if rapid.IntRange(0, 4).Draw(c.T, "first") > 0 {
					from = anyID("from")
				}
				after(from, rapid.IntRange(-1, len(mo)+2).Draw(c.T, "n"))
				c.Class("after")
			case 4, 5:
				to := anyID("to")
				if rapid.IntRange(0, 4).Draw(c.T, "last") == 0 {
					to = "\xff\xff\xff\xff\xff\xff\xff\xff\xff"
				}
				before(to, rapid.IntRange(-1, len(mo)+2).Draw(c.T, "n"))
				c.Class("before")
			case 6: // walks
				n := rapid.IntRange(1, 5).Draw(c.T, "page")
				var fw, bw []rankdb.ListID
				for from := rankdb.ListID(""); ; {
					p := after(from, n)
					if len(p) == 0 {
						break
					}
					fw = append(fw, p...)
					from = p[len(p)-1]
				}
				for to := rankdb.ListID("\xff\xff\xff\xff\xff\xff\xff\xff\xff"); ; {
					p := before(to, n)
					if len(p) == 0 {
						break
					}
					bw = append(append([]rankdb.ListID{}, p...), bw...)
					to = p[0]
				}
				if s := sorted(); !reflect.DeepEqual(fw, s) || !reflect.DeepEqual(bw, s) {
					c.Fatalf("walking by %d: forwards %q, backwards %q, want %q", n, fw, bw, s)
				}
				c.Class("walk")
			case 7: // selection
				q := map[string]string{}
				for n := rapid.IntRange(0, 3).Draw(c.T, "nq"); n > 0; n-- {
					q[rapid.SampledFrom(mk).Draw(c.T, "qk")] = rapid.SampledFrom(mv).Draw(c.T, "qv")
				}
				var qs []string
				for n := rapid.IntRange(0, 2).Draw(c.T, "nsets"); n > 0; n-- {
					qs = append(qs, rapid.SampledFrom(append(sets, "unknown", "s", "")).Draw(c.T, "qs"))
				}
				var got []rankdb.ListID
				qq := q
				if len(q) == 0 && rapid.Bool().Draw(c.T, "nilq") {
					qq = nil
				}
				c.Do("MatchAll", func() { got = ls.MatchAll(qq, qs) })
				want := map[rankdb.ListID]bool{}
				for id, l := range mo {
					for _, s := range qs {
						if l.Set == s {
							want[id] = true
						}
					}
					all := len(q) > 0
					for k, v := range q {
						if x, ok := l.Metadata[k]; !ok || x != v {
							all = false
						}
					}
					if all {
						want[id] = true
					}
				}
				g := map[rankdb.ListID]bool{}
				for _, id := range got {
					if g[id] {
						c.Fatalf("MatchAll(%v, %q) returned %q twice", q, qs, id)
					}
					g[id] = true
				}
				if !reflect.DeepEqual(g, want) {
					c.Fatalf("MatchAll(%v, %q) = %q, want %v", q, qs, got, want)
				}
				c.Class("match")
			case 8: // lookups
				var in rankdb.ListIDs
				for n := rapid.IntRange(0, 8).Draw(c.T, "nids"); n > 0; n-- {
					in = append(in, anyID("lid"))
				}
				var ex []rankdb.ListID
				for _, id := range in {
					if mo[id] != nil {
						ex = append(ex, id)
					}
				}
				c.Do("lookups", func() {
					if got := ls.Exists(in...); !reflect.DeepEqual(got, ex) && len(got)+len(ex) > 0 {
						c.Fatalf("Exists(%q) = %q, want %q", in, got, ex)
					}
					got := ls.ByIDs(in...)
					if len(got) != len(in) {
						c.Fatalf("ByIDs(%q) returned %d lists", in, len(got))
					}
					for i, id := range in {
						if got[i] != mo[id] {
							c.Fatalf("ByIDs(%q)[%d] is %v", in, i, got[i])
						}
						l, ok := ls.ByID(id)
						if ok != (mo[id] != nil) || l != mo[id] {
							c.Fatalf("ByID(%q) = %v, %v", id, l, ok)
						}
					}
					dd := append(rankdb.ListIDs{}, in...)
					ch := dd.Deduplicate()
					set := map[rankdb.ListID]bool{}
					for _, id := range in {
						set[id] = true
					}
					if len(dd) != len(set) || ch != (len(set) != len(in)) || !sort.SliceIsSorted(dd, func(i, j int) bool { return dd[i] < dd[j] }) {
						c.Fatalf("Deduplicate(%q) = %q, %v", in, dd, ch)
					}
					for _, id := range dd {
						if !set[id] {
							c.Fatalf("Deduplicate(%q) = %q", in, dd)
						}
					}
				})
				c.Class("lookup")
			case 9:
				var got rankdb.ListIDs
				c.Do("All", func() { got = ls.All() })
				got.Sort()
				if s := sorted(); !reflect.DeepEqual([]rankdb.ListID(got), s) && len(got)+len(s) > 0 {
					c.Fatalf("All() = %q, want %q", got, s)
				}
				c.Class("all")
			}
		}
	})
}
