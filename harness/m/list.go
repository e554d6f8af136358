package m

import (
	"context"
	"fmt"
	"io/ioutil"
	stdlog "log"
	"math/big"
	"os"
	"sort"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"pgregory.net/rapid"
	"verif/h"
)

// Ctx is a context with a silent logger.
var Ctx = quiet()

func quiet() context.Context {
	stdlog.SetOutput(ioutil.Discard)
	return log.WithLogger(context.Background(), log.NullLogger())
}

// Env is one list with its reference model.
type Env struct {
	C     *h.Case
	Bs    blobstore.Store
	Mem   *Store
	Cache rankdb.Cache
	List  *rankdb.List
	ID    rankdb.ListID
	Set   string
	Mo    Model
	P     *Profile
	Merge int
	Split int
	Fast  bool // skip expensive full comparisons

	elemVersion uint8
}

// GenSizes draws merge and split sizes.
func GenSizes(c *h.Case) (merge, split int) {
	switch rapid.IntRange(0, 9).Draw(c.T, "sizes") {
	case 0:
		return 500, 2000
	case 1:
		return 1, 2
	case 2:
		return 0, rapid.IntRange(2, 9).Draw(c.T, "split")
	}
	merge = rapid.IntRange(1, 8).Draw(c.T, "merge")
	split = merge + rapid.IntRange(1, 12).Draw(c.T, "splitd")
	return
}

// GenCache draws a cache (possibly none).
func GenCache(c *h.Case) rankdb.Cache {
	switch rapid.IntRange(0, 3).Draw(c.T, "cache") {
	case 0:
		return nil
	case 1:
		return NewCache(rapid.IntRange(0, 3).Draw(c.T, "cap"))
	}
	return NewCache(-1)
}

// NewEnv creates a list with generated settings and initial content.
// how: 0 NewList with Populate option, 1 empty + Populate, 2 empty + Insert, 3 empty + Update, 4 empty
func NewEnv(c *h.Case, maxElems int) *Env {
	nIDs := rapid.IntRange(1, maxElems+10).Draw(c.T, "nids")
	e := &Env{C: c, P: GenProfile(c, nIDs), Mem: NewStore(), ID: "list", Set: "set", Mo: Model{}}
	e.Bs = e.Mem
	e.Merge, e.Split = GenSizes(c)
	e.Cache = GenCache(c)
	n := rapid.IntRange(0, maxElems).Draw(c.T, "n")
	ids := e.P.PickIDs(c, n, func(rankdb.ElementID) bool { return true })
	es := e.P.Elems(c, ids)
	how := rapid.IntRange(0, 4).Draw(c.T, "how")
	load := rapid.Bool().Draw(c.T, "loadindex")
	c.Logf("new list merge=%d split=%d cache=%v loadindex=%v how=%d content=%s", e.Merge, e.Split, e.Cache != nil, load, how, Strs(es))
	opts := []rankdb.ListOption{
		rankdb.WithListOption.MergeSplitSize(e.Merge, e.Split),
		rankdb.WithListOption.LoadIndex(load),
		rankdb.WithListOption.Metadata(map[string]string{"k": "v"}),
	}
	if e.Cache != nil {
		opts = append(opts, rankdb.WithListOption.Cache(e.Cache))
	}
	if how == 0 && len(es) > 0 {
		opts = append(opts, rankdb.WithListOption.Populate(Copy(es)))
	}
	c.Do("NewList", func() {
		l, err := rankdb.NewList(Ctx, e.ID, e.Set, e.Bs, opts...)
		if err != nil {
			c.Fatalf("NewList failed: %v", err)
		}
		e.List = l
	})
	switch how {
	case 0:
		if len(es) > 0 {
			e.adoptPopulated(es)
		}
	case 1:
		e.Populate(es)
	case 2:
		e.Insert(es)
	case 3:
		e.Update(es, 0, false)
	}
	return e
}

// adoptPopulated records elements that were stamped with the current time.
func (e *Env) adoptPopulated(es []Elem) {
	c := e.C
	c.Do("GetElements after NewList", func() {
		re, err := e.List.GetElements(Ctx, e.Bs, idsOf(es), 0)
		if err != nil {
			c.Fatalf("GetElements after NewList: %v", err)
		}
		up := map[rankdb.ElementID]uint32{}
		for _, r := range re {
			up[r.ID] = r.Updated
		}
		for _, x := range es {
			u, ok := up[x.ID]
			if !ok {
				c.Fatalf("element %d given to NewList is not in the list", x.ID)
			}
			if u < 1600000000 {
				c.Fatalf("element %d created with NewList has update time %d, want the current time", x.ID, u)
			}
			x.Updated = u
			e.Mo.Put(x)
		}
	})
}

func idsOf(es []Elem) []rankdb.ElementID {
	res := make([]rankdb.ElementID, len(es))
	for i := range es {
		res[i] = es[i].ID
	}
	return res
}

// Populate replaces the content.
func (e *Env) Populate(es []Elem) {
	e.C.Logf("populate %s", Strs(es))
	e.C.Do("Populate", func() {
		if err := e.List.Populate(Ctx, e.Bs, Copy(es)); err != nil {
			e.C.Fatalf("Populate failed: %v", err)
		}
	})
	e.Mo = Model{}
	e.Mo.Put(es...)
}

// Insert adds new elements.
func (e *Env) Insert(es []Elem) {
	e.C.Logf("insert %s", Strs(es))
	e.C.Do("Insert", func() {
		if err := e.List.Insert(Ctx, e.Bs, Copy(es)); err != nil {
			e.C.Fatalf("Insert failed: %v", err)
		}
	})
	e.Mo.Put(es...)
}

// Update updates or adds elements and checks the result.
func (e *Env) Update(es []Elem, radius int, results bool) {
	c := e.C
	c.Logf("update radius=%d results=%v %s", radius, results, Strs(es))
	before := e.Mo.Sorted()
	rank := map[rankdb.ElementID]int{}
	for i, x := range before {
		rank[x.ID] = i
	}
	var res rankdb.RankedElements
	c.Do("UpdateElements", func() {
		r, err := e.List.UpdateElements(Ctx, e.Bs, Copy(es), radius, results)
		if err != nil {
			c.Fatalf("UpdateElements failed: %v", err)
		}
		res = r
	})
	old := e.Mo.Clone()
	for _, x := range es {
		if x.Payload == nil {
			if o, ok := e.Mo[x.ID]; ok {
				x.Payload = o.Payload
			}
		}
		e.Mo.Put(x)
	}
	if !results {
		if len(res) != 0 {
			c.Fatalf("UpdateElements returned %d results though none were requested", len(res))
		}
		return
	}
	e.CheckRanked(res, idsOf(es), radius, "UpdateElements")
	for _, r := range res {
		o, had := old[r.ID]
		if !had {
			if r.Before != nil {
				c.Fatalf("UpdateElements reports a previous rank for new element %d", r.ID)
			}
			continue
		}
		if r.Before == nil {
			c.Fatalf("UpdateElements reports no previous rank for existing element %d", r.ID)
		}
		if r.Before.ID != o.ID || r.Before.Score != o.Score || r.Before.TieBreaker != o.TieBreaker || r.Before.Updated != o.Updated {
			c.Fatalf("UpdateElements: element before update was %s, reported %s", Str(o), Str(r.Before.Element))
		}
		if r.Before.FromTop != rank[r.ID] || r.Before.FromBottom != len(before)-1-rank[r.ID] {
			c.Fatalf("UpdateElements: element %d was at rank (%d from top, %d from bottom) before, reported (%d, %d)",
				r.ID, rank[r.ID], len(before)-1-rank[r.ID], r.Before.FromTop, r.Before.FromBottom)
		}
	}
}

// Delete removes elements.
func (e *Env) Delete(ids []rankdb.ElementID) {
	e.C.Logf("delete %v", ids)
	e.C.Do("DeleteElements", func() {
		if err := e.List.DeleteElements(Ctx, e.Bs, CopyIDs(ids)); err != nil {
			e.C.Fatalf("DeleteElements failed: %v", err)
		}
	})
	for _, id := range ids {
		delete(e.Mo, id)
	}
}

// ForceSplit splits and merges.
func (e *Env) ForceSplit() {
	e.C.Logf("force split")
	e.C.Do("ForceSplit", func() {
		if err := e.List.ForceSplit(Ctx, e.Bs); err != nil {
			e.C.Fatalf("ForceSplit failed: %v", err)
		}
	})
}

// Reindex re-creates the index.
func (e *Env) Reindex() {
	e.C.Logf("reindex")
	e.C.Do("Reindex", func() {
		if err := e.List.Reindex(Ctx, e.Bs); err != nil {
			e.C.Fatalf("Reindex failed: %v", err)
		}
	})
}

// Release drops the in-memory state.
func (e *Env) Release() {
	e.C.Logf("release")
	e.C.Do("ReleaseSegments", func() { e.List.ReleaseSegments(Ctx) })
}

// Reopen encodes the list and decodes it through a fresh catalogue.
func (e *Env) Reopen(newCache rankdb.Cache) {
	e.C.Logf("reopen cache=%v", newCache != nil)
	e.C.Do("reopen", func() {
		e.List = Reload(e.C, e.Bs, e.List, newCache)
	})
	e.Cache = newCache
}

// Reload saves the catalogue with the list and loads it in a new manager.
func Reload(c *h.Case, bs blobstore.Store, l *rankdb.List, cache rankdb.Cache) *rankdb.List {
	m, err := rankdb.NewManager(bs, "lists-"+string(l.ID))
	if err != nil {
		c.Fatalf("NewManager: %v", err)
	}
	if err := m.NewLists(cache); err != nil {
		c.Fatalf("NewLists: %v", err)
	}
	m.Lists.Add(l)
	if err := m.SaveLists(Ctx, false); err != nil {
		c.Fatalf("SaveLists: %v", err)
	}
	m2, err := rankdb.NewManager(bs, "lists-"+string(l.ID))
	if err != nil {
		c.Fatalf("NewManager: %v", err)
	}
	if err := m2.LoadLists(Ctx, cache); err != nil {
		c.Fatalf("LoadLists: %v", err)
	}
	n, ok := m2.Lists.ByID(l.ID)
	if !ok {
		c.Fatalf("list %q is not in the reloaded catalogue", l.ID)
	}
	return n
}

// Verify runs both verifications.
func (e *Env) Verify() {
	e.C.Do("Verify", func() {
		if err := e.List.Verify(Ctx, e.Bs); err != nil {
			e.C.Fatalf("Verify reports an error on a healthy list: %v", err)
		}
		if err := e.List.VerifyElements(Ctx, e.Bs); err != nil {
			e.C.Fatalf("VerifyElements reports an error on a healthy list: %v", err)
		}
	})
}

func checkNeighbours(c *h.Case, what string, r *rankdb.RankedElement, sorted []Elem, i, radius int) {
	if r.FromTop != i || r.FromBottom != len(sorted)-1-i {
		c.Fatalf("%s: element %d has rank (%d, %d), reported (%d, %d)", what, r.ID, i, len(sorted)-1-i, r.FromTop, r.FromBottom)
	}
	var above, below []Elem
	for k := 1; k <= radius; k++ {
		if i-k >= 0 {
			above = append(above, sorted[i-k])
		}
		if i+k < len(sorted) {
			below = append(below, sorted[i+k])
		}
	}
	if d := DiffElems(r.Above, above); d != "" {
		c.Fatalf("%s: neighbours above element %d (radius %d) wrong: %s", what, r.ID, radius, d)
	}
	if d := DiffElems(r.Below, below); d != "" {
		c.Fatalf("%s: neighbours below element %d (radius %d) wrong: %s", what, r.ID, radius, d)
	}
}

// CheckRanked compares a lookup result with the model.
func (e *Env) CheckRanked(res rankdb.RankedElements, ids []rankdb.ElementID, radius int, what string) {
	CheckRanked(e.C, e.Mo, res, ids, radius, what)
}

// CheckRanked compares a lookup result with the model.
func CheckRanked(c *h.Case, mo Model, res rankdb.RankedElements, ids []rankdb.ElementID, radius int, what string) {
	sorted := mo.Sorted()
	pos := make(map[rankdb.ElementID]int, len(sorted))
	for i, x := range sorted {
		pos[x.ID] = i
	}
	want := map[int]bool{}
	for _, id := range ids {
		if i, ok := pos[id]; ok {
			want[i] = true
		}
	}
	var order []int
	for i := range want {
		order = append(order, i)
	}
	sort.Ints(order)
	var wantE, gotE []Elem
	for _, i := range order {
		wantE = append(wantE, sorted[i])
	}
	for _, r := range res {
		gotE = append(gotE, r.Element)
	}
	if d := DiffElems(gotE, wantE); d != "" {
		c.Fatalf("%s: wrong elements: %s", what, d)
	}
	for k := range res {
		checkNeighbours(c, what, &res[k], sorted, order[k], radius)
	}
}

// Lookup checks GetElements.
func (e *Env) Lookup(ids []rankdb.ElementID, radius int) {
	var res rankdb.RankedElements
	e.C.Do("GetElements", func() {
		r, err := e.List.GetElements(Ctx, e.Bs, CopyIDs(ids), radius)
		if err != nil {
			e.C.Fatalf("GetElements failed: %v", err)
		}
		res = r
	})
	e.CheckRanked(res, ids, radius, fmt.Sprintf("GetElements(%v, radius %d)", ids, radius))
}

func window(sorted []Elem, from, n int) []Elem {
	if from >= len(sorted) || n <= 0 {
		return nil
	}
	if from+n > len(sorted) || from+n < from {
		n = len(sorted) - from
	}
	return sorted[from : from+n]
}

// Top checks GetRankTop.
func (e *Env) Top(off, n int) {
	sorted := e.Mo.Sorted()
	e.C.Do("GetRankTop", func() {
		got, err := e.List.GetRankTop(Ctx, e.Bs, off, n)
		if off >= len(sorted) {
			if err != rankdb.ErrOffsetOutOfBounds {
				e.C.Fatalf("GetRankTop(%d, %d) of %d elements: got %v, %v; want out-of-bounds error", off, n, len(sorted), got, err)
			}
			return
		}
		if err != nil {
			e.C.Fatalf("GetRankTop(%d, %d) of %d elements: %v", off, n, len(sorted), err)
		}
		if d := DiffElems(got, window(sorted, off, n)); d != "" {
			e.C.Fatalf("GetRankTop(%d, %d): %s", off, n, d)
		}
	})
}

// Bottom checks GetRankBottom.
func (e *Env) Bottom(off, n int) {
	sorted := e.Mo.Sorted()
	e.C.Do("GetRankBottom", func() {
		got, err := e.List.GetRankBottom(Ctx, e.Bs, off, n)
		if off >= len(sorted) {
			if err != rankdb.ErrOffsetOutOfBounds {
				e.C.Fatalf("GetRankBottom(%d, %d) of %d elements: got %v, %v; want out-of-bounds error", off, n, len(sorted), got, err)
			}
			return
		}
		if err != nil {
			e.C.Fatalf("GetRankBottom(%d, %d) of %d elements: %v", off, n, len(sorted), err)
		}
		if d := DiffElems(got, window(sorted, len(sorted)-1-off, n)); d != "" {
			e.C.Fatalf("GetRankBottom(%d, %d) of %d: %s", off, n, len(sorted), d)
		}
	})
}

// ScoreDesc checks GetRankScoreDesc.
func (e *Env) ScoreDesc(score uint64, n int) {
	sorted := e.Mo.Sorted()
	i := sort.Search(len(sorted), func(i int) bool { return sorted[i].Score <= score })
	e.C.Do("GetRankScoreDesc", func() {
		got, err := e.List.GetRankScoreDesc(Ctx, e.Bs, score, n)
		if err != nil {
			e.C.Fatalf("GetRankScoreDesc(%d, %d): %v", score, n, err)
		}
		if d := DiffElems(got.Elements(), window(sorted, i, n)); d != "" {
			e.C.Fatalf("GetRankScoreDesc(%d, %d): %s", score, n, d)
		}
		for k, r := range got {
			if r.FromTop != i+k || r.FromBottom != len(sorted)-1-i-k {
				e.C.Fatalf("GetRankScoreDesc(%d, %d): element %d has rank (%d, %d), reported (%d, %d)", score, n, r.ID, i+k, len(sorted)-1-i-k, r.FromTop, r.FromBottom)
			}
		}
	})
}

// Percentile checks GetPercentile. On an empty list no element may be returned.
func (e *Env) Percentile(p float64, radius int) {
	sorted := e.Mo.Sorted()
	e.C.Do("GetPercentile", func() {
		got, err := e.List.GetPercentile(Ctx, e.Bs, p, radius)
		if len(sorted) == 0 {
			if got != nil {
				e.C.Fatalf("GetPercentile(%v) of an empty list returned %v", p, Str(got.Element))
			}
			return // nil without an error, or an error
		}
		if err != nil || got == nil {
			e.C.Fatalf("GetPercentile(%v): got %v, error %v", p, got, err)
		}
		q := p
		if q > 1 {
			q = 1
		}
		if q < 0 {
			q = 0
		}
		// floor(q*n), computed exactly
		r := new(big.Rat)
		r.SetFloat64(q)
		r.Mul(r, new(big.Rat).SetInt64(int64(len(sorted))))
		idx := int(new(big.Int).Div(r.Num(), r.Denom()).Int64())
		if idx >= len(sorted) {
			idx = len(sorted) - 1
		}
		// The product is computed with rounding: accept the neighbour on an exact tie within 1e-9.
		ok := []int{idx}
		fl := q * float64(len(sorted))
		if d := fl - float64(idx); d < 1e-9 && idx > 0 {
			ok = append(ok, idx-1)
		}
		if d := float64(idx+1) - fl; d < 1e-9 && idx+1 < len(sorted) {
			ok = append(ok, idx+1)
		}
		for _, i := range ok {
			if Same(sorted[i], got.Element) {
				checkNeighbours(e.C, fmt.Sprintf("GetPercentile(%v)", p), got, sorted, i, radius)
				return
			}
		}
		e.C.Fatalf("GetPercentile(%v) of %d elements: got %s want %s", p, len(sorted), Str(got.Element), Str(sorted[idx]))
	})
}

// LenStats checks Len and Stats.
func (e *Env) LenStats() {
	sorted := e.Mo.Sorted()
	e.C.Do("Len/Stats", func() {
		n, err := e.List.Len(Ctx, e.Bs)
		if err != nil || n != len(sorted) {
			e.C.Fatalf("Len: got %d, %v; want %d", n, err, len(sorted))
		}
		for _, full := range []bool{true, false} {
			st, err := e.List.Stats(Ctx, e.Bs, full)
			if err != nil {
				e.C.Fatalf("Stats: %v", err)
			}
			if st.Elements != len(sorted) {
				e.C.Fatalf("Stats: %d elements, want %d", st.Elements, len(sorted))
			}
			if st.Segments < 1 {
				e.C.Fatalf("Stats: %d segments", st.Segments)
			}
			if !full || len(sorted) == 0 {
				if st.Top != nil || st.Bottom != nil {
					e.C.Fatalf("Stats(elements=%v) of %d elements: unexpected top or bottom", full, len(sorted))
				}
				continue
			}
			if st.Top == nil || st.Bottom == nil {
				e.C.Fatalf("Stats: top or bottom missing")
			}
			if !Same(st.Top.Element, sorted[0]) || st.Top.FromTop != 0 || st.Top.FromBottom != len(sorted)-1 {
				e.C.Fatalf("Stats: top is %s (%d, %d), want %s", Str(st.Top.Element), st.Top.FromTop, st.Top.FromBottom, Str(sorted[0]))
			}
			if l := sorted[len(sorted)-1]; !Same(st.Bottom.Element, l) || st.Bottom.FromTop != len(sorted)-1 || st.Bottom.FromBottom != 0 {
				e.C.Fatalf("Stats: bottom is %s (%d, %d), want %s", Str(st.Bottom.Element), st.Bottom.FromTop, st.Bottom.FromBottom, Str(l))
			}
		}
	})
}

// All compares the complete content and every element's rank.
func (e *Env) All() {
	sorted := e.Mo.Sorted()
	e.C.Do("full comparison", func() {
		n, err := e.List.Len(Ctx, e.Bs)
		if err != nil || n != len(sorted) {
			e.C.Fatalf("Len: got %d, %v; want %d", n, err, len(sorted))
		}
		if len(sorted) > 0 {
			got, err := e.List.GetRankTop(Ctx, e.Bs, 0, len(sorted)+5)
			if err != nil {
				e.C.Fatalf("GetRankTop: %v", err)
			}
			if d := DiffElems(got, sorted); d != "" {
				e.C.Fatalf("content differs: %s", d)
			}
		} else if got, err := e.List.GetRankTop(Ctx, e.Bs, 0, 5); err != rankdb.ErrOffsetOutOfBounds {
			e.C.Fatalf("GetRankTop of an empty list: %v, %v", got, err)
		}
	})
	e.Lookup(e.Mo.IDs(), 0)
	// Unknown IDs of the domain must not be found.
	var unknown []rankdb.ElementID
	seen := map[uint64]bool{}
	for _, id := range e.P.IDs {
		if _, ok := e.Mo[rankdb.ElementID(id)]; !ok && !seen[id] {
			unknown = append(unknown, rankdb.ElementID(id))
		}
		seen[id] = true
	}
	if len(unknown) > 0 {
		e.Lookup(unknown, 1)
	}
}

// Segments returns the partition table as stored.
func (e *Env) Segments() (scores, index *rankdb.Segments) {
	ws := blobstore.StoreWithSet(e.Mem, e.Set)
	s, err := e.List.Scores.Load(Ctx, ws, nil)
	if err != nil {
		e.C.Fatalf("loading stored partition table: %v", err)
	}
	i, err := e.List.Index.Load(Ctx, ws, nil)
	if err != nil {
		e.C.Fatalf("loading stored index table: %v", err)
	}
	return s, i
}

// RandomWrite performs one generated write operation and returns its name.
func (e *Env) RandomWrite(maxBatch int) string {
	c := e.C
	has := func(id rankdb.ElementID) bool { _, ok := e.Mo[id]; return ok }
	switch k := rapid.IntRange(0, 11).Draw(c.T, "op"); k {
	case 0, 1, 2, 3, 4:
		n := rapid.IntRange(1, maxBatch).Draw(c.T, "batch")
		ids := e.P.PickIDs(c, n, func(rankdb.ElementID) bool { return true })
		e.Update(e.P.Elems(c, ids), rapid.IntRange(0, 4).Draw(c.T, "radius"), rapid.IntRange(0, 3).Draw(c.T, "results") > 0)
		return "update"
	case 5, 6:
		n := rapid.IntRange(1, maxBatch).Draw(c.T, "batch")
		ids := e.P.PickIDs(c, n, func(id rankdb.ElementID) bool { return !has(id) })
		e.Insert(e.P.Elems(c, ids))
		return "insert"
	case 7, 8:
		n := rapid.IntRange(1, maxBatch).Draw(c.T, "batch")
		ids := e.P.PickIDs(c, n, func(rankdb.ElementID) bool { return true })
		e.Delete(ids)
		return "delete"
	case 9, 10:
		e.ForceSplit()
		return "split"
	default:
		n := rapid.IntRange(0, maxBatch*2).Draw(c.T, "batch")
		ids := e.P.PickIDs(c, n, func(rankdb.ElementID) bool { return true })
		e.Populate(e.P.Elems(c, ids))
		return "populate"
	}
}

// SizesOf returns the partition sizes.
func SizesOf(s *rankdb.Segments) []int {
	var r []int
	for i := range s.Segments {
		r = append(r, s.Segments[i].N)
	}
	return r
}

func init() {
	if os.Getenv("VERIF_LOG") != "" {
		Ctx = context.Background()
	}
}
