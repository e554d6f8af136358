package api

import (
	"bytes"
	"fmt"
	"math/big"
	"net/url"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

func toID(id uint64) rankdb.ElementID { return rankdb.ElementID(id) }

// same compares an element of a response (not its position) with the reference.
func (w *W) same(what string, g resElem, e m.Elem) {
	gp, ep := []byte(g.Payload), e.Payload
	if string(gp) == "null" {
		gp = nil
	}
	ok := g.ID == uint64(e.ID) && g.Score == e.Score
	if w.CT == tMsgp {
		ok = ok && bytes.Equal(gp, ep)
	} else {
		ok = ok && sameJSON(gp, ep)
	}
	if !ok {
		w.C.Fatalf("%s: got id %d score %d payload %q, want %s payload %q", what, g.ID, g.Score, g.Payload, m.Str(e), ep)
	}
}

// def compares the fields of the default view.
func (w *W) def(what string, l *L, g resElem, e m.Elem) {
	w.same(what, g, e)
	if g.TieBreaker != e.TieBreaker || g.UpdatedAt.Unix() != int64(e.Updated) || g.ListID != l.ID {
		w.C.Fatalf("%s: got tie_breaker %d updated_at %d list %q, want %s in %q", what, g.TieBreaker, g.UpdatedAt.Unix(), g.ListID, m.Str(e), l.ID)
	}
}

// at checks that g is the element at rank i of the list.
func (w *W) at(what string, l *L, sorted []m.Elem, g resElem, i int) {
	if i < 0 || i >= len(sorted) {
		w.C.Fatalf("%s: there is no rank %d", what, i)
	}
	w.def(what, l, g, sorted[i])
	if g.FromTop != i || g.FromBottom != len(sorted)-1-i {
		w.C.Fatalf("%s: element %d has from_top %d from_bottom %d, want %d and %d", what, g.ID, g.FromTop, g.FromBottom, i, len(sorted)-1-i)
	}
}

// full checks an element of the full view with its neighbours.
func (w *W) full(what string, l *L, sorted []m.Elem, g resElem, i, radius int) {
	w.at(what, l, sorted, g, i)
	lo, hi := i-radius, i+radius+1
	if lo < 0 {
		lo = 0
	}
	if hi > len(sorted) {
		hi = len(sorted)
	}
	var above, below []resElem
	if g.Neighbors != nil {
		above, below = g.Neighbors.Above, g.Neighbors.Below
	}
	if len(above) != i-lo || len(below) != hi-i-1 {
		w.C.Fatalf("%s: %d neighbours above and %d below rank %d of %d with range %d, want %d and %d", what, len(above), len(below), i, len(sorted), radius, i-lo, hi-i-1)
	}
	for k, a := range above {
		w.at(fmt.Sprintf("%s: neighbour above no. %d (of %d)", what, k, len(above)), l, sorted, a, lo+k)
	}
	for k, b := range below {
		w.at(fmt.Sprintf("%s: neighbour below no. %d", what, k), l, sorted, b, i+1+k)
	}
}

func rankOf(sorted []m.Elem, id uint64) int {
	for i, e := range sorted {
		if uint64(e.ID) == id {
			return i
		}
	}
	return -1
}

// stamp sets the update time of elements written by the last request, which ran between t0 and now.
func (w *W) stamp(l *L, t0 time.Time, es []m.Elem) []m.Elem {
	if len(es) == 0 {
		return es
	}
	t1 := time.Now()
	u := uint32(t0.Unix())
	if t0.Unix() != t1.Unix() {
		// The second changed on the way: the server tells which one it was.
		var res resMulti
		r := w.S.Send(w.C, Req{Method: "POST", Path: "/lists/" + l.ID + "/elements/find", Body: reqIDs{IDs: []uint64{uint64(es[0].ID)}}, CT: tJSON, Accept: tJSON, Token: w.Token})
		if r.Status != 200 {
			w.C.Fatalf("find: %v", r)
		}
		r.Decode(w.C, &res)
		if len(res.Found) != 1 {
			w.C.Fatalf("element %d is not found after it was written: %v", es[0].ID, r)
		}
		g := res.Found[0].UpdatedAt.Unix()
		if g < t0.Unix() || g > t1.Unix() {
			w.C.Fatalf("element %d was written between %d and %d, but updated_at is %d", es[0].ID, t0.Unix(), t1.Unix(), g)
		}
		u = uint32(g)
	}
	for i := range es {
		es[i].Updated = u
	}
	return es
}

// apply writes elements to the reference; no payload keeps the old one.
func (l *L) apply(es []m.Elem) {
	for _, e := range es {
		if old, ok := l.Mo[e.ID]; ok && e.Payload == nil {
			e.Payload = old.Payload
		}
		l.Mo[e.ID] = e
	}
}

// genRange draws the range parameter.
func (w *W) genRange(q url.Values) int {
	k := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 7, 25, 99, 100}).Draw(w.C.T, "range")
	if k < 0 {
		return 5
	}
	q.Set("range", strconv.Itoa(k))
	return k
}

func (w *W) genID() uint64 { return uint64(w.Prof.ID(w.C)) }

// genIDs draws ids, possibly repeated, existing or not.
func (w *W) genIDs(max int) []uint64 {
	n := rapid.IntRange(0, max).Draw(w.C.T, "n")
	res := make([]uint64, n)
	for i := range res {
		res[i] = w.genID()
	}
	return res
}

// genBatch draws different elements.
func (w *W) genBatch(max int) (rs []reqElem, es []m.Elem) {
	n := rapid.IntRange(0, max).Draw(w.C.T, "n")
	ids := w.Prof.PickIDs(w.C, n, func(rankdb.ElementID) bool { return true })
	for _, id := range ids {
		r, e := w.genElem(uint64(id))
		rs, es = append(rs, r), append(es, e)
	}
	return rs, es
}

func intp(i int) *int    { return &i }
func boolp(b bool) *bool { return &b }

// create makes a list.
func (w *W) create(id string, max int) *L {
	c := w.C
	l := &L{ID: id, Mo: m.Model{}}
	l.Set = rapid.SampledFrom([]string{"set-a", "set-b", "set.c"}).Draw(c.T, "set")
	r := reqList{ID: id, Set: l.Set}
	l.Merge, l.Split = 500, 2000
	if rapid.IntRange(0, 5).Draw(c.T, "sizes") > 0 {
		l.Merge = rapid.IntRange(10, 14).Draw(c.T, "merge")
		l.Split = l.Merge + rapid.IntRange(1, 12).Draw(c.T, "split")
		r.MergeSize, r.SplitSize = intp(l.Merge), intp(l.Split)
	}
	if rapid.Bool().Draw(c.T, "load") {
		l.LoadIndex = true
		r.LoadIndex = boolp(true)
	}
	l.Meta = map[string]string{}
	for k := 0; k < rapid.IntRange(0, 2).Draw(c.T, "nmeta"); k++ {
		l.Meta[rapid.SampledFrom([]string{"game", "country"}).Draw(c.T, "mk")] = rapid.SampledFrom([]string{"1", "2", "dk"}).Draw(c.T, "mv")
	}
	if len(l.Meta) > 0 {
		r.Metadata = l.Meta
	}
	rs, es := w.genBatch(max)
	r.Populate = rs
	var res resList
	t0 := time.Now()
	w.want(200, Req{Method: "POST", Path: "/lists", Body: r}, &res)
	w.Lists[id] = l
	es = w.stamp(l, t0, es)
	l.apply(es)
	w.checkList(l, &res, true)
	return l
}

// checkList checks the full view of a list.
func (w *W) checkList(l *L, g *resList, top bool) {
	c := w.C
	w.checkDef(l, g)
	n := len(l.Mo)
	if g.Elements == nil || *g.Elements != n {
		c.Fatalf("list %s: elements %v, want %d", l.ID, str(g.Elements), n)
	}
	if g.Segments == nil || g.Avg == nil {
		c.Fatalf("list %s: segments or average missing", l.ID)
	}
	if *g.Segments > 0 {
		if d := *g.Avg - float64(n)/float64(*g.Segments); d > 1e-6 || d < -1e-6 {
			c.Fatalf("list %s: average %v of %d elements in %d segments", l.ID, *g.Avg, n, *g.Segments)
		}
	}
	if !top || n == 0 {
		if g.TopElement != nil || g.BottomElement != nil {
			c.Fatalf("list %s: top or bottom element was returned (wanted %v, %d elements)", l.ID, top, n)
		}
		return
	}
	s := l.Mo.Sorted()
	if g.TopElement == nil || g.BottomElement == nil {
		c.Fatalf("list %s: no top or bottom element", l.ID)
	}
	w.at("top_element of "+l.ID, l, s, *g.TopElement, 0)
	w.at("bottom_element of "+l.ID, l, s, *g.BottomElement, n-1)
}

func str(p *int) string {
	if p == nil {
		return "(none)"
	}
	return strconv.Itoa(*p)
}

// checkDef checks the default view of a list.
func (w *W) checkDef(l *L, g *resList) {
	ok := g.ID == l.ID && g.Set == l.Set && g.SplitSize == l.Split && g.MergeSize == l.Merge && g.LoadIndex == l.LoadIndex && len(g.Metadata) == len(l.Meta)
	for k, v := range l.Meta {
		ok = ok && g.Metadata[k] == v
	}
	if !ok {
		w.C.Fatalf("list is %+v, want %s in set %s, sizes %d/%d, load_index %v, metadata %v", *g, l.ID, l.Set, l.Merge, l.Split, l.LoadIndex, l.Meta)
	}
}

// All reads the complete list in pages and compares it.
func (w *W) All(l *L) {
	s := l.Mo.Sorted()
	if len(s) == 0 {
		r := w.send(Req{Method: "GET", Path: "/lists/" + l.ID + "/range", Query: url.Values{"from_top": {"0"}}})
		if r.Status != 404 {
			w.C.Fatalf("range of empty list %s: %v, want 404", l.ID, r)
		}
		return
	}
	var res []resElem
	w.want(200, Req{Method: "GET", Path: "/lists/" + l.ID + "/range", Query: url.Values{"from_top": {"0"}, "limit": {"1000"}}}, &res)
	if len(res) != len(s) {
		w.C.Fatalf("list %s has %d elements, want %d", l.ID, len(res), len(s))
	}
	for i, g := range res {
		w.at(fmt.Sprintf("list %s rank %d", l.ID, i), l, s, g, i)
	}
}

func (w *W) elemOp() {
	c := w.C
	var l *L
	if rapid.IntRange(0, 30).Draw(c.T, "nolist") == 0 {
		l = &L{ID: "no-such-list", Mo: m.Model{}}
		c.Class("unknown list")
	} else {
		l = w.pick()
	}
	missing := w.Lists[l.ID] == nil
	base := "/lists/" + l.ID + "/elements"
	q := url.Values{}
	sorted := l.Mo.Sorted()
	op := rapid.IntRange(0, 13).Draw(c.T, "op")
	// none requires not-found for an unknown list.
	none := func(r Req) bool {
		if !missing {
			return false
		}
		w.want(404, r, nil)
		return true
	}
	switch op {
	case 0: // create
		id := w.genID()
		radius := w.genRange(q)
		r, e := w.genElem(id)
		req := Req{Method: "POST", Path: base, Query: q, Body: r}
		if none(req) {
			return
		}
		if _, ok := l.Mo[e.ID]; ok {
			w.want(409, req, nil)
			c.Class("create existing")
			w.lookup(l, []uint64{id})
			return
		}
		var g resElem
		t0 := time.Now()
		w.want(200, req, &g)
		l.apply(w.stamp(l, t0, []m.Elem{e}))
		s := l.Mo.Sorted()
		w.full("create", l, s, g, rankOf(s, id), radius)
		c.Class("create")
	case 1, 2: // put
		id := w.genID()
		radius := w.genRange(q)
		r, e := w.genElem(id)
		req := Req{Method: "PUT", Path: base + "/" + u64(id), Query: q, Body: r}
		if none(req) {
			return
		}
		var g resElem
		t0 := time.Now()
		w.want(200, req, &g)
		l.apply(w.stamp(l, t0, []m.Elem{e}))
		s := l.Mo.Sorted()
		w.full("put", l, s, g, rankOf(s, id), radius)
		if i := rankOf(sorted, id); i >= 0 {
			if g.PreviousRank == nil {
				c.Fatalf("put of existing element %d has no previous rank", id)
			}
			// Position, score, tie-breaker and time of the old rank; the payload is not part of it.
			p := *g.PreviousRank
			p.Payload = sorted[i].Payload
			w.at("previous_rank", l, sorted, p, i)
			c.Class("put existing")
		} else if g.PreviousRank != nil {
			c.Fatalf("put of new element %d has a previous rank %+v", id, *g.PreviousRank)
		}
	case 3, 4: // put-multi
		rs, es := w.genBatch(20)
		results := rapid.Bool().Draw(c.T, "results")
		if results || rapid.Bool().Draw(c.T, "explicit") {
			q.Set("results", fmt.Sprint(results))
		}
		if rs == nil {
			rs = []reqElem{}
		}
		req := Req{Method: "PUT", Path: base, Query: q, Body: rs}
		if none(req) {
			return
		}
		var g resMulti
		t0 := time.Now()
		w.want(200, req, &g)
		l.apply(w.stamp(l, t0, es))
		if len(g.NotFound) != 0 {
			c.Fatalf("put-multi returned not_found %v", g.NotFound)
		}
		if !results {
			if len(g.Found) != 0 {
				c.Fatalf("put-multi returned results that were not asked for")
			}
		} else {
			var ids []uint64
			for _, e := range es {
				ids = append(ids, uint64(e.ID))
			}
			w.found("put-multi", l, g.Found, ids)
		}
		c.Class("put-multi")
	case 5: // delete
		id := w.genID()
		req := Req{Method: "DELETE", Path: base + "/" + u64(id)}
		if none(req) {
			return
		}
		w.want(204, req, nil)
		delete(l.Mo, toID(id))
		c.Class("delete")
	case 6: // delete-multi
		ids := w.genIDs(8)
		if rapid.IntRange(0, 8).Draw(c.T, "most") == 0 {
			for id := range l.Mo {
				ids = append(ids, uint64(id))
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		}
		for _, id := range ids {
			q.Add("element_ids", u64(id))
		}
		req := Req{Method: "DELETE", Path: base, Query: q}
		if none(req) {
			return
		}
		w.want(204, req, nil)
		for _, id := range ids {
			delete(l.Mo, toID(id))
		}
		c.Class("delete-multi")
	case 7: // get
		id := w.genID()
		radius := w.genRange(q)
		req := Req{Method: "GET", Path: base + "/" + u64(id), Query: q}
		if none(req) {
			return
		}
		i := rankOf(sorted, id)
		if i < 0 {
			w.want(404, req, nil)
			c.Class("get missing")
			return
		}
		var g resElem
		w.want(200, req, &g)
		w.full("get", l, sorted, g, i, radius)
		c.Class("get")
	case 8: // find
		ids := w.genIDs(12)
		if none(Req{Method: "POST", Path: base + "/find", Body: reqIDs{IDs: ids}}) {
			return
		}
		w.lookup(l, ids)
		c.Class("find")
	case 9: // around
		id := w.genID()
		ids := w.genIDs(12)
		radius := w.genRange(q)
		req := Req{Method: "POST", Path: base + "/" + u64(id) + "/around", Query: q, Body: reqIDs{IDs: ids}}
		if none(req) {
			return
		}
		w.around(l, sorted, req, id, ids, radius)
	case 10: // range
		n := len(sorted)
		off := rapid.SampledFrom([]int{0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 1000}).Draw(c.T, "off")
		if off < 0 {
			off = 0
		}
		if rapid.Bool().Draw(c.T, "anyoff") {
			off = rapid.IntRange(0, n+1).Draw(c.T, "off2")
		}
		limit := 25
		if k := rapid.SampledFrom([]int{-1, 1, 2, 3, 10, 11, 24, 100, 1000}).Draw(c.T, "limit"); k > 0 {
			limit = k
			q.Set("limit", strconv.Itoa(k))
		}
		top := rapid.Bool().Draw(c.T, "top")
		if top {
			q.Set("from_top", strconv.Itoa(off))
		} else {
			q.Set("from_bottom", strconv.Itoa(off))
		}
		req := Req{Method: "GET", Path: "/lists/" + l.ID + "/range", Query: q}
		if none(req) {
			return
		}
		if off >= n {
			w.want(404, req, nil)
			c.Class("range beyond the end")
			return
		}
		var g []resElem
		w.want(200, req, &g)
		first := off
		if !top {
			first = n - 1 - off
		}
		cnt := n - first
		if cnt > limit {
			cnt = limit
		}
		if len(g) != cnt {
			c.Fatalf("range from %d limit %d of %d elements returned %d, want %d", first, limit, n, len(g), cnt)
		}
		for k := range g {
			w.at(fmt.Sprintf("range item %d", k), l, sorted, g[k], first+k)
		}
		c.Class("range")
	case 11: // percentile
		p := "50.0"
		switch rapid.IntRange(0, 3).Draw(c.T, "pk") {
		case 0:
		case 1:
			p = rapid.SampledFrom([]string{"0", "100", "99.999", "0.0001", "1e1", "33.333333", "75.", "0x1p5"}).Draw(c.T, "p")
		case 2:
			p = strconv.Itoa(rapid.IntRange(0, 100).Draw(c.T, "p"))
		default:
			p = strconv.FormatFloat(rapid.Float64Range(0, 100).Draw(c.T, "p"), 'g', -1, 64)
		}
		if p != "50.0" {
			q.Set("from_top", p)
		}
		radius := w.genRange(q)
		req := Req{Method: "GET", Path: "/lists/" + l.ID + "/percentile", Query: q}
		if none(req) {
			return
		}
		if len(sorted) == 0 {
			w.want(404, req, nil)
			return
		}
		var g resElem
		w.want(200, req, &g)
		f, err := strconv.ParseFloat(p, 64)
		if err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
		for _, i := range percentile(f, len(sorted)) {
			if uint64(sorted[i].ID) == g.ID {
				w.full("percentile", l, sorted, g, i, radius)
				c.Class("percentile")
				return
			}
		}
		c.Fatalf("percentile %s of %d elements returned rank %d", p, len(sorted), rankOf(sorted, g.ID))
	case 12: // list
		top := rapid.Bool().Draw(c.T, "tb")
		if top || rapid.Bool().Draw(c.T, "explicit") {
			q.Set("top_bottom", fmt.Sprint(top))
		}
		req := Req{Method: "GET", Path: "/lists/" + l.ID, Query: q}
		if none(req) {
			return
		}
		var g resList
		w.want(200, req, &g)
		w.checkList(l, &g, top)
		c.Class("list")
	case 13: // the element across lists
		w.xget()
	}
}

// percentile returns the acceptable ranks.
func percentile(pct float64, n int) []int {
	r := new(big.Rat)
	r.SetFloat64(pct)
	r.Mul(r, new(big.Rat).SetInt64(int64(n)))
	r.Quo(r, new(big.Rat).SetInt64(100))
	idx := int(new(big.Int).Div(r.Num(), r.Denom()).Int64())
	if idx >= n {
		idx = n - 1
	}
	ok := []int{idx}
	fl := pct / 100 * float64(n)
	if fl-float64(idx) < 1e-9 && idx > 0 {
		ok = append(ok, idx-1)
	}
	if float64(idx+1)-fl < 1e-9 && idx+1 < n {
		ok = append(ok, idx+1)
	}
	return ok
}

// found checks a result set: all of ids that exist, in rank order.
func (w *W) found(what string, l *L, got []resElem, ids []uint64) {
	sorted := l.Mo.Sorted()
	wantIDs := map[uint64]bool{}
	for _, id := range ids {
		if _, ok := l.Mo[toID(id)]; ok {
			wantIDs[id] = true
		}
	}
	if len(got) != len(wantIDs) {
		w.C.Fatalf("%s: %d elements found, want %d", what, len(got), len(wantIDs))
	}
	last := -1
	for k, g := range got {
		i := rankOf(sorted, g.ID)
		if !wantIDs[g.ID] {
			w.C.Fatalf("%s: element %d was not asked for or does not exist", what, g.ID)
		}
		w.at(fmt.Sprintf("%s: found no. %d", what, k), l, sorted, g, i)
		if i <= last {
			w.C.Fatalf("%s: results are not ordered by rank (%d after %d)", what, i, last)
		}
		last = i
	}
}

func (w *W) lookup(l *L, ids []uint64) {
	if ids == nil {
		ids = []uint64{}
	}
	var g resMulti
	w.want(200, Req{Method: "POST", Path: "/lists/" + l.ID + "/elements/find", Body: reqIDs{IDs: ids}}, &g)
	w.found("find", l, g.Found, ids)
	missing := map[uint64]bool{}
	for _, id := range ids {
		if _, ok := l.Mo[toID(id)]; !ok {
			missing[id] = true
		}
	}
	if len(g.NotFound) != len(missing) {
		w.C.Fatalf("find: not_found %v, want %v", g.NotFound, missing)
	}
	for _, id := range g.NotFound {
		if !missing[id] {
			w.C.Fatalf("find: not_found %v, want %v", g.NotFound, missing)
		}
		delete(missing, id)
	}
}

func (w *W) around(l *L, sorted []m.Elem, req Req, id uint64, ids []uint64, radius int) {
	c := w.C
	self := rankOf(sorted, id)
	if self < 0 {
		w.want(404, req, nil)
		c.Class("around missing")
		return
	}
	var g resElem
	w.want(200, req, &g)
	seen := map[uint64]bool{id: true}
	ranks := []int{self}
	for _, x := range ids {
		if i := rankOf(sorted, x); i >= 0 && !seen[x] {
			ranks = append(ranks, i)
			seen[x] = true
		}
	}
	sort.Ints(ranks)
	pos := sort.SearchInts(ranks, self)
	w.at("around", l, sorted, g, self)
	if g.LocalFromTop == nil || g.LocalFromBottom == nil || *g.LocalFromTop != pos || *g.LocalFromBottom != len(ranks)-1-pos {
		c.Fatalf("around: local_from_top %s local_from_bottom %s, want %d and %d", str(g.LocalFromTop), str(g.LocalFromBottom), pos, len(ranks)-1-pos)
	}
	lo, hi := pos-radius, pos+radius+1
	if lo < 0 {
		lo = 0
	}
	if hi > len(ranks) {
		hi = len(ranks)
	}
	var above, below []resElem
	if g.Neighbors != nil {
		above, below = g.Neighbors.Above, g.Neighbors.Below
	}
	if len(above) != pos-lo || len(below) != hi-pos-1 {
		c.Fatalf("around: %d above and %d below, want %d and %d", len(above), len(below), pos-lo, hi-pos-1)
	}
	for k, a := range above {
		w.at("around: above", l, sorted, a, ranks[lo+k])
	}
	for k, b := range below {
		w.at("around: below", l, sorted, b, ranks[pos+1+k])
	}
	c.Class("around")
}

// tiny checks the results of a multi-list operation for one list.
func (w *W) tiny(what string, l *L, got []resElem, ids []uint64) {
	sorted := l.Mo.Sorted()
	want := map[uint64]bool{}
	for _, id := range ids {
		if rankOf(sorted, id) >= 0 {
			want[id] = true
		}
	}
	if len(got) != len(want) {
		w.C.Fatalf("%s on %s: %d results, want %d", what, l.ID, len(got), len(want))
	}
	for _, g := range got {
		i := rankOf(sorted, g.ID)
		if i < 0 || !want[g.ID] {
			w.C.Fatalf("%s on %s: unexpected element %d", what, l.ID, g.ID)
		}
		delete(want, g.ID)
		w.same(what, g, sorted[i])
		if g.FromTop != i || g.FromBottom != len(sorted)-1-i {
			w.C.Fatalf("%s on %s: element %d has from_top %d from_bottom %d, want %d and %d", what, l.ID, g.ID, g.FromTop, g.FromBottom, i, len(sorted)-1-i)
		}
	}
}

// xget reads one element from some lists.
func (w *W) xget() {
	c := w.C
	id := w.genID()
	names := append(w.ids(), "unknown-list")
	n := rapid.IntRange(1, len(names)).Draw(c.T, "nlists")
	sel := rapid.Permutation(names).Draw(c.T, "lists")[:n]
	q := url.Values{"lists": sel}
	var g resX
	w.want(200, Req{Method: "GET", Path: "/xlist/elements/" + u64(id), Query: q}, &g)
	if len(g.Success)+len(g.Errors) != len(sel) {
		c.Fatalf("xlist get: %d outcomes for %d lists", len(g.Success)+len(g.Errors), len(sel))
	}
	for _, name := range sel {
		l := w.Lists[name]
		if l == nil {
			if g.Errors[name] == "" {
				c.Fatalf("xlist get: no error for unknown list %s", name)
			}
			continue
		}
		s := g.Success[name]
		if s == nil {
			c.Fatalf("xlist get: no result for list %s: error %q", name, g.Errors[name])
		}
		w.tiny("xlist get", l, s.Results, []uint64{id})
	}
	c.Class("xlist get")
}

// TestC23 drives the element endpoints against the reference list.
func TestC23(t *testing.T) {
	h.Assume("The server runs in a child process on the memory, Bolt and Badger stores; its clock and the harness' are the same")
	h.Run(t, "a case is non-trivial when some list grew beyond one partition and at least 8 requests with a judged content were answered", func(c *h.Case) {
		cf := confs[rapid.IntRange(0, len(confs)-1).Draw(c.T, "conf")]
		c.Logf("server %s", cf.Name)
		s := Get(c, cf, 0)
		w := NewW(c, s, m.GenProfile(c, rapid.SampledFrom([]int{8, 30, 90}).Draw(c.T, "nids")))
		w.Clean()
		s.dirty = true
		n := rapid.IntRange(1, 2).Draw(c.T, "nl")
		for i := 0; i < n; i++ {
			w.drawCT()
			w.create(fmt.Sprintf("list-%d", i), rapid.SampledFrom([]int{0, 10, 90}).Draw(c.T, "max"))
		}
		steps := rapid.IntRange(1, 25).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			w.drawCT()
			w.elemOp()
		}
		big := false
		for _, id := range w.ids() {
			l := w.Lists[id]
			w.All(l)
			if len(l.Mo) > l.Split {
				big = true
			}
		}
		if big && steps >= 8 {
			c.Nontrivial()
		}
		s.dirty = false
	})
}
