package codec

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/sortfloat"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// ---- C21 -----------------------------------------------------------------------------------

var specialFloats = []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Float64frombits(0x000fffffffffffff), math.Float64frombits(0x0010000000000000),
	math.Float64frombits(0x800fffffffffffff), math.Float64frombits(0x8010000000000000)}

func genFloat(c *h.Case, name string) float64 {
	switch rapid.IntRange(0, 9).Draw(c.T, name+".kind") {
	case 0, 1:
		return rapid.SampledFrom(specialFloats).Draw(c.T, name)
	case 2, 3: // neighbours of special values
		f := rapid.SampledFrom(specialFloats).Draw(c.T, name)
		b := math.Float64bits(f) + uint64(rapid.IntRange(-3, 3).Draw(c.T, name+".d"))
		return math.Float64frombits(b)
	case 4: // NaN with any payload and sign
		b := uint64(0x7ff0000000000000) | rapid.Uint64Range(1, 1<<52-1).Draw(c.T, name+".nan")
		if rapid.Bool().Draw(c.T, name+".neg") {
			b |= 1 << 63
		}
		return math.Float64frombits(b)
	case 5:
		return float64(rapid.IntRange(-1000, 1000).Draw(c.T, name)) / 8
	default:
		return math.Float64frombits(rapid.Uint64().Draw(c.T, name))
	}
}

func TestC21(t *testing.T) {
	h.Run(t, "groups of 2..40 doubles from raw bit patterns, special values and their neighbours, NaNs of every payload and both signs; order, injectivity and round trip of every pair, and of the bit-neighbours of each; non-trivial: at least two different non-NaN values", func(c *h.Case) {
		n := rapid.IntRange(2, 40).Draw(c.T, "n")
		fs := make([]float64, n)
		for i := range fs {
			fs[i] = genFloat(c, fmt.Sprint("f", i))
			c.Logf("%016x", math.Float64bits(fs[i]))
		}
		// Values right next to those drawn.
		for _, f := range fs[:n] {
			if f == f {
				fs = append(fs, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)))
			}
		}
		us := make([]uint64, len(fs))
		c.Do("Sortable", func() {
			for i, f := range fs {
				us[i] = sortfloat.SortableFloat64(f)
				r := sortfloat.ReverseFloat64(us[i])
				switch {
				case f != f:
					if r == r {
						c.Fatalf("NaN %016x came back as %v", math.Float64bits(f), r)
					}
				case f == 0:
					if r != 0 || math.Signbit(r) {
						c.Fatalf("zero %016x came back as %016x", math.Float64bits(f), math.Float64bits(r))
					}
				default:
					if math.Float64bits(r) != math.Float64bits(f) {
						c.Fatalf("%v (%016x) came back as %v (%016x) via %016x", f, math.Float64bits(f), r, math.Float64bits(r), us[i])
					}
				}
			}
		})
		distinct := map[float64]bool{}
		for i, a := range fs {
			if a == a {
				distinct[a] = true
			}
			for j, b := range fs {
				switch {
				case a != a && b != b:
					if us[i] != us[j] {
						c.Fatalf("two NaNs map to %x and %x", us[i], us[j])
					}
				case a != a: // NaN is documented to sort, below everything
					if us[i] >= us[j] {
						c.Fatalf("NaN maps to %x, not below %v at %x", us[i], b, us[j])
					}
				case b != b:
				case (a < b) != (us[i] < us[j]) || (a == b) != (us[i] == us[j]):
					c.Fatalf("%v and %v map to %x and %x", a, b, us[i], us[j])
				}
			}
		}
		if len(distinct) > 1 {
			c.Nontrivial()
		}
	})
}

// ---- C22 -----------------------------------------------------------------------------------

func sorted(es []m.Elem) []m.Elem {
	res := append([]m.Elem(nil), es...)
	sort.SliceStable(res, func(i, j int) bool { return m.Above(res[i], res[j]) })
	return res
}

// sameMultiset compares irrespective of order, checking that got is in order.
func checkSorted(c *h.Case, what string, got []m.Elem, want []m.Elem) {
	for i := 1; i < len(got); i++ {
		if m.Above(got[i], got[i-1]) {
			c.Fatalf("%s: %s at %d is out of order after %s", what, m.Str(got[i]), i, m.Str(got[i-1]))
		}
	}
	checkSame(c, what, got, want)
}

func key(e m.Elem) string {
	return fmt.Sprintf("%d/%d/%d/%d/%q", e.ID, e.Score, e.TieBreaker, e.Updated, e.Payload)
}

func checkSame(c *h.Case, what string, got []m.Elem, want []m.Elem) {
	cnt := map[string]int{}
	for _, e := range want {
		cnt[key(e)]++
	}
	for _, e := range got {
		cnt[key(e)]--
		if cnt[key(e)] < 0 {
			c.Fatalf("%s: %s was not expected (or too often)\n got %s\nwant %s", what, m.Str(e), m.Strs(got), m.Strs(want))
		}
	}
	if len(got) != len(want) {
		c.Fatalf("%s: %d elements, want %d\n got %s\nwant %s", what, len(got), len(want), m.Strs(got), m.Strs(want))
	}
}

func log(c *h.Case, what string, es []m.Elem) { c.Logf("%s %s", what, m.Strs(es)) }

// collection draws elements with few distinct scores, times and IDs; unique IDs if asked.
func collection(c *h.Case, p *m.Profile, name string, max int, unique bool) []m.Elem {
	n := rapid.IntRange(0, max).Draw(c.T, name+".n")
	seen := map[rankdb.ElementID]bool{}
	var res []m.Elem
	for i := 0; i < n; i++ {
		id := p.ID(c)
		if unique && seen[id] {
			continue
		}
		seen[id] = true
		res = append(res, p.Elem(c, id))
	}
	return res
}

// spare copies es into a slice with spare capacity holding sentinels.
func spare(c *h.Case, es []m.Elem) (rankdb.Elements, func(what string)) {
	extra := rapid.SampledFrom([]int{0, 0, 1, 3, 12}).Draw(c.T, "spare")
	full := make(rankdb.Elements, len(es)+extra)
	copy(full, m.Copy(es))
	return full[:len(es)], func(string) {}
}

func big(c *h.Case) {
	// The parallel sort of large collections.
	n := rapid.IntRange(25000, 31000).Draw(c.T, "n")
	spread := rapid.SampledFrom([]uint64{1, 2, 50, 3000, 1 << 40}).Draw(c.T, "spread")
	ties := rapid.SampledFrom([]uint32{1, 2, 1000}).Draw(c.T, "ties")
	order := rapid.IntRange(0, 3).Draw(c.T, "order")
	rng := rand.New(rand.NewSource(rapid.Int64().Draw(c.T, "seed")))
	es := make([]m.Elem, n)
	for i := range es {
		es[i] = m.Elem{ID: rankdb.ElementID(i), Score: uint64(rng.Int63()) % spread, TieBreaker: uint32(rng.Int63()) % ties, Updated: uint32(1 + rng.Intn(3))}
	}
	c.Logf("big n=%d spread=%d ties=%d order=%d", n, spread, ties, order)
	switch order {
	case 1:
		es = sorted(es)
		es[0], es[n-1] = es[n-1], es[0]
	case 2:
		es = sorted(es)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	case 3:
		es = sorted(es)
		k := rng.Intn(n)
		es = append(append([]m.Elem{}, es[k:]...), es[:k]...)
	}
	want := sorted(es)
	l := m.Copy(es)
	var changed bool
	c.Do("Sort", func() { changed = l.Sort() })
	if len(l) != n {
		c.Fatalf("Sort of %d elements left %d", n, len(l))
	}
	was := sort.SliceIsSorted(es, func(i, j int) bool { return m.Above(es[i], es[j]) })
	if changed == was {
		c.Fatalf("Sort reported change %v, was sorted %v", changed, was)
	}
	for i := range want {
		if !m.Same(l[i], want[i]) {
			c.Fatalf("Sort: position %d has %s, want %s", i, m.Str(l[i]), m.Str(want[i]))
		}
	}
	c.Class("large sort")
	c.Nontrivial()
}

func TestC22(t *testing.T) {
	h.Run(t, "collections of 0..60 (occasionally 25000..31000) elements with few distinct scores, tie-breakers, times and IDs, with and without spare capacity; every exported operation against its definition, with the operands' and the origin's content checked where they must not change; non-trivial: at least one operation on at least 3 elements", func(c *h.Case) {
		if rapid.IntRange(0, 120).Draw(c.T, "big") == 77 {
			big(c)
			return
		}
		p := m.GenProfile(c, rapid.IntRange(2, 70).Draw(c.T, "ids"))
		max := rapid.SampledFrom([]int{3, 12, 60}).Draw(c.T, "max")
		op := rapid.SampledFrom([]string{"dedup", "newelements", "sort", "insert", "merge", "merge", "mergededup", "add", "update", "delete", "split", "clone", "find", "ranked", "ids", "first", "minmax", "index", "single", "duplicates", "updatetime", "sequence", "sequence"}).Draw(c.T, "op")
		c.Logf("%s", op)
		c.Class(op)
		nontrivial := func(es []m.Elem) {
			if len(es) >= 3 {
				c.Nontrivial()
			}
		}
		switch op {
		case "dedup", "newelements", "duplicates":
			es := collection(c, p, "es", max, false)
			log(c, "on", es)
			nontrivial(es)
			l := m.Copy(es)
			byID := map[rankdb.ElementID][]m.Elem{}
			for _, e := range es {
				byID[e.ID] = append(byID[e.ID], e)
			}
			if op == "duplicates" {
				var err error
				c.Do(op, func() { err = l.HasDuplicates() })
				if (err != nil) != (len(byID) != len(es)) {
					c.Fatalf("HasDuplicates: %v", err)
				}
				return
			}
			var changed bool
			if op == "dedup" {
				c.Do(op, func() { changed = l.Deduplicate() })
				if changed != (len(byID) != len(es)) {
					c.Fatalf("Deduplicate reported change: %v", changed)
				}
			} else {
				in := []rankdb.Element(l)
				c.Do(op, func() { l = rankdb.NewElements(in) })
			}
			if len(l) != len(byID) {
				c.Fatalf("%d elements left of %d ids", len(l), len(byID))
			}
			seen := map[rankdb.ElementID]bool{}
			for i, e := range l {
				if i > 0 && m.Above(e, l[i-1]) {
					c.Fatalf("out of order at %d: %s", i, m.Strs(l))
				}
				if seen[e.ID] {
					c.Fatalf("id %d twice", e.ID)
				}
				seen[e.ID] = true
				ok := false
				for _, o := range byID[e.ID] {
					if o.Updated > e.Updated || (o.Updated == e.Updated && o.Score > e.Score) {
						c.Fatalf("kept %s although there was %s", m.Str(e), m.Str(o))
					}
					ok = ok || m.Same(o, e)
				}
				if !ok {
					c.Fatalf("invented %s", m.Str(e))
				}
			}
		case "sort":
			es := collection(c, p, "es", max, rapid.Bool().Draw(c.T, "unique"))
			log(c, "on", es)
			nontrivial(es)
			l := m.Copy(es)
			var changed bool
			c.Do(op, func() { changed = l.Sort() })
			was := sort.SliceIsSorted(es, func(i, j int) bool { return m.Above(es[i], es[j]) })
			if changed == was {
				c.Fatalf("Sort reported change %v", changed)
			}
			checkSorted(c, op, l, es)
		case "insert", "add", "update", "delete", "sequence":
			cur := sorted(collection(c, p, "es", max, true))
			log(c, "on", cur)
			l, _ := spare(c, cur)
			steps := 1
			if op == "sequence" {
				steps = rapid.IntRange(2, 15).Draw(c.T, "steps")
			}
			for i := 0; i < steps; i++ {
				o := op
				if op == "sequence" {
					o = rapid.SampledFrom([]string{"insert", "add", "update", "delete", "merge", "mergededup"}).Draw(c.T, "o")
				}
				nontrivial(cur)
				cur = step(c, p, o, &l, cur, max)
				checkSorted(c, o, l, cur)
			}
		case "merge", "mergededup":
			cur := sorted(collection(c, p, "es", max, true))
			log(c, "on", cur)
			l, _ := spare(c, cur)
			nontrivial(cur)
			cur = step(c, p, op, &l, cur, max)
			checkSorted(c, op, l, cur)
		case "split":
			es := sorted(collection(c, p, "es", max, true))
			n := rapid.IntRange(-1, len(es)+2).Draw(c.T, "each")
			log(c, fmt.Sprintf("%d of", n), es)
			nontrivial(es)
			l := m.Copy(es)
			var parts []rankdb.Elements
			c.Do(op, func() { parts = l.SplitSize(n) })
			if n < 1 {
				n = 1
			}
			var all []m.Elem
			for i, part := range parts {
				if len(part) == 0 && len(es) > 0 {
					c.Fatalf("part %d is empty", i)
				}
				if i > 0 {
					a, b := parts[i-1][len(parts[i-1])-1], part[0]
					if a.Score == b.Score && a.TieBreaker == b.TieBreaker {
						c.Fatalf("parts %d and %d share score and tie-breaker", i-1, i)
					}
				}
				// Parts are only too big when they can't be separated.
				if len(part) > n {
					a, b := part[n-1], part[len(part)-1]
					if a.Score != b.Score || a.TieBreaker != b.TieBreaker {
						// The extension beyond n must consist of ties only.
						c.Fatalf("part %d has %d elements, limit %d", i, len(part), n)
					}
				}
				all = append(all, part...)
			}
			if d := m.DiffElems(all, es); d != "" {
				c.Fatalf("parts do not make up the collection: %s", d)
			}
		case "clone":
			es := collection(c, p, "es", max, true)
			log(c, "on", es)
			nontrivial(es)
			l := m.Copy(es)
			payloads := rapid.Bool().Draw(c.T, "payloads")
			var cl rankdb.Elements
			c.Do(op, func() { cl = l.Clone(payloads) })
			if d := m.DiffElems(cl, es); d != "" {
				c.Fatalf("clone differs: %s", d)
			}
			// Scribble over the clone, or the origin.
			a, b := l, cl
			if rapid.Bool().Draw(c.T, "which") {
				a, b = b, a
			}
			for i := range a {
				if payloads {
					for j := range a[i].Payload {
						a[i].Payload[j] ^= 0xff
					}
				}
				a[i].Score++
				a[i].ID++
				a[i].Updated++
				a[i].TieBreaker++
				a[i].Payload = []byte("x")
			}
			if len(a) > 0 {
				_ = append(a[:0], m.Elem{ID: 999})
			}
			if d := m.DiffElems(b, es); d != "" {
				c.Fatalf("changing one of clone and origin changed the other: %s", d)
			}
		case "find":
			es := sorted(collection(c, p, "es", max, true))
			log(c, "on", es)
			nontrivial(es)
			l := m.Copy(es)
			id := p.ID(c)
			score := p.Score(c)
			c.Do(op, func() {
				e, err := l.Find(id)
				i, err2 := l.FindIdx(id)
				want := -1
				for k := range es {
					if es[k].ID == id {
						want = k
					}
				}
				if want < 0 {
					if err != rankdb.ErrNotFound || err2 != rankdb.ErrNotFound {
						c.Fatalf("absent %d: %v, %v", id, err, err2)
					}
				} else {
					if err != nil || err2 != nil || i != want || !m.Same(*e, es[want]) {
						c.Fatalf("find %d: %v %v %v %v", id, e, err, i, err2)
					}
					e.Score++
					e.ID += 7
					if !m.Same(l[want], es[want]) {
						c.Fatalf("changing a found element changed the collection")
					}
				}
				want = -1
				for k := range es {
					if es[k].Score == score {
						want = k
						break
					}
				}
				i, err = l.FindScoreIdx(score)
				if (want < 0) != (err == rankdb.ErrNotFound) || want >= 0 && (err != nil || i != want) {
					c.Fatalf("FindScoreIdx(%d): %d, %v, want %d", score, i, err, want)
				}
			})
		case "ranked":
			es := sorted(collection(c, p, "es", max, true))
			log(c, "on", es)
			nontrivial(es)
			off := rapid.IntRange(0, 1000).Draw(c.T, "off")
			total := off + len(es) + rapid.IntRange(0, 1000).Draw(c.T, "after")
			l := m.Copy(es)
			c.Do(op, func() {
				r := l.Ranked(off, total)
				check := func(what string, r rankdb.RankedElements, off, total int) {
					if len(r) != len(es) {
						c.Fatalf("%s: %d ranked", what, len(r))
					}
					for i := range r {
						if !m.Same(r[i].Element, es[i]) || r[i].FromTop != off+i || r[i].FromBottom != total-off-i-1 {
							c.Fatalf("%s: %d is %+v", what, i, r[i])
						}
					}
				}
				check("Ranked", r, off, total)
				if d := m.DiffElems(r.Elements(), es); d != "" {
					c.Fatalf("Elements: %s", d)
				}
				for i, id := range r.IDs() {
					if id != es[i].ID {
						c.Fatalf("IDs %d", i)
					}
				}
				r.Offset(5)
				check("Offset", r, off+5, total)
				r.CalculateFromBottom(total + 9)
				check("CalculateFromBottom", r, off+5, total+9)
				rand.New(rand.NewSource(int64(total))).Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
				r.Sort()
				check("Sort", r, off+5, total+9)
			})
		case "ids":
			a, b := collection(c, p, "a", max, false), collection(c, p, "b", max, false)
			nontrivial(a)
			c.Do(op, func() {
				ia, ib := rankdb.Elements(a).IDs(), rankdb.Elements(b).IDs()
				c.Logf("%v %v", ia, ib)
				inA, inB := map[rankdb.ElementID]bool{}, map[rankdb.ElementID]bool{}
				for i, e := range a {
					if ia[i] != e.ID {
						c.Fatalf("IDs")
					}
					inA[e.ID] = true
				}
				for _, e := range b {
					inB[e.ID] = true
				}
				if len(ia) != len(a) {
					c.Fatalf("IDs: %d", len(ia))
				}
				sc := ia.AsScore()
				for i := range ia {
					if sc[i] != uint64(ia[i]) {
						c.Fatalf("AsScore")
					}
				}
				if len(sc) != len(ia) || len(ia.Map()) != len(inA) {
					c.Fatalf("AsScore/Map size")
				}
				for id := range ia.Map() {
					if !inA[id] {
						c.Fatalf("Map has %d", id)
					}
				}
				checkSet := func(what string, got rankdb.ElementIDs, want func(id rankdb.ElementID) bool, from map[rankdb.ElementID]bool) {
					g := map[rankdb.ElementID]bool{}
					for _, id := range got {
						if !from[id] || !want(id) {
							c.Fatalf("%s has %d", what, id)
						}
						g[id] = true
					}
					for id := range from {
						if want(id) && !g[id] {
							c.Fatalf("%s misses %d", what, id)
						}
					}
				}
				orgA, orgB := append(rankdb.ElementIDs{}, ia...), append(rankdb.ElementIDs{}, ib...)
				ni := ia.NotIn(ib)
				checkSet("NotIn", ni, func(id rankdb.ElementID) bool { return !inB[id] }, inA)
				checkSet("Overlap", ia.Overlap(ib), func(id rankdb.ElementID) bool { return inA[id] && inB[id] }, inA)
				for i := range orgA {
					if orgA[i] != ia[i] {
						c.Fatalf("NotIn/Overlap changed the receiver")
					}
				}
				for i := range orgB {
					if orgB[i] != ib[i] {
						c.Fatalf("NotIn/Overlap changed the argument")
					}
				}
				s := append(rankdb.ElementIDs{}, ia...)
				s.Sort()
				if !sort.SliceIsSorted(s, func(i, j int) bool { return s[i] > s[j] }) || len(s) != len(ia) {
					c.Fatalf("Sort: %v", s)
				}
				d := append(rankdb.ElementIDs{}, ia...)
				d.Deduplicate()
				if len(d) != len(inA) || !sort.SliceIsSorted(d, func(i, j int) bool { return d[i] > d[j] }) {
					c.Fatalf("Deduplicate: %v", d)
				}
				checkSet("Deduplicate", d, func(rankdb.ElementID) bool { return true }, inA)
				for _, got := range []rankdb.ElementIDs{ni, d} {
					if len(got) != len(got.Map()) {
						c.Fatalf("repeated ids in a set: %v", got)
					}
				}
			})
		case "first":
			es := sorted(collection(c, p, "es", max, true))
			log(c, "on", es)
			nontrivial(es)
			set := map[uint64]bool{}
			for i, n := 0, rapid.IntRange(0, 8).Draw(c.T, "ns"); i < n; i++ {
				set[p.Score(c)] = true
			}
			var scores []uint64
			for s := range set {
				scores = append(scores, s)
			}
			sort.Slice(scores, func(i, j int) bool { return scores[i] > scores[j] })
			c.Logf("%v", scores)
			l := m.Copy(es)
			var res rankdb.Elements
			c.Do(op, func() { res = l.FirstElementsWithScore(append([]uint64{}, scores...)) })
			if len(res) > len(scores) {
				c.Fatalf("%d results for %d scores", len(res), len(scores))
			}
			for _, s := range scores {
				for i := range es {
					if es[i].Score == s { // the first with that score
						ok := false
						for _, r := range res {
							ok = ok || m.Same(r, es[i])
						}
						if !ok {
							c.Fatalf("first with score %d is missing from %s", s, m.Strs(res))
						}
						break
					}
				}
			}
			// Below the first score there is nothing before the first result.
			if len(scores) > 0 {
				for _, e := range es {
					if e.Score <= scores[0] {
						if len(res) == 0 || !m.Same(res[0], e) {
							c.Fatalf("first result is not the first at or below %d: %s", scores[0], m.Strs(res))
						}
						break
					}
				}
			}
		case "minmax":
			es := sorted(collection(c, p, "es", max, true))
			log(c, "on", es)
			nontrivial(es)
			c.Do(op, func() {
				min, max, minT, maxT := rankdb.Elements(es).MinMax()
				if len(es) == 0 {
					if min != 0 || max != math.MaxUint64 || minT != 0 || maxT != math.MaxUint32 {
						c.Fatalf("empty: %v %v %v %v", min, max, minT, maxT)
					}
					return
				}
				f, l := es[0], es[len(es)-1]
				if max != f.Score || maxT != f.TieBreaker || min != l.Score || minT != l.TieBreaker {
					c.Fatalf("%v %v %v %v", min, max, minT, maxT)
				}
			})
		case "index":
			es := collection(c, p, "es", max, true)
			log(c, "on", es)
			nontrivial(es)
			seg := rankdb.SegmentID(rapid.Uint32().Draw(c.T, "seg"))
			c.Do(op, func() {
				ix := rankdb.Elements(es).ElementIDs(seg)
				if len(ix.Elements) != len(es) {
					c.Fatalf("%d index elements", len(ix.Elements))
				}
				by := map[rankdb.ElementID]m.Elem{}
				for _, e := range es {
					by[e.ID] = e
				}
				for i, x := range ix.Elements {
					if i > 0 && x.Score > ix.Elements[i-1].Score {
						c.Fatalf("index out of order")
					}
					e, ok := by[x.ID]
					if !ok || x.Score != uint64(x.ID) || x.TieBreaker != uint32(seg) || x.Updated != e.Updated {
						c.Fatalf("index element %s", m.Str(x))
					}
				}
			})
		case "single":
			a, b, d := p.Elem(c, p.ID(c)), p.Elem(c, p.ID(c)), p.Elem(c, p.ID(c))
			if rapid.Bool().Draw(c.T, "edge") {
				a.Score = rapid.SampledFrom([]uint64{0, 1, math.MaxUint64, math.MaxUint64 - 1}).Draw(c.T, "score")
				a.TieBreaker = rapid.SampledFrom([]uint32{0, 1, math.MaxUint32, math.MaxUint32 - 1}).Draw(c.T, "tie")
			}
			log(c, "on", []m.Elem{a, b, d})
			c.Nontrivial()
			c.Do(op, func() {
				for _, q := range [][2]m.Elem{{a, b}, {b, d}, {a, d}, {a, a}} {
					if q[0].Above(q[1]) != m.Above(q[0], q[1]) {
						c.Fatalf("%s above %s: %v", m.Str(q[0]), m.Str(q[1]), q[0].Above(q[1]))
					}
					// Exactly one of above, below and equal.
					if q[0].Above(q[1]) && q[1].Above(q[0]) {
						c.Fatalf("both above the other")
					}
				}
				s, tie := a.PrevMax()
				low := m.Elem{Score: s, TieBreaker: tie}
				type st struct {
					s uint64
					t uint32
				}
				less := func(x, y st) bool { return x.s < y.s || x.s == y.s && x.t < y.t }
				A := st{a.Score, a.TieBreaker}
				L := st{low.Score, low.TieBreaker}
				if A != (st{}) {
					if !less(L, A) {
						c.Fatalf("PrevMax of %v is %v", A, L)
					}
					if s2, t2 := (m.Elem{Score: L.s, TieBreaker: L.t}).AboveThis(); (st{s2, t2}) != A {
						c.Fatalf("AboveThis of PrevMax of %v is %v", A, st{s2, t2})
					}
				} else if L != A {
					c.Fatalf("PrevMax of the lowest is %v", L)
				}
				s, tie = a.AboveThis()
				U := st{s, tie}
				if A != (st{math.MaxUint64, math.MaxUint32}) {
					if !less(A, U) {
						c.Fatalf("AboveThis of %v is %v", A, U)
					}
				} else if U != A {
					c.Fatalf("AboveThis of the highest is %v", U)
				}
				var r rankdb.RankedElement
				r.FromTop = int(a.Updated % 100)
				r.CalculateFromBottom(r.FromTop + 7)
				if r.FromBottom != 6 {
					c.Fatalf("CalculateFromBottom: %d", r.FromBottom)
				}
			})
		case "updatetime":
			es := collection(c, p, "es", max, true)
			log(c, "on", es)
			nontrivial(es)
			l := m.Copy(es)
			ts := rapid.Uint32().Draw(c.T, "t")
			c.Do(op, func() { l.UpdateTime(time.Unix(int64(ts), 123)) })
			for i := range es {
				e := es[i]
				e.Updated = ts
				if !m.Same(e, l[i]) {
					c.Fatalf("UpdateTime: %s", m.Str(l[i]))
				}
			}
		}
	})
}

// step performs one modification on l, whose content is cur, and returns the new content.
func step(c *h.Case, p *m.Profile, op string, l *rankdb.Elements, cur []m.Elem, max int) []m.Elem {
	idx := func(id rankdb.ElementID) int {
		for i := range cur {
			if cur[i].ID == id {
				return i
			}
		}
		return -1
	}
	without := func(i int) []m.Elem {
		return append(append([]m.Elem{}, cur[:i]...), cur[i+1:]...)
	}
	checkRank := func(r *rankdb.Rank, want []m.Elem, id rankdb.ElementID) {
		for i := range want {
			if want[i].ID == id {
				if r == nil || r.FromTop != i || r.FromBottom != len(want)-i-1 {
					c.Fatalf("%s: rank %+v, want %d of %d", op, r, i, len(want))
				}
				return
			}
		}
		c.Fatalf("%s: id %d is not there", op, id)
	}
	switch op {
	case "insert":
		id := p.ID(c)
		if idx(id) >= 0 {
			return cur // duplicates are the caller's business
		}
		e := p.Elem(c, id)
		log(c, op, []m.Elem{e})
		want := sorted(append(append([]m.Elem{}, cur...), e))
		var at int
		c.Do(op, func() { at = l.Insert(m.Copy([]m.Elem{e})[0]) })
		if at >= len(want) || want[at].ID != id {
			c.Fatalf("Insert returned %d", at)
		}
		return want
	case "add", "update":
		id := p.ID(c)
		e := p.Elem(c, id)
		log(c, op, []m.Elem{e})
		i := idx(id)
		var r *rankdb.Rank
		var err error
		c.Do(op, func() {
			if op == "add" {
				r, err = l.Add(m.Copy([]m.Elem{e})[0])
			} else {
				r, err = l.Update(m.Copy([]m.Elem{e})[0])
			}
		})
		if op == "update" && i < 0 {
			if err != rankdb.ErrNotFound {
				c.Fatalf("Update of an absent element: %v", err)
			}
			return cur
		}
		if err != nil {
			c.Fatalf("%s: %v", op, err)
		}
		base := append([]m.Elem{}, cur...)
		if i >= 0 {
			base = without(i)
		}
		want := sorted(append(base, e))
		checkRank(r, want, id)
		return want
	case "delete":
		id := p.ID(c)
		c.Logf("delete %d", id)
		var err error
		c.Do(op, func() { err = l.Delete(id) })
		if i := idx(id); i >= 0 {
			if err != nil {
				c.Fatalf("Delete: %v", err)
			}
			return without(i)
		}
		if err != rankdb.ErrNotFound {
			c.Fatalf("Delete of an absent element: %v", err)
		}
		return cur
	case "merge":
		var ins []m.Elem
		for _, e := range sorted(collection(c, p, "ins", rapid.SampledFrom([]int{1, 4, max}).Draw(c.T, "nins"), true)) {
			if idx(e.ID) < 0 {
				ins = append(ins, e)
			}
		}
		log(c, op, ins)
		// The destination may be the first part of a bigger slice.
		shared := rapid.Bool().Draw(c.T, "shared")
		var tail rankdb.Elements
		if shared && cap(*l) > len(*l) {
			tail = (*l)[len(*l):cap(*l)]
			for i := range tail {
				tail[i] = m.Elem{ID: 12345678, Score: uint64(i)}
			}
		}
		in := m.Copy(ins)
		c.Do(op, func() { l.Merge(in, shared) })
		if d := m.DiffElems(in, ins); d != "" {
			c.Fatalf("Merge changed what was merged in: %s", d)
		}
		for i := range tail {
			if tail[i].ID != 12345678 || tail[i].Score != uint64(i) {
				c.Fatalf("Merge(shared) wrote beyond the collection")
			}
		}
		return sorted(append(append([]m.Elem{}, cur...), ins...))
	case "mergededup":
		ins := sorted(collection(c, p, "ins", rapid.SampledFrom([]int{1, 4, max}).Draw(c.T, "nins"), true))
		log(c, op, ins)
		var want []m.Elem
		in := map[rankdb.ElementID]bool{}
		for _, e := range ins {
			in[e.ID] = true
			want = append(want, e)
		}
		for _, e := range cur {
			if !in[e.ID] {
				want = append(want, e)
			}
		}
		arg := m.Copy(ins)
		c.Do(op, func() { l.MergeDeduplicate(arg) })
		return sorted(want)
	}
	panic(op)
}
