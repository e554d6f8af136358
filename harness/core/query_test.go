package core

import (
	"testing"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// history performs some generated writes to reach an arbitrary layout.
func history(e *m.Env, maxOps, maxBatch int) {
	n := rapid.IntRange(0, maxOps).Draw(e.C.T, "ops")
	for i := 0; i < n; i++ {
		e.C.Class("op:" + e.RandomWrite(maxBatch))
		if rapid.IntRange(0, 9).Draw(e.C.T, "rel") == 0 {
			e.Release()
		}
	}
}

func classify(e *m.Env) {
	c := e.C
	sorted := e.Mo.Sorted()
	ties, full := 0, 0
	for i := 1; i < len(sorted); i++ {
		if sorted[i].Score == sorted[i-1].Score {
			ties++
			if sorted[i].TieBreaker == sorted[i-1].TieBreaker {
				full++
			}
		}
	}
	if ties > 0 {
		c.Class("score-ties")
	}
	if full > 0 {
		c.Class("tiebreaker-ties")
	}
	if len(sorted) == 0 {
		c.Class("empty")
	}
	s, _ := e.Segments()
	if len(s.Segments) > 1 {
		c.Class("multi-partition")
	}
	if len(s.Segments) > 4 {
		c.Class("many-partitions")
	}
	for _, n := range m.SizesOf(s) {
		if n == 0 && len(s.Segments) > 1 {
			c.Class("has-empty-partition")
			break
		}
	}
	if len(s.Segments) > 1 && len(sorted) > 1 {
		c.Nontrivial()
	}
}

const listRule = "a list with a generated value profile (ties on score/tie-breaker/update time, edge values), merge/split sizes, cache, creation route and write history; non-trivial: the list has at least 2 partitions and 2 elements when queried"

func TestC01(t *testing.T) {
	h.Run(t, listRule+"; then lookups of known, unknown and repeated IDs with radius 0..beyond list length", func(c *h.Case) {
		e := m.NewEnv(c, 60)
		history(e, 8, 12)
		classify(e)
		e.All()
		n := rapid.IntRange(1, 4).Draw(c.T, "lookups")
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 8).Draw(c.T, "k")
			var ids []rankdb.ElementID
			for j := 0; j < k; j++ {
				ids = append(ids, e.P.ID(c))
			}
			if rapid.IntRange(0, 4).Draw(c.T, "all") == 0 {
				ids = rapid.Permutation(e.Mo.IDs()).Draw(c.T, "perm")
			}
			radius := rapid.IntRange(0, 12).Draw(c.T, "radius")
			if rapid.IntRange(0, 9).Draw(c.T, "big") == 0 {
				radius = len(e.Mo) + rapid.IntRange(0, 3).Draw(c.T, "extra")
			}
			c.Logf("lookup %v radius=%d", ids, radius)
			e.Lookup(ids, radius)
		}
	})
}

func TestC02(t *testing.T) {
	h.Run(t, listRule+"; then top/bottom/score/percentile/len/stats queries around all boundaries", func(c *h.Case) {
		e := m.NewEnv(c, 60)
		history(e, 8, 12)
		classify(e)
		total := len(e.Mo)
		off := func() int {
			switch rapid.IntRange(0, 4).Draw(c.T, "offkind") {
			case 0:
				return total + rapid.IntRange(0, 3).Draw(c.T, "beyond")
			case 1:
				if total > 0 {
					return total - 1
				}
				return 0
			}
			return rapid.IntRange(0, total+1).Draw(c.T, "off")
		}
		n := rapid.IntRange(1, 8).Draw(c.T, "queries")
		for i := 0; i < n; i++ {
			lim := rapid.IntRange(1, total+3).Draw(c.T, "limit")
			switch rapid.IntRange(0, 4).Draw(c.T, "query") {
			case 0:
				o := off()
				c.Logf("top %d %d", o, lim)
				e.Top(o, lim)
			case 1:
				o := off()
				c.Logf("bottom %d %d", o, lim)
				e.Bottom(o, lim)
			case 2:
				s := e.P.ProbeScore(c, e.Mo)
				c.Logf("score %d %d", s, lim)
				e.ScoreDesc(s, lim)
			case 3:
				p := rapid.SampledFrom([]float64{0, 0.5, 1, 0.25, 0.999, 1.0 / 3, -1, 2}).Draw(c.T, "p")
				switch rapid.IntRange(0, 2).Draw(c.T, "pk") {
				case 0:
					p = rapid.Float64Range(0, 1).Draw(c.T, "pf")
				case 1:
					if total > 0 {
						p = float64(rapid.IntRange(0, total).Draw(c.T, "pi")) / float64(total)
					}
				}
				r := rapid.IntRange(0, 6).Draw(c.T, "radius")
				c.Logf("percentile %v radius=%d", p, r)
				e.Percentile(p, r)
			case 4:
				c.Logf("len/stats")
				e.LenStats()
			}
		}
	})
}

func TestC03(t *testing.T) {
	h.Run(t, "histories of populate/insert/update batches (with forced splits, deletes and releases in between) over a generated value profile and sizes; after each write the full content and ranks are compared; non-trivial: at least 2 partitions and at least one update of an existing element", func(c *h.Case) {
		e := m.NewEnv(c, 40)
		e.All()
		n := rapid.IntRange(1, 10).Draw(c.T, "ops")
		upd := false
		for i := 0; i < n; i++ {
			had := len(e.Mo)
			op := e.RandomWrite(15)
			c.Class("op:" + op)
			if op == "update" && had > 0 {
				upd = true
			}
			e.All()
			if rapid.IntRange(0, 9).Draw(c.T, "rel") == 0 {
				e.Release()
			}
		}
		s, _ := e.Segments()
		if len(s.Segments) > 1 {
			c.Class("multi-partition")
			if upd {
				c.Nontrivial()
			}
		}
		e.Verify()
	})
}

func TestC04(t *testing.T) {
	h.Run(t, "histories alternating deletes (random subsets, contiguous rank ranges covering whole partitions, everything, unknown and repeated IDs) with re-adds and splits; non-trivial: something was deleted from a list of at least 2 partitions", func(c *h.Case) {
		e := m.NewEnv(c, 50)
		n := rapid.IntRange(1, 8).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			sorted := e.Mo.Sorted()
			switch rapid.IntRange(0, 7).Draw(c.T, "kind") {
			case 0, 1, 2: // contiguous range
				if len(sorted) == 0 {
					continue
				}
				a := rapid.IntRange(0, len(sorted)-1).Draw(c.T, "from")
				b := rapid.IntRange(a, len(sorted)-1).Draw(c.T, "to")
				var ids []rankdb.ElementID
				for _, x := range sorted[a : b+1] {
					ids = append(ids, x.ID)
				}
				s, _ := e.Segments()
				if len(s.Segments) > 1 {
					c.Nontrivial()
				}
				e.Delete(ids)
				c.Class("range-delete")
			case 3: // random incl. unknown, repeated
				var ids []rankdb.ElementID
				for k := rapid.IntRange(0, 8).Draw(c.T, "k"); k > 0; k-- {
					ids = append(ids, e.P.ID(c))
				}
				if len(ids) > 1 && rapid.Bool().Draw(c.T, "dup") {
					ids = append(ids, ids[0])
				}
				e.Delete(ids)
				c.Class("random-delete")
			case 4: // all
				e.Delete(e.Mo.IDs())
				c.Class("delete-all")
			case 5:
				e.ForceSplit()
			default:
				ids := e.P.PickIDs(c, rapid.IntRange(1, 20).Draw(c.T, "n"), func(rankdb.ElementID) bool { return true })
				e.Update(e.P.Elems(c, ids), 1, true)
			}
			e.All()
			e.LenStats()
		}
		e.Verify()
		e.ScoreDesc(e.P.ProbeScore(c, e.Mo), 5)
		e.Percentile(0.5, 2)
	})
}

// settled checks the partition sizes of one table.
func settled(e *m.Env, what string, s *rankdb.Segments, elems []m.Elem) {
	c := e.C
	pos := 0
	sizes := m.SizesOf(s)
	for i, n := range sizes {
		part := elems[pos : pos+n]
		pos += n
		if n >= e.Split && n > 1 {
			// The middle may only be inseparable from the end.
			mid, last := part[(n+1)/2-1], part[n-1]
			if mid.Score != last.Score || mid.TieBreaker != last.TieBreaker {
				c.Fatalf("after splitting settled, %s partition %d still holds %d elements (split size %d): %v", what, i, n, e.Split, sizes)
			}
		}
		if i > 0 && n+sizes[i-1] <= e.Merge {
			c.Fatalf("after splitting settled, %s partitions %d and %d hold %d+%d elements (merge size %d): %v", what, i-1, i, sizes[i-1], n, e.Merge, sizes)
		}
	}
}

func TestC05(t *testing.T) {
	h.Run(t, "lists after generated histories are force-split repeatedly until nothing changes, with full comparison of all queries after each round; non-trivial: the partition layout changed", func(c *h.Case) {
		e := m.NewEnv(c, 70)
		history(e, 6, 25)
		rounds := rapid.IntRange(1, 3).Draw(c.T, "rounds")
		for r := 0; r < rounds; r++ {
			for k := rapid.IntRange(0, 2).Draw(c.T, "writes"); k > 0; k-- {
				c.Class("op:" + e.RandomWrite(30))
			}
			s0, _ := e.Segments()
			prev := ""
			for i := 0; ; i++ {
				e.ForceSplit()
				e.All()
				e.LenStats()
				e.Verify()
				s, idx := e.Segments()
				st, err := e.List.Stats(m.Ctx, e.Bs, false)
				if err != nil || st.Segments != len(s.Segments) {
					c.Fatalf("Stats reports %v partitions (%v), stored are %d", st, err, len(s.Segments))
				}
				now := lay(s) + "/" + lay(idx)
				if now == prev {
					break
				}
				prev = now
				if i > 200 {
					c.Fatalf("splitting does not settle: %s", now)
				}
			}
			s, idx := e.Segments()
			if lay(s) != lay(s0) {
				c.Nontrivial()
				if len(s.Segments) > len(s0.Segments) {
					c.Class("split")
				}
				if len(s.Segments) < len(s0.Segments) {
					c.Class("merged")
				}
			}
			settled(e, "element", s, e.Mo.Sorted())
			var ie []m.Elem
			ids := e.Mo.IDs()
			for i := len(ids) - 1; i >= 0; i-- {
				ie = append(ie, m.Elem{Score: uint64(ids[i])})
			}
			settled(e, "index", idx, ie)
			e.Top(rapid.IntRange(0, len(e.Mo)).Draw(c.T, "off"), 5)
			e.Bottom(rapid.IntRange(0, len(e.Mo)).Draw(c.T, "off"), 5)
			e.ScoreDesc(e.P.ProbeScore(c, e.Mo), 5)
			e.Percentile(rapid.Float64Range(0, 1).Draw(c.T, "p"), 3)
		}
	})
}

func lay(s *rankdb.Segments) string {
	r := ""
	for i := range s.Segments {
		g := &s.Segments[i]
		r += string(rune('a'+i%26)) + ":" + itoa(int(g.ID)) + "=" + itoa(g.N) + " "
	}
	return r
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
