// Package m holds the reference models and the generators shared by the checks.
package m

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/Vivino/rankdb"
	"pgregory.net/rapid"
	"verif/h"
)

// Elem is an element of a list.
type Elem = rankdb.Element

// Above is the documented ranking order, written independently.
func Above(a, b Elem) bool {
	switch {
	case a.Score != b.Score:
		return a.Score > b.Score
	case a.TieBreaker != b.TieBreaker:
		return a.TieBreaker > b.TieBreaker
	case a.Updated != b.Updated:
		return a.Updated < b.Updated
	}
	return a.ID < b.ID
}

// Model is the reference list: a map plus the order.
type Model map[rankdb.ElementID]Elem

// Sorted returns the full list, best first.
func (mo Model) Sorted() []Elem {
	res := make([]Elem, 0, len(mo))
	for _, e := range mo {
		res = append(res, e)
	}
	sort.Slice(res, func(i, j int) bool { return Above(res[i], res[j]) })
	return res
}

// Clone copies the model.
func (mo Model) Clone() Model {
	res := make(Model, len(mo))
	for k, v := range mo {
		res[k] = v
	}
	return res
}

// Put writes elements.
func (mo Model) Put(es ...Elem) {
	for _, e := range es {
		mo[e.ID] = e
	}
}

// IDs returns the sorted IDs.
func (mo Model) IDs() []rankdb.ElementID {
	res := make([]rankdb.ElementID, 0, len(mo))
	for k := range mo {
		res = append(res, k)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// Same compares two elements; nil and empty payloads are equal.
func Same(a, b Elem) bool {
	return a.ID == b.ID && a.Score == b.Score && a.TieBreaker == b.TieBreaker && a.Updated == b.Updated && bytes.Equal(a.Payload, b.Payload)
}

// Str is a compact form.
func Str(e Elem) string {
	if len(e.Payload) > 0 {
		return fmt.Sprintf("{id:%d s:%d t:%d u:%d p:%q}", e.ID, e.Score, e.TieBreaker, e.Updated, trunc(e.Payload))
	}
	return fmt.Sprintf("{id:%d s:%d t:%d u:%d}", e.ID, e.Score, e.TieBreaker, e.Updated)
}

func trunc(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// Strs formats elements.
func Strs(es []Elem) string {
	var b bytes.Buffer
	for i, e := range es {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i == 60 {
			fmt.Fprintf(&b, "... (%d)", len(es))
			break
		}
		b.WriteString(Str(e))
	}
	return b.String()
}

// DiffElems explains the first difference between two element slices.
func DiffElems(got, want []Elem) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%d elements, want %d; first missing %s", len(got), len(want), Str(want[i]))
		case i >= len(want):
			return fmt.Sprintf("%d elements, want %d; first extra %s", len(got), len(want), Str(got[i]))
		case !Same(got[i], want[i]):
			return fmt.Sprintf("index %d: got %s want %s (lengths %d, %d)", i, Str(got[i]), Str(want[i]), len(got), len(want))
		}
	}
	return ""
}

// Profile fixes the value domains of a case, so that ties are common.
type Profile struct {
	Scores  []uint64 // nil: any
	Ties    []uint32
	Updated []uint32
	IDs     []uint64
	Name    string
}

var edgeScores = []uint64{0, 1, 2, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
var edgeTies = []uint32{0, 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}

// GenProfile draws the value domains. nIDs bounds the number of different IDs.
func GenProfile(c *h.Case, nIDs int) *Profile {
	p := &Profile{}
	k := rapid.IntRange(0, 5).Draw(c.T, "profile")
	switch k {
	case 0:
		p.Name, p.Scores = "few-scores", []uint64{0, 1, 2, 3}
	case 1:
		p.Name, p.Scores = "one-score", []uint64{rapid.SampledFrom(edgeScores).Draw(c.T, "score")}
	case 2:
		p.Name, p.Scores = "edge-scores", edgeScores
	case 3:
		p.Name = "any-score"
	case 4, 5:
		p.Name = "small-range"
		n := rapid.IntRange(5, 60).Draw(c.T, "range")
		base := rapid.SampledFrom([]uint64{0, 10, 1 << 40, math.MaxUint64 - 100}).Draw(c.T, "base")
		for i := 0; i < n; i++ {
			p.Scores = append(p.Scores, base+uint64(i))
		}
	}
	switch rapid.IntRange(0, 3).Draw(c.T, "ties") {
	case 0:
		p.Ties = []uint32{0}
	case 1:
		p.Ties = []uint32{0, 1, 2}
	case 2:
		p.Ties = edgeTies
	case 3:
		p.Ties = []uint32{math.MaxUint32, 0}
	}
	switch rapid.IntRange(0, 2).Draw(c.T, "upd") {
	case 0:
		p.Updated = []uint32{1, 2, 3}
	case 1:
		p.Updated = []uint32{7}
	case 2:
		p.Updated = []uint32{1, 1500000000, math.MaxUint32}
	}
	switch rapid.IntRange(0, 3).Draw(c.T, "ids") {
	case 0, 1:
		for i := 0; i < nIDs; i++ {
			p.IDs = append(p.IDs, uint64(i+1))
		}
	case 2:
		step := math.MaxUint64 / uint64(nIDs)
		for i := 0; i < nIDs; i++ {
			p.IDs = append(p.IDs, uint64(i)*step)
		}
		p.IDs = append(p.IDs, math.MaxUint64, math.MaxUint64-1)
	case 3:
		for i := 0; i < nIDs; i++ {
			p.IDs = append(p.IDs, uint64(i)*uint64(i)*37)
		}
	}
	return p
}

// ID draws an ID of the domain.
func (p *Profile) ID(c *h.Case) rankdb.ElementID {
	return rankdb.ElementID(p.IDs[rapid.IntRange(0, len(p.IDs)-1).Draw(c.T, "id")])
}

// Score draws a score.
func (p *Profile) Score(c *h.Case) uint64 {
	if p.Scores == nil {
		return rapid.Uint64().Draw(c.T, "score")
	}
	return p.Scores[rapid.IntRange(0, len(p.Scores)-1).Draw(c.T, "score")]
}

// ProbeScore draws a score at or next to the domain.
func (p *Profile) ProbeScore(c *h.Case, mo Model) uint64 {
	switch rapid.IntRange(0, 4).Draw(c.T, "probe") {
	case 0:
		return rapid.SampledFrom(edgeScores).Draw(c.T, "score")
	case 1:
		if len(mo) > 0 {
			s := mo.Sorted()
			e := s[rapid.IntRange(0, len(s)-1).Draw(c.T, "i")]
			return e.Score + uint64(rapid.IntRange(0, 2).Draw(c.T, "d")) - 1 // may wrap; any value is legal
		}
	}
	return p.Score(c)
}

// Payload draws a payload.
func Payload(c *h.Case) []byte {
	switch rapid.IntRange(0, 5).Draw(c.T, "payload") {
	case 0, 1, 2:
		return nil
	case 3:
		return []byte{}
	case 4:
		return []byte(fmt.Sprintf(`{"v":%d}`, rapid.IntRange(0, 9).Draw(c.T, "v")))
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "bytes")
}

// Elem draws an element with the given ID.
func (p *Profile) Elem(c *h.Case, id rankdb.ElementID) Elem {
	return Elem{
		ID:         id,
		Score:      p.Score(c),
		TieBreaker: rapid.SampledFrom(p.Ties).Draw(c.T, "tie"),
		Updated:    rapid.SampledFrom(p.Updated).Draw(c.T, "updated"),
		Payload:    Payload(c),
	}
}

// NewIDs draws up to n distinct IDs for which ok returns true.
func (p *Profile) PickIDs(c *h.Case, n int, ok func(rankdb.ElementID) bool) []rankdb.ElementID {
	var cand []rankdb.ElementID
	seen := map[uint64]bool{}
	for _, id := range p.IDs {
		if !seen[id] && ok(rankdb.ElementID(id)) {
			cand = append(cand, rankdb.ElementID(id))
		}
		seen[id] = true
	}
	if n > len(cand) {
		n = len(cand)
	}
	if n == 0 {
		return nil
	}
	perm := rapid.Permutation(cand).Draw(c.T, "perm")
	return perm[:n]
}

// Elems draws elements for the IDs.
func (p *Profile) Elems(c *h.Case, ids []rankdb.ElementID) []Elem {
	res := make([]Elem, len(ids))
	for i, id := range ids {
		res[i] = p.Elem(c, id)
	}
	return res
}

// Copy makes a deep copy, so that the code under test cannot modify the model.
func Copy(es []Elem) rankdb.Elements {
	res := make(rankdb.Elements, len(es))
	for i, e := range es {
		if e.Payload != nil {
			e.Payload = append([]byte{}, e.Payload...)
		}
		res[i] = e
	}
	return res
}

// CopyIDs copies ids.
func CopyIDs(ids []rankdb.ElementID) []rankdb.ElementID {
	return append([]rankdb.ElementID(nil), ids...)
}
