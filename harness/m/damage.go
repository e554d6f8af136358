package m

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"
)

// Encodable is implemented by all stored values.
type Encodable interface {
	MarshalMsg([]byte) ([]byte, error)
}

// DecodeElements decodes a stored element blob.
func DecodeElements(b []byte) (rankdb.Elements, uint8, error) {
	b, v := rankdb.MsgpGetVersion(b)
	var es rankdb.Elements
	_, err := es.UnmarshalMsg(b)
	return es, v, err
}

// EncodeBlob encodes a stored blob.
func EncodeBlob(v uint8, e Encodable) []byte {
	b, err := e.MarshalMsg(msgp.AppendUint8(nil, v))
	if err != nil {
		panic(err)
	}
	return b
}

// UsedKeys returns the storage keys a list refers to.
func UsedKeys(e *Env) map[string]bool {
	res := map[string]bool{string(e.List.Scores): true, string(e.List.Index): true}
	s, i := e.Segments()
	for _, t := range []*rankdb.Segments{s, i} {
		for k := range t.Segments {
			res[t.Segments[k].StorageKey()] = true
		}
	}
	return res
}

// Snapshot returns a printable map of everything stored.
func (s *Store) Snapshot() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	res := map[string]string{}
	for set, m := range s.data {
		for k, v := range m {
			res[set+"\x00"+k] = string(v)
		}
	}
	return res
}

// DiffSnapshots explains the first difference.
func DiffSnapshots(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, okx := a[k]
		y, oky := b[k]
		if okx != oky || x != y {
			return fmt.Sprintf("blob %q changed (present %v -> %v, %d -> %d bytes)", k, okx, oky, len(x), len(y))
		}
	}
	return ""
}

// Damage describes what was done to the stored data.
type Damage struct {
	What string
	// Index is set if only the element index was damaged.
	Index bool
	// TableIdx: the index table itself is lost or undecodable.
	IndexTable bool
	// Table is set if the partition table was lost or is undecodable.
	Table bool
	// Lost is set if a partition became unreadable. Gone holds its elements.
	Lost bool
	Gone []rankdb.ElementID
	// Detect is set when verification must report it.
	Detect bool
	// TableEdit is set if the partition table was changed (still decodable).
	TableEdit bool
	// Content is what the readable partitions of the list hold afterwards (may have duplicates).
	Content []Elem
	// Unreadable is set if a partition of the table cannot be read.
	Unreadable bool
}

func (e *Env) blob(key string) []byte {
	b, ok := e.Mem.Peek(e.Set, key)
	if !ok {
		e.C.Fatalf("stored blob %q is missing", key)
	}
	return b
}

// breakBlob makes a blob undecodable or removes it. Returns a description.
func (e *Env) breakBlob(key, name string) string {
	c := e.C
	b, ok := e.Mem.Peek(e.Set, key)
	if !ok || len(b) < 2 {
		return "already damaged " + name
	}
	switch rapid.IntRange(0, 3).Draw(c.T, "how") {
	case 0:
		e.Mem.Drop(e.Set, key)
		return name + " lost"
	case 1:
		n := rapid.IntRange(0, len(b)-1).Draw(c.T, "keep")
		e.Mem.Put(e.Set, key, b[:n])
		return fmt.Sprintf("%s truncated to %d of %d bytes", name, n, len(b))
	case 2:
		v := byte(rapid.IntRange(0, 127).Draw(c.T, "version"))
		if v == b[0] {
			v ^= 64
		}
		b[0] = v
		e.Mem.Put(e.Set, key, b)
		return fmt.Sprintf("version of %s set to %d", name, v)
	}
	// Not a collection any more.
	b[1] = 0xc1
	e.Mem.Put(e.Set, key, b)
	return "invalid type byte in " + name
}

// stored returns everything in the readable partitions.
func (e *Env) stored(s *rankdb.Segments) (res []Elem, unreadable bool) {
	for i := range s.Segments {
		b, ok := e.Mem.Peek(e.Set, s.Segments[i].StorageKey())
		if !ok {
			unreadable = true
			continue
		}
		es, v, err := DecodeElements(b)
		if err != nil || v != e.elemVersion {
			unreadable = true
			continue
		}
		res = append(res, es...)
	}
	return
}

// GenDamage damages the stored data of the list. kinds limits what may be chosen:
// 0 any, 1 index only.
func (e *Env) GenDamage(kinds int) *Damage {
	c := e.C
	s, idx := e.Segments()
	for i := range s.Segments {
		if e.elemVersion != 0 {
			break // already damaged
		}
		_, v, err := DecodeElements(e.blob(s.Segments[i].StorageKey()))
		if err != nil {
			c.Fatalf("stored partition cannot be decoded: %v", err)
		}
		e.elemVersion = v
	}
	d := &Damage{Detect: true}
	type cand struct {
		w  int
		fn func() bool
	}
	pick := func(t *rankdb.Segments, nonEmpty bool) int {
		var l []int
		for i := range t.Segments {
			if !nonEmpty || t.Segments[i].N > 0 {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return rapid.SampledFrom(l).Draw(c.T, "partition")
	}
	// load returns nothing if the partition was already damaged.
	load := func(t *rankdb.Segments, i int) (rankdb.Elements, string) {
		k := t.Segments[i].StorageKey()
		b, ok := e.Mem.Peek(e.Set, k)
		if !ok {
			return nil, k
		}
		es, v, err := DecodeElements(b)
		if err != nil || v != e.elemVersion {
			return nil, k
		}
		return es, k
	}
	save := func(k string, es rankdb.Elements) { e.Mem.Put(e.Set, k, EncodeBlob(e.elemVersion, es)) }
	sorted := func(es rankdb.Elements) rankdb.Elements {
		sort.SliceStable(es, func(i, j int) bool { return Above(es[i], es[j]) })
		return es
	}
	// edit changes the elements of a partition of the table. Index changes keep scores.
	edit := func(t *rankdb.Segments, name string) bool {
		i := pick(t, true)
		if i < 0 {
			return false
		}
		es, k := load(t, i)
		if len(es) == 0 {
			return false
		}
		j := rapid.IntRange(0, len(es)-1).Draw(c.T, "elem")
		kind := rapid.IntRange(0, 6).Draw(c.T, "edit")
		switch kind {
		case 0:
			es = append(es[:j:j], es[j+1:]...)
			d.What = fmt.Sprintf("%s: element removed from partition %d", name, i)
		case 1:
			x := es[j]
			es = sorted(append(es, x))
			d.What = fmt.Sprintf("%s: element duplicated in partition %d", name, i)
		case 2:
			x := es[j]
			x.ID = rankdb.ElementID(rapid.Uint64().Draw(c.T, "newid"))
			if name == "index" {
				x.Score = uint64(x.ID)
			}
			es = sorted(append(es, x))
			d.What = fmt.Sprintf("%s: element %d added to partition %d", name, x.ID, i)
		case 3: // replace by duplicate, count stays
			if len(es) < 2 {
				return false
			}
			o := (j + 1) % len(es)
			es[j] = es[o]
			es = sorted(es)
			d.What = fmt.Sprintf("%s: element replaced by a duplicate in partition %d", name, i)
		case 4: // out of order
			if len(es) < 2 {
				return false
			}
			o := rapid.IntRange(0, len(es)-2).Draw(c.T, "swap")
			es[o], es[o+1] = es[o+1], es[o]
			d.What = fmt.Sprintf("%s: elements %d and %d swapped in partition %d", name, o, o+1, i)
			if name == "index" {
				// The order of an index only depends on the ID, stored as score.
				break
			}
		case 5: // move to other partition, counts stay by swapping
			if len(t.Segments) < 2 {
				return false
			}
			o := pick(t, true)
			if o == i {
				return false
			}
			es2, k2 := load(t, o)
			if len(es2) == 0 {
				return false
			}
			n := rapid.IntRange(0, len(es2)-1).Draw(c.T, "elem2")
			es[j], es2[n] = es2[n], es[j]
			es, es2 = sorted(es), sorted(es2)
			save(k2, es2)
			d.What = fmt.Sprintf("%s: elements of partitions %d and %d exchanged", name, i, o)
		case 6: // unknown replaces known / index to the wrong partition
			if name == "index" {
				es[j].TieBreaker += uint32(rapid.IntRange(1, 5).Draw(c.T, "seg"))
				d.What = fmt.Sprintf("index: element refers to another partition in partition %d", i)
				break
			}
			id := rankdb.ElementID(rapid.Uint64().Draw(c.T, "newid"))
			if _, ok := e.Mo[id]; ok {
				return false
			}
			es[j].ID = id
			es = sorted(es)
			d.What = fmt.Sprintf("%s: ID of an element replaced in partition %d", name, i)
		}
		save(k, es)
		return true
	}
	cands := []cand{
		{2, func() bool { // index partition lost
			i := pick(idx, false)
			d.Index = true
			d.What = e.breakBlob(idx.Segments[i].StorageKey(), fmt.Sprint("index partition ", i))
			return true
		}},
		{3, func() bool { d.Index = true; return edit(idx, "index") }},
		{1, func() bool {
			d.Index, d.IndexTable, d.Detect = true, true, false // rebuilt when loading
			d.What = e.breakBlob(string(e.List.Index), "index table")
			return true
		}},
	}
	if kinds == 0 {
		cands = append(cands,
			cand{3, func() bool {
				i := pick(s, false)
				es, k := load(s, i)
				for _, x := range es {
					d.Gone = append(d.Gone, x.ID)
				}
				d.Lost = true
				d.What = e.breakBlob(k, fmt.Sprint("partition ", i))
				return true
			}},
			cand{4, func() bool { return edit(s, "elements") }},
			cand{1, func() bool {
				d.Table = true
				d.What = e.breakBlob(string(e.List.Scores), "partition table")
				return true
			}},
			cand{2, func() bool {
				b := e.blob(string(e.List.Scores))
				v := b[0]
				d.TableEdit = true
				i := pick(s, false)
				switch rapid.IntRange(0, 2).Draw(c.T, "tableedit") {
				case 0:
					if len(s.Segments) < 2 {
						return false
					}
					s.Segments = append(s.Segments[:i:i], s.Segments[i+1:]...)
					d.What = fmt.Sprintf("partition %d dropped from the table", i)
				case 1:
					s.Segments[i].N += rapid.IntRange(1, 3).Draw(c.T, "n")
					d.What = fmt.Sprintf("count of partition %d wrong", i)
				case 2:
					if i == 0 {
						return false
					}
					s.Segments[i].Max ^= 1 << uint(rapid.IntRange(0, 63).Draw(c.T, "bit"))
					d.What = fmt.Sprintf("range of partition %d wrong", i)
				}
				e.Mem.Put(e.Set, string(e.List.Scores), EncodeBlob(v, s))
				return true
			}})
	}
	total := 0
	for _, x := range cands {
		total += x.w
	}
	for try := 0; ; try++ {
		k := 0
		if try < 5 {
			k = rapid.IntRange(0, total-1).Draw(c.T, "damage")
		}
		*d = Damage{Detect: true}
		for _, x := range cands {
			if k < x.w {
				if !x.fn() {
					break
				}
				if !d.Table {
					d.Content, d.Unreadable = e.stored(s)
				}
				c.Logf("damage: %s", d.What)
				return d
			}
			k -= x.w
		}
	}
}

// BestOf applies the de-duplication rule: per ID latest update, then highest score.
// ambiguous holds IDs for which the rule does not decide between different values.
func BestOf(es []Elem) (mo Model, ambiguous map[rankdb.ElementID][]Elem) {
	mo, ambiguous = Model{}, map[rankdb.ElementID][]Elem{}
	for _, x := range es {
		o, ok := mo[x.ID]
		switch {
		case !ok || x.Updated > o.Updated || x.Updated == o.Updated && x.Score > o.Score:
			mo[x.ID] = x
			delete(ambiguous, x.ID)
		case x.Updated == o.Updated && x.Score == o.Score && (x.TieBreaker != o.TieBreaker || !bytes.Equal(x.Payload, o.Payload)):
			ambiguous[x.ID] = append(ambiguous[x.ID], o, x)
		}
	}
	return
}

// Store wraps.
func (e *Env) Store() blobstore.WithSet { return blobstore.StoreWithSet(e.Mem, e.Set) }
