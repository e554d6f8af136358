package codec

import (
	"bytes"
	"compress/flate"
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/blobstore"
	"github.com/klauspost/compress/zstd"
	"github.com/tinylib/msgp/msgp"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

// value is a type with a generated codec.
type value interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	Msgsize() int
}

type kind struct {
	name string
	gen  func(c *h.Case) value // a filled value
	zero func() value
}

func genElement(c *h.Case) rankdb.Element {
	return rankdb.Element{Score: u64(c, "score"), ID: rankdb.ElementID(u64(c, "id")), TieBreaker: uint32(u64(c, "tie")), Updated: uint32(u64(c, "upd")), Payload: m.Payload(c)}
}

func u64(c *h.Case, name string) uint64 {
	if rapid.Bool().Draw(c.T, name+".edge") {
		return rapid.SampledFrom([]uint64{0, 1, 127, 128, 255, 256, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(c.T, name)
	}
	return rapid.Uint64().Draw(c.T, name)
}

func str(c *h.Case, name string) string {
	switch rapid.IntRange(0, 4).Draw(c.T, name+".kind") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", strings.Repeat("x", 31), strings.Repeat("y", 32), strings.Repeat("z", 255), strings.Repeat("w", 256), strings.Repeat("v", 65536), "ø\x00\xff/"}).Draw(c.T, name)
	}
	return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, name))
}

func num(c *h.Case, max int) int {
	if rapid.IntRange(0, 60).Draw(c.T, "many") == 33 {
		return rapid.SampledFrom([]int{15, 16, 17, 17, 16, 255, 300, 65535, 65536}).Draw(c.T, "n")
	}
	return rapid.IntRange(0, max).Draw(c.T, "n")
}

func genElements(c *h.Case) rankdb.Elements {
	n := num(c, 12)
	var es rankdb.Elements
	if n > 20 {
		e := genElement(c)
		for i := 0; i < n; i++ {
			es = append(es, e)
			e.Payload = append([]byte(nil), e.Payload...)
			e.ID++
		}
		return es
	}
	for i := 0; i < n; i++ {
		es = append(es, genElement(c))
	}
	return es
}

func genSegment(c *h.Case) rankdb.Segment {
	return rankdb.Segment{ID: rankdb.SegmentID(u64(c, "segid")), Min: u64(c, "min"), Max: u64(c, "max"), MinTie: uint32(u64(c, "mint")), MaxTie: uint32(u64(c, "maxt")),
		N: int(u64(c, "n")), Updated: int64(u64(c, "updated")), Parent: rankdb.SegmentsID(str(c, "parent"))}
}

func genMeta(c *h.Case) map[string]string {
	md := map[string]string{}
	for i, n := 0, rapid.IntRange(0, 20).Draw(c.T, "meta"); i < n; i++ {
		md[str(c, "k")] = str(c, "v")
	}
	return md
}

func kinds() []kind {
	return []kind{
		{"Element", func(c *h.Case) value { e := genElement(c); return &e }, func() value { return new(rankdb.Element) }},
		{"ElementID", func(c *h.Case) value { e := rankdb.ElementID(u64(c, "id")); return &e }, func() value { return new(rankdb.ElementID) }},
		{"ElementIDs", func(c *h.Case) value { e := genElements(c).IDs(); return &e }, func() value { return new(rankdb.ElementIDs) }},
		{"Elements", func(c *h.Case) value { e := genElements(c); return &e }, func() value { return new(rankdb.Elements) }},
		{"IndexElement", func(c *h.Case) value {
			e := genElement(c).AsIndex(rankdb.SegmentID(u64(c, "seg")))
			return &e
		}, func() value { return new(rankdb.IndexElement) }},
		{"IndexElements", func(c *h.Case) value {
			e := genElements(c).ElementIDs(rankdb.SegmentID(u64(c, "seg")))
			return &e
		}, func() value { return new(rankdb.IndexElements) }},
		{"ListID", func(c *h.Case) value { e := rankdb.ListID(str(c, "id")); return &e }, func() value { return new(rankdb.ListID) }},
		{"ListIDs", func(c *h.Case) value {
			var e rankdb.ListIDs
			for i, n := 0, rapid.IntRange(0, 20).Draw(c.T, "n"); i < n; i++ {
				e = append(e, rankdb.ListID(str(c, "id")))
			}
			return &e
		}, func() value { return new(rankdb.ListIDs) }},
		{"List", func(c *h.Case) value {
			return &rankdb.List{ID: rankdb.ListID(str(c, "id")), Set: str(c, "set"), Metadata: genMeta(c), SplitSize: int(u64(c, "split")), MergeSize: int(u64(c, "merge")),
				LoadIndex: rapid.Bool().Draw(c.T, "li"), Scores: rankdb.SegmentsID(str(c, "scores")), Index: rankdb.SegmentsID(str(c, "index"))}
		}, func() value { return new(rankdb.List) }},
		{"Segment", func(c *h.Case) value { s := genSegment(c); return &s }, func() value { return new(rankdb.Segment) }},
		{"SegmentID", func(c *h.Case) value { e := rankdb.SegmentID(u64(c, "id")); return &e }, func() value { return new(rankdb.SegmentID) }},
		{"SegmentsID", func(c *h.Case) value { e := rankdb.SegmentsID(str(c, "id")); return &e }, func() value { return new(rankdb.SegmentsID) }},
		{"Segments", func(c *h.Case) value {
			s := &rankdb.Segments{ID: rankdb.SegmentsID(str(c, "id")), NextID: rankdb.SegmentID(u64(c, "next")), IsIndex: rapid.Bool().Draw(c.T, "isindex")}
			for i, n := 0, rapid.IntRange(0, 20).Draw(c.T, "n"); i < n; i++ {
				s.Segments = append(s.Segments, genSegment(c))
			}
			return s
		}, func() value { return new(rankdb.Segments) }},
		{"ListStats", func(c *h.Case) value {
			return &rankdb.ListStats{Elements: int(u64(c, "e")), Segments: int(u64(c, "s")), CacheHits: u64(c, "h"), CacheMisses: u64(c, "m"), CachePct: rapid.Float64().Draw(c.T, "pct")}
		}, func() value { return new(rankdb.ListStats) }},
	}
}

// norm makes a value printable and comparable through its exported content.
func norm(v value) string {
	rv := reflect.ValueOf(v).Elem()
	return normV(rv)
}

func normV(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		var b strings.Builder
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Type.PkgPath() == "sync" {
				continue
			}
			fmt.Fprintf(&b, "%s:%s ", f.Name, normV(v.Field(i)))
		}
		return "{" + b.String() + "}"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v.Bytes())
		}
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(normV(v.Index(i)))
			b.WriteByte(',')
		}
		return "[" + b.String() + "]"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + normV(v.Elem())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Map:
		return fmt.Sprintf("%q", v.Interface()) // sorted by fmt
	}
	return fmt.Sprint(v.Interface())
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// ---- corrupting ----------------------------------------------------------------------------

// headers that declare big content.
var bigHeaders = [][]byte{
	{0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdd, 0x7f, 0xff, 0xff, 0xff}, {0xdd, 0x00, 0x10, 0x00, 0x00}, {0xdc, 0xff, 0xff},
	{0xdf, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0x00, 0x40, 0x00, 0x00}, {0xde, 0xff, 0xff},
	{0xc6, 0xff, 0xff, 0xff, 0xff}, {0xc6, 0x00, 0x40, 0x00, 0x00}, {0xdb, 0xff, 0xff, 0xff, 0xff}, {0xdb, 0x7f, 0xff, 0xff, 0xf0}, {0xc9, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xd3, 0x80, 0, 0, 0, 0, 0, 0, 0}, {0xff}, {0xc0}, {0xc1},
}

func mutate(c *h.Case, b []byte) []byte {
	b = append([]byte(nil), b...)
	n := rapid.IntRange(1, 3).Draw(c.T, "mutations")
	for i := 0; i < n; i++ {
		pos := 0
		if len(b) > 0 {
			if rapid.Bool().Draw(c.T, "early") {
				pos = rapid.IntRange(0, min(len(b)-1, 24)).Draw(c.T, "pos")
			} else {
				pos = rapid.IntRange(0, len(b)-1).Draw(c.T, "pos")
			}
		}
		switch rapid.IntRange(0, 7).Draw(c.T, "mutation") {
		case 0:
			b = b[:pos]
		case 1, 2:
			if len(b) > 0 {
				b[pos] = byte(rapid.IntRange(0, 255).Draw(c.T, "byte"))
			}
		case 3, 4: // replace by a header declaring a lot
			hd := rapid.SampledFrom(bigHeaders).Draw(c.T, "header")
			b = append(append(append([]byte(nil), b[:pos]...), hd...), b[min(len(b), pos+rapid.IntRange(0, len(hd)).Draw(c.T, "over")):]...)
		case 5: // remove some bytes
			e := min(len(b), pos+rapid.IntRange(1, 8).Draw(c.T, "len"))
			b = append(append([]byte(nil), b[:pos]...), b[e:]...)
		case 6: // repeat a piece
			e := min(len(b), pos+rapid.IntRange(1, 40).Draw(c.T, "len"))
			b = append(append([]byte(nil), b[:e]...), b[pos:]...)
		case 7:
			if len(b) > 0 {
				b[pos] ^= 1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit"))
			}
		}
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// overDeclared tells whether a decoder that trusts declared sizes would be asked for more
// entries (or bytes, if stream) than there are bytes left. Walks in the order decoders do.
func overDeclared(b []byte, stream bool, depth int) (rest []byte, over, ok bool) {
	if len(b) == 0 {
		return b, false, false
	}
	n, size, hd := 0, 0, 1
	be := func(k int) (int, bool) {
		if len(b) < 1+k {
			return 0, false
		}
		v := 0
		for _, x := range b[1 : 1+k] {
			v = v<<8 | int(x)
		}
		return v, true
	}
	var good = true
	l := b[0]
	switch {
	case l < 0x80 || l >= 0xe0 || l == 0xc0 || l == 0xc2 || l == 0xc3:
	case l < 0x90:
		n = 2 * int(l&15)
	case l < 0xa0:
		n = int(l & 15)
	case l < 0xc0:
		size = int(l & 31)
	case l == 0xc1:
		return b, false, false
	case l == 0xc4 || l == 0xd9:
		size, good = be(1)
		hd = 2
	case l == 0xc5 || l == 0xda:
		size, good = be(2)
		hd = 3
	case l == 0xc6 || l == 0xdb:
		size, good = be(4)
		hd = 5
	case l == 0xc7:
		size, good = be(1)
		hd = 3
	case l == 0xc8:
		size, good = be(2)
		hd = 4
	case l == 0xc9:
		size, good = be(4)
		hd = 6
	case l == 0xca || l == 0xce || l == 0xd2:
		size = 4
	case l == 0xcb || l == 0xcf || l == 0xd3:
		size = 8
	case l == 0xcc || l == 0xd0:
		size = 1
	case l == 0xcd || l == 0xd1:
		size = 2
	case l >= 0xd4 && l <= 0xd8:
		size = 1 + 1<<(l-0xd4)
	case l == 0xdc:
		n, good = be(2)
		hd = 3
	case l == 0xdd:
		n, good = be(4)
		hd = 5
	case l == 0xde:
		n, good = be(2)
		n *= 2
		hd = 3
	case l == 0xdf:
		n, good = be(4)
		n *= 2
		hd = 5
	}
	if !good || len(b) < hd {
		return b, false, false
	}
	b = b[hd:]
	if n > len(b) {
		return b, true, false
	}
	if size > len(b) {
		return b, stream, false
	}
	b = b[size:]
	for i := 0; i < n; i++ {
		var o, k bool
		if b, o, k = overDeclared(b, stream, depth+1); !k {
			return b, o, false
		}
	}
	return b, false, true
}

// ---- C14 -----------------------------------------------------------------------------------

const declaredKey = "msgp-generated decoders"

func roundtrip(c *h.Case) {
	ks := kinds()
	n := rapid.IntRange(1, 5).Draw(c.T, "values")
	type item struct {
		k kind
		v value
		b []byte
	}
	var items []item
	for i := 0; i < n; i++ {
		k := ks[rapid.IntRange(0, len(ks)-1).Draw(c.T, "type")]
		v := k.gen(c)
		items = append(items, item{k, v, nil})
		c.Logf("%s %s", k.name, short(norm(v)))
		c.Class("type " + k.name)
	}
	c.Nontrivial()
	// All values one after another, in both forms.
	prefix := rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(c.T, "prefix")
	buf := append([]byte(nil), prefix...)
	wm := rankdb.NewWriterMsg()
	other := rankdb.NewWriterMsg() // another pooled writer in use at the same time
	var sink bytes.Buffer
	if rapid.Bool().Draw(c.T, "replace") {
		wm.ReplaceWriter(&sink)
	}
	version := uint8(rapid.IntRange(1, 254).Draw(c.T, "version"))
	var stream []byte
	vlen := 0
	c.Do("encode", func() {
		if err := wm.SetVersion(version); err != nil {
			c.Fatalf("SetVersion(%d): %v", version, err)
		}
		for i := range items {
			it := &items[i]
			var err error
			at := len(buf)
			want := norm(it.v)
			buf, err = it.v.MarshalMsg(buf)
			if err != nil {
				c.Fatalf("MarshalMsg %s: %v", it.k.name, err)
			}
			it.b = append([]byte(nil), buf[at:]...)
			if it.v.Msgsize() < len(it.b) {
				c.Fatalf("Msgsize %s: %d, but %d bytes", it.k.name, it.v.Msgsize(), len(it.b))
			}
			if err := it.v.EncodeMsg(wm.Writer()); err != nil {
				c.Fatalf("EncodeMsg %s: %v", it.k.name, err)
			}
			if err := it.v.EncodeMsg(other.Writer()); err != nil {
				c.Fatalf("EncodeMsg %s: %v", it.k.name, err)
			}
			if norm(it.v) != want {
				c.Fatalf("encoding changed %s", it.k.name)
			}
		}
		if !bytes.Equal(buf[:len(prefix)], prefix) {
			c.Fatalf("MarshalMsg changed what it appends to")
		}
		b := wm.Buffer().Bytes()
		if sink.Len() > 0 {
			b = sink.Bytes()
		}
		stream = append([]byte(nil), b...)
		o := other.Buffer().Bytes()
		rest, v := rankdb.MsgpGetVersion(b)
		if v != version || len(rest) != len(o) {
			c.Fatalf("stream form has %d bytes after version %d, another writer made %d; version %d", len(rest), v, len(o), version)
		}
		vlen = len(b) - len(rest)
		wm.Close()
		other.Close()
		// A recycled writer starts empty.
		again := rankdb.NewWriterMsg()
		if again.Buffer().Len() != 0 {
			c.Fatalf("recycled writer holds %d bytes", again.Buffer().Len())
		}
		again.Close()
	})
	// The two forms are interchangeable.
	if rapid.Bool().Draw(c.T, "swap") {
		b := append([]byte(nil), prefix...)
		b = append(b, stream[vlen:]...)
		stream = append(append([]byte(nil), stream[:vlen]...), buf[len(prefix):]...)
		buf = b
	}
	dirty := rapid.Bool().Draw(c.T, "dirty")
	target := func(i int) value {
		if dirty { // a value used before
			v := items[i].k.gen(c)
			return v
		}
		return items[i].k.zero()
	}
	var targets, targets2 []value
	for i := range items {
		targets = append(targets, target(i))
		targets2 = append(targets2, target(i))
	}
	c.Do("decode", func() {
		b := buf[len(prefix):]
		in := append([]byte(nil), b...)
		rm := rankdb.NewReaderMsgp(stream)
		if v := rm.GetVersion(); v != version {
			c.Fatalf("version %d read as %d", version, v)
		}
		for i, it := range items {
			var err error
			b, err = targets[i].UnmarshalMsg(b)
			if err != nil {
				c.Fatalf("UnmarshalMsg %s: %v", it.k.name, err)
			}
			if err := targets2[i].DecodeMsg(rm.Reader()); err != nil {
				c.Fatalf("DecodeMsg %s: %v", it.k.name, err)
			}
		}
		if len(b) != 0 {
			c.Fatalf("%d bytes left", len(b))
		}
		if !bytes.Equal(in, buf[len(prefix):]) {
			c.Fatalf("decoding changed the input")
		}
		rm.Close()
	})
	// The decoded values do not depend on the input buffers any more.
	for i := range buf {
		buf[i] = 0xa5
	}
	for i := range stream {
		stream[i] = 0x5a
	}
	for i, it := range items {
		want := norm(it.v)
		if g := norm(targets[i]); g != want {
			c.Fatalf("%s came back from its buffer form as\n%s\nwant\n%s", it.k.name, short(g), short(want))
		}
		if g := norm(targets2[i]); g != want {
			c.Fatalf("%s came back from its stream form as\n%s\nwant\n%s", it.k.name, short(g), short(want))
		}
	}
}

// allocated runs fn and returns the bytes allocated meanwhile.
func allocated(c *h.Case, name string, fn func()) uint64 {
	var a, b runtime.MemStats
	c.Do(name, func() {
		runtime.ReadMemStats(&a)
		fn()
		runtime.ReadMemStats(&b)
	})
	return b.TotalAlloc - a.TotalAlloc
}

func garbage(c *h.Case) {
	ks := kinds()
	k := ks[rapid.IntRange(0, len(ks)-1).Draw(c.T, "type")]
	var b []byte
	if rapid.IntRange(0, 9).Draw(c.T, "pure") == 0 {
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "bytes")
	} else {
		var err error
		b, err = k.gen(c).MarshalMsg(nil)
		if err != nil {
			c.Fatalf("MarshalMsg: %v", err)
		}
		b = mutate(c, b)
	}
	c.Logf("%s from %d bytes %x", k.name, len(b), b[:min(len(b), 200)])
	c.Class("garbage " + k.name)
	c.Nontrivial()
	_, over, _ := overDeclared(b, false, 0)
	_, overS, _ := overDeclared(b, true, 0)
	listed := h.Listed(declaredKey)
	limit := uint64(1<<17 + 300*len(b))
	var v value
	var err error
	if over && listed {
		c.Class("declares absent entries (known finding)")
	} else {
		n := allocated(c, "UnmarshalMsg", func() {
			v = k.zero()
			_, err = v.UnmarshalMsg(b)
		})
		if n > limit {
			c.Fatalf("UnmarshalMsg %s allocated %d bytes for %d", k.name, n, len(b))
		}
		if err == nil {
			again(c, k, v)
		}
	}
	if overS && listed {
		c.Class("declares absent entries (known finding)")
	} else {
		n := allocated(c, "DecodeMsg", func() {
			v = k.zero()
			err = v.DecodeMsg(msgp.NewReaderSize(bytes.NewReader(b), 2000))
		})
		if n > limit {
			c.Fatalf("DecodeMsg %s allocated %d bytes for %d", k.name, n, len(b))
		}
		if err == nil {
			again(c, k, v)
		}
	}
	// The bounded form used for loading.
	if k.name != "ListStats" {
		n := allocated(c, "DecodeNext", func() {
			rm := rankdb.NewReaderMsgp(b)
			v = k.zero()
			err = rm.DecodeNext(v)
			rm.Close()
		})
		if n > limit {
			c.Fatalf("DecodeNext %s allocated %d bytes for %d", k.name, n, len(b))
		}
	}
}

// again checks that a value decoded from anything survives a round trip.
func again(c *h.Case, k kind, v value) {
	if k.name == "ListStats" {
		return // top and bottom are not kept
	}
	var w value
	c.Do("again", func() {
		b, err := v.MarshalMsg(nil)
		if err != nil {
			c.Fatalf("decoded %s cannot be encoded: %v", k.name, err)
		}
		w = k.zero()
		if _, err = w.UnmarshalMsg(b); err != nil {
			c.Fatalf("decoded %s does not decode again: %v", k.name, err)
		}
	})
	if norm(v) != norm(w) {
		c.Fatalf("decoded %s changed to %s", short(norm(v)), short(norm(w)))
	}
}

// storedData damages what a list has stored and uses it.
func storedData(c *h.Case) {
	e := m.NewEnv(c, 25)
	for i, n := 0, rapid.IntRange(0, 3).Draw(c.T, "writes"); i < n; i++ {
		e.RandomWrite(10)
	}
	before := e.Mo.Clone()
	_ = before
	keys := e.Mem.Keys(e.Set)
	if len(keys) == 0 {
		return
	}
	total := 0
	for i, n := 0, rapid.IntRange(1, 2).Draw(c.T, "n"); i < n; i++ {
		key := keys[rapid.IntRange(0, len(keys)-1).Draw(c.T, "key")]
		b, ok := e.Mem.Peek(e.Set, key)
		if !ok {
			continue
		}
		nb := mutate(c, b)
		c.Logf("blob %s: %x -> %x", key, b[:min(len(b), 120)], nb[:min(len(nb), 120)])
		e.Mem.Put(e.Set, key, nb)
	}
	for _, k := range keys {
		b, _ := e.Mem.Peek(e.Set, k)
		total += len(b)
	}
	if e.Cache != nil {
		if cc, ok := e.Cache.(*m.Cache); ok {
			cc.Clear()
		}
	}
	c.Nontrivial()
	c.Class("stored data")
	if rapid.Bool().Draw(c.T, "release") {
		c.Do("ReleaseSegments", func() { e.List.ReleaseSegments(m.Ctx) })
	} else {
		e.List = m.Reload(c, e.Bs, e.List, m.GenCache(c))
	}
	ids := append([]rankdb.ElementID{1, 2, 3}, before.IDs()...)
	steps := rapid.SliceOfN(rapid.IntRange(0, 9), 1, 4).Draw(c.T, "uses")
	for _, s := range steps {
		use := func() {
			switch s {
			case 0:
				_, _ = e.List.GetElements(m.Ctx, e.Bs, ids, 2)
			case 1:
				_, _ = e.List.GetRankTop(m.Ctx, e.Bs, 0, 5)
			case 2:
				_, _ = e.List.GetRankBottom(m.Ctx, e.Bs, 0, 5)
			case 3:
				_ = e.List.Verify(m.Ctx, e.Bs)
				_ = e.List.VerifyElements(m.Ctx, e.Bs)
			case 4:
				_, _ = e.List.UpdateElements(m.Ctx, e.Bs, []rankdb.Element{{ID: ids[0], Score: 5, Updated: 9}}, 1, true)
			case 5:
				_ = e.List.DeleteElements(m.Ctx, e.Bs, ids[:1])
			case 6:
				_ = e.List.ForceSplit(m.Ctx, e.Bs)
			case 7:
				_, _ = e.List.Len(m.Ctx, e.Bs)
				_, _ = e.List.Stats(m.Ctx, e.Bs, true)
			case 8:
				_ = e.List.Repair(m.Ctx, e.Bs, rapid.SampledFrom([]bool{false, true}).Draw(c.T, "clear"))
			case 9:
				_, _ = e.List.GetPercentile(m.Ctx, e.Bs, 0.5, 1)
			}
		}
		c.Logf("use %d", s)
		if n := allocated(c, fmt.Sprintf("use %d", s), use); n > uint64(16<<20+20000*total) {
			c.Fatalf("operation %d allocated %d bytes with %d bytes of stored data", s, n, total)
		}
	}
}

func catalogue(c *h.Case) {
	bs := m.NewStore()
	mgr, err := rankdb.NewManager(bs, "cat")
	if err != nil {
		c.Fatalf("NewManager: %v", err)
	}
	if err := mgr.NewLists(nil); err != nil {
		c.Fatalf("NewLists: %v", err)
	}
	n := rapid.IntRange(0, 4).Draw(c.T, "lists")
	for i := 0; i < n; i++ {
		mgr.Lists.Add(&rankdb.List{ID: rankdb.ListID(fmt.Sprint("l", i)), Set: "s", Metadata: genMeta(c), SplitSize: 10, MergeSize: 2, LoadIndex: rapid.Bool().Draw(c.T, "li"), Scores: "a", Index: "b"})
	}
	var buf bytes.Buffer
	c.Do("Save", func() {
		if err := mgr.Lists.Save(m.Ctx, &buf); err != nil {
			c.Fatalf("Save: %v", err)
		}
	})
	b := buf.Bytes()
	// Recode to get at the content.
	plain := b[1:]
	dec, err := zstd.NewReader(nil)
	if err != nil {
		c.Fatalf("VERIF-ERROR zstd: %v", err)
	}
	defer dec.Close()
	if plain, err = dec.DecodeAll(b[1:], nil); err != nil {
		c.Fatalf("the saved catalogue is not a zstd stream: %v", err)
	}
	form := rapid.IntRange(0, 3).Draw(c.T, "form")
	switch form {
	case 0: // damaged as stored
		if rapid.IntRange(0, 3).Draw(c.T, "frame") == 0 {
			// The byte declaring the window of the compressed frame.
			b[6] = byte(rapid.IntRange(0, 255).Draw(c.T, "window"))
		} else {
			b = mutate(c, b)
		}
	case 1: // not compressed
		b = append([]byte{7}, mutate(c, plain)...)
	case 2: // well compressed, damaged content
		var z bytes.Buffer
		zw, _ := zstd.NewWriter(&z)
		_, _ = zw.Write(mutate(c, plain))
		_ = zw.Close()
		b = append([]byte{0x17}, z.Bytes()...)
	case 3: // old format
		var z bytes.Buffer
		fw, _ := flate.NewWriter(&z, 5)
		_, _ = fw.Write(mutate(c, plain))
		_ = fw.Close()
		b = z.Bytes()
	}
	c.Logf("catalogue form %d with %d lists: %x", form, n, b[:min(len(b), 300)])
	c.Class(fmt.Sprintf("catalogue form %d", form))
	c.Nontrivial()
	old := mgr.Lists.All()
	lists := mgr.Lists
	a := allocated(c, "Load", func() { err = lists.Load(m.Ctx, bs, b) })
	if a > uint64(96<<20+1000*len(b)) {
		c.Fatalf("Load allocated %d bytes for %d bytes", a, len(b))
	}
	if err != nil {
		c.Class("load refused")
		if len(lists.All()) != len(old) {
			c.Fatalf("failed load changed the lists: %v -> %v", old, lists.All())
		}
	}
}

func restoreList(c *h.Case) {
	e := m.NewEnv(c, 15)
	wm := rankdb.NewWriterMsg()
	var b []byte
	c.Do("Backup", func() {
		if err := e.List.Backup(m.Ctx, e.Bs, wm); err != nil {
			c.Fatalf("Backup: %v", err)
		}
		b = append([]byte(nil), wm.Buffer().Bytes()...)
		wm.Close()
	})
	b = mutate(c, b)
	c.Logf("restore %x", b[:min(len(b), 400)])
	c.Class("restore list")
	c.Nontrivial()
	dst := m.NewStore()
	var newID *rankdb.ListID
	if rapid.Bool().Draw(c.T, "newid") {
		id := rankdb.ListID("new")
		newID = &id
	}
	var l *rankdb.List
	var err error
	a := allocated(c, "RestoreList", func() {
		rm := rankdb.NewReaderMsgp(b)
		defer rm.Close()
		l, err = rankdb.RestoreList(m.Ctx, dst, rm, nil, newID)
	})
	if a > uint64(8<<20+3000*len(b)) {
		c.Fatalf("RestoreList allocated %d bytes for %d bytes", a, len(b))
	}
	if err == nil {
		c.Do("use", func() {
			_ = l.Verify(m.Ctx, dst)
			_, _ = l.GetRankTop(m.Ctx, dst, 0, 10)
			_ = l.VerifyUnlocked(m.Ctx, 5e9)
		})
	}
}

func TestC14(t *testing.T) {
	if h.Listed(declaredKey) {
		// Still there? The exclusion only covers decoding from more declared entries than bytes.
		var e rankdb.ElementIDs
		b := make([]byte, 5)
		b[0] = 0xdd
		binary.BigEndian.PutUint32(b[1:], 1<<20)
		var x, y runtime.MemStats
		runtime.ReadMemStats(&x)
		_, err := e.UnmarshalMsg(b)
		runtime.ReadMemStats(&y)
		if err != nil && y.TotalAlloc-x.TotalAlloc > 1<<20 {
			h.Known(declaredKey)
		}
	}
	h.Run(t, "values of every stored type through both forms (concatenated, pooled readers and writers, fresh and used targets); encodings, stored blobs, catalogues and backups of real lists that are truncated, flipped, spliced or given huge declared sizes, then decoded and used; non-trivial: a value was round-tripped or damaged bytes were decoded", func(c *h.Case) {
		switch rapid.IntRange(0, 9).Draw(c.T, "mode") {
		case 0, 1, 2:
			roundtrip(c)
		case 3, 4, 5:
			garbage(c)
		case 6, 7:
			storedData(c)
		case 8:
			catalogue(c)
		case 9:
			restoreList(c)
		}
	})
}

var _ = context.Background
var _ = blobstore.ErrBlobNotFound
