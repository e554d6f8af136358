package stores

import (
	"bytes"
	"context"
	"fmt"
	"testing"

	"github.com/Vivino/rankdb/blobstore"
	"pgregory.net/rapid"
	"verif/h"
)

// limited is what is known about a key of the size-limited store.
type limited struct {
	vals    [][]byte // acceptable values; nil: absent
	broken  bool     // a piece is missing: reading must not give data, unless it is one of vals with all pieces
	errOK   bool     // reading may fail, since a piece may be missing
	pending bool     // an operation failed since the last complete write
	unknown bool     // pieces of an earlier value may be left behind
	seen    bool     // read or written through this instance
	pieces  int      // upper bound of pieces of everything written since
}

func (l *limited) accepts(v []byte) bool {
	for _, x := range l.vals {
		if (x == nil) == (v == nil) && bytes.Equal(x, v) {
			return true
		}
	}
	return false
}

func TestC18(t *testing.T) {
	h.Run(t, "histories of set/get/delete through the size-limiting store with limits from 1024, value lengths around the multiples of the limit, new instances on the same data, one or all backing operations from a generated point failing before or after taking effect, lost pieces, damaged headers and a concurrent phase; every read is compared with the acceptable values, the backing store with the allowed pieces and sizes; non-trivial: a value of several pieces was replaced or deleted", func(c *h.Case) {
		bs := newBacking()
		max := rapid.SampledFrom([]int{1024, 1024, 1025, 1500, 4096}).Draw(c.T, "max")
		var s *blobstore.MaxSizeStore
		open := func() {
			var err error
			s, err = blobstore.NewMaxSizeStore(bs, max)
			if err != nil {
				c.Fatalf("NewMaxSizeStore(%d): %v", max, err)
			}
		}
		open()
		keys := genKeys(c, 4)
		st := map[sk]*limited{}
		for _, k := range keys {
			st[k] = &limited{vals: [][]byte{nil}, seen: true}
		}
		id := 0
		size := func() int {
			if rapid.IntRange(0, 3).Draw(c.T, "small") == 0 {
				return rapid.IntRange(0, 30).Draw(c.T, "size")
			}
			n := rapid.IntRange(1, 5).Draw(c.T, "n")
			switch rapid.IntRange(0, 800).Draw(c.T, "many") {
			case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16:
				// The header grows to two bytes.
				n = rapid.IntRange(126, 131).Draw(c.T, "n")
				c.Class("many-pieces")
			case 17:
				// The header grows to three bytes.
				n = rapid.IntRange(16382, 16386).Draw(c.T, "n")
				c.Class("very-many-pieces")
			}
			return n*max + rapid.IntRange(-6, 6).Draw(c.T, "off")
		}
		need := func(n int) int { return (n + 8 + max - 1) / max }
		struck := 0
		check := func() {
			snap := bs.snapshot()
			for k, v := range snap {
				if len(v) > max {
					c.Fatalf("a piece of %d bytes was stored as %v, the limit is %d", len(v), k, max)
				}
			}
			left := map[sk]int{}
			for k := range snap {
				owner := k
				if _, ok := st[k]; !ok {
					for i := len(k.key) - 1; i > 0; i-- {
						if k.key[i] == '+' {
							owner = sk{k.set, k.key[:i]}
							break
						}
					}
				}
				if st[owner] == nil {
					c.Fatalf("%v was stored, but no value has that key", k)
				}
				left[owner]++
			}
			for k, l := range st {
				if l.unknown || l.pending || len(l.vals) != 1 || l.broken {
					continue
				}
				v := l.vals[0]
				switch {
				case v == nil && left[k] != 0:
					c.Fatalf("%d pieces are left of the deleted %v", left[k], k)
				case v != nil && (left[k] > need(len(v)) || left[k]*max < len(v)):
					c.Fatalf("%d pieces are stored of %v with %d bytes", left[k], k, len(v))
				}
			}
		}
		get := func(k sk) {
			l := st[k]
			n := struck
			var v []byte
			var err error
			c.Do("Get", func() { v, err = s.Get(bg, k.set, k.key) })
			if err == nil && v == nil {
				v = []byte{}
			}
			switch {
			case err == blobstore.ErrBlobNotFound && !l.broken && struck == n:
				if !l.accepts(nil) {
					c.Fatalf("Get %v: not found, want %s", k, short(l.vals[0]))
				}
				l.vals = [][]byte{nil}
			case err != nil:
				if !l.broken && !l.errOK && struck == n {
					c.Fatalf("Get %v: %v", k, err)
				}
			case !l.accepts(v):
				c.Fatalf("Get %v returned %s, want %s", k, short(v), short(l.vals[0]))
			case l.broken:
				c.Fatalf("Get %v returned data though a piece is missing", k)
			default:
				l.vals = [][]byte{append([]byte{}, v...)}
				l.seen = true
				scribble(v)
			}
		}
		big := false
		set := func(k sk, n int) {
			l := st[k]
			id++
			v := value(id, n)
			keep := append([]byte{}, v...)
			before := struck
			var err error
			c.Do("Set", func() { err = s.Set(bg, k.set, k.key, v) })
			if !bytes.Equal(v, keep) {
				c.Fatalf("Set changed the buffer it was given")
			}
			scribble(v)
			if l.pieces > 1 {
				big = true
			}
			if l.broken && !l.seen || !l.seen {
				if l.pieces > 1 {
					l.unknown = true
				}
			}
			if m := need(n); m > l.pieces {
				l.pieces = m
			}
			l.seen = true
			if err != nil {
				if struck == before {
					c.Fatalf("Set %v of %d bytes: %v", k, n, err)
				}
				if l.broken {
					l.vals, l.broken, l.errOK = nil, false, true
				}
				l.vals = append(l.vals, keep, nil)
				l.pending = true
				c.Class("failed-set")
				return
			}
			// Deleting pieces that are no longer used may have failed.
			l.vals, l.broken, l.errOK, l.pending = [][]byte{keep}, false, false, struck != before
		}
		del := func(k sk) {
			l := st[k]
			before := struck
			var err error
			if l.pieces > 1 {
				big = true
			}
			c.Do("Delete", func() { err = s.Delete(bg, k.set, k.key) })
			if err != nil {
				if struck == before && !l.broken && !l.errOK {
					c.Fatalf("Delete %v: %v", k, err)
				}
				l.vals = append(l.vals, nil)
				l.pending = true
				c.Class("failed-delete")
				return
			}
			if l.errOK || !l.seen && len(l.vals) == 1 && l.vals[0] == nil || l.broken {
				// Left over by an earlier instance.
				l.unknown = l.unknown || l.pieces > 1
			}
			l.vals, l.broken, l.errOK, l.pending = [][]byte{nil}, false, false, false
			l.seen = true
		}
		for n := rapid.IntRange(1, 25).Draw(c.T, "ops"); n > 0; n-- {
			k := rapid.SampledFrom(keys).Draw(c.T, "key")
			l := st[k]
			op := rapid.SampledFrom([]string{"set", "set", "set", "get", "get", "del", "reopen", "fault", "fault", "lose", "header", "par", "limit"}).Draw(c.T, "op")
			switch op {
			case "set":
				n := size()
				c.Logf("set %v %d bytes", k, n)
				set(k, n)
			case "get":
				c.Logf("get %v", k)
				get(k)
			case "del":
				c.Logf("del %v", k)
				del(k)
			case "reopen":
				c.Logf("new instance")
				open()
				for _, l := range st {
					l.seen = false
					if len(l.vals) != 1 || l.pending {
						// The old instance knew what failed.
						l.unknown = true
					}
				}
			case "fault":
				at := rapid.IntRange(1, 7).Draw(c.T, "at")
				kind := rapid.SampledFrom([]string{"set", "del", "get", ""}).Draw(c.T, "fop")
				persist := rapid.Bool().Draw(c.T, "persistent")
				after := rapid.IntRange(0, 2).Draw(c.T, "after") == 0
				seen := 0
				bs.setHook(func(ctx context.Context, op string, k sk, val []byte) outcome {
					if kind != "" && op != kind {
						return outcome{}
					}
					seen++
					if seen == at || persist && seen > at {
						struck++
						return outcome{err: errInjected, after: after && op != "get"}
					}
					return outcome{}
				})
				which := rapid.SampledFrom([]string{"set", "set", "get", "del"}).Draw(c.T, "which")
				sz := 0
				if which == "set" {
					sz = size()
				}
				c.Logf("%s %v %d bytes with %q failing at %d persistent=%v after=%v", which, k, sz, kind, at, persist, after)
				switch which {
				case "set":
					set(k, sz)
				case "get":
					get(k)
				case "del":
					del(k)
				}
				bs.setHook(nil)
			case "lose":
				// Lose a piece other than the first.
				if len(l.vals) != 1 || l.vals[0] == nil || l.broken {
					continue
				}
				var pieces []sk
				snap := bs.snapshot()
				for i := 0; i < 20000; i++ {
					p := sk{k.set, fmt.Sprintf("%s+%d", k.key, i)}
					v, ok := snap[p]
					if !ok {
						break
					}
					if len(v) > 0 {
						pieces = append(pieces, p)
					}
				}
				if len(pieces) == 0 || l.unknown || l.pending {
					continue
				}
				p := rapid.SampledFrom(pieces).Draw(c.T, "piece")
				c.Logf("lose piece %v", p)
				bs.mu.Lock()
				delete(bs.data, p)
				bs.mu.Unlock()
				l.broken = true
				c.Class("lost-piece")
				get(k)
			case "header":
				// An impossible number of pieces.
				if len(l.vals) != 1 || l.vals[0] == nil || l.broken {
					continue
				}
				hdr := rapid.SampledFrom([][]byte{{}, {0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0x3f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}}).Draw(c.T, "header")
				c.Logf("damage header of %v: %x", k, hdr)
				bs.mu.Lock()
				bs.data[k] = append([]byte{}, hdr...)
				bs.mu.Unlock()
				l.broken = true
				l.unknown = true
				c.Class("damaged-header")
				get(k)
			case "par":
				mo := model{}
				var free []sk
				for _, k := range keys {
					l := st[k]
					if len(l.vals) != 1 || l.broken || l.errOK {
						continue
					}
					free = append(free, k)
					if l.vals[0] != nil {
						mo[k] = l.vals[0]
					}
					if !l.seen && l.pieces > 1 {
						l.unknown = true
					}
					l.pieces, l.seen = 9, true
				}
				runRegisters(c, s, mo, free, &id, func() int { return size() }, nil)
				for _, k := range free {
					st[k].vals = [][]byte{nil}
					if v, ok := mo[k]; ok {
						st[k].vals[0] = v
					}
				}
			case "limit":
				if rapid.IntRange(0, 60).Draw(c.T, "rare") != 0 {
					continue
				}
				// The documented limit is 65535 times the maximum size.
				n := 65535*max + rapid.IntRange(0, 5).Draw(c.T, "over")
				c.Logf("set %v %d bytes", k, n)
				before := bs.snapshot()
				var err error
				c.Do("Set", func() { err = s.Set(bg, k.set, k.key, make([]byte, n)) })
				if err == nil {
					c.Fatalf("Set of %d bytes was accepted with a limit of %d", n, max)
				}
				if d := diff(bs.snapshot(), model(before)); d != "" {
					c.Fatalf("a refused value changed what is stored: %s", d)
				}
				c.Class("limit")
			}
			check()
			if bs.over > max {
				c.Fatalf("a blob of %d bytes was handed to the store, the limit is %d", bs.over, max)
			}
		}
		for _, k := range keys {
			get(k)
		}
		// Everything works again.
		for _, k := range keys {
			n := size()
			c.Logf("set %v %d bytes", k, n)
			set(k, n)
			get(k)
		}
		check()
		if big {
			c.Nontrivial()
		}
	})
}
