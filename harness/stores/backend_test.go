package stores

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/blobstore/badgerstore"
	"github.com/Vivino/rankdb/blobstore/boltstore"
	"github.com/Vivino/rankdb/blobstore/memstore"
	"github.com/dgraph-io/badger"
	"github.com/etcd-io/bbolt"
	"pgregory.net/rapid"
	"verif/h"
)

type backend struct {
	c     *h.Case
	kind  string
	dir   string
	small bool
	s     blobstore.Store
	close func() error
}

func (b *backend) open() {
	c := b.c
	c.Do("open", func() {
		switch b.kind {
		case "mem":
			if b.s == nil {
				b.s = memstore.NewMemStore()
			}
			b.close = func() error { return nil }
		case "bolt":
			var o *bbolt.Options
			if rapid.Bool().Draw(c.T, "opts") {
				o = &bbolt.Options{NoGrowSync: true, InitialMmapSize: 1 << 16}
			}
			s, err := boltstore.NewBoltStore(filepath.Join(b.dir, "bolt.db"), o)
			if err != nil {
				c.Fatalf("NewBoltStore: %v", err)
			}
			s.DB().NoSync = true
			b.s, b.close = s, s.Close
		case "badger":
			o := badger.DefaultOptions(b.dir).WithSyncWrites(false).WithLogger(nil)
			o = o.WithValueLogFileSize(8 << 20).WithNumMemtables(1).WithNumCompactors(1).WithCompactL0OnClose(false)
			if b.small {
				o = o.WithMaxTableSize(256 << 10)
			} else {
				o = o.WithMaxTableSize(16 << 20)
			}
			s, err := badgerstore.New(o)
			if err != nil {
				c.Fatalf("badgerstore.New: %v", err)
			}
			b.s, b.close = s, s.Close
		}
	})
}

func TestC20(t *testing.T) {
	h.Run(t, "histories of set/get/delete/re-open through the store or a StoreWithSet wrapper on the memory, Bolt and Badger stores, over set and key names containing separators, zero bytes and reserved prefixes, values of 0 to 1.2 MB, buffers overwritten after each call, bulk writes past the write queue, and a concurrent phase with one writer and several readers per key; every read and the whole content is compared with a map; non-trivial: a value was overwritten or deleted and (for persistent stores) the store re-opened", func(c *h.Case) {
		b := &backend{c: c, kind: rapid.SampledFrom([]string{"mem", "mem", "bolt", "badger"}).Draw(c.T, "kind")}
		if b.kind != "mem" {
			dir, err := ioutil.TempDir("", "verif-store")
			if err != nil {
				c.Fatalf("VERIF-ERROR: %v", err)
			}
			c.Defer(func() { os.RemoveAll(dir) })
			b.dir = dir
			b.small = rapid.Bool().Draw(c.T, "small")
		}
		c.IgnoreIO = true
		b.open()
		c.Defer(func() {
			if b.close != nil {
				_ = b.close()
			}
		})
		c.Logf("%s small=%v", b.kind, b.small)
		c.Class(b.kind)
		mo := model{}
		keys := genKeys(c, 10)
		if rapid.IntRange(0, 3).Draw(c.T, "odd") == 0 {
			// May be refused by a store.
			keys = append(keys, sk{"set", ""}, sk{"set", "k"}, sk{"", "key"})
		}
		id := 0
		store := func(k sk) blobstore.WithSet {
			if rapid.Bool().Draw(c.T, "wrap") {
				w := blobstore.StoreWithSet(b.s, k.set)
				if w.Store() != b.s {
					c.Fatalf("StoreWithSet(...).Store() is another store")
				}
				return w
			}
			return direct{b.s, k.set}
		}
		get := func(k sk) {
			var v []byte
			var err error
			s := store(k)
			c.Do("Get", func() { v, err = s.Get(bg, k.key) })
			want, ok := mo[k]
			switch {
			case !ok && err == nil:
				c.Fatalf("Get %v returned %s, want not found", k, short(v))
			case !ok && err != blobstore.ErrBlobNotFound:
				c.Fatalf("Get %v of an absent key: %v", k, err)
			case ok && err != nil:
				c.Fatalf("Get %v: %v, want %s", k, err, short(want))
			case ok && !bytes.Equal(v, want):
				c.Fatalf("Get %v returned %s, want %s", k, short(v), short(want))
			}
			scribble(v[:cap(v)])
		}
		set := func(k sk, n int) {
			id++
			v := value(id, n)
			keep := append([]byte{}, v...)
			var err error
			s := store(k)
			c.Do("Set", func() { err = s.Set(bg, k.key, v) })
			if !bytes.Equal(v, keep) {
				c.Fatalf("Set changed the buffer it was given")
			}
			scribble(v)
			if err != nil {
				c.Class("refused")
				if len(k.key) >= 2 && k.set != "" && n <= blobstore.MaxSize {
					c.Fatalf("Set %v of %d bytes: %v", k, n, err)
				}
				return
			}
			mo[k] = keep
		}
		sizes := rapid.SampledFrom([]int{20, 20, 2000, 30000})
		size := func() int {
			if rapid.IntRange(0, 60).Draw(c.T, "huge") == 0 {
				return rapid.SampledFrom([]int{1 << 20, 1<<20 + 1, 1200000, 70000}).Draw(c.T, "big")
			}
			return rapid.IntRange(0, sizes.Draw(c.T, "max")).Draw(c.T, "size")
		}
		if b.kind == "badger" && b.small {
			// A single blob must fit in a transaction.
			size = func() int { return rapid.IntRange(0, sizes.Draw(c.T, "max")).Draw(c.T, "size") }
		}
		overwritten, reopened := false, b.kind == "mem"
		all := func() {
			for _, k := range keys {
				get(k)
			}
		}
		for n := rapid.IntRange(1, 40).Draw(c.T, "ops"); n > 0; n-- {
			k := rapid.SampledFrom(keys).Draw(c.T, "key")
			switch rapid.SampledFrom([]string{"set", "set", "set", "get", "get", "del", "bulk", "reopen", "all", "absent", "par"}).Draw(c.T, "op") {
			case "set":
				n := size()
				if _, ok := mo[k]; ok {
					overwritten = true
				}
				c.Logf("set %v %d bytes", k, n)
				set(k, n)
			case "get":
				c.Logf("get %v", k)
				get(k)
				get(k)
			case "del":
				c.Logf("del %v", k)
				if _, ok := mo[k]; ok {
					overwritten = true
				}
				s := store(k)
				var err error
				c.Do("Delete", func() { err = s.Delete(bg, k.key) })
				if err != nil && len(k.key) >= 2 && k.set != "" {
					c.Fatalf("Delete %v: %v", k, err)
				}
				delete(mo, k)
			case "bulk":
				n := rapid.SampledFrom([]int{5, 99, 100, 101, 130, 220}).Draw(c.T, "n")
				sz := rapid.SampledFrom([]int{10, 100, 2000}).Draw(c.T, "bulksize")
				pre := rapid.SampledFrom([]string{"bulk", "b/"}).Draw(c.T, "pre")
				c.Logf("bulk %v%s %d of %d bytes", k.set, pre, n, sz)
				if k.set == "" {
					continue
				}
				for i := 0; i < n; i++ {
					kk := sk{k.set, fmt.Sprintf("%s%d", pre, i)}
					if _, ok := mo[kk]; !ok {
						keys = append(keys, kk)
					}
					set(kk, sz)
				}
			case "reopen":
				if b.kind == "mem" {
					continue
				}
				c.Logf("reopen")
				reopened = true
				var err error
				c.Do("Close", func() { err = b.close() })
				if err != nil {
					c.Fatalf("Close: %v", err)
				}
				b.close = nil
				b.open()
			case "all":
				all()
			case "absent":
				kk := sk{k.set, k.key + "x"}
				if _, ok := mo[kk]; !ok {
					get(kk)
				}
			case "par":
				b.par(mo, keys, &id, size)
			}
		}
		all()
		if b.kind != "mem" && rapid.Bool().Draw(c.T, "last") {
			c.Logf("reopen")
			reopened = true
			var err error
			c.Do("Close", func() { err = b.close() })
			if err != nil {
				c.Fatalf("Close: %v", err)
			}
			b.close = nil
			b.open()
			all()
		}
		if overwritten && reopened {
			c.Nontrivial()
		}
	})
}

type direct struct {
	s   blobstore.Store
	set string
}

func (d direct) Get(ctx ctxT, key string) ([]byte, error)   { return d.s.Get(ctx, d.set, key) }
func (d direct) Set(ctx ctxT, key string, val []byte) error { return d.s.Set(ctx, d.set, key, val) }
func (d direct) Delete(ctx ctxT, key string) error          { return d.s.Delete(ctx, d.set, key) }
func (d direct) Store() blobstore.Store                     { return d.s }

// par runs writers on distinct keys and readers on all of them.
func (b *backend) par(mo model, keys []sk, id *int, size func() int) {
	c := b.c
	n := rapid.IntRange(1, 4).Draw(c.T, "writers")
	if n > len(keys) {
		n = len(keys)
	}
	at := rapid.IntRange(0, len(keys)-n).Draw(c.T, "first")
	runRegisters(c, b.s, mo, keys[at:at+n], id, size, nil)
}

// runRegisters runs one writer per key and readers concurrently, and updates the model.
// refused tells whether an error means that the operation was refused and had no effect;
// a writer then stops.
func runRegisters(c *h.Case, s blobstore.Store, mo model, keys []sk, id *int, size func() int, refused func(error) bool, more ...func()) {
	type wop struct {
		v []byte
	}
	regs := make([]*register, 0, len(keys))
	errs := make(chan string, 1000)
	var fns []func()
	var ks []sk
	have := map[sk]bool{}
	for _, k := range keys {
		if len(k.key) < 2 || k.set == "" || have[k] {
			continue
		}
		have[k] = true
		k := k
		v, ok := mo[k]
		r := newRegister(v, ok)
		regs = append(regs, r)
		ks = append(ks, k)
		var ops []wop
		for m := rapid.IntRange(1, 12).Draw(c.T, "wops"); m > 0; m-- {
			if rapid.IntRange(0, 3).Draw(c.T, "wdel") == 0 {
				ops = append(ops, wop{})
				continue
			}
			*id++
			n := size()
			if n < 4 {
				n = 4
			}
			if n > blobstore.MaxSize {
				n = blobstore.MaxSize
			}
			ops = append(ops, wop{v: value(*id, n)})
		}
		c.Logf("concurrent writer of %v: %d ops", k, len(ops))
		fns = append(fns, func() {
			for _, o := range ops {
				r.begin(o.v)
				var err error
				if o.v == nil {
					err = s.Delete(bg, k.set, k.key)
				} else {
					v := append([]byte{}, o.v...)
					err = s.Set(bg, k.set, k.key, v)
					scribble(v)
				}
				if err != nil && refused != nil && refused(err) {
					r.refused()
					return
				}
				if err != nil {
					errs <- fmt.Sprintf("concurrent write of %v: %v", k, err)
					return
				}
				r.end()
			}
		})
	}
	if len(ks) == 0 {
		return
	}
	for m := rapid.IntRange(1, 3).Draw(c.T, "readers"); m > 0; m-- {
		order := make([]int, rapid.IntRange(1, 20).Draw(c.T, "reads"))
		for i := range order {
			order[i] = rapid.IntRange(0, len(ks)-1).Draw(c.T, "which")
		}
		fns = append(fns, func() {
			for _, i := range order {
				from := regs[i].now()
				v, err := s.Get(bg, ks[i].set, ks[i].key)
				if err == blobstore.ErrBlobNotFound {
					v = nil
				} else if err != nil {
					if refused != nil && refused(err) {
						return
					}
					errs <- fmt.Sprintf("concurrent Get of %v: %v", ks[i], err)
					return
				} else if v == nil {
					v = []byte{}
				}
				if bad := regs[i].seen(from, v); bad != "" {
					errs <- fmt.Sprintf("concurrent Get of %v %s", ks[i], bad)
					return
				}
				scribble(v)
			}
		})
	}
	c.Class("concurrent")
	c.Par("concurrent use", append(fns, more...)...)
	select {
	case e := <-errs:
		c.Fatalf("%s", e)
	default:
	}
	for i, r := range regs {
		if v := r.last(); v == nil {
			delete(mo, ks[i])
		} else {
			mo[ks[i]] = v
		}
	}
}
