package stores

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"pgregory.net/rapid"
	"verif/h"
)

// flaky decides backing outcomes from a seed. At most maxRow operations in a row
// on the same key may fail.
type flaky struct {
	mu      sync.Mutex
	rnd     *rand.Rand
	fail    int // percent
	slow    int // percent
	timeout time.Duration
	getFail bool
	row     map[sk]int
	maxRow  int
	seen    int // injected failures
	getErr  int
}

func (f *flaky) hook(ctx context.Context, op string, k sk, val []byte) outcome {
	f.mu.Lock()
	defer f.mu.Unlock()
	var o outcome
	if f.rnd.Intn(100) < f.slow {
		o.delay = time.Duration(f.rnd.Intn(3000)) * time.Microsecond
	}
	if op == "get" {
		if f.getFail && f.rnd.Intn(100) < f.fail {
			f.getErr++
			o.err = errInjected
		}
		return o
	}
	if f.rnd.Intn(100) < f.fail {
		f.seen++
		switch f.rnd.Intn(4) {
		case 0:
			o.err, o.after = errInjected, true
		case 1:
			// Runs into the save timeout.
			o.hang = f.timeout <= 20*time.Millisecond
			o.err = errInjected
		default:
			o.err = errInjected
		}
	}
	if o == (outcome{}) {
		f.row[k] = 0
		return o
	}
	// Every other outcome may fail, delays because of the save timeout.
	if f.row[k] >= f.maxRow {
		f.row[k] = 0
		return outcome{}
	}
	f.row[k]++
	return o
}

func TestC17(t *testing.T) {
	h.Run(t, "queue limits 1-20, flush thresholds, delays 1 ms to 1 h, 1-8 savers, save timeouts, a backing store with generated content, slow, failing before or after taking effect (at most 3 times in a row per key) or hanging until the save timeout; sequential histories of set/get/delete compared with a map, phases with one writer and several readers per key, shutdown alone, repeated or concurrent with writes; after shutdown the backing store must equal the model and refuse calls; non-trivial: a key was written again or deleted while writes were outstanding and at least one write was flushed before shutdown", func(c *h.Case) {
		bs := newBacking()
		limit := rapid.IntRange(1, 20).Draw(c.T, "limit")
		flush := rapid.IntRange(1, limit).Draw(c.T, "flush")
		maxTime := rapid.SampledFrom([]time.Duration{time.Millisecond, 5 * time.Millisecond, 50 * time.Millisecond, time.Hour, time.Hour}).Draw(c.T, "maxtime")
		savers := rapid.SampledFrom([]int{1, 1, 2, 3, 8}).Draw(c.T, "savers")
		timeout := rapid.SampledFrom([]time.Duration{2 * time.Millisecond, 20 * time.Millisecond, time.Second, time.Minute}).Draw(c.T, "timeout")
		fl := &flaky{
			rnd:     rand.New(rand.NewSource(int64(rapid.Uint32().Draw(c.T, "seed")))),
			fail:    rapid.SampledFrom([]int{0, 0, 10, 40, 80}).Draw(c.T, "fail"),
			slow:    rapid.SampledFrom([]int{0, 10, 60, 100}).Draw(c.T, "slow"),
			timeout: timeout,
			row:     map[sk]int{},
			maxRow:  3,
		}
		mo := model{}
		keys := genKeys(c, 10)
		id := 0
		for _, k := range keys {
			if rapid.IntRange(0, 2).Draw(c.T, "present") == 0 {
				id++
				v := value(id, rapid.IntRange(0, 40).Draw(c.T, "size"))
				mo[k] = v
				_ = bs.Set(bg, k.set, k.key, v)
			}
		}
		bs.setHook(fl.hook)
		l, err := blobstore.NewLazySaver(bs,
			blobstore.WithLazySaveOption.Items(limit, flush),
			blobstore.WithLazySaveOption.MaxTime(maxTime),
			blobstore.WithLazySaveOption.Savers(savers),
			blobstore.WithLazySaveOption.SaveTimeout(timeout),
			blobstore.WithLazySaveOption.Verbose(rapid.Bool().Draw(c.T, "verbose")),
			blobstore.WithLazySaveOption.Logger(log.NullLogger()),
		)
		if err != nil {
			c.Fatalf("NewLazySaver: %v", err)
		}
		down := false
		shutdown := func() {
			down = true
			c.Do("Shutdown", l.Shutdown)
		}
		c.Defer(func() {
			if !down {
				l.Shutdown()
			}
		})
		c.Logf("limit %d flush at %d max time %v savers %d timeout %v, backing fails %d%% slow %d%%", limit, flush, maxTime, savers, timeout, fl.fail, fl.slow)
		gets, nsets, dels := 0, 0, 0
		hit := false
		get := func(k sk) {
			var v []byte
			var err error
			fl.mu.Lock()
			before := fl.getErr
			fl.mu.Unlock()
			gets++
			ctx, cancel := context.WithCancel(bg)
			c.Do("Get", func() { v, err = l.Get(ctx, k.set, k.key) })
			cancel()
			fl.mu.Lock()
			injected := fl.getErr != before
			fl.mu.Unlock()
			want, ok := mo[k]
			switch {
			case err == errInjected && injected:
				c.Class("failing read")
				return
			case injected:
				c.Fatalf("Get %v returned %s, %v, the backing store failed", k, short(v), err)
			case !ok && err == nil:
				c.Fatalf("Get %v returned %s, want not found", k, short(v))
			case !ok && err != blobstore.ErrBlobNotFound:
				c.Fatalf("Get %v of an absent key: %v", k, err)
			case ok && err != nil:
				c.Fatalf("Get %v: %v, want %s", k, err, short(want))
			case ok && !bytes.Equal(v, want):
				c.Fatalf("Get %v returned %s, want %s", k, short(v), short(want))
			}
			scribble(v[:cap(v)])
		}
		set := func(k sk, n int) {
			id++
			v := value(id, n)
			keep := append([]byte{}, v...)
			var err error
			nsets++
			ctx, cancel := context.WithCancel(bg)
			c.Do("Set", func() { err = l.Set(ctx, k.set, k.key, v) })
			cancel()
			if err != nil {
				c.Fatalf("Set %v: %v", k, err)
			}
			if !bytes.Equal(v, keep) {
				c.Fatalf("Set changed the buffer it was given")
			}
			scribble(v)
			mo[k] = keep
		}
		del := func(k sk) {
			var err error
			dels++
			ctx, cancel := context.WithCancel(bg)
			c.Do("Delete", func() { err = l.Delete(ctx, k.set, k.key) })
			cancel()
			if err != nil {
				c.Fatalf("Delete %v: %v", k, err)
			}
			delete(mo, k)
		}
		sizes := rapid.SampledFrom([]int{20, 20, 1100, 3000})
		size := func() int {
			if rapid.IntRange(0, 60).Draw(c.T, "huge") == 0 {
				return rapid.SampledFrom([]int{1 << 20, 1<<20 + 1, 1<<20 - 1, 70000, 1<<16 + 1, 1 << 15}).Draw(c.T, "big")
			}
			return rapid.IntRange(0, sizes.Draw(c.T, "max")).Draw(c.T, "size")
		}
		queue := func() int { return l.Stats().ItemQueue }
		refused := func(err error) bool { return err == blobstore.ErrShuttingDown }
		converge := func() {
			// No further operation is needed for queued writes to reach the backing store.
			end := time.Now().Add(30 * time.Second)
			for wait := time.Millisecond; ; wait *= 2 {
				d := diff(bs.snapshot(), mo)
				if d == "" {
					return
				}
				if time.Now().After(end) {
					c.Fatalf("30 s after the last write with a delay of %v the backing store differs: %s", maxTime, d)
				}
				if wait > 100*time.Millisecond {
					wait = 100 * time.Millisecond
				}
				time.Sleep(wait)
			}
		}
		for n := rapid.IntRange(1, 60).Draw(c.T, "ops"); n > 0; n-- {
			k := rapid.SampledFrom(keys).Draw(c.T, "key")
			op := rapid.SampledFrom([]string{"set", "set", "set", "get", "get", "del", "many", "wait", "converge", "all", "par", "faultyreads"}).Draw(c.T, "op")
			if op != "wait" {
				c.Logf("%s %v", op, k)
			}
			switch op {
			case "set":
				if queue() > 0 {
					hit = true
				}
				set(k, size())
				if rapid.IntRange(0, 3).Draw(c.T, "again") == 0 {
					set(k, size())
					get(k)
				}
			case "get":
				get(k)
				get(k)
			case "del":
				if queue() > 0 {
					hit = true
				}
				del(k)
				if rapid.Bool().Draw(c.T, "look") {
					get(k)
				}
			case "many":
				for i := rapid.IntRange(limit/2, limit*2).Draw(c.T, "n"); i > 0; i-- {
					kk := rapid.SampledFrom(keys).Draw(c.T, "k")
					if i%3 == 0 {
						kk = sk{"many", fmt.Sprintf("key%d", i)}
						if _, ok := mo[kk]; !ok {
							keys = append(keys, kk)
						}
					}
					set(kk, rapid.IntRange(0, 30).Draw(c.T, "size"))
				}
			case "wait":
				d := time.Duration(rapid.IntRange(100, 3000).Draw(c.T, "us")) * time.Microsecond
				c.Logf("wait %v", d)
				time.Sleep(d)
			case "converge":
				if maxTime > 5*time.Millisecond || rapid.IntRange(0, 2).Draw(c.T, "do") > 0 {
					continue
				}
				c.Class("converge")
				converge()
			case "all":
				for _, k := range keys {
					get(k)
				}
			case "par":
				if rapid.Bool().Draw(c.T, "do") {
					continue
				}
				runRegisters(c, l, mo, someKeys(c, keys), &id, size, refused)
				nsets = -1 << 30
			case "faultyreads":
				fl.mu.Lock()
				fl.getFail = true
				fl.mu.Unlock()
				for i := 0; i < 4; i++ {
					get(rapid.SampledFrom(keys).Draw(c.T, "k"))
				}
				fl.mu.Lock()
				fl.getFail = false
				fl.mu.Unlock()
			}
			st := l.Stats()
			if st.ItemQueue > limit {
				c.Fatalf("%d writes are queued, the limit is %d", st.ItemQueue, limit)
			}
			if nsets >= 0 && (st.Sets != nsets || st.Gets != gets || st.Deletes != dels) {
				c.Fatalf("counted %d gets %d sets %d deletes, want %d, %d, %d", st.Gets, st.Sets, st.Deletes, gets, nsets, dels)
			}
		}
		bs.mu.Lock()
		flushed := bs.ops
		bs.mu.Unlock()
		if rapid.IntRange(0, 2).Draw(c.T, "race") == 0 {
			c.Logf("shutdown concurrent with writes")
			c.Class("shutdown race")
			d := time.Duration(rapid.IntRange(0, 2000).Draw(c.T, "us")) * time.Microsecond
			down = true
			runRegisters(c, l, mo, someKeys(c, keys), &id, size, refused, func() {
				time.Sleep(d)
				l.Shutdown()
			})
		}
		if !down || rapid.Bool().Draw(c.T, "twice") {
			c.Logf("shutdown")
			shutdown()
		}
		down = true
		if d := diff(bs.snapshot(), mo); d != "" {
			c.Fatalf("after shutdown the backing store differs: %s", d)
		}
		if n := queue(); n != 0 {
			c.Fatalf("%d writes are queued after shutdown", n)
		}
		k := keys[0]
		var e1, e2, e3 error
		c.Do("use after shutdown", func() {
			_, e1 = l.Get(bg, k.set, k.key)
			e2 = l.Set(bg, k.set, k.key, []byte("late"))
			e3 = l.Delete(bg, k.set, k.key)
		})
		for _, err := range []error{e1, e2, e3} {
			if err != blobstore.ErrShuttingDown {
				c.Fatalf("operation after shutdown returned %v", err)
			}
		}
		if d := diff(bs.snapshot(), mo); d != "" {
			c.Fatalf("operations after shutdown changed the backing store: %s", d)
		}
		if fl.seen > 0 {
			c.Class("failing writes")
		}
		if hit && flushed > 0 {
			c.Nontrivial()
		}
	})
}

// someKeys draws a range of keys to write concurrently.
func someKeys(c *h.Case, keys []sk) []sk {
	n := rapid.IntRange(1, 4).Draw(c.T, "writers")
	if n > len(keys) {
		n = len(keys)
	}
	at := rapid.IntRange(0, len(keys)-n).Draw(c.T, "first")
	return keys[at : at+n]
}
