package stores

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/Vivino/rankdb/log"
	"pgregory.net/rapid"
	"verif/h"
)

type ctxT = context.Context

var bg = log.WithLogger(context.Background(), log.NullLogger())

var errInjected = errors.New("injected failure")

// outcome of one operation on the backing store.
type outcome struct {
	delay time.Duration
	err   error
	after bool // apply the operation before failing
	hang  bool // wait for the context to end
}

// backing is a store that keeps private copies and obeys a hook.
type backing struct {
	mu   sync.Mutex
	data map[sk][]byte
	hook func(ctx context.Context, op string, k sk, val []byte) outcome
	ops  int
	over int // largest blob
}

type sk struct{ set, key string }

func (k sk) String() string { return fmt.Sprintf("%q/%q", k.set, k.key) }

func newBacking() *backing { return &backing{data: map[sk][]byte{}} }

func (b *backing) do(ctx context.Context, op string, k sk, val []byte, fn func()) error {
	b.mu.Lock()
	b.ops++
	hook := b.hook
	b.mu.Unlock()
	var o outcome
	if hook != nil {
		o = hook(ctx, op, k, val)
	}
	if o.hang {
		<-ctx.Done()
		return ctx.Err()
	}
	if o.delay > 0 {
		t := time.NewTimer(o.delay)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			return ctx.Err()
		}
	}
	if o.err == nil || o.after {
		b.mu.Lock()
		fn()
		b.mu.Unlock()
	}
	return o.err
}

func (b *backing) Get(ctx context.Context, set, key string) (v []byte, err error) {
	found := false
	k := sk{set, key}
	err = b.do(ctx, "get", k, nil, func() {
		x, ok := b.data[k]
		found = ok
		v = append([]byte{}, x...)
	})
	if err != nil {
		return nil, err
	}
	if !found {
		return nil, blobstore.ErrBlobNotFound
	}
	return v, nil
}

func (b *backing) Set(ctx context.Context, set, key string, val []byte) error {
	k := sk{set, key}
	val = append([]byte{}, val...)
	return b.do(ctx, "set", k, val, func() {
		if len(val) > b.over {
			b.over = len(val)
		}
		b.data[k] = val
	})
}

func (b *backing) Delete(ctx context.Context, set, key string) error {
	k := sk{set, key}
	return b.do(ctx, "del", k, nil, func() { delete(b.data, k) })
}

func (b *backing) setHook(f func(ctx context.Context, op string, k sk, val []byte) outcome) {
	b.mu.Lock()
	b.hook = f
	b.mu.Unlock()
}

func (b *backing) snapshot() map[sk][]byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := make(map[sk][]byte, len(b.data))
	for k, v := range b.data {
		r[k] = v
	}
	return r
}

// model of a store: absent keys are missing.
type model map[sk][]byte

func diff(got map[sk][]byte, want model) string {
	var r []string
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			r = append(r, fmt.Sprintf("%v is missing", k))
		} else if !bytes.Equal(g, v) {
			r = append(r, fmt.Sprintf("%v holds %s, want %s", k, short(g), short(v)))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			r = append(r, fmt.Sprintf("%v holds %s, want nothing", k, short(v)))
		}
	}
	sort.Strings(r)
	if len(r) > 5 {
		r = r[:5]
	}
	s := ""
	for _, x := range r {
		s += x + "; "
	}
	return s
}

func short(b []byte) string {
	if b == nil {
		return "<nil>"
	}
	n := len(b)
	if n > 16 {
		b = b[:16]
	}
	return fmt.Sprintf("%d bytes %x", n, b)
}

// value returns n bytes that differ for every id.
func value(id, n int) []byte {
	b := make([]byte, n)
	x := uint32(id)*2654435761 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	if n >= 4 {
		b[0], b[1], b[2], b[3] = byte(id), byte(id>>8), byte(id>>16), 0xAA
	}
	return b
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

// register is a key with one writer; it tells what concurrent readers may see.
type register struct {
	mu     sync.Mutex
	states [][]byte // nil: absent
	done   int      // index of the latest completed state
}

func newRegister(v []byte, present bool) *register {
	r := &register{}
	if !present {
		r.states = [][]byte{nil}
	} else {
		r.states = [][]byte{append([]byte{}, v...)}
	}
	return r
}

func (r *register) begin(v []byte) {
	r.mu.Lock()
	if v != nil {
		v = append([]byte{}, v...)
	}
	r.states = append(r.states, v)
	r.mu.Unlock()
}

func (r *register) end() {
	r.mu.Lock()
	r.done = len(r.states) - 1
	r.mu.Unlock()
}

// refused drops the last state.
func (r *register) refused() {
	r.mu.Lock()
	r.states = r.states[:len(r.states)-1]
	r.mu.Unlock()
}

func (r *register) now() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.done
}

func (r *register) last() []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.states[len(r.states)-1]
}

// seen checks a value (nil: absent) read since from.
func (r *register) seen(from int, v []byte) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range r.states[from:] {
		if (s == nil) == (v == nil) && bytes.Equal(s, v) {
			return ""
		}
	}
	for i := from - 1; i >= 0; i-- {
		if s := r.states[i]; (s == nil) == (v == nil) && bytes.Equal(s, v) {
			return fmt.Sprintf("read the outdated value %s (%d, current is %d: %s)", short(v), i, from, short(r.states[from]))
		}
	}
	return fmt.Sprintf("read %s, which was never written; current is %s", short(v), short(r.states[from]))
}

var sets = []string{"set", "set", "a", "a/b", "a/", "/", "b", "set/", "SET", "a\x00", "ü", "a:", "612f62", "!badger!x", "a+0", "s s", "2/a"}
var names = []string{"key", "key", "b/key", "key/", "/key", "key2", "keys", "k+x", "\x00\x01", "6b:6b", "é", "a/b/c", "k:y", "KEY", "..", "b/c"}

// genKeys draws some distinct keys, related ones more often.
func genKeys(c *h.Case, max int) []sk {
	n := rapid.IntRange(1, max).Draw(c.T, "keys")
	var r []sk
	have := map[sk]bool{}
	for len(r) < n {
		k := sk{rapid.SampledFrom(sets).Draw(c.T, "set"), rapid.SampledFrom(names).Draw(c.T, "name")}
		if len(r) > 0 && rapid.IntRange(0, 2).Draw(c.T, "split") == 0 {
			// Another way to split the same joined name.
			j := r[len(r)-1].set + "/" + r[len(r)-1].key
			var at []int
			for i := 1; i < len(j)-1; i++ {
				if j[i] == '/' {
					at = append(at, i)
				}
			}
			if len(at) > 0 {
				i := rapid.SampledFrom(at).Draw(c.T, "at")
				k = sk{j[:i], j[i+1:]}
			}
		}
		if have[k] || len(k.key) < 2 || k.set == "" {
			k = sk{"set", fmt.Sprintf("key-%d", len(r))}
		}
		have[k] = true
		r = append(r, k)
	}
	return r
}
