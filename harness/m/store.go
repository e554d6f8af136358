package m

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/Vivino/rankdb/blobstore"
)

// Store is an independent in-memory blob store with fault injection.
type Store struct {
	mu   sync.Mutex
	fmu  sync.Mutex // one fault function at a time
	data map[string]map[string][]byte
	// Fault, if set, is called before each operation; a non-nil error is returned instead.
	Fault func(op, set, key string) error
	// After, if set, is called after each operation without locks held.
	Before func(op, set, key string)
	Ops    int
	// CtxAware makes operations fail when their context is done.
	CtxAware bool
}

// NewStore returns an empty store.
func NewStore() *Store { return &Store{data: map[string]map[string][]byte{}} }

func (s *Store) pre(ctx context.Context, op, set, key string) error {
	s.mu.Lock()
	s.Ops++
	f, b := s.Fault, s.Before
	s.mu.Unlock()
	if b != nil {
		b(op, set, key)
	}
	if s.CtxAware {
		if err := ctx.Err(); err != nil {
			return err
		}
	}
	if f != nil {
		s.fmu.Lock()
		defer s.fmu.Unlock()
		return f(op, set, key)
	}
	return nil
}

// Get implements blobstore.Store.
func (s *Store) Get(ctx context.Context, set, key string) ([]byte, error) {
	if err := s.pre(ctx, "get", set, key); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.data[set][key]
	if !ok {
		return nil, blobstore.ErrBlobNotFound
	}
	return append([]byte{}, b...), nil
}

// Set implements blobstore.Store.
func (s *Store) Set(ctx context.Context, set, key string, val []byte) error {
	if err := s.pre(ctx, "set", set, key); err != nil {
		if errors.Is(err, ErrAfter) {
			s.Put(set, key, val)
		}
		return err
	}
	s.Put(set, key, val)
	return nil
}

// Put stores without faults.
func (s *Store) Put(set, key string, val []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.data[set] == nil {
		s.data[set] = map[string][]byte{}
	}
	s.data[set][key] = append([]byte{}, val...)
}

// Peek reads without faults.
func (s *Store) Peek(set, key string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.data[set][key]
	return append([]byte{}, b...), ok
}

// Drop removes without faults.
func (s *Store) Drop(set, key string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.data[set], key)
}

// Delete implements blobstore.Store.
func (s *Store) Delete(ctx context.Context, set, key string) error {
	if err := s.pre(ctx, "del", set, key); err != nil {
		if errors.Is(err, ErrAfter) {
			s.Drop(set, key)
		}
		return err
	}
	s.Drop(set, key)
	return nil
}

// Keys lists the keys of a set.
func (s *Store) Keys(set string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var res []string
	for k := range s.data[set] {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// Sets lists the non-empty sets.
func (s *Store) Sets() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var res []string
	for k, v := range s.data {
		if len(v) > 0 {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return res
}

// Clone copies the content (not the hooks).
func (s *Store) Clone() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := NewStore()
	for set, m := range s.data {
		mm := make(map[string][]byte, len(m))
		for k, v := range m {
			mm[k] = v
		}
		n.data[set] = mm
	}
	return n
}

// SetFault installs the fault function.
func (s *Store) SetFault(f func(op, set, key string) error) {
	s.mu.Lock()
	s.Fault = f
	s.mu.Unlock()
}

// SetBefore installs the delay function.
func (s *Store) SetBefore(f func(op, set, key string)) {
	s.mu.Lock()
	s.Before = f
	s.mu.Unlock()
}

// Count returns the number of operations so far.
func (s *Store) Count() int { s.mu.Lock(); defer s.mu.Unlock(); return s.Ops }

// ErrAfter is an injected failure that is reported though the operation was done.
var ErrAfter = errors.New("injected storage failure after the operation")

// ErrInjected is the injected failure.
var ErrInjected = errors.New("injected storage failure")

func (s *Store) String() string {
	return fmt.Sprint(s.Sets())
}

// Cache is a rankdb cache with a generated eviction behaviour: it holds at most
// Cap entries (first in, first out). Cap < 0 is unlimited.
type Cache struct {
	mu    sync.Mutex
	Cap   int
	m     map[interface{}]interface{}
	order []interface{}
}

// NewCache returns a cache.
func NewCache(capacity int) *Cache { return &Cache{Cap: capacity, m: map[interface{}]interface{}{}} }

// Add implements rankdb.Cache.
func (c *Cache) Add(key, value interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.m[key]; !ok {
		c.order = append(c.order, key)
	}
	c.m[key] = value
	for c.Cap >= 0 && len(c.order) > c.Cap {
		delete(c.m, c.order[0])
		c.order = c.order[1:]
	}
}

// Get implements rankdb.Cache.
func (c *Cache) Get(key interface{}) (interface{}, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v, ok := c.m[key]
	return v, ok
}

// Contains implements rankdb.Cache.
func (c *Cache) Contains(key interface{}) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, ok := c.m[key]
	return ok
}

// Remove implements rankdb.Cache.
func (c *Cache) Remove(key interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.m[key]; ok {
		delete(c.m, key)
		for i, k := range c.order {
			if k == key {
				c.order = append(c.order[:i:i], c.order[i+1:]...)
				break
			}
		}
	}
}

// EvictEvery removes every n-th entry, starting with the given one.
func (c *Cache) EvictEvery(start, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var keep []interface{}
	for i, k := range c.order {
		if i%n == start%n {
			delete(c.m, k)
		} else {
			keep = append(keep, k)
		}
	}
	c.order = keep
}

// Clear evicts everything.
func (c *Cache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m = map[interface{}]interface{}{}
	c.order = nil
}

// Len returns the number of entries.
func (c *Cache) Len() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.m) }
