package stores

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/Vivino/rankdb/blobstore"
	"github.com/cenkalti/backoff"
	"pgregory.net/rapid"
	"verif/h"
)

// oddErr cannot be compared.
type oddErr []string

func (o oddErr) Error() string { return fmt.Sprint([]string(o)) }

type textErr string

func (t textErr) Error() string { return string(t) }

// counted is a back-off that allows a number of retries.
type counted struct {
	left, n int
	wait    time.Duration
}

func (b *counted) Reset() { b.left = b.n }
func (b *counted) NextBackOff() time.Duration {
	if b.left <= 0 {
		return backoff.Stop
	}
	b.left--
	return b.wait
}

// attempt is one scripted attempt.
type attempt struct {
	kind  string // "ok", "err", "after", "hang"
	err   error
	delay time.Duration
	// cancel the caller's context: before returning
	cancel bool
	// cancel the caller's context while waiting for the next attempt
	later bool
}

// scripted is a store that follows a script and records what it is asked.
type scripted struct {
	*backing
	mu       sync.Mutex
	script   []attempt
	calls    int
	bad      string
	k        sk
	op       string
	val      []byte
	parent   context.Context
	limit    time.Duration
	cancel   func()
	lastErr  error
	deadline []time.Time
}

func (s *scripted) play(ctx context.Context, op string, k sk, val []byte) outcome {
	s.mu.Lock()
	i := s.calls
	s.calls++
	if op != s.op || k != s.k || (op == "set" && !bytes.Equal(val, s.val)) {
		s.bad = fmt.Sprintf("attempt %d was %s %v %s, want %s %v %s", i, op, k, short(val), s.op, s.k, short(s.val))
	}
	if v := ctx.Value(ctxKey{}); v != s.parent.Value(ctxKey{}) {
		s.bad = fmt.Sprintf("attempt %d did not get the caller's context values", i)
	}
	d, ok := ctx.Deadline()
	pd, pok := s.parent.Deadline()
	switch {
	case s.limit == 0 && (ok != pok || (ok && !d.Equal(pd))):
		s.bad = fmt.Sprintf("attempt %d has deadline %v (%v) without a time limit", i, d, ok)
	case s.limit != 0 && !ok:
		s.bad = fmt.Sprintf("attempt %d has no deadline", i)
	case s.limit != 0 && d.After(time.Now().Add(s.limit)):
		s.bad = fmt.Sprintf("attempt %d may take longer than its limit %v", i, s.limit)
	case s.limit != 0 && pok && d.After(pd):
		s.bad = fmt.Sprintf("attempt %d may take longer than the caller allows", i)
	case s.limit != 0 && ok && !(pok && d.Equal(pd)):
		for _, o := range s.deadline {
			if !o.Before(d) {
				s.bad = fmt.Sprintf("attempt %d shares the time limit of an earlier attempt", i)
			}
		}
		s.deadline = append(s.deadline, d)
	}
	if i >= len(s.script) {
		s.mu.Unlock()
		s.lastErr = nil
		return outcome{}
	}
	a := s.script[i]
	s.mu.Unlock()
	if a.cancel {
		s.cancel()
	}
	if a.later {
		cancel := s.cancel
		go func() {
			if a.kind == "hang" {
				<-ctx.Done()
			}
			time.Sleep(2 * time.Millisecond)
			cancel()
		}()
	}
	o := outcome{delay: a.delay, err: a.err}
	switch a.kind {
	case "after":
		o.after = true
	case "hang":
		o.hang = true
	}
	return o
}

type ctxKey struct{}

func TestC19(t *testing.T) {
	perm := []error{context.Canceled, blobstore.ErrBlobNotFound, blobstore.ErrBlobTooBig}
	custom := []error{errors.New("custom 1"), textErr("custom 2"), &customErr{3}, context.DeadlineExceeded, blobstore.ErrShuttingDown}
	transient := []error{errInjected, oddErr{"odd"}, textErr("temporary"), &customErr{1}, context.DeadlineExceeded, errors.New(blobstore.ErrBlobNotFound.Error())}
	h.Run(t, "several retrying stores with different options (back-off per operation kind, extra permanent errors, time limit per attempt) created in generated order over one scripted store; each operation has a script of attempts that succeed, fail before or after taking effect with transient or permanent errors (built in, configured on this store, configured on another store, uncomparable, equal text), hang until their time limit, and may cancel the caller's context during any attempt; number of attempts, their arguments and deadlines, the result and the stored content are compared with the script; non-trivial: an operation needed more than one attempt or was stopped by a permanent error or cancellation", func(c *h.Case) {
		bs := &scripted{backing: newBacking()}
		type rs struct {
			s         *blobstore.RetryStore
			get       [3]*counted // get, set, del; nil: default
			limit     time.Duration
			permanent map[error]bool
		}
		var stores []*rs
		for n := rapid.IntRange(1, 3).Draw(c.T, "stores"); n > 0; n-- {
			r := &rs{limit: time.Second, permanent: map[error]bool{}}
			plain := rapid.IntRange(0, 4).Draw(c.T, "plain") == 0
			for _, e := range perm {
				r.permanent[e] = true
			}
			var opts []blobstore.RetryStoreOption
			if !plain {
				// Fast by default.
				var f [3]func() backoff.BackOff
				for i := range f {
					b := &counted{n: rapid.IntRange(0, 6).Draw(c.T, "retries")}
					r.get[i] = b
					f[i] = func() backoff.BackOff { x := *b; return &x }
				}
				opts = append(opts, blobstore.WithRetryOpt.Backoff(f[0], f[1], f[2]))
			}
			for m := rapid.IntRange(0, 4).Draw(c.T, "options"); m > 0; m-- {
				switch rapid.SampledFrom([]string{"backoff", "backoff", "perm", "perm", "timeout"}).Draw(c.T, "option") {
				case "backoff":
					var f [3]func() backoff.BackOff
					for i := range f {
						if rapid.IntRange(0, 2).Draw(c.T, "set") == 0 {
							continue
						}
						b := &counted{n: rapid.IntRange(0, 6).Draw(c.T, "retries"), wait: time.Duration(rapid.IntRange(0, 300).Draw(c.T, "wait")) * time.Microsecond}
						if rapid.IntRange(0, 5).Draw(c.T, "long") == 0 {
							b.wait = time.Hour
						}
						r.get[i] = b
						f[i] = func() backoff.BackOff { x := *b; return &x }
					}
					opts = append(opts, blobstore.WithRetryOpt.Backoff(f[0], f[1], f[2]))
				case "perm":
					var es []error
					for j := rapid.IntRange(0, 3).Draw(c.T, "perms"); j > 0; j-- {
						e := rapid.SampledFrom(custom).Draw(c.T, "perm")
						if rapid.IntRange(0, 5).Draw(c.T, "nil") == 0 {
							e = nil
						} else {
							r.permanent[e] = true
						}
						es = append(es, e)
					}
					opts = append(opts, blobstore.WithRetryOpt.PermanentErr(es...))
				case "timeout":
					r.limit = rapid.SampledFrom([]time.Duration{0, 4 * time.Millisecond, 20 * time.Millisecond, time.Minute}).Draw(c.T, "limit")
					opts = append(opts, blobstore.WithRetryOpt.OpTimeout(r.limit))
				}
			}
			var err error
			c.Do("NewRetryStore", func() { r.s, err = blobstore.NewRetryStore(bs, opts...) })
			if err != nil {
				c.Fatalf("NewRetryStore: %v", err)
			}
			desc := fmt.Sprintf("store %d: limit %v permanent", len(stores), r.limit)
			for _, e := range custom {
				if r.permanent[e] {
					desc += fmt.Sprintf(" %q", e)
				}
			}
			for i, b := range r.get {
				if b == nil {
					desc += fmt.Sprintf(" %d:default", i)
				} else {
					desc += fmt.Sprintf(" %d:%d", i, b.n)
				}
			}
			c.Logf("%s", desc)
			stores = append(stores, r)
		}
		mo := model{}
		keys := genKeys(c, 4)
		id, hangs := 0, 0
		for n := rapid.IntRange(1, 12).Draw(c.T, "ops"); n > 0; n-- {
			si := rapid.IntRange(0, len(stores)-1).Draw(c.T, "store")
			r := stores[si]
			oi := rapid.IntRange(0, 2).Draw(c.T, "op")
			op := []string{"get", "set", "del"}[oi]
			k := rapid.SampledFrom(keys).Draw(c.T, "key")
			retries := 2 // with the default back-off of 20 ms and more
			if b := r.get[oi]; b != nil {
				retries = b.n
			}
			// The script, and what follows from it.
			var script []attempt
			want := 0 // attempts
			var wantErr error
			ended, cancelled, uncertain := false, false, false
			applied := false // effect on the backing store
			_, present := mo[k]
			for i := 0; i <= retries+1 && !ended; i++ {
				a := attempt{}
				kind := rapid.SampledFrom([]string{"ok", "transient", "transient", "transient", "after", "perm", "custom", "hang"}).Draw(c.T, "attempt")
				if i >= 2 && r.get[oi] == nil {
					kind = "ok" // the default back-off waits longer and longer
				}
				if kind == "hang" && (hangs > 1 || r.limit == 0 || r.limit > 20*time.Millisecond) {
					kind = "transient"
				}
				if op == "get" && kind == "after" {
					kind = "transient"
				}
				switch kind {
				case "ok":
					a.kind = "ok"
				case "transient":
					a.kind, a.err = "err", rapid.SampledFrom(transient).Draw(c.T, "err")
				case "after":
					a.kind, a.err = "after", rapid.SampledFrom(transient).Draw(c.T, "err")
				case "perm":
					a.kind, a.err = "err", rapid.SampledFrom(perm).Draw(c.T, "err")
				case "custom":
					a.kind, a.err = "err", rapid.SampledFrom(custom).Draw(c.T, "err")
				case "hang":
					a.kind, a.err = "hang", context.DeadlineExceeded
					hangs++
				}
				if a.kind != "hang" && rapid.IntRange(0, 9).Draw(c.T, "cancel") == 0 {
					a.cancel = true
				}
				script = append(script, a)
				want++
				if a.kind == "ok" || a.kind == "after" {
					applied = true
				}
				wantErr = a.err
				if a.kind == "ok" {
					ended = true
					wantErr = nil
					if op == "get" && !present {
						wantErr = blobstore.ErrBlobNotFound
					}
				} else {
					if e := a.err; comparable(e) && r.permanent[e] {
						ended = true
						c.Class("permanent")
					}
					if a.cancel {
						ended, cancelled = true, true
						c.Class("cancelled during an attempt")
					}
					if b := r.get[oi]; b != nil && b.wait == time.Hour && i < retries && !ended {
						script[i].later = true
						ended, cancelled = true, true
						c.Class("cancelled while waiting")
					}
					if i == retries && r.get[oi] != nil {
						ended = true
						c.Class("back-off exhausted")
					}
				}
			}
			// A context that is over before the first attempt: the store may try once.
			early := rapid.IntRange(0, 14).Draw(c.T, "early") == 0
			base := context.WithValue(bg, ctxKey{}, id)
			var ctx context.Context
			var cancel context.CancelFunc
			if rapid.IntRange(0, 3).Draw(c.T, "deadline") == 0 {
				ctx, cancel = context.WithTimeout(base, time.Hour)
			} else {
				ctx, cancel = context.WithCancel(base)
			}
			val := []byte(nil)
			if op == "set" {
				id++
				val = value(id, rapid.IntRange(0, 40).Draw(c.T, "size"))
			}
			desc := ""
			for _, a := range script {
				desc += " " + a.kind
				if a.err != nil {
					desc += fmt.Sprintf("(%T %v)", a.err, a.err)
				}
				if a.cancel {
					desc += "!"
				}
			}
			c.Logf("store %d %s %v early cancel %v:%s", si, op, k, early, desc)
			bs.script, bs.calls, bs.bad, bs.op, bs.k, bs.val, bs.parent, bs.limit, bs.cancel, bs.deadline = script, 0, "", op, k, val, ctx, r.limit, cancel, nil
			bs.setHook(bs.play)
			if early {
				cancel()
				want, cancelled = 1, true
				if script[0].kind == "ok" || script[0].kind == "after" {
					applied = true
				} else {
					applied = false
				}
				wantErr = script[0].err
				if script[0].kind == "hang" {
					// Ends at once, with the error of the caller's context.
					wantErr = context.Canceled
				}
				if script[0].kind == "ok" && op == "get" && !present {
					wantErr = blobstore.ErrBlobNotFound
				}
				uncertain = true
			}
			var got []byte
			var err error
			c.Do(op, func() {
				switch op {
				case "get":
					got, err = r.s.Get(ctx, k.set, k.key)
				case "set":
					v := append([]byte{}, val...)
					err = r.s.Set(ctx, k.set, k.key, v)
					if !bytes.Equal(v, val) {
						err = errors.New("the buffer was changed")
					}
				case "del":
					err = r.s.Delete(ctx, k.set, k.key)
				}
			})
			cancel()
			bs.setHook(nil)
			if bs.bad != "" {
				c.Fatalf("%s", bs.bad)
			}
			if uncertain && bs.calls == 0 && err != nil {
				// Refused without trying.
				applied = false
			} else {
				if bs.calls != want {
					c.Fatalf("%d attempts were made, want %d (result %v)", bs.calls, want, err)
				}
				same := false
				if comparable(err) && comparable(wantErr) {
					same = err == wantErr
				} else {
					same = fmt.Sprintf("%T %v", err, err) == fmt.Sprintf("%T %v", wantErr, wantErr)
				}
				if !same {
					c.Fatalf("returned %T %v, want the backing store's %T %v", err, err, wantErr, wantErr)
				}
			}
			if op == "get" && err == nil && !bytes.Equal(got, mo[k]) {
				c.Fatalf("Get returned %s, want %s", short(got), short(mo[k]))
			}
			if op == "get" && err != nil && len(got) > 0 {
				c.Fatalf("failing Get returned %s", short(got))
			}
			if applied && op == "set" {
				mo[k] = val
			}
			if applied && op == "del" {
				delete(mo, k)
			}
			if d := diff(bs.snapshot(), mo); d != "" {
				c.Fatalf("backing store differs: %s", d)
			}
			if want > 1 || cancelled || wantErr != nil {
				c.Nontrivial()
			}
		}
	})
}

type customErr struct{ n int }

func (e *customErr) Error() string { return fmt.Sprintf("custom %d", e.n) }

func comparable(err error) bool {
	_, odd := err.(oddErr)
	return !odd
}
