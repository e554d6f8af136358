// Package h is the common part of the property checks: it runs a property with
// rapid, records what was generated, journals the running case so that a fatal
// crash can be attributed, and recognises deadlocks and runaway loops.
package h

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what a shard reports to the driver.
type Stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Assumptions []string       `json:"assumptions"`
	Known       []string       `json:"known"`
	BudgetHit   bool           `json:"budget_hit"`
}

var (
	mu       sync.Mutex
	stats    = Stats{Classes: map[string]int{}}
	hashes   = map[uint64]struct{}{}
	failing  bool
	journal  *os.File
	jmu      sync.Mutex
	start    = time.Now()
	budget   = envDur("VERIF_BUDGET_S", 0)
	Thorough = os.Getenv("VERIF_TIER") == "thorough"
	Replay   = os.Getenv("VERIF_REPLAY") != ""
)

func envDur(name string, def time.Duration) time.Duration {
	if v := os.Getenv(name); v != "" {
		f, err := strconv.ParseFloat(v, 64)
		if err == nil {
			return time.Duration(f * float64(time.Second))
		}
	}
	return def
}

// EnvInt reads an integer parameter given by the driver.
func EnvInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// Main is called from TestMain of each test package.
func Main(m *testing.M) {
	flag.Parse()
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF-ERROR: journal:", err)
			os.Exit(3)
		}
		journal = f
	}
	go memWatch()
	code := m.Run()
	flush()
	os.Exit(code)
}

func memWatch() {
	limit := EnvInt("VERIF_RSS_MB", 4000)
	for {
		time.Sleep(200 * time.Millisecond)
		b, err := ioutil.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		f := strings.Fields(string(b))
		if len(f) < 2 {
			return
		}
		pages, _ := strconv.Atoi(f[1])
		if mb := pages * os.Getpagesize() / (1 << 20); mb > limit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VERIF-MEMORY: resident size %d MB\n%s\n", mb, buf[:n])
			flush()
			os.Exit(68)
		}
	}
}

func flush() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	stats.Hashes = stats.Hashes[:0]
	for k := range hashes {
		stats.Hashes = append(stats.Hashes, strconv.FormatUint(k, 16))
	}
	b, _ := json.Marshal(stats)
	_ = ioutil.WriteFile(p, b, 0644)
}

// Known reports that a listed known finding was (again) observed or excluded.
func Known(line string) {
	mu.Lock()
	defer mu.Unlock()
	for _, k := range stats.Known {
		if k == line {
			return
		}
	}
	stats.Known = append(stats.Known, line)
}

// Listed tells whether a known finding naming key is listed.
func Listed(key string) bool {
	for _, l := range strings.Split(os.Getenv("VERIF_FINDINGS"), "\n") {
		if strings.Contains(l, key) {
			return true
		}
	}
	return false
}

// Assume records an assumption for the evidence.
func Assume(lines ...string) {
	mu.Lock()
	stats.Assumptions = append(stats.Assumptions, lines...)
	mu.Unlock()
}

// Case is one generated case.
type Case struct {
	*rapid.T
	log        bytes.Buffer
	sample     string
	nontrivial bool
	classes    map[string]int
	// HangAfter is how long an operation may be blocked before it is examined.
	HangAfter time.Duration
	// IgnoreIO makes goroutines waiting for I/O irrelevant to deadlock detection.
	IgnoreIO bool
	cleanups []func()
	failure  string
	cmu      sync.Mutex
}

// Logf records an operation of the case. It is part of the case's identity.
func (c *Case) Logf(format string, args ...interface{}) {
	c.cmu.Lock()
	n := c.log.Len()
	fmt.Fprintf(&c.log, format, args...)
	c.log.WriteByte('\n')
	line := append([]byte(nil), c.log.Bytes()[n:]...)
	c.cmu.Unlock()
	if journal != nil {
		jmu.Lock()
		_, _ = journal.Write(line)
		jmu.Unlock()
	}
}

// Nontrivial marks the case as non-trivial according to the stated rule.
func (c *Case) Nontrivial() { c.cmu.Lock(); c.nontrivial = true; c.cmu.Unlock() }

// Class counts a class of cases.
func (c *Case) Class(name string) { c.cmu.Lock(); c.classes[name]++; c.cmu.Unlock() }

// Defer registers cleanup run after the case, whatever its outcome.
func (c *Case) Defer(fn func()) { c.cleanups = append(c.cleanups, fn) }

// Fatalf fails the case after printing its history.
func (c *Case) Fatalf(format string, args ...interface{}) {
	c.T.Helper()
	msg := fmt.Sprintf(format, args...)
	c.cmu.Lock()
	c.failure = msg
	c.cmu.Unlock()
	c.T.Fatalf("%s\n--- history of the case:\n%s", msg, c.history())
}

func (c *Case) history() string {
	c.cmu.Lock()
	defer c.cmu.Unlock()
	s := c.log.String()
	if len(s) > 20000 {
		s = s[:10000] + "\n...\n" + s[len(s)-10000:]
	}
	return s
}

// Run checks the property with rapid.
func Run(t *testing.T, rule string, prop func(c *Case)) {
	mu.Lock()
	stats.Test = t.Name()
	if stats.Rule == "" {
		stats.Rule = rule
	} else if rule != "" {
		stats.Rule += " || " + rule
	}
	mu.Unlock()
	rapid.Check(t, func(rt *rapid.T) { runCase(rt, prop) })
	flush()
}

// Failing tells whether a case has failed, so that it is being minimized.
func Failing() bool {
	mu.Lock()
	defer mu.Unlock()
	return failing
}

func runCase(rt *rapid.T, prop func(c *Case)) {
	mu.Lock()
	over := budget > 0 && !failing && time.Since(start) > budget
	if over {
		stats.BudgetHit = true
	}
	mu.Unlock()
	if over {
		return
	}
	c := &Case{T: rt, classes: map[string]int{}, HangAfter: 3 * time.Second}
	if journal != nil {
		jmu.Lock()
		_ = journal.Truncate(0)
		_, _ = journal.Seek(0, 0)
		jmu.Unlock()
	}
	ok := false
	defer func() {
		for i := len(c.cleanups) - 1; i >= 0; i-- {
			c.cleanups[i]()
		}
		mu.Lock()
		defer mu.Unlock()
		if !ok {
			if !failing {
				// Shown even if minimizing the case runs into the time limit.
				fmt.Fprintf(os.Stderr, "VERIF-FAILING: first failing case: %s\n%s\n", c.failure, c.history())
			}
			failing = true
			return
		}
		if failing {
			return // shrinking: not counted
		}
		stats.Evaluations++
		for k, v := range c.classes {
			stats.Classes[k] += v
		}
		if c.nontrivial {
			hsh := fnv.New64a()
			_, _ = hsh.Write(c.log.Bytes())
			hashes[hsh.Sum64()] = struct{}{}
			n := len(hashes)
			if n == 3 || n == 20 || n == 60 {
				s := c.log.String()
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				stats.Samples = append(stats.Samples, s)
			}
		}
	}()
	// rapid reports discarded draws through panics too; those do not count as failures.
	defer func() {
		if r := recover(); r != nil {
			if strings.Contains(fmt.Sprintf("%T", r), "invalidData") {
				ok = true
				c.nontrivial = false
				// not an evaluation
				mu.Lock()
				stats.Evaluations--
				mu.Unlock()
			}
			panic(r)
		}
	}()
	prop(c)
	ok = true
}

// ---- Do: run repository calls with hang detection ------------------------------------------

type opPanic struct {
	val   interface{}
	stack []byte
}

var ignored = map[string]bool{}

// Do runs fn (calls into the code under test) and fails the case on a panic,
// a deadlock, or a runaway loop. name describes the operation.
func (c *Case) Do(name string, fn func()) {
	c.T.Helper()
	c.Par(name, fn)
}

// Par runs all functions concurrently and waits for them.
func (c *Case) Par(name string, fns ...func()) {
	c.T.Helper()
	done := make(chan *opPanic, len(fns))
	for _, fn := range fns {
		fn := fn
		go func() {
			var p *opPanic
			normal := false
			defer func() {
				if !normal {
					if r := recover(); r != nil {
						p = &opPanic{val: r, stack: debug.Stack()}
					} else {
						p = &opPanic{val: "goroutine exited"}
					}
				}
				done <- p
			}()
			fn()
			normal = true
		}()
	}
	var first *opPanic
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	began := time.Now()
	cpu0 := cpuTime()
	lastCheck := began
	for n := 0; n < len(fns); {
		select {
		case p := <-done:
			n++
			if p != nil && first == nil {
				first = p
			}
		case <-tick.C:
			if time.Since(began) < c.HangAfter || time.Since(lastCheck) < c.HangAfter {
				continue
			}
			lastCheck = time.Now()
			if cpuTime()-cpu0 > time.Duration(EnvInt("VERIF_CPU_S", 60))*time.Second*time.Duration(len(fns)) {
				buf := make([]byte, 1<<20)
				k := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "VERIF-RUNAWAY: operation %s used more CPU than any such operation needs\n%s\n%s\n", name, c.history(), buf[:k])
				flush()
				os.Exit(67)
			}
			if dump, dead := c.deadlocked(); dead {
				mu.Lock()
				for id := range blockedIDs(dump) {
					ignored[id] = true
				}
				mu.Unlock()
				c.Fatalf("operation %s is deadlocked:\n%s", name, Relevant(dump))
			}
		}
	}
	if first != nil {
		if s := fmt.Sprintf("%T", first.val); strings.Contains(s, "stopTest") || strings.Contains(s, "invalidData") {
			panic(first.val)
		}
		c.Fatalf("operation %s panicked: %v\n%s", name, first.val, first.stack)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// CPU returns the CPU time used by this process.
func CPU() time.Duration { return cpuTime() }

type gor struct {
	id, state, text string
}

func parseDump(dump string) []gor {
	var out []gor
	for _, blk := range strings.Split(dump, "\n\n") {
		if !strings.HasPrefix(blk, "goroutine ") {
			continue
		}
		nl := strings.IndexByte(blk, '\n')
		if nl < 0 {
			continue
		}
		head := blk[:nl]
		var id, state string
		if i := strings.IndexByte(head, '['); i > 0 {
			id = strings.Fields(head)[1]
			state = strings.TrimSuffix(head[i+1:], "]:")
			if j := strings.IndexByte(state, ','); j > 0 {
				state = state[:j]
			}
		}
		out = append(out, gor{id, state, blk[nl+1:]})
	}
	return out
}

func isOurs(text string) bool {
	return strings.Contains(text, "Vivino/rankdb") || strings.Contains(text, "verif/")
}

// Relevant filters a goroutine dump.
func Relevant(dump string) string {
	var b strings.Builder
	for _, g := range parseDump(dump) {
		if strings.Contains(g.text, "Vivino/rankdb") && !strings.Contains(g.text, "deadlocked(") {
			fmt.Fprintf(&b, "goroutine %s [%s]:\n%s\n\n", g.id, g.state, g.text)
		}
	}
	s := b.String()
	if len(s) > 12000 {
		s = s[:12000] + "..."
	}
	return s
}

var lockStates = map[string]bool{
	"semacquire": true, "sync.Mutex.Lock": true, "sync.RWMutex.RLock": true, "sync.RWMutex.Lock": true,
	"sync.WaitGroup.Wait": true, "sync.Cond.Wait": true,
	"chan receive": true, "chan send": true, "select": true, "select (no cases)": true,
	"chan receive (nil chan)": true, "chan send (nil chan)": true,
}

func blockedIDs(dump string) map[string]string {
	m := map[string]string{}
	for _, g := range parseDump(dump) {
		if strings.Contains(g.text, "Vivino/rankdb") && lockStates[g.state] {
			m[g.id] = g.state + firstFrames(g.text)
		}
	}
	return m
}

func firstFrames(text string) string {
	l := strings.SplitN(text, "\n", 9)
	if len(l) > 8 {
		l = l[:8]
	}
	return strings.Join(l, "\n")
}

// deadlocked reports whether nothing belonging to the case can run any more.
func (c *Case) deadlocked() (string, bool) {
	one := func() (string, map[string]string, bool) {
		buf := make([]byte, 4<<20)
		dump := string(buf[:runtime.Stack(buf, true)])
		blocked := map[string]string{}
		op := false
		for _, g := range parseDump(dump) {
			mu.Lock()
			ign := ignored[g.id]
			mu.Unlock()
			if ign || !isOurs(g.text) || strings.Contains(g.text, "deadlocked(") || strings.Contains(g.text, "h.memWatch(") {
				continue
			}
			if !lockStates[g.state] {
				if c.IgnoreIO && g.state == "IO wait" {
					continue
				}
				return dump, nil, false // something can still run
			}
			if strings.Contains(g.text, "Vivino/rankdb") {
				blocked[g.id] = g.state + firstFrames(g.text)
				if strings.Contains(g.text, "verif/h.(*Case).Par") || c.IgnoreIO {
					op = true
				}
			}
		}
		return dump, blocked, op && len(blocked) > 0
	}
	dump, b1, ok := one()
	if !ok {
		return dump, false
	}
	for i := 0; i < 3; i++ {
		time.Sleep(500 * time.Millisecond)
		d, b2, ok := one()
		if !ok || len(b1) != len(b2) {
			return d, false
		}
		for k, v := range b1 {
			if b2[k] != v {
				return d, false
			}
		}
		dump = d
	}
	return dump, true
}
