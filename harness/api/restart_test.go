package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"os"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

// persistent are the configurations that keep their data.
var persistent = []Conf{
	{Name: "bolt-lazy", Storage: "BoltDB", Cache: 20, CacheType: "LRU2Q", Lazy: true, Retry: true},
	{Name: "bolt", Storage: "BoltDB", Cache: 3, CacheType: "LRU"},
	{Name: "badger-lazy", Storage: "Badger", Cache: 10, CacheType: "ARC", Lazy: true, Limit: 8, FlushAt: 4},
	{Name: "badger", Storage: "Badger", Cache: 100, CacheType: "ARC", SaveEvery: "30ms", PruneEvery: "20ms", BackupEvery: 2},
	{Name: "bolt-lazy-long", Storage: "BoltDB", Cache: 0, Lazy: true, LazyTime: "10m", SaveEvery: "50ms", PruneEvery: "10ms"},
}

// wr is a writer of its own elements in one list.
type wr struct {
	l      *L
	base   uint64
	last   map[uint64]*uint64 // acknowledged score, nil when deleted
	unsure map[uint64][]*uint64
	acked  int
	end    string // how it stopped
	bad    string // an answer that is never right
}

const perWriter = 4

func (x *wr) run(s *Srv, start uint64, client *http.Client) {
	score := start
	for {
		score += 3
		k := score % 11
		id := x.base + score%perWriter
		var req *http.Request
		changed := map[uint64]*uint64{}
		el := "/lists/" + x.l.ID + "/elements"
		elem := func(id, sc uint64) reqElem {
			changed[id] = &sc
			return reqElem{ID: id, Score: sc, Payload: json.RawMessage(fmt.Sprintf(`{"s":%d}`, sc))}
		}
		var err error
		want := 200
		switch {
		case k < 7:
			b, _ := json.Marshal(elem(id, score))
			req, err = http.NewRequest("PUT", s.Base+el+"/"+u64(id)+"?range=1", bytes.NewReader(b))
		case k < 9:
			var es []reqElem
			for i := uint64(0); i < perWriter; i++ {
				es = append(es, elem(x.base+i, score+i*7))
			}
			b, _ := json.Marshal(es)
			req, err = http.NewRequest("PUT", s.Base+el, bytes.NewReader(b))
		default:
			changed[id] = nil
			want = 204
			req, err = http.NewRequest("DELETE", s.Base+el+"/"+u64(id), nil)
		}
		if err != nil {
			x.bad = "VERIF-ERROR: " + err.Error()
			return
		}
		req.Header.Set("Content-Type", tJSON)
		resp, err := client.Do(req)
		status, body := 0, []byte(nil)
		if err == nil {
			status = resp.StatusCode
			body, err = ioutil.ReadAll(resp.Body)
			resp.Body.Close()
		}
		if status == want {
			// The status line is only written when the operation is done.
			for id, sc := range changed {
				x.last[id] = sc
			}
			x.acked++
		}
		switch {
		case err == nil && status == want:
			continue
		case err == nil && status != http.StatusServiceUnavailable:
			x.bad = fmt.Sprintf("%s %s: %d %s", req.Method, req.URL.Path, status, body)
		case err == nil:
			x.end = "refused"
		default:
			x.end = "cut off"
		}
		if status != want {
			for id, sc := range changed {
				x.unsure[id] = append(x.unsure[id], sc)
			}
		}
		return
	}
}

func show(p *uint64) string {
	if p == nil {
		return "absent"
	}
	return fmt.Sprint(*p)
}

// settle reads what became of the writer's elements, which must be allowed, into the reference.
func (x *wr) settle(w *W, t0 time.Time) {
	c := w.C
	var ids []uint64
	for i := uint64(0); i < perWriter; i++ {
		ids = append(ids, x.base+i)
	}
	var g resMulti
	w.want(200, Req{Method: "POST", Path: "/lists/" + x.l.ID + "/elements/find", Body: reqIDs{IDs: ids}, CT: tJSON, Accept: tJSON}, &g)
	found := map[uint64]resElem{}
	for _, e := range g.Found {
		found[e.ID] = e
	}
	for _, id := range ids {
		old, known := x.last[id]
		allowed := append([]*uint64{}, x.unsure[id]...)
		if known || len(allowed) == 0 {
			allowed = append(allowed, old)
		} else {
			allowed = append(allowed, nil)
		}
		e, ok := found[id]
		match := false
		var s string
		for _, a := range allowed {
			s += " " + show(a)
			if a == nil && !ok || a != nil && ok && *a == e.Score {
				match = true
			}
		}
		if !match {
			got := "absent"
			if ok {
				got = fmt.Sprint(e.Score)
			}
			c.Fatalf("element %d of list %s (acknowledged %s) is %s after the restart, want one of:%s", id, x.l.ID, show(old), got, s)
		}
		delete(x.l.Mo, toID(id))
		if ok {
			u := e.UpdatedAt.Unix()
			if u < t0.Unix() || u > time.Now().Unix() {
				c.Fatalf("element %d written after %d has updated_at %d", id, t0.Unix(), u)
			}
			n := m.Elem{Score: e.Score, Updated: uint32(u), Payload: []byte(fmt.Sprintf(`{"s":%d}`, e.Score))}
			n.ID = toID(id)
			x.l.Mo[n.ID] = n
		}
	}
}

// lw is a writer of its own lists.
type lw struct {
	prefix string
	last   map[string]map[uint64]uint64 // acknowledged elements by list
	unsure map[string][]map[uint64]uint64
	acked  int
	end    string
	bad    string
}

func (x *lw) run(s *Srv, start uint64, client *http.Client) {
	for n := start; ; n++ {
		name := fmt.Sprint(x.prefix, n%3)
		from := fmt.Sprint(x.prefix, (n+1)%3)
		els := map[uint64]uint64{}
		l := reqList{ID: name, Set: "set-w", MergeSize: intp(10), SplitSize: intp(12)}
		method, path := "POST", "/lists"
		want := 200
		_, there := x.last[name]
		_, other := x.last[from]
		switch k := n * 7 % 11; {
		case there && k < 6:
			method, path, want, els = "DELETE", "/lists/"+name, 204, nil
		case !there && other && k < 8:
			method, path = "PUT", "/lists/"+from+"/clone"
			els = x.last[from]
		default:
			path += "?replace=true"
			for i := uint64(0); i < 1+n%30; i++ {
				els[i] = n + i/2
				l.Populate = append(l.Populate, reqElem{ID: i, Score: n + i/2})
			}
		}
		var b []byte
		if els != nil {
			b, _ = json.Marshal(l)
		}
		req, err := http.NewRequest(method, s.Base+path, bytes.NewReader(b))
		if err != nil {
			x.bad = "VERIF-ERROR: " + err.Error()
			return
		}
		req.Header.Set("Content-Type", tJSON)
		resp, err := client.Do(req)
		status, body := 0, []byte(nil)
		if err == nil {
			status = resp.StatusCode
			body, err = ioutil.ReadAll(resp.Body)
			resp.Body.Close()
		}
		if status == want {
			if els == nil {
				delete(x.last, name)
			} else {
				x.last[name] = els
			}
			x.acked++
			if err == nil {
				continue
			}
		} else {
			x.unsure[name] = append(x.unsure[name], els)
		}
		switch {
		case err != nil:
			x.end = "cut off"
		case status != http.StatusServiceUnavailable:
			x.bad = fmt.Sprintf("%s %s: %d %s", req.Method, req.URL.Path, status, body)
		default:
			x.end = "refused"
		}
		return
	}
}

// settle reads what became of the writer's lists, which must be allowed, into the reference.
func (x *lw) settle(w *W, t0 time.Time) {
	c := w.C
	for k := 0; k < 3; k++ {
		name := fmt.Sprint(x.prefix, k)
		last, there := x.last[name]
		r := w.send(Req{Method: "GET", Path: "/lists/" + name + "/range", Query: url.Values{"from_top": {"0"}, "limit": {"1000"}}})
		var got map[uint64]uint64
		var g []resElem
		switch r.Status {
		case 404:
		case 200:
			r.Decode(c, &g)
			got = map[uint64]uint64{}
			for _, e := range g {
				got[e.ID] = e.Score
			}
		default:
			c.Fatalf("reading list %s after the restart: %v", name, r)
		}
		allowed := x.unsure[name]
		if !there {
			last = nil
		}
		allowed = append(allowed, last)
		match := false
		for _, a := range allowed {
			if (a == nil) == (got == nil) && fmt.Sprint(a) == fmt.Sprint(got) {
				match = true
			}
		}
		if !match {
			c.Fatalf("list %s has %v after the restart, want one of %v", name, got, allowed)
		}
		if got == nil {
			continue
		}
		l := &L{ID: name, Set: "set-w", Merge: 10, Split: 12, Mo: m.Model{}}
		for _, e := range g {
			u := e.UpdatedAt.Unix()
			if u < t0.Unix() || u > time.Now().Unix() {
				c.Fatalf("element %d written after %d has updated_at %d", e.ID, t0.Unix(), u)
			}
			n := m.Elem{Score: e.Score, Updated: uint32(u)}
			n.ID = toID(e.ID)
			l.Mo[n.ID] = n
		}
		w.Lists[name] = l
	}
}

// TestC28 restarts a server on its storage.
func TestC28(t *testing.T) {
	h.Assume("Only the process ends, the machine does not; when it is killed, no request and no splitting is in progress and the backend queues no writes (Bolt without write-behind)")
	h.Run(t, "a case is non-trivial when at least two lists with elements existed at some restart", func(c *h.Case) {
		cf := persistent[rapid.IntRange(0, len(persistent)-1).Draw(c.T, "conf")]
		c.Logf("server %s", cf.Name)
		dir := scratch()
		var s *Srv
		defer func() {
			s.Kill()
			_ = os.RemoveAll(dir)
		}()
		boot := func() {
			var err error
			s, err = start(cf, dir)
			if err != nil {
				c.Fatalf("server %s: %v", cf.Name, err)
			}
		}
		boot()
		w := NewW(c, s, m.GenProfile(c, rapid.SampledFrom([]int{8, 30}).Draw(c.T, "nids")))
		restarts := rapid.IntRange(1, 3).Draw(c.T, "restarts")
		base := uint64(1) << 40
		for r := 0; r < restarts; r++ {
			steps := rapid.IntRange(0, 8).Draw(c.T, "steps")
			for i := 0; i < steps; i++ {
				w.drawCT()
				switch k := rapid.IntRange(0, 9).Draw(c.T, "kind"); {
				case k < 3 || len(w.Lists) == 0:
					w.createOp()
				case k == 3:
					w.cloneOp()
				case k == 4:
					w.oneOp()
				default:
					w.elemOp()
				}
			}
			w.CT = tJSON
			kill := cf.Name == "bolt" && r > 0 && rapid.IntRange(0, 2).Draw(c.T, "kill") == 0
			if kill {
				c.Logf("graceful restart, element writes, then the process is killed")
				if err := s.Stop(2 * time.Minute); err != nil {
					c.Fatalf("%v", err)
				}
				boot()
				w.S = s
				// Lists that are never split on their own.
				var calm []*L
				for _, id := range w.ids() {
					if w.Lists[id].Split == 2000 {
						calm = append(calm, w.Lists[id])
					}
				}
				all := w.Lists
				if len(calm) > 0 {
					w.Lists = map[string]*L{}
					for _, l := range calm {
						w.Lists[l.ID] = l
					}
					for i := 0; i < 6; i++ {
						w.elemOp()
					}
					w.Lists = all
				}
				s.Kill()
				c.Class("killed")
			} else {
				var ws []*wr
				var ls []*lw
				var wg sync.WaitGroup
				t0 := time.Now()
				client := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 8}, Timeout: 3 * time.Minute}
				for i := rapid.IntRange(0, 2).Draw(c.T, "listers"); i > 0; i-- {
					x := &lw{prefix: fmt.Sprintf("w%d-%d-", r, i), last: map[string]map[uint64]uint64{}, unsure: map[string][]map[uint64]uint64{}}
					ls = append(ls, x)
					from := rapid.Uint64Range(0, 1000).Draw(c.T, "from")
					wg.Add(1)
					go func() {
						defer wg.Done()
						x.run(s, from, client)
					}()
				}
				if n := rapid.IntRange(0, 4).Draw(c.T, "writers"); n > 0 && len(w.Lists) > 0 {
					for i := 0; i < n; i++ {
						x := &wr{l: w.pick(), base: base, last: map[uint64]*uint64{}, unsure: map[uint64][]*uint64{}}
						base += 1000
						from := w.Prof.Score(c) >> 1
						ws = append(ws, x)
						wg.Add(1)
						go func() {
							defer wg.Done()
							x.run(s, from, client)
						}()
					}
					c.Logf("%d writers", n)
				}
				if len(ws)+len(ls) > 0 {
					d := rapid.SampledFrom([]int{0, 1, 3, 10, 30, 80}).Draw(c.T, "ms")
					c.Logf("%d list writers, stopped after %d ms", len(ls), d)
					time.Sleep(time.Duration(d) * time.Millisecond)
				}
				t1 := time.Now()
				if err := s.Stop(2 * time.Minute); err != nil {
					c.Fatalf("%v", err)
				}
				wg.Wait()
				client.CloseIdleConnections()
				if s.code != 0 {
					c.Fatalf("the server ended with status %d: %s", s.code, s.logs)
				}
				c.Logf("stopped in %v", time.Since(t1).Round(100*time.Millisecond))
				for _, x := range ws {
					if x.bad != "" {
						c.Fatalf("writer on %s: %s", x.l.ID, x.bad)
					}
					c.Class("writer " + x.end)
					c.Logf("writer on %s: %d acknowledged, then %s", x.l.ID, x.acked, x.end)
				}
				for _, x := range ls {
					if x.bad != "" {
						c.Fatalf("writer of lists %s*: %s", x.prefix, x.bad)
					}
					c.Class("list writer " + x.end)
					c.Logf("writer of lists %s*: %d acknowledged, then %s", x.prefix, x.acked, x.end)
				}
				boot()
				w.S = s
				for _, x := range ls {
					x.settle(w, t0)
				}
				for _, x := range ws {
					x.settle(w, t0)
				}
			}
			if kill {
				boot()
				w.S = s
			}
			w.CheckAll()
			for _, id := range w.ids() {
				var g resOp
				w.want(200, Req{Method: "PUT", Path: "/lists/" + id + "/verify"}, &g)
				if g.Error != nil {
					c.Fatalf("list %s does not verify after the restart: %s", id, *g.Error)
				}
			}
			n := 0
			for _, l := range w.Lists {
				if len(l.Mo) > 0 {
					n++
				}
			}
			if n >= 2 {
				c.Nontrivial()
			}
		}
	})
}
