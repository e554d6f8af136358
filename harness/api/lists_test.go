package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

var listNames = []string{"aa", "ab", "a-1", "List.2", "z_9", "0.0", strings.Repeat("x", 100), "zz", "A_b"}

// CheckAll compares the catalogue and every list.
func (w *W) CheckAll() {
	var res resLists
	w.want(200, Req{Method: "GET", Path: "/lists", Query: url.Values{"limit": {"1000"}}}, &res)
	ids := w.ids()
	if len(res.Lists) != len(ids) {
		var got []string
		for _, l := range res.Lists {
			got = append(got, l.ID)
		}
		w.C.Fatalf("lists are %q, want %q", got, ids)
	}
	for i, id := range ids {
		w.checkDef(w.Lists[id], &res.Lists[i])
		w.All(w.Lists[id])
	}
}

// sel is a selection of lists.
type sel struct {
	names []string
	match map[string]string
	sets  []string
}

// genSel draws a selection in any of its forms.
func (w *W) genSel() sel {
	c := w.C
	var s sel
	form := rapid.IntRange(1, 7).Draw(c.T, "form")
	if rapid.IntRange(0, 9).Draw(c.T, "nosel") == 0 {
		form = 0
	}
	if form&1 != 0 {
		n := rapid.IntRange(1, 4).Draw(c.T, "nn")
		for i := 0; i < n; i++ {
			s.names = append(s.names, rapid.SampledFrom(w.names).Draw(c.T, "name"))
		}
	}
	if form&2 != 0 {
		s.match = map[string]string{}
		n := rapid.IntRange(1, 2).Draw(c.T, "nm")
		for i := 0; i < n; i++ {
			s.match[rapid.SampledFrom([]string{"game", "country", "other"}).Draw(c.T, "mk")] = rapid.SampledFrom([]string{"1", "2", "dk"}).Draw(c.T, "mv")
		}
	}
	if form&4 != 0 {
		n := rapid.IntRange(1, 2).Draw(c.T, "ns")
		for i := 0; i < n; i++ {
			s.sets = append(s.sets, rapid.SampledFrom([]string{"set-a", "set-b", "set.c", "set"}).Draw(c.T, "set"))
		}
	}
	return s
}

func (s sel) none() bool { return len(s.names)+len(s.match)+len(s.sets) == 0 }

// lists returns the names selected: named ones, known or not, and matching ones.
func (s sel) lists(w *W, allIfNone bool) []string {
	res := map[string]bool{}
	for _, n := range s.names {
		res[n] = true
	}
	for id, l := range w.Lists {
		for _, set := range s.sets {
			if l.Set == set {
				res[id] = true
			}
		}
		if len(s.match) > 0 {
			ok := true
			for k, v := range s.match {
				if g, has := l.Meta[k]; !has || g != v {
					ok = false
				}
			}
			if ok {
				res[id] = true
			}
		}
		if allIfNone && s.none() {
			res[id] = true
		}
	}
	var out []string
	for k := range res {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s sel) ql() reqQL { return reqQL{Lists: s.names, Match: s.match, AllSets: s.sets} }

func (s sel) query(q url.Values) {
	if len(s.names) > 0 {
		q["lists"] = s.names
	}
	if len(s.match) > 0 {
		b, _ := json.Marshal(s.match)
		q.Set("match_metadata", string(b))
	}
	if len(s.sets) > 0 {
		q["all_in_sets"] = s.sets
	}
}

// outcome checks that exactly the selected lists are reported; bad tells which must fail.
func (w *W) outcome(what string, g resX, selected []string, errorsOnly bool, bad func(l *L) bool) {
	c := w.C
	want := map[string]bool{}
	for _, n := range selected {
		want[n] = true
	}
	for n := range g.Success {
		if !want[n] {
			c.Fatalf("%s: success reported for %s, which is not selected (%q)", what, n, selected)
		}
	}
	for n := range g.Errors {
		if !want[n] {
			c.Fatalf("%s: error reported for %s, which is not selected (%q)", what, n, selected)
		}
	}
	for _, n := range selected {
		l := w.Lists[n]
		fail := l == nil || (bad != nil && bad(l))
		_, ok := g.Success[n]
		_, e := g.Errors[n]
		if e != fail {
			c.Fatalf("%s: list %s: error reported: %v (%q), want %v", what, n, e, g.Errors[n], fail)
		}
		if ok != (!fail && !errorsOnly) {
			c.Fatalf("%s: list %s: success reported: %v, want %v", what, n, ok, !fail && !errorsOnly)
		}
	}
}

// xop performs a multi-list operation.
func (w *W) xop() {
	c := w.C
	s := w.genSel()
	q := url.Values{}
	errorsOnly := rapid.IntRange(0, 3).Draw(c.T, "eo") == 0
	if errorsOnly {
		q.Set("errors_only", "true")
	}
	var g resX
	switch op := rapid.IntRange(0, 5).Draw(c.T, "xop"); op {
	case 0, 1: // create, put
		results := rapid.Bool().Draw(c.T, "results")
		q.Set("results", fmt.Sprint(results))
		rs, es := w.genBatch(8)
		ql := s.ql()
		ql.Payload = rs
		selected := s.lists(w, false)
		exists := map[string]bool{}
		if op == 0 {
			for _, n := range selected {
				if l := w.Lists[n]; l != nil {
					for _, e := range es {
						if _, ok := l.Mo[e.ID]; ok {
							exists[n] = true
						}
					}
				}
			}
		}
		method, what := "PUT", "xlist put"
		if op == 0 {
			method, what = "POST", "xlist create"
		}
		t0 := time.Now()
		w.want(200, Req{Method: method, Path: "/xlist/elements", Query: q, Body: ql}, &g)
		w.outcome(what, g, selected, errorsOnly, func(l *L) bool { return exists[l.ID] })
		var ids []uint64
		for _, e := range es {
			ids = append(ids, uint64(e.ID))
		}
		for _, n := range selected {
			l := w.Lists[n]
			if l == nil || exists[n] {
				continue
			}
			l.apply(w.stamp(l, t0, append([]m.Elem(nil), es...)))
			if g.Success[n] != nil {
				if results {
					w.tiny(what, l, g.Success[n].Results, ids)
				} else if len(g.Success[n].Results) > 0 {
					c.Fatalf("%s: results were returned for %s though not asked for", what, n)
				}
			}
		}
		c.Class(what)
	case 2: // delete
		id := w.genID()
		s.query(q)
		selected := s.lists(w, false)
		w.want(200, Req{Method: "DELETE", Path: "/xlist/elements/" + u64(id), Query: q}, &g)
		w.outcome("xlist delete", g, selected, errorsOnly, nil)
		for _, n := range selected {
			if l := w.Lists[n]; l != nil {
				delete(l.Mo, toID(id))
			}
		}
		c.Class("xlist delete")
	case 3: // get
		id := w.genID()
		q = url.Values{}
		s.query(q)
		selected := s.lists(w, false)
		w.want(200, Req{Method: "GET", Path: "/xlist/elements/" + u64(id), Query: q}, &g)
		w.outcome("xlist get", g, selected, false, nil)
		for n, r := range g.Success {
			w.tiny("xlist get", w.Lists[n], r.Results, []uint64{id})
		}
		c.Class("xlist get")
	case 4: // verify
		if rapid.Bool().Draw(c.T, "elements") {
			q.Set("elements", "true")
		}
		if rapid.IntRange(0, 3).Draw(c.T, "repair") == 0 {
			q.Set("repair", "true")
		}
		if rapid.IntRange(0, 3).Draw(c.T, "clear") == 0 {
			q.Set("clear", "true")
		}
		w.want(200, Req{Method: "PUT", Path: "/xlist/verify", Query: q, Body: s.ql()}, &g)
		w.outcome("xlist verify", g, s.lists(w, true), errorsOnly, nil)
		c.Class("xlist verify")
	case 5: // reindex
		w.want(200, Req{Method: "PUT", Path: "/xlist/reindex", Query: q, Body: s.ql()}, &g)
		w.outcome("xlist reindex", g, s.lists(w, true), errorsOnly, nil)
		c.Class("xlist reindex")
	}
	if s.none() {
		c.Class("no selection")
	} else if s.names == nil && s.match == nil {
		c.Class("sets only")
	}
}

// createOp creates or replaces a list, validly or not.
func (w *W) createOp() {
	c := w.C
	id := rapid.SampledFrom(listNames).Draw(c.T, "newid")
	if _, ok := w.Lists[id]; !ok && rapid.IntRange(0, 4).Draw(c.T, "valid") > 0 {
		w.create(id, rapid.SampledFrom([]int{0, 5, 40}).Draw(c.T, "max"))
		c.Class("create list")
		return
	}
	r := reqList{ID: id, Set: "set-a", MergeSize: intp(10), SplitSize: intp(20)}
	q := url.Values{}
	replace := rapid.Bool().Draw(c.T, "replace")
	if replace || rapid.Bool().Draw(c.T, "explicit") {
		q.Set("replace", fmt.Sprint(replace))
	}
	rs, es := w.genBatch(10)
	r.Populate = rs
	bad := ""
	if rapid.Bool().Draw(c.T, "bad") {
		bad = rapid.SampledFrom([]string{"equal sizes", "inverted sizes", "small merge", "large split", "short set", "long set", "bad id", "short id", "long id", "no set"}).Draw(c.T, "how")
	}
	switch bad {
	case "equal sizes":
		r.SplitSize = intp(10)
	case "inverted sizes":
		r.MergeSize = intp(30)
	case "small merge":
		r.MergeSize = intp(9)
	case "large split":
		r.SplitSize = intp(100001)
	case "short set":
		r.Set = "s"
	case "long set":
		r.Set = strings.Repeat("s", 101)
	case "bad id":
		r.ID = rapid.SampledFrom([]string{"a/b", "a b", "aa\n", "æ-1", "a%b", "../a"}).Draw(c.T, "badid")
	case "short id":
		r.ID = "a"
	case "long id":
		r.ID = strings.Repeat("x", 101)
	case "no set":
		r.Set = ""
	}
	req := Req{Method: "POST", Path: "/lists", Query: q, Body: r}
	_, exists := w.Lists[id]
	if bad != "" {
		res := w.send(req)
		if res.Status != 400 && !(res.Status == 409 && exists && !replace) {
			c.Fatalf("creating a list with %s: %v, want 400", bad, res)
		}
		c.Class("create list: " + bad)
		return
	}
	if exists && !replace {
		w.want(409, req, nil)
		c.Class("create list: conflict")
		return
	}
	l := &L{ID: id, Set: "set-a", Merge: 10, Split: 20, Mo: m.Model{}}
	var g resList
	t0 := time.Now()
	w.want(200, req, &g)
	w.Lists[id] = l
	l.apply(w.stamp(l, t0, es))
	w.checkList(l, &g, true)
	if exists {
		c.Class("replace list")
	}
}

// cloneOp clones a list.
func (w *W) cloneOp() {
	c := w.C
	from := rapid.SampledFrom(listNames).Draw(c.T, "from")
	to := rapid.SampledFrom(listNames).Draw(c.T, "to")
	src, dst := w.Lists[from], w.Lists[to]
	l := &L{ID: to, Set: rapid.SampledFrom([]string{"set-a", "set-b", "set.c"}).Draw(c.T, "set"), Merge: 500, Split: 2000, Meta: map[string]string{"game": "2"}, Mo: m.Model{}}
	r := reqList{ID: to, Set: l.Set, Metadata: l.Meta}
	bad := ""
	switch rapid.IntRange(0, 5).Draw(c.T, "kind") {
	case 0:
		bad = "sizes"
		r.MergeSize, r.SplitSize = intp(20), intp(20)
	case 1:
		bad = "populate"
		rs, _ := w.genElem(w.genID())
		r.Populate = []reqElem{rs}
	case 2, 3:
		l.Merge = rapid.IntRange(10, 14).Draw(c.T, "merge")
		l.Split = l.Merge + rapid.IntRange(1, 12).Draw(c.T, "split")
		r.MergeSize, r.SplitSize = intp(l.Merge), intp(l.Split)
	}
	if rapid.Bool().Draw(c.T, "load") {
		l.LoadIndex = true
		r.LoadIndex = boolp(true)
	}
	req := Req{Method: "PUT", Path: "/lists/" + from + "/clone", Body: r}
	switch {
	case src == nil:
		res := w.send(req)
		if res.Status != 404 && !(bad != "" && res.Status == 400) && !(dst != nil && res.Status == 409) {
			c.Fatalf("cloning a missing list: %v, want 404", res)
		}
		c.Class("clone missing")
	case dst != nil:
		res := w.send(req)
		if res.Status != 409 && !(bad != "" && res.Status == 400) {
			c.Fatalf("cloning to an existing list: %v, want 409", res)
		}
		c.Class("clone conflict")
	case bad != "":
		w.want(400, req, nil)
		c.Class("clone bad " + bad)
	default:
		var g resList
		w.want(200, req, &g)
		l.Mo = src.Mo.Clone()
		w.Lists[to] = l
		w.checkList(l, &g, true)
		c.Class("clone")
	}
}

// pageOp lists the lists.
func (w *W) pageOp() {
	c := w.C
	ids := w.ids()
	q := url.Values{}
	limit := 25
	if rapid.Bool().Draw(c.T, "limited") {
		limit = rapid.IntRange(1, 6).Draw(c.T, "limit")
		q.Set("limit", strconv.Itoa(limit))
	}
	pivot := rapid.SampledFrom(append([]string{"", "a", "zzz", "List"}, listNames...)).Draw(c.T, "pivot")
	var want []string
	before := pivot != "" && rapid.Bool().Draw(c.T, "before")
	lo := 0
	if before {
		q.Set("before_id", pivot)
		hi := sort.SearchStrings(ids, pivot)
		lo = hi - limit
		if lo < 0 {
			lo = 0
		}
		want = ids[lo:hi]
	} else {
		if pivot != "" {
			q.Set("after_id", pivot)
			lo = sort.Search(len(ids), func(i int) bool { return ids[i] > pivot })
		}
		hi := lo + limit
		if hi > len(ids) {
			hi = len(ids)
		}
		want = ids[lo:hi]
	}
	var g resLists
	w.want(200, Req{Method: "GET", Path: "/lists", Query: q}, &g)
	var got []string
	for i := range g.Lists {
		got = append(got, g.Lists[i].ID)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("lists are %q, want %q", got, want)
	}
	for i := range g.Lists {
		w.checkDef(w.Lists[want[i]], &g.Lists[i])
	}
	if g.Before == nil || g.After == nil {
		c.Fatalf("lists_before or lists_after is missing")
	}
	if len(want) > 0 && (*g.Before != lo || *g.After != len(ids)-lo-len(want)) {
		c.Fatalf("lists_before %d lists_after %d, want %d and %d", *g.Before, *g.After, lo, len(ids)-lo-len(want))
	}
	c.Class("page")
}

// oneOp is an operation on a single list.
func (w *W) oneOp() {
	c := w.C
	id := rapid.SampledFrom(listNames).Draw(c.T, "one")
	l := w.Lists[id]
	q := url.Values{}
	op := rapid.SampledFrom([]string{"delete", "get", "reindex", "repair", "verify"}).Draw(c.T, "oneop")
	switch op {
	case "delete":
		w.want(204, Req{Method: "DELETE", Path: "/lists/" + id}, nil)
		delete(w.Lists, id)
		w.want(404, Req{Method: "GET", Path: "/lists/" + id}, nil)
	case "get", "reindex":
		req := Req{Method: "GET", Path: "/lists/" + id, Query: q}
		top := true
		if op == "get" {
			top = rapid.Bool().Draw(c.T, "tb")
			if top {
				q.Set("top_bottom", "true")
			}
		} else {
			req = Req{Method: "PUT", Path: "/lists/" + id + "/reindex"}
		}
		if l == nil {
			w.want(404, req, nil)
			return
		}
		var g resList
		w.want(200, req, &g)
		w.checkList(l, &g, top)
	default:
		if rapid.Bool().Draw(c.T, "clear") {
			q.Set("clear", "true")
		}
		if op == "verify" && rapid.Bool().Draw(c.T, "repair") {
			q.Set("repair", "true")
		}
		req := Req{Method: "PUT", Path: "/lists/" + id + "/" + op, Query: q}
		if l == nil {
			w.want(404, req, nil)
			return
		}
		var g resOp
		w.want(200, req, &g)
		if g.Error != nil || g.List == nil {
			e := "no list returned"
			if g.Error != nil {
				e = *g.Error
			}
			c.Fatalf("%s of list %s: %s", op, id, e)
		}
		w.checkDef(l, g.List)
	}
	c.Class(op)
}

// saved is a backup taken in the case.
type saved struct {
	path  string // a file the server wrote
	data  []byte // or the downloaded bytes
	lists map[string]*L
}

func (l *L) clone(id string) *L {
	n := *l
	n.ID, n.Mo = id, l.Mo.Clone()
	return &n
}

func (w *W) await(cb resCallback) resBackup {
	st := w.awaitAny(cb)
	if st.Cancelled {
		w.C.Fatalf("backup reports to be cancelled: %+v", st)
	}
	return st
}

// awaitAny also accepts a cancelled backup.
func (w *W) awaitAny(cb resCallback) resBackup {
	c := w.C
	if cb.ID == "" || cb.URL != "/backup/"+cb.ID {
		c.Fatalf("backup callback is %+v", cb)
	}
	for i := 0; ; i++ {
		var st resBackup
		w.want(200, Req{Method: "GET", Path: "/backup/" + cb.ID}, &st)
		if st.Done {
			return st
		}
		if i > 12000 {
			c.Fatalf("the backup does not finish: %+v", st)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// checkStatus checks the status of a finished backup.
func (w *W) checkStatus(st resBackup, selected []string) {
	good := 0
	for _, n := range selected {
		if w.Lists[n] == nil {
			if st.Errors[n] == "" {
				w.C.Fatalf("backup: no error for unknown list %s: %+v", n, st)
			}
			continue
		}
		good++
	}
	if st.Lists != len(selected) || st.ListsDone != good || len(st.Errors) != len(selected)-good {
		w.C.Fatalf("backup of %q: lists %d, lists_done %d, errors %v; want %d and %d", selected, st.Lists, st.ListsDone, st.Errors, len(selected), good)
	}
}

// room reports whether all names can get a prefix and a suffix and stay usable in requests.
func room(ls map[string]*L) bool {
	for n := range ls {
		if len(n) > 90 {
			return false
		}
	}
	return true
}

// backupOp makes a backup and remembers it; a server-to-server one is checked at once.
func (w *W) backupOp(other *W, backups *[]saved) {
	c := w.C
	s := w.genSel()
	selected := s.lists(w, true)
	var r reqBackup
	r.Lists = s.ql()
	kind := rapid.SampledFrom([]string{"file", "download", "server"}).Draw(c.T, "kind")
	r.Destination.Type = kind
	snap := map[string]*L{}
	for _, n := range selected {
		if l := w.Lists[n]; l != nil {
			snap[n] = l.clone(n)
		}
	}
	switch kind {
	case "file":
		p := filepath.Join(w.S.Dir, fmt.Sprintf("backup-%d.bin", len(*backups)))
		_ = os.Remove(p)
		r.Destination.Path = &p
		var cb resCallback
		w.want(201, Req{Method: "PUT", Path: "/xlist/backup", Body: r}, &cb)
		st := w.await(cb)
		w.checkStatus(st, selected)
		fi, err := os.Stat(p)
		if err != nil || fi.Size() != st.Size {
			c.Fatalf("backup of %d bytes reported, file: %v %v", st.Size, fi, err)
		}
		*backups = append(*backups, saved{path: p, lists: snap})
	case "download":
		res := w.want(200, Req{Method: "PUT", Path: "/xlist/backup", Body: r}, nil)
		*backups = append(*backups, saved{data: res.Body, lists: snap})
	case "server":
		if other == nil {
			return
		}
		r.Destination.Path = &other.S.Addr
		pre, suf := "", ""
		if rapid.Bool().Draw(c.T, "pre") && room(snap) {
			pre = "p-"
			r.Destination.Prefix = &pre
		}
		if rapid.Bool().Draw(c.T, "suf") && room(snap) {
			suf = ".s"
			r.Destination.Suffix = &suf
		}
		var cb resCallback
		w.want(201, Req{Method: "PUT", Path: "/xlist/backup", Body: r}, &cb)
		st := w.await(cb)
		w.checkStatus(st, selected)
		for n, l := range snap {
			other.Lists[pre+n+suf] = l.clone(pre + n + suf)
		}
		other.CheckAll()
	}
	c.Class("backup " + kind)
}

// restoreOp restores an earlier backup.
func (w *W) restoreOp(b saved) {
	c := w.C
	q := url.Values{}
	pre, suf := "", ""
	if rapid.IntRange(0, 2).Draw(c.T, "pre") == 0 && room(b.lists) {
		pre = rapid.SampledFrom([]string{"p-", "a"}).Draw(c.T, "prefix")
		q.Set("list_id_prefix", pre)
	}
	if rapid.IntRange(0, 2).Draw(c.T, "suf") == 0 && room(b.lists) {
		suf = ".s"
		q.Set("list_id_suffix", suf)
	}
	keep := rapid.Bool().Draw(c.T, "keep")
	if keep {
		q.Set("keep", "true")
	}
	data := b.data
	if data == nil {
		var err error
		data, err = ioutil.ReadFile(b.path)
		if err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
	}
	req := Req{Method: "POST", Path: "/xlist/restore", Query: q}
	kinds := []string{"body", "file", "http"}
	if w.S.Conf.S3 {
		kinds = append(kinds, "s3")
	}
	kind := rapid.SampledFrom(kinds).Draw(c.T, "src")
	switch kind {
	case "body":
		req.Raw = data
	case "file":
		p := b.path
		if p == "" {
			p = filepath.Join(w.S.Dir, "restore.bin")
			if err := ioutil.WriteFile(p, data, 0644); err != nil {
				c.Fatalf("VERIF-ERROR: %v", err)
			}
		}
		q.Set("src_file", p)
	case "s3":
		obj := getS3()
		obj.mu.Lock()
		obj.deny = false
		obj.data["/"+bucket+"/restore/b.bin"] = data
		obj.mu.Unlock()
		q.Set("src", "s3://"+bucket+"/restore/b.bin")
	case "http":
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, _ *http.Request) {
			_, _ = bytes.NewReader(data).WriteTo(rw)
		})}
		go func() { _ = srv.Serve(ln) }()
		defer srv.Close()
		q.Set("src", "http://"+ln.Addr().String()+"/backup")
	}
	var g resRestore
	w.want(200, req, &g)
	restored, skipped := 0, 0
	for n, l := range b.lists {
		id := pre + n + suf
		if w.Lists[id] != nil && keep {
			skipped++
			continue
		}
		restored++
		w.Lists[id] = l.clone(id)
	}
	if g.Restored == nil || g.Skipped == nil || *g.Restored != restored || *g.Skipped != skipped || len(g.Errors) != 0 {
		c.Fatalf("restore: restored %s, skipped %s, errors %v; want %d and %d", str(g.Restored), str(g.Skipped), g.Errors, restored, skipped)
	}
	c.Class("restore " + kind)
}

// TestC24 drives the list and multi-list endpoints.
func TestC24(t *testing.T) {
	h.Assume("Lists stay undamaged: verification over HTTP is only judged on healthy lists (C06 and C07 judge damage)", "S3 is a stand-in that keeps objects in memory")
	h.Run(t, "a case is non-trivial when at least two lists existed and at least three multi-list, backup or restore requests were answered", func(c *h.Case) {
		cf := confs[rapid.IntRange(0, len(confs)-1).Draw(c.T, "conf")]
		c.Logf("server %s", cf.Name)
		s := Get(c, cf, 0)
		w := NewW(c, s, m.GenProfile(c, rapid.SampledFrom([]int{6, 40}).Draw(c.T, "nids")))
		w.Clean()
		s.dirty = true
		var other *W
		if rapid.IntRange(0, 3).Draw(c.T, "two") == 0 {
			o := Get(c, confs[0], 1)
			other = NewW(c, o, w.Prof)
			other.Clean()
			o.dirty = true
		}
		n := rapid.IntRange(0, 5).Draw(c.T, "nl")
		for i := 0; i < n; i++ {
			w.drawCT()
			w.create(listNames[i], rapid.SampledFrom([]int{0, 3, 40}).Draw(c.T, "max"))
		}
		var backups []saved
		multi := 0
		steps := rapid.IntRange(1, 20).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			w.drawCT()
			switch rapid.IntRange(0, 10).Draw(c.T, "kind") {
			case 7:
				w.abandonOp()
				w.healthOp()
			case 0:
				w.createOp()
			case 1:
				w.cloneOp()
			case 2:
				w.pageOp()
			case 3:
				w.oneOp()
			case 4:
				if len(w.Lists) > 0 {
					w.elemOp()
				}
			case 5:
				if rapid.IntRange(0, 2).Draw(c.T, "hard") == 0 {
					w.hardBackup(&backups)
				} else {
					w.backupOp(other, &backups)
				}
				multi++
			case 6:
				if len(backups) > 0 {
					b := backups[rapid.IntRange(0, len(backups)-1).Draw(c.T, "b")]
					if rapid.IntRange(0, 3).Draw(c.T, "hard") == 0 {
						w.hardRestore(b)
					} else {
						w.restoreOp(b)
					}
					multi++
				}
			default:
				w.xop()
				multi++
			}
			if rapid.Bool().Draw(c.T, "check") {
				w.CheckAll()
			}
		}
		w.CheckAll()
		if len(w.Lists) >= 2 && multi >= 3 {
			c.Nontrivial()
		}
		s.dirty = false
		if other != nil {
			other.S.dirty = false
		}
	})
}
