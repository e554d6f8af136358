package api

import (
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"path/filepath"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

// dest stands in for the destination server of a backup, or for the source of a restore.
type dest struct {
	addr string
	srv  *http.Server
	open chan struct{} // closed when stalled requests may go on

	mu     sync.Mutex
	health int
	mode   string
	fails  map[string]string
	data   []byte
	sent   []string
}

func newDest(c *h.Case) *dest {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fatalf("VERIF-ERROR: %v", err)
	}
	d := &dest{addr: ln.Addr().String(), health: 200, open: make(chan struct{})}
	d.srv = &http.Server{Handler: d}
	go func() { _ = d.srv.Serve(ln) }()
	c.Defer(func() { d.srv.Close() })
	return d
}

func (d *dest) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	d.mu.Lock()
	mode, health := d.mode, d.health
	if r.URL.Path != "/health" {
		d.sent = append(d.sent, r.Method+" "+r.URL.String())
	}
	d.mu.Unlock()
	if r.URL.Path == "/health" {
		rw.WriteHeader(health)
		return
	}
	switch mode {
	case "early":
		rw.WriteHeader(400)
		return
	case "cut":
		_, _ = io.CopyN(ioutil.Discard, r.Body, 5)
		panic(http.ErrAbortHandler)
	case "stalled":
		<-d.open
		return
	}
	b, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.data = b
	switch mode {
	case "late":
		rw.WriteHeader(500)
	default:
		rw.Header().Set("Content-Type", "application/vnd.rankdb.restoreresult+json")
		_ = json.NewEncoder(rw).Encode(map[string]interface{}{"restored": 1, "skipped": 0, "errors": d.fails})
	}
}

// s3stub keeps objects of a bucket for the servers of this process.
type s3stub struct {
	addr string
	mu   sync.Mutex
	deny bool
	data map[string][]byte
}

// Not usable as a host name, so the client addresses it by path.
const bucket = "Backup_Bucket"

var s3once sync.Once
var theS3 *s3stub

func getS3() *s3stub {
	s3once.Do(func() {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("VERIF-ERROR: " + err.Error())
		}
		theS3 = &s3stub{addr: ln.Addr().String(), data: map[string][]byte{}}
		go func() { _ = http.Serve(ln, theS3) }()
	})
	return theS3
}

func (s *s3stub) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	b, err := ioutil.ReadAll(r.Body)
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case err != nil || r.URL.RawQuery != "":
		rw.WriteHeader(400)
	case s.deny:
		rw.WriteHeader(403)
	case r.Method == "PUT":
		s.data[r.URL.Path] = b
	case s.data[r.URL.Path] == nil:
		rw.WriteHeader(404)
	default:
		_, _ = rw.Write(s.data[r.URL.Path])
	}
}

// closedPort returns an address where nothing listens.
func closedPort(c *h.Case) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fatalf("VERIF-ERROR: %v", err)
	}
	defer ln.Close()
	return ln.Addr().String()
}

// hardBackup makes backups to destinations that may not work.
func (w *W) hardBackup(backups *[]saved) {
	c := w.C
	s := w.genSel()
	selected := s.lists(w, true)
	snap := map[string]*L{}
	for _, n := range selected {
		if l := w.Lists[n]; l != nil {
			snap[n] = l.clone(n)
		}
	}
	kinds := []string{"file-missing", "no-path", "no-type", "closed", "sick", "early", "late", "cut", "some-fail", "ok", "stalled", "unknown-id"}
	if w.S.Conf.S3 {
		kinds = append(kinds, "s3", "s3", "s3-denied")
	} else {
		kinds = append(kinds, "s3-off")
	}
	kind := rapid.SampledFrom(kinds).Draw(c.T, "kind")
	c.Class("backup " + kind)
	var r reqBackup
	r.Lists = s.ql()
	to := func(typ, path string) {
		r.Destination.Type = typ
		r.Destination.Path = &path
	}
	put := func(status int, v interface{}) {
		w.want(status, Req{Method: "PUT", Path: "/xlist/backup", Body: r}, v)
	}
	// failed checks that nothing is reported as backed up.
	failed := func(cb resCallback) {
		st := w.awaitAny(cb)
		if st.ListsDone != 0 || st.Lists != len(selected) {
			c.Fatalf("backup that could not be stored: lists %d, lists_done %d, errors %v; want %d lists", st.Lists, st.ListsDone, st.Errors, len(selected))
		}
		if len(st.Errors) == 0 && !st.Cancelled {
			c.Fatalf("backup that could not be stored reports no error: %+v", st)
		}
		for _, n := range selected {
			if st.Errors[n] == "" && !st.Cancelled {
				c.Fatalf("backup that could not be stored: no error for list %s: %v", n, st.Errors)
			}
		}
		if st.Cancelled && kind != "stalled" {
			c.Fatalf("backup reports to be cancelled: %+v", st)
		}
	}
	var cb resCallback
	switch kind {
	case "unknown-id":
		for _, method := range []string{"GET", "DELETE"} {
			w.want(404, Req{Method: method, Path: "/backup/nosuchjob"}, nil)
		}
	case "no-path":
		r.Destination.Type = rapid.SampledFrom([]string{"file", "server", "s3"}).Draw(c.T, "type")
		if rapid.Bool().Draw(c.T, "empty") {
			to(r.Destination.Type, "")
		}
		put(400, nil)
	case "no-type":
		to(rapid.SampledFrom([]string{"", "File", "ftp", "s4"}).Draw(c.T, "type"), filepath.Join(w.S.Dir, "x.bin"))
		put(400, nil)
	case "file-missing":
		to("file", filepath.Join(w.S.Dir, "no-such-dir", "backup.bin"))
		put(201, &cb)
		failed(cb)
	case "closed":
		to("server", closedPort(c))
		put(400, nil)
	case "sick":
		d := newDest(c)
		d.health = rapid.SampledFrom([]int{500, 503, 404, 401}).Draw(c.T, "health")
		to("server", d.addr)
		put(400, nil)
		if len(d.sent) > 0 {
			c.Fatalf("an unhealthy destination was sent %q", d.sent)
		}
	case "early", "late", "cut":
		d := newDest(c)
		d.mode = kind
		to("server", d.addr)
		put(201, &cb)
		failed(cb)
	case "stalled":
		d := newDest(c)
		d.mode = kind
		c.Defer(func() { close(d.open) })
		to("server", d.addr)
		put(201, &cb)
		time.Sleep(time.Duration(rapid.IntRange(0, 20).Draw(c.T, "ms")) * time.Millisecond)
		var st resBackup
		w.want(200, Req{Method: "GET", Path: "/backup/" + cb.ID}, &st)
		if st.Done {
			c.Fatalf("backup is done before its destination has taken it: %+v", st)
		}
		w.want(204, Req{Method: "DELETE", Path: "/backup/" + cb.ID}, nil)
		failed(cb)
		// Cancelling again changes nothing.
		w.want(204, Req{Method: "DELETE", Path: "/backup/" + cb.ID}, nil)
	case "some-fail", "ok":
		d := newDest(c)
		pre, suf := "", ""
		if rapid.Bool().Draw(c.T, "pre") {
			pre = "p-"
			r.Destination.Prefix = &pre
		}
		if rapid.Bool().Draw(c.T, "suf") {
			suf = ".s"
			r.Destination.Suffix = &suf
		}
		bad := map[string]bool{}
		d.fails = map[string]string{}
		if kind == "some-fail" {
			for _, n := range selected {
				if w.Lists[n] != nil && rapid.Bool().Draw(c.T, "fails") {
					bad[n] = true
					d.fails[pre+n+suf] = "verif: failed"
				}
			}
		}
		to("server", d.addr)
		put(201, &cb)
		st := w.awaitAny(cb)
		d.mu.Lock()
		defer d.mu.Unlock()
		q := url.Values{}
		if len(d.sent) == 1 {
			u, err := url.Parse(d.sent[0][len("POST "):])
			if err == nil && u.Path == "/xlist/restore" {
				q = u.Query()
			}
		}
		if len(d.sent) != 1 || q.Get("list_id_prefix") != pre || q.Get("list_id_suffix") != suf || q.Get("keep") == "true" {
			c.Fatalf("the destination was sent %q, prefix %q, suffix %q", d.sent, pre, suf)
		}
		good := 0
		for _, n := range selected {
			if fine := w.Lists[n] != nil && !bad[n]; fine != (st.Errors[n] == "") {
				c.Fatalf("the destination failed %v, the status has errors %v", d.fails, st.Errors)
			} else if fine {
				good++
			}
		}
		if st.Lists != len(selected) || st.ListsDone != good || len(st.Errors) != len(selected)-good || st.Cancelled {
			c.Fatalf("the destination failed %v of %q, the status is %+v", d.fails, selected, st)
		}
		*backups = append(*backups, saved{data: d.data, lists: snap})
	case "s3-off":
		to("s3", "s3://"+bucket+"/x.bin")
		put(400, nil)
	case "s3", "s3-denied":
		obj := getS3()
		key := fmt.Sprintf("/dir/backup-%d.bin", rapid.IntRange(0, 2).Draw(c.T, "key"))
		to("s3", "s3://"+bucket+key)
		obj.mu.Lock()
		obj.deny = kind == "s3-denied"
		delete(obj.data, "/"+bucket+key)
		obj.mu.Unlock()
		put(201, &cb)
		if kind == "s3-denied" {
			failed(cb)
			return
		}
		st := w.await(cb)
		w.checkStatus(st, selected)
		obj.mu.Lock()
		defer obj.mu.Unlock()
		b := obj.data["/"+bucket+key]
		if b == nil || int64(len(b)) != st.Size {
			c.Fatalf("backup of %d bytes to S3 reported, %d were stored", st.Size, len(b))
		}
		*backups = append(*backups, saved{data: b, lists: snap})
	}
}

// hardRestore restores backups that cannot be read, or not completely.
func (w *W) hardRestore(b saved) {
	c := w.C
	data := b.data
	if data == nil {
		var err error
		data, err = ioutil.ReadFile(b.path)
		if err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
	}
	q := url.Values{}
	req := Req{Method: "POST", Path: "/xlist/restore", Query: q}
	keep := rapid.Bool().Draw(c.T, "keep")
	if keep {
		q.Set("keep", "true")
	}
	kinds := []string{"cut", "cut", "cut-source", "cut-file", "flip", "garbage", "no-file", "closed", "status", "no-scheme"}
	if w.S.Conf.S3 {
		kinds = append(kinds, "no-object")
	} else {
		kinds = append(kinds, "s3-off")
	}
	kind := rapid.SampledFrom(kinds).Draw(c.T, "kind")
	c.Class("restore " + kind)
	cut := data
	if len(data) > 0 {
		cut = data[:rapid.IntRange(0, len(data)-1).Draw(c.T, "cut")]
	}
	may := false // nothing of the backup could be read
	src := func(f http.HandlerFunc) {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
		srv := &http.Server{Handler: f}
		go func() { _ = srv.Serve(ln) }()
		c.Defer(func() { srv.Close() })
		q.Set("src", "http://"+ln.Addr().String()+"/backup")
	}
	switch kind {
	case "cut":
		req.Raw, may = append([]byte{}, cut...), true
	case "cut-file":
		p := filepath.Join(w.S.Dir, "cut.bin")
		if err := ioutil.WriteFile(p, cut, 0644); err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
		q.Set("src_file", p)
		may = true
	case "cut-source":
		may = true
		declare := rapid.Bool().Draw(c.T, "declare")
		src(func(rw http.ResponseWriter, _ *http.Request) {
			if declare {
				rw.Header().Set("Content-Length", fmt.Sprint(len(data)))
			}
			_, _ = rw.Write(cut)
			if f, ok := rw.(http.Flusher); ok {
				f.Flush()
			}
			panic(http.ErrAbortHandler)
		})
	case "flip":
		req.Raw, may = append([]byte{}, data...), true
		req.Raw[rapid.IntRange(0, len(data)-1).Draw(c.T, "at")] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit")))
	case "garbage":
		req.Raw = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "garbage")
		req.Raw = append([]byte("not a backup"), req.Raw...)
	case "no-file":
		q.Set("src_file", filepath.Join(w.S.Dir, "no-such-file"))
	case "closed":
		q.Set("src", "http://"+closedPort(c)+"/backup")
	case "status":
		st := rapid.SampledFrom([]int{401, 404, 500, 503}).Draw(c.T, "status")
		src(func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(st); _, _ = rw.Write(data) })
	case "no-scheme":
		q.Set("src", rapid.SampledFrom([]string{"nonsense", "ftp://127.0.0.1/x", "http://", "://"}).Draw(c.T, "url"))
	case "no-object":
		obj := getS3()
		obj.mu.Lock()
		obj.deny = rapid.Bool().Draw(c.T, "deny")
		obj.mu.Unlock()
		q.Set("src", "s3://"+bucket+"/no/such/object")
	case "s3-off":
		q.Set("src", "s3://"+bucket+"/x.bin")
	}
	res := w.send(req)
	if res.Status/100 != 4 && (kind != "flip" || res.Status != 200) {
		c.Fatalf("restore of a backup that cannot be read (%s): status %v, want 4xx", kind, res)
	}
	if !may {
		return
	}
	// Lists of the backup have their earlier or the restored content, all others are untouched.
	var g resRestore
	if res.Status == 200 {
		res.Decode(c, &g)
	}
	for n, l := range b.lists {
		old := w.Lists[n]
		if old != nil && keep {
			continue
		}
		if res.Status == 200 && g.Errors[n] == "" {
			w.Lists[n] = l.clone(n)
			continue
		}
		if w.is(n, l) {
			w.Lists[n] = l.clone(n)
		}
	}
}

// is tells whether the list with the name is there with the content.
func (w *W) is(name string, l *L) bool {
	ct := w.CT
	w.CT = tJSON
	defer func() { w.CT = ct }()
	r := w.send(Req{Method: "GET", Path: "/lists/" + name})
	if r.Status == 404 {
		return false
	}
	if r.Status != 200 {
		w.C.Fatalf("reading list %s: %v", name, r)
	}
	var def resList
	r.Decode(w.C, &def)
	if def.Set != l.Set || def.SplitSize != l.Split || def.MergeSize != l.Merge || def.LoadIndex != l.LoadIndex || len(def.Metadata) != len(l.Meta) || def.Elements == nil || *def.Elements != len(l.Mo) {
		return false
	}
	for k, v := range l.Meta {
		if def.Metadata[k] != v {
			return false
		}
	}
	s := l.Mo.Sorted()
	if len(s) == 0 {
		return true
	}
	var es []resElem
	w.want(200, Req{Method: "GET", Path: "/lists/" + name + "/range", Query: url.Values{"from_top": {"0"}, "limit": {"1000"}}}, &es)
	if len(es) != len(s) {
		return false
	}
	for i, e := range es {
		if !sameElem(e, s[i]) {
			return false
		}
	}
	return true
}

func sameElem(g resElem, e m.Elem) bool {
	p := []byte(g.Payload)
	if string(p) == "null" {
		p = nil
	}
	return g.ID == uint64(e.ID) && g.Score == e.Score && g.TieBreaker == e.TieBreaker && g.UpdatedAt.Unix() == int64(e.Updated) && sameJSON(p, e.Payload)
}

// abandonOp sends requests and does not wait for their answer. None of them may have an effect.
func (w *W) abandonOp() {
	c := w.C
	n := rapid.IntRange(1, 3).Draw(c.T, "abandoned")
	for i := 0; i < n; i++ {
		body := []byte("{}")
		path, method := "/xlist/verify", "PUT"
		short := false
		switch rapid.SampledFrom([]string{"verify", "download", "reindex", "short create", "short put", "short restore"}).Draw(c.T, "abandon") {
		case "download":
			path, body = "/xlist/backup", []byte(`{"destination":{"type":"download"},"lists":{}}`)
		case "reindex":
			path = "/xlist/reindex"
		case "short create":
			path, method, short = "/lists", "POST", true
			body = []byte(`{"id":"never","set":"set-a","split_size":20,"merge_size":10}`)
		case "short put":
			path, short = "/xlist/elements", true
			body = []byte(`{"lists":["aa","ab"],"payload":[{"id":1,"score":5}]}`)
			method = "PUT"
		case "short restore":
			path, method, short = "/xlist/restore", "POST", true
			body = []byte("\x28\xb5\x2f\xfd")
		}
		c.Logf("%s %s %s, abandoned", method, path, body)
		size := len(body)
		if short {
			body = body[:rapid.IntRange(0, len(body)-1).Draw(c.T, "sent")]
		}
		cn, err := net.DialTimeout("tcp", w.S.Addr, 20*time.Second)
		if err != nil {
			c.Fatalf("connecting: %v", err)
		}
		_, _ = fmt.Fprintf(cn, "%s %s HTTP/1.1\r\nHost: %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", method, path, w.S.Addr, size, body)
		if ms := rapid.IntRange(-1, 3).Draw(c.T, "ms"); ms >= 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
		if tc, ok := cn.(*net.TCPConn); ok && rapid.Bool().Draw(c.T, "reset") {
			_ = tc.SetLinger(0)
		}
		cn.Close()
	}
	c.Class("abandoned")
}

// healthOp asks for the state of the server.
func (w *W) healthOp() {
	w.want(200, Req{Method: "GET", Path: "/health"}, nil)
}
