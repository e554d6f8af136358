package bk

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/backup/file"
	"github.com/Vivino/rankdb/backup/reader"
	"github.com/Vivino/rankdb/backup/s3"
	"github.com/Vivino/rankdb/backup/server"
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/klauspost/compress/zstd"
	"pgregory.net/rapid"
	"verif/h"
	"verif/m"
)

var errSaver = errors.New("injected saver failure")

// memSaver collects a backup in memory.
type memSaver struct {
	mu       sync.Mutex
	buf      bytes.Buffer
	closed   bool
	saveErr  error
	failAt   int // fail when more than failAt bytes are written; <0: never
	closeErr error
	slow     bool
	hook     func(total int)
}

func (s *memSaver) Save(ctx context.Context) (io.WriteCloser, error) {
	if s.saveErr != nil {
		return nil, s.saveErr
	}
	return s, nil
}

func (s *memSaver) Write(p []byte) (int, error) {
	if s.slow {
		time.Sleep(200 * time.Microsecond)
	}
	s.mu.Lock()
	if s.failAt >= 0 && s.buf.Len()+len(p) > s.failAt {
		n := s.failAt - s.buf.Len()
		s.buf.Write(p[:n])
		s.mu.Unlock()
		return n, errSaver
	}
	s.buf.Write(p)
	n := s.buf.Len()
	s.mu.Unlock()
	if s.hook != nil {
		s.hook(n)
	}
	return len(p), nil
}

func (s *memSaver) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed = true
	return s.closeErr
}

func attrs(l *rankdb.List) string {
	var ks []string
	for k, v := range l.Metadata {
		ks = append(ks, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprintf("set=%s meta=%s merge=%d split=%d loadindex=%v", l.Set, strings.Join(ks, ","), l.MergeSize, l.SplitSize, l.LoadIndex)
}

type backedUp struct {
	mo    m.Model
	attrs string
	e     *m.Env
}

func TestC13(t *testing.T) {
	h.Run(t, "databases of 1-4 lists after generated histories are backed up (all, some, unknown or repeated list IDs; to memory, a file, a pipe, an S3 stand-in or a destination server, which may fail some or all lists; with failing storage reads, failing, short or slow destinations, delayed errors and cancellation at generated points); the job status is compared with what happened, and the data, intact or damaged (truncated, flipped, inserted, concatenated), is restored into the same or another database with or without replacing, prefix, suffix, cache and failing storage; restored lists are compared completely with the model at the time of the backup, all others must be untouched and storage accounted for; non-trivial: a list with several partitions was backed up and restored", func(c *h.Case) {
		src := m.NewWorld(c, 30)
		for n := rapid.IntRange(1, 4).Draw(c.T, "lists"); n > 0; n-- {
			src.Create(30, nil)
		}
		for n := rapid.IntRange(0, 6).Draw(c.T, "ops"); n > 0; n-- {
			e := src.Pick()
			c.Logf("on %s:", e.ID)
			e.RandomWrite(20)
			if rapid.IntRange(0, 3).Draw(c.T, "rel") == 0 {
				e.Release()
			}
		}
		multi := false
		var req rankdb.ListIDs
		for _, id := range src.IDs() {
			if rapid.IntRange(0, 3).Draw(c.T, "include") > 0 {
				req = append(req, id)
			}
			if s, _ := src.Envs[id].Segments(); len(s.Segments) > 1 {
				multi = true
			}
		}
		if rapid.IntRange(0, 3).Draw(c.T, "unknown") == 0 {
			req = append(req, "no-such-list")
		}
		if len(req) > 1 {
			req = rapid.Permutation(req).Draw(c.T, "order")
		}
		want := map[string]backedUp{}
		for _, id := range src.IDs() {
			e := src.Envs[id]
			want[string(id)] = backedUp{mo: e.Mo.Clone(), attrs: attrs(e.List), e: e}
		}

		// --- Backup ---
		var data []byte
		saver := &memSaver{failAt: -1}
		var dst backup.Saver = saver
		kind := rapid.SampledFrom([]string{"mem", "mem", "mem", "file", "pipe", "server", "server", "s3"}).Draw(c.T, "dst")
		mode := ""
		var collect func()
		dstFailed := map[string]bool{}
		var cleanup []func()
		c.Defer(func() {
			for _, f := range cleanup {
				f()
			}
		})
		switch kind {
		case "mem":
			mode = rapid.SampledFrom([]string{"", "", "", "", "save-error", "write-error", "close-error", "slow"}).Draw(c.T, "mode")
			switch mode {
			case "save-error":
				saver.saveErr = errSaver
			case "write-error":
				saver.failAt = rapid.IntRange(0, 3000).Draw(c.T, "failat")
			case "close-error":
				saver.closeErr = errSaver
			case "slow":
				saver.slow = true
			}
			collect = func() { data = append([]byte(nil), saver.buf.Bytes()...) }
		case "file":
			dir, err := ioutil.TempDir("", "verif-backup")
			if err != nil {
				c.Fatalf("VERIF-ERROR: %v", err)
			}
			cleanup = append(cleanup, func() { os.RemoveAll(dir) })
			fn := filepath.Join(dir, "backup.bin")
			switch mode = rapid.SampledFrom([]string{"", "", "existing", "save-error"}).Draw(c.T, "mode"); mode {
			case "existing":
				if err := ioutil.WriteFile(fn, bytes.Repeat([]byte("old backup"), 5000), 0600); err != nil {
					c.Fatalf("VERIF-ERROR: %v", err)
				}
			case "save-error":
				fn = filepath.Join(dir, "missing", "backup.bin")
			}
			dst = file.New(fn)
			collect = func() { data, _ = ioutil.ReadFile(fn) }
		case "pipe":
			rd := reader.NewReader()
			dst = rd
			mode = rapid.SampledFrom([]string{"", "", "write-error"}).Draw(c.T, "mode")
			limit := int64(1 << 30)
			if mode == "write-error" {
				limit = int64(rapid.IntRange(0, 2000).Draw(c.T, "failat"))
			}
			var wg sync.WaitGroup
			wg.Add(1)
			var got bytes.Buffer
			go func() {
				defer wg.Done()
				_, _ = io.Copy(&got, io.LimitReader(rd.Output(), limit))
				rd.Output().Close()
			}()
			collect = func() { wg.Wait(); data = got.Bytes() }
		case "server":
			c.IgnoreIO = true
			mode = rapid.SampledFrom([]string{"", "", "refused", "refused-early", "aborted", "some-fail", "some-fail"}).Draw(c.T, "mode")
			var got bytes.Buffer
			var mu sync.Mutex
			query := ""
			pre, suf := "", ""
			if rapid.Bool().Draw(c.T, "dstprefix") {
				pre = rapid.SampledFrom([]string{"p-", "l"}).Draw(c.T, "pre")
			}
			if rapid.Bool().Draw(c.T, "dstsuffix") {
				suf = rapid.SampledFrom([]string{".s", "1"}).Draw(c.T, "suf")
			}
			answer := map[string]string{}
			if mode == "some-fail" {
				for _, id := range src.IDs() {
					if hasID(req, id) && rapid.Bool().Draw(c.T, "dstfails") {
						dstFailed[string(id)] = true
						answer[pre+string(id)+suf] = "verif: not restored"
					}
				}
			}
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if r.URL.Path == "/health" {
					w.WriteHeader(200)
					return
				}
				mu.Lock()
				defer mu.Unlock()
				query = r.URL.Path + "?" + r.URL.RawQuery
				switch mode {
				case "refused-early":
					w.WriteHeader(400)
					return
				case "aborted":
					_, _ = io.CopyN(&got, r.Body, 10)
					panic(http.ErrAbortHandler)
				}
				_, _ = io.Copy(&got, r.Body)
				if mode == "refused" {
					w.WriteHeader(500)
					return
				}
				w.Header().Set("Content-Type", "application/vnd.rankdb.restoreresult+json")
				_ = json.NewEncoder(w).Encode(map[string]interface{}{"restored": len(req) - len(answer), "skipped": 0, "errors": answer})
			}))
			cleanup = append(cleanup, srv.Close)
			rdb, err := server.NewRankDB(context.Background(), strings.TrimPrefix(srv.URL, "http://"))
			if err != nil {
				c.Fatalf("NewRankDB: %v", err)
			}
			if pre != "" || rapid.Bool().Draw(c.T, "empty") {
				rdb.ListIDPrefix = &pre
			}
			if suf != "" {
				rdb.ListIDSuffix = &suf
			}
			dst = rdb
			collect = func() {
				mu.Lock()
				data = append([]byte(nil), got.Bytes()...)
				mu.Unlock()
				u, err := url.Parse(query)
				if query != "" && (err != nil || u.Path != "/xlist/restore" || u.Query().Get("list_id_prefix") != pre || u.Query().Get("list_id_suffix") != suf || u.Query().Get("keep") == "true") {
					c.Fatalf("destination server was sent %q, prefix should be %q, suffix %q", query, pre, suf)
				}
			}
		}
		var errCh chan error
		delayed := ""
		var objects *fakeS3
		if kind == "s3" {
			c.IgnoreIO = true
			mode = rapid.SampledFrom([]string{"", "", "", "refused", "aborted"}).Draw(c.T, "mode")
			objects = newFakeS3(mode)
			cleanup = append(cleanup, objects.srv.Close)
			up := s3.New("some/key.bin", "bucket", objects.session())
			dst = up
			errCh = up.ResultErr
			collect = func() {
				objects.mu.Lock()
				defer objects.mu.Unlock()
				if len(objects.data) > 1 || mode == "" && len(objects.data) == 1 && objects.data["/bucket/some/key.bin"] == nil {
					c.Fatalf("objects stored in S3: %d, none as asked", len(objects.data))
				}
				data = append([]byte(nil), objects.data["/bucket/some/key.bin"]...)
			}
		}
		ech := rapid.IntRange(0, 5).Draw(c.T, "errch")
		if kind == "s3" {
			ech = 5
		}
		switch ech {
		case 0:
			errCh = make(chan error, 1)
			errCh <- nil
		case 1:
			errCh = make(chan error, 1)
			errCh <- errSaver
			delayed = "error"
		}
		readFault := rapid.IntRange(0, 5).Draw(c.T, "readfault")
		cancelAt := rapid.IntRange(0, 5).Draw(c.T, "cancel")
		c.Logf("backup %q to %s (%s) delayed=%q readfault=%v cancel=%v", req, kind, mode, delayed, readFault == 0, cancelAt == 0)
		var fmu sync.Mutex
		struck := map[string]bool{}
		if readFault == 0 {
			for _, id := range src.IDs() {
				src.Envs[id].Release()
			}
			if mc, ok := src.Cache.(*m.Cache); ok && rapid.Bool().Draw(c.T, "clear") {
				mc.Clear()
			}
			at := rapid.IntRange(1, 8).Draw(c.T, "at")
			persist := rapid.Bool().Draw(c.T, "persistent")
			n := 0
			src.Mem.SetFault(func(op, set, key string) error {
				fmu.Lock()
				defer fmu.Unlock()
				if op != "get" {
					return nil
				}
				n++
				if n == at || persist && n > at {
					struck[key] = true
					return m.ErrInjected
				}
				return nil
			})
		}
		ctx, cancel := context.WithCancel(m.Ctx)
		defer cancel()
		breq := backup.Request{DB: src.Mgr, Dst: dst, Lists: append(rankdb.ListIDs{}, req...)}
		if errCh != nil {
			breq.ErrCh = errCh
		}
		var id backup.ID
		cancelled := false
		if cancelAt == 0 {
			at := rapid.IntRange(0, 10).Draw(c.T, "cancelops")
			cancelled = true
			n := 0
			how := rapid.Bool().Draw(c.T, "cancelhow")
			src.Mem.SetBefore(func(op, set, key string) {
				fmu.Lock()
				n++
				hit := n == at
				fmu.Unlock()
				if hit && how {
					cancel()
				} else if hit {
					id.Cancel()
				}
			})
			if at == 0 {
				cancel()
			}
		}
		var st *backup.Status
		c.Do("backup", func() {
			i := breq.Start(ctx)
			fmu.Lock()
			id = i
			fmu.Unlock()
			end := time.Now().Add(90 * time.Second)
			for {
				st = id.Status()
				if st == nil {
					c.Fatalf("running backup has no status")
				}
				if st.Done {
					break
				}
				if time.Now().After(end) {
					c.Fatalf("backup is not done after 90 s: %+v", *st)
				}
				time.Sleep(100 * time.Microsecond)
			}
		})
		src.Mem.SetFault(nil)
		src.Mem.SetBefore(nil)
		c.Do("collect", collect)
		c.Logf("status: success=%q errors=%q cancelled=%v", st.Success, st.Errors, st.Cancelled)
		c.Class("dst-" + kind + "-" + mode)

		// --- Status ---
		good := map[string]bool{}
		for _, s := range st.Success {
			if good[s] {
				c.Fatalf("list %q is reported twice: %q", s, st.Success)
			}
			good[s] = true
			if _, ok := st.Errors[s]; ok {
				c.Fatalf("list %q is reported as both backed up and failed: %v", s, st.Errors)
			}
			ok := false
			for _, r := range req {
				ok = ok || string(r) == s
			}
			if !ok {
				c.Fatalf("list %q was not asked for, but is reported: %q", s, st.Success)
			}
		}
		for _, r := range req {
			if _, bad := st.Errors[string(r)]; !bad && !good[string(r)] && !st.Cancelled {
				c.Fatalf("list %q is not mentioned in the status: success %q errors %v", r, st.Success, st.Errors)
			}
		}
		if st.Cancelled && !cancelled {
			c.Fatalf("backup reports being cancelled")
		}
		if st.Lists != len(req) || st.ListsDone != len(st.Success) {
			c.Fatalf("status counts %d lists, %d done; %d were asked for, %d succeeded", st.Lists, st.ListsDone, len(req), len(st.Success))
		}
		if st.Finished == nil || st.Finished.Before(st.Started) {
			c.Fatalf("status times: started %v finished %v", st.Started, st.Finished)
		}
		fails := delayed != "" || mode == "save-error" || mode == "close-error" || strings.HasPrefix(mode, "refused") || mode == "aborted"
		if mode == "write-error" && kind == "mem" {
			fails = fails || len(data) == saver.failAt && !complete(data)
		}
		if kind == "pipe" && mode == "write-error" {
			fails = fails || !st.Cancelled && !complete(data)
		}
		if fails && (len(st.Success) > 0 || len(st.Errors) == 0 && !st.Cancelled) {
			c.Fatalf("backup could not be stored, but status is success=%q errors=%v", st.Success, st.Errors)
		}
		if kind == "server" && mode == "some-fail" && !st.Cancelled && !cancelled {
			for id := range dstFailed {
				if _, bad := st.Errors[id]; !bad || good[id] {
					c.Fatalf("the destination server could not restore %q, but the status is success=%q errors=%v", id, st.Success, st.Errors)
				}
			}
		}
		if !fails && !st.Cancelled {
			for _, r := range req {
				_, exists := want[string(r)]
				_, bad := st.Errors[string(r)]
				if !exists && !bad {
					c.Fatalf("list %q does not exist, but is reported as stored", r)
				}
				if exists && bad && !dstFailed[string(r)] && len(struck) == 0 && !cancelled {
					c.Fatalf("list %q could be stored, but status has error %v", r, st.Errors)
				}
			}
			if !cancelled && len(st.Errors) > 0 && len(struck) == 0 && len(st.Errors) != btoi(hasID(req, "no-such-list"))+len(dstFailed) {
				c.Fatalf("unexpected errors: %v", st.Errors)
			}
			if len(struck) == 0 && !cancelled && st.Size != int64(len(data)) {
				c.Fatalf("status reports %d bytes, %d were stored", st.Size, len(data))
			}
		}
		// The source is never changed by a backup.
		src.All()
		if len(struck) == 0 {
			src.CheckStore()
		}
		if len(dstFailed) > 0 {
			// They are in what was sent.
			good = nil
		}
		if fails || st.Cancelled || cancelled {
			c.Class("backup-failed")
			// What was stored may be incomplete; restoring it must not crash and never give wrong content.
			good = nil
		}

		// --- Restore ---
		w := src
		if rapid.IntRange(0, 3).Draw(c.T, "other") > 0 {
			w = m.NewWorld(c, 30)
			for n := rapid.IntRange(0, 2).Draw(c.T, "dstlists"); n > 0; n-- {
				w.Create(15, nil)
			}
		} else {
			c.Class("same-db")
		}
		ri := backup.RestoreInfo{DB: w.Mgr, Replace: rapid.Bool().Draw(c.T, "replace"), Cache: w.Cache}
		if rapid.Bool().Draw(c.T, "prefix") {
			ri.ListIDPrefix = rapid.SampledFrom([]string{"p-", "x", "list-"}).Draw(c.T, "p")
		}
		if rapid.Bool().Draw(c.T, "suffix") {
			ri.ListIDSuffix = rapid.SampledFrom([]string{"-s", "0", "1"}).Draw(c.T, "s")
		}
		damaged, deep := false, false
		if rapid.IntRange(0, 2).Draw(c.T, "damage") == 0 && len(data) > 0 {
			old := string(data)
			switch rapid.IntRange(0, 6).Draw(c.T, "how") {
			case 5, 6:
				// Damage with a valid checksum, as made by something that writes backups wrongly.
				if plain, err := decompress(data); err == nil && len(plain) > 0 {
					deep = true
					switch rapid.IntRange(0, 3).Draw(c.T, "deep") {
					case 0:
						plain = plain[:rapid.IntRange(0, len(plain)-1).Draw(c.T, "len")]
					case 1:
						plain[rapid.IntRange(0, len(plain)-1).Draw(c.T, "at")] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0xff, 0xc0, 0xc2, 0xc3, 0xc6, 0xdd, 0xdf, 0xcf, 0xd3, 0xa0}).Draw(c.T, "byte")
					case 2:
						// The first bytes hold the settings and counts.
						n := 80
						if n > len(plain) {
							n = len(plain)
						}
						plain[rapid.IntRange(0, n-1).Draw(c.T, "at")] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit")))
					case 3:
						at := rapid.IntRange(0, len(plain)-1).Draw(c.T, "at")
						n := rapid.IntRange(1, 9).Draw(c.T, "n")
						if at+n > len(plain) {
							n = len(plain) - at
						}
						plain = append(append(append([]byte{}, plain[:at]...), rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(c.T, "ins")...), plain[at+n:]...)
					}
					data = compress(c, plain)
				}
			case 4:
				// The byte declaring the window of the compressed frame.
				if len(data) > 5 {
					data[5] = byte(rapid.IntRange(0, 255).Draw(c.T, "window"))
				}
			case 0:
				data = data[:rapid.IntRange(0, len(data)-1).Draw(c.T, "len")]
			case 1:
				for n := rapid.IntRange(1, 3).Draw(c.T, "n"); n > 0; n-- {
					data[rapid.IntRange(0, len(data)-1).Draw(c.T, "at")] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit")))
				}
			case 2:
				at := rapid.IntRange(0, len(data)).Draw(c.T, "at")
				data = append(append(append([]byte{}, data[:at]...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(c.T, "ins")...), data[at:]...)
			case 3:
				at := rapid.IntRange(0, len(data)-1).Draw(c.T, "at")
				n := rapid.IntRange(1, 8).Draw(c.T, "n")
				if at+n > len(data) {
					n = len(data) - at
				}
				data = append(append([]byte{}, data[:at]...), data[at+n:]...)
			}
			damaged = string(data) != old
			good = nil
		}
		before := map[string]backedUp{}
		for _, id := range w.IDs() {
			e := w.Envs[id]
			before[string(id)] = backedUp{mo: e.Mo.Clone(), attrs: attrs(e.List), e: e}
		}
		faulty := rapid.IntRange(0, 3).Draw(c.T, "dstfault") == 0
		c.Logf("restore %d bytes, damaged=%v, same=%v replace=%v prefix=%q suffix=%q faulty=%v", len(data), damaged, w == src, ri.Replace, ri.ListIDPrefix, ri.ListIDSuffix, faulty)
		gone := false
		ri.Source = backup.WrapReader{ReadCloser: ioutil.NopCloser(bytes.NewReader(data))}
		switch rapid.IntRange(0, 9).Draw(c.T, "http") {
		case 0:
			c.IgnoreIO = true
			objects := newFakeS3("")
			cleanup = append(cleanup, objects.srv.Close)
			objects.data["/bucket/a/b.bin"] = data
			ri.Source = s3.New("a/b.bin", "bucket", objects.session())
			if rapid.IntRange(0, 4).Draw(c.T, "missing") == 0 {
				good = nil
				gone = true
				ri.Source = s3.New("a/c.bin", "bucket", objects.session())
			}
		case 1, 2:
			c.IgnoreIO = true
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { _, _ = w.Write(data) }))
			cleanup = append(cleanup, srv.Close)
			ri.Source = backup.HTTPLoader{URL: srv.URL, Client: srv.Client()}
			if rapid.IntRange(0, 4).Draw(c.T, "missing") == 0 {
				good = nil
				gone = true
				status := rapid.SampledFrom([]int{300, 401, 404, 500}).Draw(c.T, "status")
				srv.Config.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(status); _, _ = w.Write(data) })
			}
		}
		strikes := 0
		if faulty {
			at := rapid.IntRange(1, 8).Draw(c.T, "at")
			op0 := rapid.SampledFrom([]string{"set", "set", "del", "get"}).Draw(c.T, "fop")
			persist := rapid.Bool().Draw(c.T, "persistent")
			after := rapid.IntRange(0, 2).Draw(c.T, "after") == 0
			n := 0
			w.Mem.SetFault(func(op, set, key string) error {
				if op != op0 {
					return nil
				}
				n++
				if n == at || persist && n > at {
					strikes++
					if after {
						return m.ErrAfter
					}
					return m.ErrInjected
				}
				return nil
			})
		}
		var res *backup.RestoreResult
		var err error
		var ms0, ms1 runtime.MemStats
		runtime.ReadMemStats(&ms0)
		c.Do("Restore", func() { res, err = ri.Restore(m.Ctx) })
		runtime.ReadMemStats(&ms1)
		if a := ms1.TotalAlloc - ms0.TotalAlloc; a > 256<<20 {
			c.Fatalf("Restore of %d bytes allocated %d bytes", len(data), a)
		}
		w.Mem.SetFault(nil)
		c.Logf("restored: %+v, %v (faults: %d)", res, err, strikes)
		if err != nil {
			c.Class("restore-error")
		} else {
			c.Class("restored")
		}
		if err == nil && res == nil {
			c.Fatalf("Restore returned nothing")
		}
		if gone && err == nil {
			c.Fatalf("the backup does not exist, but restoring it reports %+v", *res)
		}
		if good != nil && err != nil {
			c.Fatalf("restoring an intact backup failed: %v", err)
		}

		name := func(id string) string { return ri.ListIDPrefix + id + ri.ListIDSuffix }
		now := map[string]*rankdb.List{}
		for _, id := range w.Mgr.Lists.All() {
			l, ok := w.Mgr.Lists.ByID(id)
			if !ok || l.ID != id {
				c.Fatalf("catalogue entry %q is %v", id, l)
			}
			now[string(id)] = l
		}
		restored := 0
		// Lists that existed before.
		for id, b := range before {
			l, ok := now[id]
			target := false // could it have been the target of a restored list?
			for r := range want {
				target = target || name(r) == id
			}
			mayReplace := ri.Replace && (target || err != nil || deep)
			if !ok {
				if mayReplace && (err != nil || deep) {
					delete(w.Envs, rankdb.ListID(id))
					continue
				}
				c.Fatalf("list %q disappeared", id)
			}
			if l == b.e.List {
				continue // compared below
			}
			if !mayReplace {
				c.Fatalf("list %q was replaced", id)
			}
			delete(w.Envs, rankdb.ListID(id))
		}
		for id, l := range now {
			if b, ok := before[id]; ok && b.e.List == l {
				if attrs(l) != b.attrs {
					c.Fatalf("attributes of list %q changed from %s to %s", id, b.attrs, attrs(l))
				}
				continue
			}
			restored++
			var from *backedUp
			for r, b := range want {
				if name(r) == id {
					b := b
					from = &b
				}
			}
			if err != nil || deep {
				// Not reported as restored; it must not crash anything.
				c.Do("use of a list of a failed restore", func() {
					_ = l.VerifyElements(m.Ctx, w.Mem)
					_, _ = l.GetRankTop(m.Ctx, w.Mem, 0, 10)
					_ = w.Mgr.DeleteList(m.Ctx, l.ID)
				})
				continue
			}
			if from == nil {
				c.Fatalf("list %q was restored, but not backed up", id)
			}
			if _, bad := res.Failed[id]; bad {
				c.Fatalf("list %q is reported as failed, but was restored", id)
			}
			if attrs(l) != from.attrs {
				c.Fatalf("attributes of list %q are %s, want %s", id, attrs(l), from.attrs)
			}
			e := &m.Env{C: c, P: w.P, Mem: w.Mem, Bs: w.Mem, Cache: w.Cache, Mo: from.mo.Clone(), Set: l.Set, ID: l.ID, Merge: l.MergeSize, Split: l.SplitSize, List: l}
			w.Envs[l.ID] = e
			e.All()
			e.LenStats()
			e.Verify()
			if multi {
				c.Nontrivial()
			}
		}
		if err == nil {
			if res.Restored != restored && (!deep || res.Restored < restored) {
				c.Fatalf("Restore reports %d restored lists, %d were", res.Restored, restored)
			}
			if good != nil {
				skipped, failed := 0, 0
				for g := range good {
					id := name(g)
					_, exists := before[id]
					_, bad := res.Failed[id]
					switch {
					case exists && !ri.Replace:
						skipped++
					case bad:
						failed++
						if strikes == 0 {
							c.Fatalf("list %q could be restored, but failed: %v", id, res.Failed)
						}
						if exists && now[id] != before[id].e.List {
							c.Fatalf("the existing list %q was replaced though restoring it failed", id)
						}
					case exists && now[id] == before[id].e.List:
						c.Fatalf("list %q was not replaced", id)
					case now[id] == nil:
						c.Fatalf("list %q was not restored: %+v", id, *res)
					}
				}
				if res.Skipped != skipped || len(res.Failed) != failed || res.Restored != len(good)-skipped-failed {
					c.Fatalf("Restore reports %+v; of %d lists %d existed, %d failed", *res, len(good), skipped, failed)
				}
			}
		}
		w.All()
		if strikes == 0 && err == nil && !deep && (w != src || len(struck) == 0) {
			w.CheckStore()
		}
		if err == nil && rapid.Bool().Draw(c.T, "reopen") {
			w.Reopen()
			w.All()
			for _, id := range w.IDs() {
				w.Envs[id].Verify()
			}
			for _, id := range w.IDs() {
				e := w.Envs[id]
				c.Logf("on %s:", id)
				e.RandomWrite(10)
				e.All()
			}
		}
	})
}

// complete tells whether the stream ends with an end mark.
func complete(data []byte) bool {
	ri := backup.RestoreInfo{Source: backup.WrapReader{ReadCloser: ioutil.NopCloser(bytes.NewReader(data))}}
	mgr, err := rankdb.NewManager(m.NewStore(), "x")
	if err != nil {
		return false
	}
	_ = mgr.NewLists(nil)
	ri.DB = mgr
	_, err = ri.Restore(m.Ctx)
	return err == nil
}

func keys(mp map[string]string) []string {
	r := []string{}
	for k := range mp {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func hasID(l rankdb.ListIDs, id rankdb.ListID) bool {
	for _, x := range l {
		if x == id {
			return true
		}
	}
	return false
}

// fakeS3 stores objects by PUT and GET of /bucket/key.
type fakeS3 struct {
	srv  *httptest.Server
	mu   sync.Mutex
	data map[string][]byte
}

func newFakeS3(mode string) *fakeS3 {
	f := &fakeS3{data: map[string][]byte{}}
	f.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := ioutil.ReadAll(r.Body)
		f.mu.Lock()
		defer f.mu.Unlock()
		if err != nil || r.URL.RawQuery != "" {
			w.WriteHeader(400)
			return
		}
		switch r.Method {
		case "PUT":
			switch mode {
			case "refused":
				w.WriteHeader(403)
				return
			case "aborted":
				panic(http.ErrAbortHandler)
			}
			f.data[r.URL.Path] = b
		case "GET":
			b, ok := f.data[r.URL.Path]
			if !ok {
				w.WriteHeader(404)
				return
			}
			_, _ = w.Write(b)
		}
	}))
	return f
}

// session returns credentials for the server.
func (f *fakeS3) session() *session.Session {
	return session.Must(session.NewSession(aws.NewConfig().WithEndpoint(f.srv.URL).WithS3ForcePathStyle(true).WithRegion("us-east-1").WithMaxRetries(1).WithCredentials(credentials.NewStaticCredentials("a", "b", ""))))
}

// decompress returns the content of a backup.
func decompress(b []byte) ([]byte, error) {
	r, err := zstd.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return ioutil.ReadAll(r)
}

func compress(c *h.Case, b []byte) []byte {
	var buf bytes.Buffer
	w, err := zstd.NewWriter(&buf)
	if err == nil {
		_, err = w.Write(b)
	}
	if err == nil {
		err = w.Close()
	}
	if err != nil {
		c.Fatalf("VERIF-ERROR: %v", err)
	}
	return buf.Bytes()
}
