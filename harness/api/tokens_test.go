package api

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/dgrijalva/jwt-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

const secret = "S3CR3T-MARK"

var (
	keysOnce sync.Once
	keys     [3]*rsa.PrivateKey // two trusted, one not
	pubPEM   [3][]byte
)

func initKeys() {
	keysOnce.Do(func() {
		for i := range keys {
			k, err := rsa.GenerateKey(rand.Reader, 2048)
			if err != nil {
				panic("VERIF-ERROR: " + err.Error())
			}
			der, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
			if err != nil {
				panic("VERIF-ERROR: " + err.Error())
			}
			keys[i] = k
			pubPEM[i] = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
		}
	})
}

func prepJWT(dir string) error {
	initKeys()
	write := func(name string, b []byte) error {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		return ioutil.WriteFile(p, b, 0644)
	}
	for i := 0; i < 2; i++ {
		if err := write(fmt.Sprintf("keys/k%d.pub", i), pubPEM[i]); err != nil {
			return err
		}
	}
	// A key of the wrong name is not trusted.
	if err := write("keys/k2.pem", pubPEM[2]); err != nil {
		return err
	}
	for _, n := range []string{"secret.txt", "api/secret.txt", "api/public/secret.txt", "api/public/swagger2/secret.txt", "keys/secret.txt"} {
		if err := write(n, []byte(secret)); err != nil {
			return err
		}
	}
	if err := write("api/public/swagger/index.html", []byte("INDEX")); err != nil {
		return err
	}
	if err := write("api/public/swagger/sub/page.html", []byte("PAGE")); err != nil {
		return err
	}
	return write("api/swagger/swagger.json", []byte("{}"))
}

var confJWT = Conf{Name: "jwt", Storage: "Memory", Cache: 100, CacheType: "ARC", JwtDir: "@DIR@/keys", Prep: prepJWT}

// tok is a generated authorization header with what it stands for.
type tok struct {
	header   string
	has      bool
	valid    bool
	scopes   map[string]bool
	lists    []string // nil: not limited
	elems    []uint64
	limLists bool
	limElems bool
	odd      bool // a limit in a form that may be refused altogether
}

func sign(c *h.Case, method jwt.SigningMethod, claims jwt.MapClaims, key interface{}) string {
	s, err := jwt.NewWithClaims(method, claims).SignedString(key)
	if err != nil {
		c.Fatalf("VERIF-ERROR: signing: %v", err)
	}
	return s
}

var allScopes = []string{"api:read", "api:update", "api:delete", "api:manage"}

// admin returns a token for everything.
func admin(c *h.Case) string {
	initKeys()
	return sign(c, jwt.SigningMethodRS256, jwt.MapClaims{"scopes": strings.Join(allScopes, " ")}, keys[0])
}

// genTok draws a token.
func genTok(c *h.Case, lists []string, q tmpl) tok {
	need := q.scope
	t := tok{has: true, valid: true, scopes: map[string]bool{}}
	claims := jwt.MapClaims{}
	now := time.Now().Unix()
	pick := func(name string, n int) bool { return rapid.IntRange(0, n).Draw(c.T, name) == 0 }
	// Half the tokens are valid beyond doubt, so that the limits decide.
	clean := rapid.Bool().Draw(c.T, "clean")
	flaw := func(name string, n, def int) int {
		if clean {
			return def
		}
		return rapid.IntRange(0, n).Draw(c.T, name)
	}
	switch flaw("exp", 7, 7) {
	case 0:
		claims["exp"] = now - int64(rapid.SampledFrom([]int{5, 60, 1e6}).Draw(c.T, "ago"))
		t.valid = false
	case 1, 2, 3:
		claims["exp"] = now + 3600
	}
	switch flaw("nbf", 9, 9) {
	case 0:
		claims["nbf"] = now + 3600
		t.valid = false
	case 1, 2:
		claims["nbf"] = now - 10
	}
	// scopes
	var sc []string
	for _, s := range allScopes {
		p := 3
		if s == need {
			p = 6
		}
		if (rapid.IntRange(0, p).Draw(c.T, s) > 0) == (s == need) {
			sc = append(sc, s)
			t.scopes[s] = true
		}
	}
	junk := []string{"api:reader", "API:READ", "api", "api:*", "*", "manage", "api:rea", "api:updates", "admin"}
	for pick("junk", 3) {
		sc = append(sc, rapid.SampledFrom(junk).Draw(c.T, "junk scope"))
	}
	if len(sc) > 1 {
		sc = rapid.Permutation(sc).Draw(c.T, "scopes")
	}
	name := rapid.SampledFrom([]string{"scope", "scopes"}).Draw(c.T, "claim")
	switch rapid.IntRange(0, 9).Draw(c.T, "form") {
	case 0:
		// Commas do not separate scopes.
		claims[name] = strings.Join(sc, ",")
		if len(sc) > 1 {
			t.scopes = map[string]bool{}
		}
	case 1, 2, 3:
		claims[name] = sc
	case 4:
		t.scopes = map[string]bool{}
	default:
		claims[name] = strings.Join(sc, " ")
	}
	// limits
	if pick("limit lists", 2) {
		t.limLists = true
		n := rapid.IntRange(0, 3).Draw(c.T, "n")
		if near := rapid.IntRange(0, 3).Draw(c.T, "near"); near > 0 && len(q.lists) > 0 {
			// What the request needs, except perhaps for one list.
			t.lists = uniqueStrings(q.lists)
			if near > 1 {
				i := rapid.IntRange(0, len(t.lists)-1).Draw(c.T, "except")
				l := t.lists[i]
				switch rapid.IntRange(0, 6).Draw(c.T, "how") {
				case 0:
					l = strings.ToUpper(l)
				case 1:
					l = l[:len(l)-1]
				case 2:
					l += "x"
				case 3:
					l = l[1:]
				case 4:
					l = strings.ToUpper(l[:1]) + l[1:]
				case 5:
					l = "*"
				case 6:
					l = "la2"
				}
				t.lists[i] = l
			}
			n = rapid.IntRange(0, 1).Draw(c.T, "more")
		}
		if n+len(t.lists) > 1 && pick("first", 1) {
			t.lists = rapid.Permutation(t.lists).Draw(c.T, "order")
		}
		for i := 0; i < n; i++ {
			t.lists = append(t.lists, rapid.SampledFrom(append([]string{"nolist", "l", "la-"}, lists...)).Draw(c.T, "allowed list"))
		}
		if pick("odd", 7) && len(t.lists) > 0 {
			t.odd = true
			claims["only_lists"] = t.lists
		} else {
			claims["only_lists"] = strings.Join(t.lists, rapid.SampledFrom([]string{",", ", ", " ,"}).Draw(c.T, "sep"))
		}
	}
	if pick("limit elems", 2) {
		t.limElems = true
		n := rapid.IntRange(0, 6).Draw(c.T, "n")
		var ss []string
		if near := rapid.IntRange(0, 3).Draw(c.T, "near"); near > 0 && len(q.elems) > 0 {
			// What the request needs, except perhaps for one element.
			t.elems = uniqueIDs(q.elems)
			if near > 1 {
				i := rapid.IntRange(0, len(t.elems)-1).Draw(c.T, "except")
				v := t.elems[i]
				if rapid.Bool().Draw(c.T, "drop") {
					t.elems = append(t.elems[:i:i], t.elems[i+1:]...)
				} else {
					t.elems[i] = rapid.SampledFrom([]uint64{v + 1, v + 10, v * 11, v + 1<<32, v ^ 1}).Draw(c.T, "instead")
				}
			}
			for _, v := range t.elems {
				ss = append(ss, u64(v))
			}
			n = rapid.IntRange(0, 1).Draw(c.T, "more")
		}
		for i := 0; i < n; i++ {
			v := rapid.Uint64Range(0, 8).Draw(c.T, "allowed element")
			t.elems = append(t.elems, v)
			ss = append(ss, u64(v))
		}
		if pick("odd", 7) && len(t.elems) > 0 {
			t.odd = true
			if len(t.elems) == 1 {
				claims["only_elements"] = t.elems[0]
			} else {
				claims["only_elements"] = t.elems
			}
		} else {
			claims["only_elements"] = strings.Join(ss, rapid.SampledFrom([]string{",", ", ", " ,"}).Draw(c.T, "sep"))
		}
	}
	// signature
	rs := rapid.SampledFrom([]jwt.SigningMethod{jwt.SigningMethodRS256, jwt.SigningMethodRS384, jwt.SigningMethodRS512}).Draw(c.T, "alg")
	var s string
	kind := flaw("sig", 24, 24)
	switch kind {
	case 0:
		t.valid = false
		s = sign(c, rs, claims, keys[2])
		c.Class("untrusted key")
	case 1:
		t.valid = false
		s = sign(c, jwt.SigningMethodHS256, claims, pubPEM[rapid.IntRange(0, 1).Draw(c.T, "k")])
		c.Class("HMAC with the public key")
	case 2:
		t.valid = false
		s = sign(c, jwt.SigningMethodNone, claims, jwt.UnsafeAllowNoneSignatureType)
		c.Class("no signature")
	case 3:
		t.valid = false
		// Claims replaced after signing.
		weak := jwt.MapClaims{"scopes": "api:none"}
		a := strings.Split(sign(c, rs, weak, keys[0]), ".")
		b := strings.Split(sign(c, rs, claims, keys[0]), ".")
		s = a[0] + "." + b[1] + "." + a[2]
		c.Class("claims replaced")
	case 4:
		t.valid = false
		s = sign(c, rs, claims, keys[0])
		p := strings.Split(s, ".")
		sig, _ := base64.RawURLEncoding.DecodeString(p[2])
		i := rapid.IntRange(0, len(sig)-1).Draw(c.T, "byte")
		sig[i] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit")))
		s = p[0] + "." + p[1] + "." + base64.RawURLEncoding.EncodeToString(sig)
		c.Class("damaged signature")
	case 5:
		t.valid = false
		s = sign(c, jwt.SigningMethodPS256, claims, keys[0])
		c.Class("other algorithm")
	default:
		s = sign(c, rs, claims, keys[rapid.IntRange(0, 1).Draw(c.T, "k")])
	}
	t.header = rapid.SampledFrom([]string{"Bearer ", "Bearer ", "Bearer ", "bearer ", "BEARER "}).Draw(c.T, "bearer") + s
	switch flaw("hdr", 29, 29) {
	case 0:
		t.has, t.valid = false, false
	case 1:
		t.header, t.valid = s, false
	case 2:
		t.header, t.valid = "Basic "+s, false
	case 3:
		t.header, t.valid = "Bearer ", false
	case 4:
		t.header, t.valid = "Bearer a.b.c", false
	}
	return t
}

// tmpl is a request with what it needs.
type tmpl struct {
	req      Req
	scope    string
	limited  bool // list and element limits apply
	lists    []string
	elems    []uint64
	ok       []int // accepted answers when allowed
	mutates  bool
	missing  bool // names a list that does not exist, but one is required
	multi    bool
	selected []string
}

var tokLists = []string{"la", "lb", "lc", "la2"}

// genTmpl draws a request.
func (w *W) genTmpl() tmpl {
	c := w.C
	t := tmpl{ok: []int{200}, limited: true}
	list := rapid.SampledFrom(append([]string{"none"}, tokLists...)).Draw(c.T, "l")
	id := rapid.Uint64Range(0, 8).Draw(c.T, "id")
	ids := func(n int) []uint64 {
		k := rapid.IntRange(1, n).Draw(c.T, "k")
		var r []uint64
		for i := 0; i < k; i++ {
			r = append(r, rapid.Uint64Range(0, 8).Draw(c.T, "id"))
		}
		return r
	}
	mk := func(ids []uint64) []reqElem {
		var r []reqElem
		for _, id := range ids {
			r = append(r, reqElem{ID: id, Score: 7e8 + uint64(rapid.IntRange(0, 1e6).Draw(c.T, "score")), Payload: json.RawMessage(`{"s":"` + secret + `"}`)})
		}
		return r
	}
	base := "/lists/" + list
	t.lists = []string{list}
	t.missing = w.Lists[list] == nil
	q := url.Values{}
	if rapid.Bool().Draw(c.T, "range") {
		q.Set("range", "3")
	}
	// multi-list selection
	var ql reqQL
	selq := url.Values{}
	multi := func() {
		t.multi, t.missing = true, false
		s := w.genSel()
		for s.none() {
			s = w.genSel()
		}
		ql = s.ql()
		s.query(selq)
		t.lists = s.lists(w, false)
		t.selected = t.lists
	}
	manage := func() {
		t.limited = false
		t.scope = "api:manage"
		t.ok = []int{200, 201, 204, 400, 404, 409}
	}
	switch k := rapid.IntRange(0, 31).Draw(c.T, "what"); k {
	case 0, 1:
		t.scope, t.elems = "api:read", []uint64{id}
		t.req = Req{Method: "GET", Path: base + "/elements/" + u64(id), Query: q}
		t.ok = []int{200, 404}
	case 2, 3:
		t.scope, t.elems = "api:read", ids(4)
		t.req = Req{Method: "POST", Path: base + "/elements/find", Body: reqIDs{IDs: t.elems}}
	case 4:
		e := ids(4)
		t.scope, t.elems = "api:read", append([]uint64{id}, e...)
		t.req = Req{Method: "POST", Path: base + "/elements/" + u64(id) + "/around", Body: reqIDs{IDs: e}, Query: q}
		t.ok = []int{200, 404}
	case 5:
		t.scope = "api:read"
		t.req = Req{Method: "GET", Path: base, Query: url.Values{"top_bottom": {"true"}}}
	case 6:
		t.scope = "api:read"
		t.req = Req{Method: "GET", Path: base + "/range", Query: url.Values{rapid.SampledFrom([]string{"from_top", "from_bottom"}).Draw(c.T, "dir"): {"0"}}}
		t.ok = []int{200, 404}
	case 7:
		t.scope = "api:read"
		t.req = Req{Method: "GET", Path: base + "/percentile", Query: url.Values{"from_top": {"50"}}}
		t.ok = []int{200, 404}
	case 8, 9:
		t.scope = "api:read"
		multi()
		t.elems = []uint64{id}
		t.req = Req{Method: "GET", Path: "/xlist/elements/" + u64(id), Query: selq}
	case 10:
		t.scope, t.elems, t.mutates = "api:update", []uint64{id}, true
		t.req = Req{Method: "POST", Path: base + "/elements", Body: mk(t.elems)[0], Query: q}
		t.ok = []int{200, 409}
	case 11, 12:
		t.scope, t.elems, t.mutates = "api:update", []uint64{id}, true
		t.req = Req{Method: "PUT", Path: base + "/elements/" + u64(id), Body: mk(t.elems)[0], Query: q}
	case 13:
		// Another element in the body than in the path must not get around the limits.
		other := rapid.Uint64Range(0, 8).Draw(c.T, "other")
		t.scope, t.elems, t.mutates = "api:update", []uint64{id, other}, true
		t.req = Req{Method: "PUT", Path: base + "/elements/" + u64(id), Body: mk([]uint64{other})[0], Query: q}
		t.ok = []int{200, 400}
	case 14, 15:
		t.scope, t.elems, t.mutates = "api:update", ids(4), true
		t.req = Req{Method: "PUT", Path: base + "/elements", Body: mk(t.elems), Query: url.Values{"results": {"true"}}}
	case 16, 17:
		multi()
		t.scope, t.elems, t.mutates = "api:update", ids(3), true
		ql.Payload = mk(t.elems)
		t.req = Req{Method: rapid.SampledFrom([]string{"PUT", "POST"}).Draw(c.T, "m"), Path: "/xlist/elements", Body: ql, Query: url.Values{"results": {"true"}}}
	case 18, 19:
		t.scope, t.elems, t.mutates = "api:delete", []uint64{id}, true
		t.req = Req{Method: "DELETE", Path: base + "/elements/" + u64(id)}
		t.ok = []int{204}
	case 20, 21:
		t.scope, t.elems, t.mutates = "api:delete", ids(4), true
		dq := url.Values{}
		for _, e := range t.elems {
			dq.Add("element_ids", u64(e))
		}
		t.req = Req{Method: "DELETE", Path: base + "/elements", Query: dq}
		t.ok = []int{204}
	case 22, 23:
		multi()
		t.scope, t.elems, t.mutates = "api:delete", []uint64{id}, true
		t.req = Req{Method: "DELETE", Path: "/xlist/elements/" + u64(id), Query: selq}
	case 24:
		manage()
		t.mutates = true
		t.req = Req{Method: "POST", Path: "/lists", Body: reqList{ID: list, Set: "set-a", Populate: mk(ids(3))}, Query: url.Values{"replace": {rapid.SampledFrom([]string{"true", "false"}).Draw(c.T, "replace")}}}
	case 25:
		manage()
		t.mutates = true
		t.req = Req{Method: "DELETE", Path: base}
	case 26:
		manage()
		t.req = Req{Method: "PUT", Path: base + "/" + rapid.SampledFrom([]string{"reindex", "repair", "verify"}).Draw(c.T, "op")}
	case 27:
		manage()
		t.mutates = true
		t.req = Req{Method: "PUT", Path: base + "/clone", Body: reqList{ID: "copy", Set: "set-a"}}
	case 28:
		manage()
		t.req = Req{Method: "GET", Path: rapid.SampledFrom([]string{"/lists", "/health", "/", "/backup/nope"}).Draw(c.T, "path")}
	case 29:
		manage()
		multi()
		t.req = Req{Method: "PUT", Path: rapid.SampledFrom([]string{"/xlist/verify", "/xlist/reindex"}).Draw(c.T, "path"), Body: ql}
	case 30:
		manage()
		multi()
		var b reqBackup
		b.Destination.Type = "download"
		b.Lists = ql
		t.req = Req{Method: "PUT", Path: "/xlist/backup", Body: b}
	case 31:
		manage()
		if rapid.Bool().Draw(c.T, "del") {
			t.req = Req{Method: "DELETE", Path: "/backup/nope"}
		} else {
			t.mutates = true
			t.req = Req{Method: "POST", Path: "/xlist/restore", Raw: w.backup}
		}
	}
	if t.missing && t.limited {
		t.ok = []int{404}
	}
	return t
}

// snapshot reads the content of every list with an unlimited token.
func (w *W) snapshot() string {
	c := w.C
	hdr := map[string]string{"Authorization": "Bearer " + w.Token}
	_ = hdr
	var all resLists
	w.want(200, Req{Method: "GET", Path: "/lists", Query: url.Values{"limit": {"1000"}}}, &all)
	var out []string
	for _, l := range all.Lists {
		r := w.send(Req{Method: "GET", Path: "/lists/" + l.ID + "/range", Query: url.Values{"from_top": {"0"}, "limit": {"1000"}}})
		s := ""
		if r.Status != 200 && r.Status != 404 {
			c.Fatalf("list %s can not be read: %v", l.ID, r)
		}
		if r.Status == 200 {
			var es []resElem
			r.Decode(c, &es)
			for _, e := range es {
				s += fmt.Sprintf("%d:%d:%d:%s:%v ", e.ID, e.Score, e.TieBreaker, e.Payload, e.UpdatedAt.UnixNano())
			}
		}
		out = append(out, fmt.Sprintf("%s %s %v [%s]", l.ID, l.Set, l.Metadata, s))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// mayNot tells why the token does not allow the request.
func (t tok) mayNot(q tmpl) string {
	if !t.valid {
		return "the token is not valid"
	}
	if !t.scopes[q.scope] {
		return "the token lacks scope " + q.scope
	}
	if !q.limited {
		return ""
	}
	if t.limLists {
		for _, l := range q.lists {
			if !contains(t.lists, l) {
				return "the token does not give access to list " + l
			}
		}
	}
	if t.limElems {
		for _, e := range q.elems {
			ok := false
			for _, a := range t.elems {
				ok = ok || a == e
			}
			if !ok {
				return "the token does not give access to element " + u64(e)
			}
		}
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}

// fill makes the server hold the lists of the test.
func (w *W) fill() {
	c := w.C
	w.Clean()
	for i, n := range tokLists {
		var es []reqElem
		k := rapid.IntRange(0, 6).Draw(c.T, "n")
		for j := 0; j < k; j++ {
			es = append(es, reqElem{ID: uint64(j + i), Score: 7e8 + uint64(j*100+i), Payload: json.RawMessage(`{"s":"` + secret + `"}`)})
		}
		l := &L{ID: n, Set: []string{"set-a", "set-b"}[i%2], Meta: map[string]string{"country": []string{"dk", "1"}[i/2]}}
		w.want(200, Req{Method: "POST", Path: "/lists", Body: reqList{ID: n, Set: l.Set, Metadata: l.Meta, Populate: es}}, nil)
		w.Lists[n] = l
	}
	var b reqBackup
	b.Destination.Type = "download"
	b.Lists = reqQL{Lists: tokLists}
	w.backup = w.want(200, Req{Method: "PUT", Path: "/xlist/backup", Body: b}, nil).Body
}

// TestC25 sends requests with generated tokens.
func TestC25(t *testing.T) {
	h.Assume("Limits by list and element apply to the endpoints that read, update or delete elements, as documented; elements that a list range, a percentile or neighbours bring along are not limited by only_elements",
		"Limits in another form than a comma separated string may be refused altogether but not ignored")
	h.Run(t, "a case is non-trivial when at least one request was allowed and at least two were refused", func(c *h.Case) {
		s := Get(c, confJWT, 0)
		w := NewW(c, s, m.GenProfile(c, 8))
		w.Token = admin(c)
		w.names = append([]string{"none"}, tokLists...)
		w.fill()
		s.dirty = true
		before := w.snapshot()
		allowed, denied := 0, 0
		n := rapid.IntRange(1, 12).Draw(c.T, "requests")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 9).Draw(c.T, "static") == 0 {
				w.static()
				continue
			}
			w.drawCT()
			q := w.genTmpl()
			tk := genTok(c, tokLists, q)
			why := tk.mayNot(q)
			req := q.req
			req.Header = map[string]string{}
			req.Token = "-"
			if tk.has {
				req.Header["Authorization"] = tk.header
			}
			c.Logf("valid=%v scopes=%v only_lists=%v %q only_elements=%v %v: %s", tk.valid, keysOf(tk.scopes), tk.limLists, tk.lists, tk.limElems, tk.elems, why)
			res := w.send(req)
			refused := res.Status == 401 || res.Status == 403
			what := fmt.Sprintf("%s %s?%s", req.Method, req.Path, req.Query.Encode())
			switch {
			case why != "":
				denied++
				c.Class("refused: " + strings.Join(strings.Fields(why)[:4], " "))
				// An unknown list or a mismatching body may be reported first, when the token itself is fine.
				other := tk.valid && tk.scopes[q.scope] && (q.missing && res.Status == 404 || req.Method == "PUT" && res.Status == 400 && contains400(q))
				if !refused && !other {
					c.Fatalf("%s was answered with %v although %s", what, res, why)
				}
				if bytes.Contains(res.Body, []byte(secret)) || bytes.Contains(res.Body, []byte(`"score"`)) {
					c.Fatalf("%s was refused with %d but the answer has data: %v (%s)", what, res.Status, res, why)
				}
				if q.mutates {
					if after := w.snapshot(); after != before {
						c.Fatalf("%s was refused (%s) but changed the lists from\n%s\nto\n%s", what, why, before, after)
					}
				}
			case refused:
				if tk.odd {
					break
				}
				c.Fatalf("%s was refused although the token allows it: %v", what, res)
			default:
				allowed++
				c.Class("allowed " + q.scope)
				if !containsInt(q.ok, res.Status) {
					c.Fatalf("%s: %v, want one of %v", what, res, q.ok)
				}
				if q.multi && q.limited && res.Status == 200 {
					var g resX
					res.Decode(c, &g)
					for _, n := range q.selected {
						if g.Success[n] == nil && g.Errors[n] == "" {
							c.Fatalf("%s: list %s is not in the answer: %v", what, n, res)
						}
					}
				}
				if q.mutates {
					if q.scope == "api:manage" {
						w.Lists = map[string]*L{}
						w.fill()
					}
					before = w.snapshot()
				}
			}
		}
		if allowed >= 1 && denied >= 2 {
			c.Nontrivial()
		}
		s.dirty = false
	})
}

func contains400(q tmpl) bool { return containsInt(q.ok, 400) }

func uniqueStrings(s []string) []string {
	var r []string
	for _, v := range s {
		if !contains(r, v) {
			r = append(r, v)
		}
	}
	return r
}

func uniqueIDs(s []uint64) []uint64 {
	seen := map[uint64]bool{}
	var r []uint64
	for _, v := range s {
		if !seen[v] {
			r = append(r, v)
		}
		seen[v] = true
	}
	return r
}

func containsInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func keysOf(mm map[string]bool) []string {
	var r []string
	for k := range mm {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// static asks the documentation endpoints, which need no token, for files elsewhere.
func (w *W) static() {
	c := w.C
	segs := []string{"..", "..", "..", "%2e%2e", "..%2f..", ".%2e", "%2E.", ".", "", "api", "public", "swagger", "swagger2", "sub", "keys", "secret.txt", "secret.txt", "secret.txt",
		"index.html", "page.html", "..%5c..", "%2fetc%2fpasswd", strings.Replace(w.S.Dir, "/", "%2f", -1), "..%2f..%2f..%2fsecret.txt", "%252e%252e"}
	n := rapid.IntRange(0, 7).Draw(c.T, "n")
	p := rapid.SampledFrom([]string{"/doc", "/api/swagger"}).Draw(c.T, "root")
	for i := 0; i < n; i++ {
		p += "/" + rapid.SampledFrom(segs).Draw(c.T, "seg")
	}
	if n == 0 {
		p += "/"
	}
	c.Logf("GET %s without token", p)
	hr, err := http.NewRequest("GET", w.S.Base, nil)
	if err != nil {
		c.Fatalf("VERIF-ERROR: %v", err)
	}
	hr.URL.Opaque = p
	resp, err := w.S.client.Do(hr)
	if err != nil {
		c.Fatalf("no answer to GET %s: %v\n%s", p, err, w.S.logs)
	}
	b, err := ioutil.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		c.Fatalf("incomplete answer to GET %s: %v", p, err)
	}
	c.Class("static " + fmt.Sprint(resp.StatusCode))
	if resp.StatusCode >= 500 {
		c.Fatalf("GET %s: status %d %q", p, resp.StatusCode, b)
	}
	if resp.StatusCode >= 400 || resp.StatusCode/100 == 3 {
		return
	}
	for _, bad := range []string{secret, "secret.txt", "root:", "conf.toml", "swagger2", "bin/", "BEGIN PUBLIC"} {
		if bytes.Contains(b, []byte(bad)) {
			c.Fatalf("GET %s serves files outside the documentation: %q", p, b)
		}
	}
}
