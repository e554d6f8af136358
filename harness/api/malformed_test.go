package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

type obj = map[string]interface{}
type arr = []interface{}

// shape is a valid request whose parts can be replaced.
type shape struct {
	method string
	path   []string // segments
	query  url.Values
	body   interface{}
	raw    bool // body is replaced by raw bytes that must not be edited structurally
	noRand bool // not for random changes
}

func (w *W) anyElem() obj {
	c := w.C
	e := obj{"id": w.genID(), "score": w.Prof.Score(c)}
	if rapid.Bool().Draw(c.T, "tie") {
		e["tie_breaker"] = uint32(7)
	}
	if rapid.Bool().Draw(c.T, "pl") {
		e["payload"] = obj{"a": 1, "b": "x"}
	}
	return e
}

func (w *W) anyElems() arr {
	n := rapid.IntRange(1, 4).Draw(w.C.T, "n")
	var r arr
	for i := 0; i < n; i++ {
		r = append(r, w.anyElem())
	}
	return r
}

func (w *W) anyIDs() arr {
	var r arr
	for _, id := range w.genIDs(4) {
		r = append(r, id)
	}
	if len(r) == 0 {
		r = append(r, uint64(1))
	}
	return r
}

func (w *W) qlBody(payload bool) obj {
	s := w.genSel()
	o := obj{}
	if len(s.names) > 0 {
		o["lists"] = toArr(s.names)
	}
	if len(s.match) > 0 {
		mm := obj{}
		for k, v := range s.match {
			mm[k] = v
		}
		o["match_metadata"] = mm
	}
	if len(s.sets) > 0 {
		o["all_in_sets"] = toArr(s.sets)
	}
	if payload {
		o["payload"] = w.anyElems()
	}
	return o
}

func toArr(ss []string) arr {
	var r arr
	for _, s := range ss {
		r = append(r, s)
	}
	return r
}

func (w *W) listBody(pop bool) obj {
	c := w.C
	o := obj{"id": rapid.SampledFrom(listNames).Draw(c.T, "name"), "set": "set-a", "split_size": 20, "merge_size": 10, "load_index": true, "metadata": obj{"a": "b"}}
	if pop && rapid.Bool().Draw(c.T, "pop") {
		o["populate"] = w.anyElems()
	}
	return o
}

// genShape draws a valid request.
func (w *W) genShape() shape {
	c := w.C
	l := rapid.SampledFrom(listNames).Draw(c.T, "list")
	if e := w.pick(); e != nil && rapid.IntRange(0, 4).Draw(c.T, "known") > 0 {
		l = e.ID
	}
	id := u64(w.genID())
	s := shape{query: url.Values{}}
	mk := func(method string, body interface{}, path ...string) {
		s.method, s.body, s.path = method, body, path
	}
	opt := func(k string, v string) {
		if rapid.Bool().Draw(c.T, k) {
			s.query.Set(k, v)
		}
	}
	selQ := func() {
		s0 := w.genSel()
		s0.query(s.query)
	}
	switch rapid.IntRange(0, 25).Draw(c.T, "what") {
	case 0, 1:
		mk("GET", nil, "lists", l, "elements", id)
		opt("range", "3")
	case 2:
		mk("POST", obj{"element_ids": w.anyIDs()}, "lists", l, "elements", "find")
	case 3:
		mk("POST", obj{"element_ids": w.anyIDs()}, "lists", l, "elements", id, "around")
		opt("range", "3")
	case 4, 5:
		mk("POST", w.anyElem(), "lists", l, "elements")
		opt("range", "3")
	case 6, 7:
		e := w.anyElem()
		mk("PUT", e, "lists", l, "elements", fmt.Sprint(e["id"]))
		opt("range", "3")
	case 8, 9:
		mk("PUT", w.anyElems(), "lists", l, "elements")
		opt("results", "true")
	case 10:
		mk("DELETE", nil, "lists", l, "elements", id)
	case 11:
		mk("DELETE", nil, "lists", l, "elements")
		for _, v := range w.anyIDs() {
			s.query.Add("element_ids", fmt.Sprint(v))
		}
	case 12:
		mk("GET", nil, "lists", l)
		opt("top_bottom", "true")
	case 13:
		mk("GET", nil, "lists", l, "range")
		s.query.Set(rapid.SampledFrom([]string{"from_top", "from_bottom"}).Draw(c.T, "dir"), "0")
		opt("limit", "5")
	case 14:
		mk("GET", nil, "lists", l, "percentile")
		s.query.Set("from_top", "50")
		opt("range", "3")
	case 15, 16:
		mk("POST", w.listBody(true), "lists")
		opt("replace", "true")
	case 17:
		mk("PUT", w.listBody(false), "lists", l, "clone")
	case 18:
		mk("GET", nil, "lists")
		opt("limit", "3")
		opt("after_id", "aa")
	case 19:
		mk("PUT", nil, "lists", l, rapid.SampledFrom([]string{"reindex", "repair", "verify"}).Draw(c.T, "op"))
		if s.path[2] != "reindex" {
			opt("clear", "false")
		}
	case 20:
		mk("GET", nil, "xlist", "elements", id)
		selQ()
	case 21:
		mk("PUT", w.qlBody(true), "xlist", "elements")
		opt("errors_only", "true")
		opt("results", "true")
	case 22:
		mk("POST", w.qlBody(true), "xlist", "elements")
		opt("results", "true")
	case 23:
		mk("DELETE", nil, "xlist", "elements", id)
		selQ()
	case 24:
		mk("PUT", w.qlBody(false), "xlist", rapid.SampledFrom([]string{"verify", "reindex"}).Draw(c.T, "op"))
		if s.path[1] == "verify" {
			opt("elements", "true")
		}
		opt("errors_only", "true")
	case 25:
		mk("PUT", obj{"destination": obj{"type": "download"}, "lists": w.qlBody(false)}, "xlist", "backup")
	}
	return s
}

const huge = "18446744073709551616"

// raw JSON that does not fit a member of the name, whatever the list of the request holds.
var badMember = map[string][]string{
	"id":             {`-1`, `"x"`, `1.5`, huge, `true`, `{}`, `[]`, `null`, `-`},
	"score":          {`-1`, `"7"`, `1.5`, huge, `true`, `{}`, `[]`, `null`, `-`},
	"tie_breaker":    {`-1`, `4294967296`, `"7"`, `1.5`, `[]`},
	"set":            {`""`, `"a"`, `5`, `null`, `["set-a"]`, `-`, `"` + strings.Repeat("s", 101) + `"`},
	"metadata":       {`5`, `"x"`, `["a"]`, `{"a":1}`, `{"a":{}}`},
	"split_size":     {`9`, `0`, `-1`, `100001`, `"20"`, `1.5`, `[]`, huge},
	"merge_size":     {`9`, `0`, `-1`, `100001`, `"20"`, `1.5`, `[]`, huge},
	"load_index":     {`"true"`, `1`, `[]`},
	"populate":       {`5`, `"x"`, `{}`, `[5]`, `["x"]`, `[[]]`, `[{}]`, `[{"id":1}]`, `[null]`, `[{"id":1,"score":1},null]`},
	"payload":        nil, // see badFor
	"element_ids":    {`5`, `"x"`, `{}`, `[-1]`, `["1"]`, `[1.5]`, `[` + huge + `]`, `null`, `-`},
	"lists":          {`5`, `"aa"`, `{"a":1}`, `[5]`, `[["aa"]]`},
	"match_metadata": {`5`, `"x"`, `["a"]`, `{"a":5}`},
	"all_in_sets":    {`5`, `"set-a"`, `{}`, `[5]`},
	"destination":    {`5`, `"file"`, `null`, `-`, `[]`},
	"type":           {`5`, `"nope"`, `null`, `-`, `""`, `"file"`, `"s3"`, `"server"`},
}

var badListID = []string{`""`, `"a"`, `"a b"`, `"a/b"`, `"æøå"`, `"a\u0000b"`, `"a\n"`, `5`, `null`, `-`, `["aa"]`, `"` + strings.Repeat("x", 101) + `"`}

var badElems = []string{`5`, `"x"`, `{}`, `[5]`, `["x"]`, `[[]]`, `[{}]`, `[{"id":1}]`, `[{"score":1}]`, `[null]`, `[{"id":1,"score":1},null]`, `[{"id":"1","score":1}]`}

// members lists every member below v, with a function that replaces it by raw JSON ("-" removes it).
type member struct {
	name    string
	replace func(raw string)
	inElem  bool
}

func members(v interface{}, inList bool) (res []member) {
	switch o := v.(type) {
	case obj:
		var ks []string
		for k := range o {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		_, isElem := o["score"]
		for _, k := range ks {
			k := k
			name := k
			if k == "id" && !isElem {
				name = "list id"
			}
			if k == "payload" {
				if isElem {
					continue // any JSON is a payload
				}
				name = "elements"
			}
			if k == "lists" {
				if _, nested := o[k].(obj); nested {
					name = "selection"
				}
			}
			res = append(res, member{name: name, replace: func(raw string) {
				if raw == "-" {
					delete(o, k)
					return
				}
				o[k] = json.RawMessage(raw)
			}})
			if k != "metadata" && k != "match_metadata" {
				res = append(res, members(o[k], true)...)
			}
		}
	case arr:
		for _, e := range o {
			res = append(res, members(e, true)...)
		}
	}
	return res
}

// badQuery holds values that do not fit a parameter.
var badQuery = map[string][]string{
	"range":          {"-1", "101", "x", "1.5", huge},
	"limit":          {"0", "1001", "-1", "x", "1.5", huge},
	"results":        {"maybe", "2"},
	"replace":        {"maybe", "2"},
	"errors_only":    {"maybe", "2"},
	"elements":       {"maybe", "2"},
	"clear":          {"maybe", "2"},
	"top_bottom":     {"maybe", "2"},
	"match_metadata": {"notjson", "5", `{"a":5}`, `["a"]`, `{"a":"b"`},
	"element_ids":    {"x", "-1", "1.5", huge, "123456789012345678901", "18446744073709551616", "+1", " 1"},
	"from_top":       {"x", "-1", "1.5x", huge + "x", "NaN"},
	"from_bottom":    {"x", "-1", "1.5", huge},
}

// valid names of lists
var nameRE = regexp.MustCompile(`^[a-zA-Z0-9-_.]{2,100}$`)

// breakIt makes the request invalid and tells how; "" if it could not.
func (w *W) breakIt(s *shape) (how string, req Req) {
	c := w.C
	req = Req{Method: s.method, CT: tJSON}
	var body []byte
	enc := func() []byte {
		if s.body == nil {
			return nil
		}
		b, err := json.Marshal(s.body)
		if err != nil {
			c.Fatalf("VERIF-ERROR: %v", err)
		}
		return b
	}
	esc := func(v string) string { return url.PathEscape(v) }
	kinds := []string{"path", "query"}
	if s.body != nil {
		kinds = []string{"member", "member", "member", "member", "body", "path", "query"}
	}
	switch rapid.SampledFrom(kinds).Draw(c.T, "how") {
	case "member":
		ms := members(s.body, false)
		if len(ms) == 0 {
			break
		}
		mb := ms[rapid.IntRange(0, len(ms)-1).Draw(c.T, "member")]
		var bad []string
		switch mb.name {
		case "list id":
			bad = badListID
		case "elements":
			bad = badElems
		case "selection":
			bad = []string{`5`, `"x"`, `[]`, `null`, `-`}
		default:
			bad = badMember[mb.name]
		}
		if len(bad) == 0 {
			break
		}
		v := rapid.SampledFrom(bad).Draw(c.T, "value")
		mb.replace(v)
		how = fmt.Sprintf("member %s is %s", mb.name, v)
	case "body":
		b := enc()
		k := rapid.IntRange(0, 5).Draw(c.T, "damage")
		switch k {
		case 0:
			n := rapid.IntRange(0, len(b)-1).Draw(c.T, "cut")
			body = b[:n]
			how = fmt.Sprintf("body cut after %d bytes", n)
		case 1:
			body = []byte(rapid.SampledFrom([]string{`5`, `"x"`, `true`, `null`, `[[]]`, `{`, `nonsense`, "\xff\xfe", `[null]`, `[5]`}).Draw(c.T, "other"))
			if string(body) == "null" && (s.path[0] == "xlist" || s.path[len(s.path)-1] == "elements" && s.method == "PUT") {
				break // nothing is required in these: the same as an empty one
			}
			how = fmt.Sprintf("body is %q", body)
		case 2:
			body = []byte{}
			how = "body is empty"
		case 3:
			if _, ok := s.body.(arr); ok {
				body = []byte(`{}`)
			} else {
				body = []byte(`[]`)
			}
			how = "body is " + string(body)
		case 4:
			body = bytes.Replace(b, []byte(`:`), []byte(`;`), 1)
			if bytes.Equal(body, b) {
				body = nil
				break
			}
			how = "body is not JSON"
		case 5:
			a, ok := s.body.(arr)
			if !ok || len(a) == 0 {
				break
			}
			i := rapid.IntRange(0, len(a)).Draw(c.T, "at")
			s.body = append(append(append(arr{}, a[:i]...), nil), a[i:]...)
			body = enc()
			how = "body has a null element"
		}
	case "path":
		for i := range s.path {
			if i == 0 {
				continue
			}
			if s.path[i-1] == "lists" && len(s.path) > 1 {
				v := rapid.SampledFrom([]string{"a", "a b", "æøå", strings.Repeat("x", 101), "a\x00b", "a%b", "a/b", "missing-list"}).Draw(c.T, "list id")
				s.path[i] = v
				how = fmt.Sprintf("list id %q", v)
				break
			}
			if s.path[i-1] == "elements" && s.path[i] != "find" && rapid.Bool().Draw(c.T, "elem") {
				v := rapid.SampledFrom([]string{"x", "-1", "1.5", huge, "123456789012345678901", "1 ", "0x1", "+1"}).Draw(c.T, "element id")
				s.path[i] = v
				how = fmt.Sprintf("element id %q", v)
				break
			}
		}
	case "query":
		var ks []string
		for k := range s.query {
			if badQuery[k] != nil {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		last := s.path[len(s.path)-1]
		if last == "range" && rapid.IntRange(0, 3).Draw(c.T, "both") == 0 {
			if rapid.Bool().Draw(c.T, "neither") {
				s.query.Del("from_top")
				s.query.Del("from_bottom")
				how = "no offset"
			} else {
				s.query.Set("from_top", "0")
				s.query.Set("from_bottom", "0")
				how = "two offsets"
			}
			break
		}
		if last == "percentile" {
			v := rapid.SampledFrom([]string{"NaN", "nan", "Inf", "-Inf", "+Inf", "-0.01", "100.01", "-1e300", "1e300", "1e400", "x", "50x", "0x"}).Draw(c.T, "pct")
			s.query.Set("from_top", v)
			how = "percentile " + v
			break
		}
		if len(ks) == 0 {
			break
		}
		k := rapid.SampledFrom(ks).Draw(c.T, "param")
		v := rapid.SampledFrom(badQuery[k]).Draw(c.T, "value")
		if k == "element_ids" {
			// among good ones
			i := rapid.IntRange(0, len(s.query[k])).Draw(c.T, "at")
			s.query[k] = append(append(append([]string{}, s.query[k][:i]...), v), s.query[k][i:]...)
		} else {
			s.query.Set(k, v)
		}
		how = fmt.Sprintf("%s=%s", k, v)
	}
	if how == "" {
		return "", req
	}
	if body == nil {
		body = enc()
	}
	req.Raw = body
	if req.Raw == nil {
		req.CT = ""
	}
	req.Path = ""
	for _, p := range s.path {
		req.Path += "/" + esc(p)
	}
	req.Query = s.query
	return how, req
}

// setPayloads sets the payload of every element below v.
func setPayloads(v interface{}, p interface{}) {
	switch o := v.(type) {
	case obj:
		if _, ok := o["score"]; ok {
			o["payload"] = p
		}
		for _, e := range o {
			setPayloads(e, p)
		}
	case arr:
		for _, e := range o {
			setPayloads(e, p)
		}
	}
}

// randomly changes the request in ways that may or may not leave it valid.
func (w *W) randomly(s *shape) Req {
	c := w.C
	w.drawCT()
	req := Req{Method: s.method, CT: w.CT, Query: s.query}
	special := ""
	if s.body != nil {
		switch rapid.IntRange(0, 15).Draw(c.T, "special") {
		case 0, 1:
			// A payload that may not be JSON, which only msgpack can carry.
			w.CT, req.CT = tMsgp, tMsgp
			setPayloads(s.body, rapid.SampledFrom([]interface{}{[]byte{}, []byte("{"), []byte("nul"), []byte{0xff, 0}, "text", `{"a":1} {}`, []byte(`{"a":1}x`), []byte(" null "), []byte("null"), 5, obj{"a": 1}}).Draw(c.T, "odd payload"))
			special = "payload"
		case 2:
			depth := rapid.SampledFrom([]int{100, 9999, 10001, 300000, 3000000}).Draw(c.T, "depth")
			one := rapid.SampledFrom([]string{"[", "{\"a\":", "{\"payload\":", "\x91", "\x81\xa1a", "\x81\xa7payload", "\x81\xa2id\x91"}).Draw(c.T, "nest")
			if one[0] > 0x7f {
				w.CT, req.CT = tMsgp, tMsgp
			} else {
				w.CT, req.CT = tJSON, tJSON
			}
			req.Raw = bytes.Repeat([]byte(one), depth)
			special = "nested"
			// The framework leaves the rest of a long refused body in the connection.
			req.Long = true
		case 3:
			w.CT, req.CT = tMsgp, tMsgp
			req.Raw = []byte(rapid.SampledFrom([]string{"\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xdd\x7f\xff\xff\xff\x82",
				"\x81\xa7payload\xdd\x7f\xff\xff\xff", "\x81\xa8populate\xdd\x7f\xff\xff\xff", "\x81\xabelement_ids\xdd\x7f\xff\xff\xff", "\x81\xa5lists\xdd\x7f\xff\xff\xff", "\x81\xa8metadata\xdf\x7f\xff\xff\xff",
				"\xdd\x00\xff\xff\xff\x82\xa2id\x01"}).Draw(c.T, "length"))
			special = "length"
		}
	}
	if special != "" {
		c.Class("random " + special)
	}
	if s.body == nil {
		req.CT = ""
	} else if req.Raw == nil {
		req.Raw = encode(c, w.CT, s.body)
	}
	least := 1
	if special != "" {
		least = 0
	}
	k := rapid.IntRange(least, 3).Draw(c.T, "changes")
	for i := 0; i < k; i++ {
		switch rapid.IntRange(0, 11).Draw(c.T, "change") {
		case 0, 1, 2, 3:
			b := req.Raw
			if len(b) == 0 || special != "" {
				break
			}
			p := rapid.IntRange(0, len(b)-1).Draw(c.T, "pos")
			b = append([]byte{}, b...)
			switch rapid.IntRange(0, 4).Draw(c.T, "edit") {
			case 0:
				b[p] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(c.T, "bit")))
			case 1:
				b[p] = rapid.SampledFrom([]byte{0, 0xff, 0x80, 0xc0, 0xc1, 0xdf, 0xdd, 0xdb, 0xc6, 0xcb, 0xd9, '{', '[', '"', '}', 'n', '9', '-'}).Draw(c.T, "byte")
			case 2:
				b = b[:p]
			case 3:
				n := rapid.IntRange(1, 8).Draw(c.T, "n")
				e := p + n
				if e > len(b) {
					e = len(b)
				}
				b = append(b[:e:e], b[p:]...)
			case 4:
				ins := rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(c.T, "ins")
				b = append(append(append([]byte{}, b[:p]...), ins...), b[p:]...)
			}
			req.Raw = b
		case 4:
			if len(req.Raw) > 0 {
				req.CT = rapid.SampledFrom([]string{tJSON, tMsgp, "application/x-msgpack", "text/plain", "application/xml", "", "application/gob", "x", "application/json; charset=utf-8"}).Draw(c.T, "ct")
			}
		case 5:
			req.Accept = rapid.SampledFrom([]string{"*/*", "text/html", "application/xml", "application/gob", "x;q=2", "application/msgpack, application/json", strings.Repeat("a/b,", 500)}).Draw(c.T, "accept")
		case 6:
			req.Header = map[string]string{rapid.SampledFrom([]string{"Content-Encoding", "Accept-Encoding", "X-TRACE-REQUEST", "Authorization", "If-None-Match", "Range", "Origin"}).Draw(c.T, "hdr"): rapid.SampledFrom([]string{"gzip", "bytes=0-1", "Bearer x", "*", ""}).Draw(c.T, "val")}
		case 7:
			req.Method = rapid.SampledFrom([]string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}).Draw(c.T, "method")
		case 8:
			i := rapid.IntRange(0, len(s.path)-1).Draw(c.T, "seg")
			s.path[i] = rapid.SampledFrom([]string{"lists", "elements", "xlist", "find", "around", "1", "0", huge, "", ".", "..", "é", "%", "a", "range", "verify", "*", ":list_id"}).Draw(c.T, "segment")
		case 9:
			for k := range req.Query {
				if rapid.Bool().Draw(c.T, "drop") {
					req.Query.Del(k)
				}
			}
		case 10:
			req.Query.Add(rapid.SampledFrom([]string{"range", "limit", "lists", "match_metadata", "all_in_sets", "list_id", "element_id", "element_ids", "from_top", "from_bottom", "results", "after_id", "before_id", "logtrace"}).Draw(c.T, "k"),
				rapid.SampledFrom([]string{"", "0", "-1", "1", "999999999999", "-9223372036854775808", "9223372036854775807", "true", "null", "{}", "[]", "aa", "NaN", "\x00", "é"}).Draw(c.T, "v"))
		case 11:
			if s.body == nil && req.Raw == nil {
				req.Raw = []byte(rapid.SampledFrom([]string{"", "{}", "[]", "\x91\xc0", "null", "\x81"}).Draw(c.T, "body"))
			}
		}
	}
	for _, p := range s.path {
		req.Path += "/" + url.PathEscape(p)
	}
	return req
}

// readable checks that every list can still be read and verified.
func (w *W) readable(what string) {
	c := w.C
	w.CT = tJSON
	var g resX
	w.want(200, Req{Method: "PUT", Path: "/xlist/verify", Query: url.Values{"elements": {"true"}}, Body: reqQL{}}, &g)
	if len(g.Errors) > 0 {
		c.Fatalf("after %s lists do not verify: %v", what, g.Errors)
	}
}

// TestC26 sends requests that are or may be malformed.
func TestC26(t *testing.T) {
	h.Assume("Element payloads are any JSON; unknown members of a request body are ignored, as the framework does",
		"Requests naming files or URLs for the server to read or write are not changed at random")
	h.Run(t, "a case is non-trivial when at least two requests known to be invalid were refused and at least two randomly changed ones were answered", func(c *h.Case) {
		cf := confs[rapid.IntRange(0, len(confs)-1).Draw(c.T, "conf")]
		c.Logf("server %s", cf.Name)
		s := Get(c, cf, 0)
		w := NewW(c, s, m.GenProfile(c, rapid.SampledFrom([]int{4, 30}).Draw(c.T, "nids")))
		w.Clean()
		s.dirty = true
		n := rapid.IntRange(0, 3).Draw(c.T, "nl")
		for i := 0; i < n; i++ {
			w.create(listNames[i], rapid.SampledFrom([]int{0, 3, 30}).Draw(c.T, "max"))
		}
		before := w.snapshot()
		bad, rnd := 0, 0
		steps := rapid.IntRange(1, 15).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			sh := w.genShape()
			if rapid.Bool().Draw(c.T, "known") {
				how, req := w.breakIt(&sh)
				if how == "" {
					continue
				}
				c.Logf("invalid: %s", how)
				res := w.send(req)
				bad++
				c.Class("invalid " + strings.Fields(how)[0])
				if res.Status < 400 || res.Status >= 500 {
					c.Fatalf("%s %s?%s is invalid (%s) and was answered with %v\nbody %q", req.Method, req.Path, req.Query.Encode(), how, res, req.Raw)
				}
				if after := w.snapshot(); after != before {
					c.Fatalf("%s %s was refused (%s; %v) but changed the lists from\n%s\nto\n%s", req.Method, req.Path, how, res, before, after)
				}
				continue
			}
			req := w.randomly(&sh)
			res := w.send(req)
			rnd++
			c.Class(fmt.Sprintf("random %dxx", res.Status/100))
			what := fmt.Sprintf("%s %s?%s [%s] %q", req.Method, req.Path, req.Query.Encode(), req.CT, req.Raw)
			if req.Long && res.Status == 0 {
				res.Status = 400
			}
			if res.Status >= 500 || res.Status < 200 {
				c.Fatalf("%s was answered with %v\n%s", what, res, s.logs)
			}
			w.CT = tJSON
			after := w.snapshot()
			if res.Status >= 400 && after != before {
				c.Fatalf("%s was refused (%v) but changed the lists from\n%s\nto\n%s", what, res, before, after)
			}
			if res.Status < 300 && (req.Method != "GET" && req.Method != "HEAD" && req.Method != "OPTIONS") {
				w.readable(what)
			}
			before = after
		}
		w.readable("the case")
		if bad >= 2 && rnd >= 2 {
			c.Nontrivial()
		}
		s.dirty = false
	})
}
