package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/goadesign/goa/encoding/msgpack"
	"pgregory.net/rapid"

	"verif/h"
	"verif/m"
)

// Wire types, written from the API documentation.

type reqElem struct {
	ID         uint64          `json:"id" codec:"id"`
	Score      uint64          `json:"score" codec:"score"`
	TieBreaker *uint32         `json:"tie_breaker,omitempty" codec:"tie_breaker,omitempty"`
	Payload    json.RawMessage `json:"payload,omitempty" codec:"payload,omitempty"`
}

type reqIDs struct {
	IDs []uint64 `json:"element_ids" codec:"element_ids"`
}

type reqList struct {
	ID        string            `json:"id" codec:"id"`
	Set       string            `json:"set" codec:"set"`
	Metadata  map[string]string `json:"metadata,omitempty" codec:"metadata,omitempty"`
	SplitSize *int              `json:"split_size,omitempty" codec:"split_size,omitempty"`
	MergeSize *int              `json:"merge_size,omitempty" codec:"merge_size,omitempty"`
	LoadIndex *bool             `json:"load_index,omitempty" codec:"load_index,omitempty"`
	Populate  []reqElem         `json:"populate,omitempty" codec:"populate,omitempty"`
}

type reqQL struct {
	Lists   []string          `json:"lists,omitempty" codec:"lists,omitempty"`
	Match   map[string]string `json:"match_metadata,omitempty" codec:"match_metadata,omitempty"`
	AllSets []string          `json:"all_in_sets,omitempty" codec:"all_in_sets,omitempty"`
	Payload []reqElem         `json:"payload,omitempty" codec:"payload,omitempty"`
}

type reqBackup struct {
	Destination struct {
		Type   string  `json:"type" codec:"type"`
		Path   *string `json:"path,omitempty" codec:"path,omitempty"`
		Suffix *string `json:"server_list_id_suffix,omitempty" codec:"server_list_id_suffix,omitempty"`
		Prefix *string `json:"server_list_id_prefix,omitempty" codec:"server_list_id_prefix,omitempty"`
	} `json:"destination" codec:"destination"`
	Lists reqQL `json:"lists" codec:"lists"`
}

type resElem struct {
	ID         uint64          `json:"id" codec:"id"`
	FromTop    int             `json:"from_top" codec:"from_top"`
	FromBottom int             `json:"from_bottom" codec:"from_bottom"`
	ListID     string          `json:"list_id" codec:"list_id"`
	Score      uint64          `json:"score" codec:"score"`
	TieBreaker uint32          `json:"tie_breaker" codec:"tie_breaker"`
	Payload    json.RawMessage `json:"payload" codec:"payload"`
	UpdatedAt  time.Time       `json:"updated_at" codec:"updated_at"`
	Neighbors  *struct {
		Above []resElem `json:"above" codec:"above"`
		Below []resElem `json:"below" codec:"below"`
	} `json:"neighbors" codec:"neighbors"`
	LocalFromTop    *int     `json:"local_from_top" codec:"local_from_top"`
	LocalFromBottom *int     `json:"local_from_bottom" codec:"local_from_bottom"`
	PreviousRank    *resElem `json:"previous_rank" codec:"previous_rank"`
}

type resMulti struct {
	Found    []resElem `json:"found" codec:"found"`
	NotFound []uint64  `json:"not_found" codec:"not_found"`
}

type resList struct {
	ID            string            `json:"id" codec:"id"`
	Set           string            `json:"set" codec:"set"`
	Metadata      map[string]string `json:"metadata" codec:"metadata"`
	SplitSize     int               `json:"split_size" codec:"split_size"`
	MergeSize     int               `json:"merge_size" codec:"merge_size"`
	LoadIndex     bool              `json:"load_index" codec:"load_index"`
	Elements      *int              `json:"elements" codec:"elements"`
	Segments      *int              `json:"segments" codec:"segments"`
	Avg           *float64          `json:"avg_segment_elements" codec:"avg_segment_elements"`
	TopElement    *resElem          `json:"top_element" codec:"top_element"`
	BottomElement *resElem          `json:"bottom_element" codec:"bottom_element"`
}

type resLists struct {
	Before *int      `json:"lists_before" codec:"lists_before"`
	After  *int      `json:"lists_after" codec:"lists_after"`
	Lists  []resList `json:"lists" codec:"lists"`
}

type resOp struct {
	Error *string  `json:"error" codec:"error"`
	List  *resList `json:"list" codec:"list"`
}

type resX struct {
	Success map[string]*struct {
		Results []resElem `json:"results" codec:"results"`
	} `json:"success" codec:"success"`
	Errors map[string]string `json:"errors" codec:"errors"`
}

type resCallback struct {
	ID  string `json:"id" codec:"id"`
	URL string `json:"callback_url" codec:"callback_url"`
}

type resBackup struct {
	Cancelled bool              `json:"cancelled" codec:"cancelled"`
	Done      bool              `json:"done" codec:"done"`
	URI       string            `json:"uri" codec:"uri"`
	Lists     int               `json:"lists" codec:"lists"`
	ListsDone int               `json:"lists_done" codec:"lists_done"`
	Storage   string            `json:"storage" codec:"storage"`
	Size      int64             `json:"size" codec:"size"`
	Errors    map[string]string `json:"errors" codec:"errors"`
	Success   []string          `json:"success" codec:"success"`
}

type resRestore struct {
	Restored *int              `json:"restored" codec:"restored"`
	Skipped  *int              `json:"skipped" codec:"skipped"`
	Errors   map[string]string `json:"errors" codec:"errors"`
}

const (
	tJSON = "application/json"
	tMsgp = "application/msgpack"
)

// Req is one request.
type Req struct {
	Method, Path string
	Query        url.Values
	Body         interface{} // encoded with the request's content type
	Raw          []byte      // instead of Body
	CT, Accept   string
	Header       map[string]string
	Token        string
	Long         bool // the server may answer and close the connection before it has read the body
}

// Res is its response.
type Res struct {
	Status int
	Header http.Header
	Body   []byte
	accept string
}

func (r Res) String() string {
	b := r.Body
	if len(b) > 600 {
		b = b[:600]
	}
	return fmt.Sprintf("%d %q", r.Status, b)
}

func encode(c *h.Case, ct string, v interface{}) []byte {
	if v == nil {
		return nil
	}
	var buf bytes.Buffer
	var err error
	if ct == tMsgp {
		err = msgpack.NewEncoder(&buf).Encode(v)
	} else {
		err = json.NewEncoder(&buf).Encode(v)
	}
	if err != nil {
		c.Fatalf("VERIF-ERROR: encoding %#v: %v", v, err)
	}
	return buf.Bytes()
}

// Decode decodes a response body as the request's Accept header asked for. (The
// framework labels every encoding of a media type with its "+json" name.)
func (r Res) Decode(c *h.Case, v interface{}) {
	ct := r.accept
	var err error
	switch {
	case ct == tMsgp:
		err = msgpack.NewDecoder(bytes.NewReader(r.Body)).Decode(v)
	default:
		err = json.Unmarshal(r.Body, v)
	}
	if err != nil {
		c.Fatalf("the response (%s) does not decode: %v: %v", ct, err, r)
	}
}

// Send sends a request. The server must answer it, whatever it is.
func (s *Srv) Send(c *h.Case, r Req) Res {
	body := r.Raw
	if r.Body != nil {
		body = encode(c, r.CT, r.Body)
	}
	u := s.Base + r.Path
	if len(r.Query) > 0 {
		u += "?" + r.Query.Encode()
	}
	show := fmt.Sprintf("%q", body)
	if r.Body != nil {
		j, _ := json.Marshal(r.Body)
		show = string(j)
	}
	if len(show) > 700 {
		show = show[:700] + "..."
	}
	fmtS := ""
	if r.CT == tMsgp {
		fmtS = "[msgpack] "
	}
	c.Logf("%s %s%s %s", r.Method, fmtS, strings.TrimPrefix(u, s.Base), show)
	var rd *bytes.Reader
	var hr *http.Request
	var err error
	if body != nil {
		rd = bytes.NewReader(body)
		hr, err = http.NewRequest(r.Method, u, rd)
	} else {
		hr, err = http.NewRequest(r.Method, u, nil)
	}
	if err != nil {
		c.Fatalf("VERIF-ERROR: request %s %s: %v", r.Method, u, err)
	}
	if r.CT != "" {
		hr.Header.Set("Content-Type", r.CT)
	}
	if r.Accept != "" {
		hr.Header.Set("Accept", r.Accept)
	}
	if r.Token != "" && r.Token != "-" {
		hr.Header.Set("Authorization", "Bearer "+r.Token)
	}
	hr.Close = r.Long
	for k, v := range r.Header {
		hr.Header.Set(k, v)
	}
	resp, err := s.client.Do(hr)
	if err != nil {
		// A keep-alive connection may have been closed under us.
		if s.Alive() && rd != nil {
			_, _ = rd.Seek(0, 0)
		}
		time.Sleep(100 * time.Millisecond)
		if !s.Alive() {
			c.Fatalf("the server ended: %s %s: %v\n%s", r.Method, u, err, s.logs)
		}
		if r.Long {
			return Res{}
		}
		c.Fatalf("no answer to %s %s: %v\n%s", r.Method, u, err, s.logs)
	}
	b, err := ioutil.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		time.Sleep(100 * time.Millisecond)
		c.Fatalf("incomplete answer to %s %s: %v (server alive: %v)\n%s", r.Method, u, err, s.Alive(), s.logs)
	}
	return Res{Status: resp.StatusCode, Header: resp.Header, Body: b, accept: r.Accept}
}

// W is the world of a case: a server and the reference of every list on it.
type W struct {
	C     *h.Case
	S     *Srv
	Lists map[string]*L
	Prof  *m.Profile
	CT    string // used for requests
	Token string

	backup []byte
	names  []string // of lists, for selections
}

// L is the reference of a list.
type L struct {
	ID, Set      string
	Meta         map[string]string
	Split, Merge int
	LoadIndex    bool
	Mo           m.Model
}

// NewW cleans the server.
func NewW(c *h.Case, s *Srv, prof *m.Profile) *W {
	w := &W{C: c, S: s, Lists: map[string]*L{}, Prof: prof, CT: tJSON, names: listNames}
	return w
}

// Clean deletes all lists and leaves the server for the next case.
func (w *W) Clean() {
	for i := 0; i < 50; i++ {
		var res resLists
		r := w.send(Req{Method: "GET", Path: "/lists", Query: url.Values{"limit": {"1000"}}})
		if r.Status != 200 {
			w.C.Fatalf("listing all lists: %v", r)
		}
		r.Decode(w.C, &res)
		if len(res.Lists) == 0 {
			w.S.dirty = false
			return
		}
		for _, l := range res.Lists {
			if r := w.send(Req{Method: "DELETE", Path: "/lists/" + l.ID}); r.Status != 204 {
				w.C.Fatalf("deleting list %s: %v", l.ID, r)
			}
		}
	}
	w.C.Fatalf("lists remain after deleting every one")
}

func (w *W) send(r Req) Res {
	if r.CT == "" && r.Body != nil {
		r.CT = w.CT
	}
	if r.Accept == "" {
		r.Accept = w.CT
	}
	if r.Token == "" {
		r.Token = w.Token
	}
	return w.S.Send(w.C, r)
}

// codec draws the encoding of the following requests.
func (w *W) drawCT() {
	w.CT = rapid.SampledFrom([]string{tJSON, tMsgp}).Draw(w.C.T, "ct")
}

// want sends the request and requires the status.
func (w *W) want(status int, r Req, v interface{}) Res {
	res := w.send(r)
	if res.Status != status {
		w.C.Fatalf("%s %s?%s: status %v, want %d", r.Method, r.Path, r.Query.Encode(), res, status)
	}
	if v != nil {
		res.Decode(w.C, v)
	}
	return res
}

func (w *W) ids() []string {
	res := make([]string, 0, len(w.Lists))
	for k := range w.Lists {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// pick draws an existing list, or nil.
func (w *W) pick() *L {
	ids := w.ids()
	if len(ids) == 0 {
		return nil
	}
	return w.Lists[rapid.SampledFrom(ids).Draw(w.C.T, "list")]
}

var payloads = []string{
	`{}`, `{"a":1}`, `{"b" : [1, 2.5e10, null, true]}`, `{"n":18446744073709551615,"s":"a<b>&c"}`,
	`{"u":"æ\u2028 ☃ \ud83d\ude00","o":{"x":{}}}`, ` {"sp": "  "} `, `{"long":"` + strings.Repeat("x", 300) + `"}`,
}

func (w *W) genPayload() json.RawMessage {
	if rapid.IntRange(0, 1).Draw(w.C.T, "haspayload") == 0 {
		return nil
	}
	if w.CT == tJSON && rapid.IntRange(0, 5).Draw(w.C.T, "null") == 0 {
		return json.RawMessage("null")
	}
	return json.RawMessage(rapid.SampledFrom(payloads).Draw(w.C.T, "payload"))
}

// genElem draws a request element and its reference (without Updated).
func (w *W) genElem(id uint64) (reqElem, m.Elem) {
	e := m.Elem{Score: w.Prof.Score(w.C)}
	e.ID = toID(id)
	r := reqElem{ID: id, Score: e.Score}
	if rapid.IntRange(0, 3).Draw(w.C.T, "hastie") > 0 {
		t := rapid.SampledFrom(w.Prof.Ties).Draw(w.C.T, "tie")
		r.TieBreaker = &t
		e.TieBreaker = t
	}
	r.Payload = w.genPayload()
	e.Payload = r.Payload
	if string(r.Payload) == "null" {
		e.Payload = nil
	}
	if w.CT == tJSON && e.Payload != nil {
		// The decoder of a JSON request keeps the bytes of the value only, and
		// the encoder compacts them.
		e.Payload = compact(e.Payload)
	}
	return r, e
}

func compact(b []byte) []byte {
	b2, err := json.Marshal(json.RawMessage(b))
	if err != nil {
		panic(err)
	}
	return b2
}

// sameJSON compares payloads as JSON values; absent, empty and null are the same.
func sameJSON(a, b []byte) bool {
	va, oka := jsonVal(a)
	vb, okb := jsonVal(b)
	return oka && okb && reflect.DeepEqual(va, vb)
}

func jsonVal(b []byte) (interface{}, bool) {
	if len(bytes.TrimSpace(b)) == 0 {
		return nil, true
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err == nil
}

func u64(v uint64) string { return strconv.FormatUint(v, 10) }
