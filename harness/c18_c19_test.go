package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"log"
	"mime"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- servers

var serverUser = []UserSpec{
	{S: "関西国際空港", Tokens: []BS{"関西", "国際", "空港"}, Yomi: []BS{"カンサイ", "コクサイ", "クウコウ"}, Pos: "カスタム名詞"},
	{S: "朝青龍", Tokens: []BS{"朝青龍"}, Yomi: []BS{"アサショウリュウ"}, Pos: "<b>力士</b>"},
	{S: "<script>", Tokens: []BS{"<script>"}, Yomi: []BS{"&スクリプト\""}, Pos: "\"'>タグ"},
	{S: "もも", Tokens: []BS{"も", "も"}, Yomi: []BS{"モ", "モ"}, Pos: "名詞"},
}

type testServer struct {
	url string
	tk  *tokenizer.Tokenizer
}

var (
	serverMu sync.Mutex
	servers  = map[string]*testServer{}
)

var client = &http.Client{Timeout: 75 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}

// theServer starts a server of the given kind ("ipa", "ipa+user", "uni") once per process.
func theServer(kind string) *testServer {
	serverMu.Lock()
	defer serverMu.Unlock()
	if s, ok := servers[kind]; ok {
		return s
	}
	if len(servers) == 0 {
		log.SetOutput(io.Discard)
		server.Stderr = io.Discard
	}
	name, user, _ := strings.Cut(kind, "+")
	setup := Setup{Real: name}
	var args []string
	if name != "ipa" {
		args = append(args, "-dict", name)
	}
	if user != "" {
		setup.User = serverUser
		args = append(args, "-userdict", saveUser(serverUser, "server-user.txt"))
	}
	tk, _ := setup.Tokenizer()
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := l.Addr().String()
		must(l.Close())
		failed := make(chan error, 1)
		go func() { failed <- server.Run(context.Background(), append([]string{"-http", addr}, args...)) }()
		for i := 0; i < 1200; i++ {
			select {
			case err := <-failed:
				if try == 19 {
					panic(fmt.Sprintf("the server does not start: %v", err))
				}
				i = 1 << 20 // another port
				continue
			default:
			}
			c, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				c.Close()
				s := &testServer{url: "http://" + addr, tk: tk}
				servers[kind] = s
				return s
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	panic("the server does not start")
}

var serverKinds = []string{"ipa", "ipa+user", "ipa+user"}

// ---------------------------------------------------------------- C18

// APIReq is a request to the tokenize API.
type APIReq struct {
	Method  string
	Body    BS
	Type    string `json:",omitempty"` // Content-Type
	Chunked bool   `json:",omitempty"` // the body comes in pieces and without a length
	// Bulk: instead of Body, a sentence of this many characters made of Body.
	Bulk int    `json:",omitempty"`
	Mode string `json:",omitempty"`
	Pad  int    `json:",omitempty"` // blanks before the body
	// Header: a header as browsers and proxies add them, "name: value". None of them has a say in the answer.
	Header string `json:",omitempty"`
}

// usualHeaders: what browsers, proxies and libraries send along.
var usualHeaders = []string{
	`If-None-Match: "0123456789abcdef"`, "If-Modified-Since: Mon, 02 Jan 2006 15:04:05 GMT", "Accept: application/json", "Accept: */*", "Accept: text/html,application/xhtml+xml,application/json;q=0.9,*/*;q=0.8",
	"Accept-Language: ja,en;q=0.5", "Accept-Encoding: identity", "Accept-Charset: utf-8, shift_jis;q=0.5", "Cookie: mode=Search; s=x; sid=0123", "User-Agent: Mozilla/5.0 (compatible; bot/1.0)", "User-Agent: curl/8.5.0",
	"Referer: http://example.com/?s=x&r=Search", "Origin: http://example.com", "Origin: null", "X-Forwarded-For: 192.0.2.1, 10.0.0.1", "X-Requested-With: XMLHttpRequest", "X-Http-Method-Override: DELETE", "Cache-Control: no-cache", "Pragma: no-cache", "Connection: close", "Expect: 100-continue", "Authorization: Basic YTpi", "Upgrade-Insecure-Requests: 1", "Sec-Fetch-Site: cross-site", "DNT: 1", "Content-Language: ja", "Mode: Search",
}

func genHeader(t *rapid.T) string {
	if chance(t, "header", 25) {
		return pick(t, "headerline", usualHeaders)
	}
	return ""
}

func setHeader(r *http.Request, h string) {
	if k, v, ok := strings.Cut(h, ": "); ok {
		r.Header.Set(k, v)
	}
}

// body is what is sent.
func (r *APIReq) body() string {
	if r.Bulk == 0 {
		return strings.Repeat(" ", r.Pad) + string(r.Body)
	}
	b, err := json.Marshal(map[string]string{"sentence": stretch(string(r.Body), r.Bulk), "mode": r.Mode})
	must(err)
	return string(b)
}

// piecewise hides the length of a body and hands it out in small reads.
type piecewise struct {
	s string
	n int
}

func (p *piecewise) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	p.n++
	n := copy(b, p.s[:min(len(p.s), 1+(p.n*7919)%4000)])
	p.s = p.s[n:]
	return n, nil
}

// APICase is a list of requests, sent one by one or at the same time.
type APICase struct {
	Kind     string
	Parallel bool
	Reqs     []APIReq
}

// jsonString writes a JSON string with some of its characters escaped.
func jsonString(t *rapid.T, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	how := intr(t, "escape", 0, 2) // 0: only what has to be escaped, 2: everything
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b.WriteString(s[i : i+1])
		case r < 0x20 || r == '"' || r == '\\' || how == 2 || (how == 1 && i%2 == 0):
			if r > 0xFFFF {
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04x`, 0xD800+(r>>10), 0xDC00+(r&0x3FF))
			} else {
				fmt.Fprintf(&b, `\u%04X`, r)
			}
		default:
			b.WriteRune(r)
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

func genAPIText(t *rapid.T) string {
	s := string(genRealText(t, serverUser, 4))
	if chance(t, "long", 3) {
		s = strings.Repeat(s, intr(t, "times", 2, 60))
	}
	return s
}

func genAPIBody(t *rapid.T) string {
	switch k := intr(t, "body", 0, 19); {
	case k < 12:
		b := `{"sentence":` + jsonString(t, genAPIText(t))
		if chance(t, "mode", 80) {
			b += `,"mode":` + jsonString(t, pick(t, "m", []string{"Search", "Extended", "Normal", "search", "extended", "", "x", "Search "}))
		}
		if chance(t, "extra", 15) {
			b += `,"other":{"a":[1,2,{"b":null}]}`
		}
		return b + "}"
	case k < 13:
		return pick(t, "empty", []string{`{}`, `{"sentence":""}`, `null`, `{"sentence":null}`, `{"mode":"Search"}`, ` { "sentence" : "" , "mode" : "Extended" } `})
	case k < 14: // order, repetition and case of keys
		a, b := jsonString(t, genAPIText(t)), jsonString(t, genAPIText(t))
		return pick(t, "keys", []string{`{"mode":"Extended","sentence":` + a + `}`, `{"sentence":` + a + `,"sentence":` + b + `}`, `{"Sentence":` + a + `,"MODE":"Search"}`})
	case k < 15: // a wrong type
		return pick(t, "type", []string{`{"sentence":1}`, `{"sentence":["a"]}`, `{"sentence":{"a":"b"}}`, `[]`, `"猫"`, `1`, `true`, `{"sentence":"猫","mode":1}`, `{"sentence":true}`, `[{"sentence":"猫"}]`})
	case k < 17: // not JSON
		return pick(t, "bad", []string{``, ` `, `{`, `{"sentence":`, `{"sentence":"猫`, `{'sentence':"猫"}`, `"`, `{"sentence":"\x"}`, `{"sentence":"a"`, "\"\\\"<b>\"x", `{"sentence":"a",}`, "{\"sentence\":\"a\nb\"}", `{"sentence":"\u12"}`, `sentence=%E7%8C%AB`, "\xff\xfe", `{"a"b}`, "{\"\\\"}", "<script>alert(1)</script>", "{\"a\":\"\\\"\\\"\" \"}"})
	case k < 18: // a valid body cut off
		b := `{"sentence":` + jsonString(t, genAPIText(t)) + `,"mode":"Search"}`
		return b[:intr(t, "cut", 0, len(b)-1)]
	case k < 19: // a valid body with a byte replaced
		b := []byte(`{"sentence":` + jsonString(t, "猫がもも") + `,"mode":"Extended"}`)
		b[intr(t, "at", 0, len(b)-1)] = pick(t, "byte", []byte("\"\\{}[]:, \x00\xffa1\n"))
		return string(b)
	}
	return string(genJapanese(t, 2))
}

func genAPICase(parallel bool, bulk int, kinds []string) func(t *rapid.T) APICase {
	return func(t *rapid.T) APICase {
		c := APICase{Kind: pick(t, "kind", kinds), Parallel: parallel}
		n := 1
		if parallel {
			n = intr(t, "n", 2, 12)
		}
		for i := 0; i < n; i++ {
			r := APIReq{Method: pick(t, "method", []string{"POST", "POST", "POST", "PUT"}), Body: BS(genAPIBody(t))}
			if chance(t, "bulk", bulk) {
				r.Body = genRealText(t, serverUser, 6)
				sizes := []int{700, 2000, 2000, 8000, 8000, 30000, 100000}
				if parallel {
					sizes = sizes[:3]
				}
				r.Bulk = pick(t, "chars", sizes) + intr(t, "more", 0, 1000)
				r.Mode = pick(t, "bulkmode", []string{"Normal", "Search", "Extended"})
			}
			r.Type = pick(t, "type", []string{"", "", "application/json", "application/json; charset=utf-8", "text/plain", "application/x-www-form-urlencoded"})
			r.Chunked = chance(t, "chunked", 20)
			r.Header = genHeader(t)
			if chance(t, "padded", 2) {
				r.Pad = pick(t, "pad", []int{5000, 70000, 1100000, 4500000})
			}
			c.Reqs = append(c.Reqs, r)
		}
		return c
	}
}

func doAPI(s *testServer, r APIReq) (code int, body []byte, err error) {
	var rd io.Reader = strings.NewReader(r.body())
	if r.Chunked {
		rd = &piecewise{s: r.body()}
	}
	req, err := http.NewRequest(r.Method, s.url+"/tokenize", rd)
	if err != nil {
		return 0, nil, err
	}
	if r.Type != "" {
		req.Header.Set("Content-Type", r.Type)
	}
	setHeader(req, r.Header)
	resp, err := client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err == nil && resp.StatusCode == http.StatusOK {
		err = isMedia(resp, "application/json")
	}
	return resp.StatusCode, b, err
}

// isMedia: the answer is declared to be of the media type.
func isMedia(resp *http.Response, want string) error {
	h := resp.Header.Get("Content-Type")
	if m, _, err := mime.ParseMediaType(h); err != nil || m != want {
		return fmt.Errorf("the answer is declared as %q, not %s", h, want)
	}
	return nil
}

func checkAPI(s *testServer, r APIReq, code int, body []byte, rec *Rec) error {
	var got map[string]any
	if err := json.Unmarshal(body, &got); err != nil {
		return fmt.Errorf("the answer to %q is no JSON object: %v: %q", clip(r.body()), err, clip(string(body)))
	}
	var want struct {
		Sentence string `json:"sentence"`
		Mode     string `json:"mode"`
	}
	dec := json.NewDecoder(strings.NewReader(r.body()))
	derr := dec.Decode(&want)
	trailing := false
	if derr == nil {
		rest, err := io.ReadAll(io.MultiReader(dec.Buffered(), strings.NewReader("")))
		must(err)
		trailing = len(bytes.TrimSpace(rest)) > 0
	}
	if derr != nil || (trailing && code != http.StatusOK) {
		if code < 400 || code > 499 {
			return fmt.Errorf("the answer to the malformed body %q has code %d", clip(r.body()), code)
		}
		msg, ok := got["error"].(string)
		if got["status"] != false || !ok || msg == "" {
			return fmt.Errorf("the answer to the malformed body %q is %q", clip(r.body()), clip(string(body)))
		}
		rec.Label("malformed body")
		return nil
	}
	if code != http.StatusOK || got["status"] != true {
		return fmt.Errorf("the answer to %q has code %d: %q", clip(r.body()), code, clip(string(body)))
	}
	mode := tokenizer.Normal
	switch want.Mode {
	case "Search":
		mode = tokenizer.Search
	case "Extended":
		mode = tokenizer.Extended
	}
	ts := s.tk.Analyze(want.Sentence, mode)
	if w := expectJSON(ts); !reflect.DeepEqual(got["tokens"], w) {
		return fmt.Errorf("sentence %q, mode %q: the tokens are\n%s\nwant\n%s", clip(want.Sentence), want.Mode, clip(fmt.Sprint(got["tokens"])), clip(fmt.Sprint(w)))
	}
	rec.LabelIf(want.Sentence == "", "empty sentence")
	rec.LabelIf(mode == tokenizer.Extended, "extended")
	rec.LabelIf(mode == tokenizer.Search, "search")
	rec.NonTrivialIf(len(ts) >= 4)
	return nil
}

func checkC18(c APICase, rec *Rec) error {
	s := theServer(c.Kind)
	if !c.Parallel {
		for _, r := range c.Reqs {
			code, body, err := doAPI(s, r)
			if err != nil {
				return fmt.Errorf("no answer to %q: %w", clip(r.body()), err)
			}
			if err := checkAPI(s, r, code, body, rec); err != nil {
				return err
			}
			rec.NonTrivialIf(code != http.StatusOK)
		}
		return nil
	}
	type answer struct {
		code int
		body []byte
		err  error
	}
	races := raceErrors()
	ans := make([]answer, len(c.Reqs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, r := range c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			ans[i].code, ans[i].body, ans[i].err = doAPI(s, r)
		}()
	}
	close(start)
	wg.Wait()
	for i, r := range c.Reqs {
		if ans[i].err != nil {
			return fmt.Errorf("no answer to %q: %w", clip(r.body()), ans[i].err)
		}
		if err := checkAPI(s, r, ans[i].code, ans[i].body, rec); err != nil {
			return fmt.Errorf("with %d requests at the same time: %w", len(c.Reqs), err)
		}
	}
	if n := raceErrors() - races; n > 0 {
		return fmt.Errorf("the race detector reported %d data race(s)", n)
	}
	return nil
}

// ---------------------------------------------------------------- C19

// DemoCase is a request to the demo page.
type DemoCase struct {
	Kind     string
	Sentence BS
	Mode     BS
	Lattice  BS     // "": the form, otherwise the graph
	Dot      string // how graphviz behaves
	Method   string
	Header   string `json:",omitempty"` // a header that has no say in the answer
}

var dotScripts = map[string]string{
	"ok":       "/bin/cat > \"$VERIF_DOT_IN\"\necho '<?xml version=\"1.0\"?><svg width=\"1\">FAKE</svg>'\n",
	"fail":     "/bin/cat > /dev/null\nexit 1\n",
	"fail out": "/bin/cat > /dev/null\necho '<svg>partial'\nexit 2\n",
	"early":    "exit 3\n",
	"killed":   "kill -9 $$\n",
	"late":     "/bin/sleep 0.4\nexit 4\n",
	"echo":     "echo '<svg>'\n/usr/bin/base64\necho '</svg>'\n",
	"no svg":   "/bin/cat > \"$VERIF_DOT_IN\"\necho plain text\n",
	"nothing":  "/bin/cat > \"$VERIF_DOT_IN\"\n",
	"slow":     "/bin/cat > /dev/null\n/bin/sleep 6\necho '<svg>FAKE</svg>'\n",
	"hang":     "exec /bin/sleep 200\n",
	"read one": "read x\nexit 5\n",
}

var dotOrder = []string{"fail", "fail out", "early", "killed", "late", "missing", "read one", "no svg", "nothing"}

func installDot(kind string) {
	dir := scratch("bin-" + strings.ReplaceAll(kind, " ", "-"))
	must(os.MkdirAll(dir, 0o755))
	if kind == "real" {
		must(os.Setenv("PATH", realPath))
		return
	}
	if kind != "missing" {
		p := filepath.Join(dir, "dot")
		if _, err := os.Stat(p); err != nil {
			// written under another name first: a file open for writing cannot be run
			must(os.WriteFile(p+".new", []byte("#!/bin/sh\n"+dotScripts[kind]), 0o755))
			must(os.Rename(p+".new", p))
		}
	}
	must(os.Setenv("PATH", dir))
	must(os.Setenv("VERIF_DOT_IN", scratch("last.dot")))
}

var realPath = os.Getenv("PATH")

var nasty = []string{
	"<script>alert(1)</script>", "</textarea><b>", "</td></tr><tr><td>x", "\"><img src=x onerror=alert(1)>", "' onclick='x", "&lt;b&gt;", "&amp;", "<!--", "-->", "{{.}}", "\\\"", "</title>", "<", ">", "&", "\"", "'", "`", "\x00", "\u2028", "javascript:alert(1)", "]]>", "<svg/onload=alert(1)>", "\\N", "+",
}

func genDemo(dots []string, lattice int, long bool) func(t *rapid.T) DemoCase {
	return func(t *rapid.T) DemoCase {
		c := DemoCase{Kind: pick(t, "kind", serverKinds), Method: pick(t, "method", []string{"GET", "POST"}), Dot: pick(t, "dot", dots)}
		var b strings.Builder
		for i, n := 0, intr(t, "pieces", 0, 5); i < n; i++ {
			switch intr(t, "piece", 0, 2) {
			case 0:
				b.WriteString(pick(t, "nasty", nasty))
			case 1:
				b.WriteString(string(genRealText(t, serverUser, 2)))
			default:
				b.WriteString(pick(t, "phrase", phrases))
			}
		}
		s := b.String()
		if long { // a graph larger than a pipe holds
			s = strings.Repeat("すもももももももものうち関西国際空港"+s, intr(t, "times", 60, 90))
		}
		c.Sentence = BS(s)
		c.Mode = pick(t, "mode", []BS{"", "Normal", "Search", "Extended", "search", "extended", "x", "<b>m</b>", "\" checked onclick=\"x"})
		if chance(t, "lattice", lattice) {
			c.Lattice = pick(t, "lat", []BS{"Lattice", "1", "true"})
		}
		c.Header = genHeader(t)
		return c
	}
}

func fetchDemo(s *testServer, c DemoCase) (page string, code int, err error) {
	v := url.Values{}
	v.Set("s", string(c.Sentence))
	v.Set("r", string(c.Mode))
	if c.Lattice != "" {
		v.Set("lattice", string(c.Lattice))
	}
	req, err := http.NewRequest("GET", s.url+"/?"+v.Encode(), nil)
	if c.Method != "GET" {
		req, err = http.NewRequest("POST", s.url+"/_demo", strings.NewReader(v.Encode()))
		if err == nil {
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		}
	}
	if err != nil {
		return "", 0, err
	}
	setHeader(req, c.Header)
	resp, err := client.Do(req)
	if err != nil {
		return "", 0, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err == nil {
		err = isMedia(resp, "text/html")
	}
	return string(b), resp.StatusCode, err
}

// sameText: an HTML text shows a string, up to characters that HTML cannot show.
func sameText(markup, s string) bool {
	norm := func(x string) string {
		var b strings.Builder
		for i := 0; i < len(x); {
			r, n := utf8.DecodeRuneInString(x[i:])
			if r == 0 {
				r = utf8.RuneError
			}
			b.WriteRune(r)
			i += n
		}
		return b.String()
	}
	return norm(html.UnescapeString(markup)) == norm(s)
}

var (
	tdRE    = regexp.MustCompile(`(?s)<td>(.*?)</td>`)
	tbodyRE = regexp.MustCompile(`(?s)(<tbody[^>]*>)(.*?)(</tbody>)`)
	errRE   = regexp.MustCompile(`(?s)<strong>(.*?)</strong>`)
	svgRE   = regexp.MustCompile(`(?s)<svg.*</svg>`)
	spaceRE = regexp.MustCompile(`\s+`)
	trRE    = regexp.MustCompile(`(?s)<tr>(.*?)</tr>`)
)

// skeleton is the page without the texts that depend on the request.
func skeleton(page string) string {
	page = svgRE.ReplaceAllString(page, "")
	page = tbodyRE.ReplaceAllString(page, "$1$3")
	page = tdRE.ReplaceAllString(page, "<td></td>")
	page = errRE.ReplaceAllString(page, "")
	return spaceRE.ReplaceAllString(page, " ")
}

func star(s string, ok bool) string {
	if !ok {
		return "*"
	}
	return s
}

func checkC19(c DemoCase, rec *Rec) error {
	s := theServer(c.Kind)
	rec.Label("graphviz " + c.Dot)
	sen, mode := string(c.Sentence), string(c.Mode)
	fail := func(format string, a ...any) error {
		return fmt.Errorf("sentence %q, mode %q, lattice %q, graphviz %s: %s", clip(sen), mode, c.Lattice, c.Dot, fmt.Sprintf(format, a...))
	}
	if c.Lattice == "" {
		// The page around the sentence is the page around a harmless one.
		const probe = "qzkprobezq"
		installDot("missing")
		base, _, err := fetchDemo(s, DemoCase{Sentence: probe, Mode: "Normal", Method: "GET"})
		if err != nil {
			return err
		}
		pre, post, ok := strings.Cut(base, probe)
		if !ok || strings.Contains(post, probe) {
			return fail("the page does not show a sentence once: %q", clip(base))
		}
		page, code, err := fetchDemo(s, c)
		if err != nil || code != http.StatusOK {
			return fail("answer %d %v", code, err)
		}
		// the chosen mode may be marked by "checked" on its input element
		unchk := func(x string) string {
			return spaceRE.ReplaceAllString(strings.ReplaceAll(strings.ReplaceAll(x, " checked", ""), "checked", ""), " ")
		}
		if !strings.HasPrefix(page, pre) {
			return fail("the page starts with %q", clip(page))
		}
		rest := page[len(pre):]
		end := strings.Index(rest, "<")
		if end < 0 {
			return fail("the page ends within the sentence: %q", clip(rest))
		}
		body, tail := rest[:end], rest[end:]
		if i := strings.Index(post, "<"); i > 0 && strings.HasSuffix(body, post[:i]) {
			body, tail = body[:len(body)-i], post[:i]+tail
		}
		strip := func(x string) string { return strings.ReplaceAll(strings.ReplaceAll(unchk(x), " >", ">"), "/ >", "/>") }
		if strip(tail) != strip(post) {
			return fail("the page behind the sentence is\n%q\nwant\n%q", clip(strip(tail)), clip(strip(post)))
		}
		if !sameText(body, sen) {
			return fail("the page shows %q", clip(body))
		}
		rec.NonTrivialIf(strings.ContainsAny(sen, "<>&\"'"))
		rec.Label("form")
		return nil
	}
	installDot("ok")
	base, _, err := fetchDemo(s, DemoCase{Sentence: "猫", Mode: "Normal", Lattice: "1", Method: "GET"})
	if err != nil {
		return err
	}
	installDot(c.Dot)
	_ = os.Remove(scratch("last.dot"))
	begin := time.Now()
	page, code, err := fetchDemo(s, c)
	if err != nil {
		return fail("no answer after %v: %v", time.Since(begin).Round(time.Second), err)
	}
	if code != http.StatusOK {
		return fail("answer %d: %q", code, clip(page))
	}
	if c.Dot == "real" {
		if i, j := strings.Index(page, "<svg"), strings.LastIndex(page, "</svg>"); i >= 0 && j > i {
			page = page[:i] + "<svg>FAKE</svg>" + page[j+len("</svg>"):]
		}
	}
	if c.Dot == "no svg" {
		page = strings.Replace(page, "plain text", "", 1)
	}
	tds := tdRE.FindAllStringSubmatch(page, -1)
	for _, td := range tds {
		if strings.Contains(td[1], "<") {
			return fail("a cell of the page contains markup: %q", clip(td[1]))
		}
	}
	if got, want := skeleton(page), skeleton(base); got != want {
		return fail("the page is\n%q\nwant\n%q", clip(got), clip(want))
	}
	if len(tds) < 2 || !sameText(tds[0][1], sen) || !sameText(tds[1][1], mode) {
		return fail("the page does not show the sentence and the mode: %q", clip(page))
	}
	var rows []string
	if m := tbodyRE.FindStringSubmatch(page); m != nil {
		for _, tr := range trRE.FindAllStringSubmatch(m[2], -1) {
			rows = append(rows, tr[1])
		}
	} else {
		return fail("the page has no table of tokens")
	}
	errTexts := errRE.FindAllStringSubmatch(page, -1)
	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" {
		m = tokenizer.Search
	}
	switch c.Dot {
	case "ok":
		if len(errTexts) != 0 || !strings.Contains(page, "FAKE</svg>") {
			return fail("graphviz succeeds, but the page is %q", clip(page))
		}
	case "real":
		if len(errTexts) != 0 { // graphviz may refuse odd text
			rec.Label("real graphviz refused the graph")
			return nil
		}
		if !strings.Contains(page, "FAKE</svg>") {
			return fail("graphviz succeeds, but the page has no graph")
		}
	case "no svg", "nothing": // graphviz reports success, but there is no graph to show
		if len(errTexts) != 0 {
			if len(rows) != 0 {
				return fail("the page shows tokens besides the error")
			}
			rec.NonTrivial()
			return nil
		}
	default:
		if len(errTexts) == 0 || strings.TrimSpace(errTexts[0][1]) == "" || strings.Contains(errTexts[0][1], "<") {
			return fail("the page has no error text: %q", clip(page))
		}
		if len(rows) != 0 {
			return fail("the page shows tokens besides the error")
		}
		rec.NonTrivial()
		return nil
	}
	var ts []tokenizer.Token
	for _, t := range s.tk.Analyze(sen, m) {
		if t.ID != tokenizer.BosEosID {
			ts = append(ts, t)
		}
	}
	if len(rows) != len(ts) {
		return fail("the page shows %d tokens, want %s", len(rows), dumpTokens(ts))
	}
	for i, t := range ts {
		cells := tdRE.FindAllStringSubmatch(rows[i], -1)
		b, bok := t.BaseForm()
		r, rok := t.Reading()
		p, pok := t.Pronunciation()
		pos := strings.Join(t.POS(), ",")
		want := []string{t.Surface, star(pos, pos != ""), star(b, bok), star(r, rok), star(p, pok)}
		if len(cells) != len(want) {
			return fail("row %d of the page is %q", i, rows[i])
		}
		for j := range want {
			if !sameText(cells[j][1], want[j]) {
				return fail("row %d of the page is %q, want %q", i, rows[i], want)
			}
		}
	}
	if c.Dot == "ok" { // what graphviz was given
		dot, err := os.ReadFile(scratch("last.dot"))
		if err != nil {
			return fail("graphviz was given nothing: %v", err)
		}
		var want bytes.Buffer
		s.tk.AnalyzeGraph(&want, sen, m)
		if !strings.Contains(sen, "\x00") {
			if g, w := canonDot(string(dot)), canonDot(want.String()); g != w {
				return fail("graphviz was given\n%s\nwant\n%s", clip(g), clip(w))
			}
		}
	}
	rec.NonTrivialIf(len(ts) >= 2)
	return nil
}

// DemosCase is a list of requests to the demo page, sent at the same time.
type DemosCase struct {
	Reqs []DemoCase
}

func genDemos(t *rapid.T) DemosCase {
	var c DemosCase
	for i, n := 0, intr(t, "n", 2, 10); i < n; i++ {
		d := genDemo([]string{"ok"}, 80, false)(t)
		c.Reqs = append(c.Reqs, d)
	}
	return c
}

func checkDemos(c DemosCase, rec *Rec) error {
	installDot("echo")
	races := raceErrors()
	pages, errs := make([]string, len(c.Reqs)), make([]error, len(c.Reqs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, r := range c.Reqs {
		s := theServer(r.Kind)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var code int
			pages[i], code, errs[i] = fetchDemo(s, r)
			if errs[i] == nil && code != http.StatusOK {
				errs[i] = fmt.Errorf("code %d", code)
			}
		}()
	}
	close(start)
	wg.Wait()
	if n := raceErrors() - races; n > 0 {
		return fmt.Errorf("the race detector reported %d data race(s)", n)
	}
	graphs := 0
	for i, r := range c.Reqs {
		sen, mode := string(r.Sentence), string(r.Mode)
		fail := func(format string, a ...any) error {
			return fmt.Errorf("with %d requests at the same time, sentence %q, mode %q, lattice %q: %s", len(c.Reqs), clip(sen), mode, r.Lattice, fmt.Sprintf(format, a...))
		}
		if errs[i] != nil {
			return fail("%v", errs[i])
		}
		// Alone, the page has been checked already: it has to be the same one.
		s := theServer(r.Kind)
		alone, _, err := fetchDemo(s, r)
		if err != nil {
			return fail("%v", err)
		}
		if got, want := canonSVG(pages[i]), canonSVG(alone); got != want {
			return fail("the page is\n%q\nwant\n%q", got, want)
		}
		if r.Lattice == "" {
			continue
		}
		graphs++
		if errTexts := errRE.FindAllString(pages[i], -1); len(errTexts) != 0 {
			return fail("graphviz succeeds, but the page says %q", errTexts)
		}
	}
	rec.NonTrivialIf(graphs >= 2)
	return nil
}

// canonSVG makes the graph that the fake graphviz encoded comparable.
func canonSVG(page string) string {
	return svgRE.ReplaceAllStringFunc(page, func(x string) string {
		x = strings.Join(strings.Fields(strings.TrimSuffix(strings.TrimPrefix(x, "<svg>"), "</svg>")), "")
		b, err := base64.StdEncoding.DecodeString(x)
		if err != nil {
			return fmt.Sprintf("no base64: %v %q", err, x)
		}
		return canonDot(strings.ReplaceAll(string(b), "\x00", ""))
	})
}

func init() {
	fixture["C18"] = func() { theServer("ipa"); theServer("ipa+user") }
	fixture["C19"] = fixture["C18"]
	reg("C18", "requests", 60, 200, 6000, genAPICase(false, 0, serverKinds), checkC18)
	reg("C18", "parallel requests", 20, 64, 2000, genAPICase(true, 1, serverKinds), checkC18)
	reg("C18", "long sentences", 3, 24, 800, genAPICase(false, 100, serverKinds), checkC18)
	reg("C18", "unidic", 20, 4, 60, genAPICase(false, 0, []string{"uni"}), checkC18)
	reg("C19", "form", 40, 120, 4000, genDemo([]string{"missing"}, 0, false), checkC19)
	reg("C19", "graph", 20, 80, 3000, genDemo([]string{"ok"}, 100, false), checkC19)
	reg("C19", "graphviz faults", 10, 48, 1000, genDemo(dotOrder, 100, false), checkC19)
	reg("C19", "graphviz faults, large graph", 4, 24, 400, genDemo(append(dotOrder, "ok"), 100, true), checkC19)
	reg("C19", "parallel pages", 10, 32, 600, genDemos, checkDemos)
	reg("C19", "real graphviz", 4, 16, 200, genDemo([]string{"real"}, 100, false), checkC19)
	reg("C19", "graphviz hangs", 1, 8, 40, genDemo([]string{"hang"}, 100, true), checkC19)
}
