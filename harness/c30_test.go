package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"strings"

	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C30

// PageOp is something done to a page by its user or the network.
type PageOp struct {
	Op   string // type, mode, answer, settle, press, call
	Text BS     `json:",omitempty"`
	N    int    `json:",omitempty"`
}

// PageCase is a history of a demo page in a browser.
type PageCase struct {
	Page     string // server, wasm
	Kind     string
	Sentence BS // the form values that the page is asked for with
	Mode     string
	Method   string
	Ops      []PageOp
	Finally  []int // order in which the answers still missing arrive
}

type pageRequest struct {
	ID     int    `json:"id"`
	Method string `json:"method"`
	URL    string `json:"url"`
	CType  string `json:"ctype"`
	Body   string `json:"body"`
}

type pageForm struct {
	Method string      `json:"method"`
	URL    string      `json:"url"`
	Fields [][2]string `json:"fields"`
}

// pageState is what the browser shows.
type pageState struct {
	Box         *string       `json:"box"`
	Table       bool          `json:"table"`
	Modes       []string      `json:"modes"`
	Mode        *string       `json:"mode"`
	Checked     int           `json:"checked"`
	Rows        [][]string    `json:"rows"`
	Odd         []string      `json:"odd"`
	Requests    []pageRequest `json:"requests"`
	Forms       []pageForm    `json:"forms"`
	Errors      []string      `json:"errors"`
	Unsupported string        `json:"unsupported"`
	Alerted     bool          `json:"alerted"`
	Elements    int           `json:"elements"`
	Broken      string        `json:"broken"`
	Called      *string       `json:"called"`
}

// browser is the program data/page.js.
type browser struct {
	in  io.WriteCloser
	out *bufio.Reader
	log *lockedBuffer
}

var browsers = map[string]*browser{}

func startBrowser(page string) *browser {
	if b, ok := browsers[page]; ok {
		return b
	}
	argv := strings.Split(os.Getenv("VERIF_BROWSER_"+page), "\t")
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = []string{"HOME=/", "PATH=/usr/bin:/bin"}
	b := &browser{log: &lockedBuffer{}}
	cmd.Stderr = b.log
	var err error
	b.in, err = cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	b.out = bufio.NewReaderSize(out, 1<<20)
	must(cmd.Start())
	browsers[page] = b
	return b
}

func (b *browser) do(op map[string]any) (st pageState) {
	j, err := json.Marshal(op)
	must(err)
	if _, err = b.in.Write(append(j, '\n')); err == nil {
		var line []byte
		if line, err = b.out.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(line, &st)
		}
	}
	if err != nil || st.Broken != "" {
		// the browser is part of the check
		fmt.Fprintf(os.Stderr, "the browser failed: %v %s\n%s\n", err, st.Broken, b.log.String())
		os.Exit(4)
	}
	return st
}

// pageText is a text as a browser holds it.
func pageText(s string) string {
	return strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(s)
}

func genPage(page string) func(t *rapid.T) PageCase {
	return func(t *rapid.T) PageCase {
		c := PageCase{Page: page, Kind: pick(t, "kind", serverKinds)}
		text := func() BS {
			var b strings.Builder
			for i, n := 0, intr(t, "pieces", 0, 3); i < n; i++ {
				switch intr(t, "piece", 0, 3) {
				case 0:
					b.WriteString(pick(t, "nasty", nasty))
				case 1:
					b.WriteString(pick(t, "phrase", phrases))
				default:
					b.WriteString(string(genRealText(t, serverUser, 2)))
				}
			}
			return BS(strings.ToValidUTF8(b.String(), "?"))
		}
		if page == "server" {
			c.Method = pick(t, "method", []string{"GET", "POST"})
			c.Mode = pick(t, "mode", []string{"", "Normal", "Search", "Extended"})
			if chance(t, "filled", 60) {
				c.Sentence = text()
			}
		}
		for i, n := 0, intr(t, "ops", 1, 8); i < n; i++ {
			o := PageOp{Op: pick(t, "op", []string{"type", "type", "type", "mode", "answer", "answer", "settle", "press"})}
			if page == "wasm" && o.Op != "type" {
				o.Op = "call"
			}
			switch o.Op {
			case "type", "call":
				o.Text = text()
			case "mode":
				o.Text = pick(t, "choice", []BS{"Normal", "Search", "Extended"})
			case "answer":
				o.N = intr(t, "which", 0, 7)
			}
			c.Ops = append(c.Ops, o)
		}
		for i := 0; i < 4; i++ {
			c.Finally = append(c.Finally, intr(t, "last", 0, 7))
		}
		return c
	}
}

// pageRows are the rows that show the tokens: the alternatives for each cell.
func pageRows(ts []tokenizer.Token, page string) (ret [][][]string) {
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		row := [][]string{{t.Surface}}
		b, _ := t.BaseForm()
		r, _ := t.Reading()
		p, _ := t.Pronunciation()
		for _, x := range []string{strings.Join(t.POS(), ","), b, r, p} {
			if x == "" && page == "wasm" {
				row = append(row, []string{"*", ""})
			} else if x == "" {
				row = append(row, []string{"*"})
			} else {
				row = append(row, []string{x})
			}
		}
		ret = append(ret, row)
	}
	return ret
}

// unprintable: a browser shows U+FFFD for what cannot be transported.
func sameCell(got string, want []string) bool {
	for _, w := range want {
		if strings.ToValidUTF8(got, "\uFFFD") == strings.ToValidUTF8(w, "\uFFFD") {
			return true
		}
	}
	return false
}

func sameRows(got [][]string, want [][][]string) bool {
	if len(got) != len(want) {
		return false
	}
	for i, r := range got {
		if len(r) != len(want[i]) {
			return false
		}
		for j := range r {
			if !sameCell(r[j], want[i][j]) {
				return false
			}
		}
	}
	return true
}

func checkPage(c PageCase, rec *Rec) error {
	b := startBrowser(c.Page)
	var trace []string
	fail := func(format string, a ...any) error {
		return fmt.Errorf("page %s asked for with sentence %q and mode %q, then %s: %s", c.Page, clip(string(c.Sentence)), c.Mode, strings.Join(trace, ", "), fmt.Sprintf(format, a...))
	}
	var (
		s       *testServer
		st      pageState
		pending []pageRequest
		base    = "http://127.0.0.1:1/"
		tk      *tokenizer.Tokenizer
	)
	if c.Page == "server" {
		s = theServer(c.Kind)
		tk = s.tk
		page, code, err := fetchDemo(s, DemoCase{Kind: c.Kind, Sentence: c.Sentence, Mode: BS(c.Mode), Method: c.Method})
		if err != nil || code != http.StatusOK {
			return fail("answer %d %v", code, err)
		}
		base = s.url + "/_demo"
		st = b.do(map[string]any{"op": "load", "html": page, "url": base})
	} else {
		setup := Setup{Real: "ipa", Omit: true}
		tk, _ = setup.Tokenizer()
		path := "/docs/index.html"
		if c.Kind != "ipa" {
			path = "/_examples/wasm/kagome.html"
		}
		page, err := os.ReadFile(os.Getenv("VERIF_REPO") + path)
		must(err)
		st = b.do(map[string]any{"op": "load", "html": string(page), "url": base, "wasm": true})
	}
	inconclusive := func() bool {
		if st.Unsupported == "" {
			return false
		}
		rec.Label("beyond the browser: " + st.Unsupported)
		return true
	}
	if inconclusive() {
		return nil
	}
	sentence, mode := pageText(string(c.Sentence)), ""
	if st.Box == nil || !st.Table {
		return fail("the page has no input or no table of tokens")
	}
	elements := st.Elements
	if c.Page == "server" {
		if want := strings.ReplaceAll(sentence, "\x00", "\uFFFD"); *st.Box != want {
			return fail("the page holds the sentence %q", *st.Box)
		}
		if !reflect.DeepEqual(st.Modes, []string{"Normal", "Search", "Extended"}) || st.Checked != 1 || st.Mode == nil {
			return fail("the page offers the modes %q of which %d are chosen", st.Modes, st.Checked)
		}
		mode = *st.Mode
		if c.Mode != "" && mode != c.Mode {
			return fail("the page has mode %s chosen", mode)
		}
		sentence = *st.Box
	}
	// look checks what has to be so at any time.
	look := func() error {
		if len(st.Odd) > 0 {
			return fail("the table of tokens contains %q", st.Odd)
		}
		if st.Alerted {
			return fail("the text was run as a script")
		}
		if st.Elements != elements {
			return fail("the page has grown from %d to %d elements outside of the table", elements, st.Elements)
		}
		return nil
	}
	merge := func() {
		pending = append(pending, st.Requests...)
	}
	merge()
	answer := func(i int) error {
		r := pending[i]
		pending = append(pending[:i:i], pending[i+1:]...)
		op := map[string]any{"op": "answer", "id": r.ID, "status": 502, "ctype": "text/plain", "body": ""}
		if s != nil && strings.HasPrefix(r.URL, s.url+"/") {
			req, err := http.NewRequest(r.Method, r.URL, strings.NewReader(r.Body))
			if err != nil {
				return fail("request %s %s: %v", r.Method, r.URL, err)
			}
			if r.CType != "" {
				req.Header.Set("Content-Type", r.CType)
			}
			resp, err := client.Do(req)
			if err != nil {
				return fail("no answer to the request of the page: %v", err)
			}
			body, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil {
				return fail("no answer to the request of the page: %v", err)
			}
			op["status"], op["ctype"], op["body"] = resp.StatusCode, resp.Header.Get("Content-Type"), string(body)
		}
		st = b.do(op)
		merge()
		return nil
	}
	changed := false
	for _, o := range c.Ops {
		trace = append(trace, strings.TrimSpace(fmt.Sprintf("%s %q", o.Op, clip(string(o.Text)))))
		switch o.Op {
		case "type":
			sentence, changed = pageText(string(o.Text)), true
			st = b.do(map[string]any{"op": "type", "text": string(o.Text)})
			merge()
		case "mode":
			if mode != string(o.Text) { // clicking the chosen one again changes nothing
				mode, changed = string(o.Text), true
			}
			st = b.do(map[string]any{"op": "mode", "text": string(o.Text)})
			merge()
			if st.Mode == nil || *st.Mode != mode {
				return fail("the chosen mode is not %s", mode)
			}
		case "settle":
			st = b.do(map[string]any{"op": "settle", "settle": true})
			merge()
		case "answer":
			if len(pending) == 0 {
				continue
			}
			if err := answer(o.N % len(pending)); err != nil {
				return err
			}
		case "call":
			st = b.do(map[string]any{"op": "call", "text": string(o.Text)})
			if err := checkCalled(tk, string(o.Text), st.Called); err != nil {
				return fail("%v", err)
			}
			continue
		case "press":
			st = b.do(map[string]any{"op": "press"})
			merge()
			if inconclusive() {
				return nil
			}
			if len(st.Forms) == 0 {
				rec.Label("the form is not sent by the browser")
				continue
			}
			if err := checkSent(s, st.Forms[0], sentence, mode); err != nil {
				return fail("%v", err)
			}
			rec.Label("graph page opened")
		}
		if inconclusive() {
			return nil
		}
		if err := look(); err != nil {
			return err
		}
		if st.Box == nil || *st.Box != sentence {
			return fail("the text typed has changed to %q", *st.Box)
		}
	}
	rec.LabelIf(len(pending) > 1, "several answers outstanding")
	for i := 0; i < 60; i++ {
		for j := 0; len(pending) > 0; j++ {
			if j > 200 {
				return fail("the page does not stop asking: %v", pending)
			}
			k := c.Finally[j%len(c.Finally)] % len(pending)
			trace = append(trace, fmt.Sprintf("answer %d", k))
			if err := answer(k); err != nil {
				return err
			}
			if inconclusive() {
				return nil
			}
			if err := look(); err != nil {
				return err
			}
		}
		st = b.do(map[string]any{"op": "settle", "settle": true})
		merge()
		if len(pending) == 0 {
			break
		}
	}
	if inconclusive() {
		return nil
	}
	if err := look(); err != nil {
		return err
	}
	if !changed {
		return nil
	}
	m := tokenizer.Normal
	switch mode {
	case "Search":
		m = tokenizer.Search
	case "Extended":
		m = tokenizer.Extended
	}
	want := pageRows(tk.Analyze(sentence, m), c.Page)
	if !sameRows(st.Rows, want) {
		return fail("the page shows, for %q in mode %q,\n%q\nwant\n%q\nerrors of the page: %q", clip(sentence), mode, st.Rows, want, st.Errors)
	}
	rec.NonTrivialIf(len(want) >= 2)
	rec.LabelIf(strings.ContainsAny(sentence, "<>&\"'"), "markup characters")
	return nil
}

// checkCalled compares what the browser program returns with the library.
func checkCalled(tk *tokenizer.Tokenizer, in string, got *string) error {
	if got == nil {
		return fmt.Errorf("kagome_tokenize(%q) returns nothing", clip(in))
	}
	type token struct {
		ID    int    `json:"word_id"`
		Class string `json:"word_type"`
		Start int    `json:"word_position"`
		Sur   string `json:"surface_form"`
		POS   string `json:"pos"`
		Base  string `json:"base_form"`
		Read  string `json:"reading"`
		Pron  string `json:"pronunciation"`
	}
	var list, want []token
	if err := json.Unmarshal([]byte(*got), &list); err != nil {
		return fmt.Errorf("kagome_tokenize(%q) returns %s", clip(in), clip(*got))
	}
	for _, t := range tk.Tokenize(in) {
		x := token{ID: t.ID, Class: t.Class.String(), Start: t.Start, Sur: t.Surface, POS: strings.Join(t.POS(), ",")}
		x.Base, _ = t.BaseForm()
		x.Read, _ = t.Reading()
		x.Pron, _ = t.Pronunciation()
		want = append(want, x)
	}
	if len(list)+len(want) > 0 && !reflect.DeepEqual(list, want) {
		return fmt.Errorf("kagome_tokenize(%q) returns\n%v\nwant\n%v", clip(in), list, want)
	}
	return nil
}

// checkSent sends the form as a browser does and looks at the page that opens.
func checkSent(s *testServer, f pageForm, sentence, mode string) error {
	installDot("ok")
	v := url.Values{}
	for _, x := range f.Fields {
		v.Add(x[0], x[1])
	}
	var (
		resp *http.Response
		err  error
	)
	if !strings.HasPrefix(f.URL, s.url+"/") {
		return fmt.Errorf("the form is sent to %s", f.URL)
	}
	if f.Method == "post" {
		resp, err = client.PostForm(f.URL, v)
	} else {
		resp, err = client.Get(f.URL + "?" + v.Encode())
	}
	if err != nil {
		return fmt.Errorf("no answer to the form: %w", err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != http.StatusOK {
		return fmt.Errorf("the answer to the form is %d %v", resp.StatusCode, err)
	}
	page := string(b)
	sent := strings.ReplaceAll(sentence, "\n", "\r\n")
	tds := tdRE.FindAllStringSubmatch(page, -1)
	if len(tds) < 2 || !sameText(tds[0][1], sent) || !sameText(tds[1][1], mode) || !strings.Contains(page, "FAKE</svg>") {
		return fmt.Errorf("the form %v opens a page that does not show the graph of the sentence in mode %s: %q", f, mode, clip(page))
	}
	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" {
		m = tokenizer.Search
	}
	var n int
	for _, t := range s.tk.Analyze(sent, m) {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		if i := 2 + 5*n; i >= len(tds) || !sameText(tds[i][1], t.Surface) {
			return fmt.Errorf("the form %v opens a page on which token %d is not %q: %q", f, n, t.Surface, clip(page))
		}
		n++
	}
	if len(tds) != 2+5*n {
		return fmt.Errorf("the form %v opens a page with %d cells, want %d tokens", f, len(tds), n)
	}
	return nil
}

func init() {
	fixture["C30"] = func() { theServer("ipa"); theServer("ipa+user") }
	reg("C30", "live page", 50, 80, 3000, genPage("server"), checkPage)
	reg("C30", "wasm page", 25, 24, 600, genPage("wasm"), checkPage)
}
