package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C23

// liveHeap is what is still in use after the garbage collector has run.
func liveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ { // pools are emptied in two steps
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// grows reports by how much two further rounds of the work enlarge the live heap:
// only what grows again and again is left behind.
func grows(round func()) (int64, int64) {
	a := liveHeap()
	round()
	b := liveHeap()
	if b-a < heapSlack {
		return b - a, 0
	}
	round()
	c := liveHeap()
	return b - a, c - b
}

const heapSlack = 160 << 10

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(d)
}

func children() int {
	n := 0
	self := strconv.Itoa(os.Getpid())
	ps, err := filepath.Glob("/proc/[0-9]*/stat")
	must(err)
	for _, p := range ps {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		s := string(b)
		if f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:]); len(f) > 1 && f[1] == self {
			n++
		}
	}
	return n
}

// held is what a process holds besides memory.
type held struct{ goroutines, files, children, temps int }

func tempDir() string {
	d := scratch("tmp")
	must(os.MkdirAll(d, 0o755))
	must(os.Setenv("TMPDIR", d))
	return d
}

func holding() held {
	d, err := os.ReadDir(tempDir())
	must(err)
	return held{runtime.NumGoroutine(), openFiles(), children(), len(d)}
}

func (h held) within(w held) bool {
	return h.goroutines <= w.goroutines && h.files <= w.files && h.children <= w.children && h.temps <= w.temps
}

// settles waits until no more is held than before.
func settles(before held, limit time.Duration) error {
	end := time.Now().Add(limit)
	for {
		http.DefaultClient.CloseIdleConnections()
		client.CloseIdleConnections()
		now := holding()
		if now.within(before) {
			return nil
		}
		if time.Now().After(end) {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, true)]
			return fmt.Errorf("goroutines, open files, child processes, temporary files: %v before, %v afterwards\n%s", before, now, buf)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// LeftCase is work of the library, done again and again with new inputs.
type LeftCase struct {
	Setup Setup
	Texts []BS
	Ops   []string
	Big   int // characters of one large input
}

var leftOps = []string{"tokenize", "analyze", "search", "extended", "wakati", "dot", "graph", "accessors", "filter", "ja", "split", "new", "dictionary"}

func genLeft(real bool) func(t *rapid.T) LeftCase {
	return func(t *rapid.T) LeftCase {
		var c LeftCase
		var ctx dictCtx
		if real {
			c.Setup = genRealSetup(t, []string{"ipa", "ipa", "uni"}, 3)
		} else {
			c.Setup, ctx = genSynthSetup(t, 3)
		}
		for i, n := 0, intr(t, "texts", 1, 3); i < n; i++ {
			if real {
				c.Texts = append(c.Texts, genRealText(t, c.Setup.User, 3))
			} else {
				c.Texts = append(c.Texts, genText(t, ctx, c.Setup.Dict.Words, c.Setup.User, 3))
			}
			if len(c.Texts[i]) > 120 {
				c.Texts[i] = c.Texts[i][:120]
			}
		}
		for i, n := 0, intr(t, "nops", 1, 4); i < n; i++ {
			c.Ops = append(c.Ops, pick(t, "op", leftOps))
		}
		if chance(t, "big", 30) {
			c.Big = intr(t, "bigsize", 1000, 40000)
		}
		return c
	}
}

func checkLeft(c LeftCase, rec *Rec) error {
	d, u := c.Setup.dicts()
	tk := newTokenizer(d, u, c.Setup.Omit)
	jaf, err := ja.NewFilter()
	must(err)
	pf := filter.NewPOSFilter([]string{"名詞"}, []string{filter.Any, "一般"})
	wf := filter.NewWordFilter([]string{"猫"})
	n := 0
	round := func() {
		for i := 0; i < 2500; i++ {
			n++
			in := string(c.Texts[n%len(c.Texts)]) + strconv.Itoa(n) + "。" + string(c.Texts[(n/2)%len(c.Texts)])
			switch c.Ops[n%len(c.Ops)] {
			case "tokenize":
				tk.Tokenize(in)
			case "analyze":
				tk.Analyze(in, tokenizer.Normal)
			case "search":
				tk.Analyze(in, tokenizer.Search)
			case "extended":
				tk.Analyze(in, tokenizer.Extended)
			case "wakati":
				tk.Wakati(in)
			case "dot":
				tk.Dot(io.Discard, in)
			case "graph":
				tk.AnalyzeGraph(io.Discard, in, modes[n%len(modes)])
			case "accessors":
				for _, t := range tk.Tokenize(in) {
					_, _, _ = t.Features(), t.POS(), t.String()
					t.BaseForm()
					t.Reading()
					t.Pronunciation()
					t.InflectionalType()
					t.InflectionalForm()
					t.UserExtra()
					_ = tokenizer.NewTokenData(t)
				}
			case "filter":
				ts := tk.Tokenize(in)
				pf.Drop(&ts)
				wf.Keep(&ts)
			case "ja":
				jaf.Yield(tk.Tokenize(in))
			case "split":
				s := filter.SentenceSplitter{Delim: []rune{'。'}, Follower: []rune{'」'}, SkipWhiteSpace: true, DoubleLineFeedSplit: true, MaxRuneLen: 10 + n%100}
				readAll(strings.NewReader(in), s)
			case "dictionary":
				if n%25 == 0 {
					small := DictSpec{N: 1, Conn: []int{0}, TblLen: 128, Cats: []CatSpec{{Group: true, Unk: []UnkSpec{{W: 5, F: []BS{"未知"}}}}}, Words: []WordSpec{{S: BS(in), POS: []BS{"名詞"}, C: []BS{"ネコ"}}}}
					ts := newTokenizer(small.Build(), BuildUser([]UserSpec{{S: "猫", Tokens: []BS{"猫"}, Yomi: []BS{"ネコ"}, Pos: "名詞"}}), false).Tokenize(in + "猫")
					for _, t := range ts {
						_, _ = t.Features(), t.POS()
					}
				}
			case "new":
				if n%5 == 0 {
					newTokenizer(d, u, c.Setup.Omit).Tokenize(in)
				}
			}
		}
		if c.Big > 0 {
			in := stretch(string(c.Texts[0])+"あ", c.Big)
			tk.Analyze(in, modes[n%len(modes)])
		}
	}
	round()
	before := holding()
	if a, b := grows(round); b >= heapSlack {
		return fmt.Errorf("the operations %v leave memory behind: 2500 of them take %d bytes, 2500 more take %d", c.Ops, a, b)
	}
	if err := settles(before, 20*time.Second); err != nil {
		return fmt.Errorf("after the operations %v: %w", c.Ops, err)
	}
	rec.NonTrivial()
	rec.LabelIf(c.Big > 0, "large input")
	for _, o := range c.Ops {
		rec.Label(o)
	}
	runtime.KeepAlive(tk)
	return nil
}

// readAll splits a text.
func readAll(r io.Reader, s filter.SentenceSplitter) {
	sc := bufio.NewScanner(r)
	sc.Split(s.ScanSentences)
	for sc.Scan() {
		_ = sc.Text()
	}
}

// LeftRuns is a list of command lines, run again and again.
type LeftRuns struct {
	Lines []ArgCase
	Input BS
}

func genLeftRuns(t *rapid.T) LeftRuns {
	var c LeftRuns
	for i, n := 0, intr(t, "n", 1, 4); i < n; i++ {
		c.Lines = append(c.Lines, genArgs(pick(t, "cmd", []string{"tokenize", "sentence", "lattice"}))(t))
	}
	return c
}

func checkLeftRuns(c LeftRuns, rec *Rec) error {
	ran := 0
	round := func(times int) error {
		for i := 0; i < times; i++ {
			for j := range c.Lines {
				l := &c.Lines[j]
				k := commands[l.Cmd]
				args := l.resolve()
				vals, _, perr := k.parse(args)
				if perr == nil && !runnable(vals) {
					continue
				}
				if vals["sysdict"] == "uni" || vals["dict"] == "uni" {
					continue
				}
				*k.out, *k.err = io.Discard, io.Discard
				before := openFiles()
				_ = withStdin(string(l.Stdin), false, func() error { return k.run(context.Background(), args) })
				if after := openFiles(); after > before {
					return fmt.Errorf("%s %q leaves %d files open", l.Cmd, args, after-before)
				}
				ran++
			}
		}
		return nil
	}
	// files that are closed only when they are collected as garbage are left open
	old := debug.SetGCPercent(-1)
	err := round(1)
	before := holding()
	if err == nil {
		err = round(3)
	}
	debug.SetGCPercent(old)
	if err != nil {
		return err
	}
	if err := settles(before, 20*time.Second); err != nil {
		return fmt.Errorf("after running %v: %w", c.Lines, err)
	}
	rec.NonTrivialIf(ran > 0)
	return nil
}

// LeftFails is a list of command lines that fail, each at another point.
type LeftFails struct {
	Lines []FailLine
}

// FailLine is a command line that fails.
type FailLine struct {
	Cmd   string
	Why   string
	Split bool
	JSON  bool
}

var failLines = map[string][]string{
	"tokenize": {"long line", "long line", "late long line", "file is a folder", "dictionary is a folder", "dictionary is not one", "user is a folder", "bad user", "no file"},
	"sentence": {"long line", "late long line", "file is a folder", "no file"},
	"lattice":  {"output is a folder", "output is full", "user is a folder", "bad user"},
}

func genLeftFails(t *rapid.T) LeftFails {
	var c LeftFails
	for i, n := 0, intr(t, "n", 1, 6); i < n; i++ {
		cmd := pick(t, "cmd", []string{"tokenize", "tokenize", "sentence", "lattice"})
		c.Lines = append(c.Lines, FailLine{Cmd: cmd, Why: pick(t, "why", failLines[cmd]), Split: rapid.Bool().Draw(t, "split"), JSON: rapid.Bool().Draw(t, "json")})
	}
	return c
}

func (l *FailLine) args() []string {
	var args []string
	if l.Cmd == "tokenize" {
		dict := saveDict(&DictSpec{N: 1, Conn: []int{0}, TblLen: 128, Cats: []CatSpec{{Group: true, Unk: []UnkSpec{{W: 5, F: []BS{"未知"}}}}}, Words: []WordSpec{{S: "猫", POS: []BS{"名詞"}, C: []BS{"ネコ"}}}}, "dict")
		args = []string{fmt.Sprintf("-split=%v", l.Split), fmt.Sprintf("-json=%v", l.JSON)}
		if !strings.HasPrefix(l.Why, "dictionary") {
			args = append(args, "-dict", dict)
		}
	}
	long := strings.Repeat("あ", 70000)
	switch l.Why {
	case "long line":
		args = append(args, "-file", writeScratch("c23-in", long+"\n"))
	case "late long line":
		args = append(args, "-file", writeScratch("c23-in", "猫です。\n\n"+strings.Repeat("猫\n", 50)+long))
	case "file is a folder":
		args = append(args, "-file", scratch(""))
	case "no file":
		args = append(args, "-file", scratch("no/such/file"))
	case "dictionary is a folder":
		args = append(args, "-dict", scratch(""), "-file", writeScratch("c23-in", "猫\n"))
	case "dictionary is not one":
		args = append(args, "-dict", writeScratch("c23-bad", "猫,猫\n"), "-file", writeScratch("c23-in", "猫\n"))
	case "user is a folder":
		args = append(args, "-udict", scratch(""))
	case "bad user":
		args = append(args, "-udict", writeScratch("c23-bad", "猫,猫\n"))
	case "output is a folder":
		args = append(args, "-output", scratch(""))
	case "output is full":
		args = append(args, "-output", "/dev/full")
	}
	if l.Cmd == "lattice" {
		args = append(args, "猫です")
	} else if strings.Contains(l.Why, "user") {
		args = append(args, "-file", writeScratch("c23-in", "猫\n"))
	}
	return args
}

func checkLeftFails(c LeftFails, rec *Rec) error {
	old := debug.SetGCPercent(-1) // or files would be closed when they are collected
	defer debug.SetGCPercent(old)
	holds := holding()
	for _, l := range c.Lines {
		k := commands[l.Cmd]
		args := l.args()
		*k.out, *k.err = io.Discard, io.Discard
		for i := 0; i < 2; i++ { // the first time something may be opened for good
			before := openFiles()
			err := withStdin("", false, func() error { return k.run(context.Background(), args) })
			if after := openFiles(); after > before && i > 0 {
				return fmt.Errorf("%s %q, which fails with %v, leaves %d files open", l.Cmd, args, err, after-before)
			}
			rec.NonTrivialIf(err != nil)
			rec.LabelIf(err != nil, l.Cmd+": "+l.Why)
		}
	}
	if err := settles(holds, 20*time.Second); err != nil {
		return fmt.Errorf("after running %v: %w", c.Lines, err)
	}
	return nil
}

// LeftSrv is a stream of requests to a server.
type LeftSrv struct {
	Text    BS
	Reqs    []string // api, bad, form, graph, parallel
	Dot     string
	Clients []string
}

func genLeftSrv(t *rapid.T) LeftSrv {
	c := LeftSrv{Text: BS(strings.ToValidUTF8(string(genRealText(t, nil, 2)), "?")), Dot: pick(t, "dot", []string{"ok", "fail", "early", "killed", "missing", "read one", "echo"})}
	for i, n := 0, intr(t, "reqs", 1, 4); i < n; i++ {
		c.Reqs = append(c.Reqs, pick(t, "req", []string{"api", "api", "bad", "form", "graph", "gone"}))
	}
	for i, n := 0, intr(t, "clients", 0, 3); i < n; i++ {
		c.Clients = append(c.Clients, pick(t, "client", srvClients))
	}
	return c
}

func checkLeftSrv(c LeftSrv, rec *Rec) error {
	s := theServer("ipa")
	installDot(c.Dot)
	addr := strings.TrimPrefix(s.url, "http://")
	n := 0
	one := func(kind string) error {
		n++
		text := string(c.Text) + strconv.Itoa(n)
		var err error
		switch kind {
		case "api":
			_, _, err = post(addr, "/tokenize", &SrvRun{Text: BS(text)})
		case "bad":
			_, _, err = fetch("POST", addr, "/tokenize", []byte(`{"sentence":`+text))
		case "form":
			_, _, err = fetchDemo(s, DemoCase{Sentence: BS(text), Mode: "Normal", Method: "GET"})
		case "graph":
			_, _, err = fetchDemo(s, DemoCase{Sentence: BS(text), Mode: "Search", Method: "POST", Lattice: "1"})
		case "gone": // the client goes away before the answer
			conn, derr := net.DialTimeout("tcp", addr, 10*time.Second)
			if derr != nil {
				return derr
			}
			_, _ = io.WriteString(conn, "GET /?lattice=1&s="+strings.Repeat("a", 50)+" HTTP/1.1\r\nHost: x\r\n\r\n")
			conn.Close()
		}
		return err
	}
	round := func(times int) error {
		for i := 0; i < times; i++ {
			for _, r := range c.Reqs {
				if (r == "graph" || r == "gone") && i >= 4 {
					continue
				}
				if err := one(r); err != nil {
					return fmt.Errorf("no answer (%s): %w", r, err)
				}
			}
		}
		return nil
	}
	if err := round(2); err != nil {
		return err
	}
	if err := settles(held{1 << 20, 1 << 20, 0, 0}, 30*time.Second); err != nil {
		return fmt.Errorf("after the requests %v (graphviz: %s): %w", c.Reqs, c.Dot, err)
	}
	client.CloseIdleConnections()
	// the quiet state: what is held when nothing has happened for a while
	before := holding()
	for i := 0; i < 15; i++ {
		time.Sleep(10 * time.Millisecond)
		if h := holding(); h.goroutines < before.goroutines || h.files < before.files {
			before, i = h, 0
		}
	}
	var conns []net.Conn
	for _, k := range c.Clients {
		conn, err := misbehave(k, addr)
		if err == nil {
			conns = append(conns, conn)
		}
	}
	var failed error
	a, b := grows(func() {
		if err := round(250); err != nil && failed == nil {
			failed = err
		}
	})
	for _, k := range conns {
		k.Close()
	}
	if failed != nil {
		return failed
	}
	if b >= heapSlack {
		return fmt.Errorf("the requests %v leave memory behind: %d bytes, and %d bytes when repeated", c.Reqs, a, b)
	}
	if err := settles(before, 45*time.Second); err != nil {
		return fmt.Errorf("after the requests %v (graphviz: %s) and the clients %v: %w", c.Reqs, c.Dot, c.Clients, err)
	}
	rec.NonTrivial()
	rec.Label("graphviz: " + c.Dot)
	return nil
}

// LeftMany is a long line of clients, each with its own address, headers and request.
type LeftMany struct {
	Text  BS
	Kinds []string // api, bad, empty, form, path
	N     int
}

func genLeftMany(t *rapid.T) LeftMany {
	c := LeftMany{Text: BS(strings.ToValidUTF8(string(genRealText(t, nil, 1)), "?")), N: 1500}
	for i, n := 0, intr(t, "kinds", 1, 2); i < n; i++ {
		c.Kinds = append(c.Kinds, pick(t, "kind", []string{"api", "bad", "empty", "form", "path"}))
	}
	return c
}

func checkLeftMany(c LeftMany, rec *Rec) error {
	s := theServer("ipa")
	addr := strings.TrimPrefix(s.url, "http://")
	text := strings.NewReplacer("\"", "", "\\", "", "\n", "", "\r", "", "\t", "", "\x00", "").Replace(string(c.Text))
	text = strings.Map(func(r rune) rune {
		if r < ' ' {
			return -1
		}
		return r
	}, text)
	n := 0
	one := func(kind string) error {
		n++
		id := fmt.Sprintf("%d.%d.%d", n>>16&255, n>>8&255, n&255|1)
		d := net.Dialer{Timeout: 10 * time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, byte(1+n>>14), byte(n>>6), byte(1+n&63))}}
		conn, err := d.Dial("tcp", addr)
		if err != nil { // no such address here
			if conn, err = net.DialTimeout("tcp", addr, 10*time.Second); err != nil {
				return err
			}
		}
		defer conn.Close()
		must(conn.SetDeadline(time.Now().Add(60 * time.Second)))
		method, path, body := "POST", "/tokenize", ""
		switch kind {
		case "api":
			body = `{"sentence":"` + text + strconv.Itoa(n) + `"}`
		case "bad":
			body = `{"sentence":"` + text + strconv.Itoa(n)
		case "empty":
			body = `{"sentence":"","x":"` + strconv.Itoa(n) + `"}`
		case "form":
			method, path = "GET", "/?r=Normal&s="+url.QueryEscape(text+strconv.Itoa(n))
		case "path":
			method, path = "GET", "/page"+strconv.Itoa(n)
		}
		_, err = fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: h%d.example\r\nCookie: id=%d\r\nUser-Agent: agent/%d\r\nX-Forwarded-For: 10.%s\r\nReferer: http://example.com/%d\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", method, path, n, n, n, id, n, len(body), body)
		if err != nil {
			return err
		}
		b, err := io.ReadAll(conn)
		if err == nil && !bytes.HasPrefix(b, []byte("HTTP/1.1 ")) {
			err = fmt.Errorf("the answer is %q", clip(string(b)))
		}
		return err
	}
	var failed error
	round := func(times int) {
		for i := 0; i < times && failed == nil; i++ {
			k := c.Kinds[i%len(c.Kinds)]
			if err := one(k); err != nil {
				failed = fmt.Errorf("no answer (%s): %w", k, err)
			}
		}
	}
	round(20)
	client.CloseIdleConnections()
	time.Sleep(50 * time.Millisecond)
	a, b := grows(func() {
		round(c.N)
		time.Sleep(50 * time.Millisecond) // the server's side of the last connections
	})
	if failed != nil {
		return failed
	}
	if b >= heapSlack {
		return fmt.Errorf("%d clients (%v), one after the other, leave memory behind: %d bytes, and another %d clients %d bytes", c.N, c.Kinds, a, c.N, b)
	}
	rec.NonTrivial()
	return nil
}

// LeftHang is a number of requests for graphs that graphviz never finishes.
type LeftHang struct{ N, Gone int }

func checkLeftHang(c LeftHang, rec *Rec) error {
	s := theServer("ipa")
	installDot("hang")
	addr := strings.TrimPrefix(s.url, "http://")
	client.CloseIdleConnections()
	time.Sleep(200 * time.Millisecond)
	before := holding()
	var wg sync.WaitGroup
	for i := 0; i < c.N; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, _, _ = fetchDemo(s, DemoCase{Sentence: BS("猫" + strconv.Itoa(i)), Mode: "Normal", Method: "GET", Lattice: "1"})
		}()
	}
	for i := 0; i < c.Gone; i++ {
		if conn, err := net.DialTimeout("tcp", addr, 10*time.Second); err == nil {
			_, _ = io.WriteString(conn, "GET /?lattice=1&s=a HTTP/1.1\r\nHost: x\r\n\r\n")
			time.Sleep(100 * time.Millisecond)
			conn.Close()
		}
	}
	wg.Wait()
	if err := settles(before, 45*time.Second); err != nil {
		return fmt.Errorf("after %d requests for graphs that graphviz does not finish (and %d by clients that go away): %w", c.N, c.Gone, err)
	}
	rec.NonTrivial()
	return nil
}

// LeftLives is a server that is started and stopped several times.
type LeftLives struct {
	How   []string // cancel, deadline, before, in use, missing user
	Times int
}

func checkLeftLives(c LeftLives, rec *Rec) error {
	round := func() error {
		for _, h := range c.How {
			switch h {
			case "in use", "missing user":
				if err := checkSrvFail(SrvFail{Why: h, Form: "ip"}, &Rec{}); err != nil {
					return err
				}
			default:
				r := SrvRun{Text: "猫", Path: "/x", Stop: h}
				arg, dial := srvAddr("ip")
				if err := checkSrvRun(&SrvCase{}, &r, arg, dial, &Rec{}); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if err := round(); err != nil {
		return err
	}
	client.CloseIdleConnections()
	time.Sleep(100 * time.Millisecond)
	before := holding()
	for i := 0; i < c.Times; i++ {
		if err := round(); err != nil {
			return err
		}
	}
	if err := settles(before, 20*time.Second); err != nil {
		return fmt.Errorf("after starting the server %d times and stopping it (%v): %w", c.Times, c.How, err)
	}
	rec.NonTrivial()
	return nil
}

// ---------------------------------------------------------------- C24

// OutCase is a command whose output can be written only in part.
type OutCase struct {
	Cmd   string
	Text  BS
	Bulk  int // times the text is repeated
	Mode  string
	JSON  bool
	Split bool
	Fail  int    // in thousandths of the output
	How   string // error, short
}

func genOut(t *rapid.T) OutCase {
	c := OutCase{Cmd: pick(t, "cmd", []string{"tokenize", "tokenize", "sentence", "lattice"}), How: pick(t, "how", []string{"error", "short"}),
		Mode: pick(t, "mode", []string{"normal", "search", "extended"}), JSON: rapid.Bool().Draw(t, "json"), Split: rapid.Bool().Draw(t, "split")}
	c.Text = genLines(t, func() BS {
		return BS(strings.NewReplacer("\x00", "", "\n", "").Replace(string(genRealText(t, nil, 3))))
	})
	c.Bulk = pick(t, "bulk", []int{1, 1, 1, 3, 40})
	c.Fail = pick(t, "fail", []int{0, 0, 1, 250, 500, 900, 990, 999, 1000, intr(t, "at", 0, 1000)})
	return c
}

// failingWriter takes so many bytes.
type failingWriter struct {
	left  int
	short bool
	got   bytes.Buffer
	hit   bool
}

var errOutput = errors.New("no space left (injected)")

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left && !w.hit {
		w.left -= len(p)
		return w.got.Write(p)
	}
	if w.hit {
		return 0, errOutput
	}
	w.hit = true
	n := w.left
	w.left = 0
	if w.short {
		w.got.Write(p[:n])
		return n, errOutput
	}
	return 0, errOutput
}

func (c *OutCase) args() []string {
	switch c.Cmd {
	case "sentence":
		return nil
	case "lattice":
		return []string{"-mode", c.Mode, "--", string(c.Text)}
	}
	a := []string{"-mode", c.Mode}
	if c.JSON {
		a = append(a, "-json")
	}
	if c.Split {
		a = append(a, "-split")
	}
	return a
}

func checkOut(c OutCase, rec *Rec) error {
	k := commands[c.Cmd]
	in := strings.Repeat(string(c.Text), c.Bulk)
	run := func(w io.Writer) error {
		*k.out, *k.err = w, io.Discard
		defer func() { *k.out = io.Discard }()
		return withStdin(in, false, func() error { return k.run(context.Background(), c.args()) })
	}
	var all bytes.Buffer
	if err := run(&all); err != nil {
		return fmt.Errorf("%s %q fails: %v", c.Cmd, c.args(), err)
	}
	at := all.Len() * c.Fail / 1000
	w := &failingWriter{left: at, short: c.How == "short"}
	err := run(w)
	if at >= all.Len() {
		if err != nil || w.got.Len() != all.Len() {
			return fmt.Errorf("%s %q fails although all its output can be written: %v", c.Cmd, c.args(), err)
		}
		return nil
	}
	if !w.hit {
		return fmt.Errorf("%s %q writes %d bytes, then %d bytes", c.Cmd, c.args(), all.Len(), w.got.Len())
	}
	if err == nil && known("C24 "+c.Cmd+" ignores output errors") {
		rec.Label("known finding: " + c.Cmd)
	} else if err == nil {
		return fmt.Errorf("%s %q with the input %q succeeds although only %d of %d bytes of its output can be written", c.Cmd, c.args(), clip(in), at, all.Len())
	}
	if c.Cmd != "lattice" && !bytes.HasPrefix(all.Bytes(), w.got.Bytes()) {
		return fmt.Errorf("%s %q: what is written before the failure is %q, which is not how the output starts: %q", c.Cmd, c.args(), clip(w.got.String()), clip(all.String()))
	}
	rec.NonTrivial()
	rec.Label(c.Cmd)
	return nil
}

// OutProg runs the program with an output that cannot be written.
type OutProg struct {
	OutCase
	To string // full, closed, file
	N  int    // bytes read before the pipe is closed
}

func genOutProg(t *rapid.T) OutProg {
	c := OutProg{OutCase: genOut(t), To: pick(t, "to", []string{"full", "full", "closed", "file"}), N: pick(t, "n", []int{0, 1, 100, 5000})}
	if c.To == "file" {
		c.Cmd = "lattice"
	}
	if c.To == "closed" && c.Cmd != "lattice" {
		c.Bulk = 2000
	}
	return c
}

func checkOutProg(c OutProg, rec *Rec) error {
	args := append([]string{c.Cmd}, c.args()...)
	in := strings.Repeat(string(c.Text), c.Bulk)
	good, _, code, err := runProgram(args, in)
	if err != nil {
		return err
	}
	if code != 0 {
		return fmt.Errorf("kagome %q exits with %d", args, code)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	if c.To == "file" {
		args = append([]string{"lattice", "-output", "/dev/full"}, c.args()...)
	}
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_KAGOME"), args...)
	var e lockedBuffer
	cmd.Stdin, cmd.Stderr = strings.NewReader(in), &e
	cmd.WaitDelay = 10 * time.Second
	if c.To == "closed" {
		r, w, err := os.Pipe()
		must(err)
		cmd.Stdout = w
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		w.Close()
		_, _ = io.CopyN(io.Discard, r, int64(c.N))
		r.Close()
		_ = cmd.Wait()
		if ctx.Err() != nil {
			return fmt.Errorf("kagome %q does not end after its output has been closed", args)
		}
		rec.Label("closed")
		rec.NonTrivialIf(len(good) > c.N)
		return nil
	}
	if c.To == "full" {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	err = cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("kagome %q does not end when its output cannot be written", args)
	}
	var ee *exec.ExitError
	if len(good) == 0 {
		return nil
	}
	if err == nil && known("C24 "+c.Cmd+" ignores output errors") {
		rec.Label("known finding: " + c.Cmd)
		return nil
	}
	if !errors.As(err, &ee) || ee.ExitCode() <= 0 || strings.TrimSpace(e.String()) == "" {
		return fmt.Errorf("kagome %q ends with %v and the message %q although its output (%d bytes) cannot be written (%s)", args, err, clip(e.String()), len(good), c.To)
	}
	rec.Label(c.To)
	rec.NonTrivial()
	return nil
}

// OutGraph draws graphs to a failing writer and goes on.
type OutGraph struct {
	TokCase
	Fail int
	How  string
}

func genOutGraph(t *rapid.T) OutGraph {
	return OutGraph{TokCase: genSynthCase(3, 2, 8)(t), Fail: intr(t, "fail", 0, 1000), How: pick(t, "how", []string{"error", "short"})}
}

func checkOutGraph(c OutGraph, rec *Rec) error {
	tk, _ := c.Setup.Tokenizer()
	for _, b := range c.Inputs {
		in := string(b)
		for _, m := range modes {
			var all bytes.Buffer
			want := tk.AnalyzeGraph(&all, in, m)
			w := &failingWriter{left: all.Len() * c.Fail / 1000, short: c.How == "short"}
			got := tk.AnalyzeGraph(w, in, m)
			if err := diffTokens(got, want); err != nil {
				return fmt.Errorf("input %q: with an output that fails after %d bytes: %w", clip(in), w.got.Len(), err)
			}
			if m == tokenizer.Normal {
				w := &failingWriter{left: all.Len() * c.Fail / 1000, short: c.How == "short"}
				if err := diffTokens(tk.Dot(w, in), tk.Dot(io.Discard, in)); err != nil {
					return fmt.Errorf("input %q: Dot with an output that fails: %w", clip(in), err)
				}
			}
			fresh, _ := c.Setup.Tokenizer()
			if err := diffTokens(tk.Analyze(in, m), fresh.Analyze(in, m)); err != nil {
				return fmt.Errorf("input %q: after an output has failed: %w", clip(in), err)
			}
			rec.NonTrivialIf(w.hit && len(want) > 2)
		}
	}
	return nil
}

var quiet = sync.OnceFunc(func() {
	log.SetOutput(io.Discard)
	server.Stderr, tokenize.Stderr, lattice.Stderr, sentence.Stderr = io.Discard, io.Discard, io.Discard, io.Discard
})

func init() {
	fixture["C23"] = func() {
		quiet()
		l, err := net.Listen("tcp", "127.0.0.1:0") // the runtime opens its own files the first time
		must(err)
		must(l.Close())
	}
	fixture["C24"] = quiet
	reg("C23", "library, generated dictionaries", 2, 32, 800, genLeft(false), checkLeft)
	reg("C23", "library, real dictionaries", 1, 24, 400, genLeft(true), checkLeft)
	reg("C23", "commands", 4, 24, 400, genLeftRuns, checkLeftRuns)
	reg("C23", "commands that fail", 4, 24, 400, genLeftFails, checkLeftFails)
	reg("C23", "requests", 1, 24, 400, genLeftSrv, checkLeftSrv)
	reg("C23", "many clients", 1, 8, 200, genLeftMany, checkLeftMany)
	reg("C23", "lives of the server", 1, 8, 100, func(t *rapid.T) LeftLives {
		c := LeftLives{Times: intr(t, "times", 2, 5)}
		for i, n := 0, intr(t, "n", 1, 3); i < n; i++ {
			c.How = append(c.How, pick(t, "how", []string{"cancel", "deadline", "before", "in use", "missing user"}))
		}
		return c
	}, checkLeftLives)
	reg("C23", "graphviz hangs", 1, 2, 20, func(t *rapid.T) LeftHang {
		return LeftHang{N: intr(t, "n", 1, 4), Gone: intr(t, "gone", 0, 3)}
	}, checkLeftHang)
	reg("C24", "commands", 20, 48, 2000, genOut, checkOut)
	reg("C24", "program", 2, 24, 400, genOutProg, checkOutProg)
	reg("C24", "graphs", 20, 40, 2000, genOutGraph, checkOutGraph)
}
