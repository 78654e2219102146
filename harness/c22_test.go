package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unicode"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C22

// SrvRun is one life of the server, from its start until it is told to stop.
type SrvRun struct {
	Dict    string // "": the flag is not given
	User    []UserSpec
	Text    BS
	Mode    string
	Path    string   // a path that is not the API's
	Clients []string // clients that misbehave or stay connected
	Leave   bool     // the clients leave before the server is told to stop
	Stop    string   // cancel, deadline, before; hup, int, term for the program
}

// SrvCase is a history of the server on one address.
type SrvCase struct {
	Program bool
	Form    string // how the address is written
	Runs    []SrvRun
}

var srvClients = []string{"silent", "partial", "garbage", "reset", "half body", "keep alive", "long header", "two at once"}

// otherPaths are no paths of the server; it shows the demo page there.
var otherPaths = []string{"/_demo", "/favicon.ico", "/robots.txt", "/index.htm", "/health", "/healthz", "/metrics", "/debug/pprof/", "/api", "/v1/tokenize", "/asset/demo.html", "/tokenize.json", "/.well-known/security.txt"}

func genSrv(program bool, maxRuns int) func(t *rapid.T) SrvCase {
	return func(t *rapid.T) SrvCase {
		c := SrvCase{Program: program, Form: pick(t, "form", []string{"ip", "ip", "any", "localhost"})}
		for i, n := 0, intr(t, "runs", 1, maxRuns); i < n; i++ {
			r := SrvRun{Dict: pick(t, "dict", []string{"", "ipa", "uni"}), Mode: pick(t, "mode", []string{"", "Normal", "Search", "Extended"})}
			if chance(t, "user", 60) {
				r.User = fileable(genRealUser(t, 4))
			}
			r.Text = BS(strings.ToValidUTF8(string(genRealText(t, r.User, 4)), "?"))
			r.Path = pick(t, "path", []string{"/x", "/tokenize/", "/tokenize/x", "/Tokenize", "/index.html", "/demo", "/tokeniz", "/a/tokenize", "/猫"})
			for j, k := 0, intr(t, "clients", 0, 4); j < k; j++ {
				r.Clients = append(r.Clients, pick(t, "client", srvClients))
			}
			r.Leave = chance(t, "leave", 70)
			if program {
				r.Stop = pick(t, "stop", []string{"hup", "int", "term"})
			} else {
				r.Stop = pick(t, "stop", []string{"cancel", "cancel", "deadline", "before"})
			}
			c.Runs = append(c.Runs, r)
		}
		return c
	}
}

var srvPort = 0

// srvAddr returns an address (as given to the server, and as dialled) that is free
// and that no other shard uses.
func srvAddr(form string) (arg, dial string) {
	for try := 0; try < 500; try++ {
		port := 12000 + (envInt("VERIF_SHARD", 0)%16)*500 + srvPort%500
		srvPort++
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			continue
		}
		must(l.Close())
		dial = fmt.Sprintf("127.0.0.1:%d", port)
		switch form {
		case "any":
			return fmt.Sprintf(":%d", port), dial
		case "localhost":
			return fmt.Sprintf("localhost:%d", port), fmt.Sprintf("localhost:%d", port)
		}
		return dial, dial
	}
	panic("no free port")
}

// srvLife is a running server.
type srvLife struct {
	done chan struct{}
	err  error // how it ended
	log  lockedBuffer
	stop func()
	kill func()
}

func startSrv(args []string, program bool, how string) *srvLife {
	s := &srvLife{done: make(chan struct{}), kill: func() {}}
	if program {
		cmd := exec.Command(os.Getenv("VERIF_KAGOME"), append([]string{"server"}, args...)...)
		cmd.Stdout, cmd.Stderr = &s.log, &s.log
		cmd.Dir = os.Getenv("VERIF_SCRATCH")
		must(cmd.Start())
		s.stop = func() {
			_ = cmd.Process.Signal(map[string]os.Signal{"hup": syscall.SIGHUP, "int": syscall.SIGINT, "term": syscall.SIGTERM}[how])
		}
		s.kill = func() { _ = cmd.Process.Kill(); <-s.done }
		go func() {
			defer close(s.done)
			s.err = cmd.Wait()
		}()
		return s
	}
	server.Stderr = &s.log
	log.SetOutput(io.Discard)
	ctx, cancel := context.WithCancel(context.Background())
	s.stop = cancel
	if how == "before" {
		cancel()
	}
	if how == "deadline" {
		d := &lateCtx{Context: ctx, done: make(chan struct{})}
		ctx = d
		s.stop = func() { close(d.done) }
	}
	go func() {
		defer close(s.done)
		defer func() {
			if p := recover(); p != nil {
				s.err = fmt.Errorf("panic: %v", p)
			}
		}()
		s.err = server.Run(ctx, args)
	}()
	return s
}

// lateCtx is a context whose deadline comes when the test says so.
type lateCtx struct {
	context.Context
	done chan struct{}
}

func (c *lateCtx) Done() <-chan struct{} { return c.done }
func (c *lateCtx) Err() error {
	select {
	case <-c.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

const (
	srvStart = 60 * time.Second
	srvStop  = 40 * time.Second
)

// post asks the API of the server at addr.
func post(addr, path string, r *SrvRun) (int, []byte, error) {
	b, err := json.Marshal(map[string]string{"sentence": string(r.Text), "mode": r.Mode})
	must(err)
	return fetch("POST", addr, path, b)
}

func fetch(method, addr, path string, body []byte) (int, []byte, error) {
	req, err := http.NewRequest(method, "http://"+addr+path, bytes.NewReader(body))
	must(err)
	req.Close = true
	resp, err := client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

// misbehave opens the connection of a client.
func misbehave(kind, addr string) (net.Conn, error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	_ = c.SetDeadline(time.Now().Add(30 * time.Second))
	head := "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: "
	switch kind {
	case "partial":
		_, err = io.WriteString(c, "POST /tokeni")
	case "garbage":
		_, _ = io.WriteString(c, "\x16\x03\x01\x00\xff\x00\xffgarbage\r\n\r\n")
	case "reset":
		_, _ = io.WriteString(c, head+"1000\r\n\r\n{\"sentence\":")
		_ = c.(*net.TCPConn).SetLinger(0)
		_ = c.Close()
	case "half body":
		_, err = io.WriteString(c, head+"1000\r\n\r\n{\"sentence\":")
	case "keep alive":
		_, err = io.WriteString(c, head+"2\r\n\r\n{}")
		b := make([]byte, 100)
		if err == nil {
			if _, err = io.ReadAtLeast(c, b, 12); err != nil {
				err = fmt.Errorf("no answer to {}: %w", err)
			}
		}
	case "long header":
		_, _ = io.WriteString(c, "GET / HTTP/1.1\r\nHost: x\r\n"+strings.Repeat("X-A: "+strings.Repeat("a", 1000)+"\r\n", 1200))
	case "two at once":
		_, err = io.WriteString(c, "GET / HTTP/1.1\r\nHost: x\r\n\r\nGET /tokenize HTTP/1.1\r\nHost: x\r\n\r\n")
	}
	return c, err
}

func checkSrv(c SrvCase, rec *Rec) error {
	arg, dial := srvAddr(c.Form)
	for i := range c.Runs {
		if err := checkSrvRun(&c, &c.Runs[i], arg, dial, rec); err != nil {
			return fmt.Errorf("run %d of %d: %w", i+1, len(c.Runs), err)
		}
	}
	rec.LabelIf(len(c.Runs) > 1, "started again on the same address")
	return nil
}

func checkSrvRun(c *SrvCase, r *SrvRun, arg, dial string, rec *Rec) error {
	args := []string{"-http", arg}
	real := "ipa"
	if r.Dict != "" {
		args = append(args, "-dict", r.Dict)
		real = r.Dict
	}
	if r.User != nil {
		args = append(args, "-userdict", saveUser(r.User, "c22-user.txt"))
	}
	setup := Setup{Real: real, User: r.User}
	tk, _ := setup.Tokenizer()
	s := startSrv(args, c.Program, r.Stop)
	defer s.kill()
	ended := func(what string) error {
		if s.err == nil && !(c.Program) {
			return fmt.Errorf("server %q returns without an error although it was not told to stop (%s)", args, what)
		}
		return fmt.Errorf("server %q ends with %v (%s): %s", args, s.err, what, clip(s.log.String()))
	}
	if r.Stop != "before" {
		end := time.Now().Add(srvStart)
		for {
			conn, err := net.DialTimeout("tcp", dial, time.Second)
			if err == nil {
				conn.Close()
				break
			}
			if time.Now().After(end) {
				return fmt.Errorf("server %q does not listen on %s after %v", args, dial, srvStart)
			}
			select {
			case <-s.done:
				return ended("starting")
			case <-time.After(20 * time.Millisecond):
			}
		}
		var conns []net.Conn
		defer func() {
			for _, k := range conns {
				k.Close()
			}
		}()
		for _, k := range r.Clients {
			conn, err := misbehave(k, dial)
			if err != nil {
				return fmt.Errorf("server %q: a client (%s): %w", args, k, err)
			}
			conns = append(conns, conn)
			rec.Label("client: " + k)
		}
		mode := tokenizer.Normal
		switch r.Mode {
		case "Search":
			mode = tokenizer.Search
		case "Extended":
			mode = tokenizer.Extended
		}
		want := expectJSON(tk.Analyze(string(r.Text), mode))
		for _, path := range []string{"/tokenize", "/tokenize?sentence=x"} {
			code, body, err := post(dial, path, r)
			if err != nil {
				return fmt.Errorf("server %q does not answer on %s: %w", args, path, err)
			}
			var got map[string]any
			if err := json.Unmarshal(body, &got); err != nil || code != http.StatusOK {
				return fmt.Errorf("server %q answers on %s with %d %q", args, path, code, clip(string(body)))
			}
			if !reflect.DeepEqual(got["tokens"], want) {
				return fmt.Errorf("server %q with the user entries %v: the tokens of %q (%s) are\n%s\nwant\n%s", args, r.User, clip(string(r.Text)), r.Mode, clip(fmt.Sprint(got["tokens"])), clip(fmt.Sprint(want)))
			}
		}
		_, root, err := fetch("GET", dial, "/", nil)
		if err != nil {
			return fmt.Errorf("server %q does not answer on /: %w", args, err)
		}
		if !bytes.Contains(root, []byte("<form")) || !bytes.Contains(root, []byte("</html>")) {
			return fmt.Errorf("server %q: the page at / is %q", args, clip(string(root)))
		}
		for _, path := range append([]string{r.Path}, otherPaths...) {
			code, page, err := fetch("GET", dial, path, nil)
			if err != nil || code != http.StatusOK || !bytes.Equal(page, root) {
				return fmt.Errorf("server %q: the page at %s (%d, %v) is %q, not the demo page", args, path, code, err, clip(string(page)))
			}
		}
		if c.Form == "any" {
			if _, _, err := post(strings.Replace(dial, "127.0.0.1", "127.0.0.2", 1), "/tokenize", r); err != nil {
				return fmt.Errorf("server %q does not answer on every address of the machine: %w", args, err)
			}
		}
		select {
		case <-s.done:
			return ended("serving")
		default:
		}
		rec.NonTrivialIf(len(want.([]any)) >= 2)
		if r.Leave {
			for _, k := range conns {
				k.Close()
			}
		}
		s.stop()
	}
	select {
	case <-s.done:
	case <-time.After(srvStop):
		return fmt.Errorf("server %q with the clients %v does not end within %v after it is told to stop (%s)", args, r.Clients, srvStop, r.Stop)
	}
	if s.err != nil {
		return fmt.Errorf("server %q, told to stop (%s), ends with %v: %s", args, r.Stop, s.err, clip(s.log.String()))
	}
	if conn, err := net.DialTimeout("tcp", dial, 2*time.Second); err == nil {
		conn.Close()
		return fmt.Errorf("server %q still listens on %s after it has ended (%s)", args, dial, r.Stop)
	}
	rec.Label("stopped: " + r.Stop)
	rec.LabelIf(r.User != nil, "user dictionary")
	return nil
}

// SrvFail is a server that cannot serve.
type SrvFail struct {
	Program bool
	Why     string
	Dict    string
	Form    string
}

var srvFails = []string{"in use", "in use", "bad::address", "127.0.0.1:99999", "127.0.0.1:x", "127.0.0.1", "missing user", "user with few fields", "user with unequal lists", "user is a folder", "no dictionary"}

func genSrvFail(program bool) func(t *rapid.T) SrvFail {
	return func(t *rapid.T) SrvFail {
		return SrvFail{Program: program, Why: pick(t, "why", srvFails), Dict: pick(t, "dict", []string{"", "ipa", "uni"}), Form: pick(t, "form", []string{"ip", "any", "localhost"})}
	}
}

func checkSrvFail(c SrvFail, rec *Rec) error {
	arg, dial := srvAddr(c.Form)
	var args []string
	if c.Dict != "" {
		args = []string{"-dict", c.Dict}
	}
	switch c.Why {
	case "in use":
		l, err := net.Listen("tcp", arg)
		must(err)
		defer l.Close()
		dial = ""
	case "missing user":
		args = append(args, "-userdict", scratch("no/such/file"))
	case "user with few fields":
		args = append(args, "-userdict", writeScratch("c22-bad.txt", "猫,猫\n"))
	case "user with unequal lists":
		args = append(args, "-userdict", writeScratch("c22-bad.txt", "猫犬,猫 犬,ネコ,名詞\n"))
	case "user is a folder":
		args = append(args, "-userdict", scratch(""))
	case "no dictionary":
		args = append(args, "-dict", "")
	default:
		arg, dial = c.Why, ""
	}
	args = append(args, "-http", arg)
	s := startSrv(args, c.Program, "cancel")
	defer s.kill()
	end := time.After(srvStart)
	for over := false; !over; {
		select {
		case <-s.done:
			over = true
		case <-end:
			return fmt.Errorf("server %q (%s) neither fails nor ends", args, c.Why)
		case <-time.After(20 * time.Millisecond):
			if dial == "" {
				continue
			}
			if conn, err := net.DialTimeout("tcp", dial, time.Second); err == nil {
				conn.Close()
				return fmt.Errorf("server %q (%s) serves", args, c.Why)
			}
		}
	}
	if s.err == nil {
		return fmt.Errorf("server %q (%s) ends without an error", args, c.Why)
	}
	var ee *exec.ExitError
	if c.Program && (!errors.As(s.err, &ee) || ee.ExitCode() <= 0 || strings.TrimSpace(s.log.String()) == "") {
		return fmt.Errorf("server %q (%s) ends with %v and the message %q", args, c.Why, s.err, clip(s.log.String()))
	}
	rec.Label(c.Why)
	rec.NonTrivial()
	return nil
}

// SrvDefault is a server without -http.
type SrvDefault struct{ Text BS }

func checkSrvDefault(c SrvDefault, rec *Rec) error {
	l, err := net.Listen("tcp", ":6060")
	if err != nil {
		rec.Label("port 6060 is in use")
		return nil
	}
	must(l.Close())
	s := startSrv(nil, true, "int")
	defer s.kill()
	end := time.Now().Add(srvStart)
	for {
		conn, err := net.DialTimeout("tcp", "127.0.0.1:6060", time.Second)
		if err == nil {
			conn.Close()
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("server does not listen on :6060")
		}
		select {
		case <-s.done:
			return fmt.Errorf("server ends with %v: %s", s.err, clip(s.log.String()))
		case <-time.After(20 * time.Millisecond):
		}
	}
	setup := Setup{Real: "ipa"}
	tk, _ := setup.Tokenizer()
	code, body, err := post("127.0.0.2:6060", "/tokenize", &SrvRun{Text: c.Text})
	var got map[string]any
	if err != nil || code != http.StatusOK || json.Unmarshal(body, &got) != nil || !reflect.DeepEqual(got["tokens"], expectJSON(tk.Tokenize(string(c.Text)))) {
		return fmt.Errorf("server answers %q with %d %v %q", clip(string(c.Text)), code, err, clip(string(body)))
	}
	s.stop()
	select {
	case <-s.done:
		if s.err != nil {
			return fmt.Errorf("server, told to stop, ends with %v", s.err)
		}
	case <-time.After(srvStop):
		return fmt.Errorf("server does not end")
	}
	rec.NonTrivial()
	return nil
}

// SrvStall is a client that does not finish the head of its request.
type SrvStall struct{ Head []BS }

func checkSrvStall(c SrvStall, rec *Rec) error {
	arg, dial := srvAddr("ip")
	s := startSrv([]string{"-http", arg}, false, "cancel")
	defer func() { s.stop(); <-s.done }()
	for i := 0; ; i++ {
		if conn, err := net.DialTimeout("tcp", dial, time.Second); err == nil {
			conn.Close()
			break
		}
		if i > 3000 {
			return fmt.Errorf("server does not listen on %s", arg)
		}
		time.Sleep(20 * time.Millisecond)
	}
	errs := make(chan error, len(c.Head))
	for _, h := range c.Head {
		go func() {
			conn, err := net.DialTimeout("tcp", dial, 10*time.Second)
			if err != nil {
				errs <- err
				return
			}
			defer conn.Close()
			_, _ = io.WriteString(conn, string(h))
			_ = conn.SetReadDeadline(time.Now().Add(90 * time.Second))
			_, err = io.Copy(io.Discard, conn)
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				errs <- fmt.Errorf("the server keeps the connection of a client that sent only %q for more than 90 s", h)
				return
			}
			errs <- nil
		}()
	}
	for range c.Head {
		if err := <-errs; err != nil {
			return err
		}
	}
	rec.NonTrivialIf(len(c.Head) > 0)
	return nil
}

// SrvSlow is a server with clients that take their time, and many of them, but
// that all do what HTTP wants of them; every one has to be answered.
type SrvSlow struct {
	Program bool
	Text    BS
	Slow    []string
	Silent  int // connections that are only held
	Half    int // requests without the end of their bodies
	Repeat  int // size of the large texts
}

var srvSlow = []string{"slow head", "slow body", "slow body", "slow reader", "slow graph", "slow graph", "long url", "large body", "pause between requests"}

// waitSrv waits until the server listens.
func waitSrv(s *srvLife, dial string) error {
	end := time.Now().Add(srvStart)
	for {
		conn, err := net.DialTimeout("tcp", dial, time.Second)
		if err == nil {
			conn.Close()
			return nil
		}
		select {
		case <-s.done:
			return fmt.Errorf("the server ends with %v: %s", s.err, clip(s.log.String()))
		case <-time.After(20 * time.Millisecond):
		}
		if time.Now().After(end) {
			return fmt.Errorf("the server does not listen on %s after %v", dial, srvStart)
		}
	}
}

func checkSrvSlow(c SrvSlow, rec *Rec) error {
	arg, dial := srvAddr("ip")
	installDot("slow")
	defer installDot("real")
	s := startSrv([]string{"-http", arg}, c.Program, "term")
	defer func() { s.stop(); s.kill(); <-s.done }()
	if err := waitSrv(s, dial); err != nil {
		return err
	}
	setup := Setup{Real: "ipa"}
	tk, _ := setup.Tokenizer()
	var held []net.Conn
	defer func() {
		for _, k := range held {
			k.Close()
		}
	}()
	for i := 0; i < c.Silent+c.Half; i++ {
		kind := "silent"
		if i >= c.Silent {
			kind = "half body"
		}
		conn, err := misbehave(kind, dial)
		if err != nil {
			return fmt.Errorf("connection %d (%s): %w", i+1, kind, err)
		}
		held = append(held, conn)
	}
	errs := make(chan error, len(c.Slow))
	for i, k := range c.Slow {
		text := fmt.Sprintf("%s%d番", c.Text, i)
		if k == "slow reader" || k == "long url" || k == "large body" {
			text = strings.Repeat(text, 1+c.Repeat/len(text))
			if k == "long url" {
				text = strings.Repeat(text[:len(text)/2], 1) // percent-encoded, three times as long
			}
			text = strings.ToValidUTF8(text, "?")
		}
		go func() {
			if err := slowClient(k, dial, text, tk); err != nil {
				errs <- fmt.Errorf("%d connections held, %d unfinished requests; a client (%s) with %d bytes of text: %w", c.Silent, c.Half, k, len(text), err)
				return
			}
			errs <- nil
		}()
		rec.Label(k)
	}
	for range c.Slow {
		if err := <-errs; err != nil {
			return err
		}
	}
	rec.LabelIf(c.Silent > 50, "more than 50 connections held")
	rec.LabelIf(c.Half > 50, "more than 50 unfinished requests")
	rec.NonTrivialIf(len(c.Slow) > 0)
	return nil
}

// slowClient makes one exchange, or two, and takes some seconds for it.
func slowClient(kind, addr, text string, tk *tokenizer.Tokenizer) error {
	conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(80 * time.Second))
	b, err := json.Marshal(map[string]string{"sentence": text})
	must(err)
	body := string(b)
	reqLine, rest := "POST /tokenize HTTP/1.1\r\n", fmt.Sprintf("Host: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", len(body))
	trickle := func(x string) error { // in six pieces
		for i := 0; i < 6; i++ {
			if i > 0 {
				time.Sleep(900 * time.Millisecond)
			}
			if _, err := io.WriteString(conn, x[len(x)*i/6:len(x)*(i+1)/6]); err != nil {
				return err
			}
		}
		return nil
	}
	rd := bufio.NewReaderSize(conn, 4096)
	answer := func(slow bool) (int, []byte, error) {
		resp, err := http.ReadResponse(rd, nil)
		if err != nil {
			return 0, nil, err
		}
		defer resp.Body.Close()
		if !slow {
			b, err := io.ReadAll(resp.Body)
			return resp.StatusCode, b, err
		}
		var all []byte
		for i := 0; ; i++ {
			if i < 6 {
				time.Sleep(900 * time.Millisecond)
			}
			buf := make([]byte, 20000)
			n, err := io.ReadFull(resp.Body, buf)
			all = append(all, buf[:n]...)
			if err == io.EOF || err == io.ErrUnexpectedEOF && resp.ContentLength < 0 || int64(len(all)) == resp.ContentLength {
				return resp.StatusCode, all, nil
			}
			if err != nil {
				return resp.StatusCode, all, err
			}
		}
	}
	api := func(slow bool) error {
		code, body, err := answer(slow)
		if err != nil {
			return fmt.Errorf("no (whole) answer: %w", err)
		}
		var got map[string]any
		if err := json.Unmarshal(body, &got); err != nil || code != http.StatusOK {
			return fmt.Errorf("answered with %d %q", code, clip(string(body)))
		}
		if want := expectJSON(tk.Tokenize(text)); !reflect.DeepEqual(got["tokens"], want) {
			return fmt.Errorf("the answer is %q", clip(string(body)))
		}
		return nil
	}
	page := func(has string) error {
		code, body, err := answer(false)
		if err != nil {
			return fmt.Errorf("no (whole) answer: %w", err)
		}
		if code != http.StatusOK || !strings.Contains(string(body), has) || !strings.Contains(string(body), "</html>") {
			return fmt.Errorf("answered with %d %q", code, clip(string(body)))
		}
		return nil
	}
	switch kind {
	case "slow head":
		if err = trickle(reqLine + rest); err == nil {
			_, err = io.WriteString(conn, body)
		}
	case "slow body":
		if _, err = io.WriteString(conn, reqLine+rest); err == nil {
			err = trickle(body)
		}
	case "slow reader", "large body":
		_, err = io.WriteString(conn, reqLine+rest+body)
	case "slow graph":
		if _, err = io.WriteString(conn, "GET /?lattice=1&r=Search&s="+url.QueryEscape(text)+" HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
			return err
		}
		return page("FAKE</svg>")
	case "long url":
		if _, err = io.WriteString(conn, "GET /?s="+url.QueryEscape(text)+" HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
			return err
		}
		return page(text)
	case "pause between requests":
		if _, err = io.WriteString(conn, reqLine+rest+body); err != nil {
			return err
		}
		if err := api(false); err != nil {
			return err
		}
		time.Sleep(1500 * time.Millisecond)
		_, err = io.WriteString(conn, reqLine+rest+body)
	}
	if err != nil {
		return fmt.Errorf("the server does not take the request: %w", err)
	}
	return api(kind == "slow reader")
}

func genSrvSlow(t *rapid.T) SrvSlow {
	c := SrvSlow{Program: rapid.Bool().Draw(t, "program"), Text: BS(htmlFree(strings.ToValidUTF8(string(genRealText(t, nil, 3)), "?"))),
		Silent: pick(t, "silent", []int{0, 3, 40, 300}), Half: pick(t, "half", []int{0, 3, 40, 200}), Repeat: pick(t, "repeat", []int{2000, 20000, 150000})}
	for i, n := 0, intr(t, "n", 6, 12); i < n; i++ {
		c.Slow = append(c.Slow, pick(t, "kind", srvSlow))
	}
	return c
}

// htmlFree leaves out what a page writes in another way.
func htmlFree(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) || strings.ContainsRune("<>&\"'`+\u2028\u2029\uFFFD", r) {
			return -1
		}
		return r
	}, s)
}

func init() {
	reg("C22", "clients that take their time", 1, 8, 120, genSrvSlow, checkSrvSlow)
	reg("C22", "lives of the server", 2, 20, 1000, genSrv(false, 4), checkSrv)
	reg("C22", "lives of the program", 1, 20, 500, genSrv(true, 2), checkSrv)
	reg("C22", "cannot serve", 4, 16, 100, genSrvFail(false), checkSrvFail)
	reg("C22", "program cannot serve", 4, 8, 100, genSrvFail(true), checkSrvFail)
	reg("C22", "default address", 1, 1, 1, func(t *rapid.T) SrvDefault { return SrvDefault{Text: "すもももももももものうち"} }, checkSrvDefault)
	reg("C22", "stalled clients", 1, 1, 4, func(t *rapid.T) SrvStall {
		c := SrvStall{}
		for i, n := 0, intr(t, "n", 3, 8); i < n; i++ {
			c.Head = append(c.Head, pick(t, "head", []BS{"", "G", "GET / HTTP/1.1", "GET / HTTP/1.1\r\nHost: x\r\n", "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\nX-"}))
		}
		return c
	}, checkSrvStall)
}
