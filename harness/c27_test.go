package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C27

// EffCase is a list of calls whose effects besides their results are looked for.
type EffCase struct {
	Setup    Setup
	Inputs   []BS
	Ops      []string
	Patterns [][]BS
	Words    []BS
	Split    SplitSpec
	Spare    int // elements or bytes behind the end of slices
}

var effOps = []string{"analyze", "wakati", "graph", "graph fails", "accessors", "new", "pos filter", "word filter", "features", "ja", "ja options", "split", "scan", "any filter", "json", "rejected"}

var effReal = append([]string{"tokenize", "tokenize json", "tokenize file", "sentence", "sentence file", "lattice", "lattice -v", "lattice output", "bad arguments", "usage", "api", "page", "server"}, effOps...)

func genEff(real bool) func(t *rapid.T) EffCase {
	return func(t *rapid.T) EffCase {
		var tc TokCase
		ops := effOps
		if real {
			tc = genRealCase([]string{"ipa"}, 3, 2, 5)(t)
			ops = effReal
		} else {
			tc = genSynthCase(3, 2, 10)(t)
		}
		c := EffCase{Setup: tc.Setup, Inputs: tc.Inputs, Split: genSplitSpec(t), Spare: intr(t, "spare", 0, 3)}
		fc := genFilterCase(t)
		c.Patterns = append(fc.Patterns, []BS{"名詞"})
		for i := range c.Inputs {
			c.Words = append(c.Words, BS(firstRunes(string(c.Inputs[i]), 2)))
		}
		for i, n := 0, intr(t, "nops", 1, 6); i < n; i++ {
			c.Ops = append(c.Ops, pick(t, "op", ops))
		}
		return c
	}
}

func firstRunes(s string, n int) string {
	for i := range s {
		if n == 0 {
			return s[:i]
		}
		n--
	}
	return s
}

// process is what calls may not change.
type process struct {
	Env, Args           []string
	Dir                 string
	Flags, Mux          []string
	LogFlags            int
	LogPrefix           string
	LogWriter           io.Writer
	Stdin, Out, Err     *os.File
	Client, Def, Trans  any
	Procs, GC, Umask    int
	Memory              int64
	Ignored             []bool
	Local               *time.Location
	Written             string
	CurrentDir, TempDir []string
}

func files(dir string) []string {
	var ret []string
	must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		if d.IsDir() {
			ret = append(ret, p)
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ret = append(ret, fmt.Sprintf("%s %v %q", p, i.Mode(), clip(string(b))))
		return nil
	}))
	return ret
}

func theProcess() process {
	p := process{Env: os.Environ(), Args: slices.Clone(os.Args), LogFlags: log.Flags(), LogPrefix: log.Prefix(), LogWriter: log.Writer(),
		Stdin: os.Stdin, Out: os.Stdout, Err: os.Stderr, Client: http.DefaultClient, Def: *http.DefaultClient, Trans: http.DefaultTransport, Procs: runtime.GOMAXPROCS(0), Memory: debug.SetMemoryLimit(-1), Local: time.Local}
	sort.Strings(p.Env)
	p.Dir, _ = os.Getwd()
	flag.VisitAll(func(f *flag.Flag) {
		if !strings.HasPrefix(f.Name, "rapid.") && !strings.HasPrefix(f.Name, "test.") {
			p.Flags = append(p.Flags, f.Name)
		}
	})
	for _, path := range []string{"/", "/tokenize", "/index.html", "/debug/pprof/", "/debug/vars", "/x"} {
		r, err := http.NewRequest("GET", "http://localhost"+path, nil)
		must(err)
		_, pattern := http.DefaultServeMux.Handler(r)
		p.Mux = append(p.Mux, pattern)
	}
	p.GC = debug.SetGCPercent(100)
	debug.SetGCPercent(p.GC)
	p.Umask = syscall.Umask(0o22)
	syscall.Umask(p.Umask)
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGPIPE, syscall.SIGUSR1} {
		p.Ignored = append(p.Ignored, signal.Ignored(s))
	}
	p.CurrentDir = files(effDir())
	p.TempDir = files(tempDir())
	return p
}

// effDir is the current directory while the calls run.
func effDir() string {
	d := scratch("here")
	must(os.MkdirAll(d, 0o755))
	return d
}

func (p process) diff(q process) error {
	a, b := reflect.ValueOf(p), reflect.ValueOf(q)
	for i := 0; i < a.NumField(); i++ {
		if x, y := a.Field(i).Interface(), b.Field(i).Interface(); !reflect.DeepEqual(x, y) {
			return fmt.Errorf("%s was %v, is %v", a.Type().Field(i).Name, x, y)
		}
	}
	return nil
}

// watched runs f and reports what it changes in the process. Standard output and
// error are files meanwhile, whoever writes to them and how.
func watched(what string, f func() error) (err error) {
	tempDir() // sets TMPDIR
	old, werr := os.Getwd()
	must(werr)
	must(os.Chdir(effDir()))
	capture := scratch("written")
	w, werr := os.Create(capture)
	must(werr)
	o, werr := syscall.Dup(1)
	must(werr)
	e, werr := syscall.Dup(2)
	must(werr)
	must(syscall.Dup2(int(w.Fd()), 1))
	must(syscall.Dup2(int(w.Fd()), 2))
	restore := func() {
		must(syscall.Dup2(o, 1))
		must(syscall.Dup2(e, 2))
		must(syscall.Close(o))
		must(syscall.Close(e))
		must(w.Close())
		must(os.Chdir(old))
	}
	defer restore()
	before := theProcess()
	if err := f(); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	after := theProcess()
	for i, was := range before.Ignored {
		// handling a signal that was ignored from the start ends its being ignored
		after.Ignored[i] = after.Ignored[i] || was
	}
	if err := before.diff(after); err != nil {
		return fmt.Errorf("%s changes the process: %w", what, err)
	}
	b, werr := os.ReadFile(capture)
	must(werr)
	if len(b) > 0 {
		return fmt.Errorf("%s writes to the standard output or error of the process: %q", what, clip(string(b)))
	}
	return nil
}

func same(what string, got, want any) error {
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("the caller's %s were %s, are %s", what, clip(fmt.Sprintf("%q", want)), clip(fmt.Sprintf("%q", got)))
	}
	return nil
}

// withSpare returns a copy of the list, with elements behind its end, and a function
// that tells whether those are untouched.
func withSpare[T any](xs []T, spare int, fill T) ([]T, func() error) {
	all := make([]T, len(xs)+spare)
	copy(all, xs)
	for i := len(xs); i < len(all); i++ {
		all[i] = fill
	}
	return all[:len(xs)], func() error {
		for i := len(xs); i < len(all); i++ {
			if !reflect.DeepEqual(all[i], fill) {
				return fmt.Errorf("what lies behind the caller's list has been overwritten with %v", all[i])
			}
		}
		return nil
	}
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

type effWorld struct {
	c  *EffCase
	tk *tokenizer.Tokenizer
}

func (w *effWorld) patterns() [][]string {
	var ret [][]string
	for _, p := range w.c.Patterns {
		ret = append(ret, strs(p))
	}
	return ret
}

// do makes a call and looks at what it does to its arguments.
func (w *effWorld) do(op, in string) error {
	c, tk := w.c, w.tk
	matches := func(match func([]string) bool, ts []tokenizer.Token) (ret []bool) {
		for _, t := range ts {
			ret = append(ret, match(t.POS()))
		}
		return ret
	}
	junk := func(ps [][]string) {
		for _, p := range ps {
			for i := range p {
				p[i] = "junk"
			}
		}
		for i := range ps {
			ps[i] = []string{"junk"}
		}
	}
	command := func(name, stdin string, reads bool, args ...string) error {
		k := commands[name]
		var o, e bytes.Buffer
		*k.out, *k.err = &o, &e
		given, behind := withSpare(args, c.Spare, "spare")
		var at int64
		err := withStdin(stdin, false, func() error {
			_ = k.run(context.Background(), given)
			var err error
			at, err = os.Stdin.Seek(0, io.SeekCurrent)
			return err
		})
		if err != nil {
			return err
		}
		if at != 0 && !reads {
			return fmt.Errorf("%s %q reads %d bytes of the standard input", name, args, at)
		}
		if name == "server" {
			return nil
		}
		return first(same("arguments", given, append([]string{}, args...)), behind())
	}
	switch op {
	case "analyze":
		for _, m := range modes {
			tk.Analyze(in, m)
		}
	case "wakati":
		tk.Wakati(in)
	case "graph":
		for _, m := range modes {
			tk.AnalyzeGraph(io.Discard, in, m)
		}
		tk.Dot(io.Discard, in)
	case "graph fails":
		tk.Dot(&failingWriter{left: len(in)}, in)
	case "accessors":
		for _, t := range tk.Tokenize(in) {
			u := t
			_, _, _ = t.Features(), t.POS(), t.String()
			t.FeatureAt(0)
			t.BaseForm()
			t.Reading()
			t.Pronunciation()
			t.InflectionalType()
			t.InflectionalForm()
			t.UserExtra()
			t.Equal(u)
			_ = tokenizer.NewTokenData(t)
			if err := same("tokens", t, u); err != nil {
				return err
			}
		}
	case "json":
		for _, t := range tk.Tokenize(in) {
			d := tokenizer.NewTokenData(t)
			want, err := json.Marshal(d)
			must(err)
			if got, err := json.Marshal(d); err != nil || !bytes.Equal(got, want) {
				return fmt.Errorf("the token data %s become %s", want, got)
			}
		}
	case "new":
		d, u := c.Setup.dicts()
		opts := []tokenizer.Option{tokenizer.Nop(), tokenizer.Nop()}
		if u != nil {
			opts = append(opts, tokenizer.UserDict(u))
		}
		given, behind := withSpare(opts, c.Spare, nil)
		t2, err := tokenizer.New(d, given...)
		if err != nil {
			return err
		}
		for i := range given { // the list is the caller's again
			given[i] = tokenizer.OmitBosEos()
		}
		if ts := t2.Tokenize(in); len(ts) < 2 || ts[0].Surface != "BOS" {
			return fmt.Errorf("options changed after the tokenizer has been made take effect")
		}
		if c.Spare > 0 {
			return nil
		}
		return behind()
	case "pos filter", "features":
		ts := tk.Tokenize(in)
		ps := w.patterns()
		given, behind := withSpare(ps, c.Spare, []string{"spare"})
		var match func([]string) bool
		if op == "features" {
			match = filter.NewFeaturesFilter(given...).Match
		} else {
			match = filter.NewPOSFilter(given...).Match
		}
		if err := first(same("patterns", given, w.patterns()), behind()); err != nil {
			return err
		}
		want := matches(match, ts)
		junk(given)
		if err := same("answers after changing the patterns that the filter was made of", matches(match, ts), want); err != nil {
			return err
		}
		for _, t := range ts { // the list that is matched
			fs, behind := withSpare(t.Features(), c.Spare, "spare")
			copied := slices.Clone(fs)
			match(fs)
			if err := first(same("features", fs, copied), behind()); err != nil {
				return err
			}
		}
	case "word filter":
		ts := tk.Tokenize(in)
		given, behind := withSpare(strs(c.Words), c.Spare, "spare")
		f := filter.NewWordFilter(given)
		if err := first(same("words", given, strs(c.Words)), behind()); err != nil {
			return err
		}
		x, y := slices.Clone(ts), slices.Clone(ts)
		f.Keep(&x)
		for i := range given {
			given[i] = "junk"
		}
		f.Keep(&y)
		return same("tokens kept after changing the words that the filter was made of", plainOf(y), plainOf(x))
	case "ja":
		f, err := ja.NewFilter()
		if err != nil {
			return err
		}
		ts, behind := withSpare(tk.Tokenize(in), c.Spare, tokenizer.Token{Surface: "spare"})
		before := slices.Clone(ts)
		out := f.Yield(ts)
		if err := first(same("tokens", ts, before), behind()); err != nil {
			return err
		}
		copied := slices.Clone(out)
		for i := range out {
			out[i] = "junk"
		}
		return same("strings", f.Yield(ts), copied)
	case "ja options":
		tags, base, words := w.patterns(), w.patterns(), strs(c.Words)
		f, err := ja.NewFilter(ja.StopTagsFilterOption(tags), ja.BaseFormFilterOption(base), ja.StopWordsFilterOption(words))
		if err != nil {
			return err
		}
		if err := first(same("stop tags", tags, w.patterns()), same("base forms", base, w.patterns()), same("stop words", words, strs(c.Words))); err != nil {
			return err
		}
		ts := tk.Tokenize(in)
		want := f.Yield(ts)
		junk(tags)
		junk(base)
		for i := range words {
			words[i] = "junk"
		}
		return same("strings after changing the lists that the filter was made of", f.Yield(ts), want)
	case "any filter":
		ts := tk.Tokenize(in)
		given, behind := withSpare(ts, c.Spare, tokenizer.Token{Surface: "spare"})
		filter.Keep(&given, func(t tokenizer.Token) bool { return t.Index%2 == 0 })
		return behind()
	case "split":
		fn := c.Split.fn()
		data, behind := withSpare([]byte(in), c.Spare*7, 'x')
		for _, eof := range []bool{false, true} {
			rest := data
			for i := 0; i < 50 && len(rest) > 0; i++ {
				n, _, err := fn(rest, eof)
				if err != nil || n == 0 {
					break
				}
				if err := first(same("text", data, []byte(in)), behind()); err != nil {
					return err
				}
				rest = rest[n:]
			}
		}
	case "scan":
		sc := bufio.NewScanner(strings.NewReader(in))
		sc.Split(c.Split.fn())
		for sc.Scan() {
			_ = sc.Text()
		}
		s := filter.SentenceSplitter{Delim: []rune{'。'}, Follower: []rune{'」'}, SkipWhiteSpace: true, MaxRuneLen: 10}
		d, f := slices.Clone(s.Delim), slices.Clone(s.Follower)
		readAll(strings.NewReader(in), s)
		return first(same("delimiters", s.Delim, d), same("followers", s.Follower, f))
	case "rejected":
		if _, err := tokenizer.New(nil); err == nil {
			return fmt.Errorf("a tokenizer without dictionary is made")
		}
		d, _ := c.Setup.dicts()
		if _, err := tokenizer.New(d, tokenizer.UserDict(nil)); err == nil {
			return fmt.Errorf("a tokenizer with an empty user dictionary is made")
		}
	case "tokenize":
		return command("tokenize", in, true)
	case "tokenize json":
		return command("tokenize", in, true, "-json", "-mode", "search")
	case "tokenize file":
		return command("tokenize", "not this", false, "-file", writeScratch("input", in), "-udict", saveUser(fileable(c.Setup.User), "user.txt"))
	case "sentence":
		return command("sentence", in, true)
	case "sentence file":
		return command("sentence", "not this", false, "-file", writeScratch("input", in))
	case "lattice":
		return command("lattice", "not this", false, "--", in)
	case "lattice -v":
		return command("lattice", "not this", false, "-v", "--", in)
	case "lattice output":
		dir := scratch("graphs")
		must(os.MkdirAll(dir, 0o755))
		must(os.WriteFile(filepath.Join(dir, "graph"), []byte("old"), 0o644))
		if err := command("lattice", "not this", false, "-output", filepath.Join(dir, "graph"), "--", in); err != nil {
			return err
		}
		if list := files(dir); len(list) != 2 {
			return fmt.Errorf("besides the output there is %v", list)
		}
	case "bad arguments":
		for _, k := range []string{"tokenize", "sentence", "lattice", "server"} {
			if err := command(k, "not this", false, "-x", in); err != nil {
				return err
			}
			if err := commands[k].check([]string{"-x", in}); err == nil {
				return fmt.Errorf("%s accepts -x", k)
			}
		}
	case "usage":
		for _, k := range []string{"tokenize", "sentence", "lattice", "server"} {
			if err := command(k, "not this", false, "-h"); err != nil {
				return err
			}
		}
	case "api":
		_, _, err := post(strings.TrimPrefix(theServer("ipa").url, "http://"), "/tokenize", &SrvRun{Text: BS(strings.ToValidUTF8(in, "?"))})
		return err
	case "page":
		_, _, err := fetchDemo(theServer("ipa"), DemoCase{Sentence: BS(in), Mode: "Normal", Method: "POST"})
		return err
	case "server":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := l.Addr().String()
		must(l.Close())
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ended := make(chan error, 1)
		go func() { ended <- server.Run(ctx, []string{"-http", addr}) }()
		for i := 0; i < 600; i++ {
			select {
			case <-ended: // someone else has got the port
				return nil
			default:
			}
			if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				c.Close()
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		cancel()
		select {
		case <-ended:
		case <-time.After(60 * time.Second):
			return fmt.Errorf("the server goes on")
		}
	default:
		panic(op)
	}
	return nil
}

func checkEff(c EffCase, rec *Rec) error {
	w := &effWorld{c: &c}
	w.tk, _ = c.Setup.Tokenizer()
	for _, op := range c.Ops {
		if op == "server" {
			log.SetOutput(io.Discard)
			server.Stderr = io.Discard
		}
		if op == "api" || op == "page" {
			installDot("missing")
			theServer("ipa")
		}
		for i, in := range c.Inputs {
			if op == "server" && i > 0 {
				break
			}
			if err := watched(op, func() error { return w.do(op, string(in)) }); err != nil {
				return fmt.Errorf("input %q: %w", clip(string(in)), err)
			}
		}
		rec.Label(op)
	}
	rec.NonTrivialIf(len(c.Inputs) > 0)
	return nil
}

func init() {
	fixture["C27"] = quiet
	reg("C27", "generated dictionaries", 30, 100, 3000, genEff(false), checkEff)
	reg("C27", "real dictionaries", 20, 100, 3000, genEff(true), checkEff)
}
