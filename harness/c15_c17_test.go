package checks

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

func scratch(name string) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		panic("VERIF_SCRATCH is not set")
	}
	return filepath.Join(d, name)
}

func writeScratch(name, content string) string {
	p := scratch(name)
	must(os.WriteFile(p, []byte(content), 0o644))
	return p
}

// saveDict writes a generated dictionary in the format of -dict.
func saveDict(s *DictSpec, name string) string {
	p := scratch(name)
	f, err := os.Create(p)
	must(err)
	defer f.Close()
	w := zip.NewWriter(f)
	must(s.Build().Save(w))
	must(w.Close())
	return p
}

// saveUser writes user entries in the format of -udict.
func saveUser(us []UserSpec, name string) string {
	var b strings.Builder
	b.WriteString("# a comment\n\n")
	for _, u := range us {
		fmt.Fprintf(&b, "%s,%s,%s,%s\n", u.S, strings.Join(strs(u.Tokens), " "), strings.Join(strs(u.Yomi), " "), u.Pos)
	}
	return writeScratch(name, b.String())
}

// fileable keeps the entries that the file format can express.
func fileable(us []UserSpec) []UserSpec {
	var ret []UserSpec
	for _, u := range us {
		all := string(u.S) + string(u.Pos) + strings.Join(strs(u.Tokens), "") + strings.Join(strs(u.Yomi), "")
		if len(u.Tokens) == 0 || len(u.Tokens) != len(u.Yomi) {
			continue
		}
		if strings.HasPrefix(string(u.S), "#") || strings.ContainsAny(all, ",\n\r") || strings.Contains(strings.Join(strs(u.Tokens), "")+strings.Join(strs(u.Yomi), ""), " ") {
			continue
		}
		ret = append(ret, u)
	}
	return ret
}

// fileNames: names that files may have besides ordinary ones.
var fileNames = []string{"%s", "%s", "%s", "%s ", " %s", "-%s", "日本 %s", "%s%%d", "a\n%s", "a,b=%s", "~%s", "$HOME-%s", "%s.gz", "%s.json", "猫.%s.txt~", "\xff%s", "'\"%s\\"}

func fileName(base string, n int) string { return fmt.Sprintf(fileNames[n%len(fileNames)], base) }

// throughPipe makes a named pipe out of which the text can be read once.
func throughPipe(name, text string) (path string, done func()) {
	path = scratch(name)
	_ = os.Remove(path)
	must(syscall.Mkfifo(path, 0o600))
	end := make(chan struct{})
	go func() {
		defer close(end)
		w, err := os.OpenFile(path, os.O_WRONLY, 0)
		must(err)
		defer w.Close()
		half := len(text) / 2
		for _, s := range []string{text[:half], text[half:]} {
			if _, err := w.WriteString(s); err != nil {
				return
			}
		}
	}()
	return path, func() {
		// should it not have been read
		r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
		must(err)
		select {
		case <-end:
		case <-time.After(50 * time.Millisecond):
		}
		r.Close()
		<-end
		must(os.Remove(path))
	}
}

// otherInput stands on the standard input when the input is in a file.
const otherInput = "これは標準入力です。\n"

// withStdin runs f with a given standard input.
func withStdin(in string, pipe bool, f func() error) error {
	old := os.Stdin
	defer func() { os.Stdin = old }()
	if pipe {
		r, w, err := os.Pipe()
		must(err)
		go func() {
			for len(in) > 0 { // in several writes
				n := 1 + len(in)/3
				if _, err := w.WriteString(in[:n]); err != nil {
					break
				}
				in = in[n:]
			}
			w.Close()
		}()
		defer r.Close()
		os.Stdin = r
		return f()
	}
	p := writeScratch("stdin", in)
	r, err := os.Open(p)
	must(err)
	defer r.Close()
	os.Stdin = r
	return f()
}

// runProgram runs the built kagome program.
func runProgram(args []string, stdin string, extraEnv ...string) (stdout, stderr string, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_KAGOME"), args...)
	var o, e bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(stdin), &o, &e
	cmd.Dir = os.Getenv("VERIF_SCRATCH")
	cmd.Env = append(os.Environ(), extraEnv...)
	err = cmd.Run()
	if ctx.Err() != nil {
		return o.String(), e.String(), -1, fmt.Errorf("kagome %q does not end", args)
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return o.String(), e.String(), ee.ExitCode(), nil
	}
	return o.String(), e.String(), 0, err
}

// ---------------------------------------------------------------- C15

// CmdCase is an invocation of the tokenize command.
type CmdCase struct {
	Setup   Setup
	Mode    string // "": the flag is not given
	Split   bool
	JSON    bool
	Via     string // file, stdin, pipe
	Syntax  []int  // how each flag is written
	Name    int    `json:",omitempty"` // how files are named
	Input   BS
	Program bool `json:",omitempty"` // run the built program
	// Bulk: the input is made of numbered lines of these lengths in bytes, filled
	// with the characters of Input.
	Bulk []int `json:",omitempty"`
}

// text is the input of the command.
func (c *CmdCase) text() string {
	if c.Bulk == nil {
		return string(c.Input)
	}
	unit := strings.NewReplacer("\n", "", "\r", "").Replace(string(c.Input))
	if unit == "" {
		unit = "a"
	}
	var b strings.Builder
	for i, n := range c.Bulk {
		l := fmt.Sprint(i) + strings.Repeat(unit, n/len(unit)+1)
		if n < len(l) {
			l = l[:n]
			for len(l) > 0 && utf8.ValidString(unit) && !utf8.ValidString(l) {
				l = l[:len(l)-1] + "" // not within a character
			}
		}
		b.WriteString(l)
		if i+1 < len(c.Bulk) || c.Syntax[2] > 0 {
			b.WriteString([]string{"\n", "\r\n"}[c.Syntax[3]%2])
		}
	}
	return b.String()
}

// maxLine is the length up to which every line has to be accepted.
const maxLine = 60000

func genBulkCase(real []string, program bool) func(t *rapid.T) CmdCase {
	return func(t *rapid.T) CmdCase {
		c := genCmdCase(real, program)(t)
		if len(c.Input) > 300 {
			c.Input = c.Input[:300]
		}
		switch intr(t, "shape", 0, 3) {
		case 0: // many short lines
			n := intr(t, "nbulk", 20, 1500)
			r := newRand(t)
			for i := 0; i < n; i++ {
				c.Bulk = append(c.Bulk, r.IntN(60))
			}
		case 1: // lines around the sizes of buffers
			for i, n := 0, intr(t, "nbulk", 1, 12); i < n; i++ {
				c.Bulk = append(c.Bulk, pick(t, "len", []int{0, 10, 1024, 4096, 8192, 16384})+intr(t, "delta", -5, 5)+5)
			}
		case 2: // a few very long ones
			for i, n := 0, intr(t, "nbulk", 1, 4); i < n; i++ {
				c.Bulk = append(c.Bulk, pick(t, "len", []int{0, 100, 20000, 32768, 40000, maxLine}))
			}
		default: // one that is too long
			for i, n := 0, intr(t, "nbulk", 0, 3); i < n; i++ {
				c.Bulk = append(c.Bulk, pick(t, "len", []int{0, 10, 100}))
			}
			c.Bulk = append(c.Bulk, pick(t, "toolong", []int{65537, 66000, 100000, 131073}))
			for i, n := 0, intr(t, "nafter", 0, 2); i < n; i++ {
				c.Bulk = append(c.Bulk, 20)
			}
		}
		return c
	}
}

func genLines(t *rapid.T, line func() BS) BS {
	var b strings.Builder
	for i, n := 0, intr(t, "nlines", 0, 6); i < n; i++ {
		l := string(line())
		if !chance(t, "keepnl", 30) {
			l = strings.ReplaceAll(l, "\n", "")
		}
		b.WriteString(l)
		b.WriteString(pick(t, "nl", []string{"\n", "\n", "\n", "\r\n", "\n\n", "。", ""}))
	}
	return BS(b.String())
}

func genCmdCase(real []string, program bool) func(t *rapid.T) CmdCase {
	return func(t *rapid.T) CmdCase {
		c := CmdCase{Program: program}
		if real != nil {
			c.Setup = genRealSetup(t, real, 3)
			c.Setup.User = fileable(c.Setup.User)
			c.Input = genLines(t, func() BS { return genRealText(t, c.Setup.User, 4) })
		} else {
			s, ctx := genSynthSetup(t, 4)
			s.User = fileable(s.User)
			s.Dict.NoContents = false
			c.Setup = s
			c.Input = genLines(t, func() BS {
				x := genText(t, ctx, s.Dict.Words, s.User, 8)
				if chance(t, "longline", 4) {
					x = BS(strings.Repeat(string(x), 60))
				}
				return x
			})
		}
		c.Setup.Omit = false
		if len(c.Input) > 20000 {
			c.Input = c.Input[:20000]
		}
		c.Mode = pick(t, "mode", []string{"", "normal", "search", "extended", "extended"})
		c.Split, c.JSON = rapid.Bool().Draw(t, "split"), rapid.Bool().Draw(t, "json")
		c.Via = pick(t, "via", []string{"file", "file", "named pipe", "stdin", "stdin", "pipe"})
		c.Name = intr(t, "name", 0, len(fileNames)-1)
		for i := 0; i < 6; i++ {
			c.Syntax = append(c.Syntax, intr(t, "syntax", 0, 3))
		}
		return c
	}
}

type argList struct {
	args   []string
	syntax []int
	n      int
}

func (a *argList) next() int {
	k := a.syntax[a.n%len(a.syntax)]
	a.n++
	return k
}

func (a *argList) str(name, value string) {
	switch a.next() {
	case 0:
		a.args = append(a.args, "-"+name, value)
	case 1:
		a.args = append(a.args, "-"+name+"="+value)
	case 2:
		a.args = append(a.args, "--"+name, value)
	default:
		a.args = append(a.args, "--"+name+"="+value)
	}
}

func (a *argList) flag(name string, value bool) {
	k := a.next()
	if !value {
		if k == 0 {
			a.args = append(a.args, "-"+name+"=false")
		}
		return
	}
	a.args = append(a.args, []string{"-" + name, "--" + name, "-" + name + "=true", "-" + name + "=1"}[k])
}

// textLines are the lines of a text: ended by a line feed or carriage return and
// line feed, the last one possibly not ended.
func textLines(s string) []string {
	var ret []string
	for s != "" {
		l, rest, _ := strings.Cut(s, "\n")
		ret = append(ret, strings.TrimSuffix(l, "\r"))
		s = rest
	}
	return ret
}

var modeNames = map[string]tokenizer.TokenizeMode{"": tokenizer.Normal, "normal": tokenizer.Normal, "search": tokenizer.Search, "extended": tokenizer.Extended}

// tokenJSON is the documented JSON form of a token.
type tokenJSON struct {
	ID            int      `json:"id"`
	Start         int      `json:"start"`
	End           int      `json:"end"`
	Surface       string   `json:"surface"`
	Class         string   `json:"class"`
	POS           []string `json:"pos"`
	BaseForm      string   `json:"base_form"`
	Reading       string   `json:"reading"`
	Pronunciation string   `json:"pronunciation"`
	Features      []string `json:"features"`
}

func expectJSON(ts []tokenizer.Token) any {
	list := []tokenJSON{}
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		x := tokenJSON{ID: t.ID, Start: t.Start, End: t.End, Surface: t.Surface, Class: fmt.Sprintf("%v", t.Class), POS: append([]string{}, t.POS()...), Features: append([]string{}, t.Features()...)}
		x.BaseForm, _ = t.BaseForm()
		x.Reading, _ = t.Reading()
		x.Pronunciation, _ = t.Pronunciation()
		list = append(list, x)
	}
	b, err := json.Marshal(list)
	must(err)
	var ret any
	must(json.Unmarshal(b, &ret))
	return ret
}

func (c *CmdCase) args() []string {
	a := &argList{syntax: c.Syntax}
	if c.Mode != "" {
		a.str("mode", c.Mode)
	}
	switch {
	case c.Setup.Dict != nil:
		a.str("dict", saveDict(c.Setup.Dict, fileName("test.dict", c.Name)))
	case strings.HasPrefix(c.Setup.Real, "uni"), c.Syntax[0] == 1:
		a.str("sysdict", strings.TrimSuffix(c.Setup.Real, "-shrink"))
	}
	a.flag("simple", c.simple())
	if len(c.Setup.User) > 0 {
		a.str("udict", saveUser(c.Setup.User, fileName("user.txt", c.Name)))
	}
	a.flag("split", c.Split)
	a.flag("json", c.JSON)
	if c.Via == "file" {
		a.str("file", writeScratch(fileName("input.txt", c.Name), c.text()))
	} else if c.Via == "named pipe" {
		a.str("file", scratch(fileName("input.pipe", c.Name)))
	}
	return a.args
}

// simple: a dictionary of its own is shrunk when its specification says so.
func (c *CmdCase) simple() bool {
	return strings.HasSuffix(c.Setup.Real, "-shrink") || (c.Setup.Dict != nil && c.Syntax[1]%2 == 1)
}

func checkC15(c CmdCase, rec *Rec) error {
	in := c.text()
	args := c.args()
	var tk *tokenizer.Tokenizer
	if c.Setup.Dict != nil {
		// what the library does with the same dictionary file
		load := dict.LoadDictFile
		if c.simple() {
			load = dict.LoadShrink
		}
		d, err := load(scratch(fileName("test.dict", c.Name)))
		must(err)
		tk = newTokenizer(d, BuildUser(c.Setup.User), false)
	} else {
		tk, _ = c.Setup.Tokenizer()
	}
	var parts []string
	if c.Split {
		var ahead, span int
		parts, ahead, span = refSentences(SplitSpec{Default: true}, in)
		if ahead > 4000 || span > 30000 {
			return nil
		}
	} else {
		parts = textLines(in)
	}
	var out string
	var failed error
	stdin := in
	switch c.Via {
	case "named pipe":
		_, done := throughPipe(fileName("input.pipe", c.Name), in)
		defer done()
		fallthrough
	case "file":
		stdin = otherInput
	}
	if c.Program {
		o, e, code, err := runProgram(append([]string{"tokenize"}, args...), stdin)
		if err != nil {
			return err
		}
		if code != 0 {
			failed = fmt.Errorf("kagome tokenize %q exits with %d: %s", args, code, e)
		}
		out = o
	} else {
		var buf, ebuf bytes.Buffer
		tokenize.Stdout, tokenize.Stderr = &buf, &ebuf
		err := withStdin(stdin, c.Via == "pipe", func() error { return tokenize.Run(context.Background(), args) })
		if err != nil {
			failed = fmt.Errorf("tokenize %q fails: %v %s", args, err, ebuf.String())
		}
		out = buf.String()
	}
	if failed != nil {
		for _, p := range parts {
			if len(p) > maxLine { // too long, and reported
				rec.NonTrivial()
				rec.Label("too long a line")
				return nil
			}
		}
		return failed
	}
	mode := modeNames[c.Mode]
	total := 0
	if !c.JSON {
		var b strings.Builder
		for _, p := range parts {
			for _, t := range tk.Analyze(p, mode) {
				if t.ID == tokenizer.BosEosID {
					continue
				}
				total++
				b.WriteString(t.Surface)
				if f := t.Features(); t.Class != tokenizer.DUMMY {
					b.WriteString("\t" + strings.Join(f, ","))
				}
				b.WriteString("\n")
			}
			b.WriteString("EOS\n")
		}
		if out != b.String() {
			return fmt.Errorf("tokenize %q on %q prints\n%s\nwant\n%s", args, clip(in), clip(out), clip(b.String()))
		}
	} else {
		dec := json.NewDecoder(strings.NewReader(out))
		for i, p := range parts {
			var got any
			if err := dec.Decode(&got); err != nil {
				return fmt.Errorf("tokenize %q on %q, array %d of %d: %v in\n%s", args, clip(in), i, len(parts), err, clip(out))
			}
			ts := tk.Analyze(p, mode)
			total += len(ts) - 2
			if want := expectJSON(ts); !reflect.DeepEqual(got, want) {
				return fmt.Errorf("tokenize %q on %q, array %d is\n%v\nwant\n%v", args, clip(in), i, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
			}
			// the surfaces spell the line
			var s strings.Builder
			for _, x := range got.([]any) {
				s.WriteString(x.(map[string]any)["surface"].(string))
			}
			if utf8.ValidString(p) && s.String() != p {
				return fmt.Errorf("tokenize %q: the surfaces of array %d spell %q instead of %q", args, i, clip(s.String()), clip(p))
			}
		}
		var more any
		if err := dec.Decode(&more); err != io.EOF {
			return fmt.Errorf("tokenize %q on %q prints more than %d arrays: %s", args, clip(in), len(parts), clip(out))
		}
	}
	rec.NonTrivialIf(len(parts) >= 2 && total >= 2)
	rec.LabelIf(c.JSON, "json")
	rec.LabelIf(c.Split, "split")
	rec.LabelIf(c.Mode == "extended", "extended")
	rec.LabelIf(len(c.Setup.User) > 0, "user dictionary")
	rec.LabelIf(c.simple(), "simple")
	return nil
}

// StreamCase is a dialogue: every line is answered before the next one is sent.
type StreamCase struct {
	JSON    bool
	Mode    string
	Lines   []BS
	Program bool `json:",omitempty"`
}

func genStream(program bool) func(t *rapid.T) StreamCase {
	return func(t *rapid.T) StreamCase {
		c := StreamCase{JSON: rapid.Bool().Draw(t, "json"), Mode: pick(t, "mode", []string{"normal", "search", "extended"}), Program: program}
		for i, n := 0, intr(t, "nlines", 1, 6); i < n; i++ {
			l := strings.NewReplacer("\n", "", "\r", "").Replace(string(genRealText(t, nil, 3)))
			if chance(t, "long", 10) {
				l = stretch(l, pick(t, "len", []int{500, 1500, 5000}))
			}
			c.Lines = append(c.Lines, BS(l))
		}
		return c
	}
}

// lockedBuffer can be read while it is written.
type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func checkStream(c StreamCase, rec *Rec) error {
	setup := Setup{Real: "ipa"}
	tk, _ := setup.Tokenizer()
	args := []string{"-mode", c.Mode}
	if c.JSON {
		args = append(args, "-json")
	}
	var out, ebuf lockedBuffer
	var in io.WriteCloser
	done := make(chan error, 1)
	if c.Program {
		cmd := exec.Command(os.Getenv("VERIF_KAGOME"), append([]string{"tokenize"}, args...)...)
		cmd.Dir = os.Getenv("VERIF_SCRATCH")
		cmd.Stdout, cmd.Stderr = &out, &ebuf
		var err error
		in, err = cmd.StdinPipe()
		must(err)
		must(cmd.Start())
		defer cmd.Process.Kill()
		go func() { done <- cmd.Wait() }()
	} else {
		r, w, err := os.Pipe()
		must(err)
		in = w
		old := os.Stdin
		os.Stdin = r
		tokenize.Stdout, tokenize.Stderr = &out, &ebuf
		go func() { done <- tokenize.Run(context.Background(), args) }()
		defer func() {
			w.Close()
			<-done // closed below
			os.Stdin = old
			r.Close()
		}()
	}
	finish := func() error {
		in.Close()
		err := <-done
		close(done)
		return err
	}
	want := 0
	for i, l := range c.Lines {
		if _, err := io.WriteString(in, string(l)+"\n"); err != nil {
			return fmt.Errorf("tokenize %q stops reading at line %d: %v, %v", args, i, err, finish())
		}
		n := 0
		for _, t := range tk.Analyze(string(l), modeNames[c.Mode]) {
			if t.ID != tokenizer.BosEosID {
				n++
			}
		}
		// As much output as the answer has; what it says is checked elsewhere.
		want += n + 1
		complete := func() bool {
			o := out.String()
			if !c.JSON {
				return strings.Count(o, "\n") >= want
			}
			dec := json.NewDecoder(strings.NewReader(o))
			for k := 0; k <= i; k++ {
				var x json.RawMessage
				if dec.Decode(&x) != nil {
					return false
				}
			}
			return true
		}
		deadline := time.Now().Add(60 * time.Second)
		for !complete() {
			if time.Now().After(deadline) {
				got := out.String()
				return fmt.Errorf("tokenize %q does not answer line %d, %q, before the input ends: after a minute it has printed %q (%v)", args, i, clip(string(l)), clip(got), finish())
			}
			time.Sleep(200 * time.Microsecond)
		}
		rec.NonTrivialIf(i > 0 && n > 1)
	}
	if err := finish(); err != nil {
		return fmt.Errorf("tokenize %q fails: %v", args, err)
	}
	rec.LabelIf(c.JSON, "json")
	return nil
}

// ErrCase is an invocation that has to be reported as an error.
type ErrCase struct {
	Cmd     string
	What    string // what is wrong
	JSON    bool
	Input   BS
	Program bool
}

var errKinds = map[string][]string{
	"tokenize": {"file missing", "file dash", "dict dash", "udict dash", "file is a directory", "dict missing", "dict garbage", "dict empty", "dict truncated", "udict missing", "udict columns", "udict duplicate", "udict lengths", "udict is a directory"},
	"sentence": {"file missing", "file dash", "file is a directory"},
	"lattice":  {"udict missing", "udict columns", "output directory", "output in missing directory"},
}

func genErrCase(cmd string, program bool) func(t *rapid.T) ErrCase {
	return func(t *rapid.T) ErrCase {
		return ErrCase{Cmd: cmd, What: pick(t, "what", errKinds[cmd]), JSON: rapid.Bool().Draw(t, "json"), Input: genJapanese(t, 2), Program: program}
	}
}

func checkErr(c ErrCase, rec *Rec) error {
	in := strings.ReplaceAll(string(c.Input), "\x00", "")
	var args []string
	kind, what, _ := strings.Cut(c.What, " ")
	missing := scratch("no/such/file")
	var path string
	switch what {
	case "missing", "in missing directory":
		path = missing
	case "dash": // there is no file of that name
		path = "-"
	case "is a directory", "directory":
		path = scratch("dir")
		must(os.MkdirAll(path, 0o755))
	case "garbage":
		path = writeScratch("bad", "this is not a dictionary\n"+in)
	case "empty":
		path = writeScratch("bad", "")
	case "truncated":
		p := saveDict(&DictSpec{N: 1, Conn: []int{0}, TblLen: 128, Cats: []CatSpec{{Unk: []UnkSpec{{F: []BS{"x"}}}}}, Words: []WordSpec{{S: "a", POS: []BS{"p"}}}}, "whole.dict")
		b, err := os.ReadFile(p)
		must(err)
		path = writeScratch("bad", string(b[:len(b)*2/3]))
	case "columns":
		path = writeScratch("bad", "猫,猫,ネコ\n")
	case "duplicate":
		path = writeScratch("bad", "猫,猫,ネコ,名詞\n猫,猫,ネコ,名詞\n")
	case "lengths":
		path = writeScratch("bad", "猫,ね こ,ネコ,名詞\n")
	default:
		panic(c.What)
	}
	args = append(args, "-"+kind, path)
	var run func(context.Context, []string) error
	var buf, ebuf bytes.Buffer
	switch c.Cmd {
	case "tokenize":
		if c.JSON {
			args = append(args, "-json")
		}
		if kind != "file" {
			args = append(args, "-file", writeScratch("input.txt", in))
		}
		if kind == "udict" { // without loading a large dictionary
			args = append(args, "-dict", saveDict(&DictSpec{N: 1, Conn: []int{0}, TblLen: 128, Cats: []CatSpec{{Unk: []UnkSpec{{F: []BS{"x"}}}}}, Words: []WordSpec{{S: "a", POS: []BS{"p"}}}}, "whole.dict"))
		}
		tokenize.Stdout, tokenize.Stderr = &buf, &ebuf
		run = tokenize.Run
	case "sentence":
		sentence.Stdout, sentence.Stderr = &buf, &ebuf
		run = sentence.Run
	case "lattice":
		args = append(args, "--", "猫"+in)
		lattice.Stdout, lattice.Stderr = &buf, &ebuf
		run = lattice.Run
	}
	rec.NonTrivial()
	rec.Label(c.Cmd + ": " + c.What)
	if c.Program {
		_, e, code, err := runProgram(append([]string{c.Cmd}, args...), in)
		if err != nil {
			return err
		}
		if code == 0 || strings.TrimSpace(e) == "" {
			return fmt.Errorf("kagome %s %q exits with %d and the message %q although: %s", c.Cmd, args, code, e, c.What)
		}
		return nil
	}
	if err := run(context.Background(), args); err == nil {
		return fmt.Errorf("%s %q reports no error although: %s", c.Cmd, args, c.What)
	}
	return nil
}

// ---------------------------------------------------------------- C16

// SenCase is an invocation of the sentence command.
type SenCase struct {
	Input   BS
	Via     string
	Name    int  `json:",omitempty"`
	Program bool `json:",omitempty"`
}

func genSenCase(program bool) func(t *rapid.T) SenCase {
	return func(t *rapid.T) SenCase {
		c := SenCase{Via: pick(t, "via", []string{"file", "file", "named pipe", "stdin", "stdin", "pipe"}), Name: intr(t, "name", 0, len(fileNames)-1), Program: program}
		if chance(t, "big", 10) {
			var b strings.Builder
			for i, n := 0, intr(t, "parts", 2, 8); i < n; i++ {
				b.WriteString(strings.Repeat(string(genSplitText(t, 8)), intr(t, "times", 1, 30)))
			}
			c.Input = BS(b.String())
		} else {
			c.Input = genSplitText(t, 25)
		}
		if _, ahead, span := refSentences(SplitSpec{Default: true}, string(c.Input)); ahead > 4000 || span > 30000 {
			c.Input = c.Input[:1000]
		}
		return c
	}
}

func checkC16(c SenCase, rec *Rec) error {
	in := string(c.Input)
	want, ahead, span := refSentences(SplitSpec{Default: true}, in)
	if ahead > 4000 || span > 30000 {
		return nil
	}
	var args []string
	stdin := in
	switch c.Via {
	case "file":
		args = []string{"-file", writeScratch(fileName("input.txt", c.Name), in)}
		stdin = otherInput
	case "named pipe":
		p, done := throughPipe(fileName("input.pipe", c.Name), in)
		defer done()
		args = []string{"-file", p}
		stdin = otherInput
	}
	var out string
	if c.Program {
		o, e, code, err := runProgram(append([]string{"sentence"}, args...), stdin)
		if err != nil {
			return err
		}
		if code != 0 {
			return fmt.Errorf("kagome sentence %q exits with %d: %s", args, code, e)
		}
		out = o
	} else {
		var buf, ebuf bytes.Buffer
		sentence.Stdout, sentence.Stderr = &buf, &ebuf
		if err := withStdin(stdin, c.Via == "pipe", func() error { return sentence.Run(context.Background(), args) }); err != nil {
			return fmt.Errorf("sentence %q on %q fails: %v", args, clip(in), err)
		}
		out = buf.String()
	}
	exp := ""
	if len(want) > 0 {
		exp = strings.Join(want, "\n") + "\n"
	}
	if out != exp {
		return fmt.Errorf("sentence %q on %q prints\n%q\nwant\n%q", args, clip(in), clip(out), clip(exp))
	}
	rec.NonTrivialIf(len(want) >= 2)
	rec.LabelIf(len(in) > 4096, "longer than 4096 bytes")
	rec.Label("via " + c.Via)
	return nil
}

// ---------------------------------------------------------------- C17

// LatCase is an invocation of the lattice command.
type LatCase struct {
	Dict    string
	User    []UserSpec
	Mode    string
	Output  string // "", new, old
	Verbose bool
	Dash    bool
	Args    []BS
	Syntax  []int
	Name    int  `json:",omitempty"`
	Program bool `json:",omitempty"`
}

func genLatCase(dicts []string, program bool) func(t *rapid.T) LatCase {
	return func(t *rapid.T) LatCase {
		c := LatCase{Dict: pick(t, "dict", dicts), Mode: pick(t, "mode", []string{"", "normal", "search", "extended"}), Program: program}
		c.User = fileable(genRealUser(t, 3))
		c.Output = pick(t, "output", []string{"", "new", "old"})
		c.Name = intr(t, "name", 0, len(fileNames)-1)
		c.Verbose, c.Dash = chance(t, "v", 70), rapid.Bool().Draw(t, "dash")
		for i, n := 0, intr(t, "nargs", 1, 3); i < n; i++ {
			a := genRealText(t, c.User, 3)
			a = BS(strings.ReplaceAll(string(a), "\x00", ""))
			if chance(t, "flaglike", 8) {
				a = pick(t, "fl", []BS{"-v", "-", "--", "-mode", "", "-output=x"})
			}
			c.Args = append(c.Args, a)
		}
		if strings.HasPrefix(string(c.Args[0]), "-") && c.Args[0] != "-" {
			c.Dash = true
		}
		for i := 0; i < 6; i++ {
			c.Syntax = append(c.Syntax, intr(t, "syntax", 0, 3))
		}
		return c
	}
}

func checkC17(c LatCase, rec *Rec) error {
	if len(c.Args) == 0 || (!c.Dash && strings.HasPrefix(string(c.Args[0]), "-") && c.Args[0] != "-") {
		return nil
	}
	setup := Setup{Real: c.Dict, User: c.User}
	tk, _ := setup.Tokenizer()
	in := strings.Join(strs(c.Args), " ")
	a := &argList{syntax: c.Syntax}
	if c.Mode != "" {
		a.str("mode", c.Mode)
	}
	if c.Dict != "ipa" || c.Syntax[0] == 1 {
		a.str("dict", c.Dict)
	}
	if len(c.User) > 0 {
		a.str("udict", saveUser(c.User, fileName("user.txt", c.Name)))
	}
	file := scratch(fileName("out.dot", c.Name))
	_ = os.Remove(file)
	if c.Output == "old" {
		writeScratch(fileName("out.dot", c.Name), strings.Repeat("previous contents\n", 100000))
	}
	if c.Output != "" {
		a.str("output", file)
	}
	a.flag("v", c.Verbose)
	if c.Dash {
		a.args = append(a.args, "--")
	}
	args := append(a.args, strs(c.Args)...)
	var out, errout string
	if c.Program {
		o, e, code, err := runProgram(append([]string{"lattice"}, args...), "")
		if err != nil {
			return err
		}
		if code != 0 {
			return fmt.Errorf("kagome lattice %q exits with %d: %s", args, code, e)
		}
		out, errout = o, e
	} else {
		var buf, ebuf bytes.Buffer
		lattice.Stdout, lattice.Stderr = &buf, &ebuf
		if err := lattice.Run(context.Background(), args); err != nil {
			return fmt.Errorf("lattice %q fails: %v", args, err)
		}
		out, errout = buf.String(), ebuf.String()
	}
	if c.Output != "" {
		if out != "" {
			return fmt.Errorf("lattice %q prints %q although there is an output file", args, clip(out))
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return fmt.Errorf("lattice %q: %w", args, err)
		}
		out = string(b)
	}
	var want bytes.Buffer
	mode := modeNames[c.Mode]
	ts := tk.AnalyzeGraph(&want, in, mode)
	if _, err := parseDot(out); err != nil {
		return fmt.Errorf("lattice %q writes no DOT graph: %v\n%s", args, err, clip(out))
	}
	if g, w := canonDot(out), canonDot(want.String()); g != w {
		return fmt.Errorf("lattice %q writes the graph\n%s\nwant\n%s", args, clip(g), clip(w))
	}
	if err := diffTokens(ts, tk.Analyze(in, mode)); err != nil {
		return fmt.Errorf("lattice %q: the graph's tokens differ from those of the analysis: %w", args, err)
	}
	var verbose strings.Builder
	if c.Verbose {
		for i, t := range ts {
			if i == 0 {
				continue
			}
			verbose.WriteString(t.Surface)
			if t.Class != tokenizer.DUMMY {
				verbose.WriteString("\t" + strings.Join(t.Features(), ","))
			}
			verbose.WriteString("\n")
		}
		if !strings.HasSuffix(verbose.String(), "EOS\n") {
			return fmt.Errorf("the analysis of %q does not end with EOS", clip(in))
		}
	}
	if errout != verbose.String() {
		return fmt.Errorf("lattice %q writes to standard error\n%q\nwant\n%q", args, clip(errout), clip(verbose.String()))
	}
	rec.NonTrivialIf(len(ts) >= 4)
	rec.LabelIf(c.Verbose, "verbose")
	rec.LabelIf(c.Output != "", "output file")
	rec.LabelIf(c.Mode == "extended", "extended")
	return nil
}

func init() {
	fixture["C06"] = func() { needShrink = true }
	fixture["C15"] = func() { needShrink = true; realDict("ipa") }
	ipa := []string{"ipa", "ipa", "ipa-shrink"}
	reg("C15", "generated dictionaries", 40, 120, 4000, genCmdCase(nil, false), checkC15)
	reg("C15", "IPA", 20, 40, 1500, genCmdCase(ipa, false), checkC15)
	reg("C15", "unidic", 10, 8, 200, genCmdCase([]string{"uni", "uni-shrink"}, false), checkC15)
	reg("C15", "program", 8, 16, 200, genCmdCase(ipa, true), checkC15)
	reg("C15", "large inputs", 8, 24, 600, genBulkCase(nil, false), checkC15)
	reg("C15", "large inputs, IPA", 2, 16, 400, genBulkCase(ipa, false), checkC15)
	reg("C15", "large inputs, program", 2, 8, 100, genBulkCase(ipa, true), checkC15)
	reg("C15", "dialogue", 20, 24, 400, genStream(false), checkStream)
	reg("C15", "dialogue, program", 3, 8, 60, genStream(true), checkStream)
	reg("C15", "errors", 30, 8, 60, genErrCase("tokenize", false), checkErr)
	reg("C15", "program errors", 4, 8, 40, genErrCase("tokenize", true), checkErr)
	reg("C16", "text", 60, 320, 9000, genSenCase(false), checkC16)
	reg("C16", "program", 20, 24, 400, genSenCase(true), checkC16)
	reg("C16", "errors", 10, 4, 20, genErrCase("sentence", false), checkErr)
	reg("C16", "program errors", 4, 4, 20, genErrCase("sentence", true), checkErr)
	reg("C17", "IPA", 20, 80, 3000, genLatCase([]string{"ipa"}, false), checkC17)
	reg("C17", "unidic", 10, 8, 200, genLatCase([]string{"uni"}, false), checkC17)
	reg("C17", "program", 8, 16, 200, genLatCase([]string{"ipa"}, true), checkC17)
	reg("C17", "errors", 10, 8, 40, genErrCase("lattice", false), checkErr)
}
