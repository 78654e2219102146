package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C21

// command describes the options of a command as documented.
type command struct {
	strs, bools []string
	valid       map[string][]string // allowed values
	positional  string              // none, some
	check       func([]string) error
	run         func(context.Context, []string) error
	out, err    *io.Writer
}

var discard io.Writer = io.Discard

var commands = map[string]*command{
	"tokenize": {
		strs: []string{"file", "dict", "udict", "sysdict", "mode"}, bools: []string{"simple", "split", "json"},
		valid: map[string][]string{"mode": {"", "normal", "search", "extended"}, "sysdict": {"", "ipa", "uni"}}, positional: "none",
		check: tokenize.OptionCheck, run: tokenize.Run, out: &tokenize.Stdout, err: &tokenize.Stderr,
	},
	"sentence": {strs: []string{"file"}, positional: "none", check: sentence.OptionCheck, run: sentence.Run, out: &sentence.Stdout, err: &sentence.Stderr},
	"lattice": {
		strs: []string{"udict", "dict", "mode", "output"}, bools: []string{"v"},
		valid: map[string][]string{"mode": {"", "normal", "search", "extended"}, "dict": {"", "ipa", "uni"}}, positional: "some",
		check: lattice.OptionCheck, run: lattice.Run, out: &lattice.Stdout, err: &lattice.Stderr,
	},
	"server": {
		strs: []string{"http", "userdict", "dict"}, valid: map[string][]string{"dict": {"", "ipa", "uni"}}, positional: "none",
		check: server.OptionCheck, run: server.Run, out: &discard, err: &server.Stderr,
	},
}

// parse decides an argument list by the rules of Go's command lines: -x v, -x=v,
// --x likewise; a boolean takes its value only after "="; "--" or the first
// argument that is no flag ends the flags.
func (c *command) parse(args []string) (vals map[string]string, rest []string, err error) {
	vals = map[string]string{}
	has := func(xs []string, s string) bool {
		for _, x := range xs {
			if x == s {
				return true
			}
		}
		return false
	}
	i := 0
	for ; i < len(args); i++ {
		a := args[i]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		if a == "--" {
			i++
			break
		}
		name := strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		name, val, eq := strings.Cut(name, "=")
		if name == "" || name[0] == '-' {
			return nil, nil, fmt.Errorf("bad flag %q", a)
		}
		switch {
		case has(c.bools, name):
			if !eq {
				val = "true"
			}
			b, err := strconv.ParseBool(val)
			if err != nil {
				return nil, nil, fmt.Errorf("bad value of %q", a)
			}
			vals[name] = strconv.FormatBool(b)
		case has(c.strs, name):
			if !eq {
				if i+1 >= len(args) {
					return nil, nil, fmt.Errorf("no value for %q", a)
				}
				i++
				val = args[i]
			}
			vals[name] = val
		default:
			return nil, nil, fmt.Errorf("unknown flag %q", a)
		}
	}
	rest = args[i:]
	if c.positional == "none" && len(rest) > 0 {
		return nil, nil, fmt.Errorf("unexpected arguments %q", rest)
	}
	if c.positional == "some" && len(rest) == 0 {
		return nil, nil, fmt.Errorf("no argument")
	}
	for k, vs := range c.valid {
		if v, ok := vals[k]; ok && !has(vs, v) {
			return nil, nil, fmt.Errorf("bad value of -%s", k)
		}
	}
	return vals, rest, nil
}

// ArgCase is an argument list for a command ("": for the program itself). Values
// that start with "@" stand for files in the scratch directory.
type ArgCase struct {
	Cmd   string
	Args  []BS
	Stdin BS
}

var (
	argNames  = []string{"file", "dict", "udict", "sysdict", "mode", "simple", "split", "json", "v", "output", "http", "userdict", "help", "h", "x", "userdic", "Mode", ""}
	argValues = []BS{"normal", "search", "extended", "Normal", "zzz", "", "ipa", "uni", "IPA", "ipadic", "ko", "@input", "@missing", "@dict", "@user", "@out", "true", "false", "maybe", "1", "0", "T", "bad::address"}
	goodValue = map[string][]BS{"file": {"@input", "@input", "@missing"}, "dict": {"ipa", "ipa", "@dict", "uni", "", "@missing"}, "udict": {"@user", "@missing", ""}, "userdict": {"@user"}, "sysdict": {"ipa", "ipa", "ipa", "uni", ""}, "mode": {"normal", "search", "extended", ""}, "output": {"@out"}, "http": {"bad::address"}}
)

func genArgs(cmd string) func(t *rapid.T) ArgCase {
	return func(t *rapid.T) ArgCase {
		c := ArgCase{Cmd: cmd, Stdin: BS(strings.ReplaceAll(string(genJapanese(t, 2)), "\x00", ""))}
		k := commands[cmd]
		names := append(append([]string{}, k.strs...), k.bools...)
		wild := chance(t, "wild", 40) // otherwise mostly acceptable
		for i, n := 0, intr(t, "nargs", 0, 6); i < n; i++ {
			name := pick(t, "name", names)
			if wild && chance(t, "anyname", 20) {
				name = pick(t, "name2", argNames)
			}
			var val BS
			if vs := goodValue[name]; len(vs) > 0 && !(wild && chance(t, "anyvalue", 25)) {
				val = pick(t, "value", vs)
				if name == "dict" && cmd == "tokenize" {
					val = "@dict"
				}
				if name == "dict" && cmd != "tokenize" {
					val = pick(t, "dval", []BS{"ipa", "ipa", "uni", ""})
				}
			} else {
				val = pick(t, "value2", argValues)
			}
			isBool := name == "simple" || name == "split" || name == "json" || name == "v"
			dash := BS(pick(t, "dash", []string{"-", "-", "--"}))
			switch {
			case isBool && !chance(t, "boolvalue", 30):
				c.Args = append(c.Args, dash+BS(name))
			case isBool:
				if !wild {
					val = pick(t, "bv", []BS{"true", "false", "0", "1", "T"})
				}
				c.Args = append(c.Args, dash+BS(name)+"="+val)
			case rapid.Bool().Draw(t, "eq"):
				c.Args = append(c.Args, dash+BS(name)+"="+val)
			default:
				c.Args = append(c.Args, dash+BS(name))
				if !(wild && chance(t, "novalue", 10)) {
					c.Args = append(c.Args, val)
				}
			}
			if wild && chance(t, "odd", 8) {
				c.Args = append(c.Args, pick(t, "oddarg", []BS{"--", "-", "猫", "---x", "-=x", "", "tokenize"}))
			}
		}
		if k.positional == "some" && !(wild && chance(t, "noinput", 15)) {
			if chance(t, "dd", 30) {
				c.Args = append(c.Args, "--")
			}
			c.Args = append(c.Args, pick(t, "input", []BS{"猫", "すもも", "a b", ""}))
		} else if wild && chance(t, "rest", 10) {
			c.Args = append(c.Args, "猫")
		}
		return c
	}
}

// resolve replaces the file names.
func (c *ArgCase) resolve() []string {
	writeScratch("input", "猫です\nすもももももも。\n")
	writeScratch("out", "") // may be named as an input as well
	writeScratch("user", "すもも,すも も,スモ モ,果物\n")
	saveDict(&DictSpec{N: 1, Conn: []int{0}, TblLen: 128, Cats: []CatSpec{{Group: true, Unk: []UnkSpec{{W: 5, F: []BS{"未知"}}}}}, Words: []WordSpec{{S: "猫", POS: []BS{"名詞"}, C: []BS{"ネコ"}}}}, "dict")
	var ret []string
	for _, a := range c.Args {
		s := string(a)
		for _, n := range []string{"input", "user", "dict", "out", "missing"} {
			p := scratch(n)
			if n == "missing" {
				p = scratch("no/such/file")
			}
			if s == "@"+n {
				s = p
			} else if strings.HasSuffix(s, "=@"+n) {
				s = strings.TrimSuffix(s, "@"+n) + p
			}
		}
		ret = append(ret, s)
	}
	return ret
}

// succeeds predicts whether running with accepted options succeeds.
func succeeds(cmd string, v map[string]string) bool {
	bad := func(p string) bool {
		return p != "" && !strings.HasPrefix(p, scratch("")) || strings.Contains(p, "no/such")
	}
	get := func(k, def string) string {
		if x, ok := v[k]; ok {
			return x
		}
		return def
	}
	if bad(get("file", "")) || bad(get("udict", "")) || bad(get("output", "")) {
		return false
	}
	isDict := func(p string) bool { return p == scratch("dict") }
	isUser := func(p string) bool { return p == "" || p == scratch("user") }
	switch cmd {
	case "tokenize":
		if d := get("dict", ""); d != "" {
			if !isDict(d) {
				return false
			}
		} else if get("sysdict", "ipa") == "" {
			return false
		}
		return isUser(get("udict", ""))
	case "lattice":
		return get("dict", "ipa") != "" && isUser(get("udict", ""))
	}
	return true
}

// runnable: the outcome of running is predictable and harmless.
func runnable(v map[string]string) bool {
	for _, k := range []string{"file", "udict", "output"} {
		p := v[k]
		if p == "" {
			continue
		}
		if !strings.HasPrefix(p, scratch("")) {
			return false
		}
		if k == "output" && p != scratch("out") && !strings.Contains(p, "no/such") {
			return false
		}
		if k == "udict" && p != scratch("user") && !strings.Contains(p, "no/such") {
			return false
		}
	}
	return true
}

func checkArgs(c ArgCase, rec *Rec) error {
	k := commands[c.Cmd]
	args := c.resolve()
	vals, _, perr := k.parse(args)
	cerr := k.check(args)
	if (cerr == nil) != (perr == nil) {
		return fmt.Errorf("the option check of %s says %v about %q, want %v", c.Cmd, cerr, args, perr)
	}
	var out, eout bytes.Buffer
	*k.out, *k.err = &out, &eout
	if perr != nil {
		if err := k.run(context.Background(), args); err == nil {
			return fmt.Errorf("%s %q reports no error, want %v", c.Cmd, args, perr)
		}
		if strings.TrimSpace(eout.String()) == "" {
			return fmt.Errorf("%s %q prints no message", c.Cmd, args)
		}
		if out.Len() > 0 {
			return fmt.Errorf("%s %q prints %q although its options are rejected", c.Cmd, args, clip(out.String()))
		}
		rec.Label("rejected")
		rec.NonTrivial()
		return nil
	}
	rec.LabelIf(len(args) > 0, "accepted")
	rec.NonTrivialIf(len(args) > 0)
	if c.Cmd == "server" { // it serves until it is stopped
		if addr, ok := vals["http"]; !ok || addr != "bad::address" {
			return nil
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		if err := k.run(ctx, args); err == nil {
			return fmt.Errorf("server %q reports no error for a bad address", args)
		}
		return nil
	}
	if !runnable(vals) {
		return nil
	}
	want := succeeds(c.Cmd, vals)
	err := withStdin(string(c.Stdin), false, func() error { return k.run(context.Background(), args) })
	if (err == nil) != want {
		return fmt.Errorf("%s %q returns %v, want success: %v", c.Cmd, args, err, want)
	}
	rec.LabelIf(want, "ran")
	return nil
}

// ProgCase runs the program and compares it with the command.
type ProgCase struct {
	Named bool // name the subcommand
	ArgCase
}

func genProg(t *rapid.T) ProgCase {
	cmd := pick(t, "cmd", []string{"tokenize", "tokenize", "sentence", "lattice", "server", "version", "other"})
	p := ProgCase{Named: true}
	switch cmd {
	case "version":
		p.Cmd = cmd
		p.Args = pick(t, "vargs", [][]BS{nil, {"x"}})
	case "other": // not a subcommand: all arguments are for tokenize, which takes none
		p.Cmd, p.Named = "tokenize", false
		p.Args = pick(t, "oargs", [][]BS{{"tokenise"}, {"Tokenize"}, {"help"}, {"-h"}, {"--help"}, {"猫"}, {"tokenize "}, {""}, {"latticex", "猫"}, {"-mode", "sentence"}, {"-json", "sentence"}, {"versions"}, {"-lattice", "猫"}, {"--sentence"}, {"-version"}, {"--tokenize"}, {"-server", "-http", "0"}, {"LATTICE", "猫"}, {"sentence,"}, {"lat", "猫"}, {"sent"}})
	default:
		p.ArgCase = genArgs(cmd)(t)
		if cmd == "tokenize" {
			p.Named = rapid.Bool().Draw(t, "named")
		}
	}
	return p
}

func checkProg(c ProgCase, rec *Rec) error {
	args := c.resolve()
	full := args
	if c.Named {
		full = append([]string{c.Cmd}, args...)
	}
	if c.Cmd == "version" {
		o, e, code, err := runProgram(full, "")
		if err != nil {
			return err
		}
		if code != 0 || o != "" || strings.TrimSpace(e) == "" {
			return fmt.Errorf("kagome %q exits with %d, prints %q and %q", full, code, o, e)
		}
		rec.NonTrivial()
		return nil
	}
	if !c.Named && len(args) > 0 && (commands[args[0]] != nil || args[0] == "version") {
		return nil // it names a subcommand
	}
	k := commands[c.Cmd]
	vals, _, perr := k.parse(args)
	want := perr == nil
	if want && c.Cmd == "server" {
		if vals["http"] != "bad::address" {
			return nil
		}
		want = false
	} else if want {
		if !runnable(vals) {
			return nil
		}
		want = succeeds(c.Cmd, vals)
	}
	o, e, code, err := runProgram(full, string(c.Stdin))
	if err != nil {
		return err
	}
	if (code == 0) != want {
		return fmt.Errorf("kagome %q exits with %d, want success: %v (%s)", full, code, want, clip(e))
	}
	if !want && strings.TrimSpace(e) == "" {
		return fmt.Errorf("kagome %q fails without a message", full)
	}
	if want && vals["simple"] != "true" { // the same as the command itself
		var out, eout bytes.Buffer
		*k.out, *k.err = &out, &eout
		if err := withStdin(string(c.Stdin), false, func() error { return k.run(context.Background(), args) }); err != nil {
			return fmt.Errorf("%s %q fails: %v", c.Cmd, args, err)
		}
		g, w := o, out.String()
		if c.Cmd == "lattice" {
			g, w = canonDot(g), canonDot(w)
		}
		if g != w {
			return fmt.Errorf("kagome %q prints\n%s\nwant\n%s", full, clip(o), clip(out.String()))
		}
		rec.Label("ran")
	}
	rec.LabelIf(!want, "rejected or failed")
	rec.NonTrivialIf(len(full) > 0)
	return nil
}

// OptCase is a list of options for a new tokenizer.
type OptCase struct {
	Dict  *DictSpec // nil: no dictionary
	Users [][]UserSpec
	Opts  []string // nop, omit, nil, user<N>
	Input BS
}

func genOpts(t *rapid.T) OptCase {
	s, ctx := genSynthSetup(t, 0)
	c := OptCase{Dict: s.Dict}
	var all []UserSpec
	for i := 0; i < 2; i++ {
		u := genUser(t, ctx, s.Dict.Words, 4)
		if len(u) > 0 {
			c.Users = append(c.Users, u)
			all = append(all, u...)
		}
	}
	for i, n := 0, intr(t, "nopts", 0, 6); i < n; i++ {
		o := pick(t, "opt", []string{"nop", "omit", "user0", "user1", "user0", "user1", "nil"})
		if o == "nil" && !chance(t, "nilok", 25) {
			o = "nop"
		}
		c.Opts = append(c.Opts, o)
	}
	c.Input = genText(t, ctx, s.Dict.Words, all, 10)
	if chance(t, "nodict", 5) {
		c.Dict = nil
	}
	return c
}

func checkOpts(c OptCase, rec *Rec) error {
	var d *dict.Dict
	if c.Dict != nil {
		d = c.Dict.Build()
	}
	wantErr := d == nil
	var opts []tokenizer.Option
	setup := Setup{Dict: c.Dict}
	for _, o := range c.Opts {
		switch o {
		case "nop":
			opts = append(opts, tokenizer.Nop())
		case "omit":
			opts = append(opts, tokenizer.OmitBosEos())
			setup.Omit = true
		case "nil":
			opts = append(opts, tokenizer.UserDict(nil))
			wantErr = true
		default:
			n := int(o[4] - '0')
			if n >= len(c.Users) {
				continue
			}
			setup.User = c.Users[n]
			opts = append(opts, tokenizer.UserDict(BuildUser(c.Users[n])))
		}
	}
	tk, err := tokenizer.New(d, opts...)
	if (err != nil) != wantErr {
		return fmt.Errorf("New with the options %v returns the error %v, want an error: %v", c.Opts, err, wantErr)
	}
	rec.NonTrivialIf(len(opts) >= 2)
	if err != nil {
		rec.Label("rejected")
		return nil
	}
	in := string(c.Input)
	ref, md := setup.Tokenizer()
	for _, m := range modes {
		ts := tk.Analyze(in, m)
		if err := diffTokens(ts, ref.Analyze(in, m)); err != nil {
			return fmt.Errorf("options %v, input %q: %w", c.Opts, clip(in), err)
		}
		if err := lossless(in, ts, setup.Omit); err != nil {
			return fmt.Errorf("options %v: %w", c.Opts, err)
		}
		for _, t := range ts {
			if m == tokenizer.Extended && t.Class == tokenizer.DUMMY {
				continue // a piece of a split unknown word
			}
			if t.ID != tokenizer.BosEosID && t.Class != tokenizer.USER && len(md.userMatches(in[t.Position:])) > 0 {
				return fmt.Errorf("options %v, input %q: token %v, although a user entry matches", c.Opts, clip(in), t)
			}
			if t.Class == tokenizer.USER {
				rec.Label("user dictionary in effect")
				if a := md.accessors(t.Class, t.ID); !sameList(t.Features(), a.feat) {
					return fmt.Errorf("options %v, input %q: token %v has features %q, want %q", c.Opts, clip(in), t, t.Features(), a.feat)
				}
			}
		}
	}
	rec.LabelIf(setup.Omit, "BOS/EOS omitted")
	return nil
}

func init() {
	for _, cmd := range []string{"tokenize", "sentence", "lattice"} {
		reg("C21", cmd+" options", 40, 40, 1500, genArgs(cmd), checkArgs)
	}
	reg("C21", "server options", 40, 30, 800, genArgs("server"), checkArgs)
	reg("C21", "program", 10, 32, 500, genProg, checkProg)
	reg("C21", "tokenizer options", 60, 100, 3000, genOpts, checkOpts)
}
