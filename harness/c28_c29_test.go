package checks

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C28

// LatStep is a use of a lattice.
type LatStep struct {
	Op    string // build, dot, string, free, analyze
	Setup int    `json:",omitempty"`
	Input int    `json:",omitempty"`
	Mode  int    `json:",omitempty"`
	Of    int    `json:",omitempty"`
}

// LatHist is a history of lattices that are alive at the same time.
type LatHist struct {
	Setups []Setup
	Inputs []BS
	Steps  []LatStep
}

func genLatHist(real []string, maxSteps int) func(t *rapid.T) LatHist {
	return func(t *rapid.T) LatHist {
		h := genHist(real, 2)(t)
		c := LatHist{Setups: h.Setups, Inputs: h.Inputs}
		if len(c.Inputs) == 0 {
			c.Inputs = []BS{"a"}
		}
		for i, n := 0, intr(t, "steps", 1, maxSteps); i < n; i++ {
			s := LatStep{Op: "build", Setup: intr(t, "setup", 0, len(c.Setups)-1), Input: intr(t, "input", 0, len(c.Inputs)-1), Mode: intr(t, "mode", 0, 2)}
			if i > 0 && chance(t, "other", 50) {
				s = LatStep{Op: pick(t, "op", []string{"dot", "string", "free", "free", "analyze"}), Of: intr(t, "of", 0, 7), Setup: s.Setup, Input: s.Input, Mode: s.Mode}
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}
}

type openLattice struct {
	la     *lattice.Lattice
	in     string
	mode   tokenizer.TokenizeMode
	md     *Model
	tk     *tokenizer.Tokenizer
	tokens []tokenizer.Token
}

var latticeModes = map[tokenizer.TokenizeMode]lattice.TokenizeMode{tokenizer.Normal: lattice.Normal, tokenizer.Search: lattice.Search, tokenizer.Extended: lattice.Extended}

// check compares the output of the lattice with the tokens.
func (o *openLattice) check() error {
	la := o.la
	if la.Input != o.in {
		return fmt.Errorf("the input of the lattice is %q", clip(la.Input))
	}
	if len(la.Output) != len(o.tokens) {
		return fmt.Errorf("%d nodes for the tokens %s", len(la.Output), dumpTokens(o.tokens))
	}
	for i, t := range o.tokens {
		n := la.Output[len(la.Output)-1-i]
		surface := t.Surface
		if t.ID == tokenizer.BosEosID {
			surface = ""
		}
		if n.ID != t.ID || tokenizer.TokenClass(n.Class) != t.Class || n.Position != t.Position || n.Start != t.Start || n.Surface != surface {
			return fmt.Errorf("node {%d %v position %d start %d %q} for the token %v", n.ID, n.Class, n.Position, n.Start, n.Surface, t)
		}
		if n.Class.String() != t.Class.String() || n.Class.String() == "" {
			return fmt.Errorf("class %q of the node, %q of the token", n.Class, t.Class)
		}
		var m morph
		switch t.Class {
		case tokenizer.KNOWN:
			m = o.md.morph(t.ID)
		case tokenizer.UNKNOWN:
			m = o.md.unkMorph(t.ID)
		}
		if got := (morph{int(n.Left), int(n.Right), int(n.Weight)}); got != m {
			return fmt.Errorf("node %q has left, right, weight %v, the entry %v", n.Surface, got, m)
		}
	}
	return nil
}

// checkCosts compares the costs of the nodes with those of the path so far.
func (o *openLattice) checkCosts(rec *Rec) error {
	lat, _ := o.md.lattice(o.in)
	search := o.mode != tokenizer.Normal
	_, ok1 := o.md.minCost(lat, search, true)
	_, ok2 := o.md.minCost(lat, search, false)
	if !ok1 || !ok2 {
		return nil
	}
	ts := o.tokens
	if o.mode == tokenizer.Extended {
		ts = o.tk.Analyze(o.in, tokenizer.Search)
	}
	path, err := o.md.pathOf(lat, ts)
	if err != nil {
		return err
	}
	out := o.la.Output
	if got, want := int64(out[0].Cost), o.md.pathCost(path, search); got != want {
		return fmt.Errorf("the cost of the path is %d, the last node says %d", want, got)
	}
	rec.Label("costs compared")
	if search {
		return nil // whether a node's own penalty is in its cost is not specified
	}
	var sum int64
	var prev *cand
	for i, c := range path {
		sum += o.md.connCost(prev, c) + int64(c.w)
		prev = c
		if n := out[len(out)-2-i]; int64(n.Cost) != sum {
			return fmt.Errorf("the cost up to node %q is %d, the node says %d", n.Surface, sum, n.Cost)
		}
	}
	return nil
}

func checkLatHist(c LatHist, rec *Rec) error {
	var open []*openLattice
	defer func() {
		for _, o := range open {
			o.la.Free()
		}
	}()
	tks := make([]*tokenizer.Tokenizer, len(c.Setups))
	mds := make([]*Model, len(c.Setups))
	for i := range c.Setups {
		c.Setups[i].Omit = false
		tks[i], mds[i] = c.Setups[i].Tokenizer()
	}
	builds, frees := 0, 0
	for k, s := range c.Steps {
		what := fmt.Sprintf("step %d (%s)", k, s.Op)
		in, mode := string(c.Inputs[s.Input%len(c.Inputs)]), modes[s.Mode%3]
		si := s.Setup % len(c.Setups)
		if s.Op == "build" {
			d, u := c.Setups[si].dicts()
			o := &openLattice{la: lattice.New(d, u), in: in, mode: mode, md: mds[si], tk: tks[si]}
			open = append(open, o)
			if len(o.la.Output) > 0 || o.la.Input != "" {
				return fmt.Errorf("%s: a new lattice has input %q and %d nodes", what, clip(o.la.Input), len(o.la.Output))
			}
			if k%3 == 0 { // nothing to be done on a lattice without text
				o.la.Forward(latticeModes[mode])
				o.la.Backward(latticeModes[mode])
				if len(o.la.Output) > 0 {
					return fmt.Errorf("%s: an empty lattice yields %d nodes", what, len(o.la.Output))
				}
			}
			o.la.Build(in)
			o.la.Forward(latticeModes[mode])
			o.la.Backward(latticeModes[mode])
			o.tokens = o.tk.Analyze(in, mode)
			if err := first(o.check(), o.checkCosts(rec)); err != nil {
				return fmt.Errorf("%s, mode %v, input %q: %w", what, mode, clip(in), err)
			}
			builds++
			rec.LabelIf(len(open) > 1, "several lattices open")
			rec.LabelIf(frees > 0, "built after another one was freed")
			rec.NonTrivialIf(len(o.tokens) > 3)
		} else if s.Op == "analyze" {
			tks[si].Analyze(in, mode)
		} else if len(open) > 0 {
			i := s.Of % len(open)
			o := open[i]
			switch s.Op {
			case "free":
				open = slices.Delete(open, i, i+1)
				o.la.Free()
				frees++
			case "dot":
				var a, b bytes.Buffer
				o.la.Dot(&a)
				o.tk.AnalyzeGraph(&b, o.in, o.mode)
				if canonDot(a.String()) != canonDot(b.String()) {
					return fmt.Errorf("%s, mode %v, input %q: the graph is\n%s\nbut that of the tokenizer\n%s", what, o.mode, clip(o.in), clip(canonDot(a.String())), clip(canonDot(b.String())))
				}
			case "string":
				if len(o.in) < 300 {
					_ = o.la.String()
				}
			}
		}
		for i, o := range open {
			if err := o.check(); err != nil {
				return fmt.Errorf("after %s, lattice %d (mode %v, input %q): %w", what, i, o.mode, clip(o.in), err)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C29

// checkPrinted: what differs prints differently.
func checkPrinted(c TokCase, rec *Rec) error {
	tk, _ := c.Setup.Tokenizer()
	var all []tokenizer.Token
	for _, b := range c.Inputs {
		for _, m := range modes {
			all = append(all, tk.Analyze(string(b), m)...)
		}
	}
	type id struct {
		index, id            int
		class                tokenizer.TokenClass
		position, start, end int
		surface              string
	}
	seen := map[string]id{}
	if len(all) > 3000 {
		all = all[:3000]
	}
	for _, t := range all {
		k := id{t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface}
		s := t.String()
		if o, ok := seen[s]; ok && o != k {
			return fmt.Errorf("tokens %+v and %+v both print as %s", o, k, s)
		}
		seen[s] = k
		for _, change := range []func(x *tokenizer.Token){ // one of them differs
			func(x *tokenizer.Token) { x.Index++ },
			func(x *tokenizer.Token) { x.ID++ },
			func(x *tokenizer.Token) { x.Class = tokenizer.TokenClass((int(x.Class) + 1) % 4) },
			func(x *tokenizer.Token) { x.Position++ },
			func(x *tokenizer.Token) { x.Start++ },
			func(x *tokenizer.Token) { x.End++ },
			func(x *tokenizer.Token) { x.Surface += "\"" },
			func(x *tokenizer.Token) { x.Surface += " " },
		} {
			x := t
			change(&x)
			if x.String() == s {
				return fmt.Errorf("tokens %+v and %+v both print as %s", k, id{x.Index, x.ID, x.Class, x.Position, x.Start, x.End, x.Surface}, s)
			}
		}
		if p := fmt.Sprint(t); p != s {
			return fmt.Errorf("token %s is formatted as %s", s, p)
		}
		if !strings.Contains(s, t.Class.String()) {
			return fmt.Errorf("%s does not name the class %v", s, t.Class)
		}
		d := tokenizer.NewTokenData(t)
		if d.Class != t.Class.String() {
			return fmt.Errorf("class %q of the token data, %q of the token", d.Class, t.Class)
		}
	}
	rec.NonTrivialIf(len(seen) > 4)
	return nil
}

// NameCase is a number taken for a mode and for a class.
type NameCase struct{ A, B int64 }

func genNames(t *rapid.T) NameCase {
	g := func(n string) int64 {
		if chance(t, n+"?", 70) {
			return int64(intr(t, n, -2, 6))
		}
		return rapid.Int64().Draw(t, n)
	}
	return NameCase{g("a"), g("b")}
}

var (
	namesOfModes   = map[int64]string{int64(tokenizer.Normal): "normal", int64(tokenizer.Search): "search", int64(tokenizer.Extended): "extend"}
	namesOfClasses = map[int64]string{int64(tokenizer.DUMMY): "DUMMY", int64(tokenizer.KNOWN): "KNOWN", int64(tokenizer.UNKNOWN): "UNKNOWN", int64(tokenizer.USER): "USER"}
)

func checkNames(c NameCase, rec *Rec) error {
	for _, v := range []int64{c.A, c.B} {
		for what, x := range map[string]struct {
			got   string
			names map[int64]string
		}{
			"mode":       {tokenizer.TokenizeMode(v).String(), namesOfModes},
			"class":      {tokenizer.TokenClass(v).String(), namesOfClasses},
			"node class": {lattice.NodeClass(v).String(), namesOfClasses},
		} {
			if want, ok := x.names[v]; ok && x.got != want {
				return fmt.Errorf("%s %d is called %q, want %q", what, v, x.got, want)
			} else if !ok {
				for k, n := range x.names {
					if x.got == n {
						return fmt.Errorf("%s %d is called %q like %d", what, v, x.got, k)
					}
				}
			}
		}
		if s := fmt.Sprintf("%v", tokenizer.TokenizeMode(v)); s != tokenizer.TokenizeMode(v).String() {
			return fmt.Errorf("mode %d is formatted as %s", v, s)
		}
	}
	rec.NonTrivialIf(c.A != c.B)
	return nil
}

// checkFilterString: the printed filter, a tree with an element per line and two
// spaces per level, read back, matches the same lists.
func checkFilterString(c FilterCase, rec *Rec) error {
	ps := strss(c.Patterns)
	for _, p := range ps {
		for _, e := range p {
			if strings.Contains(e, "\n") || strings.HasPrefix(e, " ") {
				return nil // cannot be told apart in the tree
			}
		}
	}
	f := filter.NewFeaturesFilter(ps...)
	s := f.String()
	var read [][]string
	var path []string
	lines := strings.Split(s, "\n")
	if last := lines[len(lines)-1]; last != "" {
		return fmt.Errorf("the last line %q of %q does not end", last, s)
	}
	lines = lines[:len(lines)-1]
	depth := func(l string) int {
		d := 0
		for strings.HasPrefix(l, "  ") {
			l = l[2:]
			d++
		}
		return d
	}
	for i, l := range lines {
		d := depth(l)
		if d > len(path) {
			return fmt.Errorf("line %d of %q is %d levels below the line before it", i, s, d-len(path)+1)
		}
		path = append(path[:d:d], l[2*d:])
		if i == len(lines)-1 || depth(lines[i+1]) <= d {
			read = append(read, path)
		}
	}
	g := filter.NewFeaturesFilter(read...)
	for _, l := range c.Lists {
		fs := strs(l)
		if a, b := f.Match(fs), g.Match(fs); a != b {
			return fmt.Errorf("the filter of %q matches %q: %v; it prints as %q, which reads %q and matches: %v", ps, fs, a, s, read, b)
		}
	}
	if again := g.String(); len(strings.Split(again, "\n")) > len(lines)+1 {
		return fmt.Errorf("%q read back prints as %q", s, again)
	}
	if now := f.String(); now != s {
		return fmt.Errorf("%q prints as %q later", s, now)
	}
	rec.NonTrivialIf(len(read) > 1)
	return nil
}

func init() {
	reg("C28", "generated dictionaries", 40, 160, 4000, genLatHist(nil, 12), checkLatHist)
	reg("C28", "with IPA", 10, 32, 800, genLatHist([]string{"ipa"}, 10), checkLatHist)
	oneLattice := func(gen func(t *rapid.T) TokCase) func(t *rapid.T) LatHist {
		return func(t *rapid.T) LatHist {
			tc := gen(t)
			c := LatHist{Setups: []Setup{tc.Setup}, Inputs: tc.Inputs}
			for i := range tc.Inputs {
				for m := range modes {
					c.Steps = append(c.Steps, LatStep{Op: "build", Input: i, Mode: m}, LatStep{Op: pick(t, "then", []string{"free", "free", "dot", "string"}), Of: i})
				}
			}
			return c
		}
	}
	reg("C28", "large dictionaries", 4, 24, 800, oneLattice(genBigCase(20, 100)), checkLatHist)
	reg("C28", "search penalties", 30, 24, 800, oneLattice(genPenaltyCase), checkLatHist)
	reg("C29", "tokens", 60, 80, 2000, genSynthCase(3, 2, 12), checkPrinted)
	reg("C29", "tokens, IPA", 20, 24, 600, genRealCase([]string{"ipa"}, 3, 2, 8), checkPrinted)
	reg("C29", "names", 100, 24, 200, genNames, checkNames)
	reg("C29", "features filters", 100, 400, 8000, genFilterCase, checkFilterString)
}
