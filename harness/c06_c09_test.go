package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C06

// expectation of the accessors of a token, from the model.
type accessors struct {
	feat, pos []string
	pick      map[string]*string // nil: absent
}

func (m *Model) unkPOS(id int) []string {
	f := m.unkFeat(id)
	start, n := 0, 1
	if v, ok := m.unkMeta[dict.POSStartIndex]; ok {
		start = v
	}
	if v, ok := m.unkMeta[dict.POSHierarchy]; ok {
		n = v
	}
	if n <= 0 || start+n > len(f) {
		return nil
	}
	return f[start : start+n]
}

func (m *Model) accessors(class tokenizer.TokenClass, id int) accessors {
	var a accessors
	var meta map[string]int
	switch class {
	case tokenizer.KNOWN:
		a.feat, a.pos, meta = m.feat(id), m.pos(id), m.meta
	case tokenizer.UNKNOWN:
		a.feat, a.pos, meta = m.unkFeat(id), m.unkPOS(id), m.unkMeta
	case tokenizer.USER:
		a.feat, a.pos = userFeatures(m.user[id]), []string{string(m.user[id].Pos)}
	}
	a.pick = map[string]*string{}
	for _, k := range pickKeys {
		if i, ok := meta[k]; ok && i >= 0 && i < len(a.feat) {
			v := a.feat[i]
			a.pick[k] = &v
		}
	}
	return a
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkAccessors(t tokenizer.Token, a accessors) error {
	f := t.Features()
	if !sameList(f, a.feat) {
		return fmt.Errorf("token %v: Features() = %q, want %q", t, f, a.feat)
	}
	for _, i := range []int{wideInt(-1 << 40), -100, -2, -1, len(a.feat), len(a.feat) + 1, len(a.feat) + 2, len(a.feat) + 7, wideInt(1 << 40)} {
		if v, ok := t.FeatureAt(i); ok || v != "" {
			return fmt.Errorf("token %v: FeatureAt(%d) = %q, %v with %d features", t, i, v, ok, len(a.feat))
		}
	}
	for i := range a.feat {
		if v, ok := t.FeatureAt(i); !ok || v != a.feat[i] {
			return fmt.Errorf("token %v: FeatureAt(%d) = %q, %v, want %q", t, i, v, ok, a.feat[i])
		}
	}
	if p := t.POS(); !sameList(p, a.pos) {
		return fmt.Errorf("token %v: POS() = %q, want %q", t, p, a.pos)
	}
	got := map[string]func() (string, bool){
		dict.InflectionalType: t.InflectionalType, dict.InflectionalForm: t.InflectionalForm,
		dict.BaseFormIndex: t.BaseForm, dict.ReadingIndex: t.Reading, dict.PronunciationIndex: t.Pronunciation,
	}
	for _, k := range pickKeys {
		v, ok := got[k]()
		if want := a.pick[k]; (want != nil) != ok || (want != nil && *want != v) || (want == nil && v != "") {
			w := "absent"
			if want != nil {
				w = fmt.Sprintf("%q", *want)
			}
			return fmt.Errorf("token %v: %s = %q, %v, want %s", t, k, v, ok, w)
		}
	}
	x := t.UserExtra()
	if (x != nil) != (t.Class == tokenizer.USER) {
		return fmt.Errorf("token %v: UserExtra() = %v", t, x)
	}
	d := tokenizer.NewTokenData(t)
	str := func(k string) string {
		if v := a.pick[k]; v != nil {
			return *v
		}
		return ""
	}
	class := map[tokenizer.TokenClass]string{tokenizer.DUMMY: "DUMMY", tokenizer.KNOWN: "KNOWN", tokenizer.UNKNOWN: "UNKNOWN", tokenizer.USER: "USER"}[t.Class]
	if d.POS == nil || d.Features == nil {
		return fmt.Errorf("token %v: nil list in %+v", t, d)
	}
	if d.ID != t.ID || d.Start != t.Start || d.End != t.End || d.Surface != t.Surface || d.Class != class ||
		!sameList(d.POS, a.pos) || !sameList(d.Features, a.feat) ||
		d.BaseForm != str(dict.BaseFormIndex) || d.Reading != str(dict.ReadingIndex) || d.Pronunciation != str(dict.PronunciationIndex) {
		return fmt.Errorf("token %v: token data %+v does not repeat the accessors", t, d)
	}
	var back map[string]any
	raw, err := json.Marshal(d)
	if err != nil {
		return fmt.Errorf("token %v: %w", t, err)
	}
	if err := json.Unmarshal(raw, &back); err != nil {
		return fmt.Errorf("token %v: %w", t, err)
	}
	for _, k := range []string{"id", "start", "end", "surface", "class", "pos", "base_form", "reading", "pronunciation", "features"} {
		if v, ok := back[k]; !ok || v == nil {
			return fmt.Errorf("token %v: serialised data lacks %s: %s", t, k, raw)
		}
	}
	return nil
}

func checkC06(c TokCase, rec *Rec) error {
	tk, md := c.Setup.Tokenizer()
	for _, b := range c.Inputs {
		in := string(b)
		var all []tokenizer.Token
		for _, m := range modes {
			ts := tk.Analyze(in, m)
			for _, t := range ts {
				if err := checkAccessors(t, md.accessors(t.Class, t.ID)); err != nil {
					return fmt.Errorf("mode %v, input %q: %w", m, clip(in), err)
				}
				rec.LabelIf(t.ID != tokenizer.BosEosID, "class "+t.Class.String())
				rec.NonTrivialIf(t.Class != tokenizer.DUMMY)
			}
			if len(ts) > 12 {
				ts = ts[:12]
			}
			all = append(all, ts...)
		}
		for _, x := range all { // one of the three differs
			for i := 0; i < 4; i++ {
				y := x
				switch i {
				case 0:
					y.ID++
				case 1:
					y.Class = tokenizer.TokenClass((int(x.Class) + 1) % 4)
				case 2:
					y.Surface += "x"
				case 3:
					y.Index, y.Position, y.Start, y.End = x.Index+1, x.Position+3, x.Start+1, x.End+1
				}
				if got, want := x.Equal(y), i == 3; got != want || y.Equal(x) != want {
					return fmt.Errorf("Equal(%v, %v) = %v", x, y, got)
				}
			}
		}
		for _, x := range all {
			for _, y := range all {
				if got, want := x.Equal(y), x.ID == y.ID && x.Class == y.Class && x.Surface == y.Surface; got != want {
					return fmt.Errorf("Equal(%v, %v) = %v", x, y, got)
				}
				if got, want := x.EqualFeatures(y), sameList(x.Features(), y.Features()); got != want {
					return fmt.Errorf("EqualFeatures(%v, %v) = %v", x, y, got)
				}
				if got, want := tokenizer.EqualFeatures(x.Features(), y.Features()), sameList(x.Features(), y.Features()); got != want {
					return fmt.Errorf("EqualFeatures(%q, %q) = %v", x.Features(), y.Features(), got)
				}
				if got, want := x.EqualPOS(y), sameList(x.POS(), y.POS()); got != want {
					return fmt.Errorf("EqualPOS(%v, %v) = %v", x, y, got)
				}
			}
		}
	}
	rec.LabelIf(c.Setup.Dict != nil && c.Setup.Dict.NoContents, "dictionary without contents")
	return nil
}

// FeatPair are two feature lists to compare.
type FeatPair struct{ A, B []BS }

func genFeatPair(t *rapid.T) FeatPair {
	a := genFeatures(t, 0, pick(t, "maxfeat", []int{6, 6, 6, 40}), featNames)
	b := append([]BS{}, a...)
	switch intr(t, "edit", 0, 4) {
	case 0:
		b = genFeatures(t, 0, 6, featNames)
	case 1:
		if len(b) > 0 {
			b[intr(t, "at", 0, len(b)-1)] = pick(t, "v", featNames)
		}
	case 2:
		b = append(b, pick(t, "v", featNames))
	case 3:
		if len(b) > 0 {
			b = b[:len(b)-1]
		}
	}
	if chance(t, "swap", 50) {
		a, b = b, a
	}
	return FeatPair{a, b}
}

func checkFeatPair(c FeatPair, rec *Rec) error {
	a, b := strs(c.A), strs(c.B)
	want := sameList(a, b)
	rec.NonTrivialIf(len(a) > 0 && len(b) > 0)
	rec.LabelIf(want, "equal")
	if got := tokenizer.EqualFeatures(a, b); got != want {
		return fmt.Errorf("EqualFeatures(%q, %q) = %v", a, b, got)
	}
	return nil
}

// ---------------------------------------------------------------- C07

// Step is a call, or an operation on an earlier result.
type Step struct {
	Op    string // analyze, graph, wakati, verify, mutate, scribble
	Setup int    `json:",omitempty"`
	Input int    `json:",omitempty"`
	Mode  int    `json:",omitempty"`
	Of    int    `json:",omitempty"` // verify, mutate, scribble: which earlier result
}

// HistCase is a history of calls over several tokenizers.
type HistCase struct {
	Setups []Setup
	Inputs []BS
	Steps  []Step
	GC     bool `json:",omitempty"` // compare with results obtained with empty pools
}

func genHist(real []string, maxSteps int) func(t *rapid.T) HistCase {
	return func(t *rapid.T) HistCase {
		var h HistCase
		var ctxs []dictCtx
		for i, n := 0, intr(t, "nsetups", 1, 4); i < n; i++ {
			if real != nil && chance(t, "real", 60) {
				h.Setups = append(h.Setups, genRealSetup(t, real, 3))
				ctxs = append(ctxs, dictCtx{})
				continue
			}
			s, ctx := genSynthSetup(t, 3)
			if chance(t, "bigsetup", 2) {
				s, ctx, _ = genBigSetup(t)
			}
			if i > 0 && h.Setups[0].Dict != nil && chance(t, "sharedict", 40) {
				// the same system dictionary with other user entries or options
				s.Dict = h.Setups[0].Dict
				s.User = genUser(t, ctxs[0], s.Dict.Words, 3)
				ctx = ctxs[0]
			}
			h.Setups = append(h.Setups, s)
			ctxs = append(ctxs, ctx)
		}
		for i, n := 0, intr(t, "ninputs", 1, 5); i < n; i++ {
			j := intr(t, "for", 0, len(h.Setups)-1)
			var in BS
			if s := h.Setups[j]; s.Real != "" {
				in = genRealText(t, s.User, 6)
			} else {
				in = genText(t, ctxs[j], s.Dict.Words, s.User, pick(t, "size", []int{1, 2, 6, 14}))
			}
			switch {
			case chance(t, "long", 12):
				in = BS(strings.Repeat(string(in), intr(t, "times", 2, 40)))
			case chance(t, "verylong", 5):
				in = BS(stretch(string(in), pick(t, "chars", []int{300, 520, 1030, 2060, 4100, 8200})))
			}
			h.Inputs = append(h.Inputs, in)
		}
		for i, n := 0, intr(t, "nsteps", 2, maxSteps); i < n; i++ {
			s := Step{Op: pick(t, "op", []string{"analyze", "analyze", "analyze", "analyze", "graph", "wakati", "verify", "mutate", "scribble"})}
			s.Setup, s.Input, s.Mode = intr(t, "setup", 0, len(h.Setups)-1), intr(t, "input", 0, len(h.Inputs)-1), intr(t, "mode", 1, 3)
			s.Of = intr(t, "of", 0, 20)
			h.Steps = append(h.Steps, s)
		}
		h.GC = chance(t, "gc", 12)
		return h
	}
}

type snapshot struct {
	plain []plain
	feat  [][]string
	pos   [][]string
	extra []*tokenizer.UserExtra
}

func cloneAll(ss []string) []string {
	ret := make([]string, len(ss))
	for i, s := range ss {
		ret[i] = strings.Clone(s)
	}
	return ret
}

func snap(ts []tokenizer.Token) snapshot {
	s := snapshot{plain: plainOf(ts)}
	for _, t := range ts {
		s.feat = append(s.feat, cloneAll(t.Features()))
		s.pos = append(s.pos, cloneAll(t.POS()))
		x := t.UserExtra()
		if x != nil {
			x = &tokenizer.UserExtra{Tokens: cloneAll(x.Tokens), Readings: cloneAll(x.Readings)}
		}
		s.extra = append(s.extra, x)
	}
	return s
}

func diffSnap(a, b snapshot) error {
	if err := diffPlain(a.plain, b.plain); err != nil {
		return err
	}
	for i := range a.feat {
		if !sameList(a.feat[i], b.feat[i]) {
			return fmt.Errorf("token %+v has features %q, want %q", a.plain[i], a.feat[i], b.feat[i])
		}
		if !sameList(a.pos[i], b.pos[i]) {
			return fmt.Errorf("token %+v has part of speech %q, want %q", a.plain[i], a.pos[i], b.pos[i])
		}
		if !reflect.DeepEqual(a.extra[i], b.extra[i]) {
			return fmt.Errorf("token %+v has user extra %+v, want %+v", a.plain[i], a.extra[i], b.extra[i])
		}
	}
	return nil
}

// trash overwrites a returned slice, including spare capacity.
func trash(ss []string) {
	ss = ss[:cap(ss)]
	for i := range ss {
		ss[i] = "TRASH"
	}
}

func emptyPools() {
	runtime.GC()
	runtime.GC()
}

func checkC07(h HistCase, rec *Rec) error {
	type tkm struct {
		tk *tokenizer.Tokenizer
		md *Model
	}
	shared := map[*DictSpec]*dict.Dict{} // setups with the same specification share the object
	var tks []tkm
	for i := range h.Setups {
		s := &h.Setups[i]
		var d *dict.Dict
		var md *Model
		if s.Real != "" {
			d = realDict(s.Real)
			md = modelOfReal(d)
		} else {
			key := s.Dict
			for j := 0; j < i; j++ {
				if o := h.Setups[j].Dict; o != nil && reflect.DeepEqual(o, key) {
					key = o
					break
				}
			}
			if shared[key] == nil {
				shared[key] = key.Build()
			}
			d = shared[key]
			md = modelOfSpec(key)
		}
		md.setUser(s.User)
		tks = append(tks, tkm{newTokenizer(d, BuildUser(s.User), s.Omit), md})
	}
	type key struct{ setup, input, mode int }
	first := map[key]snapshot{}
	firstDot := map[key]string{}
	// fresh results: each distinct call with empty pools
	if h.GC {
		for _, s := range h.Steps {
			k := key{s.Setup, s.Input, s.Mode}
			if _, ok := first[k]; ok || s.Op == "verify" || s.Op == "mutate" || s.Op == "scribble" {
				continue
			}
			emptyPools()
			first[k] = snap(tks[k.setup].tk.Analyze(string(h.Inputs[k.input]), tokenizer.TokenizeMode(k.mode)))
			if s.Op == "graph" {
				emptyPools()
				var buf bytes.Buffer
				tks[k.setup].tk.AnalyzeGraph(&buf, string(h.Inputs[k.input]), tokenizer.TokenizeMode(k.mode))
				firstDot[k] = canonDot(buf.String())
			}
		}
		rec.Label("compared with empty pools")
	}
	type result struct {
		step int
		ts   []tokenizer.Token
		s    snapshot
		dead bool
	}
	var results []*result
	verify := func(r *result) error {
		if r.dead {
			return nil
		}
		if err := diffSnap(snap(r.ts), r.s); err != nil {
			return fmt.Errorf("the result of step %d changed: %w", r.step, err)
		}
		return nil
	}
	calls := 0
	for i, s := range h.Steps {
		fail := func(err error) error { return fmt.Errorf("step %d %+v: %w", i, s, err) }
		in := string(h.Inputs[s.Input])
		tk, md := tks[s.Setup].tk, tks[s.Setup].md
		mode := tokenizer.TokenizeMode(s.Mode)
		k := key{s.Setup, s.Input, s.Mode}
		switch s.Op {
		case "verify", "mutate", "scribble":
			if len(results) == 0 {
				continue
			}
			r := results[s.Of%len(results)]
			if err := verify(r); err != nil {
				return fail(err)
			}
			switch s.Op {
			case "mutate": // overwrite slices returned by accessors
				for _, t := range r.ts {
					trash(t.Features())
					trash(t.POS())
					if x := t.UserExtra(); x != nil {
						trash(x.Tokens)
						trash(x.Readings)
					}
					d := tokenizer.NewTokenData(t)
					trash(d.POS)
					trash(d.Features)
				}
			case "scribble": // overwrite the returned list itself
				for j := range r.ts[:cap(r.ts)] {
					r.ts[:cap(r.ts)][j] = tokenizer.Token{ID: -7, Surface: "TRASH"}
				}
				r.dead = true
			}
			continue
		case "wakati":
			k.mode = int(tokenizer.Normal)
			got := tk.Wakati(in)
			var want []string
			if f, ok := first[k]; ok {
				for _, p := range f.plain {
					if p.ID != tokenizer.BosEosID {
						want = append(want, p.Surface)
					}
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					return fail(fmt.Errorf("Wakati returned %q, earlier %q", got, want))
				}
			}
			if strings.Join(got, "") != in {
				return fail(fmt.Errorf("Wakati returned %q for %q", got, in))
			}
			calls++
			continue
		}
		var ts []tokenizer.Token
		if s.Op == "graph" {
			var buf bytes.Buffer
			ts = tk.AnalyzeGraph(&buf, in, mode)
			c := canonDot(buf.String())
			if f, ok := firstDot[k]; ok && f != c {
				return fail(fmt.Errorf("the graph of %q differs from the earlier one:\n%s\n---\n%s", clip(in), c, f))
			}
			firstDot[k] = c
		} else {
			ts = tk.Analyze(in, mode)
		}
		calls++
		sn := snap(ts)
		if f, ok := first[k]; ok {
			if err := diffSnap(sn, f); err != nil {
				return fail(fmt.Errorf("result for %q differs from the earlier one: %w", clip(in), err))
			}
		} else {
			first[k] = sn
		}
		if err := lossless(in, ts, h.Setups[s.Setup].Omit); err != nil {
			return fail(err)
		}
		for j, t := range ts {
			a := md.accessors(t.Class, t.ID)
			if !sameList(sn.feat[j], a.feat) || !sameList(sn.pos[j], a.pos) {
				return fail(fmt.Errorf("token %v has features %q and part of speech %q, want %q and %q", t, sn.feat[j], sn.pos[j], a.feat, a.pos))
			}
		}
		if mode != tokenizer.Extended {
			lat, _ := md.lattice(in)
			path, err := md.pathOf(lat, ts)
			if err != nil {
				return fail(err)
			}
			search := mode == tokenizer.Search
			lo, ok := md.minCost(lat, search, true)
			hi, _ := md.minCost(lat, search, false)
			if got := md.pathCost(path, search); ok && (got < lo || got > hi) {
				return fail(fmt.Errorf("result for %q costs %d, the minimum is %d", clip(in), got, hi))
			}
		}
		results = append(results, &result{step: i, ts: ts, s: sn})
	}
	for _, r := range results {
		if err := verify(r); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	rec.NonTrivialIf(calls >= 3)
	rec.LabelIf(len(h.Setups) > 1, "several tokenizers")
	return nil
}

// ---------------------------------------------------------------- C09

func posLabel(md *Model, c *cand) string {
	var names []string
	switch c.class {
	case tokenizer.USER:
		return string(md.user[c.id].Pos)
	case tokenizer.KNOWN:
		names = md.pos(c.id)
	case tokenizer.UNKNOWN:
		names = md.unkPOS(c.id)
	}
	var ret []string
	for _, n := range names {
		if n != "*" {
			ret = append(ret, n)
		}
	}
	if len(ret) == 0 {
		return "---"
	}
	return strings.Join(ret, "/")
}

func checkC09(c TokCase, rec *Rec) error {
	tk, md := c.Setup.Tokenizer()
	for _, b := range c.Inputs {
		in := strings.ReplaceAll(string(b), "\x00", "")
		for _, m := range modes {
			var buf bytes.Buffer
			ts := tk.AnalyzeGraph(&buf, in, m)
			g, err := parseDot(buf.String())
			if err != nil {
				return fmt.Errorf("mode %v, input %q: not well-formed DOT: %w\n%s", m, clip(in), err, buf.String())
			}
			if err := diffTokens(ts, tk.Analyze(in, m)); err != nil {
				return fmt.Errorf("mode %v, input %q: tokens differ from Analyze: %w", m, clip(in), err)
			}
			rec.NonTrivialIf(len(ts) > 2)
			rec.LabelIf(strings.ContainsAny(in, "\"\\"), "quotes or backslashes in the input")
			if m == tokenizer.Extended {
				continue
			}
			if err := checkGraph(md, in, ts, g); err != nil {
				return fmt.Errorf("mode %v, input %q: %w", m, clip(in), err)
			}
		}
	}
	return nil
}

func multiset(xs []string) map[string]int {
	m := map[string]int{}
	for _, x := range xs {
		m[x]++
	}
	return m
}

func diffMultiset(what string, got, want []string) error {
	g, w := multiset(got), multiset(want)
	var keys []string
	for k := range g {
		keys = append(keys, k)
	}
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if g[k] != w[k] {
			return fmt.Errorf("the graph has %d %s %s, want %d", g[k], what, k, w[k])
		}
	}
	return nil
}

func checkGraph(md *Model, in string, ts []tokenizer.Token, g *dotGraph) error {
	lat, off := md.lattice(in)
	n := len(off) - 1
	path, err := md.pathOf(lat, ts)
	if err != nil {
		return err
	}
	type vertex struct {
		label      string
		start, end int
		c          *cand
		best       bool
	}
	vs := []vertex{{label: "BOS\n---\n0", start: -1, end: 0, best: true}, {label: "EOS\n---\n0", start: n, end: n + 1, best: true}}
	onPath := map[*cand]bool{}
	for _, p := range path {
		onPath[p] = true
	}
	for i := range lat {
		for k := range lat[i] {
			c := &lat[i][k]
			if c.class == tokenizer.UNKNOWN && !onPath[c] {
				continue
			}
			vs = append(vs, vertex{fmt.Sprintf("%s\n%s\n%d", c.surface, posLabel(md, c), c.w), c.start, c.end, c, onPath[c]})
		}
	}
	var wantN, wantE []string
	for _, v := range vs {
		wantN = append(wantN, fmt.Sprintf("%q best=%v", v.label, v.best))
	}
	byStart := map[int][]int{}
	for i, v := range vs {
		byStart[v.start] = append(byStart[v.start], i)
	}
	for _, a := range vs {
		for _, j := range byStart[a.end] {
			b := vs[j]
			wantE = append(wantE, fmt.Sprintf("%q -- %q cost=%d best=%v", a.label, b.label, md.connCost(a.c, b.c), a.best && b.best))
		}
	}
	label := func(nd *dotNode) string { return nd.attrs["label"] }
	var gotN, gotE []string
	for _, id := range g.order {
		nd := g.nodes[id]
		_, hl := nd.attrs["peripheries"]
		gotN = append(gotN, fmt.Sprintf("%q best=%v", label(nd), hl))
	}
	for _, e := range g.edges {
		a, b := g.nodes[e.from], g.nodes[e.to]
		if a == nil || b == nil {
			return fmt.Errorf("edge %q -- %q refers to a node that is not declared", e.from, e.to)
		}
		hl := e.attrs["style"] == "bold"
		gotE = append(gotE, fmt.Sprintf("%q -- %q cost=%s best=%v", label(a), label(b), e.attrs["label"], hl))
	}
	if err := diffMultiset("nodes", gotN, wantN); err != nil {
		return err
	}
	return diffMultiset("edges", gotE, wantE)
}

// genHostile: dictionaries and texts full of quotes, backslashes and newlines.
func genHostile(t *rapid.T) TokCase {
	d, ctx := genDict(t)
	ctx.alpha = []rune{'"', '\\', 'n', '\n', 'N', ']', '}', ';', 'あ', '<', '-', '漢'}
	for i, n := 0, intr(t, "nhw", 1, 6); i < n; i++ {
		d.Words = append(d.Words, WordSpec{S: BS(genWord(t, ctx, 3)), L: 0, R: 0, W: intr(t, "hw", -100, 100), POS: []BS{pick(t, "hp", []BS{"\"", "\\", "a\"];x[", "名詞", "*", "\\n"})}})
	}
	d.normalise()
	s := Setup{Dict: d, User: genUser(t, ctx, d.Words, 2), Omit: rapid.Bool().Draw(t, "omit")}
	return TokCase{Setup: s, Inputs: []BS{genText(t, ctx, d.Words, s.User, 8)}}
}

func init() {
	synth := genSynthCase(4, 3, 14)
	reg("C06", "generated dictionaries", 60, 240, 6000, synth, checkC06)
	reg("C06", "real dictionaries", 30, 60, 2000, genRealCase([]string{"ipa", "ipa-shrink"}, 3, 2, 6), checkC06)
	reg("C06", "unidic", 30, 8, 300, genRealCase([]string{"uni", "uni-shrink"}, 3, 2, 6), checkC06)
	reg("C06", "feature lists", 100, 40, 1000, genFeatPair, checkFeatPair)
	reg("C06", "large dictionaries", 10, 48, 1500, genBigCase(20, 300), checkC06)
	reg("C06", "many words of IPA", 2, 24, 200, genManyWords("ipa"), checkC06)

	reg("C07", "generated dictionaries", 40, 160, 4000, genHist(nil, 16), checkC07)
	reg("C07", "with IPA", 10, 24, 600, genHist([]string{"ipa"}, 12), checkC07)

	reg("C09", "generated dictionaries", 60, 120, 4000, synth, checkC09)
	reg("C09", "hostile text", 60, 80, 3000, genHostile, checkC09)
	reg("C09", "real dictionaries", 20, 40, 2000, genRealCase([]string{"ipa"}, 3, 2, 5), checkC09)
	reg("C09", "large dictionaries", 10, 24, 1000, genBigCase(4, 30), checkC09)
	reg("C09", "long runs", 3, 16, 200, genLongCase, checkC09)
	reg("C09", "long texts", 3, 16, 200, genSizedCase(64, 256, 520, 1030), checkC09)
	_ = utf8.RuneError
}
