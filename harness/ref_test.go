package checks

import (
	"bufio"
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// ---------------------------------------------------------------- model
//
// The model is an independent statement of what the dictionaries allow and what
// words cost. For generated dictionaries it reads the specification, not the
// dictionary object given to the tokenizer; for IPA and UniDic it reads the
// dictionary's tables.

type match struct{ id, bytes int }

type morph struct{ l, r, w int }

type Model struct {
	known      func(s string) []match // entries that are a prefix of s
	morph      func(id int) morph
	unkMorph   func(id int) morph
	cat        func(r rune) int
	invoke     func(c int) bool
	group      func(c int) bool
	unk        func(c int) []int // unknown word entries of a category
	conn       func(right, left int) int
	headword   func(id int, s string) bool
	feat       func(id int) []string // features of a known word
	pos        func(id int) []string
	unkFeat    func(id int) []string
	meta       map[string]int
	unkMeta    map[string]int
	user       []UserSpec
	userIdx    map[string]int
	userMaxLen int
}

func modelOfSpec(s *DictSpec) *Model {
	s.normalise()
	m := &Model{meta: s.Meta, unkMeta: s.UnkMeta}
	ids := map[string][]int{}
	maxLen := 0
	for i, w := range s.Words {
		ids[string(w.S)] = append(ids[string(w.S)], i)
		if len(w.S) > maxLen {
			maxLen = len(w.S)
		}
	}
	m.known = func(in string) []match {
		var ret []match
		for l := 1; l <= maxLen && l <= len(in); l++ {
			for _, id := range ids[in[:l]] {
				ret = append(ret, match{id, l})
			}
		}
		return ret
	}
	m.headword = func(id int, in string) bool { return id >= 0 && id < len(s.Words) && string(s.Words[id].S) == in }
	m.morph = func(id int) morph { w := s.Words[id]; return morph{w.L, w.R, w.W} }
	var unks []UnkSpec
	byCat := map[int][]int{}
	for c, cs := range s.Cats {
		for _, u := range cs.Unk {
			byCat[c] = append(byCat[c], len(unks))
			unks = append(unks, u)
		}
	}
	m.unk = func(c int) []int { return byCat[c] }
	m.unkMorph = func(id int) morph { u := unks[id]; return morph{u.L, u.R, u.W} }
	m.unkFeat = func(id int) []string { return strs(unks[id].F) }
	cats := map[rune]int{}
	for _, rc := range s.RuneCat {
		cats[rc.R] = rc.C
	}
	m.cat = func(r rune) int {
		if int(r) >= s.TblLen {
			r = 0
		}
		return cats[r] // characters without an entry are in category 0
	}
	m.invoke = func(c int) bool { return s.Cats[c].Invoke }
	m.group = func(c int) bool { return s.Cats[c].Group }
	m.conn = func(r, l int) int { return s.Conn[l*s.N+r] }
	m.pos = func(id int) []string { return strs(s.Words[id].POS) }
	m.feat = func(id int) []string {
		ret := strs(s.Words[id].POS)
		if !s.NoContents {
			ret = append(ret, strs(s.Words[id].C)...)
		}
		return ret
	}
	return m
}

func fromMeta(m dict.ContentsMeta) map[string]int {
	ret := map[string]int{}
	for k, v := range m {
		ret[k] = int(v)
	}
	return ret
}

func modelOfReal(d *dict.Dict) *Model {
	m := &Model{meta: fromMeta(d.ContentsMeta), unkMeta: fromMeta(d.UnkDict.ContentsMeta)}
	m.known = func(in string) []match {
		var ret []match
		lens, ids := d.Index.CommonPrefixSearch(in)
		for i, l := range lens {
			for _, id := range ids[i] {
				ret = append(ret, match{id, l})
			}
		}
		return ret
	}
	m.headword = func(id int, in string) bool {
		for _, v := range d.Index.Search(in) {
			if v == id {
				return true
			}
		}
		return false
	}
	m.morph = func(id int) morph { x := d.Morphs[id]; return morph{int(x.LeftID), int(x.RightID), int(x.Weight)} }
	m.unkMorph = func(id int) morph {
		x := d.UnkDict.Morphs[id]
		return morph{int(x.LeftID), int(x.RightID), int(x.Weight)}
	}
	m.unkFeat = func(id int) []string { return d.UnkDict.Contents[id] }
	m.cat = func(r rune) int { return int(d.CharacterCategory(r)) }
	m.invoke = func(c int) bool { return d.InvokeList[c] }
	m.group = func(c int) bool { return d.GroupList[c] }
	m.unk = func(c int) []int {
		first, n := int(d.UnkDict.Index[int32(c)]), int(d.UnkDict.IndexDup[int32(c)])
		var ret []int
		for i := 0; i <= n; i++ {
			ret = append(ret, first+i)
		}
		return ret
	}
	m.conn = func(r, l int) int { return int(d.Connection.Vec[int(d.Connection.Row)*l+r]) }
	m.pos = func(id int) []string {
		var ret []string
		for _, p := range d.POSTable.POSs[id] {
			ret = append(ret, d.POSTable.NameList[p])
		}
		return ret
	}
	m.feat = func(id int) []string {
		ret := m.pos(id)
		if d.Contents != nil {
			ret = append(ret, d.Contents[id]...)
		}
		return ret
	}
	return m
}

func (m *Model) setUser(us []UserSpec) {
	m.user = us
	m.userIdx = map[string]int{}
	m.userMaxLen = 0
	for i, u := range us {
		m.userIdx[string(u.S)] = i
		if len(u.S) > m.userMaxLen {
			m.userMaxLen = len(u.S)
		}
	}
}

func (m *Model) userMatches(in string) []match {
	var ret []match
	for l := 1; l <= m.userMaxLen && l <= len(in); l++ {
		if i, ok := m.userIdx[in[:l]]; ok {
			ret = append(ret, match{i, l})
		}
	}
	return ret
}

// ---------------------------------------------------------------- candidates

type cand struct {
	class      tokenizer.TokenClass
	id         int
	pos        int // byte offset
	start, end int // character offsets
	surface    string
	morph
	optional bool // may or may not be proposed
}

const maxUnk = 1024

func runeOffsets(in string) []int {
	var ret []int
	for i := range in {
		ret = append(ret, i)
	}
	return append(ret, len(in))
}

// candidatesAt lists the words the dictionaries allow at character i.
func (m *Model) candidatesAt(in string, off []int, i int) []cand {
	pos := off[i]
	rest := in[pos:]
	var ret []cand
	add := func(class tokenizer.TokenClass, id, n int, mo morph, optional bool) {
		s := rest[:n]
		ret = append(ret, cand{class, id, pos, i, i + utf8.RuneCountInString(s), s, mo, optional})
	}
	if us := m.userMatches(rest); len(us) > 0 {
		for _, u := range us {
			add(tokenizer.USER, u.id, u.bytes, morph{}, false)
		}
		return ret
	}
	ks := m.known(rest)
	for _, k := range ks {
		add(tokenizer.KNOWN, k.id, k.bytes, m.morph(k.id), false)
	}
	first, _ := utf8.DecodeRuneInString(rest)
	c := m.cat(first)
	if len(ks) > 0 && !m.invoke(c) {
		return ret
	}
	j := i + 1
	if m.group(c) {
		for j < len(off)-1 && j-i < maxUnk {
			r, _ := utf8.DecodeRuneInString(in[off[j]:])
			if m.cat(r) != c {
				break
			}
			j++
		}
	}
	last, _ := utf8.DecodeRuneInString(in[off[j-1]:off[j]])
	for _, id := range m.unk(c) {
		add(tokenizer.UNKNOWN, id, off[j]-pos, m.unkMorph(id), false)
		if j-i > 1 {
			add(tokenizer.UNKNOWN, id, off[j-1]-pos, m.unkMorph(id), last == utf8.RuneError)
		}
	}
	return ret
}

func penalty(s string) int {
	n := utf8.RuneCountInString(s)
	ideographs := n > 0
	for _, r := range s {
		if !unicode.Is(unicode.Ideographic, r) {
			ideographs = false
		}
	}
	if ideographs && n > 2 {
		return (n - 2) * 3000
	}
	if n > 7 {
		return (n - 7) * 1700
	}
	return 0
}

func (m *Model) connCost(a, b *cand) int64 {
	if a != nil && a.class == tokenizer.USER || b != nil && b.class == tokenizer.USER {
		return 0
	}
	r, l := 0, 0
	if a != nil {
		r = a.r
	}
	if b != nil {
		l = b.l
	}
	return int64(m.conn(r, l))
}

// lattice is the full set of candidates by start character.
func (m *Model) lattice(in string) ([][]cand, []int) {
	off := runeOffsets(in)
	ret := make([][]cand, len(off)-1)
	for i := range ret {
		ret[i] = m.candidatesAt(in, off, i)
	}
	return ret, off
}

const inf = int64(math.MaxInt64 / 4)

// minCost is the least total cost of a path; ok is false when some path cost
// leaves the 32-bit range, where nothing is claimed.
func (m *Model) minCost(lat [][]cand, search, withOptional bool) (best int64, ok bool) {
	n := len(lat)
	type st struct {
		c    *cand
		cost int64
	}
	ends := make([][]st, n+1)
	ends[0] = []st{{nil, 0}}
	ok = true
	for i := 0; i < n; i++ {
		if len(ends[i]) == 0 {
			continue
		}
		for k := range lat[i] {
			c := &lat[i][k]
			if c.optional && !withOptional {
				continue
			}
			b := inf
			for _, e := range ends[i] {
				v := e.cost + m.connCost(e.c, c)
				if v < b {
					b = v
				}
			}
			b += int64(c.w)
			if search {
				b += int64(penalty(c.surface))
			}
			if b > math.MaxInt32-200000 || b < math.MinInt32+200000 {
				ok = false
			}
			ends[c.end] = append(ends[c.end], st{c, b})
		}
	}
	best = inf
	for _, e := range ends[n] {
		if v := e.cost + m.connCost(e.c, nil); v < best {
			best = v
		}
	}
	return best, ok
}

// pathOf finds the candidate for each token; nil for BOS/EOS.
func (m *Model) pathOf(lat [][]cand, toks []tokenizer.Token) ([]*cand, error) {
	var ret []*cand
	for _, t := range toks {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		if t.Start < 0 || t.Start >= len(lat) {
			return nil, fmt.Errorf("token %v starts outside the input", t)
		}
		var hit *cand
		for i := range lat[t.Start] {
			c := &lat[t.Start][i]
			if c.class == t.Class && c.id == t.ID && c.surface == t.Surface {
				hit = c
				break
			}
		}
		if hit == nil {
			return nil, fmt.Errorf("token %v is not a candidate at character %d; candidates: %s", t, t.Start, candStrings(lat[t.Start]))
		}
		ret = append(ret, hit)
	}
	return ret, nil
}

func candStrings(cs []cand) string {
	var ss []string
	for i, c := range cs {
		if i == 30 {
			ss = append(ss, "...")
			break
		}
		ss = append(ss, fmt.Sprintf("%v[%d]%q", c.class, c.id, c.surface))
	}
	return strings.Join(ss, " ")
}

func (m *Model) pathCost(path []*cand, search bool) int64 {
	var total int64
	var prev *cand
	for _, c := range path {
		total += m.connCost(prev, c) + int64(c.w)
		if search {
			total += int64(penalty(c.surface))
		}
		prev = c
	}
	return total + m.connCost(prev, nil)
}

// ---------------------------------------------------------------- token helpers

func dumpTokens(ts []tokenizer.Token) string {
	var ss []string
	for i, t := range ts {
		if i == 60 {
			ss = append(ss, "...")
			break
		}
		ss = append(ss, t.String())
	}
	return strings.Join(ss, " | ")
}

// lossless checks surfaces and offsets of a result for an input.
func lossless(in string, ts []tokenizer.Token, omit bool) error {
	body := ts
	n := utf8.RuneCountInString(in)
	if !omit {
		if len(ts) < 2 {
			return fmt.Errorf("no BOS and EOS: %s", dumpTokens(ts))
		}
		b, e := ts[0], ts[len(ts)-1]
		if b.ID != tokenizer.BosEosID || b.Class != tokenizer.DUMMY || b.Surface != "BOS" || b.Position != 0 || b.Start != 0 || b.End != 0 || b.Index != 0 {
			return fmt.Errorf("bad BOS %v", b)
		}
		if e.ID != tokenizer.BosEosID || e.Class != tokenizer.DUMMY || e.Surface != "EOS" || e.Position != len(in) || e.Start != n || e.End != n || e.Index != len(ts)-1 {
			return fmt.Errorf("bad EOS %v, input has %d bytes and %d characters, %d tokens", e, len(in), n, len(ts))
		}
		body = ts[1 : len(ts)-1]
	}
	pos, chars := 0, 0
	for i, t := range body {
		want := i
		if !omit {
			want++
		}
		switch {
		case t.ID == tokenizer.BosEosID:
			return fmt.Errorf("unexpected BOS/EOS at %d: %s", i, dumpTokens(ts))
		case t.Surface == "":
			return fmt.Errorf("empty token %v", t)
		case t.Index != want:
			return fmt.Errorf("token %v has index %d, want %d", t, t.Index, want)
		case t.Position != pos:
			return fmt.Errorf("token %v has byte position %d, want %d", t, t.Position, pos)
		case !strings.HasPrefix(in[pos:], t.Surface):
			return fmt.Errorf("token %v: surface %q is not at byte %d of the input %q", t, t.Surface, pos, clip(in[pos:]))
		case t.Start != chars:
			return fmt.Errorf("token %v starts at character %d, want %d", t, t.Start, chars)
		case t.End != chars+utf8.RuneCountInString(t.Surface):
			return fmt.Errorf("token %v ends at character %d, want %d", t, t.End, chars+utf8.RuneCountInString(t.Surface))
		}
		pos += len(t.Surface)
		chars = t.End
	}
	if pos != len(in) {
		return fmt.Errorf("tokens cover %d of %d bytes: %s", pos, len(in), dumpTokens(ts))
	}
	if chars != n {
		return fmt.Errorf("tokens cover %d of %d characters", chars, n)
	}
	return nil
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// plain is the visible part of a token.
type plain struct {
	Index, ID            int
	Class                tokenizer.TokenClass
	Position, Start, End int
	Surface              string
}

func plainOf(ts []tokenizer.Token) []plain {
	ret := make([]plain, len(ts))
	for i, t := range ts {
		ret[i] = plain{t.Index, t.ID, t.Class, t.Position, t.Start, t.End, strings.Clone(t.Surface)}
	}
	return ret
}

func diffPlain(a, b []plain) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d tokens, want %d\n got %+v\nwant %+v", len(a), len(b), clipPlain(a), clipPlain(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("token %d is %+v, want %+v", i, a[i], b[i])
		}
	}
	return nil
}

func clipPlain(a []plain) []plain {
	if len(a) > 30 {
		return a[:30]
	}
	return a
}

func diffTokens(a, b []tokenizer.Token) error { return diffPlain(plainOf(a), plainOf(b)) }

// wideInt is a number that needs more than 32 bits, or some large one where there is none.
func wideInt(v int64) int {
	if int64(int(v)) == v {
		return int(v)
	}
	if v < 0 {
		return math.MinInt
	}
	return math.MaxInt
}

func wideMode(v int64) tokenizer.TokenizeMode { return tokenizer.TokenizeMode(wideInt(v)) }

func describe(ts []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%d %d %v %d %d %d %q %q %q\n", t.Index, t.ID, t.Class, t.Position, t.Start, t.End, t.Surface, t.Features(), t.POS())
	}
	return b.String()
}

// SplitSpec is a sentence splitter; Default means the package-level function.
type SplitSpec struct {
	Default  bool   `json:",omitempty"`
	Delim    []rune `json:",omitempty"`
	Follower []rune `json:",omitempty"`
	Skip     bool   `json:",omitempty"`
	DoubleLF bool   `json:",omitempty"`
	Max      int    `json:",omitempty"`
}

// The documented defaults, written down here independently.
var defaultSplit = SplitSpec{
	Delim:    []rune{'。', '．', '！', '!', '？', '?'},
	Follower: []rune{'.', '｣', '」', '』', ')', '）', '｝', '}', '〉', '》'},
	Skip:     true, DoubleLF: true, Max: 128,
}

func (s SplitSpec) resolved() SplitSpec {
	if s.Default {
		return defaultSplit
	}
	return s
}

func (s SplitSpec) fn() bufio.SplitFunc {
	if s.Default {
		return filter.ScanSentences
	}
	return filter.SentenceSplitter{Delim: s.Delim, Follower: s.Follower, SkipWhiteSpace: s.Skip, DoubleLineFeedSplit: s.DoubleLF, MaxRuneLen: s.Max}.ScanSentences
}
