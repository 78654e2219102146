package checks

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// TokCase is a tokenizer and inputs for it.
type TokCase struct {
	Setup  Setup
	Inputs []BS
}

func genSynthCase(maxUser, maxInputs, maxPieces int) func(t *rapid.T) TokCase {
	return func(t *rapid.T) TokCase {
		s, ctx := genSynthSetup(t, maxUser)
		c := TokCase{Setup: s}
		for i, n := 0, intr(t, "ninputs", 1, maxInputs); i < n; i++ {
			c.Inputs = append(c.Inputs, genText(t, ctx, s.Dict.Words, s.User, maxPieces))
		}
		return c
	}
}

func genRealCase(names []string, maxUser, maxInputs, maxPieces int) func(t *rapid.T) TokCase {
	return func(t *rapid.T) TokCase {
		c := TokCase{Setup: genRealSetup(t, names, maxUser)}
		for i, n := 0, intr(t, "ninputs", 1, maxInputs); i < n; i++ {
			c.Inputs = append(c.Inputs, genRealText(t, c.Setup.User, maxPieces))
		}
		return c
	}
}

// genLongCase: runs of one category around the 1024 limit, with other text around them.
func genLongCase(t *rapid.T) TokCase {
	s, ctx := genSynthSetup(t, 2)
	if chance(t, "grp", 80) {
		for i := range s.Dict.Cats {
			s.Dict.Cats[i].Group = true
		}
	}
	if chance(t, "inv", 50) {
		for i := range s.Dict.Cats {
			s.Dict.Cats[i].Invoke = true
		}
	}
	unit := string(pick(t, "unit", ctx.alpha))
	if chance(t, "mixunit", 30) {
		unit += string(pick(t, "unit2", alphabet))
	}
	n := pick(t, "len", []int{1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 1500, 3072, 127, 128, 129, 255, 256, 257})
	if chance(t, "cheap", 50) { // make the long unknown word the cheapest
		for i := range s.Dict.Cats {
			for j := range s.Dict.Cats[i].Unk {
				s.Dict.Cats[i].Unk[j].W = intr(t, "neg", -9, 2000)
			}
		}
	}
	in := string(genText(t, ctx, s.Dict.Words, s.User, 3)) + strings.Repeat(unit, (n+utf8.RuneCountInString(unit)-1)/utf8.RuneCountInString(unit)) + string(genText(t, ctx, s.Dict.Words, s.User, 3))
	return TokCase{Setup: s, Inputs: []BS{BS(in)}}
}

// genHugeCase: accumulated costs may leave the 32-bit range.
func genHugeCase(t *rapid.T) TokCase {
	s, ctx := genSynthSetup(t, 2)
	ext := []int{32767, -32768, 32767, 32767, 0, -32768}
	for i := range s.Dict.Words {
		s.Dict.Words[i].W = pick(t, "xw", ext)
	}
	for i := range s.Dict.Conn {
		s.Dict.Conn[i] = pick(t, "xc", ext)
	}
	unit := string(genText(t, ctx, s.Dict.Words, s.User, 4))
	if unit == "" {
		unit = "a"
	}
	n := intr(t, "kilo", 1, 90) * 1000 / utf8.RuneCountInString(unit)
	in := strings.Repeat(unit, n+1)
	return TokCase{Setup: s, Inputs: []BS{BS(in)}}
}

func hasUnusual(in string) bool {
	if !utf8.ValidString(in) || strings.ContainsRune(in, '\uFFFD') || strings.Contains(in, "\x00") {
		return true
	}
	for _, r := range in {
		if r > 0xFFFF {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C01

func checkC01(c TokCase, rec *Rec) error {
	tk, _ := c.Setup.Tokenizer()
	for _, b := range c.Inputs {
		in := string(b)
		for _, m := range append(modes, 0, 7, -1, wideMode(1<<40+2)) {
			ts := tk.Analyze(in, m)
			if err := lossless(in, ts, c.Setup.Omit); err != nil {
				return fmt.Errorf("mode %v, input %q: %w", m, clip(in), err)
			}
		}
		rec.NonTrivialIf(utf8.RuneCountInString(in) >= 2)
		rec.LabelIf(hasUnusual(in), "invalid/FFFD/NUL/4-byte text")
		rec.LabelIf(len(in) > 1000, "longer than 1000 bytes")
		rec.LabelIf(len(in) == 0, "empty")
	}
	return nil
}

// ---------------------------------------------------------------- C02

func checkC02(c TokCase, rec *Rec) error {
	tk, md := c.Setup.Tokenizer()
	for _, b := range c.Inputs {
		in := string(b)
		lat, _ := md.lattice(in)
		for _, search := range []bool{false, true} {
			mode := tokenizer.Normal
			if search {
				mode = tokenizer.Search
			}
			lo, ok1 := md.minCost(lat, search, true)
			hi, ok2 := md.minCost(lat, search, false)
			if !ok1 || !ok2 {
				rec.Label("cost outside 32 bits (nothing claimed)")
				continue
			}
			ts := tk.Analyze(in, mode)
			if err := lossless(in, ts, c.Setup.Omit); err != nil {
				return fmt.Errorf("mode %v, input %q: %w", mode, clip(in), err)
			}
			path, err := md.pathOf(lat, ts)
			if err != nil {
				return fmt.Errorf("mode %v, input %q: %w", mode, clip(in), err)
			}
			got := md.pathCost(path, search)
			if got < lo || got > hi {
				return fmt.Errorf("mode %v, input %q: returned path costs %d, the minimum is %d: %s", mode, clip(in), got, hi, dumpTokens(ts))
			}
			alts := 0
			for _, l := range lat {
				if len(l) > 1 {
					alts++
				}
			}
			rec.NonTrivialIf(alts >= 2)
			if search {
				nc := md.pathCost(path, false)
				n0, _ := md.minCost(lat, false, false)
				rec.LabelIf(nc != n0, "search mode differs from normal")
				for _, p := range path {
					if penalty(p.surface) > 0 {
						rec.Label("penalised word on the best path")
						break
					}
				}
			}
			for _, p := range path {
				if p.class == tokenizer.USER {
					rec.Label("user word on the best path")
					break
				}
			}
		}
		if err := checkExtendedCost(c, md, tk, in, lat, rec); err != nil {
			return fmt.Errorf("mode %v, input %q: %w", tokenizer.Extended, clip(in), err)
		}
		rec.LabelIf(len(in) > 1000, "longer than 1000 bytes")
	}
	return nil
}

// checkExtendedCost: the tokens of Extended mode are a path of least cost whose
// unknown words have been split. The cheapest path that splits into exactly these
// tokens must cost no more than the cheapest of all.
func checkExtendedCost(c TokCase, md *Model, tk *tokenizer.Tokenizer, in string, lat [][]cand, rec *Rec) error {
	lo, ok1 := md.minCost(lat, true, true)
	hi, ok2 := md.minCost(lat, true, false)
	if !ok1 || !ok2 {
		return nil
	}
	ts := tk.Analyze(in, tokenizer.Extended)
	if err := lossless(in, ts, c.Setup.Omit); err != nil {
		return err
	}
	whole := map[int]tokenizer.Token{}
	single := make([]int, len(lat)) // entry of the unknown word a character was split from
	for i := range single {
		single[i] = -1
	}
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		if t.Class == tokenizer.DUMMY && t.End == t.Start+1 && t.Start < len(single) {
			single[t.Start] = t.ID
		} else {
			whole[t.Start] = t
		}
	}
	part := make([][]cand, len(lat))
	split := false
	for i := range lat {
		for _, k := range lat[i] {
			if k.class == tokenizer.UNKNOWN {
				same := true
				for j := k.start; j < k.end && same; j++ {
					same = single[j] == k.id
				}
				if same {
					part[i] = append(part[i], k)
					split = split || k.end > k.start+1
				}
			} else if w, ok := whole[i]; ok && w.Class == k.class && w.ID == k.id && w.Surface == k.surface {
				part[i] = append(part[i], k)
			}
		}
	}
	got, _ := md.minCost(part, true, true)
	if got >= inf {
		return fmt.Errorf("no words of the dictionaries split into %s", dumpTokens(ts))
	}
	if got > hi {
		return fmt.Errorf("the tokens stand for words that cost %d at least, the minimum is %d: %s", got, lo, dumpTokens(ts))
	}
	rec.LabelIf(split, "extended mode splits a word")
	return nil
}

// genPenaltyCase aims at the search-mode thresholds: words of every length around them.
func genPenaltyCase(t *rapid.T) TokCase {
	d := &DictSpec{N: 1, Conn: []int{pick(t, "conn", []int{0, 1, -100, 500})}, TblLen: 0x10000, Cats: []CatSpec{{Group: rapid.Bool().Draw(t, "g"), Invoke: rapid.Bool().Draw(t, "i"), Unk: []UnkSpec{{W: intr(t, "uw", 0, 12000), F: []BS{"名詞"}}}}}}
	unit := pick(t, "unit", []rune{'漢', 'ア', 'a', '々', '〇', 'é', '京', '\U00020BB7'})
	other := pick(t, "other", []rune{'漢', 'ア', 'あ', 'ー', '1', '語', '\uFFFD'})
	if chance(t, "nearunit", 20) {
		unit = pick(t, "near", nearIdeographs)
	}
	if chance(t, "nearother", 35) {
		other = pick(t, "near", nearIdeographs)
	}
	n := intr(t, "n", 1, 11)
	seen := map[string]bool{}
	for i := 1; i <= n; i++ {
		k := strings.Repeat(string(unit), i)
		if chance(t, "mix", 30) {
			r := []rune(k)
			r[intr(t, "at", 0, len(r)-1)] = other
			k = string(r)
		}
		if seen[k] || !chance(t, "have", 75) {
			continue
		}
		seen[k] = true
		d.Words = append(d.Words, WordSpec{S: BS(k), W: i*pick(t, "per", []int{0, 1000, 1700, 2500, 2000}) + pick(t, "base", []int{0, 1, -1, 500, 1699, 1701, 2999, 3001, -2000}), POS: []BS{"名詞"}})
	}
	d.normalise()
	s := Setup{Dict: d}
	var in strings.Builder
	for i, n := 0, intr(t, "np", 1, 4); i < n; i++ {
		if len(d.Words) > 0 && chance(t, "w", 60) {
			in.WriteString(string(pick(t, "word", d.Words).S))
		} else {
			in.WriteString(strings.Repeat(string(unit), intr(t, "run", 1, 12)))
		}
	}
	if chance(t, "user", 20) {
		k := strings.Repeat(string(unit), intr(t, "ul", 1, 9))
		s.User = []UserSpec{{S: BS(k), Tokens: []BS{BS(k)}, Yomi: []BS{"ヨミ"}, Pos: "U"}}
	}
	return TokCase{Setup: s, Inputs: []BS{BS(in.String())}}
}

// ---------------------------------------------------------------- C03

func expandExtended(search []tokenizer.Token) []plain {
	var ret []plain
	for _, t := range search {
		if t.Class != tokenizer.UNKNOWN {
			p := plainOf([]tokenizer.Token{t})[0]
			p.Index = len(ret)
			ret = append(ret, p)
			continue
		}
		i := 0
		for k := range t.Surface {
			_, w := utf8.DecodeRuneInString(t.Surface[k:])
			ret = append(ret, plain{Index: len(ret), ID: t.ID, Class: tokenizer.DUMMY, Position: t.Position + k, Start: t.Start + i, End: t.Start + i + 1, Surface: t.Surface[k : k+w]})
			i++
		}
	}
	return ret
}

type nullWriter struct{ n int }

func (w *nullWriter) Write(p []byte) (int, error) { w.n += len(p); return len(p), nil }

func checkC03(c TokCase, rec *Rec) error {
	d, u := c.Setup.dicts()
	full, omit := newTokenizer(d, u, false), newTokenizer(d, u, true)
	for _, b := range c.Inputs {
		in := string(b)
		normal := full.Analyze(in, tokenizer.Normal)
		search := full.Analyze(in, tokenizer.Search)
		ext := full.Analyze(in, tokenizer.Extended)
		if err := diffPlain(plainOf(ext), expandExtended(search)); err != nil {
			return fmt.Errorf("input %q: Extended differs from Search with unknown words split: %w", clip(in), err)
		}
		if err := diffTokens(full.Tokenize(in), normal); err != nil {
			return fmt.Errorf("input %q: Tokenize differs from Analyze(Normal): %w", clip(in), err)
		}
		for _, m := range []tokenizer.TokenizeMode{0, 4, 5, 6, 7, -1, -2, -3, 99, 256 + 2, wideMode(1<<32 + 3), wideMode(-1 << 60)} {
			if err := diffTokens(full.Analyze(in, m), normal); err != nil {
				return fmt.Errorf("input %q: undefined mode %d differs from Normal: %w", clip(in), int(m), err)
			}
		}
		var surf []string
		for _, t := range normal {
			if t.ID != tokenizer.BosEosID {
				surf = append(surf, t.Surface)
			}
		}
		for name, tk := range map[string]*tokenizer.Tokenizer{"with": full, "without": omit} {
			w := tk.Wakati(in)
			if fmt.Sprintf("%q", w) != fmt.Sprintf("%q", surf) {
				return fmt.Errorf("input %q: Wakati (%s BOS/EOS) returned %q, want %q", clip(in), name, w, surf)
			}
		}
		for _, m := range append(modes, 0, 9) {
			var w nullWriter
			want := full.Analyze(in, m)
			if len(in) > 8000 && m != tokenizer.Search { // graphs of long texts are expensive
				om := omit.Analyze(in, m)
				if len(om) != len(want)-2 {
					return fmt.Errorf("mode %v: %d tokens without BOS/EOS, %d with", m, len(om), len(want))
				}
				continue
			}
			if err := diffTokens(full.AnalyzeGraph(&w, in, m), want); err != nil {
				return fmt.Errorf("input %q: AnalyzeGraph differs from Analyze in mode %v: %w", clip(in), m, err)
			}
			om := omit.Analyze(in, m)
			if err := diffTokens(omit.AnalyzeGraph(&w, in, m), om); err != nil {
				return fmt.Errorf("input %q: AnalyzeGraph differs from Analyze in mode %v without BOS/EOS: %w", clip(in), m, err)
			}
			wantOmit := plainOf(want[1 : len(want)-1])
			for i := range wantOmit {
				wantOmit[i].Index = i
			}
			if err := diffPlain(plainOf(om), wantOmit); err != nil {
				return fmt.Errorf("input %q: omitting BOS/EOS changes other tokens in mode %v: %w", clip(in), m, err)
			}
		}
		var w nullWriter
		if err := diffTokens(full.Dot(&w, in), normal); err != nil {
			return fmt.Errorf("input %q: Dot differs from Analyze(Normal): %w", clip(in), err)
		}
		split := false
		for _, t := range search {
			if t.Class == tokenizer.UNKNOWN && t.End-t.Start > 1 {
				split = true
			}
		}
		rec.LabelIf(split, "extended mode splits an unknown word")
		rec.NonTrivialIf(split || diffTokens(search, normal) != nil || len(normal) > 4)
		rec.LabelIf(diffTokens(search, normal) != nil, "search differs from normal")
	}
	return nil
}

// ---------------------------------------------------------------- C04

func userFeatures(u UserSpec) []string {
	return []string{string(u.Pos), strings.Join(strs(u.Tokens), "/"), strings.Join(strs(u.Yomi), "/")}
}

func checkC04(c TokCase, rec *Rec) error {
	tk, md := c.Setup.Tokenizer()
	d, _ := c.Setup.dicts()
	none := newTokenizer(d, nil, c.Setup.Omit)
	for _, b := range c.Inputs {
		in := string(b)
		occurs := false
		for _, u := range c.Setup.User {
			if strings.Contains(in, string(u.S)) {
				occurs = true
			}
		}
		for _, m := range modes {
			ts := tk.Analyze(in, m)
			if err := lossless(in, ts, c.Setup.Omit); err != nil {
				return fmt.Errorf("mode %v, input %q: %w", m, clip(in), err)
			}
			for _, t := range ts {
				if t.ID == tokenizer.BosEosID {
					continue
				}
				us := md.userMatches(in[t.Position:])
				if len(us) == 0 {
					if t.Class == tokenizer.USER {
						return fmt.Errorf("mode %v, input %q: user token %v where no entry matches", m, clip(in), t)
					}
					continue
				}
				if t.Class == tokenizer.DUMMY && m == tokenizer.Extended {
					// a later piece of an unknown word that started before the entry
					if t.Index == 0 {
						return fmt.Errorf("mode %v, input %q: token %v is not a user token although an entry matches there", m, clip(in), t)
					}
					if p := ts[t.Index-1]; p.Class == tokenizer.DUMMY && p.ID == t.ID && p.ID != tokenizer.BosEosID {
						continue
					}
				}
				if t.Class != tokenizer.USER {
					return fmt.Errorf("mode %v, input %q: token %v is not a user token although entry %q matches there", m, clip(in), t, c.Setup.User[us[0].id].S)
				}
				if t.ID < 0 || t.ID >= len(c.Setup.User) || string(c.Setup.User[t.ID].S) != t.Surface {
					return fmt.Errorf("mode %v, input %q: user token %v has no entry of that text", m, clip(in), t)
				}
				u := c.Setup.User[t.ID]
				if got, want := t.Features(), userFeatures(u); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					return fmt.Errorf("user token %v has features %q, want %q", t, got, want)
				}
				if got := t.POS(); len(got) != 1 || got[0] != string(u.Pos) {
					return fmt.Errorf("user token %v has part of speech %q, want %q", t, got, u.Pos)
				}
				x := t.UserExtra()
				if x == nil || fmt.Sprintf("%q", x.Tokens) != fmt.Sprintf("%q", strs(u.Tokens)) || fmt.Sprintf("%q", x.Readings) != fmt.Sprintf("%q", strs(u.Yomi)) {
					return fmt.Errorf("user token %v has extra %+v, want %q %q", t, x, u.Tokens, u.Yomi)
				}
				rec.NonTrivial()
				rec.Label("user token, mode " + m.String())
				rec.LabelIf(len(us) > 1, "several entries match")
			}
			if !occurs {
				if err := diffTokens(ts, none.Analyze(in, m)); err != nil {
					return fmt.Errorf("mode %v, input %q: a user dictionary without occurring entries changes the result: %w", m, clip(in), err)
				}
				rec.LabelIf(len(c.Setup.User) > 0, "no entry occurs")
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C05

func checkC05(c TokCase, rec *Rec) error {
	tk, md := c.Setup.Tokenizer()
	for _, b := range c.Inputs {
		in := string(b)
		off := runeOffsets(in)
		for _, m := range modes {
			ts := tk.Analyze(in, m)
			if err := lossless(in, ts, c.Setup.Omit); err != nil {
				return fmt.Errorf("mode %v, input %q: %w", m, clip(in), err)
			}
			if m == tokenizer.Extended { // the unknown words are the ones of Search mode
				if err := diffPlain(plainOf(ts), expandExtended(tk.Analyze(in, tokenizer.Search))); err != nil {
					return fmt.Errorf("input %q: the pieces do not keep the entry of the unknown word: %w", clip(in), err)
				}
			}
			for i := 0; i < len(ts); i++ {
				t := ts[i]
				if t.ID == tokenizer.BosEosID {
					continue
				}
				cs := md.candidatesAt(in, off, t.Start)
				if t.Class == tokenizer.DUMMY {
					if m != tokenizer.Extended {
						return fmt.Errorf("mode %v, input %q: dummy token %v", m, clip(in), t)
					}
					// pieces t..end must be the split of some unknown candidates: accept
					// every length the candidates allow and let the next piece start anew.
					j, err := splitRun(md, in, off, ts, i)
					if err != nil {
						return fmt.Errorf("mode %v, input %q: %w", m, clip(in), err)
					}
					i = j - 1
					rec.NonTrivial()
					continue
				}
				if m == tokenizer.Extended && t.Class == tokenizer.UNKNOWN {
					return fmt.Errorf("input %q: unknown word %v in Extended mode", clip(in), t)
				}
				ok := false
				for _, c := range cs {
					if c.class == t.Class && c.id == t.ID && c.surface == t.Surface {
						ok = true
					}
				}
				if !ok {
					return fmt.Errorf("mode %v, input %q: token %v is not a word the dictionaries allow there; allowed: %s", m, clip(in), t, candStrings(cs))
				}
				if t.Class == tokenizer.KNOWN && !md.headword(t.ID, t.Surface) {
					return fmt.Errorf("mode %v, input %q: entry %d is not the word %q", m, clip(in), t.ID, t.Surface)
				}
				if t.Class == tokenizer.UNKNOWN {
					rec.NonTrivial()
					rec.Label("unknown token")
					rec.LabelIf(t.End-t.Start > 1, "grouped unknown token")
					rec.LabelIf(t.End-t.Start >= 1023, "unknown token at the length limit")
				}
			}
		}
	}
	return nil
}

// splitRun checks that a maximal run of single-character pieces starting at ts[i]
// can be read as a sequence of split unknown words, and returns its end.
func splitRun(md *Model, in string, off []int, ts []tokenizer.Token, i int) (int, error) {
	end := i
	for end < len(ts) && ts[end].Class == tokenizer.DUMMY && ts[end].ID != tokenizer.BosEosID {
		if ts[end].End-ts[end].Start != 1 {
			return 0, fmt.Errorf("piece %v is not a single character", ts[end])
		}
		end++
	}
	n := end - i
	reach := make([]bool, n+1)
	reach[0] = true
	for k := 0; k < n; k++ {
		if !reach[k] {
			continue
		}
		for _, c := range md.candidatesAt(in, off, ts[i+k].Start) {
			l := c.end - c.start
			if c.class != tokenizer.UNKNOWN || k+l > n {
				continue
			}
			same := true
			for x := k; x < k+l && same; x++ {
				same = ts[i+x].ID == c.id
			}
			if same {
				reach[k+l] = true
			}
		}
	}
	if !reach[n] {
		return 0, fmt.Errorf("pieces %s are not split unknown words", dumpTokens(ts[i:end]))
	}
	return end, nil
}

func init() {
	synth := genSynthCase(4, 3, 14)
	ipa := []string{"ipa"}
	both := []string{"ipa", "ipa", "uni"}

	reg("C01", "generated dictionaries", 60, 200, 6000, synth, checkC01)
	reg("C01", "real dictionaries", 40, 100, 3000, genRealCase(ipa, 3, 3, 10), checkC01)
	reg("C01", "unidic", 40, 12, 400, genRealCase(both, 3, 3, 10), checkC01)
	reg("C01", "long runs", 10, 24, 500, genLongCase, checkC01)
	reg("C01", "huge costs", 4, 24, 240, genHugeCase, checkC01)
	reg("C01", "large dictionaries", 10, 40, 1200, genBigCase(20, 300, 3000), checkC01)
	reg("C01", "long texts", 3, 32, 400, genSizedCase(1024, 2048, 4096, 8192, 16384, 32768, 65536), checkC01)

	reg("C02", "generated dictionaries", 60, 260, 8000, synth, checkC02)
	reg("C02", "search penalties", 60, 120, 4000, genPenaltyCase, checkC02)
	reg("C02", "real dictionaries", 30, 60, 3000, genRealCase(ipa, 3, 2, 8), checkC02)
	reg("C02", "unidic", 30, 12, 400, genRealCase(both, 3, 2, 8), checkC02)
	reg("C02", "long runs", 6, 24, 300, genLongCase, checkC02)
	reg("C02", "large dictionaries", 10, 48, 1500, genBigCase(20, 300, 3000), checkC02)
	reg("C02", "extreme costs", 2, 24, 300, genExtremeCase, checkC02)
	reg("C02", "long texts", 3, 24, 300, genSizedCase(256, 1024, 4096, 16384, 32768), checkC02)

	reg("C03", "generated dictionaries", 60, 180, 5000, synth, checkC03)
	reg("C03", "real dictionaries", 30, 60, 2500, genRealCase(ipa, 3, 2, 8), checkC03)
	reg("C03", "unidic", 30, 8, 400, genRealCase(both, 3, 2, 8), checkC03)
	reg("C03", "long runs", 6, 16, 300, genLongCase, checkC03)
	reg("C03", "large dictionaries", 10, 32, 1000, genBigCase(20, 200), checkC03)
	reg("C03", "long texts", 3, 24, 300, genSizedCase(64, 256, 1024, 4096, 8192), checkC03)

	reg("C04", "generated dictionaries", 60, 220, 6000, genSynthCase(6, 3, 14), checkC04)
	reg("C04", "real dictionaries", 30, 80, 3000, genRealCase(ipa, 6, 3, 8), checkC04)
	reg("C04", "unidic", 30, 8, 400, genRealCase(both, 6, 3, 8), checkC04)
	reg("C04", "search penalties", 60, 40, 1000, genPenaltyCase, checkC04)
	reg("C04", "large dictionaries", 10, 48, 1500, genBigCase(20, 300, 3000), checkC04)
	reg("C04", "many user entries", 2, 16, 200, genManyUsers, checkC04)
	reg("C04", "long texts", 3, 24, 300, genSizedCase(64, 256, 1024, 4096, 33000), checkC04)

	reg("C05", "generated dictionaries", 60, 240, 6000, synth, checkC05)
	reg("C05", "real dictionaries", 30, 60, 3000, genRealCase(ipa, 3, 3, 8), checkC05)
	reg("C05", "unidic", 30, 8, 400, genRealCase(both, 3, 3, 8), checkC05)
	reg("C05", "long runs", 6, 30, 400, genLongCase, checkC05)
	reg("C05", "large dictionaries", 10, 48, 1500, genBigCase(20, 300, 3000), checkC05)
	reg("C05", "long texts", 3, 24, 300, genSizedCase(256, 1024, 4096, 33000), checkC05)
}
