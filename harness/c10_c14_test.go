package checks

import (
	"bufio"
	_ "embed"
	"errors"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C10, C11

func inRunes(r rune, rs []rune) bool {
	for _, v := range rs {
		if v == r {
			return true
		}
	}
	return false
}

// refSentences is the reference model: the sentences of the whole text. It also
// returns the largest number of bytes looked at behind the end of a sentence and
// the largest span of a sentence with the white space in and around it.
func refSentences(spec SplitSpec, text string) (ret []string, lookahead, span int) {
	s := spec.resolved()
	type char struct {
		r     rune
		b     string
		delim bool
		foll  bool
		skip  bool
	}
	var cs []char
	var offs []int
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		cs = append(cs, char{r, text[i : i+n], inRunes(r, s.Delim), inRunes(r, s.Follower), s.Skip && unicode.IsSpace(r)})
		offs = append(offs, i)
		i += n
	}
	offs = append(offs, len(text))
	i := 0
	for {
		from := i
		for i < len(cs) && cs[i].skip {
			i++
		}
		if i == len(cs) {
			return ret, lookahead, span
		}
		sen, count, closed, tail := "", 0, false, 0
		for i < len(cs) {
			c := cs[i]
			blank := s.DoubleLF && c.r == '\n' && i > 0 && cs[i-1].r == '\n' && !closed && i > from && (sen != "")
			if closed {
				// Behind a delimiter or the maximum: a blank line still separates, and
				// it counts from the delimiter on.
				blank = s.DoubleLF && c.r == '\n' && c.skip && i-1 >= tail && cs[i-1].r == '\n'
				if !c.skip && !c.delim && !c.foll {
					break
				}
			}
			i++
			if !c.skip {
				sen += c.b
				count++
			}
			if blank || (!closed && c.skip && c.delim) {
				break
			}
			if !closed && !c.skip && (c.delim || count >= s.Max) {
				closed, tail = true, i
			}
		}
		if closed && offs[i]-offs[tail] > lookahead {
			lookahead = offs[i] - offs[tail]
		}
		if d := offs[i] - offs[from]; d > span {
			span = d
		}
		ret = append(ret, sen)
	}
}

// scanAll runs the splitter under a bufio.Scanner.
func scanAll(fn bufio.SplitFunc, r io.Reader, init, max int) (ret []string, err error) {
	sc := bufio.NewScanner(r)
	if max > 0 {
		sc.Buffer(make([]byte, 0, init), max)
	}
	sc.Split(fn)
	for sc.Scan() {
		ret = append(ret, sc.Text())
	}
	return ret, sc.Err()
}

// splitWhole calls the split function on the rest of the text until nothing is left.
func splitWhole(fn bufio.SplitFunc, text string) ([]string, error) {
	var ret []string
	data := []byte(text)
	for len(data) > 0 {
		adv, tok, err := fn(data, true)
		if err != nil {
			return nil, err
		}
		if adv < 0 || adv > len(data) || (adv == 0 && tok == nil) {
			return nil, fmt.Errorf("the split function advances by %d of %d bytes with the token %q", adv, len(data), tok)
		}
		if tok != nil {
			ret = append(ret, string(tok))
		}
		data = data[adv:]
	}
	return ret, nil
}

func diffStrings(got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("sentence %d is missing: want %q", i, clip(want[i]))
		case i >= len(want):
			return fmt.Errorf("unexpected sentence %d: %q", i, clip(got[i]))
		case got[i] != want[i]:
			return fmt.Errorf("sentence %d is %q, want %q", i, clip(got[i]), clip(want[i]))
		}
	}
	return nil
}

// SplitCase is a splitter and a text.
type SplitCase struct {
	Spec  SplitSpec
	Text  BS
	Reads []int `json:",omitempty"` // sizes of successive reads, cyclic
	EOF   bool  `json:",omitempty"` // the last read returns io.EOF together with data
	Fail  int   `json:",omitempty"` // >0: the reader fails after that many bytes
	Init  int   `json:",omitempty"` // initial buffer size
	Max   int   `json:",omitempty"` // maximum buffer size
}

var splitChars = []string{
	"あ", "漢", "a", "b", "𠮷", "é", "。", "．", "！", "!", "？", "?", ".", "」", "』", ")", "）", "}", "》", "「", "、",
	"\n", "\n", "\n\n", "\r\n", " ", "\t", "\u3000", "\u00a0", "\u2028", "\u0085", "\v",
}

// Characters that text processing likes to treat specially; none but the first
// line is white space, and all count as one character.
var oddChars = []string{
	"\u1680", "\u2003", "\u2009", "\u202f", "\u205f", "\u2029", "\f", "\r",
	"\u0301", "\u3099", "\u309a", "\ufe0f", "\u200d", "\u200b", "\ufeff", "\u2060", "\u180e", "\u00ad", "\u200e", "\U000e0100", "\x00", "\x7f", "\x1b",
	"か\u3099", "👨\u200d👩", "🏳\ufe0f", "\ufffd", "ｱﾞ", "Ａ", "…", "‼", "⁇", "｡", "､", "｣", "\"", "'", "”", "’", "〕", "】", "]", ">", "\u0600", "ﷺ", "ǆ", "İ", "ß",
}

func genSplitSpec(t *rapid.T) SplitSpec {
	if chance(t, "default", 35) {
		return SplitSpec{Default: true}
	}
	s := SplitSpec{Skip: rapid.Bool().Draw(t, "skip"), DoubleLF: rapid.Bool().Draw(t, "dlf"), Max: pick(t, "max", []int{128, 1, 2, 3, 5, 7, 20, 0, -1, 63, 64, 127, 129, 255, 256, 257, 1000, 1000000})}
	for i, n := 0, pick(t, "ndelim", []int{0, 1, 2, 3, 3, 9, 20}); i < n; i++ {
		s.Delim = append(s.Delim, pick(t, "delim", []rune{'。', '.', '!', '？', 'a', '𠮷', '\n', ' ', '\u3000', '」', '\u0301', '\u0085', '\t', '\r', '\uFFFD', '漢'}))
	}
	for i, n := 0, pick(t, "nfoll", []int{0, 1, 2, 3, 3, 9, 20}); i < n; i++ {
		s.Follower = append(s.Follower, pick(t, "foll", []rune{'」', ')', '.', 'あ', '\n', ' ', '。', 'é', '\u3099', '\ufe0f', '\u3000', '😀', '\uFFFD', '!'}))
	}
	return s
}

func genSplitText(t *rapid.T, maxPieces int) BS {
	var b strings.Builder
	var own []string // a small alphabet of its own for this text
	for i, n := 0, intr(t, "nown", 2, 6); i < n; i++ {
		switch k := intr(t, "ownkind", 0, 9); {
		case k < 7:
			own = append(own, pick(t, "own", splitChars))
		case k < 9:
			own = append(own, pick(t, "odd", oddChars))
		default:
			own = append(own, string(genAnyRune(t)))
		}
	}
	cr := corpusRunes()
	for i, n := 0, intr(t, "pieces", 0, maxPieces); i < n; i++ {
		switch k := intr(t, "piece", 0, 19); {
		case k < 11:
			b.WriteString(pick(t, "o", own))
		case k < 14:
			b.WriteString(pick(t, "c", splitChars))
		case k < 15:
			b.WriteString(strings.Repeat(pick(t, "c", splitChars), pick(t, "run", []int{2, 3, 10, 126, 127, 128, 129, 300, 1290})))
		case k < 17:
			off := intr(t, "off", 0, len(cr)-200)
			b.WriteString(string(cr[off : off+intr(t, "len", 1, 160)]))
		case k < 18:
			b.WriteString(pick(t, "inv", invalidBytes))
		default:
			b.WriteString(pick(t, "seq", []string{"。」", "\n \n", "。\n\n」", "\n\n\n", "！？」\n", "。 」", "\r\n\r\n", "あ\n", "。\n。", "a\nb\nc\n\n"}))
		}
	}
	return BS(b.String())
}

func genSplitCase(t *rapid.T) SplitCase {
	return SplitCase{Spec: genSplitSpec(t), Text: genSplitText(t, 25)}
}

func checkC10(c SplitCase, rec *Rec) error {
	text := string(c.Text)
	s := c.Spec.resolved()
	got, err := splitWhole(c.Spec.fn(), text)
	if err != nil {
		return err
	}
	fail := func(err error) error { return fmt.Errorf("text %q: %w", clip(text), err) }
	all, rest := strings.Join(got, ""), text
	if s.Skip { // white space of the text, not of what is left when it is gone
		rest = ""
		for i := 0; i < len(text); {
			r, n := utf8.DecodeRuneInString(text[i:])
			if !unicode.IsSpace(r) {
				rest += text[i : i+n]
			}
			i += n
		}
	}
	if all != rest {
		return fail(fmt.Errorf("the sentences %q do not make up the text", got))
	}
	for i, v := range got {
		if v == "" {
			return fail(fmt.Errorf("sentence %d is empty", i))
		}
	}
	want, _, _ := refSentences(c.Spec, text)
	if err := diffStrings(got, want); err != nil {
		return fail(err)
	}
	// the usual way to use it
	if len(text) < 60000 {
		got, err := scanAll(c.Spec.fn(), strings.NewReader(text), 0, 0)
		if err != nil {
			return fail(err)
		}
		if _, ahead, _ := refSentences(c.Spec, text); ahead <= 4000 {
			if err := diffStrings(got, want); err != nil {
				return fail(fmt.Errorf("with a scanner: %w", err))
			}
		}
	}
	rec.NonTrivialIf(len(want) >= 2)
	rec.LabelIf(strings.Contains(text, "\n\n") && s.DoubleLF, "blank line")
	rec.LabelIf(strings.ContainsFunc(text, unicode.IsSpace) && s.Skip, "skipped white space")
	rec.LabelIf(!utf8.ValidString(text), "invalid UTF-8")
	for _, v := range want {
		if utf8.RuneCountInString(v) >= s.Max && s.Max > 1 {
			rec.Label("maximum reached")
			break
		}
	}
	rec.LabelIf(c.Spec.Default, "default splitter")
	return nil
}

var errReader = errors.New("injected read error")

// chopReader hands out the data in reads of given sizes.
type chopReader struct {
	data  string
	sizes []int
	n     int
	eof   bool
	fail  bool
}

func (r *chopReader) Read(p []byte) (int, error) {
	end := func() error {
		if r.fail {
			return errReader
		}
		return io.EOF
	}
	if len(r.data) == 0 {
		return 0, end()
	}
	n := len(r.data)
	if len(r.sizes) > 0 {
		if k := r.sizes[r.n%len(r.sizes)]; k < n {
			n = k
		}
		r.n++
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eof {
		return n, end()
	}
	return n, nil
}

// sentenceEnds says where in the text its sentences end.
func sentenceEnds(spec SplitSpec, text string) (ret []int) {
	want, _, _ := refSentences(spec, text)
	p := 0
	for _, s := range want {
		for len(s) > 0 && p < len(text) {
			_, n := utf8.DecodeRuneInString(text[p:])
			if _, m := utf8.DecodeRuneInString(s); text[p:p+n] == s[:m] {
				s = s[m:]
			}
			p += n
		}
		ret = append(ret, p)
	}
	return ret
}

func genChopCase(t *rapid.T) SplitCase {
	c := SplitCase{Spec: genSplitSpec(t)}
	if chance(t, "long", 8) { // sentences longer than a buffer, ended by the maximum
		c.Spec = SplitSpec{Skip: rapid.Bool().Draw(t, "skip"), DoubleLF: rapid.Bool().Draw(t, "dlf"), Delim: []rune{'。'}, Follower: []rune{'」'},
			Max: pick(t, "longmax", []int{1000, 1365, 1366, 1400, 2047, 2048, 4095, 4096, 5000})}
		var b strings.Builder
		for i, n := 0, intr(t, "parts", 1, 3); i < n; i++ {
			b.WriteString(strings.Repeat(pick(t, "longchar", []string{"漢", "é", "𠮷", "あい", "a漢", "\ufffd", "\xff", "漢 "}), c.Spec.Max+intr(t, "over", -3, 3)))
			b.WriteString(string(genSplitText(t, 3)))
		}
		c.Text = BS(b.String())
	} else if chance(t, "big", 12) { // several default buffers
		var b strings.Builder
		for i, n := 0, intr(t, "parts", 2, 12); i < n; i++ {
			b.WriteString(strings.Repeat(string(genSplitText(t, 6)), intr(t, "times", 1, 10)))
		}
		c.Text = BS(b.String())
	} else {
		c.Text = genSplitText(t, 30)
	}
	for i, n := 0, intr(t, "nreads", 0, 5); i < n; i++ {
		c.Reads = append(c.Reads, pick(t, "read", []int{1, 1, 2, 3, 4, 5, 7, 0, 16, 64, 1000, 4095, 4096, 4097}))
	}
	allZero := true
	for _, v := range c.Reads {
		allZero = allZero && v == 0
	}
	if allZero {
		c.Reads = nil
	}
	c.EOF = rapid.Bool().Draw(t, "eof")
	if chance(t, "fail", 10) && len(c.Text) > 0 {
		c.Fail = intr(t, "failat", 1, len(c.Text))
	}
	_, ahead, span := refSentences(c.Spec, string(c.Text))
	if ahead > 3900 {
		c.Text = c.Text[:len(c.Text)%2000]
		_, _, span = refSentences(c.Spec, string(c.Text))
		if c.Fail > len(c.Text) {
			c.Fail = 0
		}
	}
	if chance(t, "aligned", 25) {
		// The reads end where sentences end, or some bytes off.
		if ends := sentenceEnds(c.Spec, string(c.Text)); len(ends) > 0 {
			c.Reads = nil
			last := 0
			for i, n := 0, intr(t, "cuts", 1, 4); i < n; i++ {
				if e := pick(t, "end", ends) + intr(t, "off", -5, 4); e > last {
					c.Reads = append(c.Reads, e-last)
					last = e
				}
			}
			c.Max = 1 << 20
			c.Init = 1 << 18
			if last > 0 {
				c.Reads = append(c.Reads, 1<<18)
				return c
			}
			c.Reads = nil
		}
	}
	if chance(t, "buffer", 70) {
		// From a buffer into which everything just fits (a sentence, what is looked at
		// behind it, a character that straddles the end) upwards.
		c.Max = 2*span + 16 + pick(t, "slack", []int{0, 1, 2, 3, 5, 50})
		c.Init = intr(t, "init", 1, c.Max)
	} else {
		c.Max = 1 << 20
		c.Init = pick(t, "init0", []int{1, 16, 4096})
	}
	return c
}

func checkC11(c SplitCase, rec *Rec) error {
	text := string(c.Text)
	if c.Fail > 0 && c.Fail <= len(text) {
		text = text[:c.Fail]
	}
	want, ahead, span := refSentences(c.Spec, text)
	if ahead > 4000 || c.Max < 2*span+16 {
		return nil // outside the property (only reached while shrinking)
	}
	got, err := scanAll(c.Spec.fn(), &chopReader{data: text, sizes: c.Reads, eof: c.EOF, fail: c.Fail > 0}, c.Init, c.Max)
	if c.Fail > 0 {
		if !errors.Is(err, errReader) {
			return fmt.Errorf("text %q: the scanner reports %v instead of the read error", clip(text), err)
		}
	} else if err != nil {
		return fmt.Errorf("text %q: %w", clip(text), err)
	}
	if err := diffStrings(got, want); err != nil {
		return fmt.Errorf("text %q: %w", clip(text), err)
	}
	// the same text in one piece
	one, err := splitWhole(c.Spec.fn(), text)
	if err != nil {
		return err
	}
	if err := diffStrings(got, one); err != nil {
		return fmt.Errorf("text %q, in one piece: %w", clip(text), err)
	}
	rec.NonTrivialIf(len(want) >= 2 && (len(c.Reads) > 0 || len(text) > c.Init))
	rec.LabelIf(len(text) > c.Init, "longer than the first buffer")
	rec.LabelIf(len(text) > c.Max, "longer than the largest buffer")
	rec.LabelIf(len(c.Reads) > 0, "chopped reads")
	rec.LabelIf(c.Fail > 0, "read error")
	return nil
}

// ---------------------------------------------------------------- C12

// FilterCase is a list of patterns and feature lists to match.
type FilterCase struct {
	Patterns [][]BS
	Lists    [][]BS
}

func matchPattern(p, fs []string) bool {
	if len(p) == 0 || len(fs) < len(p) {
		return false
	}
	for i := range p {
		if p[i] != "\x00" && p[i] != fs[i] {
			return false
		}
	}
	return true
}

func matchAny(ps [][]string, fs []string) bool {
	for _, p := range ps {
		if matchPattern(p, fs) {
			return true
		}
	}
	return false
}

func strss(xs [][]BS) [][]string {
	var ret [][]string
	for _, v := range xs {
		ret = append(ret, strs(v))
	}
	return ret
}

var patternElems = []BS{"a", "b", "c", "*", "", "\x00", "\x00", "名詞", "A", "Ａ", "a ", "名", "名詞-一般", "名詞,一般", "**"}

func genFilterCase(t *rapid.T) FilterCase {
	var c FilterCase
	elems := patternElems[:intr(t, "nelems", 2, len(patternElems))]
	if chance(t, "any", 60) {
		elems = append(append([]BS{}, elems...), "\x00")
	}
	maxLen := intr(t, "maxlen", 1, 4)
	npat := intr(t, "npat", 0, 8)
	if chance(t, "many", 6) {
		maxLen, npat = pick(t, "manylen", []int{2, 6, 9, 20}), pick(t, "manypat", []int{9, 17, 33, 70, 140, 300})
		for i, n := 0, pick(t, "manyelems", []int{30, 300}); i < n; i++ {
			elems = append(elems[:len(elems):len(elems)], BS(fmt.Sprintf("f%d", i)))
		}
	}
	for i := 0; i < npat; i++ {
		p := genFeatures(t, 0, maxLen, elems)
		if len(c.Patterns) > 0 && chance(t, "derive", 40) { // a prefix, extension or variant of another
			q := append([]BS{}, pick(t, "of", c.Patterns)...)
			switch intr(t, "how", 0, 3) {
			case 0:
				q = append(q, pick(t, "ext", elems))
			case 1:
				q = q[:intr(t, "cut", 0, len(q))]
			case 2:
				if len(q) > 0 {
					q[intr(t, "at", 0, len(q)-1)] = pick(t, "repl", elems)
				}
			}
			p = q
		}
		c.Patterns = append(c.Patterns, p)
	}
	for i, n := 0, intr(t, "nlists", 1, 8); i < n; i++ {
		l := genFeatures(t, 0, maxLen+2, elems)
		if len(c.Patterns) > 0 && chance(t, "from", 60) {
			l = append([]BS{}, pick(t, "p", c.Patterns)...)
			for j := range l {
				if l[j] == "\x00" {
					l[j] = pick(t, "w", patternElems[:5])
				} else if chance(t, "mutate", 10) {
					l[j] = pick(t, "m", patternElems)
				}
			}
			l = append(l, genFeatures(t, 0, 2, elems)...)
			if len(l) > 0 && chance(t, "shorten", 20) {
				l = l[:len(l)-1]
			}
		}
		c.Lists = append(c.Lists, l)
	}
	return c
}

func checkC12(c FilterCase, rec *Rec) error {
	ps := strss(c.Patterns)
	orig := fmt.Sprintf("%q", ps)
	f := filter.NewFeaturesFilter(ps...)
	pf := filter.NewPOSFilter(ps...)
	var rev [][]string
	for i := len(ps) - 1; i >= 0; i-- {
		rev = append(rev, ps[i])
	}
	fr := filter.NewFeaturesFilter(append(rev, rev...)...)
	var yes, no int
	for _, l := range c.Lists {
		fs := strs(l)
		want := matchAny(ps, fs)
		for what, got := range map[string]bool{"features filter": f.Match(fs), "part-of-speech filter": pf.Match(fs), "features filter, patterns reversed and repeated": fr.Match(fs), "features filter, again": f.Match(fs)} {
			if got != want {
				return fmt.Errorf("%s %q matches %q: %v, want %v", what, ps, fs, got, want)
			}
		}
		if !sameList(fs, strs(l)) {
			return fmt.Errorf("matching changed the list %q to %q", strs(l), fs)
		}
		if want {
			yes++
		} else {
			no++
		}
	}
	if now := fmt.Sprintf("%q", ps); now != orig {
		return fmt.Errorf("the patterns changed from %s to %s", orig, now)
	}
	if f.Match(nil) || pf.Match(nil) {
		return fmt.Errorf("the filter %q matches no features at all", ps)
	}
	rec.NonTrivialIf(len(ps) >= 2 && yes > 0 && no > 0)
	rec.LabelIf(yes > 0, "some list matches")
	rec.LabelIf(no > 0, "some list does not match")
	return nil
}

// ---------------------------------------------------------------- C13

// KeepCase is a tokenizer result and filters for it.
type KeepCase struct {
	Setup    Setup
	Input    BS
	Mode     int
	Bits     []bool // the predicate, by position in the list
	Patterns [][]BS
	Words    []BS
	List     []int `json:",omitempty"` // tokens of a list put together by hand; negative: one with the surface ""
}

func genKeepCase(t *rapid.T) KeepCase {
	s, ctx := genSynthSetup(t, 3)
	c := KeepCase{Setup: s, Input: genText(t, ctx, s.Dict.Words, s.User, 16), Mode: intr(t, "mode", 1, 3)}
	if chance(t, "long", 4) {
		c.Input = BS(stretch(string(c.Input), pick(t, "chars", []int{40, 130, 300, 1100, 5000})))
	}
	n := intr(t, "nbits", 1, 20)
	p := pick(t, "density", []int{50, 50, 10, 90, 0, 100})
	for i := 0; i < n; i++ {
		c.Bits = append(c.Bits, chance(t, "bit", p))
	}
	for i, n := 0, intr(t, "npat", 0, 4); i < n; i++ {
		if len(s.Dict.Words) > 0 && chance(t, "frompos", 60) {
			pos := pick(t, "w", s.Dict.Words).POS
			pos = append([]BS{}, pos[:intr(t, "cut", 0, len(pos))]...)
			if len(pos) > 0 && chance(t, "wild", 30) {
				pos[intr(t, "wildat", 0, len(pos)-1)] = "\x00"
			}
			c.Patterns = append(c.Patterns, pos)
			continue
		}
		c.Patterns = append(c.Patterns, genFeatures(t, 0, 3, append([]BS{"\x00", "カスタム"}, posNames...)))
	}
	for i, n := 0, intr(t, "nlist", 0, 9)*intr(t, "byhand", 0, 1); i < n; i++ {
		c.List = append(c.List, intr(t, "li", -1, 12))
	}
	nwords := intr(t, "nwords", 0, 4)
	if chance(t, "manywords", 5) {
		nwords = pick(t, "many", []int{9, 20, 70, 300})
	}
	for i := 0; i < nwords; i++ {
		if len(s.Dict.Words) > 0 && chance(t, "fromdict", 50) {
			c.Words = append(c.Words, pick(t, "w", s.Dict.Words).S)
		} else {
			c.Words = append(c.Words, pick(t, "x", []BS{"BOS", "EOS", "", "a", "あ", "bos", "A", "Ａ", "ア", " a", "a ", BS(pick(t, "r", ctx.alpha)), BS(genWord(t, ctx, 3))}))
		}
	}
	return c
}

func applyExpect(ts []tokenizer.Token, keep func(i int) bool) []tokenizer.Token {
	var ret []tokenizer.Token
	for i, t := range ts {
		if keep(i) {
			ret = append(ret, t)
		}
	}
	return ret
}

func checkC13(c KeepCase, rec *Rec) error {
	tk, _ := c.Setup.Tokenizer()
	in := string(c.Input)
	ts := tk.Analyze(in, tokenizer.TokenizeMode(c.Mode))
	if len(c.List) > 0 && len(ts) > 0 {
		var hand []tokenizer.Token
		for i, k := range c.List {
			t := ts[(k+1)%len(ts)]
			if k < 0 {
				t.Surface = ""
			}
			t.Index = i
			hand = append(hand, t)
		}
		ts = hand
		rec.Label("list put together by hand")
	}
	fresh := func() []tokenizer.Token {
		// with spare capacity holding something that must not appear
		ret := make([]tokenizer.Token, len(ts), len(ts)+2)
		copy(ret, ts)
		x := ret[:cap(ret)]
		for i := len(ts); i < len(x); i++ {
			x[i].Surface = "SPARE"
		}
		return ret
	}
	bit := func(i int) bool { return c.Bits[i%len(c.Bits)] }
	ps, ws := strss(c.Patterns), strs(c.Words)
	pf, wf := filter.NewPOSFilter(ps...), filter.NewWordFilter(ws)
	posMatch := func(i int) bool { return matchAny(ps, ts[i].POS()) }
	wordMatch := func(i int) bool {
		for _, w := range ws {
			if w == ts[i].Surface {
				return true
			}
		}
		return false
	}
	for i := range ts {
		if got, want := wf.Match(ts[i].Surface), wordMatch(i); got != want {
			return fmt.Errorf("word filter %q matches %q: %v, want %v", ws, ts[i].Surface, got, want)
		}
	}
	for _, w := range append([]string{"", "a", "BOS"}, ws...) {
		for _, x := range []string{w, w + " ", strings.ToUpper(w), strings.ToLower(w), strings.TrimSpace(w), w + "\x00", strings.TrimRight(w, "ー")} {
			if got, want := wf.Match(x), slices.Contains(ws, x); got != want {
				return fmt.Errorf("word filter %q matches %q: %v, want %v", ws, x, got, want)
			}
		}
		if len(ws) > 20 {
			break
		}
	}
	var calls []int
	pred := func(t tokenizer.Token) bool { calls = append(calls, t.Index); return bit(t.Index) }
	type variant struct {
		name  string
		apply func(*[]tokenizer.Token)
		match func(int) bool
		keep  bool
		count bool
	}
	kept, dropped := 0, 0
	for _, v := range []variant{
		{"Keep", func(p *[]tokenizer.Token) { filter.Keep(p, pred) }, bit, true, true},
		{"Drop", func(p *[]tokenizer.Token) { filter.Drop(p, pred) }, bit, false, true},
		{"POSFilter.Keep", pf.Keep, posMatch, true, false},
		{"POSFilter.Drop", pf.Drop, posMatch, false, false},
		{"WordFilter.Keep", wf.Keep, wordMatch, true, false},
		{"WordFilter.Drop", wf.Drop, wordMatch, false, false},
	} {
		calls = nil
		v.apply(nil)
		var none []tokenizer.Token
		v.apply(&none)
		if len(none) != 0 || len(calls) != 0 {
			return fmt.Errorf("%s of no tokens: %d tokens, %d calls", v.name, len(none), len(calls))
		}
		got := fresh()
		v.apply(&got)
		want := applyExpect(ts, func(i int) bool { return v.match(i) == v.keep })
		if len(got) != len(want) {
			return fmt.Errorf("%s on %q left %s, want %s", v.name, clip(in), dumpTokens(got), dumpTokens(want))
		}
		for i := range got {
			if !reflect.DeepEqual(got[i], want[i]) {
				return fmt.Errorf("%s on %q left %s, want %s", v.name, clip(in), dumpTokens(got), dumpTokens(want))
			}
		}
		if v.count {
			if len(calls) != len(ts) {
				return fmt.Errorf("%s called the predicate %d times for %d tokens", v.name, len(calls), len(ts))
			}
			seen := map[int]bool{}
			for _, x := range calls {
				if seen[x] {
					return fmt.Errorf("%s called the predicate twice for token %d", v.name, x)
				}
				seen[x] = true
			}
		}
		kept += len(got)
		dropped += len(ts) - len(got)
	}
	rec.NonTrivialIf(len(ts) >= 3 && kept > 0 && dropped > 0)
	return nil
}

// ---------------------------------------------------------------- C14

//go:embed data/stop_tags.txt
var refStopTags string

//go:embed data/stop_words.txt
var refStopWords string

func parseList(s string) []string {
	var ret []string
	for _, l := range strings.Split(s, "\n") {
		l, _, _ = strings.Cut(strings.TrimSuffix(l, "\r"), "#")
		if l != "" {
			ret = append(ret, l)
		}
	}
	return ret
}

type jaRef struct {
	tags, base [][]string
	words      map[string]bool
}

func defaultJa() *jaRef {
	r := &jaRef{words: map[string]bool{}, base: [][]string{{"動詞"}, {"形容詞"}, {"形容動詞"}}}
	for _, v := range parseList(refStopTags) {
		p := strings.Split(v, "-")
		for len(p) < 4 {
			p = append(p, "*")
		}
		r.tags = append(r.tags, p)
	}
	for _, v := range parseList(refStopWords) {
		r.words[v] = true
	}
	return r
}

// JaCase is a filter configuration and tokens for it.
type JaCase struct {
	Setup                   Setup
	Input                   BS
	Mode                    int
	HasTags, HasWords, HasB bool
	Tags, Base              [][]BS
	Words                   []BS
	Order                   int
	Edit                    []BS `json:",omitempty"` // surfaces that some of the tokens are given
}

var oddSurfaces = []BS{"", " ", "#", "# の", "の ", " の", "の\n", "こと\t", "こと", "コト", "ノ", "のの", "a", "A", "する", "EOS", "BOS", "*", "\x00", "ない", "ある", "あ", "どこ", "これ#"}

var jaPOS = [][]BS{{"動詞"}, {"形容詞"}, {"形容動詞"}, {"名詞"}, {"助詞"}, {"動詞", "自立"}, {"名詞", "\x00", "\x00"}, {"\x00"}, {"\x00", "自立"}, {"カスタム名詞"}, {"名詞", "一般"}, {"助動詞"}, {"*"}, {"記号", "*"}, {}}

func genJaCase(real bool) func(t *rapid.T) JaCase {
	return func(t *rapid.T) JaCase {
		c := JaCase{Mode: intr(t, "mode", 1, 3)}
		if real {
			c.Setup = genRealSetup(t, []string{"ipa"}, 2)
			c.Input = genRealText(t, c.Setup.User, 6)
		} else {
			s, ctx := genSynthSetup(t, 2)
			for i := range s.Dict.Words { // parts of speech and base forms that matter
				w := &s.Dict.Words[i]
				p := []BS{pick(t, "p0", []BS{"動詞", "形容詞", "形容動詞", "名詞", "助詞", "助動詞", "記号", "接続詞"}), pick(t, "p1", []BS{"自立", "一般", "*", "格助詞", "句点"}), pick(t, "p2", []BS{"*", "*", "一般", "引用"}), "*"}
				w.POS = p[:intr(t, "np", 1, 4)]
				if chance(t, "fullpos", 70) {
					w.POS = p
				}
				w.C = genFeatures(t, 0, 3, featNames)
				if chance(t, "stopword", 20) {
					w.S = pick(t, "sw", []BS{"の", "こと", "ある", "する", "a", "あ"})
				}
			}
			s.Dict.normalise()
			if chance(t, "goodmeta", 70) {
				s.Dict.NoContents = false
				s.Dict.Meta = map[string]int{dict.BaseFormIndex: intr(t, "baseat", 1, 5)}
				for i := range s.Dict.Words {
					s.Dict.Words[i].C = genFeatures(t, 1, 3, featNames)
				}
			}
			c.Setup = s
			c.Input = genText(t, ctx, s.Dict.Words, s.User, 12)
		}
		if chance(t, "long", 3) {
			c.Input = BS(stretch(string(c.Input), pick(t, "chars", []int{130, 300, 1100})))
		}
		for i, n := 0, intr(t, "nedit", 0, 6); i < n-2; i++ {
			c.Edit = append(c.Edit, pick(t, "edit", oddSurfaces))
		}
		c.HasTags, c.HasWords, c.HasB = chance(t, "hastags", 35), chance(t, "haswords", 35), chance(t, "hasbase", 35)
		c.Order = intr(t, "order", 0, 5)
		if c.HasTags {
			for i, n := 0, intr(t, "ntags", 0, 4); i < n; i++ {
				c.Tags = append(c.Tags, pick(t, "tag", jaPOS))
			}
		}
		if c.HasB {
			for i, n := 0, intr(t, "nbase", 0, 4); i < n; i++ {
				c.Base = append(c.Base, pick(t, "base", jaPOS))
			}
		}
		if c.HasWords {
			for i, n := 0, intr(t, "nsw", 0, 4); i < n; i++ {
				c.Words = append(c.Words, pick(t, "word", []BS{"の", "こと", "a", "あ", "漢", "猫", "BOS", "", "食べ"}))
			}
		}
		return c
	}
}

func genJaWords(t *rapid.T) JaCase {
	x := genManyWords("ipa")(t)
	return JaCase{Setup: x.Setup, Input: x.Inputs[0], Mode: intr(t, "mode", 1, 3)}
}

func checkC14(c JaCase, rec *Rec) error {
	tk, _ := c.Setup.Tokenizer()
	in := string(c.Input)
	ts := tk.Analyze(in, tokenizer.TokenizeMode(c.Mode))
	for i, e := range c.Edit {
		if len(ts) > 0 {
			ts[(i*7+1)%len(ts)].Surface = string(e)
		}
	}
	ref := defaultJa()
	var opts []ja.FilterOption
	if c.HasTags {
		ref.tags = strss(c.Tags)
		opts = append(opts, ja.StopTagsFilterOption(strss(c.Tags)))
	}
	if c.HasWords {
		ref.words = map[string]bool{}
		for _, w := range c.Words {
			ref.words[string(w)] = true
		}
		opts = append(opts, ja.StopWordsFilterOption(strs(c.Words)))
	}
	if c.HasB {
		ref.base = strss(c.Base)
		opts = append(opts, ja.BaseFormFilterOption(strss(c.Base)))
	}
	for i := 0; i < c.Order && len(opts) > 0; i++ {
		j := i % len(opts)
		opts[0], opts[j] = opts[j], opts[0]
	}
	f, err := ja.NewFilter(opts...)
	if err != nil {
		return err
	}
	before := plainOf(ts)
	got := f.Yield(ts)
	if err := diffPlain(plainOf(ts), before); err != nil {
		return fmt.Errorf("Yield changed the tokens: %w", err)
	}
	var want []string
	var rest []tokenizer.Token
	reduced := 0
	for _, t := range ts {
		pos := t.POS()
		if matchAny(ref.tags, pos) || ref.words[t.Surface] {
			continue
		}
		rest = append(rest, t)
		if !matchAny(ref.base, pos) {
			want = append(want, t.Surface)
			continue
		}
		if b, ok := t.BaseForm(); ok {
			want = append(want, b)
			reduced++
		}
	}
	if !sameList(got, want) {
		return fmt.Errorf("Yield for %q is %q, want %q; tokens %s", clip(in), got, want, dumpTokens(ts))
	}
	if again := f.Yield(ts); !sameList(again, want) {
		return fmt.Errorf("the second Yield for %q is %q, want %q", clip(in), again, want)
	}
	cp := append([]tokenizer.Token{}, ts...)
	f.Drop(&cp)
	if len(cp) != len(rest) {
		return fmt.Errorf("Drop for %q left %s, want %s", clip(in), dumpTokens(cp), dumpTokens(rest))
	}
	for i := range cp {
		if !reflect.DeepEqual(cp[i], rest[i]) {
			return fmt.Errorf("Drop for %q left %s, want %s", clip(in), dumpTokens(cp), dumpTokens(rest))
		}
	}
	rec.NonTrivialIf(len(rest) > 0 && len(rest) < len(ts))
	rec.LabelIf(reduced > 0, "reduced to a base form")
	rec.LabelIf(len(opts) == 0, "defaults")
	return nil
}

// ListCase: a token list made to hit one entry of the default lists, or miss it closely.
type ListCase struct {
	Tag   int
	Word  int
	Tweak int
	Extra []BS
}

func genListCase(t *rapid.T) ListCase {
	return ListCase{Tag: intr(t, "tag", 0, len(parseList(refStopTags))-1), Word: intr(t, "word", 0, len(parseList(refStopWords))-1), Tweak: intr(t, "tweak", 0, 7), Extra: genFeatures(t, 0, 3, posNames)}
}

// checkList builds a dictionary of one word that has the stop tag as its part of
// speech (or a near miss) and the stop word as its surface (or a near miss).
func checkList(c ListCase, rec *Rec) error {
	ref := defaultJa()
	pos := append([]string{}, ref.tags[c.Tag]...)
	word := parseList(refStopWords)[c.Word]
	if c.Tweak&1 != 0 {
		pos[len(pos)-1] += "x"
	}
	if c.Tweak&2 != 0 {
		word += "゛"
	}
	if c.Tweak&4 != 0 {
		pos = append(pos, strs(c.Extra)...)
	}
	d := &DictSpec{N: 1, Conn: []int{0}, TblLen: 0x10000, Cats: []CatSpec{{Unk: []UnkSpec{{W: 30000, F: []BS{"未知"}}}}},
		Words: []WordSpec{{S: BS(word), POS: bss(pos)}, {S: "漢字", POS: bss([]string{"名詞", "一般", "*", "*"})}}}
	tk := newTokenizer(d.Build(), nil, true)
	ts := tk.Tokenize(word + "漢字")
	if len(ts) != 2 {
		return fmt.Errorf("unexpected tokens %s", dumpTokens(ts))
	}
	f, err := ja.NewFilter()
	if err != nil {
		return err
	}
	want := []string{"漢字"}
	if !matchAny(ref.tags, pos) && !ref.words[word] {
		want = []string{word, "漢字"}
		rec.Label("near miss")
	}
	if got := f.Yield(ts); !sameList(got, want) {
		return fmt.Errorf("Yield of a word %q with part of speech %q is %q, want %q", word, pos, got, want)
	}
	f.Drop(&ts)
	if len(ts) != len(want) {
		return fmt.Errorf("Drop of a word %q with part of speech %q left %s", word, pos, dumpTokens(ts))
	}
	rec.NonTrivial()
	return nil
}

func init() {
	reg("C10", "splitter settings", 100, 2400, 12000, genSplitCase, checkC10)
	reg("C11", "chopped reads", 100, 800, 9000, genChopCase, checkC11)
	reg("C12", "patterns", 100, 2400, 12000, genFilterCase, checkC12)
	reg("C13", "generated dictionaries", 60, 500, 5000, genKeepCase, checkC13)
	reg("C14", "generated dictionaries", 60, 400, 4000, genJaCase(false), checkC14)
	reg("C14", "IPA", 40, 80, 1500, genJaCase(true), checkC14)
	reg("C14", "many words of IPA", 2, 32, 200, genJaWords, checkC14)
	reg("C14", "default lists", 100, 24, 200, genListCase, checkList)
}
