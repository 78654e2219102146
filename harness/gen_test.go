package checks

import (
	_ "embed"
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- dictionaries

// WordSpec is an entry of a generated system dictionary.
type WordSpec struct {
	S       BS
	L, R, W int
	POS     []BS
	C       []BS `json:",omitempty"`
}

// UnkSpec is an unknown word entry of a category.
type UnkSpec struct {
	L, R, W int
	F       []BS
}

// CatSpec is a character category.
type CatSpec struct {
	Invoke, Group bool
	Unk           []UnkSpec
}

// RuneCat puts a character into a category.
type RuneCat struct {
	R rune
	C int
}

// DictSpec describes a generated dictionary. Everything the model needs is here.
type DictSpec struct {
	Words      []WordSpec
	Cats       []CatSpec
	RuneCat    []RuneCat
	TblLen     int
	N          int   // number of context IDs
	Conn       []int // Conn[left*N+right]
	NoContents bool  `json:",omitempty"`
	Meta       map[string]int
	UnkMeta    map[string]int
}

// UserSpec is an entry of a generated user dictionary.
type UserSpec struct {
	S      BS
	Tokens []BS
	Yomi   []BS
	Pos    BS
}

func strs(bs []BS) []string {
	ret := make([]string, len(bs))
	for i, v := range bs {
		ret[i] = string(v)
	}
	return ret
}

func bss(ss []string) []BS {
	ret := make([]BS, len(ss))
	for i, v := range ss {
		ret[i] = BS(v)
	}
	return ret
}

func toMeta(m map[string]int) dict.ContentsMeta {
	if m == nil {
		return nil
	}
	ret := dict.ContentsMeta{}
	for k, v := range m {
		ret[k] = int8(v)
	}
	return ret
}

// normalise sorts the words as a dictionary has to, so that index = ID.
func (s *DictSpec) normalise() {
	sort.SliceStable(s.Words, func(i, j int) bool { return s.Words[i].S < s.Words[j].S })
}

// Build makes the dictionary object for the tokenizer.
func (s *DictSpec) Build() *dict.Dict {
	s.normalise()
	keys := make([]string, len(s.Words))
	d := &dict.Dict{}
	names := map[string]dict.POSID{}
	d.POSTable.NameList = []string{}
	for i, w := range s.Words {
		keys[i] = string(w.S)
		d.Morphs = append(d.Morphs, dict.Morph{LeftID: int16(w.L), RightID: int16(w.R), Weight: int16(w.W)})
		var pos dict.POS
		for _, p := range w.POS {
			id, ok := names[string(p)]
			if !ok {
				id = dict.POSID(len(d.POSTable.NameList))
				names[string(p)] = id
				d.POSTable.NameList = append(d.POSTable.NameList, string(p))
			}
			pos = append(pos, id)
		}
		d.POSTable.POSs = append(d.POSTable.POSs, pos)
		if !s.NoContents {
			d.Contents = append(d.Contents, strs(w.C))
		}
	}
	idx, err := dict.BuildIndexTable(keys)
	must(err)
	d.Index = idx
	d.ContentsMeta = toMeta(s.Meta)
	d.Connection = dict.ConnectionTable{Row: int64(s.N), Col: int64(s.N), Vec: make([]int16, s.N*s.N)}
	for l := 0; l < s.N; l++ {
		for r := 0; r < s.N; r++ {
			d.Connection.Vec[s.N*l+r] = int16(s.Conn[l*s.N+r])
		}
	}
	d.CharCategory = make([]byte, s.TblLen)
	for _, rc := range s.RuneCat {
		if int(rc.R) < s.TblLen {
			d.CharCategory[rc.R] = byte(rc.C)
		}
	}
	d.UnkDict.Index = map[int32]int32{}
	d.UnkDict.IndexDup = map[int32]int32{}
	d.UnkDict.ContentsMeta = toMeta(s.UnkMeta)
	for i, c := range s.Cats {
		d.CharClass = append(d.CharClass, fmt.Sprintf("CAT%d", i))
		d.InvokeList = append(d.InvokeList, c.Invoke)
		d.GroupList = append(d.GroupList, c.Group)
		d.UnkDict.Index[int32(i)] = int32(len(d.UnkDict.Morphs))
		if len(c.Unk) > 1 {
			d.UnkDict.IndexDup[int32(i)] = int32(len(c.Unk) - 1)
		}
		for _, u := range c.Unk {
			d.UnkDict.Morphs = append(d.UnkDict.Morphs, dict.Morph{LeftID: int16(u.L), RightID: int16(u.R), Weight: int16(u.W)})
			d.UnkDict.Contents = append(d.UnkDict.Contents, strs(u.F))
		}
	}
	return d
}

// BuildUser makes the user dictionary object; nil if there are no entries.
func BuildUser(us []UserSpec) *dict.UserDict {
	if len(us) == 0 {
		return nil
	}
	var r dict.UserDictRecords
	for _, u := range us {
		v := dict.UserDicRecord{Text: string(u.S), Tokens: strs(u.Tokens), Yomi: strs(u.Yomi), Pos: string(u.Pos)}
		if len(v.Tokens) != len(v.Yomi) || len(v.Tokens) == 0 { // see below
			v.Tokens, v.Yomi = []string{"?"}, []string{"?"}
		}
		r = append(r, v)
	}
	ret, err := r.NewUserDict()
	must(err)
	// The contents that can only be put in by hand; r is sorted as they are.
	for i, v := range r {
		for _, u := range us {
			if string(u.S) == v.Text && (len(u.Tokens) != len(u.Yomi) || len(u.Tokens) == 0) {
				ret.Contents[i] = dict.UserDictContent{Tokens: strs(u.Tokens), Yomi: strs(u.Yomi), Pos: string(u.Pos)}
			}
		}
	}
	return ret
}

// Setup is a tokenizer: a dictionary (generated or real), user entries, options.
type Setup struct {
	Real string    `json:",omitempty"` // "ipa", "uni", "ipa-shrink", "uni-shrink"
	Dict *DictSpec `json:",omitempty"`
	User []UserSpec
	Omit bool
}

// needShrink: load the shrunk dictionaries before the full ones. (Once the full
// one is loaded, the dictionary packages return it for the shrunk one too.)
var needShrink bool

var (
	realMu    sync.Mutex
	realDicts = map[string]*dict.Dict{}
)

func realDict(name string) *dict.Dict {
	realMu.Lock()
	defer realMu.Unlock()
	if d, ok := realDicts[name]; ok {
		return d
	}
	var d *dict.Dict
	if needShrink {
		if strings.HasPrefix(name, "ipa") {
			ipa.DictShrink()
		} else {
			uni.DictShrink()
		}
	}
	switch name {
	case "ipa":
		d = ipa.Dict()
	case "ipa-shrink":
		d = ipa.DictShrink()
	case "uni":
		d = uni.Dict()
	case "uni-shrink":
		d = uni.DictShrink()
	default:
		panic("unknown dictionary " + name)
	}
	realDicts[name] = d
	return d
}

func (s *Setup) dicts() (*dict.Dict, *dict.UserDict) {
	u := BuildUser(s.User)
	if s.Real != "" {
		return realDict(s.Real), u
	}
	return s.Dict.Build(), u
}

func newTokenizer(d *dict.Dict, u *dict.UserDict, omit bool) *tokenizer.Tokenizer {
	var opts []tokenizer.Option
	if u != nil {
		opts = append(opts, tokenizer.UserDict(u))
	}
	if omit {
		opts = append(opts, tokenizer.OmitBosEos())
	}
	t, err := tokenizer.New(d, opts...)
	must(err)
	return t
}

// Tokenizer builds the tokenizer and its model.
func (s *Setup) Tokenizer() (*tokenizer.Tokenizer, *Model) {
	d, u := s.dicts()
	m := &Model{}
	if s.Real != "" {
		m = modelOfReal(d)
	} else {
		m = modelOfSpec(s.Dict)
	}
	m.setUser(s.User)
	return newTokenizer(d, u, s.Omit), m
}

// ---------------------------------------------------------------- generators

// Characters of all encoded lengths; categories are drawn per dictionary.
var alphabet = []rune{
	'a', 'b', 'c', '1', ' ', '"', '\\', '<', '\n', '.', '/',
	'é', 'ñ', 'あ', 'い', 'う', 'ー', 'ア', 'カ', '漢', '字', '東', '京', '々', '〇', '。',
	'\uFFFD', '\u3000', '𠮷', '😀', '\U0002A6D6', '\U0010FFFF',
}

// Characters at and around the edges of the ideographs (the search-mode penalty).
var nearIdeographs = []rune{
	'々', '〆', '〇', '〈', '\u3020', '〡', '〩', '\u302A', '\u3037', '〸', '〺', '〻', '〼', 'ヶ', 'ヵ', '㋿', '㌀', '\u33FF', '㐀', '\u4DBF', '\u4DC0',
	'一', '\u9FFF', '\uA000', '\uF8FF', '豈', '\uFAD9', '\uFB00', '⺀', '⼀', '⿰', 'ー', '０', 'Ａ', '\U00016FE4', '\U00016FE3', '\U00017000', '\U0001B170', '\U0001B2FB', '\U0001F201',
	'\U00020000', '\U0002A6DF', '\U0002A6E0', '\U0002F800', '\U0002FA1D', '\U0002FA1E', '\U00030000', '\U0003134A', '\U00031350', '\U000E0100',
}

// byte sequences that are not valid UTF-8 by themselves.
var invalidBytes = []string{"\xff", "\xe3", "\xe3\x81", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf8", "\xbf\xbd"}

func pick[T any](t *rapid.T, name string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, name)]
}

func chance(t *rapid.T, name string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-percent
}

func intr(t *rapid.T, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) }

// genCost draws a cost; scale is drawn per dictionary.
func genCost(t *rapid.T, scale int) int {
	switch scale {
	case 0: // many ties
		return intr(t, "cost", -2, 2)
	case 1:
		return intr(t, "cost", -1000, 1000)
	case 2: // the search-mode penalties matter
		return pick(t, "cost", []int{0, 1, -1, 1699, 1700, 1701, 2999, 3000, 3001, 3400, 6000, -3000, 9000, 5100})
	case 3:
		return intr(t, "cost", 0, 12000)
	}
	return pick(t, "cost", []int{0, 1, -1, 32767, -32768, 32766, 20000, -20000})
}

type dictCtx struct {
	alpha []rune // characters used by this dictionary's words
	scale int
}

func genWord(t *rapid.T, ctx dictCtx, max int) string {
	if max >= 3 && chance(t, "special", 2) {
		return pick(t, "specialword", []string{"BOS", "EOS"})
	}
	n := intr(t, "wlen", 1, max)
	var b strings.Builder
	if max >= 3 && chance(t, "same", 25) { // a run of one character
		r := pick(t, "r", ctx.alpha)
		for i := 0; i < n; i++ {
			b.WriteRune(r)
		}
		return b.String()
	}
	for i := 0; i < n; i++ {
		b.WriteRune(pick(t, "r", ctx.alpha))
	}
	return b.String()
}

var posNames = []BS{"名詞", "動詞", "形容詞", "助詞", "記号", "*", "一般", "自立", "a\"b", "x\\y", ""}
var featNames = []BS{"*", "ヨミ", "あ", "base", "a,b", "", "\"q\"", "基本形", "五段", "a\tb", " "}

func genFeatures(t *rapid.T, lo, hi int, from []BS) []BS {
	n := intr(t, "nf", lo, hi)
	ret := make([]BS, n)
	for i := range ret {
		ret[i] = pick(t, "f", from)
	}
	return ret
}

func genMeta(t *rapid.T, unk bool) map[string]int {
	if chance(t, "nometa", 10) {
		return nil
	}
	m := map[string]int{}
	for _, k := range []string{dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex} {
		if chance(t, "has", 70) {
			m[k] = intr(t, "at", -1, 8)
		}
	}
	if unk {
		// Dictionaries designate the part of speech by both or by neither.
		if chance(t, "haspos", 80) {
			m[dict.POSStartIndex] = intr(t, "start", 0, 2)
			m[dict.POSHierarchy] = intr(t, "hier", 0, 5)
		}
	}
	return m
}

func genAlphabet(t *rapid.T) []rune {
	n := intr(t, "nalpha", 1, 7)
	ret := make([]rune, n)
	for i := range ret {
		if chance(t, "anyrune", 12) {
			ret[i] = genAnyRune(t)
			continue
		}
		if chance(t, "near", 6) {
			ret[i] = pick(t, "nearrune", nearIdeographs)
			continue
		}
		ret[i] = pick(t, "alpha", alphabet)
	}
	return ret
}

func genDict(t *rapid.T) (*DictSpec, dictCtx) {
	ctx := dictCtx{alpha: genAlphabet(t), scale: intr(t, "scale", 0, 4)}
	s := &DictSpec{N: intr(t, "ncontext", 1, 4)}
	ncat := intr(t, "ncat", 1, 4)
	for i := 0; i < ncat; i++ {
		c := CatSpec{Invoke: chance(t, "invoke", 40), Group: chance(t, "group", 60)}
		for j, n := 0, intr(t, "nunk", 1, 3); j < n; j++ {
			c.Unk = append(c.Unk, UnkSpec{L: intr(t, "l", 0, s.N-1), R: intr(t, "r", 0, s.N-1), W: genCost(t, ctx.scale), F: genFeatures(t, 0, 7, append(posNames, featNames...))})
		}
		s.Cats = append(s.Cats, c)
	}
	seen := map[rune]bool{}
	for _, r := range append(append([]rune{0, '\uFFFD', 'z', 'ん', '語'}, ctx.alpha...), alphabet...) {
		if !seen[r] {
			seen[r] = true
			s.RuneCat = append(s.RuneCat, RuneCat{r, intr(t, "cat", 0, ncat-1)})
		}
	}
	s.TblLen = pick(t, "tbllen", []int{0x10000, 0x20BB8, 0x3100, 0x80, 0xFFFD, 0x110000})
	posDepth := intr(t, "posdepth", 1, 5)
	for i, n := 0, intr(t, "nwords", 0, 14); i < n; i++ {
		w := WordSpec{S: BS(genWord(t, ctx, pick(t, "maxw", []int{1, 2, 3, 5, 11}))),
			L: intr(t, "l", 0, s.N-1), R: intr(t, "r", 0, s.N-1), W: genCost(t, ctx.scale),
			POS: genFeatures(t, posDepth, posDepth, posNames), C: genFeatures(t, 0, 4, featNames)}
		s.Words = append(s.Words, w)
		if chance(t, "dup", 20) {
			w2 := w
			w2.L, w2.R, w2.W = intr(t, "l", 0, s.N-1), intr(t, "r", 0, s.N-1), genCost(t, ctx.scale)
			w2.POS = genFeatures(t, posDepth, posDepth, posNames)
			s.Words = append(s.Words, w2)
		}
	}
	s.Conn = make([]int, s.N*s.N)
	for i := range s.Conn {
		s.Conn[i] = genCost(t, ctx.scale)
	}
	s.NoContents = chance(t, "nocontents", 15)
	s.Meta, s.UnkMeta = genMeta(t, false), genMeta(t, true)
	s.normalise()
	return s, ctx
}

func validUserKey(k string) bool {
	return k != "" && strings.TrimSpace(k) == k && !strings.Contains(k, "\x00")
}

func genUser(t *rapid.T, ctx dictCtx, words []WordSpec, max int) []UserSpec {
	n := intr(t, "nuser", 0, max)
	if chance(t, "nouser", 45) {
		n = 0
	}
	seen := map[string]bool{}
	var ret []UserSpec
	for i := 0; i < n; i++ {
		k := genWord(t, ctx, pick(t, "maxu", []int{1, 2, 4, 9}))
		if len(words) > 0 && chance(t, "sysword", 25) {
			k = string(pick(t, "w", words).S)
		}
		k = strings.TrimSpace(k)
		if !validUserKey(k) || seen[k] {
			continue
		}
		seen[k] = true
		u := UserSpec{S: BS(k), Pos: pick(t, "upos", append([]BS{"カスタム", "a\tb", " x ", "<u>", "名詞/一般"}, posNames...))}
		for j, m := 0, intr(t, "nut", 1, 3); j < m; j++ {
			u.Tokens = append(u.Tokens, pick(t, "ut", []BS{"x", "yy", "漢", "", "a/b", BS(k)}))
			u.Yomi = append(u.Yomi, pick(t, "uy", []BS{"ヨミ", "エ", "", "b/c"}))
		}
		if chance(t, "uneven", 8) { // the text format wants as many readings as parts; a dictionary made by hand does not
			u.Tokens = u.Tokens[:intr(t, "nparts", 0, len(u.Tokens))]
			u.Yomi = u.Yomi[intr(t, "nyomi", 0, len(u.Yomi)):]
		}
		ret = append(ret, u)
	}
	sort.Slice(ret, func(i, j int) bool { return ret[i].S < ret[j].S })
	return ret
}

// genText draws an input for a generated dictionary.
func genText(t *rapid.T, ctx dictCtx, words []WordSpec, user []UserSpec, maxPieces int) BS {
	var b strings.Builder
	for i, n := 0, intr(t, "pieces", 0, maxPieces); i < n; i++ {
		switch k := intr(t, "piece", 0, 19); {
		case k < 8 && len(words) > 0:
			b.WriteString(string(pick(t, "w", words).S))
		case k < 10 && len(user) > 0:
			b.WriteString(string(pick(t, "u", user).S))
		case k < 12 && len(words) > 0: // a proper prefix of a word
			w := []rune(string(pick(t, "w", words).S))
			b.WriteString(string(w[:intr(t, "cut", 0, len(w))]))
		case k < 16:
			b.WriteRune(pick(t, "c", ctx.alpha))
		case k < 17:
			b.WriteString(strings.Repeat(string(pick(t, "c", ctx.alpha)), intr(t, "run", 2, 12)))
		case k < 18:
			b.WriteString(pick(t, "inv", invalidBytes))
		case k < 19:
			b.WriteRune(pick(t, "c", alphabet))
		default:
			if chance(t, "any", 40) {
				b.WriteRune(genAnyRune(t))
				continue
			}
			if chance(t, "special", 25) {
				b.WriteString(pick(t, "specialtext", []string{"BOS", "EOS"}))
				continue
			}
			b.WriteRune(pick(t, "odd", []rune{0, 'z', 'ん', '語', '\uFEFF', '\u0301', '\u200B', '\U00020000', '\r'}))
		}
	}
	return BS(b.String())
}

//go:embed data/bocchan.txt
var corpus string

var (
	corpusOnce sync.Once
	corpusR    []rune
)

func corpusRunes() []rune {
	corpusOnce.Do(func() { corpusR = []rune(corpus) })
	return corpusR
}

var phrases = []string{
	"すもももももももものうち", "関西国際空港", "日本経済新聞を読む", "朝青龍が勝った", "デジカメを買った", "人魚は、南の方の海にばかり棲んでいるのではありません。",
	"ソフトウェアエンジニアリング", "株式会社日立製作所", "ずっと昔そこに住んでいた", "東京都庁", "国立情報学研究所", "猫", "は", "です", "美しい", "走った", "食べない",
	"ABCabc", "123,456.78", "http://example.com/", "ｶﾀｶﾅ", "ヽヾ々〇", "！？", "「」", "\t", "  ", "\u3000", "\n", "𠮷野家", "😀😀", "é", "Ωμ", "한글", "中文", "привет", "①②",
	"アイウエオカキクケコサシスセソ", "ーーーー", "………", "一二三四五六七八九十百千万", "\"", "\\", "<b>", "&amp;", "',", "ぁぃぅ", "ッッッ", "々々々々", "\uFFFD", "\x00", "e\u0301", "BOS", "EOS", "か\u3099", "👨\u200d👩", "‼",
	"100%", "%s%d%v", "%", "a,b,c", "{{.}}", "$(x)", "`", "\x1b[31m", "\r", "#", "-", "-v", "=", "a/b", "*",
}

// genJapanese draws an input for the real dictionaries.
func genJapanese(t *rapid.T, maxPieces int) BS {
	var b strings.Builder
	cr := corpusRunes()
	for i, n := 0, intr(t, "pieces", 0, maxPieces); i < n; i++ {
		switch k := intr(t, "piece", 0, 19); {
		case k < 8:
			off := intr(t, "off", 0, len(cr)-1)
			end := off + intr(t, "len", 1, 40)
			if end > len(cr) {
				end = len(cr)
			}
			b.WriteString(string(cr[off:end]))
		case k < 14:
			b.WriteString(pick(t, "phrase", phrases))
		case k < 15: // ideographs
			for j, m := 0, intr(t, "n", 1, 12); j < m; j++ {
				b.WriteRune(rune(intr(t, "kanji", 0x4E00, 0x9FFF)))
			}
		case k < 16: // katakana
			for j, m := 0, intr(t, "n", 1, 14); j < m; j++ {
				b.WriteRune(rune(intr(t, "kata", 0x30A1, 0x30FE)))
			}
		case k < 17: // hiragana
			for j, m := 0, intr(t, "n", 1, 14); j < m; j++ {
				b.WriteRune(rune(intr(t, "hira", 0x3041, 0x309E)))
			}
		case k < 18:
			b.WriteString(pick(t, "inv", invalidBytes))
		case k < 19:
			if chance(t, "any", 60) {
				b.WriteRune(genAnyRune(t))
			} else {
				b.WriteRune(rapid.Rune().Draw(t, "rune"))
			}
		default:
			b.WriteString(strings.Repeat(string(pick(t, "c", alphabet)), intr(t, "run", 1, 20)))
		}
	}
	return BS(b.String())
}

func genSynthSetup(t *rapid.T, maxUser int) (Setup, dictCtx) {
	d, ctx := genDict(t)
	s := Setup{Dict: d, Omit: rapid.Bool().Draw(t, "omit")}
	s.User = genUser(t, ctx, d.Words, maxUser)
	return s, ctx
}

func genRealUser(t *rapid.T, max int) []UserSpec {
	seen := map[string]bool{}
	var ret []UserSpec
	cr := corpusRunes()
	for i, n := 0, intr(t, "nuser", 0, max); i < n; i++ {
		var k string
		if chance(t, "fromcorpus", 70) {
			off := intr(t, "uoff", 0, len(cr)-12)
			k = string(cr[off : off+intr(t, "ulen", 1, 10)])
		} else {
			k = pick(t, "uphrase", phrases)
		}
		k = strings.TrimSpace(k)
		if !validUserKey(k) || seen[k] {
			continue
		}
		seen[k] = true
		ret = append(ret, UserSpec{S: BS(k), Tokens: []BS{BS(k), "部分"}, Yomi: []BS{"ヨミ", "ブブン"}, Pos: pick(t, "upos", []BS{"カスタム名詞", "名詞", "動詞", "a\tb", " x ", "<u>", "名詞/一般", ""})})
	}
	sort.Slice(ret, func(i, j int) bool { return ret[i].S < ret[j].S })
	return ret
}

func genRealSetup(t *rapid.T, names []string, maxUser int) Setup {
	return Setup{Real: pick(t, "dict", names), Omit: rapid.Bool().Draw(t, "omit"), User: genRealUser(t, maxUser)}
}

// genRealText includes user entries in the text.
func genRealText(t *rapid.T, user []UserSpec, maxPieces int) BS {
	x := genJapanese(t, maxPieces)
	for i, n := 0, intr(t, "nuw", 0, 3); i < n && len(user) > 0; i++ {
		u := string(pick(t, "uw", user).S)
		at := intr(t, "at", 0, len(x))
		for at > 0 && at < len(x) && !utf8.RuneStart(x[at]) {
			at--
		}
		x = x[:at] + BS(u) + x[at:]
	}
	return x
}

var modes = []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}

var pickKeys = []string{dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex}
