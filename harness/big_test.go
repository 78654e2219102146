package checks

import (
	"math/rand/v2"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"pgregory.net/rapid"
)

// Large cases. Their sizes are drawn with rapid, so that they shrink, and their
// contents come from a seeded source, so that drawing them is cheap. The case
// that is checked and saved holds the expanded contents.

func newRand(t *rapid.T) *rand.Rand {
	return rand.New(rand.NewPCG(rapid.Uint64().Draw(t, "seed"), 7))
}

func rpick[T any](r *rand.Rand, xs []T) T { return xs[r.IntN(len(xs))] }

// runeRanges covers scripts, marks, joiners, spaces, private use and all encoded lengths.
var runeRanges = [][2]rune{
	{0x20, 0x7E}, {0x01, 0x1F}, {0x80, 0xFF}, {0x100, 0x17F}, {0x300, 0x36F}, {0x370, 0x52F}, {0x5D0, 0x6FF}, {0x7F0, 0x7FF}, {0x800, 0x810},
	{0x900, 0xE7F}, {0x1100, 0x11FF}, {0x2000, 0x206F}, {0x20A0, 0x20FF}, {0x2100, 0x21FF}, {0x2460, 0x24FF}, {0x2E80, 0x2FDF}, {0x3000, 0x303F},
	{0x3040, 0x309F}, {0x30A0, 0x30FF}, {0x3130, 0x318F}, {0x3200, 0x33FF}, {0x3400, 0x4DBF}, {0x4E00, 0x9FFF}, {0xAC00, 0xD7A3}, {0xE000, 0xF8FF},
	{0xF900, 0xFAFF}, {0xFE00, 0xFE4F}, {0xFF00, 0xFFEF}, {0xFFF0, 0xFFFF}, {0x10000, 0x100FF}, {0x1F300, 0x1FAFF}, {0x20000, 0x2FA1F}, {0x30000, 0x3134A}, {0xE0100, 0xE01EF}, {0x10FFF0, 0x10FFFF},
}

func genAnyRune(t *rapid.T) rune {
	g := pick(t, "range", runeRanges)
	return rune(intr(t, "rune", int(g[0]), int(g[1])))
}

func randRune(r *rand.Rand) rune {
	g := rpick(r, runeRanges)
	return g[0] + rune(r.IntN(int(g[1]-g[0])+1))
}

func randCost(r *rand.Rand, scale int) int {
	switch scale {
	case 0:
		return r.IntN(5) - 2
	case 1:
		return r.IntN(2001) - 1000
	case 2:
		return rpick(r, []int{0, 1, -1, 1699, 1700, 1701, 2999, 3000, 3001, 3400, 6000, -3000, 9000, 5100})
	case 3:
		return r.IntN(12000)
	}
	return r.IntN(65536) - 32768
}

func randWord(r *rand.Rand, alpha []rune, max int) string {
	n := 1 + r.IntN(max)
	if r.IntN(4) == 0 {
		return strings.Repeat(string(rpick(r, alpha)), n)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rpick(r, alpha))
	}
	return b.String()
}

func randFeatures(r *rand.Rand, n int, from []BS) []BS {
	ret := make([]BS, n)
	for i := range ret {
		ret[i] = rpick(r, from)
	}
	return ret
}

// genBigSetup draws a tokenizer with large tables.
func genBigSetup(t *rapid.T) (Setup, dictCtx, *rand.Rand) {
	var (
		nalpha = pick(t, "balpha", []int{2, 8, 40, 150})
		nwords = pick(t, "bwords", []int{5, 60, 250, 700})
		homo   = pick(t, "bhomo", []int{1, 3, 12, 70})
		npos   = pick(t, "bpos", []int{3, 40, 300})
		depth  = intr(t, "bdepth", 1, 8)
		ncont  = pick(t, "bcont", []int{0, 3, 9, 20})
		nctx   = pick(t, "bctx", []int{1, 5, 30})
		ncat   = pick(t, "bcat", []int{1, 5, 12, 40})
		nunk   = pick(t, "bunk", []int{1, 4, 20, 300})
		maxw   = pick(t, "bmaxw", []int{2, 6, 15, 60, 60, 700})
		nuser  = pick(t, "buser", []int{0, 0, 3, 40, 200})
		maxu   = pick(t, "bmaxu", []int{2, 6, 30, 300})
	)
	ctx := dictCtx{scale: intr(t, "scale", 0, 4)}
	omit := rapid.Bool().Draw(t, "omit")
	r := newRand(t)
	for i := 0; i < nalpha; i++ {
		if r.IntN(3) == 0 {
			ctx.alpha = append(ctx.alpha, rpick(r, alphabet))
		} else {
			ctx.alpha = append(ctx.alpha, randRune(r))
		}
	}
	d := &DictSpec{N: nctx, TblLen: rpick(r, []int{0x10000, 0x20000, 0x110000, 0x3400})}
	for i := 0; i < ncat; i++ {
		c := CatSpec{Invoke: r.IntN(3) == 0, Group: r.IntN(2) == 0}
		for j, n := 0, 1+r.IntN(nunk); j < n; j++ {
			c.Unk = append(c.Unk, UnkSpec{L: r.IntN(nctx), R: r.IntN(nctx), W: randCost(r, ctx.scale), F: randFeatures(r, r.IntN(depth+ncont+1), append(posNames, featNames...))})
		}
		d.Cats = append(d.Cats, c)
	}
	seen := map[rune]bool{}
	for _, c := range append([]rune{0, '\uFFFD', 'z'}, ctx.alpha...) {
		if !seen[c] {
			seen[c] = true
			d.RuneCat = append(d.RuneCat, RuneCat{c, r.IntN(ncat)})
		}
	}
	pos := append([]BS{}, posNames...)
	for i := 0; i < npos; i++ {
		pos = append(pos, BS(randWord(r, ctx.alpha, 3)))
	}
	for len(d.Words) < nwords {
		s := BS(randWord(r, ctx.alpha, maxw))
		for h, n := 0, 1+r.IntN(homo); h < n && len(d.Words) < nwords; h++ {
			d.Words = append(d.Words, WordSpec{S: s, L: r.IntN(nctx), R: r.IntN(nctx), W: randCost(r, ctx.scale),
				POS: randFeatures(r, depth, pos), C: randFeatures(r, r.IntN(ncont+1), featNames)})
		}
	}
	d.Conn = make([]int, nctx*nctx)
	for i := range d.Conn {
		d.Conn[i] = randCost(r, ctx.scale)
	}
	d.Meta, d.UnkMeta = map[string]int{}, map[string]int{}
	for _, k := range pickKeys {
		d.Meta[k] = r.IntN(depth+ncont+2) - 1
		d.UnkMeta[k] = r.IntN(depth+ncont+2) - 1
	}
	d.UnkMeta[dict.POSStartIndex], d.UnkMeta[dict.POSHierarchy] = r.IntN(3), r.IntN(depth+1)
	d.normalise()
	s := Setup{Dict: d, Omit: omit}
	us := map[string]bool{}
	for i := 0; i < nuser; i++ {
		k := randWord(r, ctx.alpha, maxu)
		if r.IntN(3) == 0 {
			k = string(rpick(r, d.Words).S)
		}
		k = strings.TrimSpace(k)
		if !validUserKey(k) || us[k] {
			continue
		}
		us[k] = true
		u := UserSpec{S: BS(k), Pos: rpick(r, pos)}
		for j, n := 0, 1+r.IntN(rpick(r, []int{1, 4, 30})); j < n; j++ {
			u.Tokens = append(u.Tokens, rpick(r, []BS{"x", "yy", "漢", "", "a/b", BS(k)}))
			u.Yomi = append(u.Yomi, rpick(r, []BS{"ヨミ", "エ", "", "b/c"}))
		}
		s.User = append(s.User, u)
	}
	sort.Slice(s.User, func(i, j int) bool { return s.User[i].S < s.User[j].S })
	return s, ctx, r
}

// randText makes a text of about n characters.
func randText(r *rand.Rand, ctx dictCtx, s Setup, n int) BS {
	var b strings.Builder
	for have := 0; have < n; {
		var p string
		switch k := r.IntN(20); {
		case k < 9 && len(s.Dict.Words) > 0:
			p = string(rpick(r, s.Dict.Words).S)
		case k < 11 && len(s.User) > 0:
			p = string(rpick(r, s.User).S)
		case k < 12 && len(s.Dict.Words) > 0:
			w := []rune(string(rpick(r, s.Dict.Words).S))
			p = string(w[:r.IntN(len(w)+1)])
		case k < 17:
			p = string(rpick(r, ctx.alpha))
		case k < 18:
			p = strings.Repeat(string(rpick(r, ctx.alpha)), 1+r.IntN(40))
		case k < 19:
			p = rpick(r, invalidBytes)
		default:
			p = string(randRune(r))
		}
		b.WriteString(p)
		have += utf8.RuneCountInString(p)
		if p == "" {
			have++
		}
	}
	return BS(b.String())
}

func genBigCase(lengths ...int) func(t *rapid.T) TokCase {
	return func(t *rapid.T) TokCase {
		s, ctx, r := genBigSetup(t)
		n := pick(t, "textlen", lengths)
		return TokCase{Setup: s, Inputs: []BS{randText(r, ctx, s, 1+r.IntN(n))}}
	}
}

// genSizedCase: ordinary small or real dictionaries and texts around powers of two.
func genSizedCase(lengths ...int) func(t *rapid.T) TokCase {
	return func(t *rapid.T) TokCase {
		var c TokCase
		var unit string
		if chance(t, "real", 40) {
			c.Setup = genRealSetup(t, []string{"ipa"}, 2)
			unit = string(genRealText(t, c.Setup.User, 12))
		} else {
			s, ctx := genSynthSetup(t, 3)
			c.Setup = s
			unit = string(genText(t, ctx, s.Dict.Words, s.User, 12))
		}
		n := pick(t, "chars", lengths) + intr(t, "delta", -3, 3)
		c.Inputs = []BS{BS(stretch(unit, n))}
		return c
	}
}

// genExtremeCase: accumulated costs close to the ends of the 32-bit range.
func genExtremeCase(t *rapid.T) TokCase {
	sign := pick(t, "sign", []int{1, -1})
	spread := pick(t, "spread", []int{1, 3, 300})
	n := pick(t, "n", []int{1000, 9000, 16400, 17000, 24000, 32000}) + intr(t, "more", 0, 300)
	nctx, homo, two := intr(t, "nctx", 1, 3), intr(t, "homo", 1, 4), intr(t, "two", 0, 2)
	r := newRand(t)
	cost := func() int { return sign * (32767 - r.IntN(spread)) }
	d := &DictSpec{N: nctx, TblLen: 0x100, Cats: []CatSpec{{Unk: []UnkSpec{{W: cost(), L: r.IntN(nctx), R: r.IntN(nctx), F: []BS{"名詞"}}}}}}
	for _, c := range []string{"a", "b", "c"} {
		for i := 0; i < homo; i++ {
			d.Words = append(d.Words, WordSpec{S: BS(c), L: r.IntN(nctx), R: r.IntN(nctx), W: cost(), POS: []BS{"名詞"}})
		}
	}
	for i := 0; i < two; i++ {
		d.Words = append(d.Words, WordSpec{S: BS(randWord(r, []rune("abcd"), 2)), L: r.IntN(nctx), R: r.IntN(nctx), W: cost(), POS: []BS{"名詞"}})
	}
	for i := 0; i < nctx*nctx; i++ {
		d.Conn = append(d.Conn, cost())
	}
	d.normalise()
	var u strings.Builder
	for i := 0; i < 40; i++ {
		u.WriteRune(rpick(r, []rune("abcd")))
	}
	return TokCase{Setup: Setup{Dict: d, Omit: rapid.Bool().Draw(t, "omit")}, Inputs: []BS{BS(stretch(u.String(), n))}}
}

// genManyUsers: user dictionaries of up to more than 65536 entries.
func genManyUsers(t *rapid.T) TokCase {
	s, ctx := genSynthSetup(t, 0)
	n := pick(t, "users", []int{200, 257, 300, 1000, 3000, 3000, 66000})
	pieces := intr(t, "pieces", 1, 60)
	r := newRand(t)
	var keys []string
	seen := map[string]bool{}
	for len(keys) < n {
		k := string([]rune{0x4E00 + rune(r.IntN(3000)), 0x4E00 + rune(r.IntN(3000))})
		if r.IntN(10) == 0 {
			k += string(rpick(r, ctx.alpha))
		}
		if k = strings.TrimSpace(k); !validUserKey(k) || seen[k] {
			continue
		}
		seen[k] = true
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		s.User = append(s.User, UserSpec{S: BS(k), Tokens: []BS{BS(k)}, Yomi: []BS{BS(strings.Repeat("ア", i%3+1))}, Pos: posNames[i%len(posNames)]})
	}
	var b strings.Builder
	for i := 0; i < pieces; i++ {
		switch r.IntN(4) {
		case 0:
			b.WriteRune(rpick(r, ctx.alpha))
		case 1:
			b.WriteString(keys[len(keys)-1-r.IntN(min(40, n))])
		default:
			b.WriteString(rpick(r, keys))
		}
	}
	return TokCase{Setup: s, Inputs: []BS{BS(b.String())}}
}

// stretch repeats the text to exactly n characters.
func stretch(unit string, n int) string {
	if n <= 0 || unit == "" {
		return unit
	}
	k := utf8.RuneCountInString(unit)
	s := strings.Repeat(unit, n/k+1)
	i := 0
	for p := range s {
		if i == n {
			return s[:p]
		}
		i++
	}
	return s
}

// genManyWords: texts made of headwords spread over the whole dictionary.
func genManyWords(name string) func(t *rapid.T) TokCase {
	return func(t *rapid.T) TokCase {
		heads := headwords(name)
		c := TokCase{Setup: Setup{Real: name, Omit: rapid.Bool().Draw(t, "omit")}}
		n := intr(t, "nheads", 1, 300)
		r := newRand(t)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(rpick(r, heads))
			if r.IntN(3) == 0 {
				b.WriteString(rpick(r, []string{"、", "。", "は", "を", "\n", " "}))
			}
		}
		c.Inputs = []BS{BS(b.String())}
		return c
	}
}

var headCache = map[string][]string{}

// headwords are the base forms found in the dictionary's contents.
func headwords(name string) []string {
	if h, ok := headCache[name]; ok {
		return h
	}
	d := realDict(name)
	md := modelOfReal(d)
	base, ok := md.meta[dict.BaseFormIndex]
	if !ok {
		panic("no base forms in " + name)
	}
	var ret []string
	for id := range d.Morphs {
		if n := base - len(d.POSTable.POSs[id]); n >= 0 && n < len(d.Contents[id]) && d.Contents[id][n] != "*" {
			ret = append(ret, d.Contents[id][n])
		}
	}
	headCache[name] = ret
	return ret
}
