package checks

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C25

// CostCase is work done on a long text and on a 32nd of it, 32 times.
type CostCase struct {
	Setup Setup
	Piece BS // the text is made of this
	Glue  BS // what ends each repetition of the piece
	Op    string
	N     int // characters of the long text
}

const costParts = 32

var costOps = []string{"normal", "search", "extended", "wakati", "dot", "graph", "accessors", "keep", "drop", "words", "ja", "ja drop", "keep any", "drop any", "split", "split all", "split whole"}

var costRealOps = append([]string{"tokenize", "tokenize json", "tokenize split", "sentence", "lattice", "lattice -v", "api", "page"}, costOps...)

func genCost25(real bool) func(t *rapid.T) CostCase {
	return func(t *rapid.T) CostCase {
		var c CostCase
		if real {
			c.Setup = genRealSetup(t, []string{"ipa"}, 3)
			c.Piece = genRealText(t, c.Setup.User, 4)
			c.Op = pick(t, "op", costRealOps)
		} else {
			var ctx dictCtx
			c.Setup, ctx = genSynthSetup(t, 3)
			c.Piece = genText(t, ctx, c.Setup.Dict.Words, c.Setup.User, 4)
			c.Op = pick(t, "op", costOps)
		}
		c.Glue = pick(t, "glue", []BS{"", "。", "。", "\n", "\n\n", "！！", "。」\u3000", " ", "。 \n"})
		if chance(t, "run", 25) { // long runs of one character
			c.Piece += BS(strings.Repeat(pick(t, "runchar", []string{"a", "ア", "犬", "、", "。", " ", "\n", "\u3000", "」", "\xff", "…"}), intr(t, "runlen", 1, 1500)))
		}
		c.N = intr(t, "n", 20000, 60000)
		return c
	}
}

// usage is what the process has used so far.
func usage() (time.Duration, int64) {
	var u syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano()), int64(m.TotalAlloc)
}

func costOf(f func()) (time.Duration, int64) {
	runtime.GC()
	t0, a0 := usage()
	f()
	t1, a1 := usage()
	return t1 - t0, a1 - a0
}

// work returns the operation on a text, prepared so that only the operation is measured.
func (c *CostCase) work() func(text string) func() {
	var tk *tokenizer.Tokenizer
	if !strings.HasPrefix(c.Op, "split") {
		tk, _ = c.Setup.Tokenizer()
	}
	mode := map[string]tokenizer.TokenizeMode{"normal": tokenizer.Normal, "search": tokenizer.Search, "extended": tokenizer.Extended}
	command := func(name, stdin string, args ...string) func() {
		k := commands[name]
		return func() {
			*k.out, *k.err = io.Discard, io.Discard
			_ = withStdin(stdin, false, func() error { return k.run(context.Background(), args) })
		}
	}
	return func(text string) func() {
		tokens := func() []tokenizer.Token { return tk.Tokenize(text) }
		switch c.Op {
		case "normal", "search", "extended":
			return func() { tk.Analyze(text, mode[c.Op]) }
		case "wakati":
			return func() { tk.Wakati(text) }
		case "dot":
			return func() { tk.Dot(io.Discard, text) }
		case "graph":
			return func() { tk.AnalyzeGraph(io.Discard, text, tokenizer.Search) }
		case "accessors":
			ts := tokens()
			return func() {
				for _, t := range ts {
					_, _, _ = t.Features(), t.POS(), t.String()
					t.BaseForm()
					t.Reading()
					t.Pronunciation()
					t.InflectionalType()
					t.InflectionalForm()
					t.UserExtra()
					_ = tokenizer.NewTokenData(t)
				}
			}
		case "keep", "drop", "words", "keep any", "drop any":
			ts := tokens()
			pf := filter.NewPOSFilter([]string{"名詞"}, []string{filter.Any, "一般"})
			var words []string
			for i := 0; i < len(ts); i += 2 {
				words = append(words, ts[i].Surface, strconv.Itoa(i))
			}
			wf := filter.NewWordFilter(words)
			return func() {
				s := append([]tokenizer.Token(nil), ts...)
				switch c.Op {
				case "keep":
					pf.Keep(&s)
				case "drop":
					pf.Drop(&s)
				case "words":
					wf.Drop(&s)
				case "keep any":
					filter.Keep(&s, func(t tokenizer.Token) bool { return t.Index%3 == 0 })
				case "drop any":
					filter.Drop(&s, func(t tokenizer.Token) bool { return t.Index%3 == 0 })
				}
			}
		case "ja", "ja drop":
			ts := tokens()
			f, err := ja.NewFilter()
			must(err)
			return func() {
				if c.Op == "ja" {
					f.Yield(ts)
				} else {
					s := append([]tokenizer.Token(nil), ts...)
					f.Drop(&s)
				}
			}
		case "split":
			return func() {
				sc := bufio.NewScanner(strings.NewReader(text))
				sc.Split(filter.ScanSentences)
				for sc.Scan() {
					_ = sc.Text()
				}
			}
		case "split whole": // all the text is in the buffer
			return func() {
				sc := bufio.NewScanner(strings.NewReader(text))
				sc.Buffer(make([]byte, 0, len(text)+100), len(text)+100)
				sc.Split(filter.ScanSentences)
				for sc.Scan() {
					_ = sc.Text()
				}
			}
		case "split all":
			s := filter.SentenceSplitter{Delim: []rune("。！\n"), Follower: []rune("」"), DoubleLineFeedSplit: true, MaxRuneLen: 100}
			return func() { readAll(strings.NewReader(text), s) }
		case "tokenize":
			return command("tokenize", text)
		case "tokenize json":
			return command("tokenize", text, "-json")
		case "tokenize split":
			return command("tokenize", text, "-split", "-mode", "search")
		case "sentence":
			return command("sentence", text)
		case "lattice":
			return command("lattice", "", "--", text)
		case "lattice -v":
			return command("lattice", "", "-v", "-mode", "search", "--", text)
		case "api":
			s := theServer("ipa")
			return func() {
				_, _, err := post(strings.TrimPrefix(s.url, "http://"), "/tokenize", &SrvRun{Text: BS(strings.ToValidUTF8(text, "?"))})
				must(err)
			}
		case "page":
			s := theServer("ipa")
			return func() {
				_, _, err := fetchDemo(s, DemoCase{Sentence: BS(text), Mode: "Normal", Method: "POST"})
				must(err)
			}
		}
		panic(c.Op)
	}
}

func checkCost(c CostCase, rec *Rec) error {
	oldGC := debug.SetGCPercent(400)
	defer debug.SetGCPercent(oldGC)
	unit := string(c.Piece + c.Glue)
	if unit == "" {
		return nil
	}
	if c.Op == "page" {
		installDot("missing")
	}
	make_ := c.work()
	large, small := make_(stretch(unit, c.N)), make_(stretch(unit, c.N/costParts))
	small()
	var report bytes.Buffer
	for try := 0; try < 3; try++ {
		lt, lm := costOf(large)
		st, sm := costOf(func() {
			for i := 0; i < costParts; i++ {
				small()
			}
		})
		slow := lt > 250*time.Millisecond && lt > costFactor*st
		big := lm > 48<<20 && lm > costFactor*sm
		if big { // not because the small ones use the memory of those before them
			sm = 0
			for i := 0; i < costParts; i++ {
				runtime.GC() // costOf collects once more; that empties the pools
				_, m := costOf(small)
				sm += m
			}
			big = lm > costFactor*sm
		}
		if try == 0 {
			r := float64(lt) / float64(st+1)
			rec.Label(fmt.Sprintf("time ratio %s", bucket(r)))
			rec.Label(fmt.Sprintf("memory ratio %s", bucket(float64(lm)/float64(sm+1))))
		}
		if !slow && !big {
			rec.NonTrivial()
			rec.Label(c.Op)
			return nil
		}
		fmt.Fprintf(&report, "\n%v and %d bytes, against %v and %d bytes", lt, lm, st, sm)
	}
	return fmt.Errorf("the operation %q on %d characters costs much more than %d times the operation on a part of them (texts made of %q):%s",
		c.Op, c.N, costParts, clip(unit), report.String())
}

const costFactor = 8

func bucket(r float64) string {
	for _, b := range []float64{0.25, 0.5, 1, 1.5, 2, 3, 4, 6, 8, 16} {
		if r < b {
			return fmt.Sprintf("< %g", b)
		}
	}
	return ">= 16"
}

func init() {
	fixture["C25"] = quiet
	reg("C25", "generated dictionaries", 2, 80, 2000, genCost25(false), checkCost)
	reg("C25", "real dictionaries", 2, 120, 3000, genCost25(true), checkCost)
}
