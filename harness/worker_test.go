package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"testing"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
)

// PlatCase is work whose result is compared between platforms. The worker
// program is this file and core, gen and ref, built for another platform.
type PlatCase struct {
	Setup    Setup
	Inputs   []BS
	Graph    bool
	Split    SplitSpec
	Patterns [][]BS
	Words    []BS
}

var platModes = []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended, 0, -1, 1 << 30}

// platResult describes everything the library says about the case.
func platResult(c PlatCase) (ret string) {
	defer func() {
		if p := recover(); p != nil {
			ret = fmt.Sprintf("panic: %v", p)
		}
	}()
	var b strings.Builder
	d, u := c.Setup.dicts()
	tk := newTokenizer(d, u, c.Setup.Omit)
	jaf, err := ja.NewFilter()
	must(err)
	var ps [][]string
	for _, p := range c.Patterns {
		ps = append(ps, strs(p))
	}
	ff, wf := filter.NewPOSFilter(ps...), filter.NewWordFilter(strs(c.Words))
	for i, bs := range c.Inputs {
		in := string(bs)
		for _, m := range platModes {
			ts := tk.Analyze(in, m)
			fmt.Fprintf(&b, "input %d, mode %d\n%s", i, m, describe(ts))
			if m > tokenizer.Extended || m < tokenizer.Normal {
				continue
			}
			for _, t := range ts {
				j, err := json.Marshal(tokenizer.NewTokenData(t))
				fmt.Fprintf(&b, "%s %v %s", j, err, t.String())
				for k := -2; k < 12; k++ {
					v, ok := t.FeatureAt(k)
					fmt.Fprintf(&b, " %q %v", v, ok)
				}
				if e := t.UserExtra(); e != nil {
					fmt.Fprintf(&b, " %q %q", e.Tokens, e.Readings)
				}
				b.WriteByte('\n')
			}
			if c.Graph {
				var g bytes.Buffer
				gts := tk.AnalyzeGraph(&g, in, m)
				dot := canonDot(g.String())
				if strings.HasPrefix(dot, "not DOT") { // the reason may name an address
					dot = "not DOT"
				}
				fmt.Fprintf(&b, "graph\n%s%s\n", describe(gts), dot)
			}
			fmt.Fprintf(&b, "ja %q\n", jaf.Yield(ts))
			kept := append([]tokenizer.Token(nil), ts...)
			ff.Keep(&kept)
			fmt.Fprintf(&b, "kept %d", len(kept))
			dropped := append([]tokenizer.Token(nil), ts...)
			wf.Drop(&dropped)
			fmt.Fprintf(&b, " dropped %d\n", len(ts)-len(dropped))
		}
		fmt.Fprintf(&b, "wakati %q\n", tk.Wakati(in))
		sc := bufio.NewScanner(strings.NewReader(in))
		sc.Split(c.Split.fn())
		for sc.Scan() {
			fmt.Fprintf(&b, "sentence %q\n", sc.Text())
		}
		fmt.Fprintf(&b, "end %v\n", sc.Err())
	}
	pool := mem.NewPool(func() *int64 { return new(int64) })
	p := pool.Get()
	*p = 1 << 40
	q := pool.Get()
	fmt.Fprintf(&b, "pool %v %v\n", *p, *q)
	return b.String()
}

// TestWorker answers the cases on its standard input.
func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_WORKER") == "" {
		t.Skip("VERIF_WORKER is not set")
	}
	if runtime.GOARCH == "wasm" {
		// one thread: nothing to watch
		_ = io.Discard
	}
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var c PlatCase
		if err := in.Decode(&c); err != nil {
			return
		}
		out, err := json.Marshal(BS(platResult(c)))
		must(err)
		fmt.Printf("RESULT %s\n", out)
	}
}
