package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C26

// platWorker is a worker program for another platform.
type platWorker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	log *lockedBuffer
}

var platWorkers = map[string]*platWorker{}

func startWorker(platform string) *platWorker {
	if w, ok := platWorkers[platform]; ok {
		return w
	}
	argv := strings.Split(os.Getenv("VERIF_WORKER_"+platform), "\t")
	argv = append(argv, "-test.run", "^TestWorker$", "-test.timeout", "0")
	w := &platWorker{cmd: exec.Command(argv[0], argv[1:]...), log: &lockedBuffer{}}
	w.cmd.Env = []string{"VERIF_WORKER=1", "HOME=/", "PATH=/usr/bin:/bin"} // wasm takes only some kB
	w.cmd.Stderr = w.log
	var err error
	w.in, err = w.cmd.StdinPipe()
	must(err)
	out, err := w.cmd.StdoutPipe()
	must(err)
	w.out = bufio.NewReaderSize(out, 1<<20)
	must(w.cmd.Start())
	platWorkers[platform] = w
	return w
}

func (w *platWorker) ask(c PlatCase) (string, error) {
	b, err := json.Marshal(c)
	must(err)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return "", err
	}
	for {
		line, err := w.out.ReadString('\n')
		if err != nil {
			return "", fmt.Errorf("%w: %s", err, clip(w.log.String()))
		}
		if s, ok := strings.CutPrefix(line, "RESULT "); ok {
			var r BS
			if err := json.Unmarshal([]byte(s), &r); err != nil {
				return "", err
			}
			return string(r), nil
		}
	}
}

func genPlat(tok func(t *rapid.T) TokCase, graph bool) func(t *rapid.T) PlatCase {
	return func(t *rapid.T) PlatCase {
		tc := tok(t)
		c := PlatCase{Setup: tc.Setup, Inputs: tc.Inputs, Graph: graph, Split: genSplitSpec(t)}
		if chance(t, "splittext", 30) {
			c.Inputs = append(c.Inputs, genSplitText(t, 6))
		}
		fc := genFilterCase(t)
		c.Patterns = append(fc.Patterns, []BS{"名詞"}, []BS{"\x00", "一般"})
		c.Words = []BS{"猫", "a", "は", "の"}
		return c
	}
}

func checkPlat(platform string) func(c PlatCase, rec *Rec) error {
	return func(c PlatCase, rec *Rec) error {
		if os.Getenv("VERIF_WORKER_"+platform) == "" {
			rec.Label("no " + platform + " here")
			return nil
		}
		want := platResult(c)
		got, err := startWorker(platform).ask(c)
		if err != nil { // once more, alone
			delete(platWorkers, platform)
			got, err = startWorker(platform).ask(c)
		}
		if err != nil {
			delete(platWorkers, platform)
			return fmt.Errorf("on %s: the process ends: %w", platform, err)
		}
		if got != want {
			g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
			part := ""
			for i := range w {
				if strings.HasPrefix(w[i], "input") || strings.HasPrefix(w[i], "graph") {
					part = w[i]
				}
				if i >= len(g) || g[i] != w[i] {
					other := "nothing"
					if i < len(g) {
						other = g[i]
					}
					return fmt.Errorf("on %s, inputs %q, %s: %s; here: %s", platform, c.Inputs, part, other, w[i])
				}
			}
			return fmt.Errorf("on %s, inputs %q: %d lines, here %d", platform, c.Inputs, len(g), len(w))
		}
		rec.NonTrivialIf(strings.Count(want, "\n") > 40)
		return nil
	}
}

func init() {
	synth := genSynthCase(4, 2, 10)
	x86 := checkPlat("386")
	reg("C26", "386, generated dictionaries", 20, 60, 2000, genPlat(synth, true), x86)
	reg("C26", "386, IPA", 10, 24, 800, genPlat(genRealCase([]string{"ipa"}, 3, 2, 6), true), x86)
	reg("C26", "386, search penalties", 20, 24, 1000, genPlat(genPenaltyCase, true), x86)
	reg("C26", "386, huge costs", 2, 16, 200, genPlat(genHugeCase, false), x86)
	reg("C26", "386, extreme costs", 2, 16, 200, genPlat(genExtremeCase, false), x86)
	reg("C26", "386, large dictionaries", 4, 24, 400, genPlat(genBigCase(20, 300), false), x86)
	reg("C26", "386, long runs", 2, 8, 100, genPlat(genLongCase, false), x86)
	wasm := checkPlat("wasm")
	reg("C26", "wasm, generated dictionaries", 20, 16, 600, genPlat(synth, true), wasm)
	reg("C26", "wasm, IPA", 10, 8, 300, genPlat(genRealCase([]string{"ipa"}, 3, 2, 6), true), wasm)
	reg("C26", "wasm, long texts", 1, 8, 100, genPlat(genSizedCase(256, 1024, 4096, 33000), false), wasm)
	reg("C26", "386, long texts", 1, 16, 200, genPlat(genSizedCase(256, 1024, 4096, 33000), false), x86)
}
