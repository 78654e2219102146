// Package checks holds the property checks. See /verif/DESIGN.md.
//
// Every property is decided by one or more sub-checks. A sub-check is a rapid
// generator of JSON-serialisable cases plus an executable oracle. The test
// binary runs the batches of cases that belong to its shard, counts them, and
// writes the shrunk failing case as a replay file.
package checks

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// BS is a byte string that survives JSON even when it is not valid UTF-8.
type BS string

func (b BS) MarshalJSON() ([]byte, error) {
	q := strconv.Quote(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

func (b *BS) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return fmt.Errorf("bad byte string %q: %w", s, err)
	}
	*b = BS(u)
	return nil
}

// Rec collects what a check says about the case it evaluates.
type Rec struct {
	nontrivial bool
	labels     []string
}

func (r *Rec) NonTrivial()         { r.nontrivial = true }
func (r *Rec) NonTrivialIf(b bool) { r.nontrivial = r.nontrivial || b }
func (r *Rec) Label(s string)      { r.labels = append(r.labels, s) }
func (r *Rec) LabelIf(b bool, s string) {
	if b {
		r.labels = append(r.labels, s)
	}
}

type subCheck struct {
	prop, name string
	batch      int // cases per rapid run
	quick      int // number of batches
	thorough   int
	run        func(t *testing.T, seed uint64, n int)
	replay     func(data []byte) error
	fuzz       func(rt *rapid.T) // a case taken from the bytes of a fuzzer
}

var (
	subs    []*subCheck
	fixture = map[string]func(){} // per property set-up, run once before its cases
)

type stats struct {
	Name        string            `json:"name"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Batches     int               `json:"batches"`
	Skipped     int               `json:"batches_skipped"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	hashes      map[uint64]struct{}
	failed      bool
}

var (
	statMu  sync.Mutex
	statMap = map[string]*stats{}
)

func statOf(name string) *stats {
	s, ok := statMap[name]
	if !ok {
		s = &stats{Name: name, Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
		statMap[name] = s
	}
	return s
}

type failure struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

// current is the case being evaluated, for the watchdog.
type running struct {
	sub  *subCheck
	c    any
	from time.Time
}

var (
	current  atomic.Pointer[running]
	lastFail *failure
	failedAt time.Time // of the first failure
	recordTo string    // record mode: write every case before running it
)

// tag names the output files of this process.
func tag() string { return os.Getenv("VERIF_TAG") }

func outDir() string { return os.Getenv("VERIF_OUT") }

func writeFile(name string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	path := filepath.Join(outDir(), name)
	must(os.WriteFile(path+".tmp", b, 0o644))
	must(os.Rename(path+".tmp", path)) // never seen half written
}

func evaluate[C any](s *subCheck, c C, check func(C, *Rec) error) (rec *Rec, err error) {
	rec = &Rec{}
	if recordTo != "" {
		raw, _ := json.Marshal(c)
		writeFile(recordTo, failure{Property: s.prop, Check: s.name, Error: "the process died while running this case", Case: raw})
	}
	current.Store(&running{sub: s, c: c, from: time.Now()})
	defer current.Store(nil)
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return rec, check(c, rec)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// reg registers a sub-check: quick and thorough are numbers of batches.
func reg[C any](prop, name string, batch, quick, thorough int, gen func(*rapid.T) C, check func(C, *Rec) error) {
	s := &subCheck{prop: prop, name: name, batch: batch, quick: quick, thorough: thorough}
	s.replay = func(data []byte) error {
		var c C
		if err := json.Unmarshal(data, &c); err != nil {
			return fmt.Errorf("bad replay case: %w", err)
		}
		_, err := evaluate(s, c, check)
		return err
	}
	s.fuzz = func(rt *rapid.T) {
		c := gen(rt)
		if _, err := evaluate(s, c, check); err != nil {
			raw, jerr := json.Marshal(c)
			must(jerr)
			// the last one written is the smallest the fuzzer arrives at
			writeFile(fmt.Sprintf("fuzzfail.%s.%d.json", tag(), os.Getpid()), failure{Property: prop, Check: name, Error: err.Error(), Case: raw})
			rt.Fatalf("%s/%s: %v", prop, name, err)
		}
	}
	s.run = func(t *testing.T, seed uint64, n int) {
		st := statOf(prop + "/" + name)
		must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		rapid.Check(t, func(rt *rapid.T) {
			c := gen(rt)
			if lastFail != nil && time.Since(failedAt) > 25*time.Second {
				return // enough shrinking; lastFail is what is reported
			}
			rec, err := evaluate(s, c, check)
			if !st.failed {
				st.Evaluations++
				for _, l := range rec.labels {
					st.Labels[l]++
				}
				if rec.nontrivial {
					st.Nontrivial++
					raw, jerr := json.Marshal(c)
					must(jerr)
					h := fnv.New64a()
					h.Write([]byte(prop + "/" + name + "\x00"))
					h.Write(raw)
					k := h.Sum64()
					if _, ok := st.hashes[k]; !ok {
						st.hashes[k] = struct{}{}
						if len(st.Samples) < 2 && len(raw) < 5000 {
							st.Samples = append(st.Samples, raw)
						}
					}
				}
			}
			if err != nil {
				if lastFail == nil {
					failedAt = time.Now()
				}
				st.failed = true
				raw, jerr := json.Marshal(c)
				must(jerr)
				lastFail = &failure{Property: prop, Check: name, Error: err.Error(), Case: raw}
				rt.Fatalf("%s/%s: %v", prop, name, err)
			}
		})
	}
	subs = append(subs, s)
}

// known: a listed finding, see KNOWN_FINDINGS.
func known(key string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if k == key {
			return true
		}
	}
	return false
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func envInt(key string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(key)); err == nil {
		return v
	}
	return def
}

func batchSeed(seed int, sub string, batch int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, sub, batch)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func watchdog(limit time.Duration) {
	for range time.Tick(time.Second) {
		r := current.Load()
		if r == nil || time.Since(r.from) < limit {
			continue
		}
		raw, _ := json.Marshal(r.c)
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		writeFile(fmt.Sprintf("hang.%s.json", tag()),
			failure{Property: r.sub.prop, Check: r.sub.name, Error: fmt.Sprintf("no result after %v\n%s", limit, buf), Case: raw})
		os.Exit(3)
	}
}

// TestVerif runs the shard's batches of the property named by VERIF_PROPERTY.
// Output files: stats.<tag>.json, hashes.<tag>, and fail.<tag>.json.
func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROPERTY")
	if prop == "" {
		t.Skip("VERIF_PROPERTY is not set")
	}
	var (
		seed     = envInt("VERIF_SEED", 1)
		shard    = envInt("VERIF_SHARD", 0)
		shards   = envInt("VERIF_SHARDS", 1)
		thorough = os.Getenv("VERIF_TIER") == "thorough"
		budget   = time.Duration(envInt("VERIF_BUDGET_S", 420)) * time.Second
		only     = os.Getenv("VERIF_ONLY")
		scale    = envInt("VERIF_SCALE_PERCENT", 100)
	)
	if os.Getenv("VERIF_RECORD") != "" {
		recordTo = fmt.Sprintf("record.%s.json", tag())
	}
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "15s"))
	if f := fixture[prop]; f != nil {
		f()
	}
	go watchdog(time.Duration(envInt("VERIF_HANG_S", 150)) * time.Second)
	start := time.Now()

	// Interleave the sub-checks so that a budget hit affects all of them alike.
	type job struct {
		s     *subCheck
		batch int
		key   float64
	}
	var jobs []job
	for _, s := range subs {
		if s.prop != prop || (only != "" && only != s.name) {
			continue
		}
		n := s.quick
		if thorough {
			n = s.thorough
		}
		n = (n*scale + 99) / 100
		for b := 0; b < n; b++ {
			jobs = append(jobs, job{s, b, (float64(b) + 0.5) / float64(n)})
		}
	}
	if len(jobs) == 0 {
		t.Fatalf("no checks for %q", prop)
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].key < jobs[j].key })
	for i, j := range jobs {
		if i%shards != shard {
			continue
		}
		st := statOf(j.s.prop + "/" + j.s.name)
		if time.Since(start) > budget {
			st.Skipped++
			continue
		}
		st.Batches++
		t.Run(fmt.Sprintf("%s/%d", j.s.name, j.batch), func(t *testing.T) {
			j.s.run(t, batchSeed(seed, j.s.prop+"/"+j.s.name, j.batch), j.s.batch)
		})
		if lastFail != nil {
			break
		}
	}
	writeStats()
	if lastFail != nil {
		writeFile(fmt.Sprintf("fail.%s.json", tag()), lastFail)
	}
}

// FuzzVerif is the same search with the cases taken from the bytes of Go's
// coverage-guided fuzzer (thorough tier).
func FuzzVerif(f *testing.F) {
	prop, only := os.Getenv("VERIF_PROPERTY"), os.Getenv("VERIF_ONLY")
	if prop == "" {
		f.Skip("VERIF_PROPERTY is not set")
	}
	// the fuzzer runs several processes
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), strconv.Itoa(os.Getpid()))
	must(os.MkdirAll(dir, 0o755))
	must(os.Setenv("VERIF_SCRATCH", dir))
	if g := fixture[prop]; g != nil {
		g()
	}
	if os.Getenv("VERIF_RECORD") != "" {
		recordTo = fmt.Sprintf("record.%s.json", tag())
	}
	r := rand.New(rand.NewPCG(uint64(envInt("VERIF_SEED", 1)), 7))
	for i := 0; i < 24; i++ {
		b := make([]byte, 2048<<(i%5))
		for j := range b {
			b[j] = byte(r.Uint32())
		}
		f.Add(b)
	}
	for _, s := range subs {
		if s.prop == prop && s.name == only {
			f.Fuzz(rapid.MakeFuzz(s.fuzz))
			return
		}
	}
	f.Fatalf("no check %q of %q", only, prop)
}

func writeStats() {
	var all []*stats
	var hb []byte
	for _, s := range statMap {
		all = append(all, s)
		for h := range s.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Name < all[j].Name })
	writeFile(fmt.Sprintf("stats.%s.json", tag()), all)
	must(os.WriteFile(filepath.Join(outDir(), fmt.Sprintf("hashes.%s", tag())), hb, 0o644))
}

// TestReplay runs one saved case, without rapid.
func TestReplay(t *testing.T) {
	path := os.Getenv("VERIF_REPLAY")
	if path == "" {
		t.Skip("VERIF_REPLAY is not set")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatal(err)
	}
	for _, s := range subs {
		if s.prop != f.Property || s.name != f.Check {
			continue
		}
		if g := fixture[f.Property]; g != nil {
			g()
		}
		for i := 0; i < envInt("VERIF_REPEAT", 1); i++ {
			if err := s.replay(f.Case); err != nil {
				fmt.Printf("REPLAY-FAILS %s/%s: %v\n", s.prop, s.name, err)
				t.FailNow()
			}
		}
		fmt.Printf("REPLAY-OK %s/%s\n", s.prop, s.name)
		return
	}
	t.Fatalf("unknown check %s/%s", f.Property, f.Check)
}
