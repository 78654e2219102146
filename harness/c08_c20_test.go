package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C08

// ConcCall is a call that goroutines make on shared objects.
type ConcCall struct {
	Op    string
	Setup int
	Input int
	Mode  int
}

// ConcCase: goroutines that share tokenizers, tokens, filters and splitters.
type ConcCase struct {
	Setups   []Setup
	Inputs   []BS
	Words    []BS
	Patterns [][]BS
	Split    SplitSpec
	Programs [][]ConcCall // one per goroutine
	Rounds   int
}

var concOps = []string{"analyze", "analyze", "analyze", "graph", "wakati", "tokenize", "tokens", "data", "posfilter", "wordfilter", "features", "ja", "split", "string", "keep"}

func genConc(real bool) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		var c ConcCase
		var ctxs []dictCtx
		for i, n := 0, intr(t, "nsetups", 1, 3); i < n; i++ {
			if real && i == 0 {
				c.Setups = append(c.Setups, genRealSetup(t, []string{"ipa"}, 3))
				ctxs = append(ctxs, dictCtx{})
				continue
			}
			s, ctx := genSynthSetup(t, 3)
			if i > 0 && c.Setups[0].Dict != nil && chance(t, "sharedict", 50) {
				s.Dict, ctx = c.Setups[0].Dict, ctxs[0]
				s.User = genUser(t, ctx, s.Dict.Words, 3)
			}
			c.Setups = append(c.Setups, s)
			ctxs = append(ctxs, ctx)
		}
		for i, n := 0, intr(t, "ninputs", 1, 4); i < n; i++ {
			j := intr(t, "for", 0, len(c.Setups)-1)
			var in BS
			if s := c.Setups[j]; s.Real != "" {
				in = genRealText(t, s.User, 5)
			} else {
				in = genText(t, ctxs[j], s.Dict.Words, s.User, pick(t, "size", []int{2, 6, 14}))
			}
			if chance(t, "long", 15) {
				in = BS(strings.Repeat(string(in), intr(t, "times", 2, 20)))
			} else if chance(t, "verylong", 1) {
				in = BS(stretch(string(in), pick(t, "chars", []int{520, 1030, 2060, 4100})))
			}
			c.Inputs = append(c.Inputs, in)
		}
		c.Words = []BS{"a", "あ", "の"}
		c.Patterns = [][]BS{{"名詞"}, {"\x00", "一般"}, genFeatures(t, 1, 2, posNames)}
		c.Split = genSplitSpec(t)
		same := chance(t, "same", 30) // all goroutines run the same program
		goroutines := intr(t, "goroutines", 2, 8)
		if chance(t, "crowd", 2) {
			goroutines = pick(t, "many", []int{12, 24, 48})
		}
		for i := 0; i < goroutines; i++ {
			if same && i > 0 {
				c.Programs = append(c.Programs, c.Programs[0])
				continue
			}
			var p []ConcCall
			for j, m := 0, intr(t, "ncalls", 1, 8); j < m; j++ {
				p = append(p, ConcCall{pick(t, "op", concOps), intr(t, "setup", 0, len(c.Setups)-1), intr(t, "input", 0, len(c.Inputs)-1), intr(t, "mode", 1, 3)})
			}
			c.Programs = append(c.Programs, p)
		}
		c.Rounds = intr(t, "rounds", 1, 4)
		if goroutines > 8 {
			c.Rounds = 1
		}
		return c
	}
}

type concWorld struct {
	tks    []*tokenizer.Tokenizer
	ins    []string
	tokens map[[3]int][]tokenizer.Token
	pos    *filter.POSFilter
	feat   *filter.FeaturesFilter
	word   *filter.WordFilter
	ja     *ja.Filter
	split  func([]byte, bool) (int, []byte, error)
}

func newConcWorld(c *ConcCase) *concWorld {
	w := &concWorld{tokens: map[[3]int][]tokenizer.Token{}}
	shared := map[*DictSpec]*dict.Dict{}
	sharedUser := map[string]*dict.UserDict{}
	for i := range c.Setups {
		s := &c.Setups[i]
		var d *dict.Dict
		if s.Real != "" {
			d = realDict(s.Real)
		} else {
			key := s.Dict
			for j := 0; j < i; j++ {
				if o := c.Setups[j].Dict; o != nil && fmt.Sprint(*o) == fmt.Sprint(*key) {
					key = o
					break
				}
			}
			if shared[key] == nil {
				shared[key] = key.Build()
			}
			d = shared[key]
		}
		uk := fmt.Sprintf("%q", fmt.Sprint(s.User))
		if _, ok := sharedUser[uk]; !ok {
			sharedUser[uk] = BuildUser(s.User)
		}
		w.tks = append(w.tks, newTokenizer(d, sharedUser[uk], s.Omit))
	}
	for _, in := range c.Inputs {
		w.ins = append(w.ins, string(in))
	}
	w.pos = filter.NewPOSFilter(strss(c.Patterns)...)
	w.feat = filter.NewFeaturesFilter(strss(c.Patterns)...)
	w.word = filter.NewWordFilter(strs(c.Words))
	f, err := ja.NewFilter()
	must(err)
	w.ja = f
	w.split = c.Split.fn()
	for _, p := range c.Programs {
		for _, k := range p {
			key := [3]int{k.Setup, k.Input, k.Mode}
			if _, ok := w.tokens[key]; !ok {
				w.tokens[key] = w.tks[k.Setup].Analyze(w.ins[k.Input], tokenizer.TokenizeMode(k.Mode))
			}
		}
	}
	return w
}

// do makes a call and describes its result. shared holds the token lists made
// beforehand that all goroutines read.
func (w *concWorld) do(k ConcCall) string {
	tk, in, mode := w.tks[k.Setup], w.ins[k.Input], tokenizer.TokenizeMode(k.Mode)
	shared := w.tokens[[3]int{k.Setup, k.Input, k.Mode}]
	switch k.Op {
	case "analyze":
		return describe(tk.Analyze(in, mode))
	case "tokenize":
		return describe(tk.Tokenize(in))
	case "graph":
		var b bytes.Buffer
		if len(in) > 1500 {
			in = in[:1500]
		}
		ts := tk.AnalyzeGraph(&b, in, mode)
		return describe(ts) + canonDot(strings.ReplaceAll(b.String(), "\x00", ""))
	case "wakati":
		return fmt.Sprintf("%q", tk.Wakati(in))
	case "tokens":
		return describe(shared)
	case "data":
		var b strings.Builder
		for _, t := range shared {
			fmt.Fprintf(&b, "%+v %v %q\n", tokenizer.NewTokenData(t), t.UserExtra() != nil, t.String())
		}
		return b.String()
	case "posfilter":
		var b strings.Builder
		for _, t := range shared {
			fmt.Fprint(&b, w.pos.Match(t.POS()), " ")
		}
		return b.String()
	case "features":
		var b strings.Builder
		for _, t := range shared {
			fmt.Fprint(&b, w.feat.Match(t.Features()), " ")
		}
		return b.String()
	case "wordfilter":
		var b strings.Builder
		for _, t := range shared {
			fmt.Fprint(&b, w.word.Match(t.Surface), " ")
		}
		return b.String()
	case "ja":
		cp := append([]tokenizer.Token{}, shared...)
		w.ja.Drop(&cp)
		return fmt.Sprintf("%q", w.ja.Yield(shared)) + describe(cp)
	case "keep":
		cp := append([]tokenizer.Token{}, shared...)
		w.pos.Keep(&cp)
		cp2 := append([]tokenizer.Token{}, shared...)
		w.word.Drop(&cp2)
		return describe(cp) + describe(cp2)
	case "split":
		s, err := scanAll(w.split, strings.NewReader(in+"。\n"+in), 0, 0)
		s2, err2 := scanAll(filter.ScanSentences, strings.NewReader(in+"。\n"+in), 0, 0)
		return fmt.Sprintf("%q %v %q %v", s, err, s2, err2)
	case "string":
		return w.feat.String()
	}
	panic("unknown call " + k.Op)
}

func checkC08(c ConcCase, rec *Rec) error {
	w := newConcWorld(&c)
	want := map[ConcCall]string{}
	for _, p := range c.Programs {
		for _, k := range p {
			if _, ok := want[k]; !ok {
				want[k] = w.do(k)
			}
		}
	}
	// A second world, so that nothing that is set up lazily exists already when
	// the goroutines start.
	w = newConcWorld(&c)
	races := raceErrors()
	var (
		ready, done sync.WaitGroup
		start       = make(chan struct{})
		mu          sync.Mutex
		first       error
	)
	for i, p := range c.Programs {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			fail := func(err error) {
				mu.Lock()
				defer mu.Unlock()
				if first == nil {
					first = err
				}
			}
			defer func() {
				if p := recover(); p != nil {
					fail(fmt.Errorf("goroutine %d: panic: %v", i, p))
				}
			}()
			ready.Done()
			<-start
			for r := 0; r < c.Rounds; r++ {
				for _, k := range p {
					if got := w.do(k); got != want[k] {
						fail(fmt.Errorf("goroutine %d, %+v on %q returned\n%s\nwant\n%s", i, k, clip(w.ins[k.Input]), clip(got), clip(want[k])))
						return
					}
				}
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	if first != nil {
		return first
	}
	if n := raceErrors() - races; n > 0 {
		return fmt.Errorf("the race detector reported %d data race(s)", n)
	}
	calls := 0
	for _, p := range c.Programs {
		calls += len(p) * c.Rounds
	}
	rec.NonTrivialIf(len(c.Programs) >= 2 && calls >= 6)
	rec.LabelIf(len(c.Setups) > 1, "several tokenizers")
	rec.LabelIf(len(c.Programs) > 4, "more than 4 goroutines")
	return nil
}

// ---------------------------------------------------------------- C20

type poolObj struct {
	id    int // set by the constructor
	owner atomic.Int32
	data  []byte
	stamp int
}

// PoolOp: Get from pool P, or put the held object number H back into the pool it
// came from, N times; GC runs the garbage collector.
type PoolOp struct {
	Op string
	P  int
	H  int
	N  int `json:",omitempty"`
}

// PoolCase is a history of operations on several pools of objects of some type.
type PoolCase struct {
	Type  string
	Pools int
	Ops   []PoolOp
}

var poolTypes = []string{"struct", "int", "large", "list", "pointers", "interface", "word pair"}

func genPool(t *rapid.T) PoolCase {
	c := PoolCase{Type: pick(t, "type", poolTypes), Pools: intr(t, "pools", 1, 3)}
	bias := pick(t, "bias", []int{40, 60, 75})
	bulk := chance(t, "bulk", 15)
	for i, n := 0, intr(t, "nops", 1, 60); i < n; i++ {
		op := PoolOp{Op: "put", P: intr(t, "p", 0, c.Pools-1), H: intr(t, "h", 0, 9)}
		if chance(t, "get", bias) {
			op.Op = "get"
		} else if chance(t, "gc", 3) {
			op.Op = "gc"
		}
		if bulk && op.Op != "gc" && chance(t, "many", 30) {
			op.N = pick(t, "n", []int{2, 8, 17, 40, 130, 300})
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC20(c PoolCase, rec *Rec) error {
	rec.Label("objects: " + c.Type)
	switch c.Type {
	case "int":
		return runPool(c, rec, func(p *int64, v int) { *p = int64(v) }, func(p *int64) int { return int(*p) })
	case "large":
		type large struct {
			head int
			_    [1200]int64
			tail int
		}
		return runPool(c, rec, func(p *large, v int) { p.head, p.tail = v, v }, func(p *large) int {
			if p.head != p.tail {
				return 1 << 30
			}
			return p.head
		})
	case "list":
		return runPool(c, rec, func(p *[]int, v int) {
			if *p == nil {
				*p = make([]int, 0, 8)
			}
			*p = append((*p)[:0], v, v)
		}, func(p *[]int) int {
			if len(*p) != 2 || (*p)[0] != (*p)[1] {
				return 1 << 30
			}
			return (*p)[0]
		})
	case "pointers":
		type ptrs struct {
			m map[string]*int
			s string
		}
		return runPool(c, rec, func(p *ptrs, v int) {
			if p.m == nil {
				p.m = map[string]*int{}
			}
			p.m["v"], p.s = &v, fmt.Sprint(v)
		}, func(p *ptrs) int {
			if q := p.m["v"]; q != nil && fmt.Sprint(*q) == p.s {
				return *q
			}
			return 1 << 30
		})
	case "interface":
		return runPool(c, rec, func(p *any, v int) { *p = v }, func(p *any) int {
			if v, ok := (*p).(int); ok {
				return v
			}
			return 1 << 30
		})
	case "word pair":
		return runPool(c, rec, func(p *[2]int64, v int) { p[0], p[1] = int64(v), int64(-v) }, func(p *[2]int64) int {
			if p[0] != -p[1] {
				return 1 << 30
			}
			return int(p[0])
		})
	}
	return runPool(c, rec, func(p *poolObj, v int) { p.stamp, p.id = v, v }, func(p *poolObj) int {
		if p.id != p.stamp {
			return 1 << 30
		}
		return p.stamp
	})
}

// runPool runs a history. Values below zero are written by the constructor, others
// by the holder before putting the object back.
func runPool[T any](c PoolCase, rec *Rec, set func(*T, int), get func(*T) int) error {
	born := map[*T]int{} // constructed and not handed out yet, by pool
	total := 0
	var pools []mem.Pool[T]
	for i := 0; i < c.Pools; i++ {
		pools = append(pools, mem.NewPool(func() *T {
			total++
			o := new(T)
			set(o, -total)
			born[o] = i
			return o
		}))
	}
	type heldObj struct {
		pool int
		o    *T
		v    int
	}
	var held []heldObj
	inUse := map[*T]bool{}
	type where struct{ pool, value int }
	free := map[*T]where{} // objects put back: where, and with what contents
	gets, reused, stamp := 0, 0, 0
	for i, op := range c.Ops {
		for n := 0; n < op.N || n == 0; n++ {
			switch op.Op {
			case "gc":
				runtime.GC()
			case "put":
				if len(held) == 0 {
					continue
				}
				j := op.H % len(held)
				h := held[j]
				held = append(held[:j], held[j+1:]...)
				if got := get(h.o); got != h.v {
					return fmt.Errorf("step %d: an object in use changed from %d to %d", i, h.v, got)
				}
				stamp++
				set(h.o, stamp)
				delete(inUse, h.o)
				free[h.o] = where{h.pool, stamp}
				cp := pools[h.pool] // a copy of a pool is the same pool
				cp.Put(h.o)
			case "get":
				o := pools[op.P].Get()
				gets++
				if o == nil {
					return fmt.Errorf("step %d: Get returned nil", i)
				}
				if inUse[o] {
					return fmt.Errorf("step %d: Get returned an object (%d) that is still in use", i, get(o))
				}
				v := get(o)
				if w, ok := free[o]; ok {
					if w.pool != op.P {
						return fmt.Errorf("step %d: Get from pool %d returned object %d, which was put into pool %d", i, op.P, v, w.pool)
					}
					if v != w.value {
						return fmt.Errorf("step %d: an object changed from %d to %d while it was in the pool", i, w.value, v)
					}
					delete(free, o)
					reused++
				} else if from, ok := born[o]; ok && from == op.P && v < 0 {
					delete(born, o)
				} else {
					return fmt.Errorf("step %d: Get returned an object (%d) that comes neither from the constructor nor from Put", i, v)
				}
				inUse[o] = true
				held = append(held, heldObj{op.P, o, v})
			}
		}
	}
	rec.NonTrivialIf(gets >= 2 && reused >= 1)
	rec.LabelIf(reused > 0, "an object was reused")
	rec.LabelIf(c.Pools > 1, "several pools")
	return nil
}

type testPool struct {
	p    mem.Pool[poolObj]
	made atomic.Int64
	next *atomic.Int64
}

func newTestPools(n int) []*testPool {
	var next atomic.Int64
	var ret []*testPool
	for i := 0; i < n; i++ {
		tp := &testPool{next: &next}
		tp.p = mem.NewPool(func() *poolObj {
			tp.made.Add(1)
			return &poolObj{id: int(tp.next.Add(1)), data: make([]byte, 3), stamp: -1}
		})
		ret = append(ret, tp)
	}
	return ret
}

// PoolConc: goroutines that get, use and put objects of shared pools.
type PoolConc struct {
	Pools      int
	Goroutines int
	Rounds     int
	Hold       int // objects held at a time
	GC         bool
}

func genPoolConc(t *rapid.T) PoolConc {
	return PoolConc{intr(t, "pools", 1, 3), pick(t, "goroutines", []int{2, 3, 4, 6, 8, 20, 50}), intr(t, "rounds", 1, 150), intr(t, "hold", 1, 4), chance(t, "gc", 10)}
}

func checkPoolConc(c PoolConc, rec *Rec) error {
	pools := newTestPools(c.Pools)
	races := raceErrors()
	var (
		done  sync.WaitGroup
		start = make(chan struct{})
		mu    sync.Mutex
		first error
		reuse atomic.Int64
	)
	fail := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = fmt.Errorf(format, args...)
		}
	}
	for g := 0; g < c.Goroutines; g++ {
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					fail("goroutine %d: panic: %v", g, p)
				}
			}()
			<-start
			for r := 0; r < c.Rounds; r++ {
				var mine []*poolObj
				k := (g + r) % c.Pools
				for i := 0; i < c.Hold; i++ {
					o := pools[k].p.Get()
					if o == nil {
						fail("Get returned nil")
						return
					}
					if !o.owner.CompareAndSwap(0, int32(g+1)) {
						fail("goroutine %d got object %d while goroutine %d holds it", g, o.id, o.owner.Load()-1)
						return
					}
					if o.stamp >= 0 {
						reuse.Add(1)
						if o.stamp != k {
							fail("an object of pool %d came from pool %d", o.stamp, k)
							return
						}
					}
					o.stamp = k // unsynchronised on purpose: only the owner may write
					mine = append(mine, o)
				}
				runtime.Gosched()
				for _, o := range mine {
					if got := o.owner.Load(); got != int32(g+1) {
						fail("object %d of goroutine %d was taken by %d", o.id, g, got-1)
						return
					}
					o.owner.Store(0)
					pools[k].p.Put(o)
				}
				if c.GC && r == c.Rounds/2 {
					runtime.GC()
				}
			}
		}()
	}
	close(start)
	done.Wait()
	if first != nil {
		return first
	}
	if n := raceErrors() - races; n > 0 {
		return fmt.Errorf("the race detector reported %d data race(s)", n)
	}
	rec.NonTrivialIf(c.Goroutines >= 2 && reuse.Load() > 0)
	rec.LabelIf(reuse.Load() > 0, "an object was reused")
	return nil
}

func init() {
	reg("C08", "generated dictionaries", 20, 100, 4000, genConc(false), checkC08)
	reg("C08", "with IPA", 10, 20, 600, genConc(true), checkC08)
	reg("C20", "histories", 100, 200, 6000, genPool, checkC20)
	reg("C20", "goroutines", 50, 80, 3000, genPoolConc, checkPoolConc)
}
