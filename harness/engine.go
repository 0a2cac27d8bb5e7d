package main

// A small property-testing engine.
//
// Every random decision of a generator is drawn from a choice tape (G). A case
// is a function of its tape alone, so a failing case is shrunk by editing the
// tape (deleting spans, zeroing, lowering values) and replayed from the tape.
// Choice 0 is always the simplest alternative.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- choice tape ----------------------------------------------------------

type G struct {
	state uint64 // splitmix64 state, used when not replaying
	tape  []uint64
	rep   bool
	pos   int

	hasEnum bool // the first draw is the index of an enumerated case
	enum    int
}

func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newG(seed uint64) *G      { return &G{state: seed} }
func replayG(tape []uint64) *G { return &G{tape: tape, rep: true} }
func (g *G) used() []uint64 {
	if g.rep {
		n := g.pos
		if n > len(g.tape) {
			n = len(g.tape)
		}
		return append([]uint64{}, g.tape[:n]...)
	}
	return append([]uint64{}, g.tape...)
}

const maxTape = 1 << 16

// draw returns a value in [0, n); n == 0 means the whole uint64 range.
func (g *G) draw(n uint64) uint64 {
	if g.rep {
		var v uint64
		if g.pos < len(g.tape) {
			v = g.tape[g.pos]
		}
		g.pos++
		if n != 0 {
			v %= n
		}
		return v
	}
	v := splitmix(&g.state)
	if g.hasEnum && len(g.tape) == 0 {
		v = uint64(g.enum)
	}
	if n != 0 {
		v %= n
	}
	if len(g.tape) < maxTape {
		g.tape = append(g.tape, v)
	} else {
		v = 0
	}
	return v
}

func (g *G) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(g.draw(uint64(n)))
}

func (g *G) U64() uint64 {
	switch g.Intn(8) {
	case 0, 1, 2:
		return g.draw(10)
	case 3:
		return g.draw(300)
	case 4:
		b := g.draw(64)
		return uint64(1) << b
	case 5:
		b := g.draw(64)
		return (uint64(1) << b) - 1
	case 6:
		return ^uint64(0) - g.draw(3)
	default:
		return g.draw(0)
	}
}

func (g *G) Bool() bool { return g.Intn(2) == 1 }

// Chance is true with probability num/den (0 on the tape = false).
func (g *G) Chance(num, den int) bool { return g.Intn(den) >= den-num }

func (g *G) Range(lo, hi int) int { return lo + g.Intn(hi-lo+1) }

func pick[T any](g *G, xs []T) T { return xs[g.Intn(len(xs))] }

// weighted picks index i with weight ws[i]
func (g *G) Weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := g.Intn(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

func (g *G) Bytes(max int) []byte {
	n := g.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.draw(256))
	}
	return b
}

// ---- cases ----------------------------------------------------------------

type failure struct {
	Key string // stable identification, matched against known findings
	Msg string
}

type discard struct{}

type Ctx struct {
	g       *G
	input   string // rendering of the generated case
	nontriv bool
	hash    uint64
	classes []string
}

func (c *Ctx) Input(format string, a ...any) {
	if len(a) == 0 {
		c.input = format
	} else {
		c.input = fmt.Sprintf(format, a...)
	}
	if isoInput != "" {
		os.WriteFile(isoInput, []byte(c.input), 0o644)
	}
}

// isoInput is where a case run alone notes its input, in case it never ends.
var isoInput string

// Nontrivial marks the case as non-trivial; key identifies it for distinctness.
func (c *Ctx) Nontrivial(key string) {
	c.nontriv = true
	h := fnv.New64a()
	h.Write([]byte(key))
	c.hash = h.Sum64()
}

func (c *Ctx) Class(s string) { c.classes = append(c.classes, s) }

func (c *Ctx) Fail(key, format string, a ...any) {
	panic(failure{Key: key, Msg: fmt.Sprintf(format, a...)})
}

func (c *Ctx) Discard() { panic(discard{}) }

type caseResult struct {
	fail      *failure
	discarded bool
	ctx       *Ctx
}

func runCase(fn func(*G, *Ctx), g *G) (r caseResult) {
	c := &Ctx{g: g}
	r.ctx = c
	defer func() {
		switch e := recover().(type) {
		case nil:
		case failure:
			r.fail = &e
		case discard:
			r.discarded = true
		default:
			st := string(debug.Stack())
			r.fail = &failure{Key: "panic:" + panicSite(st), Msg: fmt.Sprintf("panic: %v\n%s", e, trimStack(st))}
		}
	}()
	fn(g, c)
	return
}

// panicSite names the innermost frame of the code under test.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/dragmz/teal") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				return l[:i]
			}
			return l
		}
	}
	return "harness"
}

func trimStack(st string) string {
	ls := strings.Split(st, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "dragmz/teal") || strings.Contains(l, "/repo/") {
			out = append(out, l)
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- checks ---------------------------------------------------------------

type Sub struct {
	Name     string
	Fn       func(*G, *Ctx)
	Quick    int
	Thorough int
	// Enum, when set, gives an exhaustive list size: case i gets tape {i}
	Enum func() int
	// Serial runs the cases one at a time
	Serial bool
}

type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []Sub
	Prepare     func() error
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Discarded   int            `json:"discarded"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes,omitempty"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
}

type Report struct {
	Done     bool                `json:"done"`
	Subs     map[string]subStats `json:"subs"`
	Samples  []any               `json:"samples"`
	Known    map[string]int      `json:"known"`
	Failures []Replay            `json:"failures"`
	Distinct int                 `json:"distinct"`
	Evals    int                 `json:"evals"`
}

type Replay struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Input    string   `json:"input"`
	Tape     []uint64 `json:"tape"`
	CaseSeed uint64   `json:"case_seed"`
	Index    int      `json:"index"`
	Shrinks  int      `json:"shrink_attempts"`
	Isolated bool     `json:"isolated,omitempty"`
}

func caseSeed(seed uint64, prop, sub string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, sub, i)
	return h.Sum64()
}

// slots: shared memory with (sub+1, case index, start unix ms) per worker
type slots struct {
	mem []byte
}

func (s *slots) set(w int, sub, idx int) {
	if s == nil {
		return
	}
	b := s.mem[w*24:]
	putU64(b[0:], uint64(sub+1))
	putU64(b[8:], uint64(idx))
	putU64(b[16:], uint64(time.Now().UnixMilli()))
}

func (s *slots) clear(w int) {
	if s == nil {
		return
	}
	putU64(s.mem[w*24:], 0)
}

func putU64(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * i))
	}
}

func getU64(b []byte) uint64 {
	var v uint64
	for i := 0; i < 8; i++ {
		v |= uint64(b[i]) << (8 * i)
	}
	return v
}

const maxWorkers = 16

// quickMul brings the quick tier of the cheap checks to about half a minute.
var quickMul = map[string]int{
	"P01": 12, "P02": 10, "P03": 8, "P04": 15, "P05": 15, "P06": 10, "P07": 8, "P08": 8, "P09": 8, "P10": 10,
	"P11": 5, "P12": 4, "P13": 8, "P14": 6, "P16": 2, "P17": 5, "P18": 6, "P19": 4, "P20": 2, "P21": 2, "P22": 2,
	"P23": 2, "P24": 4, "P25": 8, "P26": 6, "P27": 8, "P28": 15, "P29": 4,
}

// runAll is executed in the child process.
func runAll(ck *Check, tier string, seed uint64, sl *slots, known map[string]bool, scale float64, deadline time.Time) *Report {
	rep := &Report{Subs: map[string]subStats{}, Known: map[string]int{}}
	workers := runtime.NumCPU()
	if workers > maxWorkers {
		workers = maxWorkers
	}
	if os.Getenv("TV_ALONE") != "" {
		workers = 1
	}
	distinct := map[uint64]bool{}
	for si := range ck.Subs {
		sub := &ck.Subs[si]
		n := sub.Quick
		if m := quickMul[ck.ID]; m > 0 && sub.Fn != nil && n > 1000 {
			n *= m
		}
		if tier == "thorough" {
			if n *= 10; n < sub.Thorough {
				n = sub.Thorough
			}
			if sub.Thorough == 0 {
				n = sub.Quick * 20
			}
		}
		if sub.Enum != nil {
			n = sub.Enum()
		} else {
			n = int(float64(n) * scale)
			if n < 1 {
				n = 1
			}
		}
		w := workers
		if sub.Serial {
			w = 1
		}
		var next int64 = -1
		var stop int32
		var mu sync.Mutex
		st := subStats{Classes: map[string]int{}, Exhaustive: sub.Enum != nil}
		var fails []Replay
		subDistinct := map[uint64]bool{}
		var samples []any
		var wg sync.WaitGroup
		for wi := 0; wi < w; wi++ {
			wg.Add(1)
			go func(wi int) {
				defer wg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					i := int(atomic.AddInt64(&next, 1))
					if i >= n {
						break
					}
					if i&63 == 0 && time.Now().After(deadline) {
						break
					}
					sl.set(wi, si, i)
					g := startG(ck, sub, seed, i)
					r := runCase(sub.Fn, g)
					mu.Lock()
					st.Evaluations++
					if r.discarded {
						st.Discarded++
					}
					for _, cl := range r.ctx.classes {
						st.Classes[cl]++
					}
					if r.ctx.nontriv && !r.discarded {
						st.Nontrivial++
						if !subDistinct[r.ctx.hash] {
							subDistinct[r.ctx.hash] = true
							if len(samples) < 3 && r.fail == nil && (i%97 == 13 || n < 400) {
								samples = append(samples, map[string]any{"sub": sub.Name, "case": clip(r.ctx.input, 600)})
							}
						}
						distinct[r.ctx.hash] = true
					}
					if r.fail != nil {
						if known[r.fail.Key] {
							rep.Known[r.fail.Key]++
						} else {
							fails = append(fails, Replay{Property: ck.ID, Sub: sub.Name, Key: r.fail.Key, Message: r.fail.Msg, Input: r.ctx.input, Tape: g.used(), CaseSeed: caseSeed(seed, ck.ID, sub.Name, i), Index: i})
							if len(fails) >= 1 {
								atomic.StoreInt32(&stop, 1)
							}
						}
					}
					mu.Unlock()
				}
				sl.clear(wi)
			}(wi)
		}
		wg.Wait()
		st.Distinct = len(subDistinct)
		rep.Subs[sub.Name] = st
		rep.Samples = append(rep.Samples, samples...)
		rep.Evals += st.Evaluations
		if len(fails) > 0 {
			sort.Slice(fails, func(a, b int) bool { return fails[a].Index < fails[b].Index })
			f := fails[0]
			sl.set(0, si, f.Index)
			f = shrink(sub, f, known)
			sl.clear(0)
			rep.Failures = append(rep.Failures, f)
			break
		}
	}
	rep.Distinct = len(distinct)
	rep.Done = true
	return rep
}

func startG(ck *Check, sub *Sub, seed uint64, i int) *G {
	g := newG(caseSeed(seed, ck.ID, sub.Name, i))
	if sub.Enum != nil {
		g.enum = i
		g.hasEnum = true
	}
	return g
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// shrink edits the tape while the same failure key persists.
func shrink(sub *Sub, f Replay, known map[string]bool) Replay {
	best := append([]uint64{}, f.Tape...)
	attempts := 0
	end := time.Now().Add(25 * time.Second)
	try := func(t []uint64) bool {
		if attempts > 20000 || time.Now().After(end) {
			return false
		}
		attempts++
		g := replayG(t)
		r := runCase(sub.Fn, g)
		if r.fail != nil && r.fail.Key == f.Key {
			u := g.used()
			if tapeLess(u, best) {
				best = u
				f.Message = r.fail.Msg
				f.Input = r.ctx.input
				return true
			}
		}
		return false
	}
	improved := true
	for improved && attempts < 20000 && time.Now().Before(end) {
		improved = false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				t := append(append([]uint64{}, best[:i]...), best[i+size:]...)
				if try(t) {
					improved = true
				} else {
					i += size
					if size == 1 && len(best) > 4000 {
						break
					}
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			t := append([]uint64{}, best...)
			t[i] = 0
			if try(t) {
				improved = true
				continue
			}
			t = append([]uint64{}, best...)
			t[i] /= 2
			if try(t) {
				improved = true
				continue
			}
			t = append([]uint64{}, best...)
			t[i]--
			if try(t) {
				improved = true
			}
		}
	}
	f.Tape = best
	f.Shrinks = attempts
	return f
}

func tapeLess(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
