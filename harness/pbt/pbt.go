// Package pbt is a small property-based testing engine. A case is a sequence
// of bounded integer choices; generators draw from it, so one internal
// shrinker (delete spans, delete chunks, lower values) minimises any case and
// a saved choice sequence replays it. A run is a pure function of the code and
// the seed.
package pbt

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/henderiw/idxtable/zverif/vsched"
)

// Prop is one executable property.
type Prop struct {
	ID       string
	Title    string
	Rule     string // how cases are made and what makes one non-trivial
	Run      func(c *C)
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier
	Budget   uint64
	Race     bool // needs the race build and one OS thread
	Known    []Known
	Assume   []string
}

// Known is a genuine defect that is recorded, not repaired: Still reports
// whether the listed input still fails.
type Known struct {
	ID    string
	What  string
	Still func() bool
}

type stop struct{ msg string }
type discard struct{}

// C is the context of one case.
type C struct {
	choices    []uint64
	replay     []uint64
	replaying  bool
	ceiling    uint64 // on the step budget, for the shrinker
	rng        uint64
	spans      [][2]int
	trace      strings.Builder
	nontrivial bool
	labels     map[string]int
	Index      int
	Budget     uint64
	Scale      int // length factor of this case's histories
	due        int
	reads      int  // how often the history compares everything
	NoCrowd    bool // no case of this kind begins with many entries
	CrowdDen   int  // one in so many does (500 at least)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (c *C) next() uint64 {
	c.rng += 0x9e3779b97f4a7c15
	return mix(c.rng)
}

// U64 draws from [0,n); n==0 means the full 64-bit range.
func (c *C) U64(n uint64) uint64 {
	var v uint64
	if c.replaying {
		if len(c.choices) < len(c.replay) {
			v = c.replay[len(c.choices)]
		}
	} else {
		v = c.next()
	}
	if n != 0 {
		v %= n
	}
	c.choices = append(c.choices, v)
	return v
}

// Int draws from [0,n).
func (c *C) Int(n int) int { return int(c.U64(uint64(n))) }

// Range draws from [a,b].
func (c *C) Range(a, b int) int { return a + c.Int(b-a+1) }

// Bool draws a boolean (false is simplest).
func (c *C) Bool() bool { return c.U64(2) == 1 }

// Chance is true with probability num/den (false is simplest).
func (c *C) Chance(num, den int) bool { return c.Int(den) >= den-num }

// Weighted draws an index with the given weights (0 is simplest).
func (c *C) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := c.Int(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Repeat runs f about avg times (at most max) times the scale of the case, each
// run one shrinkable span.
func (c *C) Repeat(avg, max int, f func(i int)) { c.RepeatFixed(avg*c.Scale, max*c.Scale, f) }

// RepeatFixed is Repeat without the scale.
func (c *C) RepeatFixed(avg, max int, f func(i int)) {
	for i := 0; i < max; i++ {
		st := len(c.choices)
		if c.U64(uint64(avg)+1) == 0 {
			return
		}
		sp := len(c.spans)
		c.spans = append(c.spans, [2]int{st, st})
		f(i)
		c.spans[sp][1] = len(c.choices)
	}
}

// Due tells, in a loop of a history, whether to compare everything now. As
// reads can hide what writes leave behind (they may warm or repair caches),
// a case compares after every call (in long ones after every Scale-th), now and
// then, or not before the end of the history.
func (c *C) Due() bool {
	switch c.reads {
	case 1:
		return c.Chance(1, 4)
	case 2:
		return false
	case 3:
		return c.Chance(1, 8)
	}
	c.due++
	return c.due%c.Scale == 0
}

// Crowded makes the case one of many entries: more budget, fewer comparisons.
func (c *C) Crowded() {
	c.Label("crowded")
	if c.reads != 2 {
		c.reads = 3
	}
	vsched.AddBudget(500_000_000)
}

// Logf appends a line to the history of the case.
func (c *C) Logf(f string, a ...any) {
	if c.trace.Len() < 1<<20 {
		fmt.Fprintf(&c.trace, f, a...)
		c.trace.WriteByte('\n')
	}
}

// Failf ends the case as a violation.
func (c *C) Failf(f string, a ...any) { panic(stop{fmt.Sprintf(f, a...)}) }

// Check fails unless ok.
func (c *C) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Failf(f, a...)
	}
}

// Discard ends the case without a verdict.
func (c *C) Discard() { panic(discard{}) }

// Nontrivial marks the case as non-trivial by the property's rule.
func (c *C) Nontrivial() { c.nontrivial = true }

// IsNontrivial tells whether the case is marked, SetNontrivial sets the mark.
func (c *C) IsNontrivial() bool   { return c.nontrivial }
func (c *C) SetNontrivial(b bool) { c.nontrivial = b }

// Label counts the case in a class.
func (c *C) Label(s string) {
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[s] = 1
}

// Result of one case.
type Result struct {
	Failed     bool
	Kind       string // fail, panic, budget
	Msg        string
	Trace      string
	Choices    []uint64
	Spans      [][2]int
	Nontrivial bool
	Discarded  bool
	Labels     map[string]int
	Hash       uint64
	Steps      uint64 // statements executed (not for race properties)
	Scale      int
	Used       float64 // part of the step budget that was needed
}

func seedOf(seed int64, id string, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return mix(h.Sum64())
}

// RaceErrors reports the number of data races reported so far (race builds).
var RaceErrors = func() int { return 0 }

// maxBudget bounds the statements of any case.
const maxBudget = 4_000_000_000

func budgetOf(b uint64, scale int) uint64 {
	return max(b, min(b*uint64(scale*scale), maxBudget))
}

func exec(p *Prop, c *C) (r Result) {
	races := RaceErrors()
	b := p.Budget
	if b == 0 {
		b = 30_000_000
	}
	c.Budget = b
	vsched.SetCount(b)
	if c.ceiling > 0 {
		vsched.SetCeiling(c.ceiling)
	}
	defer func() {
		x := recover()
		r.Scale = c.Scale
		if !p.Race { // race properties set budgets of their own
			r.Steps = vsched.Steps()
			r.Used = float64(vsched.Steps()) / float64(vsched.Limit())
		}
		vsched.SetCount(1 << 62)
		switch v := x.(type) {
		case nil:
		case stop:
			r.Failed, r.Kind, r.Msg = true, "fail", v.msg
		case discard:
			r.Discarded = true
		case vsched.Budget:
			r.Failed, r.Kind, r.Msg = true, "budget", v.Error()
		case vsched.Memory:
			r.Failed, r.Kind, r.Msg = true, "budget", v.Error()
			debug.FreeOSMemory()
		default:
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			r.Failed, r.Kind, r.Msg = true, "panic", fmt.Sprintf("panic: %v\n%s", v, st)
		}
		if n := RaceErrors() - races; n > 0 && !r.Failed {
			r.Failed, r.Kind, r.Msg = true, "race", fmt.Sprintf("%d data race(s) reported by the race detector", n)
		}
		r.Trace = c.trace.String()
		r.Choices = c.choices
		r.Spans = c.spans
		r.Nontrivial = c.nontrivial
		r.Labels = c.labels
		h := fnv.New64a()
		h.Write([]byte(r.Trace))
		r.Hash = h.Sum64()
	}()
	if c.Scale = []int{1, 3, 8}[c.Weighted(60, 4, 1)]; c.Scale > 1 {
		c.Label(fmt.Sprintf("history length x%d", c.Scale))
		// histories cost up to their length squared
		vsched.AddBudget(budgetOf(b, c.Scale) - b)
	}
	c.reads = c.Weighted(5, 2, 1)
	p.Run(c)
	return
}

// RunIndex runs generated case idx.
func RunIndex(p *Prop, seed int64, idx int) Result {
	return exec(p, &C{rng: seedOf(seed, p.ID, idx), Index: idx})
}

// RunChoices replays a choice sequence.
func RunChoices(p *Prop, ch []uint64) Result {
	return exec(p, &C{replay: ch, replaying: true, Index: -1})
}

// RunSmaller replays a choice sequence as a candidate for a smaller form of the
// failing case r: one that takes far longer is none.
func RunSmaller(p *Prop, r Result, ch []uint64) Result {
	c := &C{replay: ch, replaying: true, Index: -1}
	if !p.Race && r.Kind != "budget" {
		c.ceiling = 2*r.Steps + 1_000_000
	}
	x := exec(p, c)
	if x.Kind == "budget" && c.ceiling > 0 {
		x.Failed = false
	}
	return x
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Shrink minimises a failing case. run must return the result of a choice sequence.
func Shrink(start Result, run func([]uint64) Result, attempts int, limit time.Duration) Result {
	best := start
	t0 := time.Now()
	left := attempts
	try := func(ch []uint64) bool {
		if left <= 0 || time.Since(t0) > limit {
			return false
		}
		left--
		r := run(ch)
		if r.Failed && less(r.Choices, best.Choices) {
			best = r
			return true
		}
		return false
	}
	cut := func(ch []uint64, a, b int) []uint64 {
		n := make([]uint64, 0, len(ch))
		n = append(n, ch[:a]...)
		return append(n, ch[b:]...)
	}
	for progress := true; progress && left > 0 && time.Since(t0) < limit; {
		progress = false
		// groups of spans, then single spans, from the end
		for k := len(best.Spans); k >= 1; k /= 2 {
			for i := len(best.Spans) - k; i >= 0; i-- {
				if i+k <= len(best.Spans) {
					a, b := best.Spans[i][0], best.Spans[i+k-1][1]
					if a < b && b <= len(best.Choices) && try(cut(best.Choices, a, b)) {
						progress = true
					}
				}
			}
		}
		for _, k := range []int{8, 4, 2, 1} {
			for i := len(best.Choices) - k; i >= 0; i-- {
				if i+k <= len(best.Choices) && try(cut(best.Choices, i, i+k)) {
					progress = true
				}
			}
		}
		for i := 0; i < len(best.Choices); i++ {
			for _, f := range []func(uint64) uint64{
				func(uint64) uint64 { return 0 },
				func(v uint64) uint64 { return v >> 32 },
				func(v uint64) uint64 { return v >> 8 },
				func(v uint64) uint64 { return v / 2 },
				func(v uint64) uint64 { return v - 1 },
			} {
				for i < len(best.Choices) && best.Choices[i] > 0 {
					ch := append([]uint64(nil), best.Choices...)
					nv := f(ch[i])
					if nv == ch[i] {
						break
					}
					ch[i] = nv
					if !try(ch) {
						break
					}
					progress = true
				}
			}
		}
	}
	return best
}

// SortedKeys returns the keys of a label map in order.
func SortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
