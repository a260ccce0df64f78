package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
)

// cpure computes on ids, ranges and id sets; it has no state between calls.
type cpure struct{ w *width }

func (s *cpure) fresh()        {}
func (s *cpure) model() cmodel { return nil }

func (s *cpure) do(o *cop) cres {
	var sb strings.Builder
	ids := func(l []tree.ID) {
		for _, i := range l {
			sb.WriteString(idPfx(i).String() + " ")
		}
	}
	switch o.kind {
	case "size", "all":
	case "range":
		r, err := s.w.parse(o.txt)
		if err != nil {
			return cres{}
		}
		sb.WriteString(idPfx(r.From()).String() + "-" + idPfx(r.To()).String() + " ")
		if o.a%4 == 0 {
			sb.WriteString(r.String() + " ")
		}
		ids(r.IDs())
	case "set":
		b := s.w.newSet()
		b.AddRange(s.w.rng(o.a, o.b))
		b.RemoveId(s.w.tid(o.p))
		b.AddId(s.w.tid(o.q))
		x, err := b.Build()
		if err != nil {
			return cres{}
		}
		for _, r := range x.Ranges() {
			sb.WriteString(idPfx(r.From()).String() + "-" + idPfx(r.To()).String() + " ")
		}
		ids(x.IDs())
		id, rest, ok := x.Take(o.p.l)
		if ok {
			ids([]tree.ID{id})
			ids(rest.IDs())
		}
	case "id":
		id := s.w.tid(o.p)
		m, err := id.Mask(o.q.l)
		r := s.w.rangeOf(id)
		if err == nil {
			ids([]tree.ID{m})
		}
		ids([]tree.ID{id.Masked(), s.w.last(id), r.From(), r.To()})
		sb.WriteString(flags(id.Overlaps(s.w.tid(o.q)), err != nil) + txt(id.Matches(o.a)) + " " + strconv.Itoa(id.Compare(s.w.tid(o.q))))
		if o.a%4 == 0 {
			sb.WriteString(id.String())
		}
	default:
		panic("harness: unknown call " + o.kind)
	}
	return yes(sb.String())
}

func flags(bs ...bool) string {
	var sb strings.Builder
	for _, b := range bs {
		sb.WriteString(strconv.FormatBool(b) + " ")
	}
	return sb.String()
}

func pureGen(c *pbt.C, w *width) func() *cop {
	z := newZone(c, w.max)
	return func() *cop {
		o := &cop{kind: []string{"range", "set", "id"}[c.Int(3)]}
		o.a, o.b = z.id(), z.id()
		o.a, o.b = min(o.a, o.b), max(o.a, o.b)
		o.p, o.q = w.pfx(z.id(), idLen(c, w)), w.pfx(z.id(), idLen(c, w))
		o.txt = fmt.Sprintf("%d-%d", o.a, o.b)
		return o
	}
}

// ctrie drives a trie of numbers.
type ctrie struct {
	w *width
	t *tree.Tree[string]
}

func (s *ctrie) fresh()        { s.t = tree.NewTree[string]("t", s.w.isLeft, s.w.bits) }
func (s *ctrie) model() cmodel { return nil }
func (s *ctrie) do(o *cop) cres {
	any := func(a, b string) bool { return true }
	switch o.kind {
	case "claim":
		b, n := s.t.Set(s.w.tid(o.p), lstr(o.l))
		return yes(flags(b) + strconv.Itoa(n))
	case "update":
		b, n := s.t.Add(s.w.tid(o.p), lstr(o.l), nil)
		return yes(flags(b) + strconv.Itoa(n))
	case "release":
		return yes(strconv.Itoa(s.t.Delete(s.w.tid(o.p), any, "")))
	case "size", "all":
		var l []string
		for it := s.t.Iterate(); it.Next(); {
			vs := append([]string(nil), it.Vals()...)
			sort.Strings(vs)
			l = append(l, strings.Join(vs, "+"))
		}
		return yes(strings.Join(l, " "))
	}
	panic("harness: unknown call " + o.kind)
}

// box is one of the containers used next to each other.
type box struct {
	s     csys
	setup []*cop
	prog  []*cop
	of    int // clone of this earlier box, or -1
	solo  []string
}

// many puts up to 400 prefixes of 0..2^lim-1 into the box first.
func (b *box) many(c *pbt.C, w *width, lim int) {
	manyPrefixes(c, w, uint64(1)<<lim-1, c.Int(400), func(p pfx) {
		b.setup = append(b.setup, &cop{kind: "claim", p: p, txt: p.String(), l: wideLabels(len(b.setup))})
	})
}

func resStr(r cres) string { return flags(r.ok) + r.s + " " + txt(r.id) }

func prepare(bs []*box, i int) {
	b := bs[i]
	if b.of >= 0 {
		switch x := b.s.(type) {
		case *ctree:
			x.t = bs[b.of].s.(*ctree).t.Clone()
		case *ctrie:
			x.t = bs[b.of].s.(*ctrie).t.Clone()
		}
		return
	}
	b.s.fresh()
	for _, o := range b.setup {
		b.s.do(o)
	}
}

var finals = []*cop{{kind: "size"}, {kind: "all"}}

// isolation: containers used next to each other, each by one task, answer as
// they do when used alone.
func isolation(c *pbt.C) {
	n := 2 + b2i(c.Chance(1, 3))
	wide := c.Chance(1, 40)
	lim, kind, tab := 4, 0, 0
	long := ""
	if wide { // many entries in each
		lim = 9
		c.Label("wide")
		if c.Chance(3, 4) { // and the same long call on all, of the same kind
			long = concLong[c.Int(len(concLong))]
			c.Label("the same long call on each of many entries")
		}
	}
	var bs []*box
	var lastGen func() *cop
	for i := 0; i < n; i++ {
		b := &box{of: -1}
		var gen func() *cop
		if i > 0 && c.Chance(1+b2i(long == ""), 4) {
			switch x := bs[i-1].s.(type) {
			case *ctree:
				b.s, b.of = &ctree{w: x.w, gw: x.gw, l: x.l, raw: true}, i-1
			case *ctrie:
				b.s, b.of = &ctrie{w: x.w}, i-1
			}
			if b.of >= 0 {
				c.Logf("box %d: clone of box %d", i, b.of)
				c.Label("clone next to its original")
				gen = lastGen
			}
		}
		if b.s == nil {
			if i == 0 || long == "" && !c.Chance(1, 2) { // else the kind of the one before
				kind, tab = c.Weighted(4, 3, 2, 2), c.Int(3)*b2i(long == "" || c.Chance(1, 3))
			}
			switch kind {
			case 0:
				k := 1 + c.U64(6)
				if wide {
					k = 16 + c.U64(40<<c.Int(4))
				}
				s, k := genTabOf(c, k, tab)
				b.s, gen = s, tabGen(c, s, k)
				if wide {
					crowdIDs(c, c.Int(int(k)+1)/(1+b2i(long != "")), k-1, func(i int, id uint64) {
						b.setup = append(b.setup, &cop{kind: "claim", a: id, txt: fmt.Sprint(id), l: wideLabels(i)})
					})
				}
			case 1:
				w := genWidth(c)
				l := uint8(1 + c.Int(4))
				if c.Chance(1, 5) {
					l = w.bits
				}
				if wide {
					l = max(l, uint8(lim))
				}
				c.Logf("tree%s of bit length %d", w.name, l)
				g := treeGen(c, w, l, lim)
				if wide {
					b.many(c, w, lim)
				}
				b.s = &ctree{w: w, gw: w, l: l, raw: true}
				gen = func() *cop {
					o := g()
					if o.kind == "all" {
						o.kind = "iter"
					}
					return o
				}
			case 2:
				w := genWidth(c)
				c.Logf("computations of %s bits", w.name)
				b.s, gen = &cpure{w}, pureGen(c, w)
			case 3:
				w := genWidth(c)
				c.Logf("trie of %s bits", w.name)
				b.s = &ctrie{w: w}
				g := treeGen(c, w, w.bits, lim)
				if wide {
					b.many(c, w, lim)
				}
				gen = func() *cop {
					o := g()
					for o.kind != "claim" && o.kind != "release" && o.kind != "update" && o.kind != "all" {
						o = g()
					}
					return o
				}
			}
			c.RepeatFixed(4, 10, func(int) { b.setup = append(b.setup, gen()) })
		}
		lastGen = gen
		o := gen()
		for k := 0; k < 200 && long != "" && o.kind != long; k++ {
			o = gen()
		}
		if long != "" && (o.kind == "claimsize" || o.kind == "findsize") {
			o.b = 1 + o.b/4
			o.txt = fmt.Sprint(o.b)
		}
		b.prog = append(b.prog, o)
		c.RepeatFixed(4, 8, func(int) { b.prog = append(b.prog, gen()) })
		if i > 0 && c.Bool() { // a call like one of the box before
			like := bs[i-1].prog[c.Int(len(bs[i-1].prog))]
			o := gen()
			for k := 0; k < 60 && o.kind != like.kind; k++ {
				o = gen()
			}
			b.prog = append(b.prog, o)
		}
		bs = append(bs, b)
		c.Logf("box %d: setup %s, calls %s", i, b.setup, b.prog)
	}
	vsched.SetCount(100_000_000)
	for i, b := range bs {
		for j := i; j >= 0; j-- {
			if bs[j].of < 0 {
				for k := j; k <= i; k++ {
					prepare(bs, k)
				}
				break
			}
		}
		for _, o := range b.prog {
			b.solo = append(b.solo, resStr(b.s.do(o)))
		}
		for _, o := range finals {
			b.solo = append(b.solo, resStr(b.s.do(o)))
		}
	}
	run := func(first int, pts []vsched.Switch) vsched.Outcome {
		vsched.SetCount(100_000_000)
		for i := range bs {
			prepare(bs, i)
		}
		got := make([][]string, n)
		fns := make([]func(), n)
		for i := range bs {
			i := i
			got[i] = make([]string, 0, 16)
			fns[i] = func() {
				for _, o := range bs[i].prog {
					got[i] = append(got[i], resStr(bs[i].s.do(o)))
				}
			}
		}
		out := vsched.Run(fns, first, pts, 10_000_000)
		vsched.SetCount(100_000_000)
		sched := fmt.Sprintf("task %d first, switches at %v", first, pts)
		if len(out.Panics) > 0 {
			c.Failf("panic with %s: %s", sched, strings.Join(out.Panics, "\n"))
		}
		c.Check(!out.Deadlock && !out.Overrun, "calls on separate containers do not end (deadlock: %v), %s", out.Deadlock, sched)
		for i, b := range bs {
			for _, o := range finals {
				got[i] = append(got[i], resStr(b.s.do(o)))
			}
			for k := range got[i] {
				what := "the final listing"
				if k < len(b.prog) {
					what = b.prog[k].String()
				}
				c.Check(got[i][k] == b.solo[k], "box %d: %s answers %q next to the others (%s), %q alone", i, what, got[i][k], sched, b.solo[k])
			}
		}
		if out.Contended > 0 {
			c.Label("a call waited for a call on another container")
		}
		return out
	}
	base := run(0, nil)
	for k := 1 + c.Int(5); k > 0; k-- {
		var pts []vsched.Switch
		for j := 1 + c.Int(5); j > 0; j-- {
			pts = append(pts, vsched.Switch{Step: 1 + c.U64(base.Steps), To: c.Int(2)})
		}
		sort.Slice(pts, func(i, j int) bool { return pts[i].Step < pts[j].Step })
		if out := run(c.Int(n), pts); out.Switches > 0 {
			c.Nontrivial()
		}
	}
}

func init() {
	register(&pbt.Prop{ID: "C30", Quick: 60000, Thorough: 2400000, Budget: 400_000_000, Race: true,
		Rule: "two or three containers of random kinds (tables, trees and tries, also an original and its clone, id and set computations) used at the same time, each by one task with 1-9 calls, under several schedules with 1-5 preemption points in a race build; every answer and the final listings must be those of the same calls made alone; non-trivial = a task was preempted",
		Run:  isolation})
}
