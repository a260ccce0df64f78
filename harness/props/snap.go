package props

import (
	"fmt"
	"strings"

	"github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
)

// An answer is what a query returned: how it reads now, and a way to reorder
// and clear the list it is (nil if it is none).
type answer struct {
	show     func() string
	scribble func()
}

func single(show func() string) answer { return answer{show: show} }

func list[T any](l []T, show func(T) string) answer {
	return answer{func() string {
		var sb strings.Builder
		for _, e := range l {
			sb.WriteString(show(e))
			sb.WriteByte(' ')
		}
		return sb.String()
	}, func() { scribble(l) }}
}

func showEntry(e tree.Entry) string { return idPfx(e.ID()).String() + lstr(e.Labels()) }
func showID(i tree.ID) string       { return idPfx(i).String() }
func showRange(r tree.Range) string { return showID(r.From()) + ".." + showID(r.To()) }
func showRoute(r table.Route) string {
	return fmt.Sprint(r.Prefix(), lstr(r.Labels()), r.GetData())
}

type kept struct {
	what string
	a    answer
	was  string
	q    func() answer // asks again (nil: not a query)
}

// keeper holds answers across later calls.
type keeper struct {
	c *pbt.C
	l []kept
}

// keep takes an answer that q gives; what is asked again after the first
// answer was reordered must give the same.
func (k *keeper) keep(what string, q func() answer) {
	a := q()
	was := a.show()
	k.c.Logf("%s -> %s, kept", what, cut(was))
	if a.scribble != nil && k.c.Chance(1, 3) {
		a.scribble()
		again := q()
		k.c.Check(again.show() == was, "%s: %s, after its list was reordered and cleared by the caller: %s", what, cut(was), cut(again.show()))
		k.c.Label("returned list reordered")
		a = again
	}
	k.l = append(k.l, kept{what, a, was, q})
}

// hold takes the answer of a call that changed something.
func (k *keeper) hold(what string, a answer) {
	k.l = append(k.l, kept{what, a, a.show(), nil})
	k.c.Logf("result of %s kept", what)
}

func (k *keeper) check() {
	for _, x := range k.l {
		now := x.a.show()
		k.c.Check(now == x.was, "the answer of %s was %s and has turned into %s", x.what, cut(x.was), cut(now))
	}
}

// done checks all answers a last time, and tells non-trivial cases apart.
func (k *keeper) done() {
	k.check()
	for _, x := range k.l {
		if x.q != nil && x.was != "" && x.q().show() != x.was {
			k.c.Label("a kept answer differs from a new one")
			k.c.Nontrivial()
		}
	}
	k.check()
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func snapTable(c *pbt.C) {
	w := genWidth(c)
	a, b := genWindow(c, w, 1)
	s := newTblSys(c, w, a, b)
	k := &keeper{c: c}
	c.Repeat(12, 60, func(int) {
		switch c.Weighted(4, 3, 3, 2, 6) {
		case 0:
			s.claim(s.id())
		case 1:
			s.update(s.someHeld())
		case 2:
			s.release(s.someHeld())
		case 3:
			if low, ok := s.lowest(); ok {
				l := s.labels()
				e, err := s.t.ClaimFree(cloneLabels(l))
				c.Check(err == nil, "ClaimFree: %v", err)
				s.entry("ClaimFree", e, low, l)
				s.m[low] = l
				k.hold(fmt.Sprintf("ClaimFree(%s)", lstr(l)), single(func() string { return showEntry(e) }))
			}
		case 4:
			switch c.Int(3) {
			case 0:
				k.keep("GetAll", func() answer { return list(s.t.GetAll(), showEntry) })
			case 1:
				sel, str := genSelector(c)
				k.keep("GetByLabel("+str+")", func() answer { return list(s.t.GetByLabel(sel), showEntry) })
			case 2:
				id := s.someHeld()
				k.keep(fmt.Sprintf("Get(%d)", id), func() answer {
					e, err := s.t.Get(id)
					if err != nil {
						return single(func() string { return "" })
					}
					return single(func() string { return showEntry(e) })
				})
			}
		}
		if c.Due() {
			k.check()
		}
	})
	k.done()
	s.observe()
}

func snapTree(c *pbt.C) {
	s := anyTreeSys(c)
	k := &keeper{c: c}
	c.Repeat(12, 60, func(int) {
		switch c.Weighted(6, 6) {
		case 0:
			if c.Chance(1, 6) {
				l := s.labels()
				e, err := s.t.ClaimFree(cloneLabels(l))
				c.Check((err == nil) == (len(s.free()) > 0), "ClaimFree: %v, free ids: %s", err, listStr(s.free(), 8))
				if err == nil {
					s.m[idPfx(e.ID())] = l
					k.hold(fmt.Sprintf("ClaimFree(%s)", lstr(l)), single(func() string { return showEntry(e) }))
				}
			} else {
				s.step(6, 0, 2, 4, 1)
			}
		case 1:
			x := s.stored()
			switch c.Int(6) {
			case 0:
				k.keep("GetAll", func() answer { return list(s.t.GetAll(), showEntry) })
			case 1:
				sel, str := genSelector(c)
				k.keep("GetByLabel("+str+")", func() answer { return list(s.t.GetByLabel(sel), showEntry) })
			case 2:
				k.keep(fmt.Sprintf("Get(%s)", x), func() answer {
					e, err := s.t.Get(s.w.tid(x))
					if err != nil {
						return single(func() string { return "" })
					}
					return single(func() string { return showEntry(e) })
				})
			case 3:
				k.keep(fmt.Sprintf("Children(%s)", x), func() answer { return list(s.t.Children(s.w.tid(x)), showEntry) })
			case 4:
				k.keep(fmt.Sprintf("Parents(%s)", x), func() answer { return list(s.t.Parents(s.w.tid(x)), showEntry) })
			case 5: // the entries an iterator has delivered
				k.keep("entries delivered by Iterate", func() answer {
					var es tree.Entries
					for it := s.t.Iterate(); it.Next(); {
						es = append(es, it.Entry())
					}
					return list(es, showEntry)
				})
			}
		}
		if c.Due() {
			k.check()
		}
	})
	k.done()
	s.observe()
}

func snapIdx(c *pbt.C) {
	s := newIdxSys(c, true)
	k := &keeper{c: c}
	type ent = idxtable.Entry[int]
	show := func(e ent) string { return fmt.Sprintf("%d:%d", e.ID(), e.Data()) }
	num := func(i uint64) string { return fmt.Sprint(i) }
	c.Repeat(12, 60, func(int) {
		switch c.Weighted(4, 3, 3, 2, 2, 6) {
		case 0:
			s.claim()
		case 1:
			s.update()
		case 2:
			s.release()
		case 3:
			if low, ok := s.lowestFree(); ok {
				d := s.data()
				e, err := s.t.ClaimDynamic(d)
				c.Check(err == nil && e != nil && e.ID() == low && e.Data() == d, "ClaimDynamic(%d): %v %v", d, e, err)
				s.m[low] = d
				k.hold(fmt.Sprintf("ClaimDynamic(%d)", d), single(func() string { return show(e) }))
			}
		case 4:
			n := 1 + c.U64(5)
			d := s.data()
			es, err := s.t.ClaimSize(n, d)
			if err == nil {
				for _, e := range es {
					s.m[e.ID()] = d
				}
				k.hold(fmt.Sprintf("ClaimSize(%d,%d)", n, d), list(es, show))
			}
		case 5:
			switch c.Int(5) {
			case 0:
				k.keep("GetAll", func() answer { return list(s.t.GetAll(), show) })
			case 1:
				n := 1 + c.U64(5)
				k.keep(fmt.Sprintf("FindFreeSize(%d)", n), func() answer {
					l, _ := s.t.FindFreeSize(n)
					return list(l, num)
				})
			case 2:
				a, n := s.rangeArgs()
				if n > 1000 {
					return
				}
				k.keep(fmt.Sprintf("FindFreeRange(%d,%d)", a, n), func() answer {
					l, _ := s.t.FindFreeRange(a, n)
					return list(l, num)
				})
			case 3:
				id := s.id()
				k.keep(fmt.Sprintf("Get(%d)", id), func() answer {
					e, err := s.t.Get(id)
					if err != nil {
						return single(func() string { return "" })
					}
					return single(func() string { return show(e) })
				})
			case 4:
				if s.n > 1000 {
					return
				}
				k.keep("entries delivered by Iterate", func() answer {
					var es []ent
					for it := s.t.Iterate(); it.Next(); {
						es = append(es, it.Value())
					}
					return list(es, show)
				})
			}
		}
		if c.Due() {
			k.check()
		}
	})
	k.done()
	s.observe()
}

func snapIP(c *pbt.C) {
	s := newIPSys(c, false)
	k := &keeper{c: c}
	c.Repeat(12, 60, func(int) {
		switch c.Weighted(4, 3, 3, 1, 6) {
		case 0:
			s.claim()
		case 1:
			s.update()
		case 2:
			s.release()
		case 3:
			s.fill()
		case 4:
			switch c.Int(3) {
			case 0:
				k.keep("GetAll", func() answer { return list(s.t.GetAll(), showRoute) })
			case 1:
				sel, str := genSelector(c)
				k.keep("GetByLabel("+str+")", func() answer { return list(s.t.GetByLabel(sel), showRoute) })
			case 2:
				st, _, _ := s.held()
				k.keep(fmt.Sprintf("Get(%q)", st), func() answer {
					r, err := s.t.Get(st)
					if err != nil {
						return single(func() string { return "" })
					}
					return single(func() string { return showRoute(r) })
				})
			}
		}
		if c.Due() {
			k.check()
		}
	})
	k.done()
	s.observe()
}

func snapSet(c *pbt.C) {
	s := newSetSys(c)
	k := &keeper{c: c}
	var built []builtSet
	c.Repeat(12, 40, func(int) {
		switch c.Weighted(6, 2, 2, 3) {
		case 0:
			s.op(built)
		case 1:
			built = append(built, s.build())
		case 2:
			if len(built) > 0 {
				x := built[c.Int(len(built))]
				l := idLen(c, s.w)
				if c.Bool() {
					l = s.w.bits
				}
				id, rest, ok := x.s.Take(l)
				c.Logf("RemoveFreePrefix(%d) of a set -> %v %v", l, id, ok)
				if ok {
					p := idPfx(id)
					built = append(built, builtSet{rest, contents([]setOp{{true, x.want}, {false, []span{{s.w.lo(p), s.w.hi(p)}}}})})
					k.hold(fmt.Sprintf("RemoveFreePrefix(%d)", l), single(func() string { return showID(id) }))
				}
			}
		case 3:
			if len(built) > 0 {
				x := built[c.Int(len(built))]
				if c.Bool() {
					k.keep("Ranges of a set", func() answer { return list(x.s.Ranges(), showRange) })
				} else {
					k.keep("IDs of a set", func() answer { return list(x.s.IDs(), showID) })
				}
				c.Nontrivial()
			}
		}
		if c.Due() {
			k.check()
		}
	})
	k.done()
	for i, b := range built {
		checkSet(c, s.w, fmt.Sprintf("set number %d at the end", i), b)
	}
}

func init() {
	register(&pbt.Prop{ID: "C27", Quick: 400000, Thorough: 16000000, Budget: 200_000_000,
		Rule: "answers of every query of every container (lists, entries, id lists, routes, id sets; not the values of a trie iterator, which are documented as valid only until it moves on) kept across random later histories, read again after calls and at the end, and reordered and cleared by the caller before the query is repeated; non-trivial = the same query gives another answer by the end (for id sets: the answer of a built set was kept)",
		Run: func(c *pbt.C) {
			switch c.Weighted(3, 4, 2, 2, 2) {
			case 0:
				snapTable(c)
			case 1:
				snapTree(c)
			case 2:
				snapIdx(c)
			case 3:
				snapIP(c)
			case 4:
				snapSet(c)
			}
		}})
}
