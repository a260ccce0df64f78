package props

import (
	"fmt"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
)

// A cursor is one iterator: at reads the current element (twice).
type cursor struct {
	what string
	next func() bool
	at   func() (string, string)
	want []string
	pos  int // delivered so far
	end  int // times the end was seen
}

// cursors advances several iterators over one container in a random order,
// with queries in between; each delivers the whole listing, then stays at the end.
func cursors(c *pbt.C, open func() *cursor, query func(), change func() bool) {
	var cs []*cursor
	ended := 0
	for n := 2 + c.Int(4); n > 0; n-- {
		cs = append(cs, open())
	}
	for ended < len(cs) {
		switch c.Weighted(20, 2, 1) {
		case 1:
			query()
			continue
		case 2:
			if len(cs) < 8 {
				cs = append(cs, open())
				c.Label("opened while others are under way")
			}
			if change != nil && change() {
				c.Label("changed while iterators are under way")
			}
			continue
		}
		x := cs[c.Int(len(cs))]
		for k := 1 + c.Int(3); k > 0; k-- {
			ok := x.next()
			c.Check(ok == (x.pos < len(x.want)), "%s: Next is %v after %d of %d elements", x.what, ok, x.pos, len(x.want))
			if !ok {
				if x.end++; x.end == 2 {
					ended++
				}
				break
			}
			a, b := x.at()
			c.Check(a == x.want[x.pos], "%s: element %d is %s, want %s", x.what, x.pos, a, x.want[x.pos])
			c.Check(a == b, "%s: element %d reads %s, then %s", x.what, x.pos, a, b)
			x.pos++
		}
		mid := 0
		for _, x := range cs {
			if x.pos > 0 && x.pos < len(x.want) {
				mid++
			}
		}
		if mid > 1 {
			c.Nontrivial()
		}
	}
}

func cursorsTree(c *pbt.C) {
	s := anyTreeSys(c)
	c.Repeat(8, 40, func(int) { s.step(8, 1, 2, 2, 1) })
	i := 0
	var want []string
	var es tree.Entries
	for it := s.t.Iterate(); it.Next(); {
		es = append(es, it.Entry())
		want = append(want, showEntry(it.Entry()))
	}
	s.entries("Iterate", es, s.keys())
	cursors(c, func() *cursor {
		i++
		it := s.t.Iterate()
		return &cursor{what: fmt.Sprintf("iterator %d", i), next: it.Next, want: want,
			at: func() (string, string) { return showEntry(it.Entry()), showEntry(it.Entry()) }}
	}, func() {
		switch c.Int(4) {
		case 0:
			s.entries("GetAll", s.t.GetAll(), s.keys())
		case 1:
			s.byLabel()
		case 2:
			s.get(s.stored())
		case 3:
			s.relatives()
		}
	}, nil)
}

func cursorsTrie(c *pbt.C) {
	s := newTrieSys(c)
	multi := c.Bool()
	c.Repeat(8, 40, func(int) {
		if !c.Chance(1, 4) {
			if multi {
				s.add()
			} else {
				s.set()
			}
		} else {
			if multi {
				s.deleteN()
			} else {
				s.delete1()
			}
		}
	})
	var want []string
	for _, p := range s.keys() {
		want = append(want, bag(s.m[p]))
	}
	i := 0
	cursors(c, func() *cursor {
		i++
		it := s.t.Iterate()
		return &cursor{what: fmt.Sprintf("iterator %d", i), next: it.Next, want: want, at: func() (string, string) {
			a := bag(it.Vals())
			return a, bag(it.ValsWithBuffer(make([]tval, 0, c.Int(4))))
		}}
	}, func() { s.check("full iteration", s.t, s.m) }, nil)
}

func cursorsIdx(c *pbt.C) {
	s := newIdxSys(c, false)
	c.Repeat(8, 40, func(int) {
		switch c.Weighted(6, 2, 2) {
		case 0:
			s.claim()
		case 1:
			s.release()
		case 2:
			s.claimRange()
		}
	})
	i := 0
	cursors(c, func() *cursor {
		i++
		if c.Bool() {
			it := s.t.IterateFree()
			x := &cursor{what: fmt.Sprintf("free iterator %d", i), next: it.Next,
				at: func() (string, string) { return fmt.Sprint(it.ID()), fmt.Sprint(it.ID()) }}
			for id := uint64(0); id < s.n; id++ {
				if _, held := s.m[id]; !held {
					x.want = append(x.want, fmt.Sprint(id))
				}
			}
			return x
		}
		it := s.t.Iterate()
		x := &cursor{what: fmt.Sprintf("iterator %d", i), next: it.Next, at: func() (string, string) {
			return fmt.Sprint(it.ID(), ":", it.Value().Data()), fmt.Sprint(it.Value().ID(), ":", it.Value().Data())
		}}
		for _, k := range s.keys() {
			x.want = append(x.want, fmt.Sprint(k, ":", s.m[k]))
		}
		return x
	}, func() {
		s.getAll()
	}, func() bool {
		switch c.Int(3) {
		case 0:
			s.claim()
		case 1:
			s.release()
		case 2:
			s.update()
		}
		return true
	})
}

// cursorsRange walks several prefix lists of ranges at once.
func cursorsRange(c *pbt.C) {
	w := genWidth(c)
	z := newZone(c, w.max)
	i := 0
	cursors(c, func() *cursor {
		i++
		a, b := z.id(), z.id()
		a, b = min(a, b), max(a, b)
		l := w.rng(a, b).IDs()
		if c.Bool() {
			l = w.rng(a, b).AppendIDs(make([]tree.ID, 0, c.Int(40)))
		}
		k := -1
		x := &cursor{what: fmt.Sprintf("list %d of %d-%d", i, a, b), next: func() bool { k++; return k < len(l) },
			at: func() (string, string) { return showID(l[k]), showID(l[k]) }}
		for _, p := range w.cover(a, b) {
			x.want = append(x.want, p.String())
		}
		return x
	}, func() { w.rng(z.id(), w.max).IDs() }, nil)
}

func init() {
	register(&pbt.Prop{ID: "C31", Quick: 300000, Thorough: 12000000, Budget: 400_000_000,
		Rule: "2-8 iterators over one random tree, trie or index table (claimed and free ids; this one also changed meanwhile), or prefix lists of ranges, opened at random moments and advanced in a random order with queries in between; non-trivial = two of them were part way at the same time",
		Run: func(c *pbt.C) {
			c.CrowdDen = 8000
			switch c.Weighted(4, 3, 3, 1) {
			case 0:
				cursorsTree(c)
			case 1:
				cursorsTrie(c)
			case 2:
				cursorsIdx(c)
			case 3:
				cursorsRange(c)
			}
		}})
}
