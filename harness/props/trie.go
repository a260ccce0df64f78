package props

import (
	"fmt"
	"sort"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
)

// tval is a trie value that knows its prefix.
type tval struct {
	p pfx
	k int // key for matching
	n int // unique
}

// trieSys drives a trie next to a map of prefixes to bags.
type trieSys struct {
	c    *pbt.C
	w    *width
	t    *tree.Tree[tval]
	m    map[pfx][]tval
	z    *zone
	ctr  int
	buf  []tval // of the last call
	base string
}

func newTrieSys(c *pbt.C) *trieSys {
	s := &trieSys{c: c, w: genWidth(c), m: map[pfx][]tval{}}
	s.t = tree.NewTree[tval]("t", s.w.isLeft, s.w.bits)
	s.z = newZone(c, s.w.max)
	c.Logf("NewTree(%s bits)", s.w.name)
	if k := crowd(c, 4000); k > 0 {
		var ps []pfx
		set := func(p pfx) {
			s.ctr++
			v := tval{p, s.ctr % 4, s.ctr}
			added, n := s.t.Set(s.w.tid(p), v)
			c.Check(added && n == 1, "Set(%s): got %v %d, not stored before", p, added, n)
			s.m[p] = []tval{v}
		}
		manyPrefixes(c, s.w, s.w.max, k, func(p pfx) {
			set(p)
			ps = append(ps, p)
		})
		c.Logf("%d x Set", len(s.m))
		season(c, len(ps), 300, func(i int) {
			p := ps[i]
			if len(s.m[p]) == 0 {
				set(p)
				return
			}
			n := s.t.Delete(s.w.tid(p), func(a, b tval) bool { return true }, tval{})
			c.Check(n == 1, "Delete(%s): %d removed, not 1", p, n)
			delete(s.m, p)
		})
	}
	return s
}

func (s *trieSys) keys() []pfx {
	ks := make([]pfx, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return pfxLess(ks[i], ks[j]) })
	return ks
}

func (s *trieSys) pick() pfx { return genPfx(s.c, s.w, s.z, s.keys()) }

func (s *trieSys) stored() pfx {
	ks := s.keys()
	if len(ks) > 0 && s.c.Chance(4, 5) {
		return ks[s.c.Int(len(ks))]
	}
	return s.pick()
}

func (s *trieSys) set() {
	if s.c.Chance(1, 400) {
		for _, p := range genChain(s.c, s.w, s.z, 0) {
			s.setAt(p)
		}
		return
	}
	s.setAt(s.pick())
}

func (s *trieSys) setAt(p pfx) {
	s.ctr++
	v := tval{p, 0, s.ctr}
	_, had := s.m[p]
	added, n := s.t.Set(s.w.tid(p), v)
	s.c.Logf("Set(%s,%d) -> %v %d", p, v.n, added, n)
	s.c.Check(added == !had && n == 1, "Set(%s): got %v %d, stored before: %v", p, added, n, had)
	s.m[p] = []tval{v}
}

// buffer is a scratch slice for a call: new, or with values left from before
func (s *trieSys) buffer() []tval {
	switch s.c.Int(4) {
	case 1:
		s.buf = make([]tval, 0, s.c.Int(4))
	case 2:
		s.ctr++
		s.buf = append(s.buf, tval{s.pick(), s.c.Int(4), -2 - s.ctr})
	case 3:
		if cap(s.buf) > 0 {
			s.buf = s.buf[:1+s.c.Int(cap(s.buf))]
		}
	}
	if len(s.buf) > 0 {
		s.c.Label("scratch slice with values in it")
	}
	return s.buf
}

func always(tval, tval) bool { return true }

func (s *trieSys) delete1() {
	p := s.stored()
	want := 0
	mode := s.c.Weighted(3, 2, 1)
	mf := always
	mv := tval{}
	switch mode {
	case 0:
		want = len(s.m[p])
	case 1: // exactly the stored value
		mf = func(a, b tval) bool { return a == b }
		if l := s.m[p]; len(l) > 0 {
			mv = l[0]
			want = 1
		}
	case 2: // a value that is not there
		mf = func(a, b tval) bool { return a == b }
		mv = tval{p, 0, -1}
	}
	var n int
	if s.c.Bool() {
		n = s.t.Delete(s.w.tid(p), mf, mv)
	} else {
		n = s.t.DeleteWithBuffer(s.buffer(), s.w.tid(p), mf, mv)
	}
	s.c.Logf("Delete(%s,%s) -> %d", p, []string{"any", "exact", "other"}[mode], n)
	s.c.Check(n == want, "Delete(%s): removed %d, want %d", p, n, want)
	if want > 0 {
		delete(s.m, p)
		s.c.Label("delete")
		for _, q := range s.keys() {
			if s.w.contains(p, q) {
				s.c.Label("delete above stored prefixes")
				s.c.Nontrivial()
			} else if s.w.contains(q, p) {
				s.c.Label("delete below a stored prefix")
			}
		}
	}
}

func (s *trieSys) add() {
	if s.c.Chance(1, 400) {
		for _, p := range genChain(s.c, s.w, s.z, 0) {
			s.addAt(p)
		}
		return
	}
	p := s.pick()
	if s.c.Chance(2, 3) {
		p = s.stored()
	}
	s.addAt(p)
}

func (s *trieSys) addAt(p pfx) {
	s.ctr++
	v := tval{p, s.c.Int(4), s.ctr}
	var mf tree.MatchesFunc[tval]
	dup := false
	mode := s.c.Int(3)
	switch mode {
	case 1:
		mf = func(stored, val tval) bool { return stored.k == val.k }
	case 2: // not symmetric: a stored value with a bigger key blocks
		mf = func(stored, val tval) bool { return stored.k > val.k }
	}
	for _, x := range s.m[p] {
		dup = dup || mf != nil && mf(x, v)
	}
	added, n := s.t.Add(s.w.tid(p), v, mf)
	s.c.Logf("Add(%s,k%d n%d,%s) -> %v %d", p, v.k, v.n, []string{"no rule", "unique key", "key above"}[mode], added, n)
	if !dup {
		s.m[p] = append(s.m[p], v)
	} else {
		s.c.Label("add ignored as duplicate")
	}
	s.c.Check(added == !dup && n == len(s.m[p]), "Add(%s): got %v %d, want %v %d", p, added, n, !dup, len(s.m[p]))
	if len(s.m[p]) > 1 {
		s.c.Label("prefix with several values")
	}
}

func (s *trieSys) deleteN() {
	p := s.stored()
	mv := tval{p, s.c.Int(4), 0}
	var mf tree.MatchesFunc[tval]
	mode := s.c.Weighted(4, 2, 1, 2)
	switch mode {
	case 0:
		mf = func(a, b tval) bool { return a.k == b.k }
	case 1:
		mf = func(a, b tval) bool { return a.k > b.k }
	case 2:
		mf = always
	case 3:
		mf = func(a, b tval) bool { return a.n == b.n }
		if l := s.m[p]; len(l) > 0 {
			mv = l[s.c.Int(len(l))]
		}
	}
	var keep []tval
	for _, x := range s.m[p] {
		if !mf(x, mv) {
			keep = append(keep, x)
		}
	}
	want := len(s.m[p]) - len(keep)
	var n int
	if s.c.Bool() {
		n = s.t.Delete(s.w.tid(p), mf, mv)
	} else {
		n = s.t.DeleteWithBuffer(s.buffer(), s.w.tid(p), mf, mv)
	}
	s.c.Logf("Delete(%s,%s k%d n%d) -> %d", p, []string{"same key", "key above", "any", "exact"}[mode], mv.k, mv.n, n)
	s.c.Check(n == want, "Delete(%s): removed %d, want %d of %d", p, n, want, len(s.m[p]))
	if want > 0 {
		s.c.Label("delete")
		if len(keep) > 1 {
			s.c.Label("delete kept several values")
			s.c.Nontrivial()
		}
	}
	s.m[p] = keep
	if len(keep) == 0 {
		delete(s.m, p)
	}
}

// check compares an iteration of t with the model.
func (s *trieSys) check(what string, t *tree.Tree[tval], m map[pfx][]tval) {
	ks := make([]pfx, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return pfxLess(ks[i], ks[j]) })
	it := t.Iterate()
	i := 0
	for ; it.Next(); i++ {
		var vs []tval
		if i%2 == 0 {
			vs = it.Vals()
		} else {
			vs = it.ValsWithBuffer(make([]tval, 0, 2))
		}
		s.c.Check(i < len(ks), "%s: more prefixes than the %d stored, extra values %v", what, len(ks), vs)
		s.c.Check(bag(vs) == bag(m[ks[i]]), "%s: prefix number %d holds %v, want %v", what, i, vs, m[ks[i]])
	}
	s.c.Check(i == len(ks), "%s: %d prefixes, want %s", what, i, listStr(ks, 20))
}

func bag(l []tval) string {
	if len(l) == 1 {
		return fmt.Sprint(l[0])
	}
	s := append([]tval(nil), l...)
	sort.Slice(s, func(i, j int) bool { return s[i].n < s[j].n })
	return fmt.Sprint(s)
}

// manyPrefixes calls f for n different prefixes of width w in a random order
// of regular, reversed and scattered ones.
func manyPrefixes(c *pbt.C, w *width, lim uint64, n int, f func(p pfx)) {
	seen := map[pfx]bool{}
	mode := c.Int(3)
	x := c.U64(0)
	for i := uint64(0); len(seen) < n; i++ {
		v, l := i, w.bits
		switch mode {
		case 1:
			v = lim - i
		case 2:
			x = x*6364136223846793005 + 1442695040888963407
			v = x >> 17
		}
		v &= lim
		if i > uint64(n)/2 || mode == 2 {
			l -= uint8(i % 5)
		}
		p := pfx{w.mask(v, l), l}
		if i > 40*uint64(n) {
			return
		}
		if !seen[p] {
			seen[p] = true
			f(p)
		}
	}
}

// bigTrie drives a trie with more nodes than 16 bits count.
func bigTrie(c *pbt.C) {
	vsched.AddBudget(maxBig)
	c.NoCrowd = true
	s := newTrieSys(c)
	s.buf = make([]tval, 0, 4)
	manyPrefixes(c, s.w, s.w.max, 66000, func(p pfx) {
		s.ctr++
		v := tval{p, 0, s.ctr}
		added, n := s.t.Set(s.w.tid(p), v)
		c.Check(added && n == 1, "Set(%s): got %v %d, not stored before", p, added, n)
		s.m[p] = []tval{v}
	})
	c.Logf("%d x Set", len(s.m))
	c.Label("more than 65536 nodes")
	c.Nontrivial()
	s.check("iteration", s.t, s.m)
	c.RepeatFixed(4, 8, func(int) {
		if c.Bool() {
			s.set()
		} else {
			s.delete1()
		}
	})
	for i, p := range s.keys() {
		if i%3 == 0 {
			n := s.t.Delete(s.w.tid(p), always, tval{})
			c.Check(n == 1, "Delete(%s): removed %d", p, n)
			delete(s.m, p)
		}
	}
	c.Logf("every third prefix deleted")
	for i := 0; i < 20; i++ {
		s.set()
	}
	s.check("iteration", s.t, s.m)
}

// maxBig is the additional step budget of cases with many entries.
const maxBig = 3_000_000_000

func init() {
	register(&pbt.Prop{ID: "C10", Quick: 500000, Thorough: 20000000, Budget: 60_000_000,
		Rule: "random Set/Delete histories (avg 20, up to 800 calls) on nested, sibling and edge prefixes of every length at all widths, full iteration compared with a sorted map after every call (in long histories every few calls); non-trivial = a prefix was deleted while prefixes inside it were stored",
		Run: func(c *pbt.C) {
			if c.Chance(1, 25000) {
				bigTrie(c)
				return
			}
			s := newTrieSys(c)
			s.buf = make([]tval, 0, 4)
			grow := 3 + c.Int(4)
			c.Repeat(20, 100, func(int) {
				if c.Weighted(grow, 4) == 0 {
					s.set()
				} else {
					s.delete1()
				}
				if c.Due() {
					s.check("iteration", s.t, s.m)
				}
			})
			s.check("iteration", s.t, s.m)
			if c.Bool() { // empty it and start over
				for _, p := range s.keys() {
					n := s.t.Delete(s.w.tid(p), always, tval{})
					c.Check(n == 1, "Delete(%s) while emptying: removed %d", p, n)
					delete(s.m, p)
				}
				c.Logf("deleted all")
				s.check("emptied", s.t, s.m)
				for i := 0; i < 4; i++ {
					s.set()
				}
				s.check("iteration", s.t, s.m)
			}
		}})
	register(&pbt.Prop{ID: "C11", Quick: 240000, Thorough: 9600000, Budget: 600_000_000,
		Rule: "random Add/Delete histories with no, symmetric and asymmetric match rules and repeated values on nested prefixes at all widths, bags compared with a map of multisets after every call; non-trivial = a delete removed some and kept at least two values of a prefix",
		Run: func(c *pbt.C) {
			s := newTrieSys(c)
			s.buf = make([]tval, 0, 4)
			if c.Chance(1, 4000) { // more values than a 16-bit count
				p := s.pick()
				for i := 0; i < 66000; i++ {
					s.ctr++
					v := tval{p, i % 3, s.ctr}
					_, n := s.t.Add(s.w.tid(p), v, nil)
					s.m[p] = append(s.m[p], v)
					c.Check(n == len(s.m[p]), "Add number %d reports %d values", i+1, n)
				}
				c.Logf("66000 x Add(%s)", p)
				c.Label("66000 values at one prefix")
			}
			c.Repeat(20, 100, func(int) {
				if c.Weighted(3, 2) == 0 {
					s.add()
				} else {
					s.deleteN()
				}
				if c.Due() {
					s.check("iteration", s.t, s.m)
				}
			})
			s.check("iteration", s.t, s.m)
		}})
}
