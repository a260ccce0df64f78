package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
	"k8s.io/apimachinery/pkg/labels"
)

// treeSys drives an id tree next to a map of prefixes to labels.
type treeSys struct {
	c   *pbt.C
	w   *width
	t   gtree.GTree
	l   uint8  // bit length
	max uint64 // 2^l-1
	m   map[pfx]labels.Set
	z   *zone
	ctr int
	ids map[pfx]tree.ID // id values used before or taken from answers
}

// tid returns an id value for p, at times one that was used before.
func (s *treeSys) tid(p pfx) tree.ID {
	if id, ok := s.ids[p]; ok && s.c.Bool() {
		s.c.Check(idPfx(id) == p, "an id value used for %s before now reads %s", p, idPfx(id))
		s.c.Label("id value used again")
		return id
	}
	id := s.w.tid(p)
	s.ids[p] = id
	return id
}

func genTreeLen(c *pbt.C, w *width) uint8 {
	switch c.Weighted(4, 3, 2, 1) {
	case 0:
		return uint8(1 + c.Int(6))
	case 1:
		return w.bits
	case 2:
		return uint8(c.Int(int(w.bits) + 1))
	}
	return []uint8{0, 1, 8, w.bits - 1}[c.Int(4)]
}

func maxOf(l uint8) uint64 {
	if l >= 64 {
		return ^uint64(0)
	}
	return 1<<l - 1
}

func newTreeSys(c *pbt.C, w *width, l uint8) *treeSys {
	s := &treeSys{c: c, w: w, l: l, max: maxOf(l), m: map[pfx]labels.Set{}, ids: map[pfx]tree.ID{}}
	t, err := w.newTree("t", l)
	c.Check(err == nil, "New(%d): %v", l, err)
	s.t = t
	s.z = newZone(c, s.max)
	if l < 6 {
		s.z.kind = 5
	}
	c.Logf("tree%s.New(%d)", w.name, l)
	if k := crowd(c, 1500); k > 0 && l > 2 {
		k = min(k, 1<<(l-1))
		var ps []pfx
		claim := func(i int, p pfx) {
			if w.hi(p) > s.max {
				return
			}
			lab := crowdLabels(i)
			err := s.t.ClaimID(w.tid(p), cloneLabels(lab))
			c.Check(err == nil, "ClaimID(%s): %v", p, err)
			ps = append(ps, p)
			s.m[p] = lab
		}
		if c.Bool() {
			crowdIDs(c, k, s.max, func(i int, id uint64) { claim(i, pfx{id, w.bits}) })
		} else {
			manyPrefixes(c, w, s.max, k, func(p pfx) { claim(len(s.m), p) })
		}
		s.ctr = k
		c.Logf("ClaimID of %d ids and prefixes", len(s.m))
		all := ps
		season(c, len(all), 50*len(all)+1, func(i int) {
			p := all[i]
			if _, held := s.m[p]; !held {
				s.ctr++
				claim(s.ctr, p)
				return
			}
			err := s.t.ReleaseID(w.tid(p))
			c.Check(err == nil, "ReleaseID(%s): %v", p, err)
			delete(s.m, p)
		})
	}
	return s
}

func anyTreeSys(c *pbt.C) *treeSys {
	w := genWidth(c)
	return newTreeSys(c, w, genTreeLen(c, w))
}

func sortedPfx(m map[pfx]labels.Set) []pfx {
	ks := make([]pfx, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return pfxLess(ks[i], ks[j]) })
	return ks
}

func (s *treeSys) keys() []pfx { return sortedPfx(s.m) }

func (s *treeSys) labels() labels.Set {
	s.ctr++
	return genLabels(s.c, s.ctr)
}

// pick draws a prefix with a base inside the capacity.
func (s *treeSys) pick() pfx {
	p := genPfx(s.c, s.w, s.z, s.keys())
	if s.l < s.w.bits && p.l < s.w.bits-s.l && s.c.Chance(3, 4) {
		// wider than the tree: mostly replaced, as it blocks every free claim
		p.l = s.w.bits - s.l + uint8(s.c.Int(int(s.l)+1))
		p = s.w.pfx(p.v, p.l)
	}
	if s.w.hi(p) > s.max {
		s.c.Label("prefix wider than the tree")
	}
	return p
}

func (s *treeSys) stored() pfx {
	ks := s.keys()
	if len(ks) > 0 && s.c.Chance(4, 5) {
		return ks[s.c.Int(len(ks))]
	}
	return s.pick()
}

// beyond draws a base above the capacity.
func (s *treeSys) beyond() (pfx, bool) {
	if s.max == s.w.max {
		return pfx{}, false
	}
	v := s.max + 1 + s.c.U64(3)
	if s.c.Bool() {
		v = s.max + 1 + s.c.U64(s.w.max-s.max)
	}
	if v > s.w.max {
		v = s.w.max
	}
	p := pfx{v, s.w.bits}
	if s.c.Bool() {
		for k := s.c.Int(8); k > 0 && s.w.mask(v, p.l-1) > s.max; k-- {
			p = s.w.pfx(v, p.l-1)
		}
	}
	return p, true
}

func (s *treeSys) claim() {
	upd := s.c.Chance(1, 3)
	name, f := "ClaimID", s.t.ClaimID
	if upd {
		name, f = "Update", s.t.Update
	}
	l := s.labels()
	if s.c.Chance(1, 10) {
		if p, ok := s.beyond(); ok {
			err := f(s.tid(p), cloneLabels(l))
			s.c.Logf("%s(%s,%s) -> %s", name, p, lstr(l), errs(err))
			s.c.Check(err != nil, "%s(%s) accepted with capacity %d", name, p, s.max)
			s.c.Label("id above the capacity")
			return
		}
	}
	if s.c.Chance(1, 400) {
		for _, p := range genChain(s.c, s.w, s.z, s.w.bits-s.l) {
			err := f(s.tid(p), cloneLabels(l))
			s.c.Logf("%s(%s,%s) -> %s", name, p, lstr(l), errs(err))
			s.c.Check(err == nil, "%s(%s): %v", name, p, err)
			s.m[p] = l
		}
		return
	}
	p := s.pick()
	if upd {
		p = s.stored()
	}
	err := f(s.tid(p), cloneLabels(l))
	s.c.Logf("%s(%s,%s) -> %s", name, p, lstr(l), errs(err))
	s.c.Check(err == nil, "%s(%s): %v", name, p, err)
	if _, ok := s.m[p]; ok {
		s.c.Label("labels replaced")
	}
	s.m[p] = l
}

func (s *treeSys) release() {
	if s.c.Chance(1, 12) {
		if p, ok := s.beyond(); ok {
			err := s.t.ReleaseID(s.tid(p))
			s.c.Logf("ReleaseID(%s) -> %s", p, errs(err))
			s.c.Check(err != nil, "ReleaseID(%s) accepted with capacity %d", p, s.max)
			return
		}
	}
	s.releaseID(s.stored())
}

func (s *treeSys) releaseID(p pfx) {
	err := s.t.ReleaseID(s.tid(p))
	s.c.Logf("ReleaseID(%s) -> %s", p, errs(err))
	s.c.Check(err == nil, "ReleaseID(%s): %v", p, err)
	if _, ok := s.m[p]; ok {
		s.c.Label("release")
		delete(s.m, p)
		for q := range s.m {
			if s.w.contains(p, q) || s.w.contains(q, p) {
				s.c.Label("release of a nested prefix")
				s.c.Nontrivial()
			}
		}
	} else {
		s.c.Label("release of an absent id")
	}
}

type span struct{ a, b uint64 }

// free lists the maximal runs of ids a free claim may return.
func (s *treeSys) free() []span {
	var out []span
	next, done := uint64(0), false
	for _, p := range s.keys() { // ascending, covering prefix first
		lo, hi := s.w.lo(p), s.w.hi(p)
		if done || lo > s.max {
			break
		}
		if lo > next {
			out = append(out, span{next, lo - 1})
		}
		if hi >= s.max {
			done = true
		} else if hi+1 > next {
			next = hi + 1
		}
	}
	if !done {
		out = append(out, span{next, s.max})
	}
	return out
}

func (s *treeSys) isFree(id uint64) bool {
	for p := range s.m {
		if s.w.lo(p) <= id && id <= s.w.hi(p) {
			return false
		}
	}
	return id <= s.max
}

func (s *treeSys) claimFree() {
	fr := s.free()
	l := s.labels()
	e, err := s.t.ClaimFree(cloneLabels(l))
	if len(fr) == 0 {
		s.c.Logf("ClaimFree(%s) -> %s", lstr(l), errs(err))
		s.c.Check(err != nil, "ClaimFree returned %v, but every id is covered", e)
		s.c.Label("free claim refused")
		return
	}
	s.c.Check(err == nil, "ClaimFree: %v, but ids %s are free", err, listStr(fr, 8))
	s.c.Check(e != nil, "ClaimFree: nil entry")
	p := idPfx(e.ID())
	s.c.Logf("ClaimFree(%s) -> %s", lstr(l), p)
	s.c.Check(p.l == s.w.bits, "ClaimFree returned %s, not a full-length id", p)
	s.c.Check(s.isFree(p.v), "ClaimFree returned %s, which is taken or above the capacity; free ids: %s", p, listStr(fr, 8))
	s.c.Check(lstr(e.Labels()) == lstr(l), "ClaimFree: labels %s, want %s", lstr(e.Labels()), lstr(l))
	s.m[p] = l
	s.c.Label("free claim")
}

// rangeText draws "a-b" and what it means: ok if it must be accepted.
func (s *treeSys) rangeText() (string, uint64, uint64, bool) {
	c := s.c
	a, b := s.z.id(), s.z.id()
	switch c.Weighted(3, 4, 1, 1, 1, 1, 1, 2) {
	case 7: // from a block start to a block end, the blocks of different size
		a, b = min(a, b), max(a, b)
		if s.l > 0 {
			a &^= maxOf(uint8(c.Int(int(s.l))))
			if h := maxOf(uint8(c.Int(int(s.l)))); b|h <= s.max {
				b |= h
			}
		}
	case 0:
		a, b = min(a, b), max(a, b)
	case 1: // short
		b = a + c.U64(9)
		if b > s.max || b < a {
			b = s.max
		}
	case 2:
		b = a
	case 3: // reversed
		a, b = max(a, b), min(a, b)
	case 4: // past the capacity
		if s.max != ^uint64(0) {
			b = s.max + 1 + c.U64(4)
		}
	case 5:
		b = s.max
	case 6:
		st := fmt.Sprintf("%d-%d", a, b)
		i := c.Int(len(st) + 1)
		j := i
		if i < len(st) && c.Bool() {
			j = i + 1
		}
		st = st[:i] + []string{"", "-", " ", "a", ".", "+", "0", "1", "_"}[c.Int(9)] + st[j:]
		x, y, ok := s.w.parseOracle(st)
		return st, x, y, ok && x <= y && y <= s.max
	}
	st := fmt.Sprintf("%d-%d", a, b)
	return st, a, b, a <= b && b <= s.max
}

// parseOracle reads '<decimal>-<decimal>' with both numbers inside the width.
func (w *width) parseOracle(st string) (uint64, uint64, bool) {
	f := strings.SplitN(st, "-", 2)
	if len(f) != 2 {
		return 0, 0, false
	}
	var v [2]uint64
	for i, x := range f {
		if x == "" {
			return 0, 0, false
		}
		for _, ch := range []byte(x) {
			if ch < '0' || ch > '9' {
				return 0, 0, false
			}
			d := uint64(ch - '0')
			if v[i] > (w.max-d)/10 {
				return 0, 0, false
			}
			v[i] = v[i]*10 + d
		}
	}
	return v[0], v[1], true
}

func (s *treeSys) claimRange() {
	st, a, b, ok := s.rangeText()
	l := s.labels()
	err := s.t.ClaimRange(st, cloneLabels(l))
	s.c.Logf("ClaimRange(%q,%s) -> %s", st, lstr(l), errs(err))
	s.c.Check((err == nil) == ok, "ClaimRange(%q) with capacity 0-%d: %v", st, s.max, err)
	if !ok {
		s.c.Label("range refused")
		return
	}
	for _, p := range s.w.cover(a, b) {
		if _, had := s.m[p]; had {
			s.c.Label("range replaces an entry")
		}
		s.m[p] = l
	}
	s.c.Label("range claimed")
	if a != b {
		s.c.Nontrivial()
	}
}

func (s *treeSys) entries(what string, got tree.Entries, want []pfx) {
	s.c.Check(len(got) == len(want), "%s: %s, want %s", what, entStr(got), listStr(want, 20))
	seen := map[pfx]bool{}
	in := map[pfx]bool{}
	for _, p := range want {
		in[p] = true
	}
	for i, e := range got {
		p := idPfx(e.ID())
		if i%3 == 0 { // callers pass the ids of entries on
			s.ids[p] = e.ID()
		}
		s.c.Check(in[p] && !seen[p], "%s: %s, want %s", what, entStr(got), listStr(want, 20))
		seen[p] = true
		s.c.Check(lstr(e.Labels()) == lstr(s.m[p]), "%s: entry %s has labels %s, want %s", what, p, lstr(e.Labels()), lstr(s.m[p]))
	}
	scribble(got)
}

func entStr(es tree.Entries) string {
	var l []string
	for i, e := range es {
		if i == 20 {
			l = append(l, fmt.Sprintf("... (%d)", len(es)))
			break
		}
		l = append(l, e.ID().String())
	}
	return "[" + strings.Join(l, " ") + "]"
}

func (s *treeSys) observe() {
	ks := s.keys()
	s.entries("GetAll", s.t.GetAll(), ks)
	s.c.Check(s.t.Size() == len(ks), "Size: %d, want %d", s.t.Size(), len(ks))
	var es tree.Entries
	for it := s.t.Iterate(); it.Next(); {
		es = append(es, it.Entry())
	}
	s.entries("Iterate", es, ks)
	if len(ks) > 24 {
		ks = ks[len(ks)-24:]
	}
	for _, p := range ks {
		s.get(p)
	}
	for i := 0; i < 2; i++ {
		s.get(s.pick())
	}
}

func (s *treeSys) get(p pfx) {
	l, ok := s.m[p]
	e, err := s.t.Get(s.tid(p))
	s.c.Check((err == nil) == ok, "Get(%s): %v, stored: %v", p, err, ok)
	if ok {
		s.c.Check(idPfx(e.ID()) == p && lstr(e.Labels()) == lstr(l), "Get(%s): %v %s, want labels %s", p, e.ID(), lstr(e.Labels()), lstr(l))
	}
}

func (s *treeSys) relatives() {
	x := s.pick()
	if s.c.Bool() {
		x = s.stored()
	}
	s.c.Logf("Children/Parents(%s)", x)
	var ch, pa []pfx
	for _, p := range s.keys() {
		if p == x {
			s.c.Label("queried prefix stored")
		} else if s.w.contains(x, p) {
			ch = append(ch, p)
		} else if s.w.contains(p, x) {
			pa = append(pa, p)
		}
	}
	if len(ch) > 0 && len(pa) > 0 {
		s.c.Label("children and parents")
		s.c.Nontrivial()
	}
	s.entries(fmt.Sprintf("Children(%s)", x), s.t.Children(s.tid(x)), ch)
	s.entries(fmt.Sprintf("Parents(%s)", x), s.t.Parents(s.tid(x)), pa)
}

func (s *treeSys) matching(sel labels.Selector) []pfx {
	var want []pfx
	for _, p := range s.keys() {
		if sel.Matches(s.m[p]) {
			want = append(want, p)
		}
	}
	return want
}

func (s *treeSys) byLabel() {
	sel, str := genSelector(s.c)
	s.c.Logf("GetByLabel(%s)", str)
	s.entries("GetByLabel", s.t.GetByLabel(sel), s.matching(sel))
}

func (s *treeSys) releaseByLabel() {
	sel, str := genSelector(s.c)
	want := s.matching(sel)
	err := s.t.ReleaseByLabel(sel)
	s.c.Logf("ReleaseByLabel(%s) -> %s, %d match", str, errs(err), len(want))
	s.c.Check(err == nil, "ReleaseByLabel(%s): %v", str, err)
	if len(want) > 0 && len(want) < len(s.m) {
		s.c.Label("release by label of a part")
		s.c.Nontrivial()
	}
	for _, p := range want {
		delete(s.m, p)
	}
}

// nest claims a stack or comb of related prefixes.
func (s *treeSys) nest() {
	n := 1 + s.c.Int(6)
	for i := 0; i < n; i++ {
		p := s.pick()
		l := s.labels()
		err := s.t.ClaimID(s.tid(p), cloneLabels(l))
		s.c.Logf("ClaimID(%s,%s) -> %s", p, lstr(l), errs(err))
		s.c.Check(err == nil, "ClaimID(%s): %v", p, err)
		s.m[p] = l
	}
}

// read makes one query, so that histories mix single queries with changes.
func (s *treeSys) read() {
	switch s.c.Int(6) {
	case 0:
		s.entries("GetAll", s.t.GetAll(), s.keys())
	case 1:
		s.c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
	case 2:
		s.get(s.stored())
	case 3:
		s.get(s.pick())
	case 4:
		nt := s.c.IsNontrivial()
		s.relatives()
		s.c.SetNontrivial(nt)
	case 5:
		s.byLabel()
	}
}

// step makes one change with weights claim, free, range, release, release by label.
func (s *treeSys) step(w ...int) {
	if s.c.Chance(1, 8) {
		s.read()
	}
	switch s.c.Weighted(w...) {
	case 0:
		s.claim()
	case 1:
		s.claimFree()
	case 2:
		s.claimRange()
	case 3:
		s.release()
	case 4:
		s.releaseByLabel()
	}
}

func (s *treeSys) clone() *treeSys {
	o := *s
	o.t = s.t.Clone()
	o.ids = map[pfx]tree.ID{}
	for k, v := range s.ids {
		o.ids[k] = v
	}
	o.m = map[pfx]labels.Set{}
	for k, v := range s.m {
		o.m[k] = v
	}
	return &o
}

// bigTree drives a tree with more nodes than 16 bits count.
func bigTree(c *pbt.C) {
	vsched.AddBudget(maxBig)
	w := genWidth(c)
	c.NoCrowd = true
	s := newTreeSys(c, w, max(min(17, w.bits), uint8(c.Int(int(w.bits)+1))))
	n := 66000
	holes := map[pfx]bool{}
	if s.l == 16 {
		n = 65536
	}
	for i, k := 0, c.Int(4); i < k; i++ {
		holes[pfx{c.U64(uint64(n)), w.bits}] = true
	}
	claim := func(p pfx) {
		if holes[p] || w.hi(p) > s.max {
			return
		}
		err := s.t.ClaimID(w.tid(p), nil)
		c.Check(err == nil, "ClaimID(%s): %v", p, err)
		s.m[p] = nil
	}
	if c.Bool() {
		for v := 0; v < n; v++ {
			claim(pfx{uint64(v), w.bits})
		}
	} else {
		manyPrefixes(c, w, s.max, n, claim)
	}
	c.Logf("ClaimID of %d ids", len(s.m))
	c.Label("more than 65000 ids")
	c.Nontrivial()
	s.entries("GetAll", s.t.GetAll(), s.keys())
	c.RepeatFixed(4, 6, func(int) { s.step(2, 3, 2, 3, 0) })
	s.releaseByLabel()
	s.claimFree()
	s.entries("GetAll", s.t.GetAll(), s.keys())
	c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
}

func init() {
	register(&pbt.Prop{ID: "C12", Quick: 60000, Thorough: 2400000, Budget: 800_000_000,
		Rule: "random histories of ClaimID, Update, ReleaseID (and at times free, range and label calls) on 16/32/64-bit trees of any bit length, nested and sibling prefixes, ids above the capacity; GetAll, Size, Iterate and Get compared with a map after every call; non-trivial = a prefix was released that contained or was inside a stored one",
		Run: func(c *pbt.C) {
			if c.Chance(1, 6000) {
				bigTree(c)
				return
			}
			s := anyTreeSys(c)
			c.Repeat(14, 80, func(int) {
				s.step(10, 1, 1, 7, 1)
				if c.Due() {
					s.observe()
				}
			})
			s.observe()
		}})
	register(&pbt.Prop{ID: "C13", Quick: 60000, Thorough: 2400000, Budget: 200_000_000,
		Rule: "free claims between claims of ids, prefixes and ranges and releases at all widths and bit lengths; trees of up to 64 ids are driven to exhaustion twice; the claimed id is checked against every stored prefix; non-trivial = the tree was exhausted, or a free claim followed a prefix or range claim",
		Run: func(c *pbt.C) {
			if c.Chance(1, 6000) {
				bigTree(c)
				return
			}
			s := anyTreeSys(c)
			big := false
			c.Repeat(10, 60, func(int) {
				s.step(3, 8, 2, 4, 1)
				for p := range s.m {
					big = big || p.l < s.w.bits
				}
				if big {
					c.Nontrivial()
				}
			})
			s.observe()
			if s.max > 63 {
				for i := 0; i < 3; i++ {
					s.claimFree()
				}
				s.observe()
				return
			}
			for round := 0; round < 2; round++ {
				n := uint64(0)
				for _, f := range s.free() {
					n += f.b - f.a + 1
				}
				for i := uint64(0); i < n; i++ {
					s.claimFree()
				}
				s.claimFree() // refused
				c.Label("exhausted")
				c.Nontrivial()
				s.observe()
				c.Repeat(3, 10, func(int) { s.release() })
			}
		}})
	register(&pbt.Prop{ID: "C14", Quick: 40000, Thorough: 1600000, Budget: 1_000_000_000,
		Rule: "textual ranges (ordered, single, reversed, above the capacity, mutated text) claimed on trees that hold other prefixes, the stored entries compared with the greedy minimal cover; non-trivial = a range of at least two ids was claimed",
		Run: func(c *pbt.C) {
			s := anyTreeSys(c)
			c.Repeat(7, 40, func(int) {
				s.step(2, 1, 6, 2, 1)
				if c.Due() {
					s.observe()
				}
			})
		}})
	register(&pbt.Prop{ID: "C15", Quick: 180000, Thorough: 7200000, Budget: 100_000_000,
		Rule: "Children and Parents of stored and unstored prefixes on trees of nested prefixes compared with interval containment, and the tree compared with its model afterwards; non-trivial = the queried prefix had both children and parents",
		Run: func(c *pbt.C) {
			s := anyTreeSys(c)
			c.Repeat(10, 50, func(int) {
				switch c.Weighted(3, 4, 5) {
				case 0:
					s.nest()
				case 1:
					s.step(4, 1, 2, 3, 1)
				case 2:
					s.relatives()
				}
			})
			s.relatives()
			s.relatives()
			s.observe()
		}})
	register(&pbt.Prop{ID: "C16", Quick: 150000, Thorough: 6000000, Budget: 100_000_000,
		Rule: "label queries and releases by label with random selectors on trees of nested prefixes and ranges sharing labels, compared with the matching part of a map; non-trivial = a release by label removed some but not all entries",
		Run: func(c *pbt.C) {
			if c.Chance(1, 16000) {
				bigTree(c)
				return
			}
			s := anyTreeSys(c)
			c.Repeat(10, 50, func(int) {
				switch c.Weighted(3, 4, 3, 3) {
				case 0:
					s.nest()
				case 1:
					s.step(4, 2, 2, 1, 0)
				case 2:
					s.byLabel()
				case 3:
					s.releaseByLabel()
					s.observe()
				}
			})
			s.releaseByLabel()
			s.observe()
			s.claimFree()
			s.observe()
		}})
	register(&pbt.Prop{ID: "C17", Quick: 40000, Thorough: 1600000, Budget: 600_000_000,
		Rule: "a tree or trie with a random history is cloned, then original and clones get independent random histories, each compared with its own map; two clones of one moment given the same calls must answer alike; non-trivial = a clone was changed after its original or the other way round",
		Run: func(c *pbt.C) {
			if c.Chance(1, 6000) {
				bigTree(c)
				return
			}
			if c.Chance(1, 3) {
				cloneTrie(c)
				return
			}
			s := anyTreeSys(c)
			c.Repeat(8, 40, func(int) { s.step(6, 2, 2, 4, 1) })
			all := []*treeSys{s}
			c.Repeat(12, 50, func(int) {
				i := c.Int(len(all))
				if len(all) < 4 && c.Chance(1, 4) {
					c.Logf("clone %d of %d", len(all), i)
					all = append(all, all[i].clone())
				} else {
					c.Logf("on %d:", i)
					all[i].step(6, 2, 2, 4, 1)
					if len(all) > 1 {
						c.Nontrivial()
						c.Label("changed after cloning")
					}
				}
				if c.Due() {
					for _, x := range all {
						x.entries("GetAll", x.t.GetAll(), x.keys())
					}
				}
			})
			for _, x := range all {
				x.observe()
				x.relatives()
				x.byLabel()
			}
			// two clones of one moment answer alike
			a, b := s.clone(), s.clone()
			for i := 0; i < 3; i++ {
				l := labels.Set{"i": fmt.Sprint(i)}
				ea, erra := a.t.ClaimFree(l)
				eb, errb := b.t.ClaimFree(l)
				c.Check((erra == nil) == (errb == nil), "ClaimFree on two clones: %v and %v", erra, errb)
				if erra == nil {
					c.Check(idPfx(ea.ID()) == idPfx(eb.ID()), "ClaimFree on two clones: %v and %v", ea.ID(), eb.ID())
				}
				c.Check(entStr(a.t.GetAll()) == entStr(b.t.GetAll()), "two clones list %s and %s", entStr(a.t.GetAll()), entStr(b.t.GetAll()))
			}
			s.entries("GetAll", s.t.GetAll(), s.keys())
		}})
}

func cloneTrie(c *pbt.C) {
	s := newTrieSys(c)
	c.Label("trie clone")
	multi := c.Bool()
	step := func(x *trieSys) {
		if multi {
			if c.Weighted(3, 2) == 0 {
				x.add()
			} else {
				x.deleteN()
			}
		} else if c.Weighted(3, 2) == 0 {
			x.set()
		} else {
			x.delete1()
		}
	}
	c.Repeat(8, 40, func(int) { step(s) })
	all := []*trieSys{s}
	c.Repeat(12, 50, func(int) {
		i := c.Int(len(all))
		if len(all) < 4 && c.Chance(1, 4) {
			c.Logf("clone %d of %d", len(all), i)
			o := *all[i]
			o.t = o.t.Clone()
			o.m = map[pfx][]tval{}
			for k, v := range all[i].m {
				o.m[k] = append([]tval(nil), v...)
			}
			all = append(all, &o)
		} else {
			c.Logf("on %d:", i)
			step(all[i])
			if len(all) > 1 {
				c.Nontrivial()
			}
		}
		for k, x := range all {
			if !c.Due() {
				continue
			}
			x.check(fmt.Sprintf("iteration of %d", k), x.t, x.m)
		}
	})
}
