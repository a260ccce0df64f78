package props

import (
	"sort"

	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
)

// tblSys drives a windowed table next to a map of ids to labels.
type tblSys struct {
	c          *pbt.C
	w          *width
	t          table.Table
	start, end uint64
	m          map[uint64]labels.Set
	ctr        int
	reclaimed  bool
}

// genWindow draws a window of w; big tells how many ids a window that will be
// exhausted may have (0: any window, including the full space).
func genWindow(c *pbt.C, w *width, big uint64) (uint64, uint64) {
	var size uint64 // minus one
	switch c.Weighted(5, 3, 2, 1) {
	case 0:
		size = c.U64(12)
	case 1:
		size = 0
		c.Label("single-id window")
	case 2:
		size = c.U64(70)
	case 3:
		size = c.U64(300)
	}
	if big == 0 {
		switch c.Weighted(8, 1, 1) {
		case 1:
			c.Label("full id space")
			return 0, w.max
		case 2:
			a, b := c.U64(0)&w.max, c.U64(0)&w.max
			c.Label("huge window")
			return min(a, b), max(a, b)
		}
	}
	var start uint64
	switch c.Int(5) {
	case 0:
		start = 0
	case 1:
		start = w.max - size
	case 2:
		start = c.U64(0) & w.max
	case 3:
		start = (uint64(1)<<c.Int(int(w.bits)) - size/2) & w.max
	case 4:
		start = (w.max/2 + 1 - size/2) & w.max
	}
	if start > w.max-size {
		start = w.max - size
	}
	if start+size == w.max {
		c.Label("window up to the maximum id")
	}
	return start, start + size
}

func newTblSys(c *pbt.C, w *width, start, end uint64) *tblSys {
	k := crowd(c, 4000)
	if k > 0 && end-start < uint64(k) { // a bigger window
		last := uint64(k) + []uint64{0, 1, uint64(k) / 3, uint64(k)}[c.Int(4)] - 1
		start = min(start, w.max-last)
		end = start + last
	}
	c.Logf("table%s.New(%d,%d)", w.name, start, end)
	s := &tblSys{c: c, w: w, t: w.newTable(start, end), start: start, end: end, m: map[uint64]labels.Set{}}
	if k > 0 {
		var ids []uint64
		claim := func(i int, id uint64) {
			l := crowdLabels(i)
			err := s.t.Claim(id, cloneLabels(l))
			c.Check(err == nil, "Claim(%d): %v", id, err)
			s.m[id] = l
		}
		crowdIDs(c, k, end-start, func(i int, id uint64) {
			id += start
			claim(i, id)
			ids = append(ids, id)
		})
		s.ctr = k
		c.Logf("%d x Claim", len(s.m))
		season(c, len(ids), 50, func(i int) {
			if _, held := s.m[ids[i]]; !held {
				s.ctr++
				claim(s.ctr, ids[i])
				return
			}
			err := s.t.Release(ids[i])
			c.Check(err == nil, "Release(%d): %v", ids[i], err)
			delete(s.m, ids[i])
		})
	}
	return s
}

func (s *tblSys) last() uint64          { return s.end - s.start }
func (s *tblSys) in(id uint64) bool     { return id >= s.start && id <= s.end }
func (s *tblSys) full() bool            { return len(s.m) > 0 && uint64(len(s.m)-1) == s.last() }
func (s *tblSys) held(id uint64) bool   { _, ok := s.m[id]; return ok }
func (s *tblSys) tid(id uint64) tree.ID { return s.w.id(id, s.w.bits) }

func (s *tblSys) inside() uint64 {
	switch s.c.Weighted(5, 2, 2, 1) {
	case 0:
		return s.start + clampMod(s.c.U64(10), s.last())
	case 1:
		return s.end - clampMod(s.c.U64(4), s.last())
	case 2:
		return s.start + clampMod(s.c.U64(0), s.last())
	}
	return s.start + clampMod(uint64(1)<<s.c.Int(int(s.w.bits))+s.c.U64(2), s.last())
}

// outside draws ids that often miss the window, also by whole multiples of the id space.
func (s *tblSys) outside() uint64 {
	switch s.c.Int(7) {
	case 0:
		return s.start - 1 - s.c.U64(3)
	case 1:
		return s.end + 1 + s.c.U64(3)
	case 2:
		return s.inside() + 1<<16
	case 3:
		return s.inside() + 1<<32
	case 4:
		return s.inside() | 1<<63
	case 5:
		return s.inside() + (1+s.c.U64(1<<16))<<(s.w.bits%64)
	}
	return s.c.U64(0)
}

func (s *tblSys) id() uint64 {
	if s.c.Chance(1, 7) {
		return s.outside()
	}
	return s.inside()
}

func (s *tblSys) keys() []uint64 {
	ks := make([]uint64, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (s *tblSys) lowest() (uint64, bool) {
	for id := s.start; ; id++ {
		if !s.held(id) {
			return id, true
		}
		if id == s.end {
			return 0, false
		}
	}
}

func (s *tblSys) labels() labels.Set {
	s.ctr++
	return genLabels(s.c, s.ctr)
}

func (s *tblSys) claim(id uint64) {
	l := s.labels()
	want := s.in(id) && !s.held(id)
	err := s.t.Claim(id, cloneLabels(l))
	s.c.Logf("Claim(%d,%s) -> %s", id, lstr(l), errs(err))
	s.c.Check((err == nil) == want, "Claim(%d): %v, inside and free: %v", id, err, want)
	if want {
		s.m[id] = l
	} else if !s.in(id) {
		s.c.Label("id outside the window")
	} else {
		s.c.Label("claim of a held id")
	}
}

func (s *tblSys) update(id uint64) {
	l := s.labels()
	want := s.in(id) && s.held(id)
	err := s.t.Update(id, cloneLabels(l))
	s.c.Logf("Update(%d,%s) -> %s", id, lstr(l), errs(err))
	s.c.Check((err == nil) == want, "Update(%d): %v, claimed: %v", id, err, want)
	if want {
		s.m[id] = l
		s.c.Label("update")
	}
}

func (s *tblSys) someHeld() uint64 {
	ks := s.keys()
	if len(ks) > 0 && s.c.Chance(3, 4) {
		return ks[s.c.Int(len(ks))]
	}
	return s.id()
}

func (s *tblSys) release(id uint64) {
	err := s.t.Release(id)
	s.c.Logf("Release(%d) -> %s", id, errs(err))
	s.c.Check((err == nil) == s.in(id), "Release(%d): %v", id, err)
	if s.held(id) {
		delete(s.m, id)
		s.reclaimed = true
		s.c.Label("release")
	}
}

func (s *tblSys) findFree() {
	low, ok := s.lowest()
	id, err := s.t.FindFree()
	s.c.Logf("FindFree() -> %d %s", id, errs(err))
	s.c.Check((err == nil) == ok, "FindFree: %v, free id exists: %v", err, ok)
	s.c.Check(!ok || id == low, "FindFree: got %d, lowest free is %d", id, low)
}

func (s *tblSys) claimFree() {
	low, ok := s.lowest()
	if s.c.Chance(1, 3) {
		s.findFree()
	}
	l := s.labels()
	e, err := s.t.ClaimFree(cloneLabels(l))
	s.c.Logf("ClaimFree(%s) -> %s", lstr(l), errs(err))
	s.c.Check((err == nil) == ok, "ClaimFree: %v, free id exists: %v", err, ok)
	if !ok {
		s.c.Label("free claim on full table")
		return
	}
	s.entry("ClaimFree", e, low, l)
	s.m[low] = l
	if low == s.end {
		s.c.Label("free claim got the last id")
	}
}

func (s *tblSys) entry(what string, e tree.Entry, id uint64, l labels.Set) {
	s.c.Check(e != nil, "%s: nil entry, want id %d", what, id)
	s.c.Check(e.ID().ID() == id && e.ID().Length() == s.w.bits, "%s: id %v, want %d/%d", what, e.ID(), id, s.w.bits)
	s.c.Check(lstr(e.Labels()) == lstr(l), "%s of id %d: labels %s, want %s", what, id, lstr(e.Labels()), lstr(l))
}

func (s *tblSys) point(id uint64) {
	l, held := s.m[id]
	e, err := s.t.Get(id)
	s.c.Check((err == nil) == held, "Get(%d): %v, claimed: %v", id, err, held)
	if held {
		s.entry("Get", e, id, l)
	}
	s.c.Check(s.t.Has(id) == held, "Has(%d): %v, claimed: %v", id, !held, held)
	free := s.in(id) && !held
	s.c.Check(s.t.IsFree(id) == free, "IsFree(%d): %v, inside and free: %v", id, !free, free)
}

func (s *tblSys) entries(what string, got tree.Entries, want []uint64) {
	s.c.Check(len(got) == len(want), "%s: %d entries, want ids %s", what, len(got), listStr(want, 20))
	for i, e := range got {
		s.entry(what, e, want[i], s.m[want[i]])
	}
	scribble(got)
}

func (s *tblSys) getAll() { s.entries("GetAll", s.t.GetAll(), s.keys()) }

func (s *tblSys) byLabel() {
	sel, str := genSelector(s.c)
	var want []uint64
	for _, k := range s.keys() {
		if sel.Matches(s.m[k]) {
			want = append(want, k)
		}
	}
	s.c.Logf("GetByLabel(%s)", str)
	if len(want) > 0 && len(want) < len(s.m) {
		s.c.Label("selector splits the entries")
		s.c.Nontrivial()
	}
	s.entries("GetByLabel", s.t.GetByLabel(sel), want)
}

func (s *tblSys) observe() {
	s.c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
	if s.last() <= 80 {
		for i := uint64(0); i <= s.last(); i++ {
			s.point(s.start + i)
		}
	} else {
		ks := s.keys()
		if len(ks) > 40 {
			ks = ks[:40]
		}
		for _, k := range ks {
			s.point(k)
			s.point(k + 1)
		}
	}
	for _, id := range []uint64{s.start - 1, s.start, s.end, s.end + 1, ^uint64(0), s.start + 1<<16, s.start + 1<<32, s.end + 1<<63} {
		s.point(id)
	}
	s.getAll()
}

// read makes one query, so that histories mix single queries with changes.
func (s *tblSys) read() {
	switch s.c.Int(5) {
	case 0:
		s.getAll()
	case 1:
		s.c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
	case 2:
		s.point(s.someHeld())
	case 3:
		s.point(s.id())
	case 4:
		nt := s.c.IsNontrivial()
		s.byLabel()
		s.c.SetNontrivial(nt)
	}
}

func (s *tblSys) step(w ...int) {
	if s.c.Chance(1, 8) {
		s.read()
	}
	switch s.c.Weighted(w...) {
	case 0:
		s.claim(s.id())
	case 1:
		s.claimFree()
	case 2:
		s.release(s.someHeld())
	case 3:
		s.update(s.someHeld())
	case 4:
		s.findFree()
	case 5:
		s.byLabel()
	}
}

func init() {
	register(&pbt.Prop{ID: "C05", Quick: 240000, Thorough: 9600000, Budget: 60_000_000,
		Rule: "random call histories on 16/32/64-bit windowed tables (single ids, both ends of the id space, power-of-two borders, huge windows, full space), ids inside, just outside and outside by multiples of 2^16/2^32/2^63, all observables compared with a map after every call; non-trivial = an id was released and the table was not empty later",
		Run: func(c *pbt.C) {
			w := genWidth(c)
			a, b := genWindow(c, w, 0)
			s := newTblSys(c, w, a, b)
			c.Repeat(12, 60, func(int) {
				s.step(8, 3, 4, 2, 1)
				if c.Due() {
					s.observe()
				}
				if len(s.m) > 0 && s.reclaimed {
					c.Nontrivial()
				}
			})
			s.observe()
		}})
	register(&pbt.Prop{ID: "C06", Quick: 140000, Thorough: 5600000, Budget: 400_000_000,
		Rule: "free claims on windows of 1..300 ids driven to exhaustion, after churn, and again after random releases; now and then 16-bit and 3000-id windows with a few holes; non-trivial = the table was exhausted by free claims",
		Run: func(c *pbt.C) {
			w := genWidth(c)
			if c.Chance(1, 400) {
				holes(c, w)
				return
			}
			a, b := genWindow(c, w, 300)
			c.NoCrowd = true
			s := newTblSys(c, w, a, b)
			c.Repeat(10, 60, func(int) { s.step(4, 6, 5, 2, 2) })
			s.observe()
			for round := 0; round < 2; round++ {
				n := s.last() + 1 - uint64(len(s.m))
				for i := uint64(0); i < n; i++ {
					s.claimFree()
				}
				c.Check(s.full(), "%d free ids, but free claims left %d of %d claimed", n, len(s.m), s.last()+1)
				s.claimFree()
				c.Nontrivial()
				s.observe()
				c.Repeat(3, 12, func(int) { s.step(1, 1, 6, 1, 1) })
			}
			s.claimFree()
			s.observe()
		}})
	register(&pbt.Prop{ID: "C07", Quick: 600000, Thorough: 24000000, Budget: 60_000_000,
		Rule: "claims, free claims, updates and releases with random label sets, then Get, GetAll and GetByLabel with random selectors compared entry by entry with a map; non-trivial = a selector matched some but not all entries",
		Run: func(c *pbt.C) {
			w := genWidth(c)
			a, b := genWindow(c, w, 0)
			s := newTblSys(c, w, a, b)
			c.Repeat(14, 60, func(int) { s.step(6, 6, 2, 4, 0, 4) })
			for _, k := range s.keys() {
				s.point(k)
			}
			s.getAll()
			s.byLabel()
			s.byLabel()
		}})
}

// holes fills a big window except for a few ids, which free claims must find.
func holes(c *pbt.C, w *width) {
	last := uint64(3000)
	if w.bits == 16 && c.Bool() {
		last = w.max
	}
	start := c.U64(0) & w.max
	if start > w.max-last {
		start = w.max - last
	}
	c.NoCrowd = true
	s := newTblSys(c, w, start, start+last)
	skip := map[uint64]bool{}
	for i := 0; i < 1+c.Int(4); i++ {
		switch c.Int(3) {
		case 0:
			skip[s.end-c.U64(3)] = true
		case 1:
			skip[s.start+c.U64(3)] = true
		case 2:
			skip[s.start+c.U64(last+1)] = true
		}
	}
	for i := uint64(0); i <= last; i++ {
		if id := start + i; !skip[id] {
			err := s.t.Claim(id, nil)
			c.Check(err == nil, "Claim(%d): %v", id, err)
			s.m[id] = nil
		}
	}
	c.Logf("claimed all but %d ids", len(skip))
	c.Label("big window with few holes")
	for range skip {
		s.claimFree()
	}
	s.claimFree()
	c.Nontrivial()
	s.getAll()
	id := s.inside()
	s.release(id)
	s.claimFree()
	c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
}
