package props

import (
	"sort"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
)

// idxSys drives an index table next to a map.
type idxSys struct {
	c    *pbt.C
	t    idxtable.Table[int]
	n    uint64 // capacity
	m    map[uint64]int
	ctr  int
	z    *zone
	huge bool
}

func newIdxSys(c *pbt.C, allowHuge bool) *idxSys {
	var n uint64
	huge := false
	w := []int{5, 4, 1, 1}
	if allowHuge {
		w = append(w, 2)
	}
	switch c.Weighted(w...) {
	case 0:
		n = 1 + c.U64(8)
	case 1:
		n = 1 + c.U64(40)
	case 2:
		n = 1 + c.U64(300)
	case 3:
		n = []uint64{1, 2, 64, 65, 256, 1000}[c.Int(6)]
	case 4:
		n = []uint64{1 << 32, 1<<32 + 5, 1 << 63, 1<<63 + 1, ^uint64(0), ^uint64(0) - 3}[c.Int(6)]
		huge = true
		c.Label("huge capacity")
	}
	k := crowd(c, 4000)
	if k > 0 && n < uint64(k) {
		n = uint64(k) + []uint64{0, 1, uint64(k) / 3, uint64(k)}[c.Int(4)]
	}
	c.Logf("NewTable(%d)", n)
	s := &idxSys{c: c, t: idxtable.NewTable[int](n), n: n, m: map[uint64]int{}, huge: huge}
	s.z = newZone(c, n-1)
	if n <= 40 { // the whole table is in play
		s.z.kind = 5
	}
	if k > 0 {
		var ids []uint64
		claim := func(i int, id uint64) {
			err := s.t.Claim(id, i)
			c.Check(err == nil, "Claim(%d): %v", id, err)
			s.m[id] = i
		}
		crowdIDs(c, k, n-1, func(i int, id uint64) {
			claim(i, id)
			ids = append(ids, id)
		})
		s.ctr = k
		c.Logf("%d x Claim", len(s.m))
		season(c, len(ids), 20, func(i int) {
			if _, held := s.m[ids[i]]; !held {
				s.ctr++
				claim(s.ctr, ids[i])
				return
			}
			err := s.t.Release(ids[i])
			c.Check(err == nil, "Release(%d): %v", ids[i], err)
			delete(s.m, ids[i])
		})
	}
	return s
}

func (s *idxSys) id() uint64 {
	if s.c.Chance(1, 12) {
		x := []uint64{s.n, s.n + 1, ^uint64(0), 1 << 32, 1<<63 + 1, s.n + 1<<32, 2 * s.n}[s.c.Int(7)]
		if s.c.Chance(1, 4) {
			x = s.c.U64(0)
		}
		return x
	}
	return s.z.id()
}

// data draws the data of a claim, at times the zero value.
func (s *idxSys) data() int {
	s.ctr++
	if s.ctr%7 == 3 {
		return 0
	}
	return s.ctr
}

func (s *idxSys) keys() []uint64 {
	ks := make([]uint64, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (s *idxSys) lowestFree() (uint64, bool) {
	for id := uint64(0); id < s.n; id++ {
		if _, ok := s.m[id]; !ok {
			return id, true
		}
	}
	return 0, false
}

func (s *idxSys) claim() {
	id := s.id()
	d := s.data()
	_, held := s.m[id]
	want := id < s.n && !held
	err := s.t.Claim(id, d)
	s.c.Logf("Claim(%d,%d) -> %s", id, d, errs(err))
	s.c.Check((err == nil) == want, "Claim(%d): got %v, in range and free: %v", id, err, want)
	if want {
		s.m[id] = d
	} else {
		s.c.Label("refused claim")
	}
}

func (s *idxSys) update() {
	id := s.id()
	d := s.data()
	_, want := s.m[id]
	err := s.t.Update(id, d)
	s.c.Logf("Update(%d,%d) -> %s", id, d, errs(err))
	s.c.Check((err == nil) == want, "Update(%d): got %v, claimed: %v", id, err, want)
	if want {
		s.m[id] = d
		s.c.Label("update")
	}
}

func (s *idxSys) release() {
	id := s.id()
	if ks := s.keys(); len(ks) > 0 && s.c.Chance(2, 3) {
		id = ks[s.c.Int(len(ks))]
	}
	err := s.t.Release(id)
	s.c.Logf("Release(%d) -> %s", id, errs(err))
	s.c.Check((err == nil) == (id < s.n), "Release(%d) with capacity %d: got %v", id, s.n, err)
	if _, ok := s.m[id]; ok {
		delete(s.m, id)
		s.c.Label("release")
		s.c.Nontrivial()
	}
}

func (s *idxSys) dynamic() {
	d := s.data()
	low, ok := s.lowestFree()
	if s.c.Chance(1, 2) {
		id, err := s.t.FindFree()
		s.c.Logf("FindFree() -> %d %s", id, errs(err))
		s.c.Check((err == nil) == ok, "FindFree: %v, free id exists: %v", err, ok)
		s.c.Check(!ok || id == low, "FindFree: got %d, lowest free is %d", id, low)
	}
	e, err := s.t.ClaimDynamic(d)
	s.c.Logf("ClaimDynamic(%d) -> %s", d, errs(err))
	s.c.Check((err == nil) == ok, "ClaimDynamic: %v, free id exists: %v", err, ok)
	if ok {
		s.c.Check(e != nil && e.ID() == low && e.Data() == d, "ClaimDynamic(%d): entry %v, lowest free id is %d", d, e, low)
		s.m[low] = d
	} else {
		s.c.Label("dynamic claim on full table")
	}
}

// rangeArgs draws start and size; big sizes only where they must be refused.
func (s *idxSys) rangeArgs() (uint64, uint64) {
	c := s.c
	start := s.id()
	var size uint64
	switch c.Weighted(8, 2, 1, 1, 1) {
	case 0:
		size = 1 + c.U64(8)
	case 1:
		size = c.U64(3)
	case 2:
		if start < s.n { // up to the last id, or one more
			size = s.n - start + c.U64(2)
		}
	case 3: // sums that overflow
		size = -start + c.U64(12)
	case 4:
		size = ^uint64(0) - c.U64(3)
	}
	if s.huge && start < s.n && size <= s.n-start && size > 200 {
		// a long answer takes for ever; a claimed id soon after the start must not
		for k := uint64(0); k < 200; k++ {
			if _, ok := s.m[start+k]; ok {
				c.Label("huge range with a claimed id near its start")
				return start, size
			}
		}
		size = 1 + size%7
	}
	return start, size
}

func (s *idxSys) rangeFree(start, size uint64) bool {
	if size == 0 || start >= s.n || size > s.n-start {
		return false
	}
	for i := uint64(0); i < size; i++ {
		if _, ok := s.m[start+i]; ok {
			return false
		}
	}
	return true
}

func (s *idxSys) checkIDs(what string, ids []uint64, want []uint64) {
	s.c.Check(len(ids) == len(want), "%s: got %s, want %s", what, listStr(ids, 20), listStr(want, 20))
	for i := range ids {
		s.c.Check(ids[i] == want[i], "%s: got %s, want %s", what, listStr(ids, 20), listStr(want, 20))
	}
}

func (s *idxSys) claimRange() {
	start, size := s.rangeArgs()
	want := s.rangeFree(start, size)
	var ids []uint64
	for i := uint64(0); want && i < size; i++ {
		ids = append(ids, start+i)
	}
	if s.c.Chance(1, 2) {
		got, err := s.t.FindFreeRange(start, size)
		s.c.Logf("FindFreeRange(%d,%d) -> %s %s", start, size, errs(err), listStr(got, 12))
		if size > 0 {
			s.c.Check((err == nil) == want, "FindFreeRange(%d,%d): %v, whole range free: %v", start, size, err, want)
		}
		if err == nil {
			s.checkIDs("FindFreeRange", got, ids)
		}
	}
	d := s.data()
	err := s.t.ClaimRange(start, size, d)
	s.c.Logf("ClaimRange(%d,%d,%d) -> %s", start, size, d, errs(err))
	if size > 0 {
		s.c.Check((err == nil) == want, "ClaimRange(%d,%d): %v, whole range free: %v", start, size, err, want)
	}
	if want {
		for _, id := range ids {
			s.m[id] = d
		}
		s.c.Label("range claimed")
		if start+size == s.n {
			s.c.Label("range up to capacity")
		}
	} else {
		s.c.Label("range refused")
		if start < s.n && size > 0 && size <= s.n-start {
			s.c.Label("range blocked by claims")
		}
	}
}

func (s *idxSys) claimSize() {
	c := s.c
	var size uint64
	free := s.n - uint64(len(s.m))
	switch c.Weighted(6, 1, 2, 1) {
	case 0:
		size = 1 + c.U64(6)
	case 1:
		size = 0
	case 2:
		if s.n > 1<<20 {
			size = 1 + c.U64(30)
		} else {
			size = free + c.U64(2)
		}
	case 3:
		size = []uint64{s.n, s.n + 1, ^uint64(0), 1<<63 + 1}[c.Int(4)]
		if s.huge && size <= s.n {
			size = 3
		}
	}
	want := size > 0 && size <= free
	var ids []uint64
	for id := uint64(0); want && uint64(len(ids)) < size; id++ {
		if _, ok := s.m[id]; !ok {
			ids = append(ids, id)
		}
	}
	if c.Chance(1, 2) {
		got, err := s.t.FindFreeSize(size)
		c.Logf("FindFreeSize(%d) -> %s %s", size, errs(err), listStr(got, 12))
		if size > 0 {
			c.Check((err == nil) == want, "FindFreeSize(%d): %v with %d free", size, err, free)
		}
		if err == nil {
			s.checkIDs("FindFreeSize", got, ids)
		}
	}
	d := s.data()
	es, err := s.t.ClaimSize(size, d)
	c.Logf("ClaimSize(%d,%d) -> %s", size, d, errs(err))
	if size > 0 {
		c.Check((err == nil) == want, "ClaimSize(%d): %v with %d free", size, err, free)
	}
	if err == nil {
		c.Check(len(es) == len(ids), "ClaimSize(%d): %d entries", size, len(es))
		for i, e := range es {
			c.Check(e.ID() == ids[i] && e.Data() == d, "ClaimSize(%d): entry %d is %v, want id %d data %d", size, i, e, ids[i], d)
			s.m[ids[i]] = d
		}
		if size > 0 {
			c.Label("size claimed")
		}
	} else {
		c.Label("size refused")
	}
}

// point compares what is told about one id with the model.
func (s *idxSys) point(id uint64) {
	c := s.c
	d, held := s.m[id]
	e, err := s.t.Get(id)
	c.Check((err == nil) == held, "Get(%d): %v, claimed: %v", id, err, held)
	if held {
		c.Check(e != nil && e.ID() == id && e.Data() == d, "Get(%d): got %v, want data %d", id, e, d)
	}
	c.Check(s.t.Has(id) == held, "Has(%d): got %v, claimed: %v", id, !held, held)
	if id < s.n {
		c.Check(s.t.IsFree(id) == !held, "IsFree(%d): got %v, claimed: %v", id, held, held)
	}
}

func (s *idxSys) getAll() {
	ks := s.keys()
	all := s.t.GetAll()
	s.c.Check(len(all) == len(ks), "GetAll: %d entries, want %d", len(all), len(ks))
	for i, e := range all {
		s.c.Check(e != nil && e.ID() == ks[i] && e.Data() == s.m[ks[i]], "GetAll[%d]: got %v, want id %d data %d", i, e, ks[i], s.m[ks[i]])
	}
	scribble(all)
}

// read makes one query, so that histories mix single queries with changes.
func (s *idxSys) read() {
	if !s.c.Chance(1, 8) {
		return
	}
	switch s.c.Int(4) {
	case 0:
		s.getAll()
	case 1:
		s.c.Check(s.t.Size() == len(s.m), "Size: got %d, want %d", s.t.Size(), len(s.m))
	case 2:
		s.point(s.id())
	case 3:
		low, ok := s.lowestFree()
		id, err := s.t.FindFree()
		s.c.Check((err == nil) == ok && (!ok || id == low), "FindFree: got %d %v, lowest free is %d (%v)", id, err, low, ok)
	}
}

// observe compares every observable with the model.
func (s *idxSys) observe() {
	c := s.c
	c.Check(s.t.Size() == len(s.m), "Size: got %d, want %d", s.t.Size(), len(s.m))
	ks := s.keys()
	s.getAll()
	pts := ks
	if s.n <= 64 {
		pts = nil
		for id := uint64(0); id < s.n+2; id++ {
			pts = append(pts, id)
		}
	} else {
		pts = append([]uint64{0, s.n / 2, s.n - 1, s.n}, ks...)
		for _, k := range ks {
			pts = append(pts, k+1, k-1)
		}
	}
	pts = append(pts, ^uint64(0))
	for _, id := range pts {
		s.point(id)
	}
}

// collect walks a claimed-entry iterator.
func (s *idxSys) iterators() {
	c := s.c
	ks := s.keys()
	type kv struct {
		id uint64
		d  int
	}
	var want []kv
	for _, k := range ks {
		want = append(want, kv{k, s.m[k]})
	}
	var free []uint64
	for id := uint64(0); id < s.n; id++ {
		if _, ok := s.m[id]; !ok {
			free = append(free, id)
		}
	}
	mutate := func() {
		den := 3
		if len(ks) > 5000 {
			den = 20000
		}
		if !c.Chance(1, den) {
			return
		}
		c.Label("change during iteration")
		c.Nontrivial()
		switch c.Int(6) {
		case 0:
			s.release()
		case 1:
			s.update()
		case 2:
			s.claim()
		case 3:
			s.dynamic()
		case 4:
			s.claimRange()
		case 5:
			s.claimSize()
		}
	}
	if c.Bool() {
		c.Logf("Iterate()")
		it := s.t.Iterate()
		prev := uint64(0)
		for i := 0; ; i++ {
			mutate()
			ok := it.Next()
			c.Check(ok == (i < len(want)), "iterator step %d: Next=%v, %d entries were claimed", i, ok, len(want))
			if !ok {
				break
			}
			mutate()
			e := it.Value()
			c.Check(it.ID() == want[i].id && e != nil && e.ID() == want[i].id && e.Data() == want[i].d,
				"iterator step %d: id %d value %v, want %v", i, it.ID(), e, want[i])
			cons := i > 0 && prev+1 == want[i].id
			c.Check(it.IsConsecutive() == cons, "iterator at %d after %d: IsConsecutive=%v", want[i].id, prev, !cons)
			prev = want[i].id
		}
	} else {
		c.Logf("IterateFree()")
		it := s.t.IterateFree()
		prev := uint64(0)
		for i := 0; ; i++ {
			mutate()
			ok := it.Next()
			c.Check(ok == (i < len(free)), "free iterator step %d: Next=%v, %d ids were free", i, ok, len(free))
			if !ok {
				break
			}
			c.Check(it.ID() == free[i], "free iterator step %d: id %d, want %d", i, it.ID(), free[i])
			cons := i > 0 && prev+1 == free[i]
			c.Check(it.IsConsecutive() == cons, "free iterator at %d after %d: IsConsecutive=%v", free[i], prev, !cons)
			prev = free[i]
		}
	}
}

// bigTable drives a table that holds more entries than 16 bits count.
func bigTable(c *pbt.C) {
	vsched.AddBudget(2_000_000_000)
	n := uint64(65536+2) + c.U64(5000)
	c.Logf("NewTable(%d)", n)
	c.Label("more than 65536 entries")
	s := &idxSys{c: c, t: idxtable.NewTable[int](n), n: n, m: map[uint64]int{}}
	s.z = newZone(c, n-1)
	holes := map[uint64]bool{}
	for i, k := 0, c.Int(6); i < k; i++ {
		switch c.Int(3) {
		case 0:
			holes[n-1-c.U64(3)] = true
		case 1:
			holes[c.U64(3)] = true
		case 2:
			holes[c.U64(n)] = true
		}
	}
	var hs []uint64
	for h := range holes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	from := uint64(0)
	if c.Bool() { // the lowest ids first
		size := n - c.U64(min(n, 5000))
		d := s.data()
		got, err := s.t.FindFreeSize(size)
		c.Check(err == nil && uint64(len(got)) == size, "FindFreeSize(%d) of %d free ids: %d ids %v", size, n, len(got), err)
		es, err := s.t.ClaimSize(size, d)
		c.Logf("ClaimSize(%d,%d) -> %s", size, d, errs(err))
		c.Check(err == nil && uint64(len(es)) == size, "ClaimSize(%d) of %d free ids: %d entries %v", size, n, len(es), err)
		for i, e := range es {
			c.Check(e.ID() == uint64(i) && got[i] == uint64(i), "ClaimSize(%d) of an empty table: entry %d is %d", size, i, e.ID())
			s.m[e.ID()] = d
		}
		hs, from = nil, size
		for _, h := range []uint64{c.U64(size), c.U64(size)} {
			c.Check(s.t.Release(h) == nil, "Release(%d) refused", h)
			delete(s.m, h)
		}
	}
	for _, to := range append(hs, n) {
		if to > from {
			s.ctr++
			err := s.t.ClaimRange(from, to-from, s.ctr)
			c.Logf("ClaimRange(%d,%d,%d) -> %s", from, to-from, s.ctr, errs(err))
			c.Check(err == nil, "ClaimRange(%d,%d) of free ids: %v", from, to-from, err)
			for id := from; id < to; id++ {
				s.m[id] = s.ctr
			}
		}
		from = to + 1
	}
	c.Nontrivial()
	c.RepeatFixed(6, 12, func(int) {
		switch c.Weighted(2, 1, 4, 4, 2, 4, 2) {
		case 0:
			s.claim()
		case 1:
			s.update()
		case 2:
			s.release()
		case 3:
			s.dynamic()
		case 4:
			s.claimRange()
		case 5:
			s.claimSize()
		case 6:
			s.iterators()
		}
	})
	s.iterators()
	s.observe()
	for uint64(len(s.m)) < s.n && s.n-uint64(len(s.m)) < 200 {
		s.dynamic()
	}
	s.dynamic()
	s.claimSize()
	c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
}

func init() {
	register(&pbt.Prop{ID: "C01", Quick: 480000, Thorough: 19200000, Budget: 100_000_000,
		Rule: "random call histories on index tables of capacity 1..300 or near 2^32/2^63/2^64, every observable compared with a map after every call; non-trivial = a claimed id was released during the history",
		Run: func(c *pbt.C) {
			if c.Chance(1, 20000) {
				bigTable(c)
				return
			}
			s := newIdxSys(c, true)
			c.Repeat(14, 80, func(int) {
				s.read()
				switch c.Weighted(8, 4, 5, 2, 1, 1) {
				case 0:
					s.claim()
				case 1:
					s.update()
				case 2:
					s.release()
				case 3:
					s.dynamic()
				case 4:
					s.claimRange()
				case 5:
					s.claimSize()
				}
				if c.Due() {
					s.observe()
				}
			})
			s.observe()
		}})
	register(&pbt.Prop{ID: "C02", Quick: 600000, Thorough: 24000000, Budget: 60_000_000,
		Rule: "bulk finds and claims (sizes 0, 1, exact fit, one too many, overflowing) on tables with random holes, compared with a map; non-trivial = a bulk call was made while ids were claimed",
		Run: func(c *pbt.C) {
			if c.Chance(1, 20000) {
				bigTable(c)
				return
			}
			s := newIdxSys(c, true)
			c.Repeat(8, 60, func(int) {
				s.read()
				switch c.Weighted(5, 4, 3, 2) {
				case 0:
					if len(s.m) > 0 {
						c.Nontrivial()
					}
					s.claimRange()
					if c.Due() {
						s.observe()
					}
				case 1:
					if len(s.m) > 0 {
						c.Nontrivial()
					}
					s.claimSize()
					if c.Due() {
						s.observe()
					}
				case 2:
					s.claim()
				case 3:
					s.release()
				}
			})
			s.observe()
		}})
	register(&pbt.Prop{ID: "C03", Quick: 400000, Thorough: 16000000, Budget: 60_000_000,
		Rule: "dynamic claims mixed with claims and releases at capacities 1..300 and up to 2^64-1, then exhaustion, random releases and re-exhaustion; non-trivial = table driven to full or an id released and re-claimed",
		Run: func(c *pbt.C) {
			if c.Chance(1, 20000) {
				bigTable(c)
				return
			}
			s := newIdxSys(c, true)
			c.Repeat(10, 60, func(int) {
				s.read()
				switch c.Weighted(6, 2, 4, 1, 1) {
				case 0:
					s.dynamic()
				case 1:
					s.claim()
				case 2:
					s.release()
				case 3:
					s.claimRange()
				case 4:
					s.update()
				}
			})
			s.observe()
			if s.n > 300 {
				for i := 0; i < 4; i++ {
					s.dynamic()
				}
				return
			}
			for round := 0; round < 2; round++ {
				for uint64(len(s.m)) < s.n {
					s.dynamic()
				}
				s.dynamic()
				c.Label("exhausted")
				c.Nontrivial()
				s.observe()
				c.Repeat(4, 20, func(int) { s.release() })
			}
			s.dynamic()
			s.observe()
		}})
	register(&pbt.Prop{ID: "C04", Quick: 120000, Thorough: 4800000, Budget: 300_000_000,
		Rule: "iterators over random tables walked with random table changes between the steps, compared with the contents at creation; non-trivial = the table changed while an iterator was open",
		Run: func(c *pbt.C) {
			if c.Chance(1, 20000) {
				bigTable(c)
				return
			}
			s := newIdxSys(c, false)
			c.Repeat(10, 40, func(int) {
				switch c.Weighted(6, 2, 2, 1, 3) {
				case 0:
					s.claim()
				case 1:
					s.release()
				case 2:
					s.claimRange()
				case 3:
					s.update()
				case 4:
					s.iterators()
				}
			})
			s.iterators()
			s.observe()
		}})
}
