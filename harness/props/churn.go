package props

import (
	"fmt"
	"net/netip"
	"runtime"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
	"k8s.io/apimachinery/pkg/labels"
)

// A loop is a fixed sequence of calls on one container that ends where it
// began, so that it can be repeated for ever.
type loop struct {
	calls  []func()
	size   func() int // entries held
	wander bool       // every round uses other ids
	round  uint64
}

// newLoop makes an empty loop; half of them use other ids in every round.
func newLoop(c *pbt.C, size func() int) *loop {
	l := &loop{size: size, wander: c.Bool()}
	if l.wander {
		c.Logf("the ids move from round to round")
		c.Label("ids move from round to round")
	}
	return l
}

// off is the way from the ids of the first round to those of this one, at most last.
func (l *loop) off(last uint64) uint64 {
	if !l.wander {
		return 0
	}
	x := (l.round + 1) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	if last == ^uint64(0) {
		return x
	}
	return x % (last + 1)
}

// move moves v within 0..last.
func (l *loop) move(v, last uint64) uint64 {
	o := l.off(last)
	if o > last-v {
		return o - (last - v) - 1
	}
	return v + o
}

func (l *loop) run(n int) {
	for ; n > 0; n-- {
		for _, f := range l.calls {
			f()
		}
		l.round++
	}
}

func (l *loop) add(f func()) { l.calls = append(l.calls, f) }

func heapNow() uint64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// churn repeats the loop in stages of growing length and looks at the work of
// one round and at the heap between the stages.
func churn(c *pbt.C, l *loop) {
	size := l.size()
	l.run(2) // what the first rounds set up
	work := func() uint64 {
		st := vsched.Steps()
		l.run(1)
		return vsched.Steps() - st
	}
	first := max(work(), work())
	rounds := 400
	h := heapNow()
	grown := 0
	for stage := 0; stage < 4; stage++ {
		l.run(rounds)
		now := heapNow()
		c.Check(l.size() == size, "after %d more rounds %d entries are held, before %d", rounds, l.size(), size)
		if last := min(work(), work(), work()); last > 2*first+200 && (!l.wander || last > 3*first+4000) {
			c.Failf("a round of the %d calls takes %d statements after some thousand rounds, %d at first", len(l.calls), last, first)
		}
		if now < h+uint64(8*rounds) || now < h+4096 {
			break
		}
		grown++
		c.Label(fmt.Sprintf("heap grew in %d stages", grown))
		c.Check(grown < 4, "memory grows with every round of the %d calls: by %d bytes in the last %d rounds", len(l.calls), now-h, rounds)
		h, rounds = now, 2*rounds
	}
	runtime.KeepAlive(l)
	if len(l.calls) > 2 {
		c.Nontrivial()
	}
}

func churnTree(c *pbt.C) {
	c.NoCrowd = true
	s := anyTreeSys(c)
	if c.Bool() {
		c.Repeat(4, 30, func(int) { s.step(6, 1, 1, 2, 1) })
	}
	base := s.keys()
	in := map[pfx]bool{}
	for _, p := range base {
		in[p] = true
	}
	t := s.t
	l := newLoop(c, func() int { return t.Size() })
	lab := s.labels()
	var added []pfx
	// p in this round
	at := func(p pfx) (tree.ID, bool) {
		if l.wander {
			p = s.w.pfx(p.v^l.off(s.max), p.l)
		}
		return s.w.tid(p), !in[p]
	}
	claim := func(t interface {
		ClaimID(tree.ID, labels.Set) error
	}, p pfx) {
		if id, ok := at(p); ok {
			t.ClaimID(id, lab)
		}
	}
	release := func(t interface{ ReleaseID(tree.ID) error }, p pfx) {
		if id, ok := at(p); ok {
			t.ReleaseID(id)
		}
	}
	var got tree.Entries // free claims of the running round
	c.RepeatFixed(5, 10, func(int) {
		switch c.Weighted(6, 3, 2, 2, 1, 1) {
		case 0: // claims, at times again
			p := s.pick()
			if in[p] {
				return
			}
			c.Logf("claim %s", p)
			l.add(func() { claim(t, p) })
			added = append(added, p)
		case 1:
			if len(added) == 0 {
				return
			}
			i := c.Int(len(added))
			p := added[i]
			c.Logf("release %s", p)
			l.add(func() { release(t, p) })
			added = append(append([]pfx(nil), added[:i]...), added[i+1:]...)
		case 2:
			c.Logf("claim a free id")
			l.add(func() {
				if e, err := t.ClaimFree(lab); err == nil {
					got = append(got, e)
				}
			})
		case 3:
			if len(base) == 0 {
				return
			}
			p := base[c.Int(len(base))]
			id, back := s.w.tid(p), s.m[p]
			c.Logf("release and claim %s", p)
			l.add(func() { t.ReleaseID(id); t.ClaimID(id, back) })
		case 4:
			c.Logf("refused calls and queries")
			l.add(func() {
				t.ClaimRange("x-1", lab)
				t.GetAll()
				for it := t.Iterate(); it.Next(); {
					it.Entry()
				}
			})
		case 5:
			c.Logf("change of a clone")
			p := s.pick()
			l.add(func() { n := t.Clone(); claim(n, p); release(n, p) })
		}
	})
	l.add(func() {
		for _, e := range got {
			t.ReleaseID(e.ID())
		}
		got = got[:0]
	})
	for len(added) > 0 {
		i := c.Int(len(added))
		p := added[i]
		c.Logf("release %s", p)
		added = append(added[:i], added[i+1:]...)
		l.add(func() { release(t, p) })
	}
	churn(c, l)
	s.observe()
}

func churnTrie(c *pbt.C) {
	c.NoCrowd = true
	s := newTrieSys(c)
	c.Repeat(2, 30, func(int) { s.add() })
	base := s.keys()
	t := s.t
	l := newLoop(c, func() int {
		n := 0
		for it := t.Iterate(); it.Next(); {
			n += len(it.Vals())
		}
		return n
	})
	at := func(p pfx) tree.ID {
		return s.w.tid(s.w.pfx(p.v^l.off(s.w.max), p.l))
	}
	mark := -7
	mine := func(stored, val tval) bool { return stored.n == mark }
	var added []pfx
	c.RepeatFixed(6, 12, func(int) {
		p := s.pick()
		if len(base) > 0 && c.Bool() {
			p = base[c.Int(len(base))]
		}
		if len(added) > 0 && c.Chance(1, 3) {
			p = added[c.Int(len(added))]
		}
		if c.Chance(1, 4) {
			c.Logf("delete at %s", p)
			l.add(func() { t.Delete(at(p), mine, tval{}) })
			return
		}
		c.Logf("add at %s", p)
		l.add(func() { t.Add(at(p), tval{p, 0, mark}, nil) })
		added = append(added, p)
	})
	for len(added) > 0 {
		i := c.Int(len(added))
		p := added[i]
		c.Logf("delete at %s", p)
		added = append(added[:i], added[i+1:]...)
		l.add(func() { t.Delete(at(p), mine, tval{}) })
	}
	churn(c, l)
	s.check("after the rounds", s.t, s.m)
}

func churnTable(c *pbt.C) {
	w := genWidth(c)
	a, b := genWindow(c, w, 0)
	c.NoCrowd = true
	s := newTblSys(c, w, a, b)
	c.Repeat(3, 30, func(int) { s.claim(s.inside()) })
	t := s.t
	l := newLoop(c, func() int { return t.Size() })
	lab := s.labels()
	at := func(id uint64) (uint64, bool) {
		id = s.start + l.move(id-s.start, s.last())
		return id, !s.held(id)
	}
	var got []uint64
	var mine []uint64
	c.RepeatFixed(5, 10, func(int) {
		id := s.inside()
		switch c.Weighted(4, 2, 1) {
		case 0:
			if s.held(id) {
				return
			}
			c.Logf("claim %d", id)
			l.add(func() {
				if id, ok := at(id); ok {
					t.Claim(id, lab)
				}
			})
			mine = append(mine, id)
		case 1:
			c.Logf("claim a free id")
			l.add(func() {
				if e, err := t.ClaimFree(lab); err == nil {
					got = append(got, e.ID().ID())
				}
			})
		case 2:
			out := s.outside()
			c.Logf("queries and refused calls")
			l.add(func() { t.GetAll(); t.FindFree(); t.Has(id); t.Update(out, lab); t.Claim(out|1<<63, lab) })
			if s.in(out) || s.in(out|1<<63) {
				l.calls = l.calls[:len(l.calls)-1]
			}
		}
	})
	l.add(func() {
		for _, id := range got {
			t.Release(id)
		}
		got = got[:0]
	})
	for len(mine) > 0 {
		i := c.Int(len(mine))
		id := mine[i]
		c.Logf("release %d", id)
		mine = append(mine[:i], mine[i+1:]...)
		l.add(func() {
			if id, ok := at(id); ok {
				t.Release(id)
			}
		})
	}
	churn(c, l)
	s.observe()
}

func churnIdx(c *pbt.C) {
	c.NoCrowd = true
	s := newIdxSys(c, true)
	c.Repeat(3, 30, func(int) { s.claim() })
	t := s.t
	l := newLoop(c, func() int { return t.Size() })
	at := func(id uint64) uint64 { return l.move(id, s.n-1) }
	var got []uint64
	var its []*idxtable.Iterator[int]
	c.RepeatFixed(5, 10, func(int) {
		id := s.id()
		if _, held := s.m[id]; held {
			return
		}
		switch c.Weighted(4, 2, 2, 2, 1) {
		case 0:
			c.Logf("claim %d", id)
			l.add(func() {
				if id := at(id); t.Claim(id, 1) == nil {
					got = append(got, id)
				}
			})
		case 1:
			c.Logf("dynamic claim")
			l.add(func() {
				if e, err := t.ClaimDynamic(1); err == nil {
					got = append(got, e.ID())
				}
			})
		case 2:
			n := 1 + c.U64(6)
			c.Logf("claim of size %d", n)
			l.add(func() {
				es, err := t.ClaimSize(n, 1)
				if err == nil {
					for _, e := range es {
						got = append(got, e.ID())
					}
				}
			})
		case 3:
			n := 1 + c.U64(6)
			c.Logf("claim of range %d,%d", id, n)
			l.add(func() {
				if id := at(id); t.ClaimRange(id, n, 1) == nil {
					for i := uint64(0); i < n; i++ {
						got = append(got, id+i)
					}
				}
			})
		case 4:
			c.Logf("queries")
			l.add(func() {
				t.GetAll()
				t.FindFree()
				if s.n <= 1000 {
					it := t.Iterate()
					it.Next()
					its = append(its[:0], it)
					it = t.IterateFree()
					it.Next()
				}
			})
		}
	})
	l.add(func() {
		for _, id := range got {
			t.Release(id)
		}
		got = got[:0]
	})
	churn(c, l)
	s.observe()
}

func churnIP(c *pbt.C) {
	c.NoCrowd = true
	s := newIPSys(c, true)
	c.Repeat(3, 30, func(int) { s.claim() })
	t := s.t
	l := newLoop(c, func() int { return t.Size() })
	// the text of address a in this round
	at := func(a netip.Addr, st string) (string, bool) {
		if l.wander {
			a = s.at(l.move((num(a).lo - s.from.lo), s.last))
			st = a.String()
		}
		_, held := s.m[a]
		return st, !held
	}
	var mine []netip.Addr
	_, r := s.val()
	c.RepeatFixed(5, 10, func(int) {
		a := s.inside()
		if _, held := s.m[a]; held {
			return
		}
		switch c.Weighted(4, 1) {
		case 0:
			st := s.spell(a)
			c.Logf("claim %s", st)
			l.add(func() {
				if st, ok := at(a, st); ok {
					t.Claim(st, r)
				}
			})
			mine = append(mine, a)
		case 1:
			out := s.outsideStr()
			if _, in := s.denote(out); in {
				return
			}
			c.Logf("queries and refused calls")
			l.add(func() { t.GetAll(); t.FindFree(); t.Claim(out, r); t.Get(out) })
		}
	})
	for len(mine) > 0 {
		i := c.Int(len(mine))
		a := mine[i]
		st := s.spell(a)
		c.Logf("release %s", st)
		mine = append(mine[:i], mine[i+1:]...)
		l.add(func() {
			if st, ok := at(a, st); ok {
				t.Release(st)
			}
		})
	}
	churn(c, l)
	s.observe()
}

func init() {
	register(&pbt.Prop{ID: "C29", Quick: 10000, Thorough: 400000, Budget: 3_000_000_000,
		Rule: "a random sequence of calls on a container with random contents that ends where it began is repeated 400 to 6000 times, half of the time with ids that move from round to round; statements per round and heap after collections are compared with those of the first rounds (memory counts as growing only if it does so by 8 bytes per round in four stages of doubling length); non-trivial = the sequence has more than two calls",
		Run: func(c *pbt.C) {
			switch c.Weighted(4, 4, 2, 2, 1) {
			case 0:
				churnTree(c)
			case 1:
				churnTrie(c)
			case 2:
				churnTable(c)
			case 3:
				churnIdx(c)
			case 4:
				churnIP(c)
			}
		}})
}
