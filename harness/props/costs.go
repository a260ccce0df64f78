package props

import (
	"fmt"
	"net/netip"
	"runtime"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
	"k8s.io/apimachinery/pkg/labels"
)

// A costed call is measured on a container with n and with 16n entries.
type costed struct {
	name   string
	linear bool // may grow with the entries
	f      func(i int)
}

// costly is a container that can grow.
type costly struct {
	add   func(i int) // adds the i-th entry
	calls []costed
	slack uint64 // for calls that must not grow
}

const costFactor = 16

// allocated returns the bytes allocated so far.
func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// costs compares the statements and the allocated bytes of each call on n and
// on 16n entries.
func costs(c *pbt.C, n0 int, k *costly) {
	measure := func() (most, bytes []uint64) {
		most, bytes = make([]uint64, len(k.calls)), make([]uint64, len(k.calls))
		for j, x := range k.calls {
			reps := 12
			if x.linear {
				reps = 3
			}
			bytes[j] = ^uint64(0)
			for i := 0; i < reps; i++ {
				at, mem := vsched.Steps(), uint64(0)
				if i < 2 {
					mem = allocated()
				}
				x.f(i)
				most[j] = max(most[j], vsched.Steps()-at)
				// a map or slice may just have to grow: the lower of two counts
				if i < 2 {
					bytes[j] = min(bytes[j], allocated()-mem)
				}
			}
		}
		return
	}
	n := uint64(n0)
	i := 0
	fill := func(n int) (uint64, uint64) {
		at, mem := vsched.Steps(), allocated()
		for ; i < n; i++ {
			k.add(i)
		}
		return vsched.Steps() - at, allocated() - mem
	}
	_, bytes0 := fill(n0)
	few, fewB := measure()
	filled, bytes1 := fill(costFactor * n0)
	many, manyB := measure()
	for j, x := range k.calls {
		lim, limB := 2*few[j]+k.slack, 3*fewB[j]+8192
		if x.linear {
			// a factor of 2.5 for sorting; few entries may not show the work on
			// each (a search for a free id that ends at once)
			lim, limB = few[j]*costFactor*5/2+20_000+60*costFactor*n, fewB[j]*costFactor*4+100_000+64*costFactor*n
		}
		c.Check(many[j] <= lim, "%s takes %d statements with %d entries and %d with %d times as many", x.name, few[j], n0, many[j], costFactor)
		c.Check(manyB[j] <= limB, "%s allocates %d bytes with %d entries and %d with %d times as many", x.name, fewB[j], n0, manyB[j], costFactor)
		if few[j] > 0 {
			c.Nontrivial()
		}
	}
	c.Check(filled <= (costFactor-1)*n*(k.slack+2000), "%d claims took %d statements", (costFactor-1)*n0, filled)
	c.Check(bytes1/(costFactor-1) <= 3*bytes0+500*n, "%d claims allocated %d bytes, and %d after that %d", n0, bytes0, (costFactor-1)*n0, bytes1)
}

// spread lists distinct ids up to last: in a run from either end or somewhere,
// with gaps, or all over, in any order.
func spread(c *pbt.C, last uint64, n int) []uint64 {
	ids := make([]uint64, 0, n)
	pat := c.Int(5)
	step := uint64(1)
	at := uint64(0)
	switch pat {
	case 1:
		at = last - uint64(n) + 1
	case 2:
		step = last / uint64(n)
		if step == 0 {
			step = 1
		}
	case 3:
		at = c.U64(last - uint64(n) + 2)
	}
	if pat == 4 {
		seen := map[uint64]bool{}
		for x := c.U64(0); len(ids) < n; {
			x = x*6364136223846793005 + 1442695040888963407
			v := x >> 13
			if last < ^uint64(0) {
				v %= last + 1
			}
			for seen[v] {
				if v++; v > last {
					v = 0
				}
			}
			seen[v] = true
			ids = append(ids, v)
		}
		c.Label("ids all over")
	} else {
		for i := 0; i < n; i++ {
			ids = append(ids, at+uint64(i)*step)
		}
		c.Label([]string{"ids from the first", "ids to the last", "ids with gaps", "ids in a run"}[pat])
	}
	switch c.Int(3) {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
	case 2:
		x := uint64(n) * 77
		for i := n - 1; i > 0; i-- {
			x = x*6364136223846793005 + 1442695040888963407
			j := int((x >> 33) % uint64(i+1))
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	return ids
}

// sizes draws the number of entries and the last id of a space.
func (w *width) sizes(c *pbt.C, lo, hi int) (int, uint64) {
	n := lo + c.Int(hi-lo+1)
	last := uint64(costFactor*n) + 16 + c.U64(uint64(n))
	if c.Bool() {
		last = w.max
	}
	if last > w.max {
		last = w.max
	}
	return n, last
}

var costLabels = []labels.Set{nil, {"a": "1"}, {"a": "2"}, {"a": "1", "b": "2"}}

func walk(it interface{ Next() bool }) {
	for it.Next() {
	}
}

func costIdx(c *pbt.C) {
	n, last := widths[c.Int(3)].sizes(c, 100, 250)
	if last == ^uint64(0) {
		last--
	}
	ids := spread(c, last, costFactor*n+1)
	t := idxtable.NewTable[int](last + 1)
	c.Logf("NewTable(%d) with %d ids, then %d", last+1, n, costFactor*n)
	miss := ids[costFactor*n]
	in := func(i int) uint64 { return ids[i%n] }
	k := &costly{slack: 1200, add: func(i int) { c.Check(t.Claim(ids[i], i) == nil, "Claim(%d) refused", ids[i]) }}
	k.calls = []costed{
		{"Get of a claimed id", false, func(i int) { t.Get(in(i)) }},
		{"Get of a free id", false, func(i int) { t.Get(miss) }},
		{"Has", false, func(i int) { t.Has(in(i)); t.Has(miss) }},
		{"IsFree", false, func(i int) { t.IsFree(in(i)); t.IsFree(miss) }},
		{"Size", false, func(i int) { t.Size() }},
		{"Update", false, func(i int) { t.Update(in(i), i); t.Update(miss, i) }},
		{"Claim of a claimed id", false, func(i int) { t.Claim(in(i), i) }},
		{"Claim of a free id and Release", false, func(i int) { t.Claim(miss, i); t.Release(miss) }},
		{"Release of a free id", false, func(i int) { t.Release(miss) }},
		{"FindFreeRange of 8 ids", false, func(i int) { t.FindFreeRange(in(i), 8); t.FindFreeRange(miss, 8) }},
		{"FindFree", true, func(int) { t.FindFree() }},
		{"FindFreeSize of 8 ids", true, func(int) { t.FindFreeSize(8) }},
		{"ClaimDynamic and Release", true, func(int) {
			if e, err := t.ClaimDynamic(1); err == nil {
				t.Release(e.ID())
			}
		}},
		{"GetAll", true, func(int) { t.GetAll() }},
		{"a walk of all entries", true, func(int) { walk(t.Iterate()) }},
	}
	costs(c, n, k)
}

func costTbl(c *pbt.C) {
	w := genWidth(c)
	n, last := w.sizes(c, 100, 250)
	if last == ^uint64(0) {
		last--
	}
	start := uint64(0)
	if c.Bool() {
		start = w.max - last
	}
	ids := spread(c, last, costFactor*n+1)
	for i := range ids {
		ids[i] += start
	}
	t := w.newTable(start, start+last)
	c.Logf("table%s.New(%d,%d) with %d ids, then %d", w.name, start, start+last, n, costFactor*n)
	miss := ids[costFactor*n]
	in := func(i int) uint64 { return ids[i%n] }
	sel, st := genSelector(c)
	c.Logf("selector %s", st)
	l := costLabels[1]
	k := &costly{slack: 1200, add: func(i int) {
		c.Check(t.Claim(ids[i], costLabels[i%4]) == nil, "Claim(%d) refused", ids[i])
	}}
	k.calls = []costed{
		{"Get of a claimed id", false, func(i int) { t.Get(in(i)) }},
		{"Get of a free id", false, func(i int) { t.Get(miss) }},
		{"Has", false, func(i int) { t.Has(in(i)); t.Has(miss) }},
		{"IsFree", false, func(i int) { t.IsFree(in(i)); t.IsFree(miss) }},
		{"Size", false, func(i int) { t.Size() }},
		{"Update", false, func(i int) { t.Update(in(i), l); t.Update(miss, l) }},
		{"Claim of a claimed id", false, func(i int) { t.Claim(in(i), l) }},
		{"Claim of a free id and Release", false, func(i int) { t.Claim(miss, l); t.Release(miss) }},
		{"Release of a free id", false, func(i int) { t.Release(miss) }},
		{"FindFree", true, func(int) { t.FindFree() }},
		{"ClaimFree and Release", true, func(int) {
			if e, err := t.ClaimFree(l); err == nil {
				t.Release(e.ID().ID())
			}
		}},
		{"GetAll", true, func(int) { t.GetAll() }},
		{"GetByLabel", true, func(int) { t.GetByLabel(sel) }},
	}
	costs(c, n, k)
}

func costIP(c *pbt.C) {
	c.NoCrowd = true
	s := newIPSys(c, false)
	n := 100 + c.Int(100)
	s.last = uint64(costFactor*n) + 16
	if c.Bool() {
		s.last = 1<<32 - 1
	}
	maxA := u128{^uint64(0), ^uint64(0)}
	if s.v4 {
		maxA = u128{0, 1<<32 - 1}
	}
	if lim := maxA.sub(s.last); lim.less(s.from) {
		s.from = lim
	}
	s.to = s.from.add(s.last)
	t := iptable.New(s.at(0), s.at(s.last))
	ids := spread(c, s.last, costFactor*n+1)
	c.Logf("New(%s,%s) with %d addresses, then %d", s.at(0), s.at(s.last), n, costFactor*n)
	str := func(i int) string { return s.at(ids[i]).String() }
	miss := str(costFactor * n)
	in := func(i int) string { return str(i % n) }
	r := nipam.NewRoute(netip.PrefixFrom(s.at(0), s.at(0).BitLen()), costLabels[1], nil)
	sel, st := genSelector(c)
	c.Logf("selector %s", st)
	k := &costly{slack: 1200, add: func(i int) { c.Check(t.Claim(str(i), r) == nil, "Claim(%s) refused", str(i)) }}
	k.calls = []costed{
		{"Get of a claimed address", false, func(i int) { t.Get(in(i)) }},
		{"Get of a free address", false, func(i int) { t.Get(miss) }},
		{"Has", false, func(i int) { t.Has(in(i)); t.Has(miss) }},
		{"IsFree", false, func(i int) { t.IsFree(in(i)); t.IsFree(miss) }},
		{"Size", false, func(i int) { t.Size() }},
		{"Update", false, func(i int) { t.Update(in(i), r); t.Update(miss, r) }},
		{"Claim of a claimed address", false, func(i int) { t.Claim(in(i), r) }},
		{"Claim of a free address and Release", false, func(i int) { t.Claim(miss, r); t.Release(miss) }},
		{"FindFree", true, func(int) { t.FindFree() }},
		{"GetAll", true, func(int) { t.GetAll() }},
		{"GetByLabel", true, func(int) { t.GetByLabel(sel) }},
	}
	costs(c, n, k)
}

// blocks lists distinct prefixes, nested ones among them.
func blocks(c *pbt.C, w *width, last uint64, n int) []pfx {
	ids := spread(c, last, n)
	if c.Bool() {
		out := make([]pfx, n)
		for i, v := range ids {
			out[i] = pfx{v, w.bits}
		}
		return out
	}
	c.Label("nested prefixes")
	out := make([]pfx, 0, n)
	seen := map[pfx]bool{}
	for i, v := range ids {
		l := w.bits
		if i%3 == 0 {
			l -= uint8(i % (int(w.bits) - 2))
		}
		for seen[w.pfx(v, l)] {
			l = w.bits
			if seen[w.pfx(v, l)] {
				break
			}
		}
		p := w.pfx(v, l)
		if seen[p] {
			continue
		}
		seen[p] = true
		out = append(out, p)
	}
	for x := uint64(0); len(out) < n && x <= last; x++ {
		if p := w.pfx(x, w.bits); !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func costTrie(c *pbt.C) {
	w := genWidth(c)
	n, last := w.sizes(c, 200, 350)
	ps := blocks(c, w, last, costFactor*n+1)
	if len(ps) <= costFactor*n {
		c.Discard()
	}
	t := tree.NewTree[int]("t", w.isLeft, w.bits)
	c.Logf("trie of %s bits with %d prefixes up to %d, then %d", w.name, n, last, costFactor*n)
	miss := w.tid(ps[costFactor*n])
	in := func(i int) tree.ID { return w.tid(ps[i%n]) }
	all := func(int, int) bool { return true }
	eq := func(a, b int) bool { return a == b }
	k := &costly{slack: 150 * uint64(w.bits), add: func(i int) {
		added, _ := t.Set(w.tid(ps[i]), i)
		c.Check(added, "Set(%s): stored before", ps[i])
	}}
	k.calls = []costed{
		{"Set of a stored prefix", false, func(i int) { t.Set(in(i), i) }},
		{"Set of a new prefix and Delete", false, func(i int) { t.Set(miss, i); t.Delete(miss, all, 0) }},
		{"Add of a new prefix and Delete", false, func(i int) { t.Add(miss, i, eq); t.Delete(miss, eq, i) }},
		{"Delete of a new prefix", false, func(i int) { t.Delete(miss, all, 0) }},
		{"Delete and Set of a stored prefix", false, func(i int) { t.Delete(in(i), all, 0); t.Set(in(i), i) }},
		{"an iterator's first element", false, func(i int) { t.Iterate().Next() }},
		{"a walk of all entries", true, func(int) { walk(t.Iterate()) }},
		{"Clone", true, func(int) { t.Clone() }},
	}
	costs(c, n, k)
}

func costTree(c *pbt.C) {
	w := genWidth(c)
	n, last := w.sizes(c, 100, 180)
	l := w.bits
	for l > 1 && maxOf(l-1) >= last {
		l--
	}
	ps := blocks(c, w, last, costFactor*n+1)
	if len(ps) <= costFactor*n {
		c.Discard()
	}
	t, err := w.newTree("t", l)
	c.Check(err == nil, "New(%d): %v", l, err)
	c.Logf("tree%s.New(%d) with %d prefixes up to %d, then %d", w.name, l, n, last, costFactor*n)
	miss := w.tid(ps[costFactor*n])
	in := func(i int) tree.ID { return w.tid(ps[i%n]) }
	sel, st := genSelector(c)
	c.Logf("selector %s", st)
	lab := costLabels[1]
	a := c.U64(last)
	rng := fmt.Sprintf("%d-%d", a, a+min(last-a, 20))
	k := &costly{slack: 150 * uint64(w.bits), add: func(i int) {
		err := t.ClaimID(w.tid(ps[i]), costLabels[i%4])
		c.Check(err == nil, "ClaimID(%s): %v", ps[i], err)
	}}
	k.calls = []costed{
		{"ClaimID of a claimed prefix", false, func(i int) { t.ClaimID(in(i), lab) }},
		{"Update", false, func(i int) { t.Update(in(i), lab) }},
		{"Get", true, func(i int) { t.Get(in(i)); t.Get(miss) }},
		{"Size", true, func(i int) { t.Size() }},
		{"ClaimID of a new prefix and ReleaseID", true, func(i int) { t.ClaimID(miss, lab); t.ReleaseID(miss) }},
		{"ReleaseID of a new prefix", true, func(i int) { t.ReleaseID(miss) }},
		{"ClaimFree and ReleaseID", true, func(i int) {
			if e, err := t.ClaimFree(lab); err == nil {
				t.ReleaseID(e.ID())
			}
		}},
		{"Children", true, func(i int) { t.Children(in(i)); t.Children(w.id(0, 0)) }},
		{"Parents", true, func(i int) { t.Parents(in(i)); t.Parents(miss) }},
		{"GetByLabel", true, func(i int) { t.GetByLabel(sel) }},
		{"GetAll", true, func(i int) { t.GetAll() }},
		{"a walk of all entries", true, func(int) { walk(t.Iterate()) }},
		{"Clone", true, func(int) { t.Clone() }},
		{"a clone's range claim and ReleaseByLabel", true, func(int) { t := t.Clone(); t.ClaimRange(rng, lab); t.ReleaseByLabel(sel) }},
	}
	costs(c, n, k)
}

func costSet(c *pbt.C) {
	w := genWidth(c)
	n := 60 + c.Int(41)
	// single ids apart from each other, so that the set grows with them
	step := 3 + c.U64(w.max/uint64(costFactor*n)-3)
	last := w.max
	ids := make([]uint64, costFactor*n)
	for i := range ids {
		ids[i] = uint64(i) * step
	}
	c.Logf("id set of %s bits of %d ids %d apart, then %d", w.name, n, step, costFactor*n)
	m := 0
	var v setV
	whole := c.Bool()
	build := func() setV {
		b := w.newSet()
		if whole { // what is left of all ids
			b.AddRange(w.rng(0, last))
			for _, x := range ids[:m] {
				b.RemoveId(w.id(x, w.bits))
			}
		} else {
			for _, x := range ids[:m] {
				b.AddId(w.id(x, w.bits))
			}
		}
		s, err := b.Build()
		c.Check(err == nil, "IPSet: %v", err)
		return s
	}
	l := w.bits - uint8(c.Int(3))
	k := &costly{add: func(i int) { m++ }}
	k.calls = []costed{
		{"the building of a set", true, func(int) { v = build() }},
		{"Ranges", true, func(int) { v.Ranges() }},
		{"IDs", true, func(int) { v.IDs() }},
		{"RemoveFreePrefix", true, func(int) { v.Take(l) }},
		{"AddSet", true, func(int) { b := w.newSet(); b.AddSet(v); b.AddSet(v); b.Build() }},
	}
	costs(c, n, k)
}

func init() {
	register(&pbt.Prop{ID: "C32", Quick: 4000, Thorough: 160000, Budget: 1_000_000_000,
		Rule: "a container is filled with n entries (60 to 350, in runs, with gaps, all over, nested; in several orders, in small and huge id spaces) and then with 16n; the statements and allocated bytes of each call are counted both times: calls on one id may not grow (beyond a factor of 2 and a few hundred), the others at most 2.5 times as fast as the entries; non-trivial = at least one call executed statements with n entries",
		Run: func(c *pbt.C) {
			switch c.Weighted(3, 3, 2, 3, 3, 2) {
			case 0:
				costIdx(c)
			case 1:
				costTbl(c)
			case 2:
				costIP(c)
			case 3:
				costTrie(c)
			case 4:
				costTree(c)
			case 5:
				costSet(c)
			}
		}})
}
