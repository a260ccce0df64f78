package props

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/zverif/pbt"
)

// idVal draws a value of w: small, large, near powers of two, or random.
func idVal(c *pbt.C, w *width) uint64 {
	switch c.Int(5) {
	case 0:
		return c.U64(9) & w.max
	case 1:
		return (w.max - c.U64(9)) & w.max
	case 2:
		return (uint64(1)<<c.Int(int(w.bits)) - 1 + c.U64(3)) & w.max
	case 3: // sparse bits
		v := uint64(0)
		for i := 0; i < 3; i++ {
			v |= 1 << c.Int(int(w.bits))
		}
		return v
	}
	return c.U64(0) & w.max
}

func idLen(c *pbt.C, w *width) uint8 {
	if c.Chance(1, 4) {
		return []uint8{0, 1, w.bits - 1, w.bits}[c.Int(4)]
	}
	return uint8(c.Int(int(w.bits) + 1))
}

// near draws a value that shares a random number of leading bits with v.
func near(c *pbt.C, w *width, v uint64) uint64 {
	k := uint8(c.Int(int(w.bits) + 1))
	return w.mask(v, k) | idVal(c, w)&w.host(k)
}

func sign(a, b uint64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func isZeroID(i tree.ID) bool { return i != nil && i.ID() == 0 && i.Length() == 0 }

func arithmetic(c *pbt.C) {
	w := genWidth(c)
	v, l := idVal(c, w), idLen(c, w)
	u, k := near(c, w, v), idLen(c, w)
	if c.Chance(1, 3) {
		k = l
	}
	if c.Chance(1, 6) {
		u = v
	}
	a, b := w.id(v, l), w.id(u, k)
	c.Logf("%s bits: a=%d/%d b=%d/%d", w.name, v, l, u, k)
	is := func(what string, got tree.ID, v uint64, l uint8) {
		c.Check(got != nil && got.ID() == v && got.Length() == l, "%s: got %v, want %d/%d", what, got, v, l)
	}
	is("a", a, v, l)
	is("a.Copy()", a.Copy(), v, l)
	c.Check(a.String() == fmt.Sprintf("%d/%d", v, l), "String: %q", a.String())

	// masks
	ml := idLen(c, w)
	if c.Chance(1, 6) {
		ml = w.bits + 1 + uint8(c.Int(255-int(w.bits)))
	}
	m, err := a.Mask(ml)
	c.Check((err == nil) == (ml <= w.bits), "a.Mask(%d): %v", ml, err)
	if err == nil {
		is(fmt.Sprintf("a.Mask(%d)", ml), m, w.mask(v, ml), ml)
		m2, err := m.Mask(ml)
		c.Check(err == nil, "a.Mask(%d).Mask(%d): %v", ml, ml, err)
		is("mask twice", m2, w.mask(v, ml), ml)
	} else {
		c.Label("mask refused")
	}
	is("a.Masked()", a.Masked(), w.mask(v, l), l)
	is("a.Masked().Masked()", a.Masked().Masked(), w.mask(v, l), l)

	// bounds
	p := w.pfx(v, l)
	is("LastID(a)", w.last(a), w.hi(p), w.bits)
	r := w.rangeOf(a)
	is("RangeOfID(a).From", r.From(), w.lo(p), w.bits)
	is("RangeOfID(a).To", r.To(), w.hi(p), w.bits)
	c.Check(r.IsValid(), "RangeOfID(a) is not valid")

	// order and overlap
	q := w.pfx(u, k)
	ov := w.contains(p, q) || w.contains(q, p)
	c.Check(a.Overlaps(b) == ov, "a.Overlaps(b): got %v", !ov)
	c.Check(b.Overlaps(a) == ov, "b.Overlaps(a): got %v", !ov)
	want := sign(uint64(l), uint64(k))
	if want == 0 {
		want = sign(v, u)
	}
	c.Check(a.Compare(b) == want && b.Compare(a) == -want, "Compare: got %d and %d, want %d", a.Compare(b), b.Compare(a), want)
	c.Check(a.Less(b) == (want < 0) && b.Less(a) == (want > 0), "Less: got %v and %v, Compare is %d", a.Less(b), b.Less(a), want)
	c.Check(a.Compare(a) == 0 && !a.Less(a), "a is not equal to itself")

	// bits
	mc := uint8(bits.LeadingZeros64((v^u)<<(64-w.bits) | 1<<(63-w.bits)&^(1<<63)))
	if w.bits == 64 {
		mc = uint8(bits.LeadingZeros64(v ^ u))
	}
	c.Check(a.Matches(u) == mc, "a.Matches(%d): got %d, want %d", u, a.Matches(u), mc)
	left := v>>(w.bits-1)&1 == 1
	c.Check(a.IsLeftBitSet() == left && w.isLeft(v) == left, "IsLeftBitSet of %d: got %v and %v", v, a.IsLeftBitSet(), w.isLeft(v))
	s := uint8(c.Int(int(l) + 1))
	sh := v << s & w.max
	if s >= 64 {
		sh = 0
	}
	is(fmt.Sprintf("a.ShiftLeft(%d)", s), a.ShiftLeft(s), sh, l-s)
	mv, mlen := w.merge(w.mask(v, s), s, sh, l-s)
	c.Check(mv == w.mask(v, l) && mlen == l, "merging the two parts of a cut at %d: got %d/%d, want %d/%d", s, mv, mlen, w.mask(v, l), l)

	// successor and predecessor
	f := w.id(v, w.bits)
	if v == w.max {
		c.Check(isZeroID(f.Next()), "Next of the last id: got %v, want the zero value", f.Next())
		c.Label("past the last id")
	} else {
		is("Next", f.Next(), v+1, w.bits)
		is("Next.Prev", f.Next().Prev(), v, w.bits)
	}
	if v == 0 {
		c.Check(isZeroID(f.Prev()), "Prev of 0: got %v, want the zero value", f.Prev())
		c.Label("before id 0")
	} else {
		is("Prev", f.Prev(), v-1, w.bits)
		is("Prev.Next", f.Prev().Next(), v, w.bits)
	}
	is("a after all", a, v, l)
	if ov && l != k {
		c.Label("nested blocks")
		c.Nontrivial()
	} else if mc > 0 && mc < w.bits {
		c.Nontrivial()
	}
}

func (w *width) merge(a uint64, la uint8, b uint64, lb uint8) (uint64, uint8) {
	switch w.bits {
	case 16:
		v, l := tree.MergeID16(uint16(a), la, uint16(b), lb)
		return uint64(v), l
	case 32:
		v, l := tree.MergeID32(uint32(a), la, uint32(b), lb)
		return uint64(v), l
	}
	return tree.MergeID64(a, la, b, lb)
}

func checkCover(c *pbt.C, w *width, what string, got []tree.ID, want []pfx) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = idPfx(got[i]) == want[i]
	}
	c.Check(ok, "%s: got %s, want %s", what, listStr(got, 12), listStr(want, 12))
}

func rangesProp(c *pbt.C) {
	w := genWidth(c)
	a, b := idVal(c, w), idVal(c, w)
	if c.Bool() {
		b = near(c, w, a)
	}
	if c.Chance(4, 5) {
		a, b = min(a, b), max(a, b)
	}
	st := fmt.Sprintf("%d-%d", a, b)
	if c.Chance(1, 3) {
		switch c.Int(3) {
		case 0: // edit
			i := c.Int(len(st) + 1)
			j := i
			if i < len(st) && c.Bool() {
				j = i + 1
			}
			st = st[:i] + []string{"", "-", " ", "a", ".", "+", "0", "9", "_", "\x00", "٣"}[c.Int(11)] + st[j:]
		case 1: // just above the width
			n := []string{"65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "00", "-1", ""}
			st = n[c.Int(len(n))] + "-" + n[c.Int(len(n))]
		case 2:
			st = ""
			for i := c.Int(9); i > 0; i-- {
				st += []string{"0", "1", "7", "9", "-", "-", " ", "x"}[c.Int(8)]
			}
		}
	}
	x, y, ok := w.parseOracle(st)
	r, err := w.parse(st)
	c.Logf("%s bits: ParseRange(%q) -> %s", w.name, st, errs(err))
	c.Check((err == nil) == ok, "ParseRange(%q): %v", st, err)
	if ok {
		c.Label("text accepted")
		is := func(what string, r tree.Range, a, b uint64) {
			c.Check(idPfx(r.From()) == pfx{a, w.bits} && idPfx(r.To()) == pfx{b, w.bits}, "%s: got %v-%v, want %d-%d", what, r.From(), r.To(), a, b)
			c.Check(r.String() == fmt.Sprintf("%d-%d", a, b), "%s prints as %q", what, r.String())
			c.Check(r.IsValid() == (a <= b), "%s: IsValid is %v", what, r.IsValid())
		}
		is("parsed range", r, x, y)
		r2, err := w.parse(r.String())
		c.Check(err == nil, "ParseRange(%q): %v", r.String(), err)
		is("printed and parsed again", r2, x, y)
		n := near(c, w, x)
		is("SetTo", r.SetTo(w.id(n, w.bits)), x, n)
		is("SetFrom", r.SetFrom(w.id(n, w.bits)), n, y)
		is("parsed range after SetTo/SetFrom", r, x, y)
	} else {
		c.Label("text refused")
	}
	if a > b {
		return
	}
	// decomposition
	r = w.rng(a, b)
	want := w.cover(a, b)
	checkCover(c, w, "IDs of "+r.String(), r.IDs(), want)
	first := w.id(7, w.bits)
	got := r.AppendIDs([]tree.ID{first})
	c.Check(len(got) > 0 && idPfx(got[0]) == idPfx(first), "AppendIDs lost what was in the slice: %s", listStr(got, 5))
	checkCover(c, w, "AppendIDs of "+r.String(), got[1:], want)
	if len(want) > 2 {
		c.Label("cover of 3 and more blocks")
		c.Nontrivial()
	}
	// relations
	o1, o2 := near(c, w, a), near(c, w, b)
	switch c.Int(6) {
	case 0:
		o1 = a
	case 1:
		o2 = b
	case 2:
		o1 = b
	case 3:
		o2 = a
	case 4:
		o1, o2 = b+1, b+1+c.U64(5)
		if o2 > w.max || o1 == 0 {
			o1, o2 = w.max, w.max
		}
	}
	o1, o2 = min(o1, o2), max(o1, o2)
	o := w.rng(o1, o2)
	c.Logf("relations of %s and %s", r, o)
	rel := func(name string, got, want bool) {
		c.Check(got == want, "(%s).%s(%s): got %v, want %v", r, name, o, got, want)
	}
	rel("EntirelyBefore", r.EntirelyBefore(o), b < o1)
	rel("CoveredBy", r.CoveredBy(o), o1 <= a && b <= o2)
	rel("InMiddleOf", r.InMiddleOf(o), o1 < a && b < o2)
	if a <= o2 && o1 <= b {
		c.Label("overlapping ranges")
		rel("OverlapsStartOf", r.OverlapsStartOf(o), a <= o1 && b < o2)
		rel("OverlapsEndOf", r.OverlapsEndOf(o), o1 < a && o2 <= b)
	}
	rel("Less", r.Less(o), a < o1 || a == o1 && b > o2)
}

// ---- id sets ----

type setOp struct {
	add bool
	r   []span
}

// contents computes the normalised spans described by the calls.
func contents(ops []setOp) []span {
	// split the space at every bound, then ask the last call that mentions a piece
	cut := map[uint64]bool{0: true}
	for _, o := range ops {
		for _, r := range o.r {
			cut[r.a] = true
			if r.b != ^uint64(0) {
				cut[r.b+1] = true
			}
		}
	}
	pts := make([]uint64, 0, len(cut))
	for p := range cut {
		pts = append(pts, p)
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	var out []span
	for i, p := range pts {
		end := ^uint64(0)
		if i+1 < len(pts) {
			end = pts[i+1] - 1
		}
		in := false
	search:
		for k := len(ops) - 1; k >= 0; k-- {
			for _, r := range ops[k].r {
				if r.a <= p && p <= r.b {
					in = ops[k].add
					break search
				}
			}
		}
		if !in {
			continue
		}
		if n := len(out); n > 0 && out[n-1].b+1 == p {
			out[n-1].b = end
		} else {
			out = append(out, span{p, end})
		}
	}
	return out
}

type setSys struct {
	c       *pbt.C
	w       *width
	b       setB
	ops     []setOp
	invalid bool // an invalid range was given since the last build
	ever    bool
	z       *zone
}

func newSetSys(c *pbt.C) *setSys {
	w := genWidth(c)
	s := &setSys{c: c, w: w, b: w.newSet(), z: newZone(c, w.max)}
	if k := crowd(c, 1000); k > 0 {
		gap, long, single := uint64(1+c.Int(4)), c.U64(6), c.Bool()
		last := w.max / gap
		if c.Bool() {
			last = min(last, uint64(2*k))
		}
		crowdIDs(c, k, last, func(_ int, id uint64) {
			a := id * gap
			b := a
			if !single {
				b = a + min(long, w.max-a)
			}
			s.ops = append(s.ops, setOp{true, []span{{a, b}}})
			if a == b {
				s.b.AddId(w.id(a, w.bits))
			} else {
				s.b.AddRange(w.rng(a, b))
			}
		})
		c.Logf("%d x Add", len(s.ops))
		s.ops = []setOp{{true, contents(s.ops)}}
	}
	return s
}

func (s *setSys) bound() uint64 {
	if len(s.ops) > 0 && s.c.Chance(1, 3) { // touch an earlier bound
		o := s.ops[s.c.Int(len(s.ops))]
		if len(o.r) > 0 {
			r := o.r[s.c.Int(len(o.r))]
			v := []uint64{r.a, r.b}[s.c.Int(2)] + s.c.U64(3) - 1
			return min(v, s.w.max)
		}
	}
	return s.z.id()
}

// rng makes the range a-b in one of the ways a caller can.
func (s *setSys) rng(a, b uint64) tree.Range {
	switch s.c.Weighted(5, 1, 2) {
	case 1:
		if r, err := s.w.parse(fmt.Sprintf("%d-%d", a, b)); err == nil {
			return r
		}
	case 2:
		s.c.Label("range of ids from answers")
		r := s.w.rng(a, b)
		if s.c.Bool() {
			r = r.SetFrom(s.answer(a))
		}
		if s.c.Bool() {
			r = r.SetTo(s.answer(b))
		}
		return r
	}
	return s.w.rng(a, b)
}

// answer is the id v as some call returns it.
func (s *setSys) answer(v uint64) tree.ID {
	w := s.w
	switch s.c.Int(7) {
	case 0:
		return w.rng(v, v).IDs()[0]
	case 1:
		return w.last(w.id(v, w.bits))
	case 2:
		return w.id(v, w.bits).Masked()
	case 3:
		if v > 0 {
			return w.id(v-1, w.bits).Next()
		}
	case 4:
		if v < w.max {
			return w.id(v+1, w.bits).Prev()
		}
	case 5:
		return w.rangeOf(w.id(v, w.bits)).To()
	case 6:
		return w.rng(v, v).IDs()[0].Copy()
	}
	return w.id(v, w.bits)
}

func (s *setSys) op(built []builtSet) {
	c := s.c
	add := c.Chance(2, 3)
	name := "Remove"
	if add {
		name = "Add"
	}
	switch c.Weighted(5, 3, 2, 1, 1) {
	case 0:
		a, b := s.bound(), s.bound()
		if c.Bool() {
			b = a + c.U64(6)
			if b < a || b > s.w.max {
				b = a
			}
		}
		a, b = min(a, b), max(a, b)
		c.Logf("%sRange(%d-%d)", name, a, b)
		if add {
			s.b.AddRange(s.rng(a, b))
		} else {
			s.b.RemoveRange(s.rng(a, b))
		}
		s.ops = append(s.ops, setOp{add, []span{{a, b}}})
	case 1:
		p := s.w.pfx(s.bound(), idLen(c, s.w))
		if c.Bool() {
			p = s.w.pfx(s.bound(), s.w.bits-uint8(c.Int(6)))
		}
		s.id(add, name, p)
	case 2:
		s.id(add, name, pfx{s.bound(), s.w.bits})
	case 3:
		if len(built) == 0 {
			c.Logf("AddSet(nil)")
			s.b.AddSet(nil)
			return
		}
		x := built[c.Int(len(built))]
		c.Logf("AddSet(%v)", x.want)
		s.b.AddSet(x.s)
		s.ops = append(s.ops, setOp{true, x.want})
		c.Label("set added")
	case 4:
		if c.Chance(1, 4) {
			x := s.w.id(s.bound(), s.w.bits+1+uint8(c.Int(255-int(s.w.bits))))
			c.Logf("%sId(%s) (invalid)", name, x)
			if add {
				s.b.AddId(x)
			} else {
				s.b.RemoveId(x)
			}
			s.invalid, s.ever = true, true
			c.Label("id longer than the width")
			return
		}
		a, b := s.bound(), s.bound()
		if a == b {
			return
		}
		a, b = max(a, b), min(a, b)
		c.Logf("%sRange(%d-%d) (invalid)", name, a, b)
		if add {
			s.b.AddRange(s.rng(a, b))
		} else {
			s.b.RemoveRange(s.rng(a, b))
		}
		s.invalid, s.ever = true, true
		c.Label("invalid range")
	}
}

func (s *setSys) id(add bool, name string, p pfx) {
	s.c.Logf("%sId(%s)", name, p)
	if add {
		s.b.AddId(s.w.tid(p))
	} else {
		s.b.RemoveId(s.w.tid(p))
	}
	s.ops = append(s.ops, setOp{add, []span{{s.w.lo(p), s.w.hi(p)}}})
}

type builtSet struct {
	s    setV
	want []span
}

func (s *setSys) build() builtSet {
	set, err := s.b.Build()
	want := contents(s.ops)
	s.c.Logf("IPSet() -> %s, %d ranges", errs(err), len(want))
	if s.invalid {
		s.c.Check(err != nil, "IPSet reports no error although an invalid range was given")
	} else if !s.ever {
		s.c.Check(err == nil, "IPSet: %v, but no invalid range was given", err)
	}
	s.invalid = false
	b := builtSet{set, want}
	checkSet(s.c, s.w, "built set", b)
	return b
}

func checkSet(c *pbt.C, w *width, what string, b builtSet) {
	rs := b.s.Ranges()
	ok := len(rs) == len(b.want)
	for i := 0; ok && i < len(rs); i++ {
		ok = idPfx(rs[i].From()) == pfx{b.want[i].a, w.bits} && idPfx(rs[i].To()) == pfx{b.want[i].b, w.bits}
	}
	c.Check(ok, "%s: ranges %s, want %s", what, listStr(rs, 12), listStr(b.want, 12))
	scribble(rs)
	var cov []pfx
	for _, r := range b.want {
		cov = append(cov, w.cover(r.a, r.b)...)
	}
	checkCover(c, w, what+": prefixes", b.s.IDs(), cov)
}

func setProp(c *pbt.C) {
	s := newSetSys(c)
	var built []builtSet
	adds := 0
	c.Repeat(9, 40, func(int) {
		if c.Chance(1, 5) {
			built = append(built, s.build())
		} else {
			n := len(s.ops)
			s.op(built)
			if len(s.ops) > n && !s.ops[n].add && adds > 0 {
				c.Label("removal")
			}
			if len(s.ops) > n && s.ops[n].add {
				adds++
			}
		}
	})
	last := s.build()
	for i, b := range built {
		checkSet(c, s.w, fmt.Sprintf("set number %d, looked at again", i), b)
	}
	if len(last.want) > 1 {
		c.Label("several ranges")
		c.Nontrivial()
	}
	again := s.build()
	checkSet(c, s.w, "last set after another build", last)
	checkSet(c, s.w, "set of the second build", again)
}

func takeProp(c *pbt.C) {
	s := newSetSys(c)
	c.Repeat(5, 20, func(int) { s.op(nil) })
	s.invalid, s.ever = false, true
	cur := s.build()
	ops := []setOp{{true, cur.want}}
	c.Repeat(6, 80, func(int) {
		l := idLen(c, s.w)
		if c.Chance(2, 3) {
			l = s.w.bits - uint8(c.Int(8))
		}
		best := -1
		for _, r := range cur.want {
			for _, p := range s.w.cover(r.a, r.b) {
				if p.l <= l && int(p.l) > best {
					best = int(p.l)
				}
			}
		}
		id, rest, ok := cur.s.Take(l)
		c.Logf("RemoveFreePrefix(%d) -> %v %v", l, id, ok)
		c.Check(ok == (best >= 0), "RemoveFreePrefix(%d) of %s: ok is %v", l, listStr(cur.want, 12), ok)
		if !ok {
			c.Check(sameSet(rest, cur.s), "RemoveFreePrefix(%d) failed but returned another set", l)
			c.Label("no block of that length")
			return
		}
		c.Check(id != nil, "RemoveFreePrefix(%d): nil id", l)
		p := idPfx(id)
		c.Check(p.l == l && s.w.mask(p.v, l) == p.v && p.v <= s.w.max, "RemoveFreePrefix(%d) returned %s, not an aligned block of that length", l, p)
		fit := false
		for _, r := range cur.want {
			for _, q := range s.w.cover(r.a, r.b) {
				fit = fit || int(q.l) == best && s.w.contains(q, p)
			}
		}
		c.Check(fit, "RemoveFreePrefix(%d) of %s returned %s, which is not inside a maximal prefix of length %d", l, listStr(cur.want, 12), p, best)
		if best < int(l) {
			c.Label("block cut from a larger prefix")
			c.Nontrivial()
		}
		checkSet(c, s.w, "set before RemoveFreePrefix", cur)
		ops = append(ops, setOp{false, []span{{s.w.lo(p), s.w.hi(p)}}})
		cur = builtSet{rest, contents(ops)}
		checkSet(c, s.w, "set after RemoveFreePrefix", cur)
	})
}

func init() {
	register(&pbt.Prop{ID: "C18", Quick: 8000000, Thorough: 320000000, Budget: 10_000_000,
		Rule: "random pairs of id/length (sharing random leading bits, edges 0/max, lengths 0..width and beyond for masks) against plain integer arithmetic; non-trivial = the two blocks nest at different lengths, or share some but not all leading bits",
		Run:  arithmetic})
	register(&pbt.Prop{ID: "C19", Quick: 2000000, Thorough: 80000000, Budget: 10_000_000,
		Rule: "random range texts (valid, edited, overflowing) against a digit-by-digit reader; random ranges against the greedy minimal cover and interval comparisons; non-trivial = the cover has at least 3 blocks",
		Run:  rangesProp})
	register(&pbt.Prop{ID: "C20", Quick: 900000, Thorough: 36000000, Budget: 100_000_000,
		Rule: "random call sequences on the set builder (ranges, prefixes, ids, earlier sets, invalid ranges, builds in between) against last-call-wins membership of every elementary interval; non-trivial = the final set has several ranges",
		Run:  setProp})
	register(&pbt.Prop{ID: "C21", Quick: 500000, Thorough: 20000000, Budget: 100_000_000,
		Rule: "free prefixes of random lengths taken one after another from random sets, checked against the minimal cover of the remaining contents; non-trivial = a block was cut out of a larger maximal prefix",
		Run:  takeProp})
}
