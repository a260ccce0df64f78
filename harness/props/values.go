package props

import (
	"fmt"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
)

// valuesProp checks what ids, entries and ranges say of themselves.
func valuesProp(c *pbt.C) {
	w := genWidth(c)
	p := pfx{idVal(c, w), idLen(c, w)}
	q := p
	switch c.Int(4) {
	case 0:
		q = pfx{near(c, w, p.v), p.l}
	case 1:
		q = pfx{p.v, idLen(c, w)}
	case 2:
		q = pfx{idVal(c, w), idLen(c, w)}
	}
	l := genLabels(c, c.Int(3))
	m := cloneLabels(l)
	switch c.Int(5) {
	case 0:
		m = genLabels(c, c.Int(3))
	case 1: // one key or value less, more or other
		if m == nil {
			m = labels.Set{}
		}
		k := lkeys[c.Int(len(lkeys))]
		if _, ok := m[k]; ok && c.Bool() {
			delete(m, k)
		} else {
			m[k] = lvals[c.Int(len(lvals))]
		}
	}
	a, b := tree.NewEntry(w.id(p.v, p.l), cloneLabels(l)), tree.NewEntry(w.id(q.v, q.l), cloneLabels(m))
	c.Logf("%s bits: a=%s%s b=%s%s", w.name, p, lstr(l), q, lstr(m))
	same := p == q && lstr(l) == lstr(m)
	c.Check(a.Equal(b) == same && b.Equal(a) == same, "Equal: got %v and %v, want %v", a.Equal(b), b.Equal(a), same)
	c.Check(a.Equal(a) && b.Equal(b), "an entry does not equal itself")
	is := func(what string, e tree.Entry, p pfx, l labels.Set) {
		c.Check(idPfx(e.ID()) == p && lstr(e.Labels()) == lstr(l), "%s: got %s%s, want %s%s", what, idPfx(e.ID()), lstr(e.Labels()), p, lstr(l))
	}
	is("a", a, p, l)
	is("b", b, q, m)
	c.Check(a.ID().String() == fmt.Sprintf("%d/%d", p.v, p.l), "id prints as %q", a.ID().String())
	cp := a.ID().Copy()
	c.Check(idPfx(cp) == p && cp.Compare(a.ID()) == 0 && tree.NewEntry(cp, cloneLabels(l)).Equal(a), "a copy of the id reads %s", idPfx(cp))
	if same {
		c.Label("equal entries")
	} else if p == q {
		c.Label("labels differ")
	} else if p.v == q.v || p.l == q.l {
		c.Label("ids differ in one part")
	}
	if (p == q) != (lstr(l) == lstr(m)) || (p.v == q.v) != (p.l == q.l) {
		c.Nontrivial()
	}

	ie := idxtable.NewEntry(p.v, c.Int(5))
	d := ie.Data()
	c.Check(ie.ID() == p.v && ie.Data() == d, "index entry reads %d %d", ie.ID(), ie.Data())

	// ranges
	r := w.rng(p.v, q.v)
	c.Check(!r.IsZero(), "range %s is the zero range", r)
	c.Check(idPfx(r.From()) == pfx{p.v, w.bits} && idPfx(r.To()) == pfx{q.v, w.bits}, "range %d-%d reads %s", p.v, q.v, r)
	// the ends can be set to ids of any length
	valid := p.l == q.l && p.v <= q.v
	for k, x := range []tree.Range{r.SetFrom(w.id(p.v, p.l)).SetTo(w.id(q.v, q.l)), r.SetTo(w.id(q.v, q.l)).SetFrom(w.id(p.v, p.l))} {
		c.Check(idPfx(x.From()) == p && idPfx(x.To()) == q && x.IsValid() == valid && !x.IsZero(), "range from %s to %s (%d): reads from %s to %s, valid %v", p, q, k, idPfx(x.From()), idPfx(x.To()), x.IsValid())
	}
	c.Check(idPfx(r.From()) == pfx{p.v, w.bits} && idPfx(r.To()) == pfx{q.v, w.bits} && r.IsValid() == (p.v <= q.v), "range %d-%d changed with the ranges made from it: %s", p.v, q.v, r)

	if w.bits == 16 { // add and subtract with carry
		x, y, k := uint16(p.v), uint16(q.v), uint16(c.Int(2))
		s, co := id16.Add16(x, y, k)
		t := uint32(x) + uint32(y) + uint32(k)
		c.Check(s == uint16(t) && uint32(co) == t>>16, "Add16(%d,%d,%d): got %d %d", x, y, k, s, co)
		df, bo := id16.Sub16(x, y, k)
		u := int32(x) - int32(y) - int32(k)
		want := uint16(0)
		if u < 0 {
			want = 1
		}
		c.Check(df == uint16(u) && bo == want, "Sub16(%d,%d,%d): got %d %d", x, y, k, df, bo)
	}
	// parts of two prefixes joined: only the leading bits count
	s := uint8(c.Int(int(w.bits) + 1))
	o := uint8(c.Int(int(w.bits-s) + 1))
	v, n := w.merge(p.v, s, q.v, o)
	want := w.mask(p.v, s)
	if o > 0 {
		want |= w.mask(q.v, o) >> s
	}
	c.Check(v == want && n == s+o, "joining the first %d bits of %d and %d bits of %d: got %d/%d, want %d/%d", s, p.v, o, q.v, v, n, want, s+o)
}

func init() {
	register(&pbt.Prop{ID: "C28", Quick: 2000000, Thorough: 80000000, Budget: 10_000_000,
		Rule: "random pairs of entries that often differ in one part only (base, length, one label key or value), compared by their parts; non-trivial = they agree in one part and differ in another",
		Run:  valuesProp})
}
