package props

import (
	"fmt"

	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
)

func (r cres) String() string {
	return fmt.Sprintf("%v %q %d", r.ok, r.s, r.id)
}

// ---- C25: the widths agree ----

// sameWidths runs one call on every variant and compares the answers.
func sameWidths(c *pbt.C, sys []csys, names []string, o *cop) cres {
	r := sys[0].do(o)
	c.Logf("%s -> %s", o, r)
	for i := 1; i < len(sys); i++ {
		x := sys[i].do(o)
		c.Check(x == r, "%s: %s answers %s, %s answers %s", o, names[0], r, names[i], x)
	}
	return r
}

func diffTables(c *pbt.C) {
	n := 1 + c.U64([]uint64{4, 12, 70, 300}[c.Int(4)])
	full := c.Chance(1, 20)
	k := crowd(c, 3000)
	if full {
		n = 1 << 16
	} else if k > 0 {
		n = uint64(k) + []uint64{0, 1, uint64(k) / 3, uint64(k)}[c.Int(4)]
	}
	start := uint64(0)
	switch c.Int(3) {
	case 1:
		start = 1<<16 - n
	case 2:
		start = c.U64(1<<16 - n + 1)
	}
	var sys []csys
	var names []string
	add := func(w *width, start uint64, shifted string) {
		x := &cwin{w: w, start: start, n: n}
		x.fresh()
		sys = append(sys, x)
		names = append(names, fmt.Sprintf("table%s.New(%d,%d)%s", w.name, start, start+n-1, shifted))
	}
	for _, w := range widths {
		add(w, start, "")
	}
	for i := 0; i < 2; i++ {
		w := widths[c.Int(3)]
		room := w.max - (n - 1)
		st := room
		if room > 0 && c.Bool() {
			st = c.U64(room)
			if c.Bool() {
				st = clampMod(uint64(1)<<c.Int(int(w.bits))-n/2, room)
			}
		}
		add(w, st, " (shifted)")
	}
	c.Logf("%s; calls and answers relative to the start", names)
	c.Label("windowed tables")
	gen := tabGen(c, sys[0], n)
	crowdIDs(c, k, n-1, func(i int, id uint64) {
		o := &cop{kind: "claim", a: id, txt: fmt.Sprint(id), l: wideLabels(i)}
		for j, x := range sys {
			c.Check(x.do(o).ok, "%s: %s refused", names[j], o)
		}
	})
	c.Repeat(14, 60, func(int) {
		o := gen()
		if c.Chance(1, 8) && o.txt != "" && o.sel == nil {
			o.a = []uint64{n, n + 1, n + 1<<16, n + 1<<32, ^uint64(0), 1 << 63}[c.Int(6)]
			o.txt = fmt.Sprint(o.a)
			c.Label("id outside the window")
		}
		if r := sameWidths(c, sys, names, o); r.ok && o.kind == "claimfree" {
			c.Nontrivial()
		}
	})
	for _, k := range []string{"all", "size", "findfree"} {
		sameWidths(c, sys, names, &cop{kind: k})
	}
	for i := uint64(0); n <= 300 && i <= n; i++ {
		if r := sameWidths(c, sys, names, &cop{kind: "claimfree", l: labels.Set{"e": fmt.Sprint(i)}}); !r.ok {
			c.Label("exhausted")
			break
		}
	}
	sameWidths(c, sys, names, &cop{kind: "all"})
}

func diffTrees(c *pbt.C) {
	l := uint8(1 + c.Int(6))
	if c.Chance(1, 3) {
		l = uint8(c.Int(17))
	}
	lim := 6
	k := crowd(c, 1000)
	if k > 0 {
		l = uint8(11 + c.Int(6))
		lim = 11
	}
	w0 := widths[0]
	var sys []csys
	var names []string
	for _, w := range widths {
		x := &ctree{w: w, gw: w0, l: l, raw: true}
		x.fresh()
		sys = append(sys, x)
		names = append(names, "tree"+w.name)
	}
	c.Logf("trees of bit length %d; prefixes in 16-bit form", l)
	c.Label("trees")
	gen := treeGen(c, w0, l, lim)
	claim := func(i int, p pfx) {
		o := &cop{kind: "claim", p: p, txt: p.String(), l: wideLabels(i)}
		for j, x := range sys {
			c.Check(x.do(o).ok, "%s: %s refused", names[j], o)
		}
	}
	if k > 0 && c.Bool() {
		crowdIDs(c, k, maxOf(l), func(i int, id uint64) { claim(i, pfx{id, w0.bits}) })
	} else if k > 0 {
		i := 0
		manyPrefixes(c, w0, maxOf(l), k, func(p pfx) { i++; claim(i, p) })
	}
	observe := func() {
		for _, k := range []string{"all", "size", "iter"} {
			sameWidths(c, sys, names, &cop{kind: k})
		}
	}
	c.Repeat(14, 60, func(int) {
		o := gen()
		if c.Chance(1, 8) {
			switch o.kind {
			case "claim", "update", "release", "get", "children", "parents":
				if l < 16 { // above the capacity
					o.p = pfx{maxOf(l) + 1 + c.U64(3), 16}
					o.p.v = min(o.p.v, w0.max)
					o.txt = o.p.String()
					c.Label("id above the capacity")
				}
			case "claimrange":
				a, b := c.U64(maxOf(l)+1), c.U64(maxOf(l)+3)
				o.txt = fmt.Sprintf("%d%s%d", a, []string{"-", "", "--", " - ", "-+"}[c.Int(5)], b)
				c.Label("odd range")
			}
		}
		if r := sameWidths(c, sys, names, o); r.ok && (o.kind == "claimfree" || o.kind == "claimrange") {
			c.Nontrivial()
		}
		if c.Due() && c.Chance(1, 3) {
			observe()
		}
	})
	observe()
	for i := 0; i < 70; i++ {
		if r := sameWidths(c, sys, names, &cop{kind: "claimfree", l: labels.Set{"e": fmt.Sprint(i)}}); !r.ok {
			c.Label("exhausted")
			break
		}
	}
	observe()
}

// ---- C26: history does not matter ----

// build runs a random history on a fresh system and returns the model reached.
func build(c *pbt.C, s csys, many []*cop, gen func() *cop, avg int) cmodel {
	s.fresh()
	m := s.model()
	for _, o := range many {
		r := s.do(o)
		c.Check(m.step(o, r), "%s answered %s", o, r)
	}
	c.Repeat(avg, 40, func(int) {
		o := gen()
		r := s.do(o)
		c.Logf("  %s -> %s", o, r)
		c.Check(m.step(o, r), "%s answered %s", o, r)
	})
	return m
}

// steer moves the system from contents m to contents goal, in random order.
func steer(c *pbt.C, s csys, m, goal cmodel) {
	var todo []*cop
	switch m := m.(type) {
	case *mtab:
		g := goal.(*mtab)
		for _, id := range m.ids() {
			if l, ok := g.m[id]; !ok {
				todo = append(todo, &cop{kind: "release", a: id, txt: fmt.Sprint(id)})
			} else if lstr(l) != lstr(m.m[id]) {
				todo = append(todo, &cop{kind: "update", a: id, txt: fmt.Sprint(id), l: l})
			}
		}
		for _, id := range g.ids() {
			if _, ok := m.m[id]; !ok {
				todo = append(todo, &cop{kind: "claim", a: id, txt: fmt.Sprint(id), l: g.m[id]})
			}
		}
	case *mtree:
		g := goal.(*mtree)
		for _, p := range sortedPfx(m.m) {
			if l, ok := g.m[p]; !ok {
				todo = append(todo, &cop{kind: "release", p: p, txt: p.String()})
			} else if lstr(l) != lstr(m.m[p]) {
				todo = append(todo, &cop{kind: "update", p: p, txt: p.String(), l: l})
			}
		}
		for _, p := range sortedPfx(g.m) {
			if _, ok := m.m[p]; !ok {
				todo = append(todo, &cop{kind: "claim", p: p, txt: p.String(), l: g.m[p]})
			}
		}
	}
	for i := range todo {
		j := i + c.Int(len(todo)-i)
		todo[i], todo[j] = todo[j], todo[i]
	}
	for _, o := range todo {
		r := s.do(o)
		c.Logf("  %s -> %s", o, r)
		c.Check(m.step(o, r), "%s answered %s", o, r)
		if o.kind == "release" {
			c.Label("detour released")
			c.Nontrivial()
		}
	}
}

func historyCase(c *pbt.C) {
	var mk func() csys
	var gen, cont func() *cop
	var last []string
	exhaust := 0
	crowded := crowd(c, 700)
	var many []*cop
	if c.Chance(1, 2) {
		n := 1 + c.U64([]uint64{4, 12, 40}[c.Int(3)])
		if crowded > 0 {
			n = uint64(crowded) + []uint64{0, 1, uint64(crowded) / 3, uint64(crowded)}[c.Int(4)]
			crowdIDs(c, crowded, n-1, func(i int, id uint64) {
				many = append(many, &cop{kind: "claim", a: id, txt: fmt.Sprint(id), l: wideLabels(i)})
			})
		}
		s, _ := genTab(c, n)
		gen = tabGen(c, s, n)
		mk = func() csys {
			switch x := s.(type) {
			case *cidx:
				o := *x
				return &o
			case *cwin:
				o := *x
				return &o
			}
			o := *s.(*cip)
			return &o
		}
		last = []string{"all", "size", "findfree"}
		if _, ok := s.(*cip); !ok {
			exhaust = int(n) + 1
		}
		if _, ok := s.(*cidx); ok {
			last = append(last, "iterfree")
		}
	} else {
		w := genWidth(c)
		l := uint8(1 + c.Int(6))
		if c.Chance(1, 4) {
			l = genTreeLen(c, w)
		}
		c.Logf("tree%s of bit length %d", w.name, l)
		c.Label("tree")
		lim := 6
		if crowded > 0 {
			l = uint8(11 + c.Int(int(w.bits)-10))
			lim = 11
			claim := func(p pfx) {
				many = append(many, &cop{kind: "claim", p: p, txt: p.String(), l: wideLabels(len(many))})
			}
			if c.Bool() {
				crowdIDs(c, crowded, maxOf(l), func(_ int, id uint64) { claim(pfx{id, w.bits}) })
			} else {
				manyPrefixes(c, w, maxOf(l), crowded, claim)
			}
		}
		gen = treeGen(c, w, l, lim)
		mk = func() csys { return &ctree{w: w, gw: w, l: l} }
		last = []string{"all", "size", "iter"}
		exhaust = 66
	}
	a, b := mk(), mk()
	c.Logf("history A:")
	goal := build(c, a, many, gen, 10)
	if c.Chance(1, 2) { // A by claims in key order only
		a = mk()
		a.fresh()
		m := a.model()
		c.Logf("history A is replaced by direct claims:")
		steer(c, a, m, goal)
	}
	c.Logf("history B:")
	if len(many) > 0 { // only some of them, or none
		many = many[c.Int(len(many)+1):]
	}
	m := build(c, b, many, gen, 12)
	steer(c, b, m, goal)
	c.Check(m.key() == goal.key(), "harness: contents %s, want %s", m.key(), goal.key())
	for _, x := range []csys{a, b} {
		if t, ok := x.(*ctree); ok {
			t.raw = true
		}
	}
	c.Logf("same contents: %s", goal.key())
	cont = gen
	both := func(o *cop) cres {
		ra, rb := a.do(o), b.do(o)
		c.Logf("  %s -> %s", o, ra)
		c.Check(ra == rb, "%s: after history A answers %s, after history B answers %s", o, ra, rb)
		return ra
	}
	observe := func() {
		for _, k := range last {
			both(&cop{kind: k})
		}
	}
	observe()
	if t, ok := goal.(*mtree); ok {
		for _, p := range sortedPfx(t.m) {
			if len(t.m) > 100 && !c.Chance(1, 20) {
				continue
			}
			both(&cop{kind: "children", p: p, txt: p.String()})
			both(&cop{kind: "parents", p: p, txt: p.String()})
		}
	}
	c.Repeat(8, 30, func(int) {
		both(cont())
		if c.Due() {
			observe()
		}
	})
	for i := 0; i < exhaust; i++ {
		if !both(&cop{kind: "claimfree", l: labels.Set{"e": fmt.Sprint(i)}}).ok {
			c.Label("exhausted")
			break
		}
	}
	observe()
}

func init() {
	register(&pbt.Prop{ID: "C25", Quick: 35000, Thorough: 1400000, Budget: 400_000_000,
		Rule: "the same calls on the three widths of a windowed table (plus two tables of random width with shifted windows) or of a tree of bit length 0-16, every answer and every listing in order compared, then free claims to exhaustion; non-trivial = a free or range claim succeeded on all variants",
		Run: func(c *pbt.C) {
			if c.Bool() {
				diffTables(c)
			} else {
				diffTrees(c)
			}
		}})
	register(&pbt.Prop{ID: "C26", Quick: 70000, Thorough: 2800000, Budget: 400_000_000,
		Rule: "two tables or trees brought to the same contents by different random histories (extra claims, updates, free, range and label calls, all undone; random order), then the same queries, listings in order, further calls and free claims to exhaustion on both, all answers compared; non-trivial = one history released claims that are not part of the contents",
		Run:  historyCase})
}
