package props

import (
	"fmt"
	"net/netip"
	"os"
	"strings"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
)

// wild draws any 64-bit number, with a taste for edges.
func wild(c *pbt.C, near ...uint64) uint64 {
	switch c.Int(5) {
	case 0:
		return c.U64(0)
	case 1:
		return c.U64(40)
	case 2:
		return ^uint64(0) - c.U64(40)
	case 3:
		return uint64(1)<<c.Int(64) + c.U64(5) - 2
	}
	if len(near) > 0 {
		v := near[c.Int(len(near))]
		switch c.Int(3) {
		case 0:
			return v + c.U64(5) - 2
		case 1:
			return -v + c.U64(5) - 2
		}
		return v + uint64(1)<<c.Int(64)
	}
	return c.U64(1 << 17)
}

// wildText draws a string: bytes, fragments, or an edited valid form.
func wildText(c *pbt.C, valid string) string {
	frags := []string{"0", "1", "65535", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "-", "-", "--", ".", ":", "::", "%", "%eth0",
		"/", "/32", " ", "\t", "\n", "\x00", "\xff", "é", "٣", "0x10", "1e3", "+1", "_", "nil", "ffff", "255.255.255.255", "1.2.3.4", strings.Repeat("9", 300), strings.Repeat(":", 40)}
	switch c.Int(4) {
	case 0:
		var b strings.Builder
		for i := c.Int(12); i > 0; i-- {
			b.WriteByte(byte(c.Int(256)))
		}
		return b.String()
	case 1:
		var b strings.Builder
		for i := c.Int(6); i > 0; i-- {
			b.WriteString(frags[c.Int(len(frags))])
		}
		return b.String()
	case 2:
		st := valid
		for i := 1 + c.Int(2); i > 0; i-- {
			k := c.Int(len(st) + 1)
			j := k
			if k < len(st) && c.Bool() {
				j = k + 1
			}
			st = st[:k] + []string{"", frags[c.Int(len(frags))]}[c.Int(2)] + st[j:]
		}
		return st
	}
	return valid
}

func hostileIdx(c *pbt.C) {
	n := 1 + c.U64(70)
	if c.Chance(1, 8) {
		n = 4000
	}
	huge := c.Chance(1, 4)
	if huge {
		n = ^uint64(0) - c.U64(3)
		if c.Bool() {
			n = 1<<(62+c.Int(2)) + c.U64(5)
		}
		c.Label("huge index table")
	}
	c.Logf("NewTable(%d)", n)
	t := idxtable.NewTable[int](n)
	lim := n
	if huge {
		lim = 100
	}
	held := map[uint64]bool{}
	for i := c.Int(10); i > 0; i-- {
		if id := c.U64(lim); t.Claim(id, i) == nil {
			held[id] = true
		}
	}
	// refusable tells whether a bulk request has to be refused soon: in a huge
	// table others take for ever as their answer is that long
	refusable := func(x, y uint64) bool {
		if x >= n || y > n-x || y == 0 {
			return true
		}
		for k := uint64(0); k < 300; k++ {
			if k == y || held[x+k] {
				return true
			}
		}
		return false
	}
	snap := func() string {
		var b strings.Builder
		for _, e := range t.GetAll() {
			fmt.Fprintf(&b, "%d=%d ", e.ID(), e.Data())
		}
		f, err := t.FindFree()
		fmt.Fprintf(&b, "size %d free %d %v", t.Size(), f, err != nil)
		return b.String()
	}
	c.Repeat(8, 40, func(int) {
		before := snap()
		x, y := wild(c, n), wild(c, n)
		x1 := x
		if huge {
			if c.Bool() {
				x1 = c.U64(100)
			}
			for k := 0; k < 3 && !refusable(x1, y); k++ {
				x1 = c.U64(100)
			}
			if !refusable(x1, y) {
				y %= 100
			}
		}
		y1 := y
		if huge && y1 <= n-uint64(t.Size()) && y1 > 300 {
			y1 %= 300
		}
		var err error
		read := false
		switch c.Int(9) {
		case 0:
			err = t.Claim(x, 7)
			c.Logf("Claim(%d) -> %s", x, errs(err))
			if err == nil {
				held[x] = true
				e, gerr := t.Get(x)
				c.Check(gerr == nil && e.ID() == x && e.Data() == 7 && t.Has(x) && !t.IsFree(x), "Claim(%d) succeeded but Get says %v, Has %v", x, gerr, t.Has(x))
			}
		case 1:
			err = t.Update(x, 8)
			c.Logf("Update(%d) -> %s", x, errs(err))
		case 2:
			err = t.Release(x)
			delete(held, x)
			c.Logf("Release(%d) -> %s", x, errs(err))
		case 3:
			err = t.ClaimRange(x1, y, 9)
			c.Logf("ClaimRange(%d,%d) -> %s", x1, y, errs(err))
			if err == nil && y > 0 {
				c.Check(t.Has(x1) && t.Has(x1+y-1), "ClaimRange(%d,%d) succeeded but Has says %v %v", x1, y, t.Has(x1), t.Has(x1+y-1))
				c.Check(y < 1<<32, "ClaimRange(%d,%d) succeeded", x1, y)
				for k := uint64(0); k < y; k++ {
					held[x1+k] = true
				}
			}
		case 4:
			var es idxtable.Entries[int]
			es, err = t.ClaimSize(y1, 10)
			for _, e := range es {
				held[e.ID()] = true
			}
			c.Logf("ClaimSize(%d) -> %s", y1, errs(err))
		case 5:
			_, err = t.FindFreeRange(x1, y)
			c.Logf("FindFreeRange(%d,%d) -> %s", x1, y, errs(err))
			read = true
		case 6:
			_, err = t.FindFreeSize(y1)
			c.Logf("FindFreeSize(%d) -> %s", y1, errs(err))
			read = true
		case 7:
			_, err = t.Get(x)
			c.Logf("Get(%d) -> %s", x, errs(err))
			read = true
		case 8:
			h := t.Has(x)
			t.IsFree(x)
			c.Logf("Has(%d) -> %v", x, h)
			c.Check(!h || x < n, "Has(%d) with capacity %d", x, n)
			read = true
		}
		if err != nil || read {
			after := snap()
			c.Check(before == after, "a refused call or query changed the table from %s to %s", before, after)
			if err != nil {
				c.Nontrivial()
			}
		}
	})
}

func tabSnap(t table.Table) string {
	var b strings.Builder
	for _, e := range t.GetAll() {
		fmt.Fprintf(&b, "%s%s ", e.ID(), lstr(e.Labels()))
	}
	f, err := t.FindFree()
	fmt.Fprintf(&b, "size %d free %d %v", t.Size(), f, err != nil)
	return b.String()
}

func hostileTab(c *pbt.C) {
	w := genWidth(c)
	a, b := genWindow(c, w, 0)
	s := newTblSys(c, w, a, b)
	for i := c.Int(8); i > 0; i-- {
		_ = s.t.Claim(s.inside(), labels.Set{"i": fmt.Sprint(i)})
	}
	c.Repeat(8, 40, func(int) {
		before := tabSnap(s.t)
		x := wild(c, s.start, s.end, s.end+1)
		var err error
		l := labels.Set{"x": "y"}
		read := false
		switch c.Int(5) {
		case 0:
			err = s.t.Claim(x, cloneLabels(l))
			c.Logf("Claim(%d) -> %s", x, errs(err))
			c.Check(err != nil || s.in(x), "Claim(%d) accepted outside %d-%d", x, s.start, s.end)
			if err == nil {
				e, gerr := s.t.Get(x)
				c.Check(gerr == nil && e.ID().ID() == x && s.t.Has(x) && !s.t.IsFree(x), "Claim(%d) succeeded but Get says %v", x, gerr)
			}
		case 1:
			err = s.t.Update(x, cloneLabels(l))
			c.Logf("Update(%d) -> %s", x, errs(err))
			c.Check(err != nil || s.in(x), "Update(%d) accepted outside %d-%d", x, s.start, s.end)
		case 2:
			err = s.t.Release(x)
			c.Logf("Release(%d) -> %s", x, errs(err))
			c.Check(err != nil || s.in(x) && !s.t.Has(x), "Release(%d) accepted outside %d-%d or without effect", x, s.start, s.end)
		case 3:
			_, err = s.t.Get(x)
			read = true
		case 4:
			h, f := s.t.Has(x), s.t.IsFree(x)
			c.Logf("Has(%d) -> %v, IsFree -> %v", x, h, f)
			c.Check(!(h && f) && (s.in(x) == (h || f)), "Has(%d)=%v IsFree=%v with window %d-%d", x, h, f, s.start, s.end)
			read = true
		}
		if err != nil || read {
			after := tabSnap(s.t)
			c.Check(before == after, "a refused call or query changed the table from %s to %s", before, after)
			if err != nil {
				c.Nontrivial()
			}
		}
	})
}

func hostileIP(c *pbt.C) {
	s := newIPSys(c, true)
	for i := c.Int(6); i > 0; i-- {
		_, r := s.val()
		_ = s.t.Claim(s.inside().String(), r)
	}
	snap := func() string {
		var b strings.Builder
		for _, r := range s.t.GetAll() {
			fmt.Fprintf(&b, "%s%s%v ", r.Prefix(), lstr(r.Labels()), r.GetData())
		}
		f, err := s.t.FindFree()
		fmt.Fprintf(&b, "size %d free %s %v", s.t.Size(), f, err != nil)
		return b.String()
	}
	c.Repeat(8, 40, func(int) {
		before := snap()
		st := wildText(c, s.inside().String())
		if c.Chance(1, 4) {
			st = s.outsideStr()
		}
		_, in := s.denote(st)
		_, r := s.val()
		var err error
		read := false
		switch c.Int(5) {
		case 0:
			err = s.t.Claim(st, r)
			c.Logf("Claim(%q) -> %s", st, errs(err))
			c.Check(err != nil || in, "Claim(%q) accepted", st)
			if err == nil {
				_, gerr := s.t.Get(st)
				c.Check(gerr == nil && s.t.Has(st) && !s.t.IsFree(st), "Claim(%q) succeeded but Get says %v", st, gerr)
			}
		case 1:
			err = s.t.Update(st, r)
			c.Logf("Update(%q) -> %s", st, errs(err))
			c.Check(err != nil || in, "Update(%q) accepted", st)
		case 2:
			err = s.t.Release(st)
			c.Logf("Release(%q) -> %s", st, errs(err))
			c.Check((err == nil) == in, "Release(%q): %v", st, err)
		case 3:
			_, err = s.t.Get(st)
			c.Logf("Get(%q) -> %s", st, errs(err))
			read = true
		case 4:
			h, f := s.t.Has(st), s.t.IsFree(st)
			c.Logf("Has(%q) -> %v, IsFree -> %v", st, h, f)
			c.Check(!(h && f) && in == (h || f), "Has(%q)=%v IsFree=%v, inside: %v", st, h, f, in)
			read = true
		}
		if err != nil || read {
			after := snap()
			c.Check(before == after, "a refused call or query changed the table from %s to %s", before, after)
			if err != nil {
				c.Nontrivial()
			}
		}
	})
}

func treeSnap(t gtree.GTree) string {
	var b strings.Builder
	for _, e := range t.GetAll() {
		fmt.Fprintf(&b, "%s%s ", e.ID(), lstr(e.Labels()))
	}
	fmt.Fprintf(&b, "size %d", t.Size())
	return b.String()
}

// quietly runs f with its output thrown away.
func quietly(f func()) {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		out := os.Stdout
		os.Stdout = null
		defer func() {
			os.Stdout = out
			null.Close()
		}()
	}
	f()
}

func hostileTree(c *pbt.C) {
	w := genWidth(c)
	if c.Chance(1, 10) {
		l := uint8(c.Int(256))
		t, err := w.newTree("t", l)
		c.Logf("tree%s.New(%d) -> %s", w.name, l, errs(err))
		c.Check((err == nil) == (l <= w.bits), "New(%d): %v", l, err)
		if err != nil {
			c.Check(t == nil, "New(%d) returned a tree and an error", l)
			c.Nontrivial()
			return
		}
	}
	s := newTreeSys(c, w, genTreeLen(c, w))
	c.Repeat(5, 20, func(int) { s.step(6, 1, 2, 1, 0) })
	c.Repeat(8, 40, func(int) {
		before := treeSnap(s.t)
		var err error
		read := false
		// a full id, an aligned prefix, or a length beyond the width
		v := wild(c, s.max, s.max+1) & w.max
		p := w.pfx(v, w.bits)
		id := w.tid(p)
		over := false
		switch c.Int(4) {
		case 0:
			p = w.pfx(v, idLen(c, w))
			id = w.tid(p)
		case 1:
			over = true
			id = w.id(v, w.bits+1+uint8(c.Int(255-int(w.bits))))
		}
		ok := !over && p.v <= s.max
		l := labels.Set{"h": fmt.Sprint(c.Int(1000))}
		switch c.Int(6) {
		case 0:
			err = s.t.ClaimID(id, cloneLabels(l))
			c.Logf("ClaimID(%s) -> %s", id, errs(err))
			c.Check((err == nil) == ok, "ClaimID(%s) with capacity %d: %v", id, s.max, err)
			if err == nil {
				e, gerr := s.t.Get(id)
				c.Check(gerr == nil && lstr(e.Labels()) == lstr(l), "ClaimID(%s) succeeded but Get says %v %v", id, e, gerr)
			}
		case 1:
			err = s.t.Update(id, cloneLabels(l))
			c.Logf("Update(%s) -> %s", id, errs(err))
			c.Check((err == nil) == ok, "Update(%s) with capacity %d: %v", id, s.max, err)
		case 2:
			err = s.t.ReleaseID(id)
			c.Logf("ReleaseID(%s) -> %s", id, errs(err))
			if err == nil {
				_, gerr := s.t.Get(id)
				c.Check(gerr != nil, "ReleaseID(%s) succeeded but Get still finds it", id)
			}
		case 3, 4:
			st := wildText(c, fmt.Sprintf("%d-%d", wild(c, s.max), wild(c, s.max, s.max+1)))
			a, b, good := w.parseOracle(st)
			good = good && a <= b && b <= s.max
			err = s.t.ClaimRange(st, cloneLabels(l))
			c.Logf("ClaimRange(%.60q) -> %s", st, errs(err))
			c.Check((err == nil) == good, "ClaimRange(%.60q) with capacity 0-%d: %v", st, s.max, err)
			if good {
				for _, q := range w.cover(a, b) {
					e, gerr := s.t.Get(w.tid(q))
					c.Check(gerr == nil && lstr(e.Labels()) == lstr(l), "ClaimRange(%q) succeeded but Get(%s) says %v %v", st, q, e, gerr)
				}
			}
		case 5:
			_, gerr := s.t.Get(id)
			ch, pa := s.t.Children(id), s.t.Parents(id)
			c.Logf("Get/Children/Parents(%s) -> %s %d %d", id, errs(gerr), len(ch), len(pa))
			c.Check(gerr != nil || !over, "Get(%s) found an entry", id)
			read = true
		}
		if err != nil || read {
			after := treeSnap(s.t)
			c.Check(before == after, "a refused call or query changed the tree from %s to %s", before, after)
			if err != nil {
				c.Nontrivial()
			}
		}
		if c.Chance(1, 60) {
			before := treeSnap(s.t)
			quietly(func() { s.t.PrintNodes(); s.t.PrintValues() })
			after := treeSnap(s.t)
			c.Check(before == after, "printing the tree changed it from %s to %s", before, after)
			c.Label("tree printed")
		}
		// the tree still works
		if _, err := s.t.ClaimFree(l); err == nil {
			c.Label("free claim still works")
		}
	})
}

func hostileText(c *pbt.C) {
	w := genWidth(c)
	c.Repeat(6, 20, func(int) {
		st := wildText(c, fmt.Sprintf("%d-%d", wild(c)&w.max, wild(c, w.max, w.max+1)))
		_, _, ok := w.parseOracle(st)
		r, err := w.parse(st)
		c.Logf("ParseRange(%.60q) -> %s", st, errs(err))
		c.Check((err == nil) == ok, "ParseRange(%.60q): %v", st, err)
		if err != nil {
			c.Nontrivial()
			return
		}
		var again tree.Range
		again, err = w.parse(r.String())
		c.Check(err == nil && idPfx(again.From()) == idPfx(r.From()) && idPfx(again.To()) == idPfx(r.To()), "%.60q parses to %s, which parses to %v %v", st, r, again, err)
	})
	// ranges given to the IP table constructor
	if c.Chance(1, 4) {
		st := wildText(c, "10.0.0.1")
		if a, err := netip.ParseAddr(st); err == nil && a.Zone() == "" {
			t := iptable.New(a, a)
			c.Check(t.Claim(st, nipam.Route{}) == nil && t.Has(a.String()) && t.Size() == 1, "single address table of %s refuses it", st)
			_, err := t.FindFree()
			c.Check(err != nil, "FindFree on a full single address table of %s", st)
		}
	}
}

func init() {
	register(&pbt.Prop{ID: "C24", Quick: 400000, Thorough: 16000000, Budget: 300_000_000,
		Rule: "arbitrary 64-bit numbers, lengths beyond the width and arbitrary strings (bytes, fragments, edited valid text) given to every call of every container and to the range parsers; a snapshot of all observables is compared around every refused call and query; non-trivial = at least one call was refused",
		Run: func(c *pbt.C) {
			switch c.Int(5) {
			case 0:
				c.Label("index table")
				hostileIdx(c)
			case 1:
				c.Label("windowed table")
				hostileTab(c)
			case 2:
				c.Label("IP table")
				hostileIP(c)
			case 3:
				c.Label("id tree")
				hostileTree(c)
			case 4:
				c.Label("range text")
				hostileText(c)
			}
		}})
}
