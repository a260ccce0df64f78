package props

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"
)

var registry []*pbt.Prop

func register(p *pbt.Prop) { registry = append(registry, p) }

// All returns every property, ordered by id.
func All() []*pbt.Prop {
	sort.Slice(registry, func(i, j int) bool { return registry[i].ID < registry[j].ID })
	return registry
}

// ---- width adapters ----

type setB interface {
	AddId(tree.ID)
	RemoveId(tree.ID)
	AddRange(tree.Range)
	RemoveRange(tree.Range)
	AddSet(setV)
	Build() (setV, error)
}

type setV interface {
	Ranges() []tree.Range
	IDs() []tree.ID
	Take(l uint8) (tree.ID, setV, bool)
}

type width struct {
	name     string
	bits     uint8
	max      uint64
	id       func(v uint64, l uint8) tree.ID
	isLeft   func(uint64) bool
	rng      func(a, b uint64) tree.Range
	parse    func(string) (tree.Range, error)
	rangeOf  func(tree.ID) tree.Range
	last     func(tree.ID) tree.ID
	newTree  func(string, uint8) (gtree.GTree, error)
	newTable func(a, b uint64) table.Table
	newSet   func() setB
}

type sb16 struct{ b id16.IDSetBuilder }
type sv16 struct{ s *id16.IDSet }

func (x *sb16) AddId(i tree.ID)          { x.b.AddId(i) }
func (x *sb16) RemoveId(i tree.ID)       { x.b.RemoveId(i) }
func (x *sb16) AddRange(r tree.Range)    { x.b.AddRange(r) }
func (x *sb16) RemoveRange(r tree.Range) { x.b.RemoveRange(r) }
func (x *sb16) AddSet(s setV) {
	if s == nil {
		x.b.AddSet(nil)
		return
	}
	x.b.AddSet(s.(sv16).s)
}
func (x *sb16) Build() (setV, error) { s, err := x.b.IPSet(); return sv16{s}, err }
func (x sv16) Ranges() []tree.Range  { return x.s.Ranges() }
func (x sv16) IDs() []tree.ID        { return x.s.IDs() }
func (x sv16) Take(l uint8) (tree.ID, setV, bool) {
	i, s, ok := x.s.RemoveFreePrefix(l)
	return i, sv16{s}, ok
}

type sb32 struct{ b id32.IDSetBuilder }
type sv32 struct{ s *id32.IDSet }

func (x *sb32) AddId(i tree.ID)          { x.b.AddId(i) }
func (x *sb32) RemoveId(i tree.ID)       { x.b.RemoveId(i) }
func (x *sb32) AddRange(r tree.Range)    { x.b.AddRange(r) }
func (x *sb32) RemoveRange(r tree.Range) { x.b.RemoveRange(r) }
func (x *sb32) AddSet(s setV) {
	if s == nil {
		x.b.AddSet(nil)
		return
	}
	x.b.AddSet(s.(sv32).s)
}
func (x *sb32) Build() (setV, error) { s, err := x.b.IPSet(); return sv32{s}, err }
func (x sv32) Ranges() []tree.Range  { return x.s.Ranges() }
func (x sv32) IDs() []tree.ID        { return x.s.IDs() }
func (x sv32) Take(l uint8) (tree.ID, setV, bool) {
	i, s, ok := x.s.RemoveFreePrefix(l)
	return i, sv32{s}, ok
}

type sb64 struct{ b id64.IDSetBuilder }
type sv64 struct{ s *id64.IDSet }

func (x *sb64) AddId(i tree.ID)          { x.b.AddId(i) }
func (x *sb64) RemoveId(i tree.ID)       { x.b.RemoveId(i) }
func (x *sb64) AddRange(r tree.Range)    { x.b.AddRange(r) }
func (x *sb64) RemoveRange(r tree.Range) { x.b.RemoveRange(r) }
func (x *sb64) AddSet(s setV) {
	if s == nil {
		x.b.AddSet(nil)
		return
	}
	x.b.AddSet(s.(sv64).s)
}
func (x *sb64) Build() (setV, error) { s, err := x.b.IPSet(); return sv64{s}, err }
func (x sv64) Ranges() []tree.Range  { return x.s.Ranges() }
func (x sv64) IDs() []tree.ID        { return x.s.IDs() }
func (x sv64) Take(l uint8) (tree.ID, setV, bool) {
	i, s, ok := x.s.RemoveFreePrefix(l)
	return i, sv64{s}, ok
}

func sameSet(a, b setV) bool {
	switch x := a.(type) {
	case sv16:
		return x.s == b.(sv16).s
	case sv32:
		return x.s == b.(sv32).s
	case sv64:
		return x.s == b.(sv64).s
	}
	return false
}

var widths = []*width{
	{name: "16", bits: 16, max: 1<<16 - 1,
		id:       func(v uint64, l uint8) tree.ID { return id16.NewID(uint16(v), l) },
		isLeft:   id16.IsLeftBitSet,
		rng:      func(a, b uint64) tree.Range { return id16.RangeFrom(uint16(a), uint16(b)) },
		parse:    id16.ParseRange,
		rangeOf:  id16.RangeOfID,
		last:     id16.LastID,
		newTree:  tree16.New,
		newTable: func(a, b uint64) table.Table { return table16.New(uint16(a), uint16(b)) },
		newSet:   func() setB { return &sb16{} }},
	{name: "32", bits: 32, max: 1<<32 - 1,
		id:       func(v uint64, l uint8) tree.ID { return id32.NewID(uint32(v), l) },
		isLeft:   id32.IsLeftBitSet,
		rng:      func(a, b uint64) tree.Range { return id32.RangeFrom(uint32(a), uint32(b)) },
		parse:    id32.ParseRange,
		rangeOf:  id32.RangeOfID,
		last:     id32.LastID,
		newTree:  tree32.New,
		newTable: func(a, b uint64) table.Table { return table32.New(uint32(a), uint32(b)) },
		newSet:   func() setB { return &sb32{} }},
	{name: "64", bits: 64, max: 1<<64 - 1,
		id:       func(v uint64, l uint8) tree.ID { return id64.NewID(v, l) },
		isLeft:   id64.IsLeftBitSet,
		rng:      func(a, b uint64) tree.Range { return id64.RangeFrom(a, b) },
		parse:    id64.ParseRange,
		rangeOf:  id64.RangeOfID,
		last:     id64.LastID,
		newTree:  tree64.New,
		newTable: func(a, b uint64) table.Table { return table64.New(a, b) },
		newSet:   func() setB { return &sb64{} }},
}

func genWidth(c *pbt.C) *width {
	w := widths[c.Int(3)]
	c.Label("width" + w.name)
	return w
}

// ---- prefixes ----

// pfx is an aligned block: the 2^(bits-l) ids that share the first l bits of v.
type pfx struct {
	v uint64
	l uint8
}

func (w *width) host(l uint8) uint64 {
	h := w.bits - l
	if h >= 64 {
		return ^uint64(0)
	}
	return 1<<h - 1
}
func (w *width) mask(v uint64, l uint8) uint64 { return v &^ w.host(l) & w.max }
func (w *width) pfx(v uint64, l uint8) pfx     { return pfx{w.mask(v, l), l} }
func (w *width) lo(p pfx) uint64               { return p.v }
func (w *width) hi(p pfx) uint64               { return p.v | w.host(p.l) }
func (w *width) contains(a, b pfx) bool {
	return a.l <= b.l && w.lo(a) <= w.lo(b) && w.hi(b) <= w.hi(a)
}
func (w *width) tid(p pfx) tree.ID { return w.id(p.v, p.l) }
func (p pfx) String() string       { return txt(p.v) + "/" + txt(p.l) }

func pfxLess(a, b pfx) bool {
	if a.v != b.v {
		return a.v < b.v
	}
	return a.l < b.l
}

func idPfx(id tree.ID) pfx { return pfx{id.ID(), id.Length()} }

// cover is the unique minimal ascending list of aligned blocks covering [a,b].
func (w *width) cover(a, b uint64) []pfx {
	var out []pfx
	for {
		l := w.bits
		for l > 0 {
			n := l - 1
			if a&w.host(n) != 0 || a|w.host(n) > b {
				break
			}
			l = n
		}
		out = append(out, pfx{a, l})
		end := a | w.host(l)
		if end >= b {
			return out
		}
		a = end + 1
	}
}

// ---- value generators ----

// zone draws ids that collide, nest and touch boundaries.
type zone struct {
	c    *pbt.C
	max  uint64
	kind int
	base uint64
	k    uint64
}

func newZone(c *pbt.C, max uint64) *zone {
	z := &zone{c: c, max: max}
	z.kind = c.Weighted(4, 2, 2, 3, 2, 1, 2)
	z.k = []uint64{4, 8, 16, 64}[c.Int(4)]
	if c.Scale > 1 && c.Bool() {
		z.k *= 16
	}
	z.base = zoneBase(c, z.kind, max)
	return z
}

func zoneBase(c *pbt.C, kind int, max uint64) uint64 {
	switch kind {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return max/2 + 1
	case 3: // around a power of two
		return uint64(1) << c.Int(bits.Len64(max)+1-b2i(max == ^uint64(0)))
	case 4:
		return c.U64(0)
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func clampMod(v, max uint64) uint64 {
	if max == ^uint64(0) {
		return v
	}
	return v % (max + 1)
}

func (z *zone) id() uint64 {
	v := z.raw()
	if z.c.Chance(1, 12) { // block boundaries: low bits all zero or all one
		h := uint64(1)<<z.c.Int(max(bits.Len64(z.max), 1)) - 1
		if z.c.Bool() {
			v &^= h
		} else if v|h <= z.max {
			v |= h
		}
	}
	return v
}

func (z *zone) raw() uint64 {
	kind, base := z.kind, z.base
	if kind == 6 {
		kind = z.c.Int(6)
		base = zoneBase(z.c, kind, z.max)
	}
	switch kind {
	case 5:
		return clampMod(z.c.U64(0), z.max)
	case 0:
		return clampMod(z.c.U64(z.k), z.max)
	case 1:
		return clampMod(z.max-z.c.U64(z.k), z.max)
	}
	return clampMod(base-z.k/2+z.c.U64(z.k), z.max)
}

// genPfx draws an aligned block whose base is at most max.
func genPfx(c *pbt.C, w *width, z *zone, stored []pfx) pfx {
	if len(stored) > 0 && c.Chance(2, 5) {
		p := stored[c.Int(len(stored))]
		switch c.Int(4) {
		case 0:
			return p
		case 1: // an ancestor
			if p.l > 0 {
				return w.pfx(p.v, p.l-1-uint8(c.Int(min(int(p.l), 4))))
			}
		case 2: // a descendant
			if p.l < w.bits {
				d := 1 + uint8(c.Int(min(int(w.bits-p.l), 4)))
				l := p.l + d
				q := w.pfx(p.v|(c.U64(1<<d)<<(w.bits-l)), l)
				if q.v <= z.max {
					return q
				}
			}
		case 3: // the sibling
			if p.l > 0 {
				q := pfx{p.v ^ (1 << (w.bits - p.l)), p.l}
				if q.v <= z.max {
					return q
				}
			}
		}
		return p
	}
	v := z.id()
	switch c.Weighted(4, 3, 2) {
	case 0:
		return pfx{v, w.bits}
	case 1:
		return w.pfx(v, w.bits-uint8(c.Int(7)))
	default:
		return w.pfx(v, uint8(c.Int(int(w.bits)+1)))
	}
}

// genChain draws nested prefixes: those of one id with a run of lengths, the
// shortest not below least, at times with their siblings, in any order.
func genChain(c *pbt.C, w *width, z *zone, least uint8) []pfx {
	v := z.id()
	l0 := least + uint8(c.Int(min(4, int(w.bits-least)+1)))
	l1 := w.bits - uint8(c.Int(min(4, int(w.bits-l0)+1)))
	sib := c.Int(3)
	var ps []pfx
	for l := l0; l <= l1; l++ {
		p := w.pfx(v, l)
		ps = append(ps, p)
		if l > 0 && (sib == 1 || sib == 2 && c.Bool()) {
			if q := (pfx{p.v ^ (1 << (w.bits - l)), l}); q.v <= z.max {
				ps = append(ps, q)
			}
		}
	}
	switch c.Int(3) {
	case 1:
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	case 2:
		for i := len(ps) - 1; i > 0; i-- {
			j := c.Int(i + 1)
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	if len(ps) > 50 {
		c.Label("more than 50 nested prefixes")
	}
	return ps
}

// ---- labels ----

var lkeys = []string{"a", "b", "owner"}
var lvals = []string{"x", "y", ""}

// genLabels draws a label set; n makes it unique unless a shared one is drawn.
func genLabels(c *pbt.C, n int) labels.Set {
	var s labels.Set
	switch c.Weighted(5, 1, 1, 3) {
	case 0:
		s = labels.Set{"n": fmt.Sprint(n)}
	case 1:
		return nil
	case 2:
		return labels.Set{}
	case 3:
		s = labels.Set{}
	}
	for _, k := range lkeys {
		if c.Chance(1, 2) {
			s[k] = lvals[c.Int(len(lvals))]
		}
	}
	return s
}

func cloneLabels(s labels.Set) labels.Set {
	if s == nil {
		return nil
	}
	o := labels.Set{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

// lstr is an unambiguous rendering; nil and empty sets are the same labels.
func lstr(s labels.Set) string {
	ks := make([]string, 0, len(s))
	for k, v := range s {
		ks = append(ks, strconv.Quote(k)+"="+strconv.Quote(v))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

func genSelector(c *pbt.C) (labels.Selector, string) {
	switch c.Weighted(6, 1, 1, 2) {
	case 1:
		return labels.Everything(), "everything"
	case 2:
		return labels.Nothing(), "nothing"
	case 3:
		s := labels.Set{}
		for _, k := range lkeys {
			if c.Chance(1, 3) {
				s[k] = lvals[c.Int(len(lvals))]
			}
		}
		return labels.SelectorFromSet(s), "set" + lstr(s)
	}
	sel := labels.NewSelector()
	for i := 0; i < 1+c.Int(2); i++ {
		k := lkeys[c.Int(len(lkeys))]
		op := []selection.Operator{selection.Equals, selection.In, selection.NotIn, selection.Exists, selection.DoesNotExist, selection.NotEquals}[c.Int(6)]
		var vs []string
		switch op {
		case selection.Equals, selection.NotEquals:
			vs = []string{lvals[c.Int(2)]}
		case selection.In, selection.NotIn:
			vs = []string{lvals[c.Int(3)]}
			if c.Bool() {
				vs = append(vs, lvals[c.Int(3)])
			}
		}
		r, err := labels.NewRequirement(k, op, vs)
		if err != nil {
			panic(err)
		}
		sel = sel.Add(*r)
	}
	return sel, sel.String()
}

func errs(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused"
}

// try runs f and turns a panic into a failure that names the operation.
func listStr[T any](l []T, max int) string {
	if len(l) > max {
		return fmt.Sprintf("%v... (%d)", l[:max], len(l))
	}
	return fmt.Sprint(l)
}

// scribble reorders a list a query has returned: the list is the caller's, and
// what is done with it must not reach the container.
func scribble[T any](l []T) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	clear(l[:len(l)/2])
}

// Tasks under the scheduler write their answers with these: package fmt shares
// printers in a pool, and each use of it would order the tasks for the race
// detector.

func txt[T uint64 | uint8 | int](n T) string { return strconv.FormatUint(uint64(n), 10) }

func txts(l []uint64) string {
	b := []byte{'['}
	for i, n := range l {
		if i > 0 {
			b = append(b, ' ')
		}
		b = strconv.AppendUint(b, n, 10)
	}
	return string(append(b, ']'))
}
