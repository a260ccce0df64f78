package props

import (
	"fmt"
	"net/netip"
	"sort"
	"strconv"
	"strings"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/zverif/pbt"
	"github.com/henderiw/idxtable/zverif/vsched"
	"k8s.io/apimachinery/pkg/labels"
)

// cop is one call of a concurrent program, cres what it answered.
type cop struct {
	kind string
	a, b uint64
	p, q pfx
	txt  string
	l    labels.Set
	sel  labels.Selector
}

type cres struct {
	ok bool
	s  string
	id uint64
}

func (o *cop) String() string {
	switch o.kind {
	case "claim", "update":
		return fmt.Sprintf("%s(%s,%s)", o.kind, o.txt, lstr(o.l))
	case "claimfree":
		return fmt.Sprintf("%s(%s)", o.kind, lstr(o.l))
	case "claimrange", "claimsize":
		return fmt.Sprintf("%s(%s,%s)", o.kind, o.txt, lstr(o.l))
	}
	return fmt.Sprintf("%s(%s)", o.kind, o.txt)
}

// csys makes fresh real systems; do runs one call on the current one.
type csys interface {
	fresh()
	do(o *cop) cres
	model() cmodel
}

// cmodel is the sequential specification: step says whether the state allows
// the call to answer r and moves to the state after it.
type cmodel interface {
	clone() cmodel
	key() string
	step(o *cop, r cres) bool
}

type cevent struct {
	task     int
	o        *cop
	r        cres
	inv, ret uint64
}

func (e *cevent) String() string {
	st := "refused"
	if e.r.ok {
		st = "ok"
	}
	if e.r.s != "" {
		st += " " + e.r.s
	}
	return fmt.Sprintf("  task %d  [%d,%d]  %s -> %s", e.task, e.inv, e.ret, e.o, st)
}

// linearizable searches an order of the events that respects real time and the model.
func linearizable(m cmodel, ev []*cevent) bool {
	dead := map[string]bool{}
	var rec func(m cmodel, done uint64) bool
	rec = func(m cmodel, done uint64) bool {
		if done == 1<<len(ev)-1 {
			return true
		}
		k := fmt.Sprintf("%x|%s", done, m.key())
		if dead[k] {
			return false
		}
		first := ^uint64(0) // earliest return among the pending events
		for i, e := range ev {
			if done&(1<<i) == 0 && e.ret < first {
				first = e.ret
			}
		}
		for i, e := range ev {
			if done&(1<<i) != 0 || e.inv > first {
				continue
			}
			n := m.clone()
			if n.step(e.o, e.r) && rec(n, done|1<<i) {
				return true
			}
		}
		dead[k] = true
		return false
	}
	return rec(m, 0)
}

// runProgram executes one schedule on a fresh system and judges the history.
func runProgram(c *pbt.C, s csys, setup []*cop, prog [][]*cop, first int, pts []vsched.Switch) vsched.Outcome {
	vsched.SetCount(50_000_000)
	s.fresh()
	m := s.model()
	for _, o := range setup {
		r := s.do(o)
		c.Check(m.step(o, r), "setup call %s answered %v %s", o, r.ok, r.s)
	}
	hist := make([][]cevent, len(prog))
	fns := make([]func(), len(prog))
	for i := range prog {
		i := i
		hist[i] = make([]cevent, len(prog[i]))
		fns[i] = func() {
			for k, o := range prog[i] {
				e := &hist[i][k]
				e.task, e.o = i, o
				e.inv = vsched.Tick()
				e.r = s.do(o)
				e.ret = vsched.Tick()
			}
		}
	}
	out := vsched.Run(fns, first, pts, 3_000_000)
	vsched.SetCount(50_000_000)
	var ev []*cevent
	t := uint64(0)
	for i := range hist {
		for k := range hist[i] {
			if e := &hist[i][k]; e.o != nil {
				ev = append(ev, e)
				t = max(t, e.ret)
			}
		}
	}
	show := func() {
		c.Logf("schedule: task %d first, switches at %v", first, pts)
		for _, e := range ev {
			if e.ret == 0 {
				c.Logf("  task %d  [%d,-]  %s -> did not return", e.task, e.inv, e.o)
			} else {
				c.Logf("%s", e)
			}
		}
	}
	if len(out.Panics) > 0 {
		show()
		c.Failf("panic in a concurrent call: %s", strings.Join(out.Panics, "\n"))
	}
	if out.Deadlock {
		show()
		c.Failf("deadlock: every unfinished call waits for a lock")
	}
	if out.Overrun {
		show()
		c.Failf("no termination: more than 3000000 statements executed")
	}
	overlap := false
	for _, a := range ev {
		for _, b := range ev {
			if a.task != b.task && a.inv < b.ret && b.inv < a.ret {
				overlap = true
			}
		}
	}
	if overlap && out.Switches > 0 {
		c.Nontrivial()
		c.Label("preempted inside a call")
	}
	if out.Contended > 0 {
		c.Label("a call waited for a lock")
	}
	for _, k := range []string{"size", "all", "findfree", "claimfree", "all"} {
		o := &cop{kind: k}
		if k == "findfree" {
			if _, ok := s.(*ctree); ok {
				continue
			}
		}
		if k == "claimfree" {
			if _, ok := s.(*cip); ok {
				continue
			}
			o.l = labels.Set{"final": ""}
		}
		t++
		e := &cevent{task: -1, o: o, inv: t}
		e.r = s.do(o)
		t++
		e.ret = t
		ev = append(ev, e)
	}
	if !linearizable(m, ev) {
		show()
		for _, e := range ev {
			if e.task < 0 {
				c.Logf("%s", e)
			}
		}
		c.Failf("no sequential order of the calls that respects real time gives these answers and this final state")
	}
	return out
}

var concWrites = map[string]bool{"claim": true, "update": true, "release": true, "claimfree": true, "claimrange": true, "claimsize": true, "releasebylabel": true}

// concLong are the calls whose work grows with the contents.
var concLong = []string{"all", "all", "bylabel", "bylabel", "iterfree", "claimsize", "claimrange", "findsize", "findrange", "releasebylabel", "clone", "children", "parents", "size", "claimfree"}

// concCase runs programs under schedules. fill fills the system for the
// programs in which one task changes something and then looks, all while
// another task is inside a call.
func concCase(c *pbt.C, s csys, wide bool, gen func() *cop, fill func() []*cop) {
	var setup []*cop
	watched := c.Chance(2, 5)
	n := 2
	var prog [][]*cop
	if wide && c.Chance(3, 4) { // a long call, and changes during it
		c.Label("changes during a long call")
		watched = true
		setup = fill()
		draw := func(kinds map[string]bool) *cop {
			o := gen()
			for i := 0; i < 200 && !kinds[o.kind]; i++ {
				o = gen()
			}
			return o
		}
		prog = [][]*cop{{draw(map[string]bool{concLong[c.Int(len(concLong))]: true})}, {draw(concWrites)}}
		for k := c.Weighted(1, 3, 3, 2); k > 0; k-- {
			prog[1] = append(prog[1], draw(concWrites))
		}
	} else if watched {
		c.Label("change and look during another call")
		setup = fill()
		draw := func(write bool) *cop {
			o := gen()
			for i := 0; i < 20 && concWrites[o.kind] != write; i++ {
				o = gen()
			}
			return o
		}
		prog = [][]*cop{{draw(c.Chance(3, 4))}, {draw(true), draw(false)}}
		c.RepeatFixed(0, 2, func(int) { prog[0] = append(prog[0], gen()) })
	} else {
		if wide {
			setup = fill()
		}
		c.RepeatFixed(3, 8, func(int) { setup = append(setup, gen()) })
		if c.Chance(1, 3) {
			n = 3
		}
		prog = make([][]*cop, n)
		for i := range prog {
			prog[i] = append(prog[i], gen())
			c.RepeatFixed(1, 2, func(int) { prog[i] = append(prog[i], gen()) })
		}
	}
	c.Logf("setup: %s", setup)
	for i := range prog {
		c.Logf("task %d: %s", i, prog[i])
	}
	base := runProgram(c, s, setup, prog, 0, nil)
	locks := vsched.LockSteps()
	k := 1 + c.Int(6)
	if watched {
		k += 4
	}
	if watched && wide {
		k += 10
	}
	for ; k > 0; k-- {
		var pts []vsched.Switch
		np := 1
		if !watched || c.Chance(2, 5) {
			np += c.Weighted(5, 3, 2, 1)
		}
		for j := 0; j < np; j++ {
			var at uint64
			if len(locks) > 0 && c.Bool() {
				at = locks[c.Int(len(locks))] + c.U64(3)
			} else {
				at = 1 + c.U64(base.Steps)
			}
			pts = append(pts, vsched.Switch{Step: at, To: c.Int(2)})
		}
		sort.Slice(pts, func(i, j int) bool { return pts[i].Step < pts[j].Step })
		first := 0
		if !watched || c.Chance(2, 5) {
			first = c.Int(n)
		}
		runProgram(c, s, setup, prog, first, pts)
		c.Label(fmt.Sprintf("schedule with %d switch points", np))
	}
}

// ---- tables ----

// mtab is the specification of all tables: ids 0..n-1 hold label sets.
type mtab struct {
	n     uint64
	m     map[uint64]labels.Set
	route bool // listings carry no ids
}

func (t *mtab) clone() cmodel {
	o := &mtab{n: t.n, m: make(map[uint64]labels.Set, len(t.m)), route: t.route}
	for k, v := range t.m {
		o.m[k] = v
	}
	return o
}

func (t *mtab) key() string { return t.list(nil) }

func (t *mtab) ids() []uint64 {
	ks := make([]uint64, 0, len(t.m))
	for k := range t.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func item(route bool, id uint64, l labels.Set) string {
	if route {
		return lstr(l)
	}
	return txt(id) + lstr(l)
}

func (t *mtab) list(sel labels.Selector) string {
	var l []string
	for _, k := range t.ids() {
		if sel == nil || sel.Matches(t.m[k]) {
			l = append(l, item(t.route, k, t.m[k]))
		}
	}
	return strings.Join(l, " ")
}

func (t *mtab) freeFrom(a, k uint64) ([]uint64, bool) {
	if k == 0 || a >= t.n || k > t.n-a {
		return nil, false
	}
	var l []uint64
	for id := a; id < a+k; id++ {
		if _, ok := t.m[id]; ok {
			return nil, false
		}
		l = append(l, id)
	}
	return l, true
}

func (t *mtab) lowest(k uint64) ([]uint64, bool) {
	var l []uint64
	for id := uint64(0); id < t.n && uint64(len(l)) < k; id++ {
		if _, ok := t.m[id]; !ok {
			l = append(l, id)
		}
	}
	return l, k > 0 && uint64(len(l)) == k
}

func (t *mtab) step(o *cop, r cres) bool {
	_, held := t.m[o.a]
	in := o.a < t.n
	same := func(s string) bool { return r.ok && r.s == s }
	switch o.kind {
	case "claim":
		if r.ok != (in && !held) {
			return false
		}
		if r.ok {
			t.m[o.a] = o.l
		}
	case "update":
		if r.ok != held {
			return false
		}
		if r.ok {
			t.m[o.a] = o.l
		}
	case "release":
		if r.ok != in {
			return false
		}
		delete(t.m, o.a)
	case "claimfree", "findfree":
		l, ok := t.lowest(1)
		if r.ok != ok || ok && r.id != l[0] {
			return false
		}
		if o.kind == "claimfree" && ok {
			t.m[l[0]] = o.l
			return r.s == item(false, l[0], o.l)
		}
	case "claimrange", "findrange":
		l, ok := t.freeFrom(o.a, o.b)
		if r.ok != ok || ok && o.kind == "findrange" && r.s != fmt.Sprint(l) {
			return false
		}
		if o.kind == "claimrange" {
			for _, id := range l {
				t.m[id] = o.l
			}
		}
	case "claimsize", "findsize":
		l, ok := t.lowest(o.b)
		if r.ok != ok || ok && r.s != fmt.Sprint(l) {
			return false
		}
		if o.kind == "claimsize" && ok {
			for _, id := range l {
				t.m[id] = o.l
			}
		}
	case "get":
		if r.ok != held {
			return false
		}
		return !held || r.s == item(t.route, o.a, t.m[o.a])
	case "has":
		return same(fmt.Sprint(held))
	case "isfree":
		return same(fmt.Sprint(in && !held))
	case "size":
		return same(fmt.Sprint(len(t.m)))
	case "all":
		return same(t.list(nil))
	case "bylabel":
		return same(t.list(o.sel))
	case "iterfree":
		var l []uint64
		for id := uint64(0); id < t.n; id++ {
			if _, ok := t.m[id]; !ok {
				l = append(l, id)
			}
		}
		return same(fmt.Sprint(l))
	default:
		panic("harness: unknown call " + o.kind)
	}
	return true
}

func yes(s string) cres { return cres{ok: true, s: s} }
func ok(err error) cres { return cres{ok: err == nil} }

// cidx drives an index table.
type cidx struct {
	n uint64
	t idxtable.Table[labels.Set]
}

func (s *cidx) fresh()        { s.t = idxtable.NewTable[labels.Set](s.n) }
func (s *cidx) model() cmodel { return &mtab{n: s.n, m: map[uint64]labels.Set{}} }

func (s *cidx) do(o *cop) cres {
	switch o.kind {
	case "claim":
		return ok(s.t.Claim(o.a, cloneLabels(o.l)))
	case "update":
		return ok(s.t.Update(o.a, cloneLabels(o.l)))
	case "release":
		return ok(s.t.Release(o.a))
	case "claimfree":
		e, err := s.t.ClaimDynamic(cloneLabels(o.l))
		if err != nil || e == nil {
			return cres{}
		}
		return cres{true, item(false, e.ID(), e.Data()), e.ID()}
	case "claimrange":
		return ok(s.t.ClaimRange(o.a, o.b, cloneLabels(o.l)))
	case "claimsize":
		es, err := s.t.ClaimSize(o.b, cloneLabels(o.l))
		if err != nil {
			return cres{}
		}
		var l []uint64
		for _, e := range es {
			l = append(l, e.ID())
		}
		return yes(txts(l))
	case "findfree":
		id, err := s.t.FindFree()
		if err != nil {
			return cres{}
		}
		return cres{ok: true, id: id}
	case "findrange":
		l, err := s.t.FindFreeRange(o.a, o.b)
		if err != nil {
			return cres{}
		}
		return yes(txts(l))
	case "findsize":
		l, err := s.t.FindFreeSize(o.b)
		if err != nil {
			return cres{}
		}
		return yes(txts(l))
	case "get":
		e, err := s.t.Get(o.a)
		if err != nil || e == nil {
			return cres{}
		}
		return yes(item(false, e.ID(), e.Data()))
	case "has":
		return yes(strconv.FormatBool(s.t.Has(o.a)))
	case "isfree":
		return yes(strconv.FormatBool(s.t.IsFree(o.a)))
	case "size":
		return yes(txt(s.t.Size()))
	case "all":
		var l []string
		for _, e := range s.t.GetAll() {
			l = append(l, item(false, e.ID(), e.Data()))
		}
		return yes(strings.Join(l, " "))
	case "bylabel":
		var l []string
		for it := s.t.Iterate(); it.Next(); {
			if o.sel.Matches(it.Value().Data()) {
				l = append(l, item(false, it.ID(), it.Value().Data()))
			}
		}
		return yes(strings.Join(l, " "))
	case "iterfree":
		var l []uint64
		for it := s.t.IterateFree(); it.Next(); {
			l = append(l, it.ID())
		}
		return yes(txts(l))
	}
	panic("harness: unknown call " + o.kind)
}

// cwin drives a windowed table; the model's id 0 is the start of the window.
type cwin struct {
	w     *width
	start uint64
	n     uint64
	t     table.Table
}

func (s *cwin) fresh()        { s.t = s.w.newTable(s.start, s.start+s.n-1) }
func (s *cwin) model() cmodel { return &mtab{n: s.n, m: map[uint64]labels.Set{}} }

func (s *cwin) entry(e tree.Entry) string {
	return item(false, e.ID().ID()-s.start, e.Labels())
}

func (s *cwin) list(es tree.Entries) cres {
	var l []string
	for _, e := range es {
		l = append(l, s.entry(e))
	}
	return yes(strings.Join(l, " "))
}

func (s *cwin) do(o *cop) cres {
	id := s.start + o.a
	switch o.kind {
	case "claim":
		return ok(s.t.Claim(id, cloneLabels(o.l)))
	case "update":
		return ok(s.t.Update(id, cloneLabels(o.l)))
	case "release":
		return ok(s.t.Release(id))
	case "claimfree":
		e, err := s.t.ClaimFree(cloneLabels(o.l))
		if err != nil || e == nil {
			return cres{}
		}
		return cres{true, s.entry(e), e.ID().ID() - s.start}
	case "findfree":
		id, err := s.t.FindFree()
		if err != nil {
			return cres{}
		}
		return cres{ok: true, id: id - s.start}
	case "get":
		e, err := s.t.Get(id)
		if err != nil || e == nil {
			return cres{}
		}
		return yes(s.entry(e))
	case "has":
		return yes(strconv.FormatBool(s.t.Has(id)))
	case "isfree":
		return yes(strconv.FormatBool(s.t.IsFree(id)))
	case "size":
		return yes(txt(s.t.Size()))
	case "all":
		return s.list(s.t.GetAll())
	case "bylabel":
		return s.list(s.t.GetByLabel(o.sel))
	}
	panic("harness: unknown call " + o.kind)
}

// cip drives an IP table.
type cip struct {
	from netip.Addr
	n    uint64
	t    iptable.IPTable
}

func (s *cip) at(i uint64) netip.Addr { return num(s.from).add(i).addr(s.from.Is4()) }
func (s *cip) fresh()                 { s.t = iptable.New(s.from, s.at(s.n-1)) }
func (s *cip) model() cmodel {
	return &mtab{n: s.n, m: map[uint64]labels.Set{}, route: true}
}

func (s *cip) route(o *cop) nipam.Route {
	return nipam.NewRoute(netip.PrefixFrom(s.at(o.a), s.from.BitLen()), cloneLabels(o.l), nil)
}

func (s *cip) list(rs nipam.Routes) cres {
	var l []string
	for _, r := range rs {
		l = append(l, lstr(r.Labels()))
	}
	return yes(strings.Join(l, " "))
}

func (s *cip) do(o *cop) cres {
	a := s.at(o.a).String()
	switch o.kind {
	case "claim":
		return ok(s.t.Claim(a, s.route(o)))
	case "update":
		return ok(s.t.Update(a, s.route(o)))
	case "release":
		return ok(s.t.Release(a))
	case "findfree":
		ip, err := s.t.FindFree()
		if err != nil {
			return cres{}
		}
		return cres{ok: true, id: num(ip).lo - num(s.from).lo}
	case "get":
		r, err := s.t.Get(a)
		if err != nil {
			return cres{}
		}
		return yes(lstr(r.Labels()))
	case "has":
		return yes(strconv.FormatBool(s.t.Has(a)))
	case "isfree":
		return yes(strconv.FormatBool(s.t.IsFree(a)))
	case "size":
		return yes(txt(s.t.Size()))
	case "all":
		return s.list(s.t.GetAll())
	case "bylabel":
		return s.list(s.t.GetByLabel(o.sel))
	}
	panic("harness: unknown call " + o.kind)
}

// concLabels draws a label set that is unique per call and has a shared part.
func concLabels(c *pbt.C, ctr *int) labels.Set {
	*ctr++
	l := labels.Set{"n": fmt.Sprint(*ctr)}
	if c.Bool() {
		l["g"] = lvals[c.Int(2)]
	}
	return l
}

func wideLabels(i int) labels.Set {
	l := labels.Set{"n": fmt.Sprint(1000 + i)}
	if i%5 < 2 {
		l["g"] = lvals[i%5]
	}
	return l
}

func concSelector(c *pbt.C) (labels.Selector, string) {
	var s labels.Selector
	switch c.Int(3) {
	case 0:
		s = labels.SelectorFromSet(labels.Set{"g": lvals[c.Int(2)]})
	case 1:
		s = labels.Everything()
	case 2:
		s, _ = labels.Parse("!g")
	}
	return s, "'" + s.String() + "'"
}

func concTable(c *pbt.C) {
	n := 1 + c.U64(4)
	wide := c.Chance(1, 200)
	if wide {
		n = 16 + c.U64(40<<c.Int(4))
		c.Label("wide")
	}
	s, n := genTab(c, n)
	gen := tabGen(c, s, n)
	concCase(c, s, wide, gen, func() []*cop {
		var l []*cop
		ctr := 1000
		if wide {
			k := c.Int(int(n) + 1)
			if c.Bool() {
				k = int(n) - c.Int(5+int(n)/8)
			}
			crowdIDs(c, k, n-1, func(i int, id uint64) {
				l = append(l, &cop{kind: "claim", a: id, txt: fmt.Sprint(id), l: wideLabels(i)})
			})
			return l
		}
		for id := uint64(0); id < n; id++ {
			if c.Chance(2, 3) {
				l = append(l, &cop{kind: "claim", a: id, txt: fmt.Sprint(id), l: concLabels(c, &ctr)})
			}
		}
		return l
	})
}

// genTab draws one of the tables with n ids.
func genTab(c *pbt.C, n uint64) (csys, uint64) { return genTabOf(c, n, c.Int(3)) }

func genTabOf(c *pbt.C, n uint64, kind int) (csys, uint64) {
	switch kind {
	case 0:
		c.Logf("index table of %d", n)
		c.Label("index table")
		return &cidx{n: n}, n
	case 1:
		w := widths[c.Int(3)]
		x := &cwin{w: w, n: n}
		switch c.Int(3) {
		case 1:
			x.start = w.max - (n - 1)
		case 2:
			x.start = c.U64(w.max - n)
		}
		c.Logf("windowed table %s of %d..%d", w.name, x.start, x.start+n-1)
		c.Label("windowed table")
		return x, n
	}
	x := &cip{n: n, from: netip.MustParseAddr([]string{"10.0.0.254", "2001:db8::ffff:ffff:ffff:fffe", "0.0.0.0", "::"}[c.Int(4)])}
	c.Logf("IP table of %d from %s", n, x.from)
	c.Label("IP table")
	return x, n
}

// tabGen returns a generator of calls on table s with n ids.
func tabGen(c *pbt.C, s csys, n uint64) func() *cop {
	var kinds []string
	var weights []int
	add := func(w int, ks ...string) {
		for _, k := range ks {
			kinds, weights = append(kinds, k), append(weights, w)
		}
	}
	add(6, "claim")
	add(4, "release")
	add(2, "update")
	add(1, "get", "has", "isfree", "findfree", "size", "all", "bylabel")
	switch s.(type) {
	case *cidx:
		add(5, "claimfree")
		add(3, "claimrange", "claimsize")
		add(1, "findrange", "findsize", "iterfree")
	case *cwin:
		add(8, "claimfree")
	}
	ctr := 0
	return func() *cop {
		o := &cop{kind: kinds[c.Weighted(weights...)]}
		switch o.kind {
		case "claim", "update", "release", "get", "has", "isfree":
			o.a = c.U64(n)
			o.txt = fmt.Sprint(o.a)
		case "claimrange", "findrange":
			o.a = c.U64(n)
			o.b = 1 + c.U64(n-o.a+b2u(c.Chance(1, 8)))
			o.txt = fmt.Sprintf("%d,%d", o.a, o.b)
		case "claimsize", "findsize":
			o.b = 1 + c.U64(n)
			o.txt = fmt.Sprint(o.b)
		case "bylabel":
			o.sel, o.txt = concSelector(c)
		}
		o.l = concLabels(c, &ctr)
		return o
	}
}

func b2u(b bool) uint64 { return uint64(b2i(b)) }

// ---- trees ----

type mtree struct {
	w   *width
	max uint64
	m   map[pfx]labels.Set
}

func (t *mtree) clone() cmodel {
	o := &mtree{w: t.w, max: t.max, m: make(map[pfx]labels.Set, len(t.m))}
	for k, v := range t.m {
		o.m[k] = v
	}
	return o
}

func (t *mtree) list(f func(pfx, labels.Set) bool) string {
	var l []string
	for _, p := range sortedPfx(t.m) {
		if f == nil || f(p, t.m[p]) {
			l = append(l, p.String()+lstr(t.m[p]))
		}
	}
	return strings.Join(l, " ")
}

func (t *mtree) key() string { return t.list(nil) }

func (t *mtree) covered(id uint64) bool {
	for p := range t.m {
		if t.w.lo(p) <= id && id <= t.w.hi(p) {
			return true
		}
	}
	return false
}

func (t *mtree) full() bool {
	next := uint64(0)
	for _, p := range sortedPfx(t.m) {
		if t.w.lo(p) > next {
			return false
		}
		hi := t.w.hi(p)
		if hi >= t.max {
			return true
		}
		next = max(next, hi+1)
	}
	return false
}

func (t *mtree) step(o *cop, r cres) bool {
	same := func(s string) bool { return r.ok && r.s == s }
	switch o.kind {
	case "claim", "update":
		if !r.ok {
			return false
		}
		t.m[o.p] = o.l
	case "release":
		if !r.ok {
			return false
		}
		delete(t.m, o.p)
	case "claimfree":
		if !r.ok {
			return t.full()
		}
		if r.id > t.max || t.covered(r.id) {
			return false
		}
		p := pfx{r.id, t.w.bits}
		t.m[p] = o.l
		return r.s == p.String()+lstr(o.l)
	case "claimrange":
		if !r.ok {
			return false
		}
		for _, p := range t.w.cover(o.a, o.b) {
			t.m[p] = o.l
		}
	case "releasebylabel":
		if !r.ok {
			return false
		}
		for p, l := range t.m {
			if o.sel.Matches(l) {
				delete(t.m, p)
			}
		}
	case "get":
		l, held := t.m[o.p]
		return r.ok == held && (!held || r.s == o.p.String()+lstr(l))
	case "size":
		return same(fmt.Sprint(len(t.m)))
	case "all":
		return same(t.list(nil))
	case "bylabel":
		return same(t.list(func(_ pfx, l labels.Set) bool { return o.sel.Matches(l) }))
	case "children":
		return same(t.list(func(p pfx, _ labels.Set) bool { return p != o.p && t.w.contains(o.p, p) }))
	case "parents":
		return same(t.list(func(p pfx, _ labels.Set) bool { return p != o.p && t.w.contains(p, o.p) }))
	case "clone":
		n := t.clone().(*mtree)
		n.m[o.p] = o.l
		delete(n.m, o.q)
		return same(n.list(nil))
	default:
		panic("harness: unknown call " + o.kind)
	}
	return true
}

// ctree drives an id tree; calls and answers name prefixes in the form of
// width gw (same number of host bits). With raw set, listings keep their order.
type ctree struct {
	w, gw *width
	l     uint8
	raw   bool
	t     gtree.GTree
}

func (s *ctree) fresh() {
	t, err := s.w.newTree("t", s.l)
	if err != nil {
		panic(err)
	}
	s.t = t
}
func (s *ctree) model() cmodel {
	return &mtree{w: s.gw, max: maxOf(s.l), m: map[pfx]labels.Set{}}
}

func (s *ctree) item(e tree.Entry) (pfx, string) {
	p := idPfx(e.ID())
	p.l = s.gw.bits - (s.w.bits - p.l)
	return p, p.String() + lstr(e.Labels())
}

func (s *ctree) list(es tree.Entries) cres {
	type pe struct {
		p pfx
		s string
	}
	var l []pe
	for _, e := range es {
		p, st := s.item(e)
		l = append(l, pe{p, st})
	}
	if !s.raw {
		sort.Slice(l, func(i, j int) bool { return pfxLess(l[i].p, l[j].p) })
	}
	var ss []string
	for _, x := range l {
		ss = append(ss, x.s)
	}
	return yes(strings.Join(ss, " "))
}

func (s *ctree) do(o *cop) cres {
	id := func(p pfx) tree.ID { return s.w.id(p.v, s.w.bits-(s.gw.bits-p.l)) }
	switch o.kind {
	case "claim":
		return ok(s.t.ClaimID(id(o.p), cloneLabels(o.l)))
	case "update":
		return ok(s.t.Update(id(o.p), cloneLabels(o.l)))
	case "release":
		return ok(s.t.ReleaseID(id(o.p)))
	case "claimfree":
		e, err := s.t.ClaimFree(cloneLabels(o.l))
		if err != nil || e == nil {
			return cres{}
		}
		_, st := s.item(e)
		return cres{true, st, e.ID().ID()}
	case "claimrange":
		return ok(s.t.ClaimRange(o.txt, cloneLabels(o.l)))
	case "releasebylabel":
		return ok(s.t.ReleaseByLabel(o.sel))
	case "get":
		e, err := s.t.Get(id(o.p))
		if err != nil || e == nil {
			return cres{}
		}
		_, st := s.item(e)
		return yes(st)
	case "size":
		return yes(txt(s.t.Size()))
	case "all":
		return s.list(s.t.GetAll())
	case "iter":
		var es tree.Entries
		for it := s.t.Iterate(); it.Next(); {
			es = append(es, it.Entry())
		}
		return s.list(es)
	case "bylabel":
		return s.list(s.t.GetByLabel(o.sel))
	case "children":
		return s.list(s.t.Children(id(o.p)))
	case "parents":
		return s.list(s.t.Parents(id(o.p)))
	case "clone":
		n := s.t.Clone()
		if err := n.ClaimID(id(o.p), cloneLabels(o.l)); err != nil {
			return cres{}
		}
		if err := n.ReleaseID(id(o.q)); err != nil {
			return cres{}
		}
		return s.list(n.GetAll())
	}
	panic("harness: unknown call " + o.kind)
}

func concTree(c *pbt.C) {
	w := genWidth(c)
	l := uint8(1 + c.Int(4))
	if c.Chance(1, 5) {
		l = w.bits
	}
	lim := 4
	wide := c.Chance(1, 200)
	if wide {
		lim = 5 + c.Int(4)
		if l < 5 {
			l = uint8(lim)
		}
		c.Label("wide")
	}
	c.Logf("tree%s of bit length %d", w.name, l)
	gen := treeGen(c, w, l, lim)
	concCase(c, &ctree{w: w, gw: w, l: l}, wide, gen, func() []*cop {
		var l []*cop
		if wide {
			claim := func(p pfx) { l = append(l, &cop{kind: "claim", p: p, txt: p.String(), l: wideLabels(len(l))}) }
			k, max := c.Int(300), uint64(1)<<lim-1
			if c.Bool() {
				crowdIDs(c, k, max, func(_ int, id uint64) { claim(pfx{id, w.bits}) })
			} else {
				manyPrefixes(c, w, max, k, claim)
			}
			return l
		}
		for k := c.Int(8); k > 0; k-- {
			if o := gen(); o.kind == "claim" || o.kind == "claimfree" || o.kind == "claimrange" {
				l = append(l, o)
			}
		}
		return l
	})
}

// treeGen returns a generator of calls on trees of bit length l, with ids in
// the form of width w and mostly below 2^lim.
func treeGen(c *pbt.C, w *width, l uint8, lim int) func() *cop {
	kinds := []string{"claim", "release", "claimfree", "claimrange", "update", "releasebylabel", "clone", "get", "size", "all", "bylabel", "children", "parents"}
	weights := []int{5, 4, 7, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1}
	ctr := 0
	depth := min(int(l), lim)
	pick := func() pfx {
		v := c.U64(1 << depth)
		if l > 0 && c.Chance(1, 6) {
			v = maxOf(l) - c.U64(2)
		}
		h := []uint8{0, 1, 2, 3, 4}[c.Weighted(6, 2, 1, 1, 1)]
		return w.pfx(v, w.bits-min(h, l))
	}
	return func() *cop {
		o := &cop{kind: kinds[c.Weighted(weights...)]}
		switch o.kind {
		case "claim", "update", "release", "get", "children", "parents":
			o.p = pick()
			o.txt = o.p.String()
		case "clone":
			o.p, o.q = pick(), pick()
			o.txt = fmt.Sprintf("then claim %s and release %s on the clone", o.p, o.q)
		case "claimrange":
			o.a = c.U64(1 << depth)
			o.b = o.a + c.U64(uint64(1)<<depth-o.a)
			o.txt = fmt.Sprintf("%d-%d", o.a, o.b)
		case "bylabel", "releasebylabel":
			o.sel, o.txt = concSelector(c)
		}
		o.l = concLabels(c, &ctr)
		return o
	}
}

func init() {
	assume := []string{
		"interleavings are explored at statement granularity under sequential consistency; weaker memory effects are left to the race detector, which is active in every schedule",
		"package sync locks are modelled (writer preference, as in Go) so that blocking is visible",
	}
	register(&pbt.Prop{ID: "C22", Quick: 200000, Thorough: 8000000, Budget: 200_000_000, Race: true, Assume: assume,
		Rule: "programs of 2-3 tasks with 1-3 calls each on a prefilled index, windowed or IP table of 1-4 ids (one in 200: 16-330), each run under several schedules with 1-4 preemption points (uniform over the executed statements or next to lock operations) in a race build; the history plus the final state must be linearizable; non-trivial = a task was preempted inside a call and calls of different tasks overlapped",
		Run:  concTable})
	register(&pbt.Prop{ID: "C23", Quick: 90000, Thorough: 3600000, Budget: 400_000_000, Race: true, Assume: append(assume,
		"the iterator of Iterate reads the tree after the call returned and Print* write to standard output without locking: both are left out of concurrent programs"),
		Rule: "as C22 on 16/32/64-bit id trees of 2-16 ids or full width, with free, range, label and clone calls; free claims may return any id that is free at their place in the order",
		Run:  concTree})
}
