package props

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"net/netip"
	"sort"
	"strings"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
)

// u128 is an address as a number.
type u128 struct{ hi, lo uint64 }

func (a u128) add(n uint64) u128 {
	lo, c := bits.Add64(a.lo, n, 0)
	return u128{a.hi + c, lo}
}
func (a u128) sub(n uint64) u128 {
	lo, c := bits.Sub64(a.lo, n, 0)
	return u128{a.hi - c, lo}
}
func (a u128) less(b u128) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }

func (a u128) addr(v4 bool) netip.Addr {
	if v4 {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(a.lo))
		return netip.AddrFrom4(b)
	}
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], a.hi)
	binary.BigEndian.PutUint64(b[8:], a.lo)
	return netip.AddrFrom16(b)
}

func num(a netip.Addr) u128 {
	if a.Is4() {
		b := a.As4()
		return u128{0, uint64(binary.BigEndian.Uint32(b[:]))}
	}
	b := a.As16()
	return u128{binary.BigEndian.Uint64(b[:8]), binary.BigEndian.Uint64(b[8:])}
}

type ipVal struct {
	n int
	p netip.Prefix
	l labels.Set
}

// ipSys drives an IP table next to a map.
type ipSys struct {
	c        *pbt.C
	t        iptable.IPTable
	v4       bool
	from, to u128
	last     uint64 // to - from
	m        map[netip.Addr]ipVal
	ctr      int
	aliased  bool
}

func newIPSys(c *pbt.C, big bool) *ipSys {
	s := &ipSys{c: c, v4: c.Bool(), m: map[netip.Addr]ipVal{}}
	maxA := u128{^uint64(0), ^uint64(0)}
	if s.v4 {
		maxA = u128{0, 1<<32 - 1}
		c.Label("IPv4")
	} else {
		c.Label("IPv6")
	}
	switch c.Weighted(5, 2, 3, 1) {
	case 0:
		s.last = c.U64(12)
	case 1:
		s.last = 0
	case 2:
		s.last = c.U64(70)
	case 3:
		s.last = c.U64(300)
	}
	if big && c.Chance(1, 5) {
		switch c.Int(3) {
		case 0:
			s.last = ^uint64(0)
		case 1:
			s.last = 1<<32 - 1
		case 2:
			s.last = c.U64(0)
		}
		if s.v4 {
			s.last = min(s.last, 1<<32-1)
		}
		c.Label("huge range")
	}
	k := crowd(c, 2000)
	if k > 0 && s.last < uint64(k) {
		s.last = uint64(k) + []uint64{0, 1, uint64(k) / 3, uint64(k)}[c.Int(4)] - 1
	}
	var b u128
	off := s.last / 2
	switch c.Int(7) {
	case 0:
		b, off = u128{}, 0
	case 1:
		b, off = maxA, s.last
	case 2: // around a byte carry
		if s.v4 {
			b = u128{0, uint64(10)<<24 | uint64(1)<<(8*c.U64(4))}
		} else if k := c.U64(16); k < 8 {
			b = u128{0x20010db8 << 32, 1 << (8 * k)}
		} else {
			b = u128{1 << (8 * (k - 8)), 0}
		}
	case 3: // around a 64-bit carry
		b = u128{0x20010db800000000 + c.U64(3), 0}
		if s.v4 {
			b = u128{0, 1 << 31}
		}
	case 4: // around the IPv4-mapped block
		b = u128{0, 0xffff<<32 + c.U64(2)<<32}
		if s.v4 {
			b = u128{0, 0x7f000000}
		}
	case 5:
		b = u128{c.U64(0), c.U64(0)}
	case 6:
		b = u128{0, c.U64(1 << 33)}
	}
	if s.v4 {
		b = u128{0, b.lo & (1<<32 - 1)}
	}
	s.from = b.sub(off)
	if lim := maxA.sub(s.last); b.less(u128{0, off}) || lim.less(s.from) {
		s.from = u128{}
		if lim.less(b) {
			s.from = lim
		}
	}
	s.to = s.from.add(s.last)
	c.Logf("New(%s,%s)", s.at(0), s.at(s.last))
	s.t = iptable.New(s.at(0), s.at(s.last))
	if k > 0 {
		var as []netip.Addr
		claim := func(i int, a netip.Addr) {
			v := ipVal{n: i + 1, p: netip.PrefixFrom(a, a.BitLen()), l: crowdLabels(i)}
			err := s.t.Claim(a.String(), nipam.NewRoute(v.p, cloneLabels(v.l), map[string]any{"n": v.n}))
			c.Check(err == nil, "Claim(%s): %v", a, err)
			s.m[a] = v
		}
		crowdIDs(c, k, s.last, func(i int, id uint64) {
			claim(i, s.at(id))
			as = append(as, s.at(id))
		})
		s.ctr = k + 1
		c.Logf("%d x Claim", len(s.m))
		season(c, len(as), 100, func(i int) {
			a := as[i]
			if _, held := s.m[a]; !held {
				s.ctr++
				claim(s.ctr, a)
				return
			}
			err := s.t.Release(a.String())
			c.Check(err == nil, "Release(%s): %v", a, err)
			delete(s.m, a)
		})
	}
	return s
}

func (s *ipSys) at(i uint64) netip.Addr { return s.from.add(i).addr(s.v4) }

func (s *ipSys) inside() netip.Addr {
	switch s.c.Weighted(5, 2, 2, 1) {
	case 0:
		return s.at(clampMod(s.c.U64(8), s.last))
	case 1:
		return s.at(s.last - clampMod(s.c.U64(3), s.last))
	case 2:
		return s.at(clampMod(s.c.U64(0), s.last))
	}
	return s.at(clampMod(uint64(1)<<s.c.Int(64)+s.c.U64(2), s.last))
}

// outsideStr draws text that is usually refused; netip says whether it is an address.
func (s *ipSys) outsideStr() string {
	c := s.c
	a := s.inside()
	n := num(a)
	switch c.Int(12) {
	case 0:
		return s.from.sub(1 + c.U64(2)).addr(s.v4).String()
	case 1:
		return s.to.add(1 + c.U64(2)).addr(s.v4).String()
	case 2: // same low 64 bits, other high bits
		return u128{n.hi + 1 + c.U64(2), n.lo}.addr(false).String()
	case 3: // same low 32 bits
		return u128{n.hi, n.lo + 1<<32}.addr(false).String()
	case 4: // IPv4-mapped, or the IPv4 address of the low bits
		if s.v4 {
			return netip.AddrFrom16(a.As16()).String()
		}
		return u128{0, n.lo & (1<<32 - 1)}.addr(true).String()
	case 5: // the same number in the other family
		if s.v4 {
			return n.addr(false).String()
		}
		return "1.2.3.4"
	case 6:
		if s.v4 {
			return a.String() + "%eth0"
		}
		return a.String() + "%eth0"
	case 7:
		return a.String() + []string{" ", "/32", "/128", ".", ":", "\n", "\x00", "0", "x"}[c.Int(9)]
	case 8:
		return []string{" ", "0", ".", ":", "[", "-"}[c.Int(6)] + a.String()
	case 9:
		st := a.String()
		i := c.Int(len(st))
		return st[:i] + st[i+1:]
	case 10:
		return []string{"", "localhost", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.04", ":::", "::1::", "12345::", "é"}[c.Int(10)]
	}
	return u128{c.U64(0), c.U64(0)}.addr(c.Bool()).String()
}

// spell draws one of the textual forms of a.
func (s *ipSys) spell(a netip.Addr) string {
	c := s.c
	st := a.String()
	if a.Is4() || c.Chance(1, 3) {
		return st
	}
	b := a.As16()
	groups := make([]string, 8)
	for i := range groups {
		v := uint16(b[2*i])<<8 | uint16(b[2*i+1])
		groups[i] = fmt.Sprintf([]string{"%x", "%04x", "%X", "%04X"}[c.Int(4)], v)
	}
	tail := groups
	if c.Chance(1, 3) {
		tail = append(append([]string{}, groups[:6]...), fmt.Sprintf("%d.%d.%d.%d", b[12], b[13], b[14], b[15]))
	}
	// one "::" in place of a run of zero groups
	if c.Bool() {
		var runs [][2]int
		for i := 0; i < len(tail); i++ {
			for j := i + 1; j <= len(tail) && strings.Trim(tail[j-1], "0") == ""; j++ {
				runs = append(runs, [2]int{i, j})
			}
		}
		if len(runs) > 0 {
			r := runs[c.Int(len(runs))]
			st = strings.Join(tail[:r[0]], ":") + "::" + strings.Join(tail[r[1]:], ":")
			s.check(st, a)
			return st
		}
	}
	st = strings.Join(tail, ":")
	s.check(st, a)
	return st
}

func (s *ipSys) check(st string, a netip.Addr) {
	if b, err := netip.ParseAddr(st); err != nil || b != a {
		panic(fmt.Sprintf("harness: spelling %q of %s parses as %v %v", st, a, b, err))
	}
	s.aliased = true
}

// arg draws a textual address and what it denotes inside the range.
func (s *ipSys) arg() (string, netip.Addr, bool) {
	if s.c.Chance(1, 6) {
		st := s.outsideStr()
		a, in := s.denote(st)
		if !in {
			s.c.Label("address refused")
		}
		return st, a, in
	}
	a := s.inside()
	return s.spell(a), a, true
}

func (s *ipSys) denote(st string) (netip.Addr, bool) {
	a, err := netip.ParseAddr(st)
	if err != nil || a.Zone() != "" || a.Is4() != s.v4 {
		return a, false
	}
	n := num(a)
	return a, !n.less(s.from) && !s.to.less(n)
}

func (s *ipSys) held() (string, netip.Addr, bool) {
	ks := s.keys()
	if len(ks) > 0 && s.c.Chance(3, 4) {
		a := ks[s.c.Int(len(ks))]
		return s.spell(a), a, true
	}
	return s.arg()
}

func (s *ipSys) keys() []netip.Addr {
	var ks []netip.Addr
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return num(ks[i]).less(num(ks[j])) })
	return ks
}

func (s *ipSys) val() (ipVal, nipam.Route) {
	s.ctr++
	v := ipVal{n: s.ctr, l: genLabels(s.c, s.ctr)}
	v.p = netip.PrefixFrom(u128{s.c.U64(4) << 40, s.c.U64(4)}.addr(false), 128-s.c.Int(3))
	if s.c.Bool() {
		v.p = netip.PrefixFrom(u128{0, 10<<24 + s.c.U64(3)}.addr(true), 32)
	}
	return v, nipam.NewRoute(v.p, cloneLabels(v.l), map[string]any{"n": v.n})
}

func (s *ipSys) route(what string, r nipam.Route, v ipVal) {
	n, _ := r.GetData()["n"].(int)
	s.c.Check(n == v.n && r.Prefix() == v.p.Masked() && lstr(r.Labels()) == lstr(v.l), "%s: got route %s %s data %v, want %s %s data %d",
		what, r.Prefix(), lstr(r.Labels()), r.GetData(), v.p.Masked(), lstr(v.l), v.n)
}

func (s *ipSys) claim() {
	st, a, in := s.arg()
	v, r := s.val()
	_, held := s.m[a]
	want := in && !held
	err := s.t.Claim(st, r)
	s.c.Logf("Claim(%q,%d) -> %s", st, v.n, errs(err))
	s.c.Check((err == nil) == want, "Claim(%q): %v, inside and free: %v", st, err, want)
	if want {
		s.m[a] = v
	} else if held {
		s.c.Label("claim of a held address")
	}
}

func (s *ipSys) update() {
	st, a, in := s.held()
	v, r := s.val()
	_, held := s.m[a]
	want := in && held
	err := s.t.Update(st, r)
	s.c.Logf("Update(%q,%d) -> %s", st, v.n, errs(err))
	s.c.Check((err == nil) == want, "Update(%q): %v, claimed: %v", st, err, want)
	if want {
		s.m[a] = v
		s.c.Label("update")
	}
}

func (s *ipSys) release() {
	st, a, in := s.held()
	err := s.t.Release(st)
	s.c.Logf("Release(%q) -> %s", st, errs(err))
	s.c.Check((err == nil) == in, "Release(%q): %v, inside: %v", st, err, in)
	if _, ok := s.m[a]; ok && in {
		delete(s.m, a)
		s.c.Label("release")
		if s.aliased {
			s.c.Nontrivial()
		}
	}
}

func (s *ipSys) findFree() {
	var low netip.Addr
	ok := false
	for i := uint64(0); ; i++ {
		if _, held := s.m[s.at(i)]; !held {
			low, ok = s.at(i), true
			break
		}
		if i == s.last {
			break
		}
	}
	a, err := s.t.FindFree()
	s.c.Logf("FindFree() -> %s %s", a, errs(err))
	s.c.Check((err == nil) == ok, "FindFree: %v, free address exists: %v", err, ok)
	if ok {
		s.c.Check(a == low && a.Is4() == s.v4, "FindFree: got %s, lowest free is %s", a, low)
		s.c.Check(!s.t.Has(a.String()), "FindFree claimed %s", a)
	} else {
		s.c.Label("FindFree on full table")
	}
}

// fill claims the lowest free addresses, so that FindFree has to skip them.
func (s *ipSys) fill() {
	n := 1 + s.c.U64(12)
	for i := uint64(0); i < n && i <= s.last; i++ {
		a := s.at(i)
		if _, ok := s.m[a]; !ok {
			v, r := s.val()
			err := s.t.Claim(s.spell(a), r)
			s.c.Check(err == nil, "Claim(%s): %v", a, err)
			s.m[a] = v
		}
	}
	s.c.Logf("claimed the %d lowest addresses", n)
}

func (s *ipSys) point(st string) {
	a, in := s.denote(st)
	v, held := s.m[a]
	held = held && in
	r, err := s.t.Get(st)
	s.c.Check((err == nil) == held, "Get(%q): %v, claimed: %v", st, err, held)
	if held {
		s.route("Get "+st, r, v)
	}
	s.c.Check(s.t.Has(st) == held, "Has(%q): %v, claimed: %v", st, !held, held)
	free := in && !held
	s.c.Check(s.t.IsFree(st) == free, "IsFree(%q): %v, inside and free: %v", st, !free, free)
}

func (s *ipSys) observe() {
	s.c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
	if s.last <= 40 {
		for i := uint64(0); i <= s.last; i++ {
			s.point(s.at(i).String())
		}
	} else {
		for _, k := range s.keys() {
			s.point(k.String())
		}
	}
	s.point(s.from.sub(1).addr(s.v4).String())
	s.point(s.to.add(1).addr(s.v4).String())
	s.point(s.outsideStr())
}

// read makes one query, so that histories mix single queries with changes.
func (s *ipSys) read() {
	if !s.c.Chance(1, 8) {
		return
	}
	switch s.c.Int(3) {
	case 0:
		s.c.Check(s.t.Size() == len(s.m), "Size: %d, want %d", s.t.Size(), len(s.m))
	case 1:
		ks := s.keys()
		if len(ks) > 0 {
			s.point(ks[s.c.Int(len(ks))].String())
		}
	case 2:
		nt := s.c.IsNontrivial()
		s.lists()
		s.c.SetNontrivial(nt)
	}
}

func (s *ipSys) lists() {
	ks := s.keys()
	all := s.t.GetAll()
	s.c.Check(len(all) == len(ks), "GetAll: %d routes, want %d", len(all), len(ks))
	for i, r := range all {
		s.route("GetAll of "+ks[i].String(), r, s.m[ks[i]])
	}
	scribble(all)
	sel, str := genSelector(s.c)
	s.c.Logf("GetByLabel(%s)", str)
	var want []netip.Addr
	for _, k := range ks {
		if sel.Matches(s.m[k].l) {
			want = append(want, k)
		}
	}
	got := s.t.GetByLabel(sel)
	s.c.Check(len(got) == len(want), "GetByLabel: %d routes, want %s", len(got), listStr(want, 20))
	for i, r := range got {
		s.route("GetByLabel of "+want[i].String(), r, s.m[want[i]])
	}
	scribble(got)
	if len(want) > 0 && len(want) < len(ks) {
		s.c.Label("selector splits the routes")
		s.c.Nontrivial()
	}
}

func init() {
	register(&pbt.Prop{ID: "C08", Quick: 240000, Thorough: 9600000, Budget: 60_000_000,
		Rule: "random histories on IPv4 and IPv6 ranges of 1 to 2^64 addresses around byte and 64-bit carries, both ends of the address space and the IPv4-mapped block; addresses in all spellings, of the other family, zoned, malformed and congruent modulo 2^32/2^64; all observables compared with a map of netip.Addr; non-trivial = an address was released after being addressed under a non-canonical spelling (IPv6) or any release (IPv4)",
		Known: []pbt.Known{{ID: "ip-range-above-2^64", Still: func() bool {
			t := iptable.New(netip.MustParseAddr("2001:db8::"), netip.MustParseAddr("2001:db8:0:1:ffff:ffff:ffff:ffff"))
			if t.Claim("2001:db8::5", nipam.Route{}) != nil {
				return false
			}
			return t.Claim("2001:db8:0:1::5", nipam.Route{}) != nil || t.Size() != 2
		}, What: "iptable.New(2001:db8::, 2001:db8:0:1:ffff:ffff:ffff:ffff): the index of an address is its offset modulo 2^64, so 2001:db8::5 and 2001:db8:0:1::5 share a slot"}},
		Run: func(c *pbt.C) {
			s := newIPSys(c, true)
			s.aliased = s.v4
			c.Repeat(10, 50, func(int) {
				s.read()
				switch c.Weighted(6, 3, 2, 1) {
				case 0:
					s.claim()
				case 1:
					s.release()
				case 2:
					s.update()
				case 3:
					s.fill()
				}
				if c.Due() {
					s.observe()
				}
			})
			s.observe()
		}})
	register(&pbt.Prop{ID: "C09", Quick: 400000, Thorough: 16000000, Budget: 60_000_000,
		Rule: "histories that fill ranges from the bottom (small ones to exhaustion), then FindFree, GetAll and GetByLabel with random selectors compared with a map; non-trivial = a selector matched some but not all routes",
		Run: func(c *pbt.C) {
			s := newIPSys(c, true)
			c.Repeat(8, 40, func(int) {
				s.read()
				switch c.Weighted(4, 2, 2, 3, 3, 2) {
				case 0:
					s.claim()
				case 1:
					s.release()
				case 2:
					s.update()
				case 3:
					s.findFree()
				case 4:
					s.fill()
				case 5:
					s.lists()
				}
			})
			s.lists()
			if s.last <= 70 && c.Bool() {
				for i := uint64(0); i <= s.last; i++ {
					if a := s.at(i); s.m[a].n == 0 {
						s.findFree()
						v, r := s.val()
						c.Check(s.t.Claim(s.spell(a), r) == nil, "Claim(%s) refused", a)
						s.m[a] = v
					}
				}
				s.c.Logf("claimed all")
			}
			s.findFree()
			s.lists()
		}})
}
