package fam4

import (
	"fmt"
	"net"
	"runtime"
	"strconv"
	"sync/atomic"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

// Functions and fixed values used by several goroutines at once: from the
// first call in the process on ("cold", so that anything set up at first use
// is set up by several at once), and on large sets and tables.

func init() {
	mon.Rules["C20"] += " Workload cold: several goroutines call every function and method with the same arguments, from the start of a new process for each case, in an order of its own, with nothing in common but these; all must get the same results; ip/together does so for the functions of the ip package. Workload large: fixed sets and tables of 4,000 to more than 65,536 pieces used in every way by several goroutines, beside a writer on a mutable made from one of them."
	w := reg("C20", "cold", 3, 60, c20Cold)
	w.Serial, w.Fresh = true, true
	w = reg("C20", "large", 2, 12, c20Large)
	w.Serial, w.Fixed = true, true
	w = reg("C26", "order", 200, 4000, c26Order)
	w.Fixed = true
	mon.Need["C26"] = append(mon.Need["C26"], Fam+" orders of calls compared")
	mon.Rules["C26"] += " Workload order: every exported function and method with the same arguments three times, in different orders, calls with similar arguments in between: the same results."
	mon.Need["C20"] = append(mon.Need["C20"], Fam+" functions called side by side", Fam+" large values used side by side")
}

const coldParts = 12

// coldOps calls everything, in the given order of parts, and gives a digest of
// the results. In between it calls meet.
func coldOps(order []int, addrs []U, meet func()) (digest []uint64) {
	h := mon.NewHash()
	b := func(x bool) {
		if x {
			h = h.I(1)
		} else {
			h = h.I(0)
		}
	}
	pf := func(p P) {
		a, l := unP(p)
		h = hashU(h, a).I(l)
	}
	rg := func(x R) {
		v := unR(x)
		h = hashU(hashU(h, v.Lo), v.Hi)
	}
	set := func(s S) {
		n := 0
		s.WalkPrefixes(func(p P) bool { pf(p); n++; return n < 300 })
		s.WalkRanges(func(x R) bool { rg(x); n++; return n < 600 })
		walkAddresses(s, func(a A) bool { h = hashU(h, unA(a)); n++; return n < 700 })
		b(s.IsEmpty())
		if x, ok := setNumAddresses(s); ok {
			h = h.I(int(x))
		}
	}
	masks := func(l int) {
		m, err := ip.MaskFromLength(l)
		b(err == nil)
		h = hashU(h, unM(m)).I(m.Length())
		m2, err := maskInt(mask(l))
		b(err == nil && m == m2)
		m2, err = maskParts(mask(l))
		b(err == nil && m == m2)
		m2, err = ip.MaskFromNetIPMask(net.IPMask(bytesOf(mask(l))))
		b(err == nil && m == m2)
	}
	prefixes := func(l int) {
		m := mkM(l)
		for _, u := range addrs {
			a := mkA(u)
			h = hashU(h, unA(a)).I(a.NumBits())
			p := ip.PrefixFromAddressMask(a, m)
			for _, q := range []P{p, p.Network(), p.Host(), p.Prefix(), a.Prefix()} {
				pf(q)
			}
			if q, ok := broadcast(p); ok {
				pf(q)
			}
			h = hashU(h, unM(p.Mask()))
			x, y := prefixInts(p)
			h = hashU(hashU(h, x), y)
			rg(p.Range())
			if l < W {
				q1, q2 := p.Halves()
				pf(q1)
				pf(q2)
			}
			n, err := p.NumPrefixes(uint32(W))
			h = h.U(n)
			b(err == nil)
			n, err = p.NumPrefixes(uint32((l + W) / 2))
			h = h.U(n)
			b(err == nil)
			b(p.Contains(a))
			b(p.Contains(a.Prefix()))
			b(p.Set().Contains(p))
			set(p.Set())
			for _, want := range []int{l, (l + W + 1) / 2, W} {
				q, err := p.Set().FindAvailablePrefix(nil, uint32(want))
				pf(q)
				b(err == nil)
				q, err = p.Set().FindAvailablePrefix(a, uint32(want))
				if err == nil {
					pf(q)
				}
			}
		}
	}
	ranges := func(i int, u U) {
		v := addrs[(i+1)%len(addrs)]
		lo, hi := u, v
		if hi.Less(lo) {
			lo, hi = hi, lo
		}
		x, empty := ip.RangeFromAddresses(mkA(lo), mkA(hi))
		b(empty)
		rg(x)
		set(x.Set())
		for _, z := range x.Minus(mkK(model.MkKey(W, u, W-1)).Range()) {
			rg(z)
		}
		for _, z := range x.Plus(mkP(v, W-2).Range()) {
			rg(z)
		}
		b(x.Contains(mkA(v)))
		n, err := x.NumPrefixes(uint32(W))
		h = h.U(n)
		b(err == nil)
		a, err := ip.AddressFromSlice(bytesOf(u))
		b(err == nil && a == mkA(u))
		a, err = ip.AddressFromNetIP(stdIP(u))
		b(err == nil && a == mkA(u))
		b(addrParts(u) == mkA(u))
	}
	// sets and tables of one's own
	mkSet := func() S_ {
		s := ip.NewSet_()
		for _, u := range addrs {
			for l := 0; l <= W; l += 3 {
				s.Insert(mkP(u, W-l/4))
				if l%2 == 0 {
					s.Remove(mkP(u.Xor(u128.Bit(l%W)), W-l/8))
				}
			}
		}
		return s
	}
	sets := func() {
		s := mkSet()
		set(s.Set())
		set(s.Union(mkA(addrs[0])))
		set(s.Intersection(mkP(addrs[0], 5)))
		set(s.Difference(mkP(addrs[1], 9)))
		b(s.Equal(s))
		b(s.Set().Equal(s.Union(mkA(addrs[0]))))
		var zs S
		var zt S_
		set(zs)
		set(zt.Set())
		set(zs.Union(s))
		b(zs.Equal(s.Set()))
		b(zs.Contains(nil))
		b(zt.Contains(s))
	}
	tables := func() {
		t := ip.NewTable_[int]()
		t2 := ip.NewTableCustomCompare_[string](func(a, b string) bool { return a == b })
		for i, u := range addrs {
			for l := 0; l <= W; l += 3 {
				t.Insert(mkP(u, l), i+l)
				t.InsertOrUpdate(mkP(u, W-l/3), i)
				t.Update(mkP(u, l/2), l)
				t.GetOrInsert(mkP(u.Xor(u128.Bit(l%W)), W), 7)
				t2.InsertOrUpdate(mkP(u, l/3), "x")
			}
			t.Remove(mkP(u, 3))
		}
		tab := func(t T) {
			t.Walk(func(p P, v int) bool { pf(p); h = h.I(v); return true })
			h = h.I(int(t.NumEntries()))
			for _, u := range addrs {
				v, ok := t.Get(mkA(u))
				h = h.I(v)
				b(ok)
				v, ok, p := t.LongestMatch(mkP(u, W-1))
				h = h.I(v)
				b(ok)
				pf(p)
			}
		}
		ft := t.Table()
		tab(ft)
		tab(ft.Aggregate())
		tab(ft.Map(func(p P, v int) int { return v / 2 }))
		ft.Diff(ft.Aggregate(), nil, func(p P, v int) bool { pf(p); return true }, nil, nil)
		tab(ft.Build(func(x T_) bool { x.Remove(mkP(addrs[0], 0)); return true }))
		h = h.I(int(t2.Table().Aggregate().NumEntries()))
		var zt T
		var zt_ T_
		tab(zt)
		tab(zt_.Table())
		tab(zt.Aggregate())
		tab(zt.Map(func(p P, v int) int { return v }))
		h = h.I(int(zt_.NumEntries()))
	}
	text := func(l, kind int) {
		m := mkM(l)
		if kind == 0 {
			h = h.Str(m.String())
			b(fmt.Sprint(m.ToNetIPMask()) == fmt.Sprint(net.CIDRMask(l, W)))
			return
		}
		for _, u := range addrs {
			p := mkP(u, l)
			switch kind {
			case 1:
				h = h.Str(p.String())
			case 2:
				h = h.Str(mkA(u).String()).Str(p.Range().String())
			case 3:
				q, err := ip.PrefixFromString(prefixText(u, l))
				b(err == nil && q == p)
				_, err = ip.PrefixFromString(prefixText(u, l) + "x")
				b(err != nil)
			case 4:
				a, err := ip.AddressFromString(stringAddr(u))
				b(err == nil && a == mkA(u))
				_, err = ip.AddressFromString(stringAddr(u) + ".")
				b(err != nil)
			default:
				q, err := ip.PrefixFromNetIPNet(p.ToNetIPNet())
				b(err == nil && q == p)
				h = h.Str(mkA(u).ToNetIP().String())
			}
		}
	}
	digest = make([]uint64, coldParts)
	for _, part := range order {
		meet()
		// not all start with the same length
		from := order[(part+1)%len(order)] * W / coldParts
		step := func(f func()) {
			h = mon.NewHash()
			f()
			digest[part] += uint64(h)
		}
		switch part {
		case 2:
			for i, u := range addrs {
				step(func() { ranges(i, u) })
			}
		case 3:
			step(sets)
		case 4:
			step(tables)
		case 5:
			step(func() { h = h.Str(mkSet().Set().String()).Str(S{}.String()) })
		default:
			for i := 0; i <= W; i++ {
				l := (i + from) % (W + 1)
				step(func() {
					switch part {
					case 0:
						masks(l)
					case 1:
						prefixes(l)
					default:
						text(l, part-6)
					}
				})
			}
		}
	}
	return
}

func sameDigest(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func coldAddrs(c *C) []U {
	addrs := make([]U, 4)
	for i := range addrs {
		switch c.N(4) {
		case 0:
		case 1:
			addrs[i] = maxU.Shr(c.N(W))
		case 2:
			addrs[i] = maxU
		default:
			addrs[i] = gen.Rand(c.Rng, W)
		}
	}
	return addrs
}

// c26Order: what functions return does not depend on what was called before.
func c26Order(c *C) {
	x := coldAddrs(c)
	var first []uint64
	for i := 0; i < 3; i++ {
		order := c.Perm(coldParts)
		d := coldOps(order, x, func() {})
		c.Eval(len(d))
		for p := range first {
			if d[p] != first[p] {
				c.Failf("part %d of the functions called with %s, %s, %s, %s gives something else after calling others (parts in the order %v)", p, stringAddr(x[0]), stringAddr(x[1]), stringAddr(x[2]), stringAddr(x[3]), order)
			}
		}
		first = d
		// something similar in between
		y := append([]U(nil), x...)
		for j := range y {
			switch c.N(3) {
			case 0:
				y[j] = y[j].Xor(u128.Bit(c.N(W)))
			case 1:
				y[j] = coldAddrs(c)[0]
			}
		}
		coldOps(c.Perm(coldParts)[:c.In(1, coldParts)], y, func() {})
	}
	c.Cover(Fam + " orders of calls compared")
	c.Distinct(mon.NewHash().Str(Fam).Str("order").U(first[0]).U(first[1]).U(first[4]))
	c.Sample(func() string { return "addresses " + stringAddr(x[0]) + ", ..." })
}

func prefixText(u U, l int) string { return stringAddr(u) + "/" + strconv.Itoa(l) }

func c20Cold(c *C) {
	addrs := coldAddrs(c)
	n := c.In(2, 4)
	order := c.Perm(coldParts)
	together := c.Bool()
	var gd guard
	got := make([][]uint64, n)
	var ready int32
	for i := range got {
		i := i
		gd.run(func() {
			met := int32(0)
			meet := func() {
				if met++; met > 1 && !together {
					return
				}
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(n)*met {
					runtime.Gosched()
				}
			}
			got[i] = coldOps(order, addrs, meet)
		})
	}
	gd.wait()
	for i := range got {
		c.Eval(1)
		if !sameDigest(got[i], got[0]) {
			c.Failf("the same calls with addresses %v, %v, %v, %v in goroutines side by side gave different results", stringAddr(addrs[0]), stringAddr(addrs[1]), stringAddr(addrs[2]), stringAddr(addrs[3]))
		}
	}
	alone := coldOps(order, addrs, func() {})
	c.Eval(1)
	if !sameDigest(alone, got[0]) {
		c.Failf("the same calls with addresses %v, %v, %v, %v give different results alone than they gave beside other goroutines", stringAddr(addrs[0]), stringAddr(addrs[1]), stringAddr(addrs[2]), stringAddr(addrs[3]))
	}
	c.Cover(Fam + " functions called side by side")
	c.Sample(func() string {
		return fmt.Sprintf("%d goroutines, addresses %s, %s, ...", n, stringAddr(addrs[0]), stringAddr(addrs[1]))
	})
}

func c20Large(c *C) {
	n := c.In(4000, 9000)
	if c.Idx%2 == 1 {
		n = 1<<16 + c.In(1, 3000)
	}
	// two sets with the same hull and different pieces all over it
	base := gen.Rand(c.Rng, W).And(mask(W - 20))
	mk := func(k int) (S, MS) {
		t := ip.NewSet_()
		var ivs []Iv
		for i := 0; i < n; i++ {
			a := base.Add(u128.From(uint64(4*i + k*c.N(2))))
			ivs = append(ivs, Iv{Lo: a, Hi: a})
		}
		for _, i := range c.Perm(n) {
			t.Insert(mkA(ivs[i].Lo))
		}
		return t.Set(), model.Normalize(ivs)
	}
	sa, ma := mk(0)
	sb, mb := mk(2)
	mu, mi, md := model.Union(ma, mb), model.Intersect(ma, mb), model.Diff(W, ma, mb)
	tt1 := ip.NewTable_[int]()
	lm := tm{}
	for _, i := range c.Perm(n) {
		k := K{Addr: base.Add(u128.From(uint64(4 * i))), Len: W}
		tt1.Insert(mkK(k), i&3)
		lm[k] = ent{v: i & 3}
	}
	tab := tt1.Table()
	mutS, mutT := sa.Set_(), tab.Table_()
	var gd guard
	var subs []*C
	wc := c.Sub()
	subs = append(subs, wc)
	gd.run(func() {
		for i := 0; i < 200; i++ {
			u := base.Add(u128.From(uint64(wc.N(4 * n))))
			mutS.Insert(mkA(u))
			mutS.Remove(mkA(u.Inc()))
			mutT.InsertOrUpdate(mkA(u), 9)
			mutT.Remove(mkA(u.Inc()))
			runtime.Gosched()
		}
		mutS.Insert(sb)
		mutS.Remove(sa)
	})
	same := func(rc *C, what string, s S, m MS) {
		rc.Eval(1)
		if !content(rc, s).Equal(m) {
			rc.Failf("%s of sets of %d and %d pieces, beside other goroutines, is wrong", what, len(ma), len(mb))
		}
	}
	for r := 0; r < 3; r++ {
		rc := c.Sub()
		subs = append(subs, rc)
		gd.run(func() {
			for _, op := range rc.Perm(12) {
				rc.Cover(Fam + " reads")
				switch op {
				case 0:
					same(rc, "Union", sa.Union(sb), mu)
				case 1:
					same(rc, "Intersection", sb.Intersection(sa), mi)
				case 2:
					same(rc, "Difference", sa.Difference(sb), md)
				case 3:
					if sa.Equal(sb) != ma.Equal(mb) || !sa.Contains(sa) {
						rc.Failf("Equal or Contains of sets of %d pieces, beside other goroutines, is wrong", len(ma))
					}
				case 4:
					x := mutS.Set()
					a := content(rc, x)
					if !content(rc, x).Equal(a) || !x.Equal(x.Union(x)) {
						rc.Failf("a snapshot of a large set changed")
					}
				case 5:
					_ = sa.String()
					sa.WalkRanges(func(R) bool { return true })
					sa.NumPrefixes(uint32(W))
				case 6:
					sa.FindAvailablePrefix(sb, uint32(W))
					sa.FindAvailablePrefix(mutS, uint32(W))
				case 7:
					same(rc, "first set", sa, ma)
					y := sa.Set_()
					y.Insert(sb)
					y.Remove(sa)
					same(rc, "Insert and Remove", y.Set(), model.Diff(W, mb, ma))
				case 8:
					checkWalk(rc, "large table", tab, lm)
				case 9:
					x := mutT.Table()
					m := decode(rc, "snapshot", x)
					checkWalk(rc, "large snapshot", x, m)
					if x.NumEntries() != int64(len(m)) {
						rc.Failf("a large snapshot has %d entries and walks %d", x.NumEntries(), len(m))
					}
				case 10:
					x := tab.Map(func(_ P, v int) int { return v + 1 })
					x.Aggregate().NumEntries()
					tab.Aggregate().NumEntries()
					k := 0
					tab.Diff(x, func(P, int, int) bool { k++; return true }, nil, nil, nil)
					if k != len(lm) {
						rc.Failf("the diff with a large mapped table has %d changes of %d", k, len(lm))
					}
				default:
					for i := 0; i < 200; i++ {
						k := K{Addr: base.Add(u128.From(uint64(rc.N(4 * n)))), Len: W}
						checkMatch(rc, "large table", tab, tab.Table_(), lm, k)
						mutT.Get(mkK(k))
						mutS.Contains(mkK(k))
					}
				}
			}
		})
	}
	gd.wait()
	c.Join(subs...)
	same(c, "first set", sa, ma)
	same(c, "second set", sb, mb)
	checkWalk(c, "large table", tab, lm)
	c.Cover(Fam + " large values used side by side")
	c.Cover(Fam + " race-free cases")
	c.Sample(func() string { return fmt.Sprintf("%d pieces", n) })
}
