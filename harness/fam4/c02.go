package fam4

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C02"] = "cases: every subset of 16-block universes at 8 anchors per family built in several ways; random histories with a canonical-form check after every step; growth and shrink churn with heap measurements. Oracle: the minimal prefix cover computed from intervals. Non-trivial: distinct set contents with at least one address."
	reg("C02", "shapes", 8*512, 8*8192, c02Shapes)
	reg("C02", "history", 1200, 30000, c02History)
	reg("C02", "churn", 24, 200, c02Churn)
	reg("C02", "heap", 4, 12, c02Heap).Serial = true
	mon.Need["C02"] = append(mon.Need["C02"], Fam+" equal sets built differently", Fam+" shrunk sets measured", Fam+" heap measured")
}

// canonical checks that a set reports exactly the minimal cover.
func canonical(c *C, what string, s S, m MS) {
	want := m.Cover(W)
	got := walk(c, s, len(want)+8)
	c.Eval(1)
	bad := len(got) != len(want)
	for i := range got {
		bad = bad || got[i].A != want[i].Addr || got[i].L != want[i].Len
	}
	if bad {
		c.Failf("%s: content %s: WalkPrefixes gives %v, the minimal list is %s", what, showSet(m), got, showKeys(want))
	}
}

func canonicalString(c *C, what string, s S, m MS) {
	var ss []string
	for _, k := range m.Cover(W) {
		ss = append(ss, pstr(k.Addr, k.Len))
	}
	want := "[" + strings.Join(ss, ", ") + "]"
	c.Eval(1)
	if got := s.String(); got != want {
		c.Failf("%s: String is %q, want %q", what, got, want)
	}
}

// memBound: bytes which a set of n prefixes may hold.
func memBound(n int) uintptr { return uintptr(1024 * (n + 1)) }

func checkMem(c *C, what string, s S, t S_, m MS) {
	n := len(m.Cover(W))
	c.Eval(1)
	if _, b := mem.Reach(&s); b > memBound(n) {
		c.Failf("%s: a set with %d prefixes holds %d bytes", what, n, b)
	}
	if _, b := mem.Reach(&t); b > memBound(n) {
		c.Failf("%s: a Set_ with %d prefixes holds %d bytes", what, n, b)
	}
}

func c02Shapes(c *C) {
	as := gen.Anchors(W, 4)
	g := as[c.Idx%8]
	bits := c.Idx / 8
	if !c.Thorough() {
		bits = c.N(1 << 16) // a sample; thorough covers more of them
		if c.Idx/8 < 256 {
			bits = c.Idx / 8 * 257 // symmetric ones
		}
	} else {
		bits = bits * 8 % (1 << 16)
		bits += c.N(8)
	}
	m := gridSet(g, bits)
	if c.P(1, 4) {
		// knock single addresses out of, or onto, it
		g2 := *g
		g2.R, g2.Jitter = c.Rng, true
		u := g2.Addr()
		if c.Bool() {
			m = model.Diff(W, m, model.One(u, u))
		} else {
			m = model.Union(m, model.One(u, u))
		}
	}
	var first S
	for i := 0; i < 4; i++ {
		s := build(c, m)
		what := fmt.Sprintf("built in way %d", i)
		canonical(c, what, s, m)
		canonicalString(c, what, s, m)
		checkMem(c, what, s, s.Set_(), m)
		if i == 0 {
			first = s
		} else if !first.Equal(s) || !s.Equal(first) || !s.Set_().Equal(first.Set_()) {
			c.Failf("sets with the same addresses %s built in different ways are not Equal", showSet(m))
		} else if first.String() != s.String() {
			c.Failf("sets with the same addresses %s print differently: %s and %s", showSet(m), first, s)
		}
		c.Cover(Fam + " equal sets built differently")
	}
	if len(m) > 0 {
		c.Distinct(hashSet(mon.NewHash().Str(Fam), m))
	}
	c.Sample(func() string { return fmt.Sprintf("%v: %s", g, showSet(m)) })
}

func c02History(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("universe %v", g)
	a, b := ip.NewSet_(), ip.NewSet_()
	var ma, mb MS
	var last S
	var lastM MS
	pool := func() (S, MS) {
		if c.Bool() {
			return last, lastM
		}
		return b.Set(), mb
	}
	for o := c.In(20, 150); o > 0; o-- {
		arg, am, desc := operand(c, g, pool)
		before := ma
		op := c.N(8)
		switch op {
		case 0, 1:
			a.Insert(arg)
			ma = model.Union(ma, am)
		case 2:
			a.Remove(arg)
			ma = model.Diff(W, ma, am)
		case 3:
			last, lastM = a.Union(arg), model.Union(ma, am)
		case 4:
			last, lastM = a.Intersection(arg), model.Intersect(ma, am)
		case 5:
			last, lastM = a.Difference(arg), model.Diff(W, ma, am)
		case 6:
			last, lastM = arg.Set().Difference(a), model.Diff(W, am, ma)
		case 7:
			last, lastM = arg.Set(), am
		}
		what := fmt.Sprintf("op %d with %s on %s", op, desc, showSet(before))
		c.Op("%s", what)
		canonical(c, what, a.Set(), ma)
		canonical(c, what, last, lastM)
		if o%8 == 0 {
			canonicalString(c, what, last, lastM)
			checkMem(c, what, last, last.Set_(), lastM)
		}
		if n := len(ma.Cover(W)); true {
			if _, by := mem.Reach(&a); by > memBound(n) {
				c.Failf("%s: a Set_ with %d prefixes holds %d bytes", what, n, by)
			}
		}
		// rebuilt from scratch it is indistinguishable
		if o%10 == 0 {
			r := build(c, ma)
			c.Cover(Fam + " equal sets built differently")
			if !r.Equal(a.Set()) || !a.Equal(r.Set_()) || r.String() != a.Set().String() {
				c.Failf("%s: not Equal to the same content %s built afresh", what, showSet(ma))
			}
		}
		if c.P(1, 12) {
			a, b, ma, mb = b, a, mb, ma
		}
		if len(lastM) > 0 {
			c.Distinct(hashSet(mon.NewHash().Str(Fam), lastM))
		}
		if len(ma) > 0 {
			c.Distinct(hashSet(mon.NewHash().Str(Fam), ma))
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%v ends with %s", g, showSet(ma)) })
}

// c02Churn grows a set by many pieces and shrinks it again.
func c02Churn(c *C) {
	n := c.In(200, 3000)
	m := largeSet(c, n)
	s := ip.NewSet_()
	for _, i := range c.Perm(len(m)) {
		s.Insert(mkR(m[i].Lo, m[i].Hi))
	}
	canonical(c, "grown", s.Set(), m)
	checkMem(c, "grown", s.Set(), s, m)
	c.Distinct(hashSet(mon.NewHash().Str(Fam), m))
	var left MS
	switch c.N(3) {
	case 0: // remove one by one
		keep := c.N(len(m))
		for _, i := range c.Perm(len(m)) {
			if i == keep {
				left = model.Union(left, MS{m[i]})
				continue
			}
			s.Remove(mkR(m[i].Lo, m[i].Hi))
		}
		c.Cover(Fam + " shrunk one by one")
	case 1: // fill the gaps until few prefixes are left
		s.Insert(mkR(m[0].Lo, m[len(m)-1].Hi))
		left = model.One(m[0].Lo, m[len(m)-1].Hi)
		c.Cover(Fam + " shrunk by filling gaps")
	case 2: // intersect
		g := gen.New(c.Rng, W)
		small := randSet(g, 3)
		if c.Bool() {
			small = model.Union(small, m[:2:2])
		}
		left = model.Intersect(m, small)
		s = s.Intersection(build(c, small)).Set_()
		c.Cover(Fam + " shrunk by intersection")
	}
	canonical(c, "shrunk", s.Set(), left)
	checkMem(c, "shrunk", s.Set(), s, left)
	c.Cover(Fam + " shrunk sets measured")
	// back to nothing
	s.Remove(left2set(left))
	canonical(c, "emptied", s.Set(), nil)
	checkMem(c, "emptied", s.Set(), s, nil)
	c.Sample(func() string { return fmt.Sprintf("%d pieces shrunk to %d", len(m), len(left)) })
}

func left2set(m MS) S {
	s := S{}
	for _, v := range m {
		s = s.Union(mkR(v.Lo, v.Hi))
	}
	return s
}

// c02Heap measures what the collector says is alive.
func c02Heap(c *C) {
	const sets = 16
	var keep [sets]S_
	var n int
	h0 := mem.Heap()
	for i := range keep {
		s := ip.NewSet_()
		base := gen.Rand(c.Rng, W)
		for j := 0; j < 4000; j++ {
			s.Insert(mkP(base.Xor(gen.Rand(c.Rng, W).And(u128.Ones(20))), c.In(W-12, W)))
			if j%3 == 0 {
				s.Remove(mkP(base.Xor(gen.Rand(c.Rng, W).And(u128.Ones(20))), c.In(W-16, W-4)))
			}
		}
		switch c.Idx % 4 {
		case 0: // one prefix left
			s.Insert(mkP(base, W-20))
			s = s.Intersection(mkP(base, W-20)).Set_()
		case 1: // nothing left, removed range by range
			s.Set().WalkRanges(func(r R) bool { s.Remove(r); return true })
		case 2: // in place: everything in it, then out
			s.Insert(mkP(base, W-20))
			s.Remove(mkP(base, W-19))
			s.Insert(mkA(base))
		}
		keep[i] = s
		ps := 0
		s.Set().WalkPrefixes(func(P) bool { ps++; return true })
		n += ps
	}
	h1 := mem.Heap()
	c.Eval(1)
	c.Cover(Fam + " heap measured")
	c.Distinct(mon.NewHash().Str(Fam).I(n).I(c.Idx))
	if h1 > h0 && h1-h0 > 1024*uint64(n+sets)+1<<18 {
		c.Failf("%d sets with %d prefixes in total keep %d bytes of heap alive", sets, n, h1-h0)
	}
	c.Op("%d prefixes %d bytes", n, h1-h0)
	c.Sample(func() string { return fmt.Sprintf("%d sets, %d prefixes, %d bytes", sets, n, int64(h1)-int64(h0)) })
	for i := range keep { // keeps them alive until here
		if keep[i].Set().IsEmpty() && n < 0 {
			c.Failf("impossible")
		}
	}
}
