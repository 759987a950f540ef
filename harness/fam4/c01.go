package fam4

import (
	"fmt"
	"math/big"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C01"] = "cases: all pairs of subsets of 8-block universes at 8 anchors per family (bottom, top, whole space, straddling the middle / word boundary ...); random operation histories over pools of sets; large sets. Oracle: interval-set model, compared address for address. Non-trivial: distinct (operation, operand content, operand content) with a non-empty operand."
	reg("C01", "pairs", 8*256, 8*256, c01Pairs)
	reg("C01", "history", 1500, 40000, c01History)
	reg("C01", "large", 48, 600, c01Large)
	mon.Need["C01"] = append(mon.Need["C01"], Fam+" top of space", Fam+" bottom of space", Fam+" whole space", Fam+" histories")
}

// gridSet is the subset of a 3-bit universe given by bits.
func gridSet(g *gen.G, bits int) MS {
	var ivs []Iv
	for x := 0; x < 1<<uint(g.K); x++ {
		if bits>>uint(x)&1 == 1 {
			ivs = append(ivs, g.Block(x, x))
		}
	}
	return model.Normalize(ivs)
}

func wantSet(c *C, what string, got S, want MS) {
	c.Eval(1)
	if m := content(c, got); !m.Equal(want) {
		c.Failf("%s: got %s, want %s", what, showSet(m), showSet(want))
	}
}

func wantBool(c *C, what string, got, want bool) {
	c.Eval(1)
	if got != want {
		c.Failf("%s: got %v, want %v", what, got, want)
	}
}

func wantNum(c *C, what string, s S, m MS) {
	if n, ok := setNumAddresses(s); ok {
		c.Eval(1)
		if want := m.Size(); !want.IsInt64() || want.Int64() != n {
			c.Failf("%s: NumAddresses: got %d, want %v", what, n, want)
		}
	}
}

// checkPred compares what a set says about itself with its content.
func checkPred(c *C, what string, s S, m MS) {
	wantBool(c, what+": IsEmpty", s.IsEmpty(), len(m) == 0)
	wantBool(c, what+": Set_().IsEmpty", s.Set_().IsEmpty(), len(m) == 0)
	wantNum(c, what, s, m)
	if n, ok := msetNumAddresses(s.Set_()); ok {
		if want := m.Size(); want.Cmp(big.NewInt(n)) != 0 {
			c.Failf("%s: Set_.NumAddresses: got %d, want %v", what, n, want)
		}
	}
}

func checkPair(c *C, sa S, ma MS, sb S, mb MS) {
	what := func(op string) string { return fmt.Sprintf("a=%s b=%s: %s", showSet(ma), showSet(mb), op) }
	fail := func(op string, got S, want MS) {
		c.Eval(1)
		if m := content(c, got); !m.Equal(want) {
			c.Failf("%s: got %s, want %s", what(op), showSet(m), showSet(want))
		}
	}
	u, n, d := model.Union(ma, mb), model.Intersect(ma, mb), model.Diff(W, ma, mb)
	fail("a.Union(b)", sa.Union(sb), u)
	fail("a.Intersection(b)", sa.Intersection(sb), n)
	fail("a.Difference(b)", sa.Difference(sb), d)
	c.Eval(6)
	if g := sa.Equal(sb); g != ma.Equal(mb) {
		c.Failf("%s: %v", what("a.Equal(b)"), g)
	}
	if g := sa.Contains(sb); g != ma.Covers(W, mb) {
		c.Failf("%s: %v", what("a.Contains(b)"), g)
	}
	ta, tb := sa.Set_(), sb.Set_()
	if g := ta.Equal(tb); g != ma.Equal(mb) {
		c.Failf("%s: %v", what("a_.Equal(b_)"), g)
	}
	if g := ta.Contains(tb); g != ma.Covers(W, mb) {
		c.Failf("%s: %v", what("a_.Contains(b_)"), g)
	}
	switch c.N(3) {
	case 0:
		fail("a_.Union(b)", ta.Union(sb), u)
	case 1:
		fail("a_.Intersection(b_)", ta.Intersection(tb), n)
	case 2:
		fail("a_.Difference(b)", ta.Difference(sb), d)
	}
	ta.Insert(sb)
	fail("a_.Insert(b)", ta.Set(), u)
	ta = sa.Set_()
	ta.Remove(tb)
	fail("a_.Remove(b)", ta.Set(), d)
	if g := ta.IsEmpty(); g != (len(d) == 0) {
		c.Failf("%s: %v", what("IsEmpty after a_.Remove(b)"), g)
	}
	if g, ok := msetNumAddresses(ta); ok && d.Size().Cmp(big.NewInt(g)) != 0 {
		c.Failf("%s: %v", what("NumAddresses after a_.Remove(b)"), g)
	}
	if g, ok := setNumAddresses(sa.Union(sb)); ok && u.Size().Cmp(big.NewInt(g)) != 0 {
		c.Failf("%s: %v", what("NumAddresses of a.Union(b)"), g)
	}
	if !sa.Union(sb).Equal(sb.Union(sa)) {
		c.Failf("%s", what("a.Union(b) is not Equal to b.Union(a)"))
	}
}

func c01Pairs(c *C) {
	as := gen.Anchors(W, 3)
	g := as[c.Idx/256]
	ma := gridSet(g, c.Idx%256)
	sa := build(c, ma)
	wantSet(c, "construction", sa, ma)
	checkPred(c, showSet(ma), sa, ma)
	for b := 0; b < 256; b++ {
		mb := gridSet(g, b)
		sb := build(c, mb)
		checkPair(c, sa, ma, sb, mb)
		if len(ma)+len(mb) > 0 {
			c.Distinct(hashSet(hashSet(mon.NewHash().Str(Fam), ma), mb))
		}
	}
	// address for address
	var ivs []Iv
	for x := 0; x < 8; x++ {
		ivs = append(ivs, g.Block(x, x))
	}
	for _, u := range gen.Edges(W, ivs) {
		c.Eval(1)
		if sa.Contains(mkA(u)) != ma.Has(u) || sa.Set_().Contains(mkA(u)) != ma.Has(u) {
			c.Failf("%s: Contains(%s): want %v", showSet(ma), stringAddr(u), ma.Has(u))
		}
	}
	coverEnds(c, ma)
	c.Sample(func() string { return fmt.Sprintf("%v: a=%s against all 256 b", g, showSet(ma)) })
}

func coverEnds(c *C, m MS) {
	if m.Has(U{}) {
		c.Cover(Fam + " bottom of space")
	}
	if m.Has(maxU) {
		c.Cover(Fam + " top of space")
	}
	if len(m) == 1 && m[0].Lo.IsZero() && m[0].Hi == maxU {
		c.Cover(Fam + " whole space")
	}
}

func probe(c *C, what string, s S, m MS, ivs []Iv, max int) {
	es := gen.Edges(W, ivs)
	for n := 0; n < max && n < len(es); n++ {
		u := es[c.N(len(es))]
		c.Eval(1)
		if got := s.Contains(mkA(u)); got != m.Has(u) {
			c.Failf("%s: %s.Contains(%s) = %v", what, showSet(m), stringAddr(u), got)
		}
	}
}

func c01History(c *C) {
	g := gen.New(c.Rng, W)
	const N = 4
	var mut [N]S_
	var mm [N]MS
	var fix [N]S
	var fm [N]MS
	for i := range mut {
		mut[i] = ip.NewSet_()
	}
	pool := func() (S, MS) {
		i := c.N(2 * N)
		if i < N {
			return mut[i].Set(), mm[i]
		}
		return fix[i-N], fm[i-N]
	}
	ops := c.In(20, 120)
	c.Op("universe %v", g)
	for o := 0; o < ops; o++ {
		i := c.N(N)
		arg, am, desc := operand(c, g, pool)
		before := mm[i]
		var what string
		switch c.N(7) {
		case 0, 1:
			what = "Insert"
			mut[i].Insert(arg)
			mm[i] = model.Union(mm[i], am)
		case 2:
			what = "Remove"
			mut[i].Remove(arg)
			mm[i] = model.Diff(W, mm[i], am)
		case 3:
			what = "Union"
			fix[i] = mut[i].Union(arg)
			fm[i] = model.Union(mm[i], am)
		case 4:
			what = "Intersection"
			fix[i] = mut[i].Set().Intersection(arg)
			fm[i] = model.Intersect(mm[i], am)
		case 5:
			what = "Difference"
			fix[i] = mut[i].Difference(arg)
			fm[i] = model.Diff(W, mm[i], am)
		case 6:
			what = "arg.Set()"
			fix[i] = arg.Set()
			fm[i] = am
		}
		if c.P(1, 10) {
			mut[i] = fix[i].Set_()
			mm[i] = fm[i]
			what += ", then Set_()"
		}
		c.Op("%d: %s %s, was %s", i, what, desc, showSet(before))
		w := what + " " + desc + " on " + showSet(before)
		wantSet(c, w, mut[i].Set(), mm[i])
		wantSet(c, w, fix[i], fm[i])
		checkPred(c, w, mut[i].Set(), mm[i])
		checkPred(c, w, fix[i], fm[i])
		// questions about the argument
		c.Eval(4)
		if got := mut[i].Contains(arg); got != mm[i].Covers(W, am) {
			c.Failf("%s.Contains(%s) = %v", showSet(mm[i]), desc, got)
		}
		if got := fix[i].Contains(arg); got != fm[i].Covers(W, am) {
			c.Failf("%s.Contains(%s) = %v", showSet(fm[i]), desc, got)
		}
		if got := fix[i].Equal(mut[i].Set()); got != fm[i].Equal(mm[i]) {
			c.Failf("%s Equal %s = %v", showSet(fm[i]), showSet(mm[i]), got)
		}
		j := c.N(N)
		if got := mut[i].Equal(mut[j]); got != mm[i].Equal(mm[j]) {
			c.Failf("Set_ %s Equal %s = %v", showSet(mm[i]), showSet(mm[j]), got)
		}
		probe(c, w, mut[i].Set(), mm[i], append(append([]Iv(nil), mm[i]...), am...), 4)
		probe(c, w, fix[i], fm[i], append(append([]Iv(nil), fm[i]...), am...), 4)
		lo, hi := g.Range()
		c.Eval(1)
		if got := mut[i].Contains(mkR(lo, hi)); got != mm[i].Covers(W, model.One(lo, hi)) {
			c.Failf("%s.Contains(range %s-%s) = %v", showSet(mm[i]), stringAddr(lo), stringAddr(hi), got)
		}
		c.Distinct(hashSet(hashSet(mon.NewHash().Str(Fam+what), before), am))
		coverEnds(c, mm[i])
	}
	c.Cover(Fam + " histories")
	c.Cover(Fam + " history " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v, %d ops, ends with %s", g, ops, showSet(mm[0])) })
}

// largeSet draws a set of thousands of pieces.
func largeSet(c *C, n int) MS {
	var ivs []Iv
	base := gen.Rand(c.Rng, W)
	span := c.In(14, W)
	for i := 0; i < n; i++ {
		a := base.Xor(gen.Rand(c.Rng, W).And(u128.Ones(span)))
		l := W - c.N(span/2)
		if c.P(1, 3) {
			l = W
		}
		ivs = append(ivs, model.MkKey(W, a, l).Iv(W))
	}
	return model.Normalize(ivs)
}

func c01Large(c *C) {
	n := 1 << uint(c.In(6, 12))
	ma, mb := largeSet(c, n), largeSet(c, n)
	if c.Bool() { // overlapping
		mb = model.Union(mb, ma[len(ma)/3:])
		mb = model.Diff(W, mb, ma[:len(ma)/9])
	}
	sa, sb := S{}, S{}
	for _, i := range c.Perm(len(ma)) {
		sa = sa.Union(mkR(ma[i].Lo, ma[i].Hi))
	}
	tb := ip.NewSet_()
	for _, i := range c.Perm(len(mb)) {
		tb.Insert(mkR(mb[i].Lo, mb[i].Hi))
	}
	sb = tb.Set()
	wantSet(c, "construction", sa, ma)
	wantSet(c, "construction", sb, mb)
	checkPair(c, sa, ma, sb, mb)
	checkPair(c, sb, mb, sa, ma)
	probe(c, "large", sa, ma, append(append([]Iv(nil), ma...), mb...), 300)
	c.Distinct(hashSet(hashSet(mon.NewHash().Str(Fam), ma), mb))
	c.CoverN(Fam+" large pieces", len(ma))
	c.Sample(func() string { return fmt.Sprintf("%d and %d pieces", len(ma), len(mb)) })
}
