package fam4

import (
	"fmt"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

// Deep tables and sets: chains of prefixes of every length towards one
// address, with subtrees hanging off at every depth. Nothing else in the
// workloads gets tries as deep as the address is wide.

func init() {
	reg("C02", "ladder", 300, 8000, c02Ladder)
	for _, p := range []string{"C10", "C11", "C12", "C13", "C15", "C16"} {
		p := p
		mon.Rules[p] += " Also: ladders (entries at every depth of the trie, with siblings), and 16 value types including interfaces, pointers and slices with nil values."
		reg(p, "ladder", 120, 4000, func(c *C) { ladder(c, p) })
		reg(p, "types", 640, 16000, func(c *C) { c19For(c, p) })
		mon.Need[p] = append(mon.Need[p], Fam+" full ladder", Fam+" ladder", Fam+" type any", Fam+" type []int", Fam+" type *int")
	}
}

// ladderTable makes a table with entries at (nearly) every depth.
func ladderTable(c *C, nv int) *tt {
	u := gen.Rand(c.Rng, W)
	switch c.N(6) {
	case 0:
		u = U{}
	case 1:
		u = maxU
	case 2:
		u = maxU.Shr(c.N(W + 1))
	}
	t := newTT(&gen.G{R: c.Rng, W: W, Kind: "focal", Focal: u}, nv)
	chain, sib := c.N(3), c.N(4)
	var ks []K
	for l := 0; l <= W; l++ {
		if chain == 0 || chain == 1 && c.P(7, 8) || chain == 2 && c.Bool() {
			ks = append(ks, mkKey(u, l))
		}
		if l == 0 {
			continue
		}
		s := u.Xor(u128.Bit(W - l))
		switch {
		case sib == 0 || sib == 1 && c.Bool():
			ks = append(ks, mkKey(s, l))
		case sib == 2: // beneath the sibling
			ks = append(ks, mkKey(s.Xor(gen.Rand(c.Rng, W).And(mask(l).Not())).And(maxU), c.In(l, W)))
		}
	}
	same := c.P(1, 4)
	for _, i := range c.Perm(len(ks)) {
		v := c.N(nv)
		if same {
			v = 0
		}
		if !t.t.Insert(mkK(ks[i]), v) {
			if _, ok := t.m[ks[i]]; !ok {
				c.Failf("inserting %s into %s returned false", pstr(ks[i].Addr, ks[i].Len), showTM(t.m))
			}
			continue
		}
		t.m[ks[i]] = ent{v: v}
		t.note(ks[i])
	}
	if chain == 0 && sib == 0 {
		c.Cover(Fam + " full ladder")
	}
	c.Cover(Fam + " ladder")
	return t
}

func ladder(c *C, prop string) {
	nv := c.In(1, 4)
	t := ladderTable(c, nv)
	tab, m := t.t.Table(), t.m.Clone()
	x := t.clone()
	change := func(n int) {
		for i := 0; i < n; i++ {
			x.step(c)
		}
	}
	switch prop {
	case "C10":
		checkGets(c, "ladder", tab, m)
		for _, i := range c.Perm(len(t.keys)) {
			if c.P(1, 3) {
				x.op(c, c.N(8), t.keys[i], c.N(nv))
			}
		}
		checkGets(c, "ladder changed", x.t.Table(), x.m)
		checkWalk(c, "ladder changed", x.t.Table(), x.m)
		checkGets(c, "ladder", tab, m)
	case "C11":
		searchAll(c, "ladder", t)
		change(20)
		searchAll(c, "ladder changed", x)
	case "C12":
		stopWalks(c, "ladder", tab, m)
		for at := 1; at <= len(m); at += c.In(1, 4) {
			n := 0
			if tab.Walk(func(P, int) bool { n++; return n < at }) || n != at {
				c.Failf("Walk of %s stopped in call %d made %d", showTM(m), at, n)
			}
		}
		change(20)
		stopWalks(c, "ladder changed", x.t.Table(), x.m)
	case "C13":
		change(c.N(30))
		xt := x.t.Table()
		fullDiff(c, "ladder, changed", tab, xt, m, x.m, eqInt)
		fullDiff(c, "changed, ladder", xt, tab, x.m, m, eqInt)
		other := ladderTable(c, nv)
		fullDiff(c, "ladders", tab, other.t.Table(), m, other.m, eqInt)
		all := diffModel(m, x.m, eqInt)
		for s := 1; s <= len(all); s += c.In(1, 8) {
			checkDiff(c, "ladder, changed", tab, xt, m, x.m, all, 15, s)
		}
	case "C15":
		agg, am := checkAggregate(c, "ladder", tab, m, eqInt)
		checkWalk(c, "ladder", tab, m)
		change(20)
		checkAggregate(c, "ladder changed", x.t.Table(), x.m, eqInt)
		if !exactTM(decode(c, "aggregated", agg), am) {
			c.Failf("aggregated ladder changed")
		}
	case "C16":
		fn, f := mapFn(c)
		ks := m.Keys()
		i := 0
		out := tab.Map(func(p P, v int) int {
			if i >= len(ks) || keyOf(p) != ks[i] || v != m[ks[i]].v {
				c.Failf("call %d of the mapper is for %v:%d; table %s", i, p, v, showTM(m))
			}
			i++
			return f(ks[i-1], v)
		})
		if i != len(ks) {
			c.Failf("mapper called for %d of %d entries of %s", i, len(ks), showTM(m))
		}
		om := m.Clone()
		for k, e := range om {
			om[k] = ent{f(k, e.v), e.forms}
		}
		checkWalk(c, "ladder mapped", out, om)
		checkGets(c, "ladder mapped", out, om)
		checkWalk(c, "ladder", tab, m)
		useAfter(c, "ladder mapped", out, om, t.g, eqInt, tab, m, nv)
		c.Cover(fmt.Sprintf("%s function %d", Fam, fn))
	}
	checkWalk(c, "ladder", tab, m)
	c.Distinct(hashTM(mon.NewHash().Str(Fam).Str("ladder"), m))
	c.Sample(func() string { return "ladder " + showTM(m) })
}

// ladderSet is a set with prefixes of (nearly) every length: those which leave
// the path to one address at some of the bits.
func ladderSet(g *gen.G) MS {
	r := g.R
	u := g.Addr()
	if r.Bool() {
		u = gen.Rand(r, W)
	}
	den := r.In(1, 3)
	var ivs []Iv
	for l := 1; l <= W; l++ {
		if r.N(den) > 0 || den == 1 && l != W {
			continue
		}
		k := mkKey(u.Xor(u128.Bit(W-l)), l)
		if r.P(1, 4) { // beneath it
			k = mkKey(k.Addr.Or(gen.Rand(r, W).And(mask(l).Not())).And(maxU), r.In(l, W))
		}
		ivs = append(ivs, k.Iv(W))
	}
	if r.Bool() {
		ivs = append(ivs, Iv{Lo: u, Hi: u})
	}
	return model.Normalize(ivs)
}

func c02Ladder(c *C) {
	g := gen.New(c.Rng, W)
	m := ladderSet(g)
	var first S
	for i := 0; i < 3; i++ {
		s := build(c, m)
		canonical(c, "ladder", s, m)
		checkMem(c, "ladder", s, s.Set_(), m)
		if i == 0 {
			canonicalString(c, "ladder", s, m)
			first = s
		} else if !s.Equal(first) || !first.Equal(s) {
			c.Failf("sets with the same addresses %s built in different ways are not Equal", showSet(m))
		}
	}
	// fill it from the deepest to the highest gap and back
	t := first.Set_()
	for _, v := range model.Complement(W, m) {
		t.Insert(mkR(v.Lo, v.Hi))
	}
	canonical(c, "filled ladder", t.Set(), model.One(U{}, maxU))
	checkMem(c, "filled ladder", t.Set(), t, model.One(U{}, maxU))
	m2 := ladderSet(g)
	s2 := build(c, m2)
	canonical(c, "union of ladders", first.Union(s2), model.Union(m, m2))
	canonical(c, "intersection of ladders", first.Intersection(s2), model.Intersect(m, m2))
	canonical(c, "difference of ladders", first.Difference(s2), model.Diff(W, m, m2))
	canonical(c, "difference of ladders", s2.Difference(first), model.Diff(W, m2, m))
	for _, v := range m {
		t.Remove(mkR(v.Lo, v.Hi))
	}
	canonical(c, "complement of ladder", t.Set(), model.Complement(W, m))
	if len(m) > 0 {
		c.Distinct(hashSet(mon.NewHash().Str(Fam), m))
	}
	c.Cover(Fam + " equal sets built differently")
	c.Sample(func() string { return "ladder " + showSet(m) })
}
