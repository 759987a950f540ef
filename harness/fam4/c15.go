package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C15"] = "cases: tables of few distinct values reached by random histories; all assignments of absent or one of 3 values to the 7 prefixes of a 4-address block at hostile places, in random insertion orders and with removals; random ones over 15 and 31 prefixes; mapped tables; default and coarser comparisons. Oracle: longest match of the model at the first and last address of every interval the keys of both tables cut the space into; the two documented reductions; sizes; content of the original before and after. Non-trivial: distinct tables with at least one entry."
	reg("C15", "small", 64*6, 64*6*8, c15Small)
	reg("C15", "block", 2500, 60000, c15Block)
	reg("C15", "history", 1500, 40000, c15History)
	mon.Need["C15"] = append(mon.Need["C15"], Fam+" shrunk", Fam+" not shrunk", Fam+" merged halves", Fam+" dropped contained", Fam+" custom comparison", Fam+" aggregated again", Fam+" modified after")

	mon.Rules["C16"] = "cases: tables reached by random histories and subsets of a block, mapped by identity, constant, injective, prefix-dependent and partial functions, with default and coarser comparisons, repeatedly. Oracle: the recorded calls of the mapper are the sorted entries of the model; the result holds the results. Non-trivial: distinct non-empty (table content, function)."
	reg("C16", "history", 2500, 60000, c16History)
	mon.Need["C16"] = append(mon.Need["C16"], Fam+" function 0", Fam+" function 1", Fam+" function 2", Fam+" function 3", Fam+" function 4", Fam+" custom comparison", Fam+" intermediate nodes likely", Fam+" modified after")
}

// decode reads a table into a model, with exact values and forms.
func decode(c *C, what string, t T) tm {
	m := tm{}
	var last K
	first := true
	t.Walk(func(p P, v int) bool {
		k := keyOf(p)
		if !first && !last.Less(k) {
			c.Failf("%s: walk reports %v after %s", what, p, pstr(last.Addr, last.Len))
		}
		first, last = false, k
		a, _ := unP(p)
		m[k] = ent{v, []U{a}}
		return true
	})
	return m
}

func exactTM(a, b tm) bool {
	if len(a) != len(b) {
		return false
	}
	for k, e := range a {
		if f, ok := b[k]; !ok || e.v != f.v {
			return false
		}
	}
	return true
}

// sameLookups compares host lookups of a table with those of a model.
func sameLookups(c *C, what string, orig tm, t T, got tm, eq eqFn) {
	pts := elementary(orig)
	pts = append(pts, elementary(got)...)
	if len(pts) > 400 {
		for i := 0; i < 400; i++ {
			j := i + c.N(len(pts)-i)
			pts[i], pts[j] = pts[j], pts[i]
		}
		pts = pts[:400]
	}
	one := func(u U) {
		_, e, has := orig.Match(W, K{Addr: u, Len: W})
		v, ok, p := t.LongestMatch(mkA(u))
		c.Eval(1)
		if ok != has || ok && !eq(v, e.v) {
			c.Failf("%s: longest match of %s in the result is %d, %v (%v), in the original %d, %v; original %s, result %s",
				what, stringAddr(u), v, ok, p, e.v, has, showTM(orig), showTM(got))
		}
	}
	for _, u := range pts {
		one(u)
		one(u.Dec().And(maxU))
	}
	for i := 0; i < 3; i++ {
		one(gen.Rand(c.Rng, W))
	}
}

// checkAggregate aggregates a table with content m and returns the result.
func checkAggregate(c *C, what string, t T, m tm, eq eqFn) (T, tm) {
	agg := t.Aggregate()
	am := decode(c, what, agg)
	c.Eval(4)
	if int64(len(am)) != agg.NumEntries() {
		c.Failf("%s: NumEntries of the result is %d, but it walks %d entries: %s", what, agg.NumEntries(), len(am), showTM(am))
	}
	if len(am) > len(m) {
		c.Failf("%s: aggregating %s gives more entries: %s", what, showTM(m), showTM(am))
	}
	sameLookups(c, what, m, agg, am, eq)
	for k, e := range am {
		if k.Len > 0 {
			pk, pe, ok := am.Match(W, model.MkKey(W, k.Addr, k.Len-1))
			if ok && eq(pe.v, e.v) {
				c.Failf("%s: aggregating %s gives %s, where %s is redundant beneath %s", what, showTM(m), showTM(am), pstr(k.Addr, k.Len), pstr(pk.Addr, pk.Len))
			}
			sk := model.MkKey(W, k.Addr.Xor(u128.Bit(W-k.Len)), k.Len)
			if se, ok := am[sk]; ok && eq(se.v, e.v) {
				c.Failf("%s: aggregating %s gives %s, where %s and %s can be merged", what, showTM(m), showTM(am), pstr(k.Addr, k.Len), pstr(sk.Addr, sk.Len))
			}
		}
		if _, ok := m[k]; !ok {
			c.Cover(Fam + " merged halves")
		}
	}
	if len(am) < len(m) {
		c.Cover(Fam + " shrunk")
		for k := range m {
			if _, ok := am[k]; !ok && k.Len > 0 {
				if _, _, ok := m.Match(W, model.MkKey(W, k.Addr, k.Len-1)); ok {
					c.Cover(Fam + " dropped contained")
					break
				}
			}
		}
	} else {
		c.Cover(Fam + " not shrunk")
	}
	if len(m) > 0 {
		c.Distinct(hashTM(mon.NewHash().Str(Fam), m))
	}
	// again
	agg2 := agg.Aggregate()
	am2 := decode(c, what, agg2)
	if !exactTM(am, am2) {
		c.Failf("%s: aggregating %s gives %s, and aggregating that again %s", what, showTM(m), showTM(am), showTM(am2))
	}
	c.Cover(Fam + " aggregated again")
	return agg, am
}

// useAfter works with a derived table as with any other.
func useAfter(c *C, what string, t T, m tm, g *gen.G, eq eqFn, orig T, om tm, nv int) {
	fullDiff(c, what+" vs original", t, orig, m, om, eq)
	fullDiff(c, "original vs "+what, orig, t, om, m, eq)
	x := &tt{t: t.Table_(), m: m.Clone(), g: g, nv: nv, eq: eq, keys: m.Keys()}
	for i := c.N(12); i > 0; i-- {
		x.step(c)
	}
	checkGets(c, what+", modified", x.t.Table(), x.m)
	checkWalk(c, what+", modified", x.t.Table(), x.m)
	checkWalk(c, what+", after modifying a clone", t, m)
	checkWalk(c, "original of "+what, orig, om)
	fullDiff(c, what+" vs modified", t, x.t.Table(), m, x.m, eq)
	c.Cover(Fam + " modified after")
	if c.P(1, 2) {
		checkAggregate(c, what+", modified", x.t.Table(), x.m, eq)
	}
}

func eqInt(a, b int) bool { return a == b }

func c15Small(c *C) {
	base, sh := smallBase(c, c.Idx/64, 2)
	ks := blockKeys(base, sh, 2)
	for j := 0; j < 256; j++ {
		code := c.Idx%64*256 + j
		t := ip.NewTable_[int]()
		m := tm{}
		for _, i := range c.Perm(7) {
			v := code >> uint(2*i) & 3
			if v != 0 {
				t.Insert(mkK(ks[i]), v)
				m[ks[i]] = ent{v: v}
			} else if c.P(1, 6) {
				t.Insert(mkK(ks[i]), 1)
				defer0 := ks[i]
				t.Remove(mkK(defer0))
			}
		}
		tab := t.Table()
		checkAggregate(c, "small", tab, m, eqInt)
		checkWalk(c, "original", tab, m)
		checkWalk(c, "mutable original", t.Table(), m)
	}
	c.Sample(func() string { return fmt.Sprintf("256 assignments over %s", showKeys(ks)) })
}

func c15Block(c *C) {
	k := c.In(3, 4)
	base, sh := smallBase(c, c.N(6), k)
	ks := blockKeys(base, sh, k)
	eq, t_, _ := comparison(c)
	g := gen.Grid(c.Rng, W, base, sh, k)
	t := newTT(g, c.In(1, 4))
	t.t, t.eq = t_, eq
	den := c.In(1, 4)
	for _, i := range c.Perm(len(ks)) {
		if c.N(den) == 0 {
			t.op(c, 3, ks[i], c.N(t.nv))
		}
	}
	for i := c.N(6); i > 0; i-- {
		t.op(c, 6, ks[c.N(len(ks))], 0)
	}
	tab := t.t.Table()
	agg, am := checkAggregate(c, "block", tab, t.m, eq)
	checkWalk(c, "original", tab, t.m)
	if c.P(1, 3) {
		useAfter(c, "aggregated", agg, am, g, eq, tab, t.m, t.nv)
	}
}

func c15History(c *C) {
	g := gen.New(c.Rng, W)
	eq, t_, name := comparison(c)
	c.Op("universe %v, comparison %s", g, name)
	t := newTT(g, c.In(1, 4))
	t.t, t.eq = t_, eq
	n := c.In(1, 100)
	for i := 0; i < n; i++ {
		t.step(c)
	}
	tab, m := t.t.Table(), t.m
	if c.P(1, 4) { // a table made by Map
		mm := m.Clone()
		for k, e := range mm {
			mm[k] = ent{e.v / 2, e.forms}
		}
		tab = tab.Map(func(_ P, v int) int { return v / 2 })
		fixMapped(c, tab, m, mm, eq)
		m = mm
		c.Cover(Fam + " mapped")
	}
	agg, am := checkAggregate(c, "history", tab, m, eq)
	checkWalk(c, "original", tab, m)
	checkWalk(c, "mutable original", t.t.Table(), t.m)
	useAfter(c, "aggregated", agg, am, g, eq, tab, m, t.nv)
	// the mutable goes on
	for i := c.N(10); i > 0; i-- {
		t.step(c)
	}
	if !exactTM(decode(c, "aggregated", agg), am) {
		c.Failf("aggregated table changed from %s to %s when its source was modified", showTM(am), showTM(decode(c, "", agg)))
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: %s -> %s", g, showTM(m), showTM(am)) })
}

// mapFn draws a function of (prefix, value).
func mapFn(c *C) (int, func(k K, v int) int) {
	switch n := c.N(5); n {
	case 0:
		return n, func(_ K, v int) int { return v }
	case 1:
		x := c.N(5)
		return n, func(K, int) int { return x }
	case 2:
		return n, func(_ K, v int) int { return v + 3 }
	case 3:
		return n, func(k K, v int) int { return int(uint64(hashKey(mon.NewHash(), k).I(v)) % 1000) }
	default:
		bit := uint(c.N(8))
		return n, func(k K, v int) int {
			if uint64(hashKey(mon.NewHash(), k))>>bit&3 == 0 {
				return v + 1
			}
			return v
		}
	}
}

func c16History(c *C) {
	var g *gen.G
	if c.P(1, 3) {
		k := c.In(1, 4)
		base, sh := smallBase(c, c.N(6), k)
		g = gen.Grid(c.Rng, W, base, sh, k)
	} else {
		g = gen.New(c.Rng, W)
	}
	eq, t_, name := comparison(c)
	c.Op("universe %v, comparison %s", g, name)
	t := newTT(g, 5)
	t.t, t.eq = t_, eq
	n := c.N(60)
	if c.P(1, 50) {
		n = 2000
	}
	for i := 0; i < n; i++ {
		t.step(c)
	}
	cur, m := t.t.Table(), t.m
	if c.P(1, 30) { // the zero table
		cur, m, eq = T{}, tm{}, eqInt
	}
	orig, om := cur, m
	for round := c.In(1, 4); round > 0; round-- {
		fn, f := mapFn(c)
		ks := m.Keys()
		i := 0
		next := cur.Map(func(p P, v int) int {
			if i >= len(ks) {
				c.Failf("mapper called for %v:%d after all %d entries of %s", p, v, len(ks), showTM(m))
			}
			k := ks[i]
			if !formOK(p, k, m[k]) || v != m[k].v {
				c.Failf("call %d of the mapper is for %v:%d, want %s:%d; table %s", i, p, v, pstr(k.Addr, k.Len), m[k].v, showTM(m))
			}
			i++
			return f(k, v)
		})
		c.Eval(2 + i)
		if i != len(ks) {
			c.Failf("mapper called for %d of %d entries of %s", i, len(ks), showTM(m))
		}
		nm := m.Clone()
		for k, e := range nm {
			nm[k] = ent{f(k, e.v), e.forms}
		}
		fixMapped(c, next, m, nm, eq)
		checkWalk(c, "mapped", next, nm)
		checkGets(c, "mapped", next, nm)
		checkWalk(c, "original", cur, m)
		if len(m) > 0 {
			c.Distinct(hashTM(mon.NewHash().Str(Fam).I(fn), m))
		}
		if len(m) > 2 {
			c.Cover(Fam + " intermediate nodes likely")
		}
		c.Cover(fmt.Sprintf("%s function %d", Fam, fn))
		for j := 0; j < 5; j++ {
			checkMatch(c, "mapped", next, next.Table_(), nm, model.MkKey(W, g.Addr(), c.N(W+1)))
		}
		if len(m) < 200 {
			useAfter(c, "mapped", next, nm, g, eq, cur, m, 5)
			if c.P(1, 4) {
				checkAggregate(c, "mapped", next, nm, eq)
			}
		}
		cur, m = next, nm
	}
	checkWalk(c, "first original", orig, om)
	checkWalk(c, "nil mapper", orig.Map(nil), om)
	checkWalk(c, "mutable original", t.t.Table(), t.m)
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: %s -> %s", g, showTM(om), showTM(m)) })
}
