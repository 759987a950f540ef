package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

// Huge tables and sets: beyond 65,536 and 131,072 entries, where counters of
// 16 bits wrap, and with their sizes going up and down across these.

func init() {
	for _, p := range []string{"C10", "C11", "C12", "C13", "C15", "C16", "C17"} {
		p := p
		mon.Rules[p] += " Also: tables of more than 65,536 entries, changed across that size."
		reg(p, "huge", 3, 18, func(c *C) { hugeTables(c, p) }).Fixed = true
		mon.Need[p] = append(mon.Need[p], Fam+" more than 65536 entries")
	}
	for _, p := range []string{"C01", "C02", "C03", "C22"} {
		p := p
		mon.Rules[p] += " Also: sets of more than 65,536 pieces, changed across that size."
		reg(p, "huge", 3, 18, func(c *C) { hugeSets(c, p) }).Fixed = true
		mon.Need[p] = append(mon.Need[p], Fam+" more than 65536 pieces")
	}
}

// hugeTable makes a table of size entries.
func hugeTable(c *C, size, nv int, sh func(i int) K) *tt {
	t := newTT(gen.New(c.Rng, W), nv)
	for i := 0; len(t.m) < size; i++ {
		if i > 4*size {
			mon.Inconc("only %d distinct entries", len(t.m))
		}
		k := sh(i)
		if _, ok := t.m[k]; ok {
			continue
		}
		v := c.N(nv)
		if !t.t.Insert(mkK(k), v) {
			c.Failf("inserting %s as entry %d returned false", pstr(k.Addr, k.Len), len(t.m))
		}
		t.m[k] = ent{v: v}
		t.note(k)
		if n := t.t.NumEntries(); n != int64(len(t.m)) {
			c.Failf("NumEntries is %d after %d insertions", n, len(t.m))
		}
	}
	return t
}

// hugeShape makes keys in one of several layouts.
func hugeShape(c *C) (func(i int) K, string) {
	switch c.Idx % 3 {
	case 0:
		base := gen.Rand(c.Rng, W).And(mask(W - 20))
		st := uint64(1 + c.N(3))
		return func(i int) K { return K{Addr: base.Add(u128.From(st * uint64(i))), Len: W} }, "host routes"
	case 1:
		return func(i int) K { return model.MkKey(W, gen.Rand(c.Rng, W), c.In(W-14, W)) }, "random"
	}
	base := gen.Rand(c.Rng, W).And(mask(W - 18))
	return func(i int) K { // a complete tree
		l := 0
		for 2<<uint(l)-1 <= i {
			l++
		}
		j := uint64(i + 1 - 1<<uint(l))
		return K{Addr: base.Or(u128.From(j).Shl(18 - l)), Len: W - 18 + l}
	}, "tree"
}

func hugeTables(c *C, prop string) {
	size := 1 << 16
	if c.P(1, 4) {
		size = 1 << 17
	}
	tablesOf(c, prop, size, 3)
}

// tablesOf checks what a property says on tables of about size entries.
func tablesOf(c *C, prop string, size, more int) {
	sh, name := hugeShape(c)
	if c.N(more) > 5 {
		sh, name = mixedShape(c), "mixed"
	}
	nv := c.In(1, 4)
	if c.Bool() {
		nv = 1 << 20
	}
	t := hugeTable(c, size+c.In(-12, 12), nv, sh)
	first, fm := t.t.Table(), t.m.Clone()
	c.Op("%s: %d entries", name, len(fm))
	// change it, across the size and back
	for i := 0; i < 60; i++ {
		t.step(c)
	}
	grow := func(t *tt, n int) {
		for i := 0; i < 20000 && len(t.m) < n; i++ {
			t.op(c, c.N(6), model.MkKey(W, gen.Rand(c.Rng, W), W-c.N(8)), c.N(nv))
		}
	}
	shrink := func(t *tt, n int) {
		for i := 0; len(t.m) > n && i < len(t.keys); i++ {
			t.op(c, 6, t.keys[i], 0)
		}
	}
	grow(t, size+200)
	if size < 1<<16 {
		for i := 0; i < 40; i++ {
			t.step(c)
		}
	}
	tab, m := t.t.Table(), t.m
	if prop == "C10" || prop == "C17" {
		t2 := t.clone()
		shrink(t2, size-100)
		grow(t2, size+30)
		checkGets(c, "huge, shrunk and grown", t2.t.Table(), t2.m)
		checkWalk(c, "huge, shrunk and grown", t2.t.Table(), t2.m)
	}
	switch prop {
	case "C10":
		checkGets(c, "huge", tab, m)
		checkWalk(c, "huge", tab, m)
		checkGets(c, "huge before", first, fm)
	case "C11":
		searchAll(c, "huge", t)
	case "C12":
		stopWalks(c, "huge", tab, m)
		stopWalks(c, "huge before", first, fm)
		for at := size - 2; at <= size+2 && at <= len(m); at++ {
			n := 0
			if tab.Walk(func(P, int) bool { n++; return n < at }) || n != at {
				c.Failf("Walk of %d entries stopped in call %d made %d", len(m), at, n)
			}
		}
	case "C13":
		all := diffModel(fm, m, eqInt)
		coverEvs(c, all)
		other := hugeTable(c, size+c.In(-12, 12), nv, sh)
		om := other.m
		ot := other.t.Table()
		rel := diffModel(m, om, eqInt)
		for _, mask := range []int{15, 7, 8, 2, 4, 1, c.N(16)} {
			checkDiff(c, "huge versions", first, tab, fm, m, all, mask, 0)
			checkDiff(c, "huge", tab, ot, m, om, rel, mask, 0)
		}
		checkDiff(c, "huge versions", first, tab, fm, m, all, 15, size)
		checkDiff(c, "huge versions", first, tab, fm, m, all, 15, size+1)
		checkDiff(c, "huge", tab, ot, m, om, rel, 15, 1+c.N(len(rel)))
		checkDiff(c, "huge and nothing", tab, T{}, m, tm{}, diffModel(m, tm{}, eqInt), 15, 0)
		checkDiff(c, "nothing and huge", T{}, tab, tm{}, m, diffModel(tm{}, m, eqInt), 15, 0)
		c.Distinct(hashTM(mon.NewHash().Str(Fam), m))
	case "C15":
		agg, am := checkAggregate(c, "huge", tab, m, eqInt)
		checkWalk(c, "huge", tab, m)
		if !exactTM(decode(c, "aggregated", agg), am) {
			c.Failf("aggregated huge table changed")
		}
	case "C16":
		fn, f := mapFn(c)
		ks := m.Keys()
		i := 0
		out := tab.Map(func(p P, v int) int {
			if i >= len(ks) || keyOf(p) != ks[i] || v != m[ks[i]].v {
				c.Failf("call %d of the mapper is for %v:%d; table %s", i, p, v, showTM(m))
			}
			i++
			return f(ks[i-1], v)
		})
		if i != len(ks) {
			c.Failf("mapper called for %d of %d entries of %s", i, len(ks), showTM(m))
		}
		om := m.Clone()
		for k, e := range om {
			om[k] = ent{f(k, e.v), e.forms}
		}
		c.Eval(1)
		c.Distinct(hashTM(mon.NewHash().Str(Fam).I(fn), m))
		checkWalk(c, "huge mapped", out, om)
		checkGets(c, "huge mapped", out, om)
		checkWalk(c, "huge", tab, m)
	case "C17":
		snap := t.m.Clone()
		x := tab.Table_()
		n := int64(0)
		for i := 0; i < 300; i++ {
			k := t.keys[c.N(len(t.keys))]
			if x.Remove(mkK(k)) {
				n++
			}
			x.InsertOrUpdate(mkK(model.MkKey(W, gen.Rand(c.Rng, W), W)), 1)
		}
		checkWalk(c, "huge, after changes of a clone", tab, snap)
		checkWalk(c, "huge, first version", first, fm)
		checkWalk(c, "huge original", t.t.Table(), snap)
		checkGets(c, "huge, after changes of a clone", tab, snap)
		c.Distinct(hashTM(mon.NewHash().Str(Fam), snap))
	}
	if len(m) > 1<<16 {
		c.Cover(Fam + " more than 65536 entries")
	}
	c.Sample(func() string { return fmt.Sprintf("%s: %d entries, then %d", name, len(fm), len(m)) })
}

// hugeSet makes a set of about n pieces by insertions in random order.
func hugeSet(c *C, n int) (S_, MS, string) {
	if n < 1<<16 && c.Bool() {
		m := someSet(c, n)
		return build(c, m).Set_(), m, "some"
	}
	base := gen.Rand(c.Rng, W).And(mask(W - 21))
	var ivs []Iv
	name := ""
	add := func(k K) { ivs = append(ivs, k.Iv(W)) }
	switch c.Idx % 3 {
	case 0:
		name = "every other address"
		for i := 0; i < n; i++ {
			add(K{Addr: base.Add(u128.From(uint64(2 * i))), Len: W})
		}
	case 1:
		name = "random"
		for i := 0; i < n+n/8; i++ {
			add(model.MkKey(W, gen.Rand(c.Rng, W), c.In(W-6, W)))
		}
	default:
		name = "blocks with holes"
		for i := 0; i < n/2; i++ {
			a := base.Add(u128.From(uint64(8 * i)))
			x := uint64(c.N(4))
			ivs = append(ivs, Iv{Lo: a.Add(u128.From(x)), Hi: a.Add(u128.From(6))})
		}
	}
	t := ip.NewSet_()
	for _, i := range c.Perm(len(ivs)) {
		t.Insert(mkR(ivs[i].Lo, ivs[i].Hi))
	}
	return t, model.Normalize(ivs), name
}

func hugeSets(c *C, prop string) {
	n := 1<<16 + c.In(-12, 12)
	if c.P(1, 4) {
		n *= 2
	}
	setsOf(c, prop, n)
}

// setsOf checks what a property says on sets of about n pieces.
func setsOf(c *C, prop string, n int) {
	t, m, name := hugeSet(c, n)
	first := t.Set()
	fm := m
	var ivs, gone []Iv
	for i := 0; i < 200; i++ {
		k := model.MkKey(W, gen.Rand(c.Rng, W), W-c.N(3))
		ivs = append(ivs, k.Iv(W))
		t.Insert(mkK(k))
	}
	m = model.Union(m, model.Normalize(ivs))
	for i := 0; i < 30 && i < len(m)/2; i++ {
		v := m[c.N(len(m))]
		gone = append(gone, v)
		t.Remove(mkR(v.Lo, v.Hi))
	}
	m = model.Diff(W, m, model.Normalize(gone))
	s := t.Set()
	c.Op("%s: %d pieces", name, len(m))
	switch prop {
	case "C01":
		wantSet(c, "huge", s, m)
		wantSet(c, "huge before", first, fm)
		checkPred(c, "huge", s, m)
		o, om, _ := hugeSet(c, n)
		checkPair(c, s, m, o.Set(), om)
		checkPair(c, first, fm, s, m)
		probe(c, "huge", s, m, append(append([]Iv(nil), m...), gone...), 500)
		wantSet(c, "huge", s, m)
	case "C02":
		canonical(c, "huge", s, m)
		canonicalString(c, "huge", s, m)
		checkMem(c, "huge", s, t, m)
		d := s.Difference(first)
		dm := model.Diff(W, m, fm)
		canonical(c, "difference of huge sets", d, dm)
		checkMem(c, "difference of huge sets", d, d.Set_(), dm)
		if W > 32 && n > 1000 && (n < 60000 || c.Idx%3 == 1) {
			break // a complement of millions of prefixes
		}
		co := mkR(U{}, maxU).Set().Difference(s)
		canonical(c, "complement of a huge set", co, model.Complement(W, m))
		canonical(c, "union of a huge set and its complement", co.Union(s), MS{{Lo: U{}, Hi: maxU}})
	case "C03":
		c03Set(c, s, m)
		k := len(m.Cover(W))
		for _, at := range []int{1 << 16, 1<<16 + 1, k - 1, k} {
			if at > k || at < 1 {
				continue
			}
			calls := 0
			if s.WalkPrefixes(func(P) bool { calls++; return calls < at }) || calls != at {
				c.Failf("WalkPrefixes stopped in call %d of %d: %d calls", at, k, calls)
			}
		}
	case "C22":
		// everything reserved but one address
		v := m[c.N(len(m))]
		res := model.Diff(W, m, model.One(v.Lo, v.Lo))
		r := s.Difference(mkA(v.Lo))
		for _, l := range []int{W, W - 1, W + 1, 0} {
			checkFind(c, s, m, r, res, uint32(l))
		}
		checkFind(c, s, m, s, m, W)
		for _, l := range c22Lens(c, m, fm) {
			checkFind(c, s, m, first, fm, l)
		}
		for l := 0; l <= W; l++ {
			if l > W-9 || c.P(1, 16) {
				checkFind(c, s, m, nil, nil, uint32(l))
			}
		}
		if W > 32 && n > 1000 && (n < 60000 || c.Idx%3 == 1) {
			break
		}
		checkFind(c, mkR(U{}, maxU).Set(), MS{{Lo: U{}, Hi: maxU}}, s, m, uint32(c.N(W)))
		c.Distinct(hashSet(mon.NewHash().Str(Fam), m))
	}
	if len(m) > 1<<16 || c.Idx%3 == 2 && len(m.Cover(W)) > 1<<16 {
		c.Cover(Fam + " more than 65536 pieces")
	}
	c.Sample(func() string { return fmt.Sprintf("%s: %d pieces", name, len(m)) })
}
