package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C10"] = "cases: random operation sequences over hostile universes (keys with host bits, addresses, nil, user-defined PrefixI, parents / children / siblings of existing keys), every return value and the touched key checked after every operation, the whole table regularly; all tables with up to 4 operations over the 7 prefixes of a 4-address block; large tables. Oracle: plain map. Non-trivial: distinct (table content, operation)."
	reg("C10", "history", 2500, 60000, c10History)
	reg("C10", "small", 343*4, 343*4, c10Small)
	reg("C10", "large", 24, 300, c10Large)
	mon.Need["C10"] = append(mon.Need["C10"], Fam+" Insert true", Fam+" Insert false", Fam+" Update true", Fam+" Update false", Fam+" Remove true", Fam+" Remove false", Fam+" full checks")

	mon.Rules["C11"] = "cases: tables reached by random histories, searched at both ends of every elementary interval their keys cut the space into, at every length; nested chains of every depth; small exhaustive tables. Oracle: trying every length in a map. Non-trivial: distinct (table content, search key)."
	reg("C11", "history", 1200, 30000, c11History)
	reg("C11", "chains", 600, 10000, c11Chains)
	reg("C11", "small", 256, 2048, c11Small)
	mon.Need["C11"] = append(mon.Need["C11"], Fam+" found", Fam+" found exactly", Fam+" not found", Fam+" chain")

	mon.Rules["C12"] = "cases: tables reached by random histories and all subsets of the 15 prefixes of an 8-address block, walked completely and with every stopping point (up to a bound). Oracle: keys of the model sorted by (address, length). Non-trivial: distinct non-empty table contents."
	reg("C12", "history", 1500, 40000, c12History)
	reg("C12", "subsets", 512, 2048, c12Subsets)
	mon.Need["C12"] = append(mon.Need["C12"], Fam+" complete walks", Fam+" stopped walks", Fam+" default route", Fam+" host routes")
}

func c10History(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("universe %v", g)
	t := newTT(g, 5)
	n := c.In(20, 200)
	for i := 0; i < n; i++ {
		h := hashTM(mon.NewHash().Str(Fam), t.m)
		what := t.step(c)
		c.Distinct(h.Str(what))
		if i%16 == 15 || i == n-1 {
			c.Cover(Fam + " full checks")
			checkGets(c, what, t.t.Table(), t.m)
			checkWalk(c, what, t.t.Table(), t.m)
		}
		if c.P(1, 25) { // through the fixed form
			t.t = t.t.Table().Table_()
		}
		if c.P(1, 40) {
			t.t = t.t.Table().Build(func(b T_) bool { return c.Bool() }).Table_()
		}
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: %d ops, ends with %s", g, n, showTM(t.m)) })
}

// block7 are the 7 prefixes in the block of 4 addresses at base, block15 those
// of 8 addresses.
func blockKeys(base U, shift, k int) (out []K) {
	for d := 0; d <= k; d++ {
		for x := 0; x < 1<<uint(d); x++ {
			out = append(out, model.MkKey(W, base.Or(u128.From(uint64(x)).Shl(shift+k-d)), W-shift-k+d))
		}
	}
	return
}

func smallBase(c *C, i, k int) (U, int) {
	switch i % 6 {
	case 0:
		return U{}, W - k // whole space
	case 1:
		return maxU.And(u128.Ones(k).Not()), 0 // end of the space
	case 2:
		return U{}, 0
	case 3:
		sh := W/2 - 1
		return gen.Rand(c.Rng, W).And(u128.Ones(k + sh).Not()), sh
	case 4:
		sh := c.N(W - k + 1)
		return maxU.And(u128.Ones(k + sh).Not()), sh
	}
	sh := c.N(W - k + 1)
	return gen.Rand(c.Rng, W).And(u128.Ones(k + sh).Not()), sh
}

// c10Small: three puts in every order of keys, then every operation on every key.
func c10Small(c *C) {
	base, sh := smallBase(c, c.Idx/343, 2)
	ks := blockKeys(base, sh, 2)
	n := c.Idx % 343
	g := gen.Grid(c.Rng, W, base, sh, 2)
	build := func() *tt {
		t := newTT(g, 3)
		t.op(c, 0, ks[n%7], 0)
		t.op(c, 0, ks[n/7%7], 1)
		t.op(c, 0, ks[n/49%7], 2)
		return t
	}
	t0 := build()
	for _, k := range ks {
		for op := 0; op < 7; op++ {
			for v := 0; v < 2; v++ {
				t := t0.clone()
				h := hashTM(mon.NewHash().Str(Fam), t.m)
				what := t.op(c, op, k, v)
				c.Distinct(h.Str(what))
				checkGets(c, what, t.t.Table(), t.m)
				checkWalk(c, what, t.t.Table(), t.m)
			}
		}
	}
	c.Cover(Fam + " full checks")
	c.Sample(func() string { return fmt.Sprintf("every operation on %s", showTM(t0.m)) })
}

func largeTable(c *C, n int) *tt {
	g := gen.New(c.Rng, W)
	base := gen.Rand(c.Rng, W)
	span := c.In(16, W)
	t := newTT(g, 1000)
	for i := 0; i < n; i++ {
		k := model.MkKey(W, base.Xor(gen.Rand(c.Rng, W).And(u128.Ones(span))), W-c.N(span/2+1))
		t.t.InsertOrUpdate(mkK(k), i)
		t.m[k] = ent{v: i}
		t.note(k)
	}
	return t
}

func c10Large(c *C) {
	t := largeTable(c, 1<<uint(c.In(8, 13)))
	checkGets(c, "large", t.t.Table(), t.m)
	for i := 0; i < 300; i++ {
		t.step(c)
	}
	checkGets(c, "large", t.t.Table(), t.m)
	checkWalk(c, "large", t.t.Table(), t.m)
	// empty it in random order
	ks := t.m.Keys()
	for n, i := range c.Perm(len(ks)) {
		t.op(c, 6, ks[i], 0)
		if n%1024 == 0 {
			checkGets(c, "shrinking", t.t.Table(), t.m)
		}
	}
	checkWalk(c, "emptied", t.t.Table(), t.m)
	c.Distinct(mon.NewHash().Str(Fam).I(len(ks)).I(c.Idx))
	c.Cover(Fam + " full checks")
	c.Sample(func() string { return fmt.Sprintf("%d entries", len(ks)) })
}

func searchAll(c *C, what string, t *tt) {
	tab := t.t.Table()
	h := hashTM(mon.NewHash().Str(Fam), t.m)
	els := elementary(t.m)
	max := 150
	for i := 0; i < len(els) && i < max; i++ {
		u := els[i]
		if len(els) > max {
			u = els[c.N(len(els))]
		}
		for _, s := range []U{u, u.Dec().And(maxU)} {
			c.Distinct(hashU(h, s))
			checkMatch(c, what, tab, t.t, t.m, K{Addr: s, Len: W})
			l := c.N(W + 1)
			checkMatch(c, what, tab, t.t, t.m, model.MkKey(W, s, l))
		}
	}
	// every stored key, a parent, a child
	ks := t.m.Keys()
	for i := 0; i < len(ks) && i < 60; i++ {
		k := ks[i]
		if len(ks) > 60 {
			k = ks[c.N(len(ks))]
		}
		checkMatch(c, what, tab, t.t, t.m, k)
		if k.Len > 0 {
			checkMatch(c, what, tab, t.t, t.m, model.MkKey(W, k.Addr, k.Len-1))
		}
		if k.Len < W {
			checkMatch(c, what, tab, t.t, t.m, model.MkKey(W, k.Addr.Or(gen.Rand(c.Rng, W).And(mask(k.Len).Not())).And(maxU), c.In(k.Len+1, W)))
		}
	}
	checkMatch(c, what, tab, t.t, t.m, K{})
}

func c11History(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("universe %v", g)
	t := newTT(g, 4)
	n := c.In(10, 120)
	for i := 0; i < n; i++ {
		what := t.step(c)
		if i%20 == 19 || i == n-1 {
			searchAll(c, what, t)
		} else {
			checkMatch(c, what, t.t.Table(), t.t, t.m, model.MkKey(W, t.g.Addr(), c.N(W+1)))
		}
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: searched in %s", g, showTM(t.m)) })
}

// c11Chains: every subset-of-lengths chain towards one address.
func c11Chains(c *C) {
	u := gen.Rand(c.Rng, W)
	switch c.N(5) {
	case 0:
		u = U{}
	case 1:
		u = maxU
	}
	t := newTT(&gen.G{R: c.Rng, W: W, Kind: "focal", Focal: u}, 100)
	den := c.In(1, 5)
	ls := c.Perm(W + 1)
	for _, l := range ls {
		if c.N(den) == 0 {
			t.op(c, 3, model.MkKey(W, u, l), l)
		}
	}
	// holes in the chain
	for i := c.N(8); i > 0; i-- {
		t.op(c, 6, model.MkKey(W, u, c.N(W+1)), 0)
	}
	tab := t.t.Table()
	for l := 0; l <= W; l++ {
		checkMatch(c, "chain", tab, t.t, t.m, model.MkKey(W, u, l))
		c.Cover(Fam + " chain")
		if l < W {
			// leaves the chain at bit l
			x := u.Xor(u128.Bit(W - 1 - l))
			checkMatch(c, "chain", tab, t.t, t.m, K{Addr: x, Len: W})
			checkMatch(c, "chain", tab, t.t, t.m, model.MkKey(W, x, l+1))
		}
	}
	c.Distinct(hashTM(mon.NewHash().Str(Fam), t.m))
	c.Sample(func() string { return "chain " + showTM(t.m) })
}

func c11Small(c *C) {
	base, sh := smallBase(c, c.Idx, 3)
	ks := blockKeys(base, sh, 3)
	bits := int(c.U64() & 0x7fff)
	if c.P(1, 2) {
		bits &= int(c.U64())
	}
	t := newTT(gen.Grid(c.Rng, W, base, sh, 3), 3)
	for _, i := range c.Perm(15) {
		if bits>>uint(i)&1 == 1 {
			t.op(c, 3, ks[i], c.N(3))
		}
	}
	for _, k := range ks {
		checkMatch(c, "small", t.t.Table(), t.t, t.m, k)
		checkMatch(c, "small", t.t.Table(), t.t, t.m, K{Addr: k.Addr, Len: W})
		checkMatch(c, "small", t.t.Table(), t.t, t.m, K{Addr: k.Last(W), Len: W})
	}
	checkMatch(c, "small", t.t.Table(), t.t, t.m, K{Addr: base.Dec().And(maxU), Len: W})
	c.Distinct(hashTM(mon.NewHash().Str(Fam), t.m))
}

func stopWalks(c *C, what string, t T, m tm) {
	checkWalk(c, what, t, m)
	c.Cover(Fam + " complete walks")
	ks := m.Keys()
	for _, k := range ks {
		if k.Len == 0 {
			c.Cover(Fam + " default route")
		}
		if k.Len == W {
			c.Cover(Fam + " host routes")
		}
	}
	ats := []int{1, 2, len(ks), len(ks) - 1}
	for i := 0; i < 6; i++ {
		ats = append(ats, 1+c.N(len(ks)+1))
	}
	for _, at := range ats {
		if at < 1 || at > len(ks) {
			continue
		}
		c.Cover(Fam + " stopped walks")
		c.Eval(1)
		n := 0
		ret := t.Walk(func(p P, v int) bool {
			if n >= at {
				c.Failf("%s: Walk went on after its callback returned false in call %d; table %s", what, at, showTM(m))
			}
			k := ks[n]
			if keyOf(p) != k || v != m[k].v {
				c.Failf("%s: Walk entry %d is %v:%d, want %s; table %s", what, n, p, v, pstr(k.Addr, k.Len), showTM(m))
			}
			n++
			return n < at
		})
		if ret || n != at {
			c.Failf("%s: Walk stopped in call %d of %d made %d calls and returned %v", what, at, len(ks), n, ret)
		}
	}
	if len(m) > 0 {
		c.Distinct(hashTM(mon.NewHash().Str(Fam), m))
	}
}

func c12History(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("universe %v", g)
	t := newTT(g, 4)
	n := c.In(10, 120)
	for i := 0; i < n; i++ {
		what := t.step(c)
		if i%10 == 9 || i == n-1 {
			stopWalks(c, what, t.t.Table(), t.m)
		} else {
			checkWalk(c, what, t.t.Table(), t.m)
		}
	}
	// walks of derived tables
	if c.P(1, 4) {
		dm := t.m.Clone()
		for k, e := range dm {
			dm[k] = ent{e.v + 1, e.forms}
		}
		checkWalk(c, "mapped", t.t.Table().Map(func(_ P, v int) int { return v + 1 }), dm)
	}
	if len(t.m) == 0 {
		checkWalk(c, "empty", T{}, tm{})
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: %s", g, showTM(t.m)) })
}

func c12Subsets(c *C) {
	base, sh := smallBase(c, c.Idx, 3)
	ks := blockKeys(base, sh, 3)
	for j := 0; j < 16; j++ {
		bits := (c.Idx*64 + int(c.N(64))) & 0x7fff
		t := ip.NewTable_[int]()
		m := tm{}
		for _, i := range c.Perm(15) {
			if bits>>uint(i)&1 == 1 {
				t.Insert(mkK(ks[i]), i)
				m[ks[i]] = ent{v: i}
			}
		}
		for i := c.N(3); i > 0; i-- {
			k := ks[c.N(15)]
			t.Remove(mkK(k))
			delete(m, k)
		}
		stopWalks(c, "subset", t.Table(), m)
	}
}
