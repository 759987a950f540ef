package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mon"
)

func init() {
	mon.Rules["C18"] = "cases: every method of zero Set_, Set, Table_ and Table values (and copies and derived values of them), with nil, empty, zero and random arguments; every method taking a SetI or PrefixI called with nil on random sets, prefixes, ranges and tables, next to the same call with an explicit empty set or zero-length prefix. Oracle: the model with empty content; modification of a zero mutable panics and changes nothing. Non-trivial: distinct (method group, arguments)."
	reg("C18", "zero-set", 2000, 40000, c18ZeroSet)
	reg("C18", "zero-table", 2000, 40000, c18ZeroTable)
	reg("C18", "nil-set", 2000, 40000, c18NilSet)
	reg("C18", "nil-prefix", 2000, 40000, c18NilPrefix)
	for _, k := range []string{"zero Set_ read", "zero Set_ modification panicked", "zero Set used", "zero Table_ read", "zero Table_ modification panicked", "zero Table used", "nil set", "nil prefix"} {
		mon.Need["C18"] = append(mon.Need["C18"], Fam+" "+k)
	}
}

// mustPanic runs a modification of a zero value.
func mustPanic(c *C, what string, f func()) {
	c.Eval(1)
	if _, p := mon.Panics(f); !p {
		c.Failf("%s did not panic", what)
	}
}

// readEmptySet_ reads a Set_ which must look empty.
func readEmptySet_(c *C, what string, z S_, o SI, om MS, od string) {
	w := func(s string) string { return fmt.Sprintf("%s: %s with %s", what, s, od) }
	wantBool(c, w("IsEmpty"), z.IsEmpty(), true)
	wantNum(c, w("Set()"), z.Set(), nil)
	if n, ok := msetNumAddresses(z); ok && n != 0 {
		c.Failf("%s: NumAddresses is %d", what, n)
	}
	wantSet(c, w("Set()"), z.Set(), nil)
	wantBool(c, w("Contains"), z.Contains(o), len(om) == 0)
	wantSet(c, w("Union"), z.Union(o), om)
	wantSet(c, w("Intersection"), z.Intersection(o), nil)
	wantSet(c, w("Difference"), z.Difference(o), nil)
	wantSet(c, w("clone of Set()"), z.Set().Set_().Set(), nil)
	if o != nil {
		os := o.Set()
		wantBool(c, w("Equal"), z.Equal(os.Set_()), len(om) == 0)
		wantBool(c, w("Equal, reversed"), os.Set_().Equal(z), len(om) == 0)
		// as an argument
		wantSet(c, w("argument of Union"), os.Union(z), om)
		wantSet(c, w("argument of Intersection"), os.Intersection(z), nil)
		wantSet(c, w("argument of Difference"), os.Difference(z), om)
		wantBool(c, w("argument of Contains"), os.Contains(z), true)
		t := os.Set_()
		t.Insert(z)
		wantSet(c, w("argument of Insert"), t.Set(), om)
		t.Remove(z)
		wantSet(c, w("argument of Remove"), t.Set(), om)
		l := uint32(c.N(W + 1))
		checkFind(c, os, om, z, nil, l)
	}
}

// emptyArg draws a set argument, often an odd one.
func emptyArg(c *C, g *gen.G) (SI, MS, string) {
	switch c.N(8) {
	case 0:
		return nil, nil, "nil"
	case 1:
		return S{}, nil, "Set{}"
	case 2:
		return S_{}, nil, "Set_{}"
	case 3:
		return ip.NewSet_(), nil, "NewSet_()"
	case 4:
		return wrapSet{}, nil, "SetI with Set{}"
	}
	return operand(c, g, func() (S, MS) { m := randSet(g, 4); return build(c, m), m })
}

func c18ZeroSet(c *C) {
	g := gen.New(c.Rng, W)
	o, om, od := emptyArg(c, g)
	c.Op("argument %s", od)
	var z S_
	cp := z
	// the same questions to an empty one
	readEmptySet_(c, "zero Set_", z, o, om, od)
	readEmptySet_(c, "NewSet_()", ip.NewSet_(), o, om, od)
	wantBool(c, "zero Set_ Equal zero Set_", z.Equal(S_{}), true)
	wantBool(c, "zero Set_ Equal NewSet_()", z.Equal(ip.NewSet_()), true)
	wantBool(c, "NewSet_() Equal zero Set_", ip.NewSet_().Equal(z), true)
	wantBool(c, "zero Set_ contains itself", z.Contains(z), true)
	c.Cover(Fam + " zero Set_ read")
	mustPanic(c, "zero Set_: Insert "+od, func() { z.Insert(o) })
	mustPanic(c, "zero Set_: Remove "+od, func() { z.Remove(o) })
	mustPanic(c, "copy of zero Set_: Insert nil", func() { cp.Insert(nil) })
	mustPanic(c, "copy of zero Set_: Remove nil", func() { cp.Remove(nil) })
	mustPanic(c, "zero Set_: Insert itself", func() { z.Insert(z) })
	c.Cover(Fam + " zero Set_ modification panicked")
	readEmptySet_(c, "zero Set_ after panics", z, o, om, od)
	readEmptySet_(c, "copy of zero Set_ after panics", cp, o, om, od)

	// the zero Set
	var s S
	checkPred(c, "zero Set", s, nil)
	canonical(c, "zero Set", s, nil)
	canonicalString(c, "zero Set", s, nil)
	wantSet(c, "zero Set: Union "+od, s.Union(o), om)
	wantSet(c, "zero Set: Intersection "+od, s.Intersection(o), nil)
	wantSet(c, "zero Set: Difference "+od, s.Difference(o), nil)
	wantBool(c, "zero Set: Contains "+od, s.Contains(o), len(om) == 0)
	wantBool(c, "zero Set: Equal zero", s.Equal(S{}), true)
	wantBool(c, "zero Set: Equal NewSet_().Set()", s.Equal(ip.NewSet_().Set()), true)
	if o != nil {
		wantBool(c, "zero Set: Equal "+od, s.Equal(o.Set()), len(om) == 0)
		wantBool(c, od+" Equal zero Set", o.Set().Equal(s), len(om) == 0)
	}
	wantSet(c, "zero Set: Set", s.Set(), nil)
	ranges := 0
	wantBool(c, "zero Set: WalkRanges", s.WalkRanges(func(R) bool { ranges++; return true }), true)
	wantBool(c, "zero Set: WalkRanges makes no call", ranges == 0, true)
	if ret, ok := walkAddresses(s, func(A) bool { ranges++; return true }); ok && (!ret || ranges != 0) {
		c.Failf("zero Set: WalkAddresses returned %v after %d calls", ret, ranges)
	}
	for _, l := range []uint32{0, 1, uint32(c.N(W + 1)), W} {
		n, err := s.NumPrefixes(l)
		if n != 0 || err != nil {
			c.Failf("zero Set: NumPrefixes(%d) is %d, %v", l, n, err)
		}
		checkFind(c, s, nil, o, om, l)
	}
	wantSet(c, "zero Set: Build true", s.Build(func(b S_) bool { b.Insert(o); return true }), om)
	wantSet(c, "zero Set: Build false", s.Build(func(b S_) bool { b.Insert(o); return false }), nil)
	t := s.Set_()
	t.Remove(o)
	wantSet(c, "Set_ of zero Set, Remove", t.Set(), nil)
	t.Insert(o)
	wantSet(c, "Set_ of zero Set, Insert", t.Set(), om)
	wantSet(c, "zero Set at the end", s, nil)
	c.Cover(Fam + " zero Set used")
	c.Distinct(hashSet(mon.NewHash().Str(Fam).Str("zs"), om))
	c.Sample(func() string { return "zero Set_ and Set with " + od })
}

func readEmptyTable(c *C, what string, t T, t_ T_, arg PI, s K) {
	c.Eval(3)
	if n, m := t.NumEntries(), t_.NumEntries(); n != 0 || m != 0 {
		c.Failf("%s: NumEntries is %d (Table_: %d)", what, n, m)
	}
	v, ok := t.Get(arg)
	v2, ok2 := t_.Get(arg)
	if v != 0 || ok || v2 != 0 || ok2 {
		c.Failf("%s: Get(%v) is %d, %v (Table_: %d, %v)", what, arg, v, ok, v2, ok2)
	}
	v, ok, _ = t.LongestMatch(arg)
	v2, ok2, _ = t_.LongestMatch(arg)
	if v != 0 || ok || v2 != 0 || ok2 {
		c.Failf("%s: LongestMatch(%v) is %d, %v (Table_: %d, %v)", what, arg, v, ok, v2, ok2)
	}
	checkWalk(c, what, t, tm{})
	checkWalk(c, what+": Table()", t_.Table(), tm{})
}

func c18ZeroTable(c *C) {
	g := gen.New(c.Rng, W)
	k := g.Key()
	arg, _ := keyArg(c, k)
	var z T_
	cp := z
	var t T
	readEmptyTable(c, "zero", t, z, arg, k)
	readEmptyTable(c, "zero", t, z, nil, K{})
	readEmptyTable(c, "new", ip.NewTable_[int]().Table(), ip.NewTable_[int](), arg, k)
	c.Cover(Fam + " zero Table_ read")
	for _, a := range []PI{arg, nil} {
		a := a
		mustPanic(c, "zero Table_: Insert", func() { z.Insert(a, 1) })
		mustPanic(c, "zero Table_: Update", func() { z.Update(a, 1) })
		mustPanic(c, "zero Table_: InsertOrUpdate", func() { z.InsertOrUpdate(a, 1) })
		mustPanic(c, "zero Table_: GetOrInsert", func() { z.GetOrInsert(a, 1) })
		mustPanic(c, "zero Table_: Remove", func() { cp.Remove(a) })
	}
	c.Cover(Fam + " zero Table_ modification panicked")
	readEmptyTable(c, "zero after panics", t, z, arg, k)
	readEmptyTable(c, "zero after panics", t, cp, arg, k)

	// the zero Table, and the one of a zero Table_
	for i, t := range []T{t, z.Table(), t.Aggregate(), t.Map(func(P, int) int { return 1 }), t.Map(nil),
		t.Build(func(b T_) bool { b.Insert(arg, 3); return false }), t.Aggregate().Map(func(P, int) int { return 1 })} {
		what := fmt.Sprintf("zero table form %d", i)
		x := newTT(g, 3)
		for j := c.N(20); j > 0; j-- {
			x.step(c)
		}
		fullDiff(c, what, t, x.t.Table(), tm{}, x.m, eqInt)
		fullDiff(c, what, x.t.Table(), t, x.m, tm{}, eqInt)
		fullDiff(c, what, t, T{}, tm{}, tm{}, eqInt)
		checkAggregate(c, what, t, tm{}, eqInt)
		checkWalk(c, what, t, tm{})
		y := newTT(g, 3)
		y.t = t.Table_()
		for j := c.In(1, 20); j > 0; j-- {
			y.step(c)
		}
		checkWalk(c, what+", modified", y.t.Table(), y.m)
		checkGets(c, what+", modified", y.t.Table(), y.m)
		checkAggregate(c, what+", modified", y.t.Table(), y.m, eqInt)
		fullDiff(c, what+", modified", y.t.Table(), x.t.Table(), y.m, x.m, eqInt)
		// modified inside Build
		bm := tm{}
		bt := t.Build(func(b T_) bool {
			q := &tt{t: b, m: bm, g: g, nv: 3}
			for j := c.In(1, 10); j > 0; j-- {
				q.step(c)
			}
			return true
		})
		checkWalk(c, what+", built", bt, bm)
		am := bm.Clone()
		for kk, e := range am {
			am[kk] = ent{e.v + 1, e.forms}
		}
		mt := bt.Map(func(_ P, v int) int { return v + 1 })
		checkWalk(c, what+", built and mapped", mt, am)
		fullDiff(c, what+", built and mapped", bt, mt, bm, am, eqInt)
		checkWalk(c, what, t, tm{})
		c.Cover(Fam + " zero Table used")
		c.Distinct(hashTM(mon.NewHash().Str(Fam).Str("zt").I(i), y.m))
	}
	c.Sample(func() string { return fmt.Sprintf("zero Table_ and Table with %v", arg) })
}

// c18NilSet: every method taking a SetI.
func c18NilSet(c *C) {
	g := gen.New(c.Rng, W)
	m := randSet(g, 6)
	s := build(c, m)
	c.Op("set %s", showSet(m))
	d := showSet(m)
	for i, e := range []SI{nil, S{}, S_{}} {
		n := fmt.Sprintf("%s with %s", d, []string{"nil", "Set{}", "Set_{}"}[i])
		wantSet(c, n+": Union", s.Union(e), m)
		wantSet(c, n+": Intersection", s.Intersection(e), nil)
		wantSet(c, n+": Difference", s.Difference(e), m)
		wantBool(c, n+": Contains", s.Contains(e), true)
		t := s.Set_()
		wantSet(c, n+": Set_.Union", t.Union(e), m)
		wantSet(c, n+": Set_.Intersection", t.Intersection(e), nil)
		wantSet(c, n+": Set_.Difference", t.Difference(e), m)
		wantBool(c, n+": Set_.Contains", t.Contains(e), true)
		t.Insert(e)
		wantSet(c, n+": Insert", t.Set(), m)
		t.Remove(e)
		wantSet(c, n+": Remove", t.Set(), m)
		for _, l := range []uint32{0, uint32(c.N(W + 1)), W, W + 1} {
			checkFind(c, s, m, e, nil, l)
		}
		u, l := g.Prefix()
		wantBool(c, fmt.Sprintf("%s contains empty set %d", pstr(u, l), i), mkP(u, l).Contains(e), true)
		lo, hi := g.Range()
		wantBool(c, fmt.Sprintf("%v contains empty set %d", mkR(lo, hi), i), mkR(lo, hi).Contains(e), true)
		c.Cover(Fam + " nil set")
	}
	c.Distinct(hashSet(mon.NewHash().Str(Fam).Str("ns"), m))
	c.Sample(func() string { return "nil set argument on " + d })
}

// c18NilPrefix: every method taking a PrefixI, on two tables: one is given
// nil, the other the zero-length prefix.
func c18NilPrefix(c *C) {
	g := gen.New(c.Rng, W)
	t := newTT(g, 4)
	for i := c.N(30); i > 0; i-- {
		t.step(c)
	}
	zero := P{}
	a, b := t.t.Table().Table_(), t.t.Table().Table_()
	am := t.m.Clone()
	c.Op("table %s", showTM(am))
	root := K{}
	n := c.In(1, 12)
	for i := 0; i < n; i++ {
		v := c.N(4)
		op := c.N(7)
		old, had := am[root]
		what := fmt.Sprintf("operation %d on nil in %s", op, showTM(am))
		c.Eval(1)
		same := func(x, y interface{}, want interface{}) {
			if x != want || y != want {
				c.Failf("%s: returned %v; with the zero-length prefix %v; want %v", what, x, y, want)
			}
		}
		c.Distinct(hashTM(mon.NewHash().Str(Fam).Str("np").I(op).I(v), am))
		switch op {
		case 0:
			same(a.Insert(nil, v), b.Insert(zero, v), !had)
			if !had {
				am[root] = ent{v, old.forms}
			}
		case 1:
			same(a.Update(nil, v), b.Update(zero, v), had)
			if had {
				am[root] = ent{v, old.forms}
			}
		case 2:
			a.InsertOrUpdate(nil, v)
			b.InsertOrUpdate(zero, v)
			am[root] = ent{v, old.forms}
		case 3:
			w := v
			if had {
				w = old.v
			}
			same(a.GetOrInsert(nil, v), b.GetOrInsert(zero, v), w)
			am[root] = ent{w, old.forms}
		case 4:
			same(a.Remove(nil), b.Remove(zero), had)
			delete(am, root)
		default:
			x, ok := a.Get(nil)
			y, ok2 := b.Table().Get(zero)
			same([2]interface{}{x, ok}, [2]interface{}{y, ok2}, [2]interface{}{old.v, had})
			x, ok = a.Table().Get(nil)
			same([2]interface{}{x, ok}, [2]interface{}{y, ok2}, [2]interface{}{old.v, had})
		}
		checkMatchNil(c, what, a, am)
		checkWalk(c, what, a.Table(), am)
		checkWalk(c, what+" (zero-length)", b.Table(), am)
		c.Cover(Fam + " nil prefix")
	}
	c.Sample(func() string { return fmt.Sprintf("%d operations on nil in %s", n, showTM(t.m)) })
}

func checkMatchNil(c *C, what string, t T_, m tm) {
	e, has := m[K{}]
	for i, f := range []func(PI) (int, bool, P){t.LongestMatch, t.Table().LongestMatch} {
		v, ok, p := f(nil)
		if ok != has || v != e.v || has && keyOf(p) != (K{}) {
			c.Failf("%s: LongestMatch(nil) (%d) is %d, %v, %v; want %d, %v", what, i, v, ok, p, e.v, has)
		}
	}
}
