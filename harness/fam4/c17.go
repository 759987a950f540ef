package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C17"] = "cases: histories over growing families of fixed and mutable sets (tables) which share structure: snapshots, mutables made from snapshots, copies of mutables, derived sets (tables), Build returning true, false, panicking or leaking its mutable; everything obtained so far is re-read after random modifications of its relatives. Oracle: the report recorded when the fixed one was obtained, verbatim; one shared model per group of copies. Non-trivial: distinct (object content, content it was re-read beside)."
	reg("C17", "sets", 1500, 40000, c17Sets)
	reg("C17", "tables", 1500, 40000, c17Tables)
	mon.Rules["C17"] += " Also: tables of 16 value types, nil values included."
	reg("C17", "types", 640, 16000, func(c *C) { c19For(c, "C17") })
	for _, k := range []string{"snapshots of values re-read", "type any", "type *int", "snapshots re-read", "clones detached", "copies share", "Build true", "Build false", "Build panicked", "Build leaked", "derived sets", "derived tables"} {
		mon.Need["C17"] = append(mon.Need["C17"], Fam+" "+k)
	}
}

type fixedSet struct {
	s    S
	m    MS
	said []pfx
	str  string
	how  string
}

type mutSet struct {
	s    S_
	cell *MS
}

func c17Sets(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("universe %v", g)
	var fixed []*fixedSet
	var muts []mutSet
	add := func(s S, m MS, how string) {
		f := &fixedSet{s: s, m: m, how: how, said: walk(c, s, 0), str: s.String()}
		c.Op("#%d = %s = %s", len(fixed), how, showSet(m))
		if !content(c, s).Equal(m) {
			c.Failf("%s is %s, want %s", how, showSet(content(c, s)), showSet(m))
		}
		if len(fixed) < 40 {
			fixed = append(fixed, f)
		} else {
			fixed[c.N(40)] = f
		}
	}
	check := func(f *fixedSet, after string) {
		c.Eval(2)
		c.Cover(Fam + " snapshots re-read")
		now := walk(c, f.s, 0)
		same := len(now) == len(f.said) && f.s.String() == f.str
		for i := range now {
			same = same && now[i] == f.said[i]
		}
		if !same {
			c.Failf("fixed set obtained by %s changed from %v to %v; last operation: %s", f.how, f.said, now, after)
		}
		wantNum(c, f.how, f.s, f.m)
		if f.s.IsEmpty() != (len(f.m) == 0) {
			c.Failf("fixed set obtained by %s: IsEmpty changed", f.how)
		}
	}
	checkMut := func(t mutSet, after string) {
		c.Eval(1)
		if now := content(c, t.s.Set()); !now.Equal(*t.cell) {
			c.Failf("mutable set has %s, want %s; last operation: %s", showSet(now), showSet(*t.cell), after)
		}
	}
	add(S{}, nil, "zero")
	m := randSet(g, 6)
	add(build(c, m), m, "initial set")
	muts = append(muts, mutSet{ip.NewSet_(), new(MS)})
	pickF := func() *fixedSet { return fixed[c.N(len(fixed))] }
	pickM := func() mutSet { return muts[c.N(len(muts))] }
	addM := func(t mutSet) {
		if len(muts) < 12 {
			muts = append(muts, t)
		} else {
			muts[c.N(12)] = t
		}
	}
	clone := func(m MS) *MS { x := append(MS(nil), m...); return &x }
	change := func(t mutSet) string {
		var o SI
		var om MS
		var d string
		if c.P(1, 6) { // another mutable, maybe itself or a copy
			x := pickM()
			o, om, d = x.s, *x.cell, "another Set_ "+showSet(*x.cell)
		} else {
			o, om, d = operand(c, g, func() (S, MS) { f := pickF(); return f.s, f.m })
		}
		if c.P(3, 5) {
			t.s.Insert(o)
			*t.cell = model.Union(*t.cell, om)
			return "Insert " + d
		}
		t.s.Remove(o)
		*t.cell = model.Diff(W, *t.cell, om)
		return "Remove " + d
	}
	n := c.In(10, 60)
	for i := 0; i < n; i++ {
		what := ""
		switch c.N(9) {
		case 0:
			f := pickF()
			addM(mutSet{f.s.Set_(), clone(f.m)})
			what = "Set_() of a fixed set"
			c.Cover(Fam + " clones detached")
		case 1:
			t := pickM()
			addM(t) // a copy of the value
			what = "copy of a Set_"
			c.Cover(Fam + " copies share")
		case 2, 3:
			t := pickM()
			add(t.s.Set(), append(MS(nil), *t.cell...), "Set()")
			what = "Set()"
		case 4:
			f, t := pickF(), pickM()
			switch c.N(6) {
			case 0:
				add(f.s.Union(t.s), model.Union(f.m, *t.cell), "Union")
			case 1:
				add(f.s.Intersection(t.s), model.Intersect(f.m, *t.cell), "Intersection")
			case 2:
				add(f.s.Difference(t.s), model.Diff(W, f.m, *t.cell), "Difference")
			case 3:
				add(t.s.Union(f.s), model.Union(f.m, *t.cell), "Set_ Union")
			case 4:
				add(t.s.Intersection(f.s), model.Intersect(f.m, *t.cell), "Set_ Intersection")
			default:
				add(t.s.Difference(f.s), model.Diff(W, *t.cell, f.m), "Set_ Difference")
			}
			what = "set operation"
			c.Cover(Fam + " derived sets")
		case 5: // Build
			f := pickF()
			kind := c.N(4)
			var leaked mutSet
			var got S
			_, panicked := mon.Panics(func() {
				got = f.s.Build(func(b S_) bool {
					leaked = mutSet{b, clone(f.m)}
					for j := c.N(5); j > 0; j-- {
						what += change(leaked) + "; "
					}
					if kind == 2 {
						panic("user")
					}
					return kind != 1
				})
			})
			what = "Build: " + what
			if panicked != (kind == 2) {
				c.Failf("%s: panicked %v", what, panicked)
			}
			if !panicked {
				want := *clone(*leaked.cell)
				if kind == 1 {
					want = f.m
					c.Cover(Fam + " Build false")
				} else {
					c.Cover(Fam + " Build true")
				}
				add(got, want, what)
			} else {
				c.Cover(Fam + " Build panicked")
			}
			if kind >= 2 { // goes on living
				addM(leaked)
				for j := 0; j < 3; j++ {
					what += "; later " + change(leaked)
				}
				c.Cover(Fam + " Build leaked")
			}
			check(f, what)
		default:
			t := pickM()
			what = change(t)
			for _, x := range muts {
				if x.cell == t.cell {
					checkMut(x, what)
				}
			}
		}
		c.Op("%s", what)
		for j := 0; j < 3; j++ {
			f := pickF()
			check(f, what)
			c.Distinct(hashSet(hashSet(mon.NewHash().Str(Fam), f.m), *pickM().cell))
			checkMut(pickM(), what)
		}
	}
	for _, f := range fixed {
		check(f, "all of the history")
	}
	for _, t := range muts {
		checkMut(t, "all of the history")
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string {
		return fmt.Sprintf("%v: %d steps, %d fixed and %d mutable sets, e.g. %s", g, n, len(fixed), len(muts), showSet(fixed[len(fixed)-1].m))
	})
}

type said struct {
	p pfx
	v int
}

type fixedTab struct {
	t    T
	m    tm
	said []said
	how  string
}

func recite(t T) (out []said) {
	t.Walk(func(p P, v int) bool {
		a, l := unP(p)
		out = append(out, said{pfx{a, l}, v})
		return true
	})
	return
}

func c17Tables(c *C) {
	g := gen.New(c.Rng, W)
	eq, t_, name := comparison(c)
	c.Op("universe %v, comparison %s", g, name)
	var fixed []*fixedTab
	var muts []*tt // copies share the model map, but have their own T_ value
	add := func(t T, m tm, how string) {
		f := &fixedTab{t: t, m: m.Clone(), how: how, said: recite(t)}
		checkWalk(c, how, t, m)
		if len(fixed) < 40 {
			fixed = append(fixed, f)
		} else {
			fixed[c.N(40)] = f
		}
	}
	check := func(f *fixedTab, after string) {
		c.Eval(2)
		c.Cover(Fam + " snapshots re-read")
		now := recite(f.t)
		same := len(now) == len(f.said) && f.t.NumEntries() == int64(len(f.said))
		for i := range now {
			same = same && now[i] == f.said[i]
		}
		if !same {
			c.Failf("fixed table obtained by %s changed from %v to %v (%d entries); last operation: %s", f.how, f.said, now, f.t.NumEntries(), after)
		}
	}
	m0 := newTT(g, 5)
	m0.t, m0.eq = t_, eq
	for i := c.N(30); i > 0; i-- {
		m0.step(c)
	}
	muts = append(muts, m0)
	add(t_.Table(), m0.m, "first Table()")
	pickF := func() *fixedTab { return fixed[c.N(len(fixed))] }
	pickM := func() *tt { return muts[c.N(len(muts))] }
	addM := func(t *tt) {
		if len(muts) < 12 {
			muts = append(muts, t)
		} else {
			muts[c.N(12)] = t
		}
	}
	clone := func(f *fixedTab, t T_) *tt {
		return &tt{t: t, m: f.m.Clone(), g: g, nv: 5, eq: eq, keys: f.m.Keys()}
	}
	n := c.In(10, 60)
	for i := 0; i < n; i++ {
		what := ""
		switch c.N(9) {
		case 0:
			f := pickF()
			addM(clone(f, f.t.Table_()))
			what = "Table_() of a fixed table"
			c.Cover(Fam + " clones detached")
		case 1:
			t := pickM()
			cp := *t // shares the model map
			addM(&cp)
			what = "copy of a Table_"
			c.Cover(Fam + " copies share")
		case 2, 3:
			t := pickM()
			add(t.t.Table(), t.m, "Table()")
			what = "Table()"
		case 4:
			f := pickF()
			var d T
			if c.Bool() {
				d = f.t.Aggregate()
				what = "Aggregate"
			} else {
				_, fn := mapFn(c)
				d = f.t.Map(func(p P, v int) int { return fn(keyOf(p), v) })
				what = "Map"
			}
			add(d, decode(c, what, d), what)
			c.Cover(Fam + " derived tables")
		case 5:
			f := pickF()
			kind := c.N(4)
			var leaked *tt
			var got T
			_, panicked := mon.Panics(func() {
				got = f.t.Build(func(b T_) bool {
					leaked = clone(f, b)
					for j := c.N(5); j > 0; j-- {
						what += leaked.step(c) + "; "
					}
					if kind == 2 {
						panic("user")
					}
					return kind != 1
				})
			})
			what = "Build: " + what
			if panicked != (kind == 2) {
				c.Failf("%s: panicked %v", what, panicked)
			}
			if !panicked {
				want := leaked.m.Clone()
				if kind == 1 {
					want = f.m
					c.Cover(Fam + " Build false")
				} else {
					c.Cover(Fam + " Build true")
				}
				add(got, want, what)
			} else {
				c.Cover(Fam + " Build panicked")
			}
			if kind >= 2 {
				addM(leaked)
				for j := 0; j < 3; j++ {
					what += "; later " + leaked.step(c)
				}
				c.Cover(Fam + " Build leaked")
			}
			check(f, what)
		default:
			t := pickM()
			what = t.step(c)
			// copies see it
			x := pickM()
			checkWalk(c, "Table_ after "+what, x.t.Table(), x.m)
		}
		c.Op("%s", what)
		for j := 0; j < 3; j++ {
			f := pickF()
			check(f, what)
			x := pickM()
			c.Distinct(hashTM(hashTM(mon.NewHash().Str(Fam), f.m), x.m))
			if x.t.NumEntries() != int64(len(x.m)) {
				c.Failf("NumEntries of a Table_ is %d, want %d; last operation: %s", x.t.NumEntries(), len(x.m), what)
			}
		}
	}
	for _, f := range fixed {
		check(f, "all of the history")
		checkWalk(c, f.how, f.t, f.m)
	}
	for _, t := range muts {
		checkWalk(c, "Table_ at the end", t.t.Table(), t.m)
		checkGets(c, "Table_ at the end", t.t.Table(), t.m)
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string {
		return fmt.Sprintf("%v: %d steps, %d fixed and %d mutable tables, e.g. %s", g, n, len(fixed), len(muts), showTM(fixed[len(fixed)-1].m))
	})
}
