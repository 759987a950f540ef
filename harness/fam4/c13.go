package fam4

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C13"] = "cases: pairs of tables which share history (clone then modify, in every direction), are rebuilt separately, unrelated, empty, zero or identical; all pairs of subsets of the 7 prefixes of a 4-address block with values; 16 combinations of nil callbacks, every stopping point up to a bound; default and coarser custom comparisons, differing between the two tables. Oracle: merge of the two sorted key lists, equality by the left comparison. Non-trivial: distinct (left content, right content) that are not both empty."
	reg("C13", "history", 1500, 40000, c13History)
	reg("C13", "small", 128*6, 128*6*4, c13Small)
	mon.Need["C13"] = append(mon.Need["C13"], Fam+" changed", Fam+" left", Fam+" right", Fam+" same", Fam+" stopped", Fam+" custom comparison", Fam+" shared history", Fam+" unrelated", Fam+" nil unchanged")

	mon.Rules["C14"] = "cases: tables of thousands of entries and versions of them differing by 0-8 modifications (directly, through Table/Table_/Build, in both directions, with removals, and through a Map that leaves the values equal), diffed without unchanged-callback while the comparison function counts its calls; the processor time of such a diff next to that of a walk. Oracle: calls <= 2 * modifications * (width+2), and <= 1/10 of the processor time of a walk. Non-trivial: distinct (size, modifications)."
	reg("C14", "calls", 120, 1500, c14Calls).Serial = false
	reg("C14", "time", 6, 30, c14Time).Serial = true
	mon.Need["C14"] = append(mon.Need["C14"], Fam+" modified versions", Fam+" identical versions", Fam+" mapped versions", Fam+" changed reported", Fam+" left reported", Fam+" right reported")
}

const (
	evChanged = iota
	evLeft
	evRight
	evSame
)

var evNames = [4]string{"changed", "left", "right", "same"}

type ev struct {
	class int
	k     K
	l, r  int
}

func (e ev) String() string {
	switch e.class {
	case evChanged:
		return fmt.Sprintf("changed(%s, %d, %d)", pstr(e.k.Addr, e.k.Len), e.l, e.r)
	case evRight:
		return fmt.Sprintf("right(%s, %d)", pstr(e.k.Addr, e.k.Len), e.r)
	case evSame:
		return fmt.Sprintf("unchanged(%s, %d or %d)", pstr(e.k.Addr, e.k.Len), e.l, e.r)
	}
	return fmt.Sprintf("left(%s, %d)", pstr(e.k.Addr, e.k.Len), e.l)
}

func showEvs(es []ev) string {
	var ss []string
	for i, e := range es {
		if i == 24 {
			ss = append(ss, fmt.Sprintf("... %d more", len(es)-i))
			break
		}
		ss = append(ss, e.String())
	}
	return "[" + strings.Join(ss, " ") + "]"
}

// diffModel is the merge of the two key lists.
func diffModel(l, r tm, eq func(a, b int) bool) (out []ev) {
	ks := l.Keys()
	for _, k := range r.Keys() {
		if _, ok := l[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Less(ks[j]) })
	for _, k := range ks {
		a, inL := l[k]
		b, inR := r[k]
		switch {
		case inL && inR && eq(a.v, b.v):
			out = append(out, ev{evSame, k, a.v, b.v})
		case inL && inR:
			out = append(out, ev{evChanged, k, a.v, b.v})
		case inL:
			out = append(out, ev{evLeft, k, a.v, 0})
		default:
			out = append(out, ev{evRight, k, 0, b.v})
		}
	}
	return
}

// checkDiff runs one diff with the callbacks in mask, stopping in call number
// stop (0: never), against the expected events of all classes.
func checkDiff(c *C, what string, l, r T, lm, rm tm, all []ev, mask, stop int) {
	var want []ev
	for _, e := range all {
		if mask>>uint(e.class)&1 == 1 {
			want = append(want, e)
		}
	}
	ctx := func() string {
		return fmt.Sprintf("%s: Diff of %s and %s, callbacks %04b, stop in call %d, expected %s", what, showTM(lm), showTM(rm), mask, stop, showEvs(want))
	}
	n := 0
	see := func(class int, p P, a, b int) bool {
		k := keyOf(p)
		if stop > 0 && n >= stop {
			c.Failf("%s: callback called after one returned false", ctx())
		}
		if n >= len(want) {
			c.Failf("%s: unexpected %v after all events", ctx(), ev{class, k, a, b})
		}
		w := want[n]
		ok := w.class == class && w.k == k
		switch class {
		case evChanged:
			ok = ok && a == w.l && b == w.r
		case evLeft:
			ok = ok && a == w.l
		case evRight:
			ok = ok && b == w.r
		default:
			ok = ok && (a == w.l || a == w.r)
		}
		le, inL := lm[k]
		re, inR := rm[k]
		ok = ok && (inL && formOK(p, k, le) || inR && formOK(p, k, re))
		if !ok {
			c.Failf("%s: event %d is %v with prefix %v, want %v", ctx(), n, ev{class, k, a, b}, p, w)
		}
		n++
		return n != stop
	}
	var changed func(P, int, int) bool
	var left, right, same func(P, int) bool
	if mask&1 != 0 {
		changed = func(p P, a, b int) bool { return see(evChanged, p, a, b) }
	}
	if mask&2 != 0 {
		left = func(p P, a int) bool { return see(evLeft, p, a, 0) }
	}
	if mask&4 != 0 {
		right = func(p P, b int) bool { return see(evRight, p, 0, b) }
	}
	if mask&8 != 0 {
		same = func(p P, a int) bool { return see(evSame, p, a, a) }
	} else {
		c.Cover(Fam + " nil unchanged")
	}
	ret := l.Diff(r, changed, left, right, same)
	c.Eval(1 + n)
	exp := len(want)
	stopped := stop > 0 && stop <= len(want)
	if stopped {
		exp = stop
		c.Cover(Fam + " stopped")
	}
	if n != exp {
		c.Failf("%s: %d events, want %d", ctx(), n, exp)
	}
	if ret == stopped {
		c.Failf("%s: returned %v", ctx(), ret)
	}
}

func coverEvs(c *C, all []ev) {
	for _, e := range all {
		c.Cover(Fam + " " + evNames[e.class])
	}
}

// fullDiff checks every mask and many stopping points.
func fullDiff(c *C, what string, l, r T, lm, rm tm, eq func(a, b int) bool) {
	all := diffModel(lm, rm, eq)
	coverEvs(c, all)
	for m := 0; m < 16; m++ {
		checkDiff(c, what, l, r, lm, rm, all, m, 0)
	}
	for i := 0; i < 6; i++ {
		m := 15
		if c.Bool() {
			m = c.N(16)
		}
		checkDiff(c, what, l, r, lm, rm, all, m, 1+c.N(len(all)+1))
	}
	if len(all) > 0 {
		c.Distinct(hashTM(hashTM(mon.NewHash().Str(Fam), lm), rm))
	}
}

type eqFn func(a, b int) bool

// comparison draws a comparison of ints and a table using it.
func comparison(c *C) (eqFn, T_, string) {
	switch c.N(6) {
	case 0:
		eq := func(a, b int) bool { return a/2 == b/2 }
		c.Cover(Fam + " custom comparison")
		return eq, ip.NewTableCustomCompare_[int](eq), "halves"
	case 1:
		eq := func(a, b int) bool { return a%2 == b%2 }
		c.Cover(Fam + " custom comparison")
		return eq, ip.NewTableCustomCompare_[int](eq), "parity"
	case 2:
		eq := func(a, b int) bool { return a == b }
		return eq, ip.NewTableCustomCompare_[int](eq), "=="
	case 3:
		eq := func(a, b int) bool { return true }
		c.Cover(Fam + " custom comparison")
		return eq, ip.NewTableCustomCompare_[int](eq), "all"
	}
	return func(a, b int) bool { return a == b }, ip.NewTable_[int](), "default"
}

func c13History(c *C) {
	g := gen.New(c.Rng, W)
	eqL, t_, nameL := comparison(c)
	c.Op("universe %v, left comparison %s", g, nameL)
	l := newTT(g, 5)
	l.t, l.eq = t_, eqL
	for i := c.N(60); i > 0; i-- {
		l.step(c)
	}
	var r *tt
	kind := c.N(6)
	var eqR eqFn
	switch kind {
	case 0: // unrelated
		var tr T_
		eqR, tr, _ = comparison(c)
		r = newTT(g, 5)
		r.t, r.eq = tr, eqR
		for i := c.N(60); i > 0; i-- {
			r.step(c)
		}
		c.Cover(Fam + " unrelated")
	case 1: // same content, built separately (perhaps with other host bits)
		var tr T_
		eqR, tr, _ = comparison(c)
		r = newTT(g, 5)
		r.t, r.eq = tr, eqR
		ks := l.m.Keys()
		for _, i := range c.Perm(len(ks)) {
			r.op(c, 3, ks[i], l.m[ks[i]].v)
		}
		for i := c.N(5); i > 0; i-- {
			r.step(c)
		}
		c.Cover(Fam + " rebuilt")
	case 2: // one of them zero or empty
		r = newTT(g, 5)
		eqR = func(a, b int) bool { return a == b }
		z := T{}
		fullDiff(c, "with zero", l.t.Table(), z, l.m, tm{}, eqL)
		fullDiff(c, "zero with", z, l.t.Table(), tm{}, l.m, eqR)
		c.Cover(Fam + " with empty")
	default:
		eqR = eqL
		r = l.clone()
		for i := c.N(12); i > 0; i-- {
			r.step(c)
			if c.P(1, 3) {
				l.step(c)
			}
		}
		c.Cover(Fam + " shared history")
	}
	lt, rt := l.t.Table(), r.t.Table()
	fullDiff(c, "left right", lt, rt, l.m, r.m, eqL)
	fullDiff(c, "right left", rt, lt, r.m, l.m, eqR)
	fullDiff(c, "with itself", lt, lt, l.m, l.m, eqL)
	// stop in every call
	if all := diffModel(l.m, r.m, eqL); len(all) <= 40 {
		for s := 1; s <= len(all); s++ {
			checkDiff(c, "every stop", lt, rt, l.m, r.m, all, 15, s)
		}
	}
	// diffing changes nothing
	checkWalk(c, "left after Diff", lt, l.m)
	checkWalk(c, "right after Diff", rt, r.m)
	// derived by Map
	if c.P(1, 3) {
		mm := l.m.Clone()
		for k, e := range mm {
			if k.Addr.Lo>>uint(k.Len&7)&1 == 1 {
				mm[k] = ent{e.v + 1, e.forms}
			}
		}
		mt := lt.Map(func(p P, v int) int {
			if k := keyOf(p); k.Addr.Lo>>uint(k.Len&7)&1 == 1 {
				return v + 1
			}
			return v
		})
		// where the values compare equal either may be stored
		fixMapped(c, mt, l.m, mm, eqL)
		fullDiff(c, "with mapped", lt, mt, l.m, mm, eqL)
		fullDiff(c, "mapped with", mt, lt, mm, l.m, eqL)
	}
	c.Cover(Fam + " universe " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: %s vs %s", g, showTM(l.m), showTM(r.m)) })
}

// fixMapped adjusts the model of a mapped table: where the old and the new
// value compare equal, Map may keep the old one.
func fixMapped(c *C, t T, old, m tm, eq eqFn) {
	for k, e := range m {
		if o := old[k]; eq(o.v, e.v) && o.v != e.v {
			v, ok := t.Get(mkK(k))
			if !ok || v != o.v && v != e.v {
				c.Failf("after Map: Get(%s) is %d, %v, want %d or %d", pstr(k.Addr, k.Len), v, ok, o.v, e.v)
			}
			m[k] = ent{v, e.forms}
		}
	}
}

// c13Small: one subset of the 7 prefixes of a block against all 128.
func c13Small(c *C) {
	base, sh := smallBase(c, c.Idx/128, 2)
	ks := blockKeys(base, sh, 2)
	bitsL := c.Idx % 128
	eqf := func(a, b int) bool { return a == b }
	mk := func(from *tt, bits int) *tt {
		if from == nil {
			from = newTT(gen.Grid(c.Rng, W, base, sh, 2), 2)
		}
		for _, i := range c.Perm(7) {
			_, has := from.m[ks[i]]
			if bits>>uint(i)&1 == 1 {
				if !has || c.P(1, 3) {
					from.op(c, 3, ks[i], c.N(2))
				}
			} else if has {
				from.op(c, 6, ks[i], 0)
			}
		}
		return from
	}
	l := mk(nil, bitsL)
	lt := l.t.Table()
	for bitsR := 0; bitsR < 128; bitsR++ {
		var r *tt
		if bitsR%2 == c.Idx%2 {
			r = mk(l.clone(), bitsR)
			c.Cover(Fam + " shared history")
		} else {
			r = mk(nil, bitsR)
			c.Cover(Fam + " unrelated")
		}
		rt := r.t.Table()
		all := diffModel(l.m, r.m, eqf)
		coverEvs(c, all)
		for m := 0; m < 16; m++ {
			checkDiff(c, "small", lt, rt, l.m, r.m, all, m, 0)
		}
		for s := 1; s <= len(all); s++ {
			checkDiff(c, "small", lt, rt, l.m, r.m, all, 15, s)
		}
		if len(all) > 0 {
			c.Distinct(hashTM(hashTM(mon.NewHash().Str(Fam), l.m), r.m))
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s against every subset of %s", showTM(l.m), showKeys(ks)) })
}

// countTable builds a table whose comparison counts its calls.
func countTable(c *C, n int, calls *int64, sh func(i int) K) (T_, tm) {
	t := ip.NewTableCustomCompare_[int](func(a, b int) bool { *calls++; return a == b })
	m := tm{}
	for i := 0; len(m) < n && i < 4*n; i++ {
		k := sh(i)
		t.InsertOrUpdate(mkK(k), i&7)
		m[k] = ent{v: i & 7}
	}
	return t, m
}

// shape draws a way to spread keys, perhaps beneath a default route, its
// halves, or with a chain of all lengths among them.
func shape(c *C, n int) (func(i int) K, string) {
	sh, name := plainShape(c, n)
	var extra []K
	switch c.N(5) {
	case 0:
		extra = []K{{}}
		name += " beneath a default route"
	case 1:
		extra = append(blockKeys(U{}, W-2, 2), K{})
		name += " beneath the first seven prefixes"
	case 2:
		u := sh(0).Addr
		for l := 0; l <= W; l++ {
			extra = append(extra, model.MkKey(W, u, l))
		}
		name += " with a chain"
	}
	return func(i int) K {
		if i < len(extra) {
			return extra[i]
		}
		return sh(i)
	}, name
}

func plainShape(c *C, n int) (func(i int) K, string) {
	switch c.N(4) {
	case 0: // consecutive host routes
		base := gen.Rand(c.Rng, W).And(model.Mask(W, 10))
		return func(i int) K { return K{Addr: base.Add(U{Lo: uint64(i)}).And(maxU), Len: W} }, "consecutive"
	case 1: // random, random lengths
		return func(i int) K { return model.MkKey(W, gen.Rand(c.Rng, W), c.In(8, W)) }, "random"
	case 2: // nested: many chains
		return func(i int) K {
			return model.MkKey(W, U{Hi: uint64(i/16) * 0x9e3779b97f4a7c15, Lo: uint64(i/16) * 0x9e3779b97f4a7c15}.And(maxU), W-i%16)
		}, "chains"
	}
	base := gen.Rand(c.Rng, W)
	return func(i int) K {
		return model.MkKey(W, base.Xor(gen.Rand(c.Rng, W).And(model.Mask(W, W-16).Not())), W-c.N(3))
	}, "dense"
}

func c14Calls(c *C) {
	mods := c.N(9)
	n := 400 * (W + 2) / 10 * (1 + mods) // far more than the bound
	var calls int64
	sh, name := shape(c, n)
	t, m := countTable(c, n, &calls, sh)
	base := t.Table()
	ks := m.Keys()
	eqf := func(a, b int) bool { return a == b }
	bound := func(k int) int64 { return int64(2 * k * (W + 2)) }
	if int64(len(m)) < 2*bound(mods) {
		mon.Inconc("table of %d entries too small for bound %d", len(m), bound(mods))
	}
	check := func(what string, l, r T, lm, rm tm, k, mask int) {
		all := diffModel(lm, rm, eqf)
		calls = 0
		checkDiff(c, what, l, r, lm, rm, all, mask, 0)
		got := calls
		if got > bound(k) {
			c.Failf("%s: diff of tables of %d (%s) and %d entries differing by %d modifications made %d comparisons, bound %d", what, len(lm), name, len(rm), k, got, bound(k))
		}
		for _, e := range all {
			c.Cover(Fam + " " + evNames[e.class] + " reported")
		}
	}
	check("identical", base, base, m, m, 0, 7)
	check("copy", base, base.Table_().Table(), m, m, 0, 7)
	c.CoverN(Fam+" identical versions", 2)
	// no effect at all
	same := base.Build(func(b T_) bool {
		k := ks[c.N(len(ks))]
		b.Insert(mkK(k), 99)
		b.Update(mkK(k), m[k].v)
		b.InsertOrUpdate(mkK(k), m[k].v)
		b.GetOrInsert(mkK(k), 98)
		return true
	})
	check("no-op modifications", base, same, m, m, 4, 7)
	check("no-op modifications", same, base, m, m, 4, 7)

	m2 := m.Clone()
	mod := base.Table_()
	desc := ""
	for i := 0; i < mods; i++ {
		k := ks[c.N(len(ks))]
		switch c.N(4) {
		case 0:
			mod.Remove(mkK(k))
			delete(m2, k)
			desc += "-"
		case 1:
			k = sh(len(ks) + i)
			v := 100 + i
			mod.InsertOrUpdate(mkK(k), v)
			m2[k] = ent{v: v}
			desc += "+"
		case 2:
			k = model.MkKey(W, gen.Rand(c.Rng, W), c.N(W+1))
			if _, ok := m2[k]; !ok {
				mod.Insert(mkK(k), 7)
				m2[k] = ent{v: 7}
			}
			desc += "r"
		default:
			if _, ok := m2[k]; ok {
				mod.Update(mkK(k), 200+i)
				m2[k] = ent{v: 200 + i}
			}
			desc += "u"
		}
	}
	mt := mod.Table()
	mask := 7
	check("modified", base, mt, m, m2, mods, mask)
	check("modified, reverse", mt, base, m2, m, mods, mask)
	check("modified, some callbacks", base, mt, m, m2, mods, c.N(8))
	c.CoverN(Fam+" modified versions", 3)

	// a Map which leaves the values equal
	id := base.Map(func(_ P, v int) int { return v })
	check("mapped", base, id, m, m, 0, 7)
	check("mapped, reverse", id, base, m, m, 0, 7)
	mid := mt.Map(func(_ P, v int) int { return v })
	check("modified and mapped", base, mid, m, m2, mods, 7)
	// Map changing few values
	few := map[K]bool{}
	m3 := m.Clone()
	for i := 0; i < mods; i++ {
		k := ks[c.N(len(ks))]
		few[k] = true
		m3[k] = ent{v: 500}
	}
	ft := base.Map(func(p P, v int) int {
		if few[keyOf(p)] {
			return 500
		}
		return v
	})
	check("map of few values", base, ft, m, m3, mods, 7)
	c.CoverN(Fam+" mapped versions", 4)
	c.Distinct(mon.NewHash().Str(Fam).I(len(m)).Str(desc).Str(name))
	c.Sample(func() string { return fmt.Sprintf("%s table of %d entries, modifications %q", name, len(m), desc) })
}

// c14Time: diffing related versions must not look at the whole tables even
// where no comparison would show it.
func c14Time(c *C) {
	n := 60000
	var calls int64
	sh, name := shape(c, n)
	t, m := countTable(c, n, &calls, sh)
	base := t.Table()
	k := m.Keys()[c.N(len(m))]
	mod := base.Build(func(b T_) bool { b.Update(mkK(k), 77); return true })
	mapped := mod.Map(func(_ P, v int) int { return v })
	// processor time of this thread, so that a busy machine makes no difference
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best := func(f func()) time.Duration {
		min := time.Hour
		for i := 0; i < 9; i++ {
			t0 := mem.ThreadCPU()
			f()
			if d := mem.ThreadCPU() - t0; d < min {
				min = d
			}
		}
		return min
	}
	one := func(P, int) bool { return true }
	events := 0
	two := func(P, int, int) bool { events++; return true }
	walk := best(func() { base.Walk(one) })
	for what, r := range map[string]T{"itself": base, "a modified version": mod, "a mapped version": mapped} {
		r := r
		d := best(func() { base.Diff(r, two, one, one, nil) })
		c.Eval(1)
		if d*10 > walk {
			c.Failf("diff of a table of %d entries (%s) with %s takes %v of processor time, walking all of it %v", len(m), name, what, d, walk)
		}
	}
	if events != 18 {
		c.Failf("diff with one changed entry reported %d changes in 18 runs", events)
	}
	c.Distinct(mon.NewHash().Str(Fam).I(len(m)).I(c.Idx))
	c.Cover(Fam + " timed")
}
