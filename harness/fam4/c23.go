package fam4

import (
	"fmt"
	"runtime"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C23"] = "cases: sets and tables from empty to tens of thousands of entries in several shapes; every conversion between fixed and mutable form, and single changes (insert, update, remove; prefixes which merge, split, nest or are new) on them, with the heap objects and bytes they create counted by the runtime, and those kept alive counted by walking both versions. Oracle: fixed bounds which do not depend on size. Non-trivial: distinct (structure, size, change)."
	reg("C23", "tables", 60, 800, c23Tables).Serial = true
	reg("C23", "sets", 60, 800, c23Sets).Serial = true
	for _, k := range []string{"conversions of large tables", "conversions of large sets", "table changes", "set changes", "table changes undone", "set changes undone", "retained objects counted"} {
		mon.Need["C23"] = append(mon.Need["C23"], Fam+" "+k)
	}
}

// Bounds. A change may copy the path to the changed node, at most one node
// per bit; a set operation may do so several times.
const (
	convObjects   = 16
	convBytes     = 2048
	tableObjects  = 8 * (W + 4)
	setObjects    = 16 * (W + 4)
	keptPerChange = 4 * (W + 4)
)

type cost struct{ objects, bytes uint64 }

// measure returns the least cost of several runs of f on fresh subjects.
func measure(c *C, runs int, f func(i int)) cost {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	best := cost{^uint64(0), ^uint64(0)}
	var a, b runtime.MemStats
	for i := 0; i < runs; i++ {
		runtime.ReadMemStats(&a)
		f(i)
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n < best.objects {
			best.objects = n
		}
		if n := b.TotalAlloc - a.TotalAlloc; n < best.bytes {
			best.bytes = n
		}
	}
	c.Eval(1)
	return best
}

func wantConv(c *C, what string, n int, f func(i int)) {
	got := measure(c, 3, f)
	if got.objects > convObjects || got.bytes > convBytes {
		c.Failf("%s of size %d creates %d objects and %d bytes, bounds %d and %d", what, n, got.objects, got.bytes, convObjects, convBytes)
	}
}

func c23Size(c *C) int {
	return []int{0, 1, 10, 300, 3000, 20000}[c.Idx%6]
}

func c23Tables(c *C) {
	n := c23Size(c)
	sh, name := shape(c, n)
	t := ip.NewTable_[int]()
	m := tm{}
	for i := 0; len(m) < n && i < 2*n+100; i++ {
		k := sh(i)
		t.InsertOrUpdate(mkK(k), i&255)
		m[k] = ent{v: i & 255}
	}
	ks := m.Keys()
	tab := t.Table()
	var xt T
	var xt_ T_
	wantConv(c, "Table() of a table", len(m), func(int) { xt = t.Table() })
	wantConv(c, "Table_() of a table", len(m), func(int) { xt_ = tab.Table_() })
	wantConv(c, "Build without change of a table", len(m), func(int) { xt = tab.Build(func(T_) bool { return true }) })
	wantConv(c, "Build false of a table", len(m), func(int) { xt = tab.Build(func(T_) bool { return false }) })
	wantConv(c, "round trip of a table", len(m), func(int) { xt = xt_.Table().Table_().Table() })
	checkSame := xt.NumEntries()
	if checkSame != int64(len(m)) {
		c.Failf("conversions changed the number of entries from %d to %d", len(m), checkSame)
	}
	if n >= 3000 {
		c.Cover(Fam + " conversions of large tables")
	}
	for j := 0; j < 40; j++ {
		k := sh(n + j + c.N(100))
		switch c.N(4) {
		case 0:
			k = model.MkKey(W, gen.Rand(c.Rng, W), c.N(W+1))
		case 1, 2:
			if len(ks) > 0 {
				k = ks[c.N(len(ks))]
			}
		}
		op := c.N(5)
		p := mkK(k)
		v := 1000 + j
		what := fmt.Sprintf("operation %d on %v", op, p)
		// fresh clones outside of the measurement
		var subj [3]T_
		for i := range subj {
			subj[i] = tab.Table_()
		}
		got := measure(c, 3, func(i int) {
			s := subj[i]
			switch op {
			case 0:
				s.Insert(p, v)
			case 1:
				s.Update(p, v)
			case 2:
				s.InsertOrUpdate(p, v)
			case 3:
				s.GetOrInsert(p, v)
			default:
				s.Remove(p)
			}
		})
		if got.objects > tableObjects {
			c.Failf("%s in a table of %d entries (%s) creates %d objects, bound %d", what, len(m), name, got.objects, tableObjects)
		}
		c.Cover(Fam + " table changes")
		c.Distinct(mon.NewHash().Str(Fam).Str("t").I(len(m)).Str(what))
		// undo it: remove what was inserted, put back what was removed. The
		// key may be all there is on its side of the table.
		before := subj[0].Table()
		for i := range subj {
			subj[i] = before.Table_()
		}
		_, isIn := before.Get(p)
		got = measure(c, 3, func(i int) {
			if isIn {
				subj[i].Remove(p)
			} else {
				subj[i].Insert(p, v)
			}
		})
		if got.objects > tableObjects {
			c.Failf("the opposite of %s in a table of %d entries (%s) creates %d objects, bound %d", what, len(m), name, got.objects, tableObjects)
		}
		if j < 4 && n <= 3000 {
			after := subj[1].Table()
			kept, _ := mem.Reach(&before)
			both := struct{ a, b T }{before, after}
			all, _ := mem.Reach(&both)
			if all-kept > keptPerChange {
				c.Failf("the opposite of %s in a table of %d entries (%s): the new version keeps %d objects of its own, bound %d", what, len(m), name, all-kept, keptPerChange)
			}
		}
		c.Cover(Fam + " table changes undone")
		subj[0] = before.Table_()
		if j < 4 && n <= 3000 {
			after := subj[0].Table()
			before, _ := mem.Reach(&tab)
			both := struct{ a, b T }{tab, after}
			all, _ := mem.Reach(&both)
			if all-before > keptPerChange {
				c.Failf("%s in a table of %d entries (%s): the new version keeps %d objects of its own, bound %d", what, len(m), name, all-before, keptPerChange)
			}
			c.Cover(Fam + " retained objects counted")
		}
		// go on from there now and then
		if j%8 == 7 {
			tab = subj[0].Table()
		}
	}
	_ = xt
	c.Sample(func() string { return fmt.Sprintf("table of %d entries, %s", len(m), name) })
}

// c23Set makes a large set.
func c23Set(c *C, n int) (S, func() K, string) {
	t := ip.NewSet_()
	switch c.N(4) {
	case 0: // every other address: nothing merges
		base := gen.Rand(c.Rng, W).And(mask(W - 17))
		if c.Bool() {
			base = maxU.And(mask(W - 17))
		}
		for i := 0; i < n; i++ {
			t.Insert(mkA(base.Add(u128.From(uint64(2 * i)))))
		}
		return t.Set(), func() K {
			return model.MkKey(W, base.Add(u128.From(uint64(c.N(2*n+2)))), W-c.N(4))
		}, "every other address"
	case 1: // random prefixes
		var ks []K
		for i := 0; i < n; i++ {
			k := model.MkKey(W, gen.Rand(c.Rng, W), c.In(10, W))
			ks = append(ks, k)
			t.Insert(mkK(k))
		}
		return t.Set(), func() K {
			if len(ks) == 0 {
				return K{}
			}
			k := ks[c.N(len(ks))]
			return model.MkKey(W, k.Addr.Xor(u128.Bit(c.N(W))), c.In(0, W))
		}, "random prefixes"
	case 2: // everything minus holes
		t.Insert(mkR(U{}, maxU))
		for i := 0; i < n; i++ {
			t.Remove(mkA(gen.Rand(c.Rng, W)))
		}
		return t.Set(), func() K { return model.MkKey(W, gen.Rand(c.Rng, W), c.N(W+1)) }, "everything minus holes"
	}
	// one range with ragged ends, and islands
	lo := gen.Rand(c.Rng, W)
	t.Insert(mkR(lo, maxU))
	t.Remove(mkR(lo, lo))
	for i := 0; i < n; i++ {
		t.Insert(mkP(gen.Rand(c.Rng, W), W-c.N(8)))
	}
	return t.Set(), func() K { return model.MkKey(W, lo.Xor(u128.Bit(c.N(W))), c.N(W+1)) }, "ragged range"
}

func c23Sets(c *C) {
	n := c23Size(c)
	s, key, name := c23Set(c, n)
	num := 0
	s.WalkPrefixes(func(P) bool { num++; return true })
	t := s.Set_()
	var xs S
	var xt S_
	wantConv(c, "Set() of a Set_", num, func(int) { xs = t.Set() })
	wantConv(c, "Set_() of a Set", num, func(int) { xt = s.Set_() })
	wantConv(c, "Set() of a Set", num, func(int) { xs = s.Set() })
	wantConv(c, "Build without change of a Set", num, func(int) { xs = s.Build(func(S_) bool { return true }) })
	wantConv(c, "Build false of a Set", num, func(int) { xs = s.Build(func(S_) bool { return false }) })
	wantConv(c, "round trip of a Set", num, func(int) { xs = xt.Set().Set_().Set() })
	if !xs.Equal(s) {
		c.Failf("conversions changed a set of %d prefixes", num)
	}
	if num >= 2000 {
		c.Cover(Fam + " conversions of large sets")
	}
	for j := 0; j < 40; j++ {
		k := key()
		p := mkK(k)
		ins := c.Bool()
		what := fmt.Sprintf("removing %v", p)
		if ins {
			what = fmt.Sprintf("inserting %v", p)
		}
		var subj [3]S_
		for i := range subj {
			subj[i] = s.Set_()
		}
		got := measure(c, 3, func(i int) {
			if ins {
				subj[i].Insert(p)
			} else {
				subj[i].Remove(p)
			}
		})
		if got.objects > setObjects {
			c.Failf("%s in a set of %d prefixes (%s) creates %d objects, bound %d", what, num, name, got.objects, setObjects)
		}
		c.Cover(Fam + " set changes")
		c.Distinct(mon.NewHash().Str(Fam).Str("s").I(num).Str(what))
		mid := subj[0].Set()
		for i := range subj {
			subj[i] = mid.Set_()
		}
		got = measure(c, 3, func(i int) {
			if ins {
				subj[i].Remove(p)
			} else {
				subj[i].Insert(p)
			}
		})
		if got.objects > setObjects {
			c.Failf("undoing %s in a set of %d prefixes (%s) creates %d objects, bound %d", what, num, name, got.objects, setObjects)
		}
		c.Cover(Fam + " set changes undone")
		subj[0] = mid.Set_()
		if j < 4 && n <= 3000 {
			after := subj[0].Set()
			before, _ := mem.Reach(&s)
			both := struct{ a, b S }{s, after}
			all, _ := mem.Reach(&both)
			if all-before > keptPerChange {
				c.Failf("%s in a set of %d prefixes (%s): the new version keeps %d objects of its own, bound %d", what, num, name, all-before, keptPerChange)
			}
			c.Cover(Fam + " retained objects counted")
		}
		if j%8 == 7 {
			s = subj[0].Set()
		}
	}
	c.Sample(func() string { return fmt.Sprintf("set of %d prefixes, %s", num, name) })
}
