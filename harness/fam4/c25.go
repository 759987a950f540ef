package fam4

import (
	"fmt"
	"runtime"
	"time"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C25"] = "cases: tables and sets of 60,000 to 120,000 entries in several shapes; the processor time of lookups, counts, single changes and early-stopped iterations on them (batches on distinct keys, minimum of several runs on a locked thread) is compared with the time of one complete walk of the same structure (also on a table which was made mutable and fixed again 400,000 times); the time of every bulk operation is compared with its time on a structure 64 times smaller, which was pushed out of the processor's caches before. Oracle: a single operation costs less than 1/30 of a walk, a bulk one less than 1,000 times its cost at 1/64 of the size (a linear one costs 64 times as much, a quadratic one 4,096 times). Non-trivial: distinct (operation, shape)."
	mon.Assume["C25"] = []string{"processor time of a locked thread, minimum of several runs, separates costs which differ by a factor of hundreds"}
	reg("C25", "tables", 4, 24, c25Tables).Serial = true
	reg("C25", "sets", 4, 24, c25Sets).Serial = true
	reg("C25", "bulk-tables", 3, 24, c25BulkTables).Serial = true
	reg("C25", "bulk-sets", 3, 24, c25BulkSets).Serial = true
	for _, k := range []string{"single table operations", "single set operations", "bulk table operations", "bulk set operations", "operations after many conversions"} {
		mon.Need["C25"] = append(mon.Need["C25"], Fam+" "+k)
	}
}

const (
	c25Single = 30   // a walk costs at least this many single operations
	c25Growth = 1000 // growth of a bulk operation on 64 times the size
)

// cpu returns the least processor time of f over several runs, each on its own
// subject.
func cpu(runs int, f func(i int)) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best := time.Duration(1 << 62)
	for i := 0; i < runs; i++ {
		t0 := mem.ThreadCPU()
		f(i)
		if d := mem.ThreadCPU() - t0; d < best {
			best = d
		}
	}
	return best
}

// single checks that one call of f costs much less than a walk. f is called
// with 0, 1, 2 ... 15, in each of several runs.
func single(c *C, what, name string, walk time.Duration, f func(run, i int)) {
	const batch = 16
	ok := false
	var d time.Duration
	for try := 0; try < 5 && !ok; try++ {
		d = cpu(3, func(run int) {
			for i := 0; i < batch; i++ {
				f(run, i)
			}
		}) / batch
		ok = d*c25Single <= walk
	}
	c.Eval(1)
	c.Distinct(mon.NewHash().Str(Fam).Str(what).Str(name))
	if !ok {
		c.Failf("%s (%s): a single operation takes %v, a complete walk of the structure %v", what, name, d, walk)
	}
}

func c25Table(c *C, n int) (T_, []K, string) {
	sh, name := shape(c, n)
	t := ip.NewTable_[int]()
	seen := map[K]bool{}
	var ks []K
	for i := 0; len(ks) < n && i < 3*n+1000; i++ {
		k := sh(i)
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
			t.Insert(mkK(k), i&7)
		}
	}
	return t, ks, name
}

func c25Tables(c *C) {
	n := 60000 + c.N(60000)
	t, ks, name := c25Table(c, n)
	f := t.Table()
	if len(ks) < 10000 {
		mon.Inconc("table %s of only %d entries", name, len(ks))
	}
	walk := cpu(5, func(int) { f.Walk(func(P, int) bool { return true }) })
	var hit, miss [64]P
	for i := range hit {
		hit[i] = mkK(ks[c.N(len(ks))])
		miss[i] = mkK(model.MkKey(W, gen.Rand(c.Rng, W), c.N(W+1)))
	}
	s := func(what string, g func(run, i int)) {
		single(c, what, fmt.Sprintf("table of %d entries, %s", len(ks), name), walk, g)
		c.Cover(Fam + " single table operations")
	}
	var sink int64
	s("Get", func(_, i int) { f.Get(hit[i]) })
	s("Get of a missing entry", func(_, i int) { f.Get(miss[i]) })
	s("Get of a Table_", func(_, i int) { t.Get(hit[i]) })
	s("LongestMatch", func(_, i int) { f.LongestMatch(hit[i].Address()) })
	s("LongestMatch of random", func(_, i int) { t.LongestMatch(miss[i].Address()) })
	s("NumEntries", func(_, i int) { sink += f.NumEntries() })
	s("NumEntries of a Table_", func(_, i int) { sink += t.NumEntries() })
	s("Walk stopped in the first call", func(_, i int) { f.Walk(func(P, int) bool { return false }) })
	s("Table", func(_, i int) { t.Table() })
	s("Table_", func(_, i int) { f.Table_() })
	var cl [15]T_
	for i := range cl {
		cl[i] = f.Table_()
	}
	at := 0
	mut := func(what string, g func(t T_, i int)) {
		for i := range cl {
			cl[i] = f.Table_()
		}
		at = 0
		s(what, func(run, i int) {
			g(cl[at%15], i)
			if i == 15 {
				at++
			}
		})
	}
	mut("Insert", func(t T_, i int) { t.Insert(miss[i], i) })
	mut("Insert of an existing entry", func(t T_, i int) { t.Insert(hit[i], i) })
	mut("Update", func(t T_, i int) { t.Update(hit[i], 1000+i) })
	mut("InsertOrUpdate", func(t T_, i int) { t.InsertOrUpdate(miss[i], 1000+i) })
	mut("GetOrInsert", func(t T_, i int) { t.GetOrInsert(hit[i], 1000+i) })
	mut("GetOrInsert of a missing entry", func(t T_, i int) { t.GetOrInsert(miss[i], 1000+i) })
	mut("Remove", func(t T_, i int) { t.Remove(hit[i]) })
	mut("Remove of a missing entry", func(t T_, i int) { t.Remove(miss[i]) })
	mut("Insert and Remove", func(t T_, i int) { t.Insert(miss[i+16], 1); t.Remove(miss[i+16]) })
	mut("Build", func(t T_, i int) { f.Build(func(b T_) bool { return b.Insert(miss[i], 1) }) })
	// one which was made mutable and fixed again very often
	aged := f
	for i := 0; i < 400000; i++ {
		switch i & 3 {
		case 0:
			aged = aged.Build(func(T_) bool { return true })
		default:
			aged = aged.Table_().Table()
		}
	}
	aged1 := aged.Build(func(b T_) bool { b.InsertOrUpdate(hit[0], 4000); return true })
	s("Get after many conversions", func(_, i int) { aged.Get(hit[i]) })
	s("Update after many conversions", func(_, i int) { aged.Table_().Update(hit[i], 1000+i) })
	s("InsertOrUpdate after many conversions", func(_, i int) { aged.Table_().InsertOrUpdate(miss[i], 1000+i) })
	s("Diff of versions after many conversions", func(_, i int) { aged.Diff(aged1, nil, nil, nil, nil) })
	c.Cover(Fam + " operations after many conversions")
	// diffs of versions
	var vs [16]T
	for i := range vs {
		v := f.Table_()
		v.InsertOrUpdate(hit[i], 5000)
		v.InsertOrUpdate(miss[i], 5001)
		v.Remove(hit[i+16])
		vs[i] = v.Table()
	}
	nop := func(P, int) bool { return true }
	nop2 := func(P, int, int) bool { return true }
	other := f.Map(func(_ P, v int) int { return v + 1 })
	s("Diff of versions", func(_, i int) { f.Diff(vs[i], nop2, nop, nop, nil) })
	s("Diff of the same version", func(_, i int) { f.Diff(t.Table(), nop2, nop, nop, nil) })
	stop, stop2 := func(P, int) bool { return false }, func(P, int, int) bool { return false }
	s("Diff of the same stopped in the first call", func(_, i int) { f.Diff(f, nil, nil, nil, stop) })
	s("Diff of versions stopped in the first call", func(_, i int) { vs[i].Diff(f, stop2, stop, stop, stop) })
	s("Diff from nothing stopped in the first call", func(_, i int) { T{}.Diff(f, nil, nil, stop, nil) })
	s("Diff of mapped stopped in the first call", func(_, i int) { other.Diff(f, stop2, stop, stop, stop) })
	s("Diff stopped in the first call", func(_, i int) {
		f.Diff(T{}, nop2, func(P, int) bool { return false }, nop, nil)
	})
	c.Sample(func() string { return fmt.Sprintf("%d entries, %s: walk %v", len(ks), name, walk) })
	_ = sink
}

func c25Sets(c *C) {
	n := 60000 + c.N(60000)
	t := ip.NewSet_()
	k, name := c25Spread(c)
	minus := false
	if c.Idx >= 3 || c.Bool() {
		minus = true
		name = "everything minus " + name
		t.Insert(mkR(U{}, maxU))
	}
	for i := 0; i < n; i++ {
		if minus {
			t.Remove(mkK(k(i)))
		} else {
			t.Insert(mkK(k(i)))
		}
	}
	s := t.Set()
	key := func() K { x := k(c.N(n)); x.Len -= c.N(3); return model.MkKey(W, x.Addr, x.Len) }
	num := 0
	walk := cpu(5, func(int) {
		num = 0
		s.WalkPrefixes(func(P) bool { num++; return true })
	})
	var ks [64]P
	var as [64]A
	for i := range ks {
		ks[i] = mkK(key())
		as[i] = mkA(gen.Rand(c.Rng, W))
		if i%2 == 0 {
			as[i] = ks[i].Address()
		}
	}
	whole := mkR(U{}, maxU).Set()
	sg := func(what string, g func(run, i int)) {
		single(c, what, fmt.Sprintf("set of %d prefixes, %s", num, name), walk, g)
		c.Cover(Fam + " single set operations")
	}
	if num < 3000 {
		mon.Inconc("set %s of only %d prefixes", name, num)
	}
	sg("Contains of an address", func(_, i int) { s.Contains(as[i]) })
	sg("Contains of an address in a Set_", func(_, i int) { t.Contains(as[i]) })
	sg("Set", func(_, i int) { t.Set() })
	sg("Set_", func(_, i int) { s.Set_() })
	sg("Equal to itself", func(_, i int) { s.Equal(t.Set()) })
	sg("WalkPrefixes stopped", func(_, i int) { s.WalkPrefixes(func(P) bool { return false }) })
	if !minus { // else the first range may be of many prefixes
		sg("WalkRanges stopped", func(_, i int) { s.WalkRanges(func(R) bool { return false }) })
	}
	sg("WalkAddresses stopped", func(_, i int) { walkAddresses(s, func(A) bool { return false }) })
	sg("Contains of a prefix", func(_, i int) { s.Contains(ks[i]) })
	sg("Contains of a prefix in a Set_", func(_, i int) { t.Contains(ks[i].Set()) })
	sg("Contains of a small range", func(_, i int) { s.Contains(ks[i].Range()) })
	sg("Contains of nothing", func(_, i int) { s.Contains(nil); s.Contains(S{}); t.Contains(S_{}) })
	sg("difference of nothing and it", func(_, i int) { S{}.Difference(s); S{}.Intersection(t) })
	sg("union of nothing and it", func(_, i int) { S{}.Union(s) })
	sg("union with everything", func(_, i int) { s.Union(whole); whole.Union(s) })
	sg("everything without it, as a prefix", func(_, i int) { s.Difference(whole) })
	sg("Equal to something else", func(_, i int) { s.Equal(as[i].Set()); as[i].Set().Equal(s) })
	sg("Set_.Equal to itself", func(_, i int) { t.Equal(t) })
	sg("Union with an address", func(_, i int) { s.Union(as[i]) })
	sg("Difference with an address", func(_, i int) { s.Difference(as[i]) })
	sg("Intersection with an address", func(_, i int) { s.Intersection(as[i]) })
	sg("Union of an address with it", func(_, i int) { as[i].Set().Union(s) })
	sg("Intersection of an address with it", func(_, i int) { as[i].Set().Intersection(s) })
	sg("Difference of an address and it", func(_, i int) { as[i].Set().Difference(s) })
	sg("Union with itself", func(_, i int) { s.Union(t) })
	sg("Union with nil", func(_, i int) { s.Union(nil) })
	sg("Difference with nil", func(_, i int) { s.Difference(nil) })
	sg("Intersection with nil", func(_, i int) { s.Intersection(nil) })
	sg("address contains it", func(_, i int) { as[i].Prefix().Contains(mkA(maxU)) })
	at := 0
	var cl [15]S_
	mut := func(what string, g func(t S_, i int)) {
		for i := range cl {
			cl[i] = s.Set_()
		}
		at = 0
		sg(what, func(run, i int) {
			g(cl[at%15], i)
			if i == 15 {
				at++
			}
		})
	}
	mut("Insert of an address", func(t S_, i int) { t.Insert(as[i]) })
	mut("Remove of an address", func(t S_, i int) { t.Remove(as[i]) })
	mut("Insert of a prefix", func(t S_, i int) { t.Insert(ks[i]) })
	mut("Remove of a prefix", func(t S_, i int) { t.Remove(ks[i]) })
	mut("Insert of a range", func(t S_, i int) { t.Insert(ks[i].Range()) })
	mut("Remove of a range", func(t S_, i int) { t.Remove(ks[i].Range()) })
	mut("Insert of nothing", func(t S_, i int) { t.Insert(nil); t.Insert(S{}); t.Insert(S_{}) })
	mut("Remove of nothing", func(t S_, i int) { t.Remove(nil); t.Remove(S{}); t.Remove(S_{}) })
	mut("Insert of itself", func(t S_, i int) { t.Insert(t) })
	mut("Insert of everything", func(t S_, i int) { t.Insert(whole) })
	mut("Remove of everything", func(t S_, i int) { t.Remove(whole) })
	mut("Insert and Remove", func(t S_, i int) { t.Insert(as[i+16]); t.Remove(as[i+16]) })
	mut("Build", func(t S_, i int) { s.Build(func(b S_) bool { b.Insert(as[i]); return true }) })
	c.Sample(func() string { return fmt.Sprintf("%d prefixes, %s: walk %v", num, name, walk) })
}

const c25Tiny, c25Mid, c25Small, c25Large = 1 << 8, 1 << 14, 1 << 11, 1 << 17

var evictBuf []byte

// evict fills the processor's caches with something else.
func evict() {
	if evictBuf == nil {
		evictBuf = make([]byte, 64<<20)
	}
	for i := 0; i < len(evictBuf); i += 64 {
		evictBuf[i]++
	}
}

// growth compares the costs of f on the small and on the large subjects, and
// before that on much smaller ones of the same ratio, which end in time even
// if the costs grow much too fast.
func growth(c *C, what, name string, subjects [4]func(i int)) {
	if grows(c, what, name, subjects[0], subjects[1], c25Tiny, c25Mid) {
		grows(c, what, name, subjects[2], subjects[3], c25Small, c25Large)
	}
}

func grows(c *C, what, name string, small, large func(i int), nSmall, nLarge int) bool {
	var a, b time.Duration
	ok := false
	for try := 0; try < 3 && !ok; try++ {
		// both without help of the caches
		a = time.Duration(1 << 62)
		for i := 0; i < 5; i++ {
			evict()
			if d := cpu(1, small); d < a {
				a = d
			}
		}
		evict()
		b = cpu(1, large)
		if b > c25Growth*a && b < 10*time.Second {
			evict()
			if d := cpu(1, large); d < b {
				b = d
			}
		}
		if a < 2*time.Microsecond {
			a = 2 * time.Microsecond
		}
		ok = b <= c25Growth*a
	}
	c.Eval(1)
	c.Distinct(mon.NewHash().Str(Fam).Str(what).Str(name))
	if !ok {
		c.Failf("%s (%s): takes %v at size %d and %v at size %d", what, name, a, nSmall, b, nLarge)
	}
	return ok
}

// c25Spread makes keys of one shape which scales to any size.
func c25Spread(c *C) (func(i int) K, string) {
	switch c.Idx % 3 {
	case 0:
		u := gen.Rand(c.Rng, W).And(model.Mask(W, W-20))
		return func(i int) K { return K{Addr: u.Add(u128.From(uint64(2 * i))), Len: W} }, "every other address"
	case 1:
		return func(i int) K { return model.MkKey(W, gen.Rand(c.Rng, W), W-8+c.N(9)) }, "random"
	}
	u := gen.Rand(c.Rng, W).And(model.Mask(W, W-20))
	return func(i int) K { return model.MkKey(W, u.Add(u128.From(uint64(i/2*4))), W-i%2) }, "nested pairs"
}

func c25BulkTables(c *C) {
	key, name := c25Spread(c)
	mk := func(n int) T {
		t := ip.NewTable_[int]()
		for i := 0; i < n; i++ {
			t.InsertOrUpdate(mkK(key(i)), i%3)
		}
		return t.Table()
	}
	var as, bs [4]T
	for i, n := range [4]int{c25Tiny, c25Mid, c25Small, c25Large} {
		as[i], bs[i] = mk(n), mk(n)
	}
	nop := func(P, int) bool { return true }
	nop2 := func(P, int, int) bool { return true }
	g := func(what string, f func(a, b T)) {
		var fs [4]func(int)
		for i := range fs {
			a, b := as[i], bs[i]
			fs[i] = func(int) { f(a, b) }
		}
		growth(c, what, name, fs)
		c.Cover(Fam + " bulk table operations")
	}
	g("Walk", func(a, _ T) { a.Walk(nop) })
	g("Map to the same", func(a, _ T) { a.Map(func(_ P, v int) int { return v }) })
	g("Map", func(a, _ T) { a.Map(func(_ P, v int) int { return v + 1 }) })
	g("Aggregate", func(a, _ T) { a.Aggregate() })
	g("Diff", func(a, b T) { a.Diff(b, nop2, nop, nop, nop) })
	g("Diff without unchanged", func(a, b T) { a.Diff(b, nop2, nop, nop, nil) })
	g("Diff with itself", func(a, _ T) { a.Diff(a, nop2, nop, nop, nop) })
	g("Diff without callbacks", func(a, b T) { a.Diff(b, nil, nil, nil, nil) })
	g("Diff from nothing", func(a, _ T) { T{}.Diff(a, nop2, nop, nop, nop) })
	g("Diff with its mapped", func(a, _ T) { a.Diff(a.Map(func(_ P, v int) int { return v ^ 1 }), nop2, nop, nop, nop) })
	g("Aggregate of the aggregated", func(a, _ T) { a.Aggregate().Aggregate() })
	g("Aggregate of one value", func(a, _ T) { a.Map(func(P, int) int { return 7 }).Aggregate() })
	g("updating all", func(a, _ T) {
		t := a.Table_()
		a.Walk(func(p P, v int) bool { return t.Update(p, v+1) })
	})
	g("Diff with nothing", func(a, _ T) { a.Diff(T{}, nop2, nop, nop, nop) })
	g("copying", func(a, _ T) {
		t := ip.NewTable_[int]()
		a.Walk(func(p P, v int) bool { return t.Insert(p, v) })
	})
	g("removing all", func(a, _ T) {
		t := a.Table_()
		a.Walk(func(p P, v int) bool { return t.Remove(p) })
	})
	c.Sample(func() string {
		return fmt.Sprintf("%s: %d and %d entries", name, as[2].NumEntries(), as[3].NumEntries())
	})
}

func c25BulkSets(c *C) {
	key, name := c25Spread(c)
	mk := func(n int) S {
		t := ip.NewSet_()
		for i := 0; i < n; i++ {
			t.Insert(mkK(key(i)))
		}
		return t.Set()
	}
	var as, bs [4]S
	for i, n := range [4]int{c25Tiny, c25Mid, c25Small, c25Large} {
		as[i], bs[i] = mk(n), mk(n)
	}
	nopP := func(P) bool { return true }
	g := func(what string, f func(a, b S)) {
		var fs [4]func(int)
		for i := range fs {
			a, b := as[i], bs[i]
			fs[i] = func(int) { f(a, b) }
		}
		growth(c, what, name, fs)
		c.Cover(Fam + " bulk set operations")
	}
	g("WalkPrefixes", func(a, _ S) { a.WalkPrefixes(nopP) })
	g("WalkRanges", func(a, _ S) { a.WalkRanges(func(R) bool { return true }) })
	g("NumPrefixes", func(a, _ S) { a.NumPrefixes(W) })
	g("String", func(a, _ S) { _ = a.String() })
	g("Union", func(a, b S) { a.Union(b) })
	g("Intersection", func(a, b S) { a.Intersection(b) })
	g("Difference", func(a, b S) { a.Difference(b) })
	g("Contains", func(a, b S) { a.Contains(b) })
	g("Contains itself", func(a, b S) { a.Contains(a) })
	g("Difference with itself", func(a, b S) { a.Difference(a) })
	g("Intersection with itself", func(a, b S) { a.Intersection(a) })
	g("Equal", func(a, b S) { a.Equal(b) })
	g("IsEmpty", func(a, _ S) { a.IsEmpty() })
	g("complement", func(a, b S) { mkR(U{}, maxU).Set().Difference(a) })
	whole, most := mkR(U{}, maxU).Set(), mkR(U{Lo: 1}, maxU.Sub(u128.From(1))).Set()
	one := mkA(U{Lo: 4})
	g("WalkAddresses", func(a, _ S) { walkAddresses(a, func(A) bool { return true }) })
	g("Intersection with everything", func(a, _ S) { a.Intersection(whole); whole.Intersection(a) })
	g("Intersection with most", func(a, _ S) { a.Intersection(most); most.Intersection(a) })
	g("Difference with most", func(a, _ S) { a.Difference(most); most.Difference(a) })
	g("Union with most", func(a, _ S) { a.Union(most); most.Union(a) })
	g("Range.Contains", func(a, _ S) { mkR(U{Lo: 1}, maxU.Sub(u128.From(1))).Contains(a) })
	g("Prefix.Contains", func(a, _ S) { mkK(K{}).Contains(a) })
	g("Contains of most", func(a, _ S) { a.Contains(most); a.Contains(whole) })
	g("Equal to its copy and one", func(a, _ S) { b := whole.Intersection(a); b.Equal(a); b.Union(one).Equal(a) })
	g("Contains of its copy and one", func(a, _ S) { b := whole.Intersection(a); b.Contains(a); a.Contains(b.Union(one)) })
	g("FindAvailablePrefix", func(a, b S) { a.FindAvailablePrefix(b, W) })
	g("FindAvailablePrefix in all", func(a, b S) { mkR(U{}, maxU).Set().FindAvailablePrefix(b, W) })
	g("FindAvailablePrefix without room", func(a, b S) { a.FindAvailablePrefix(a, W) })
	for _, l := range []int{0, W - 10, W - 3, W - 2, W - 1} {
		l := l
		g(fmt.Sprintf("FindAvailablePrefix of length %d", l), func(a, _ S) { a.FindAvailablePrefix(nil, uint32(l)) })
		g(fmt.Sprintf("FindAvailablePrefix of length %d with reserved", l), func(a, b S) { a.FindAvailablePrefix(b, uint32(l)) })
	}
	g("FindAvailablePrefix around one address", func(a, b S) { a.FindAvailablePrefix(mkA(U{}), W) })
	for _, l := range []int{0, W - 10, W - 1} {
		l := l
		g(fmt.Sprintf("NumPrefixes of length %d", l), func(a, _ S) { a.NumPrefixes(uint32(l)) })
	}
	g("contained in everything", func(a, _ S) { mkR(U{}, maxU).Contains(a) })
	g("contained in its range", func(a, _ S) { mkR(U{}, maxU.Sub(u128.From(1))).Set().Contains(a) })
	g("Set_.Insert of all", func(a, b S) { t := a.Set_(); t.Insert(b) })
	g("Set_.Remove of all", func(a, b S) { t := a.Set_(); t.Remove(b) })
	g("Set_.Remove of itself", func(a, b S) { t := a.Set_(); t.Remove(a) })
	g("Build", func(a, b S) { a.Build(func(t S_) bool { t.Insert(b); return true }) })
	g("copying", func(a, _ S) {
		t := ip.NewSet_()
		a.WalkPrefixes(func(p P) bool { t.Insert(p); return true })
	})
	g("removing all", func(a, _ S) {
		t := a.Set_()
		a.WalkPrefixes(func(p P) bool { t.Remove(p); return true })
	})
	c.Sample(func() string { return name })
}
