package fam4

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
	"unsafe"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C24"] = "cases: tables of pointers to tracked values, driven by random histories, by growing to thousands of entries in several shapes and shrinking again, by updates, refused operations, Aggregate, Map and Build; everything reachable from the table is walked and the tracked values among it are compared with those the table reports; the live heap is measured while large values come and go, and tables are made fixed and mutable again, built and mapped in chains; walks, diffs, maps and builds are abandoned half way by callbacks which return false, panic or end their goroutine. Oracle: objects and bytes linear in the number of entries, no tracked value that is not an entry's. Non-trivial: distinct (number of entries, reachable objects, operation)."
	reg("C24", "history", 1200, 20000, c24History)
	reg("C24", "churn", 160, 2500, c24Churn)
	reg("C24", "heap", 6, 40, c24Heap).Serial = true
	reg("C24", "freed", 4, 40, c24Freed).Serial = true
	for _, k := range []string{"values dropped", "shrunk to nothing", "shrunk tables", "aggregated", "mapped", "refused values", "heap measured", "values freed", "handed over", "abandoned"} {
		mon.Need["C24"] = append(mon.Need["C24"], Fam+" "+k)
	}
}

// box is a tracked value.
type box struct {
	id  int
	pad [5]uint64
}

type (
	BT  = ip.Table[*box]
	BT_ = ip.Table_[*box]
)

// boxes remembers every value which ever went near a table.
type boxes struct {
	all map[unsafe.Pointer]*box
	fin *finals
}

// finals counts values with finalizers instead of remembering them.
type finals struct {
	freed []int32
}

func (b *boxes) mk(id int) *box {
	x := &box{id: id}
	if b.fin != nil {
		n := len(b.fin.freed)
		if n == cap(b.fin.freed) {
			x.pad[0] = 0
			return x
		}
		b.fin.freed = b.fin.freed[:n+1]
		x.pad[0] = uint64(n) + 1
		flag := &b.fin.freed[n]
		runtime.SetFinalizer(x, func(*box) { atomic.StoreInt32(flag, 1) })
		return x
	}
	b.all[unsafe.Pointer(x)] = x
	return x
}

func retainBound(n int) (int, uintptr) { return 8*n + 24, uintptr(512*n + 4096) }

// check walks all that is reachable from root, which is a table or something
// made of it, and compares with what the table itself reports.
func (b *boxes) check(c *C, what string, root interface{}, t BT) {
	if b.fin != nil {
		return
	}
	n := 0
	live := map[unsafe.Pointer]bool{}
	t.Walk(func(_ P, x *box) bool {
		live[unsafe.Pointer(x)] = true
		n++
		return true
	})
	seen := mem.Pointers(root)
	objs, bytes := len(seen), uintptr(0)
	dead := 0
	for p, sz := range seen {
		bytes += sz
		if x, ok := b.all[p]; ok && !live[p] {
			dead++
			if dead == 1 {
				c.Op("value %d is still referenced", x.id)
			}
		}
	}
	c.Eval(2)
	if dead > 0 {
		c.Failf("%s: the table of %d entries still references %d values which none of its entries has", what, n, dead)
	}
	mo, mb := retainBound(n)
	if objs > mo || bytes > mb {
		c.Failf("%s: the table of %d entries holds %d objects and %d bytes, bounds %d and %d", what, n, objs, bytes, mo, mb)
	}
	c.Distinct(mon.NewHash().Str(Fam).I(n).I(objs).Str(what))
}

func (b *boxes) checkAll(c *C, what string, t BT_) {
	f := t.Table()
	b.check(c, what, &t, f)
	b.check(c, what+", fixed", &f, f)
	cl := f.Table_()
	b.check(c, what+", clone", &cl, f)
}

func (b *boxes) derived(c *C, what string, t BT_) {
	f := t.Table()
	a := f.Aggregate()
	b.check(c, what+", aggregated", &a, a)
	c.Cover(Fam + " aggregated")
	k := c.In(1, 4)
	m := f.Map(func(_ P, x *box) *box {
		if x != nil && x.id%k == 0 {
			return x
		}
		return b.mk(c.N(4))
	})
	b.check(c, what+", mapped", &m, m)
	c.Cover(Fam + " mapped")
	m = a.Map(func(P, *box) *box { return nil })
	b.check(c, what+", aggregated and mapped to nil", &m, m)
	r := f.Build(func(t_ BT_) bool {
		t_.Table().Walk(func(p P, _ *box) bool {
			t_.Update(p, b.mk(1))
			return true
		})
		return c.Bool()
	})
	b.check(c, what+", built", &r, r)
}

// handOver gives a mutable with the same entries, made from the given one in
// one of several ways, which must not keep the given one alive.
func handOver[V any](c *C, t ip.Table_[V]) ip.Table_[V] {
	c.Cover(Fam + " handed over")
	f := t.Table()
	switch c.N(6) {
	case 0:
		f = f.Build(func(ip.Table_[V]) bool { return true })
	case 1:
		f = f.Build(func(ip.Table_[V]) bool { return false })
	case 2:
		f = f.Map(func(_ P, v V) V { return v })
	case 3:
		f = f.Table_().Table()
	case 4:
		f = f.Build(func(u ip.Table_[V]) bool {
			f.Walk(func(p P, v V) bool { u.Update(p, v); return c.Bool() })
			return true
		})
	}
	return f.Table_()
}

// abandon begins operations which don't come to their end, because a callback
// says so, panics or ends its goroutine.
func abandon[V any](c *C, l, r ip.Table[V]) {
	for i := c.In(1, 4); i > 0; i-- {
		n := 1
		if x := l.NumEntries(); x > 1 && c.Bool() {
			n = c.In(1, int(x))
		}
		how := c.N(3)
		cb := func() bool {
			if n--; n != 0 {
				return true
			}
			switch how {
			case 1:
				panic("abandoned")
			case 2:
				runtime.Goexit()
			}
			return false
		}
		op := c.N(5)
		f := func() {
			defer func() {
				if r := recover(); r != nil && r != "abandoned" {
					panic(r)
				}
			}()
			walk := func(P, V) bool { return cb() }
			switch op {
			case 0, 1:
				l.Walk(walk)
			case 2:
				l.Diff(r, func(P, V, V) bool { return cb() }, walk, walk, walk)
			case 3:
				if how != 0 {
					l.Map(func(_ P, v V) V { cb(); return v })
				}
			case 4:
				l.Build(func(u ip.Table_[V]) bool {
					l.Walk(func(p P, _ V) bool { u.Remove(p); return cb() })
					return cb()
				})
			}
		}
		if how == 2 {
			done := make(chan struct{})
			go func() {
				defer close(done)
				f()
			}()
			<-done
		} else {
			f()
		}
	}
	c.Cover(Fam + " abandoned")
}

func newBT(c *C) BT_ {
	switch c.N(3) {
	case 0:
		k := c.In(1, 3)
		return ip.NewTableCustomCompare_[*box](func(a, b *box) bool {
			if a == nil || b == nil {
				return a == b
			}
			return a.id/k == b.id/k
		})
	}
	return ip.NewTable_[*box]()
}

func (b *boxes) step(c *C, t BT_, k K, bound int) string {
	p, _ := keyArg(c, k)
	v := b.mk(c.N(bound))
	op := c.N(9)
	_, had := t.Get(p)
	switch op {
	case 0, 1:
		if !t.Insert(p, v) {
			c.Cover(Fam + " refused values")
		}
	case 2, 3:
		t.Update(p, v)
	case 4, 5:
		t.InsertOrUpdate(p, v)
	case 6:
		t.GetOrInsert(p, v)
	default:
		t.Remove(p)
	}
	if had && op != 0 && op != 1 && op != 6 {
		c.Cover(Fam + " values dropped")
	}
	if c.Tracing() {
		c.Op("operation %d on %v, value %d", op, pstr(k.Addr, k.Len), v.id)
	}
	return [...]string{"Insert", "Insert", "Update", "Update", "InsertOrUpdate", "InsertOrUpdate", "GetOrInsert", "Remove", "Remove"}[op]
}

func c24History(c *C) {
	g := gen.New(c.Rng, W)
	b := &boxes{all: map[unsafe.Pointer]*box{}}
	t := newBT(c)
	n := c.In(10, 150)
	for i := 0; i < n; i++ {
		what := b.step(c, t, g.Key(), 5)
		if i%5 == 0 || i == n-1 {
			b.checkAll(c, "after "+what, t)
		}
		if i%50 == 49 || i == n-1 {
			b.derived(c, "after "+what, t)
		}
		if c.P(1, 40) {
			t = t.Table().Aggregate().Table_()
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%v: %d ops, ends with %d entries", g, n, t.NumEntries()) })
}

func c24Churn(c *C) {
	n := []int{60, 500, 3000}[c.Idx%3]
	sh, name := shape(c, n)
	b := &boxes{all: map[unsafe.Pointer]*box{}}
	t := newBT(c)
	var ks []K
	for i := 0; i < n; i++ {
		k := sh(i)
		ks = append(ks, k)
		t.InsertOrUpdate(mkK(k), b.mk(i%7))
	}
	b.checkAll(c, "grown", t)
	for i := 0; i < n/4; i++ {
		b.step(c, t, ks[c.N(len(ks))], 7)
	}
	b.checkAll(c, "changed", t)
	b.derived(c, "changed", t)
	// shrink, in one of three orders
	switch c.N(3) {
	case 0:
		for i := len(ks) - 1; i > 0; i-- {
			j := c.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	case 1:
		model.SortKeys(ks)
	case 2:
		model.SortKeys(ks)
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	keep := []int{0, 0, 1, 2, 5, 40}[c.N(6)]
	for i := 0; i < len(ks)-keep; i++ {
		t.Remove(mkK(ks[i]))
		if i%(n/5+1) == 0 {
			b.checkAll(c, "shrinking", t)
		}
	}
	b.checkAll(c, "shrunk", t)
	b.derived(c, "shrunk", t)
	if t.NumEntries() == 0 {
		c.Cover(Fam + " shrunk to nothing")
	} else {
		c.Cover(Fam + " shrunk tables")
	}
	c.Sample(func() string { return fmt.Sprintf("%d entries, %s, then %d", n, name, t.NumEntries()) })
}

// c24Heap: large values come and go; what is alive in between is measured by
// the collector, so that nothing outside of the table holds on to them either.
func c24Heap(c *C) {
	const size = 8 << 10
	t := ip.NewTableCustomCompare_[[]byte](func(a, b []byte) bool { return string(a) == string(b) })
	sh, name := shape(c, 40)
	var ks []K
	for i := 0; i < 40; i++ {
		ks = append(ks, sh(i))
	}
	mk := func(i int) []byte {
		b := make([]byte, size)
		b[i%size] = byte(i/size + 1)
		return b
	}
	run := func(n int) {
		for i := 0; i < n; i++ {
			p := mkK(ks[c.N(len(ks))])
			switch c.N(8) {
			case 7:
				if c.P(1, 8) {
					abandon(c, t.Table(), t.Table())
				}
			case 6:
				t = handOver(c, t)
			case 0:
				t.Insert(p, mk(i))
			case 1:
				t.Update(p, mk(i))
			case 2:
				t.InsertOrUpdate(p, mk(i))
			case 3:
				t.GetOrInsert(p, mk(i))
			case 4:
				t.Remove(p)
			case 5:
				f := t.Table()
				f.Map(func(_ P, v []byte) []byte { return v[:len(v):len(v)] }).Aggregate()
				f.Diff(t.Table(), nil, nil, nil, func(P, []byte) bool { return true })
				f.LongestMatch(p)
			}
		}
	}
	run(300)
	h0 := mem.Heap()
	run(2500)
	h1 := mem.Heap()
	c.Eval(1)
	const limit = 42*size + 1<<20
	if h1 > h0+limit {
		c.Failf("2500 operations on at most 40 entries (%s) of %d bytes let the live heap grow from %d to %d bytes", name, size, h0, h1)
	}
	for _, k := range ks {
		t.Remove(mkK(k))
	}
	h2 := mem.Heap()
	if h2 > h0+1<<20 {
		c.Failf("after all entries (%s) were removed the live heap is %d bytes, before it was %d", name, h2, h0)
	}
	if t.NumEntries() != 0 {
		c.Failf("%d entries after removing all", t.NumEntries())
	}
	c.Cover(Fam + " heap measured")
	c.Distinct(mon.NewHash().Str(Fam).Str("heap").I(c.Idx))
	c.Sample(func() string { return fmt.Sprintf("live heap %d, %d, %d bytes (%s)", h0, h1, h2, name) })
}

// c24Freed: values with finalizers go through histories of many tables, most of
// which are then dropped. Whatever is not in one of the others must become
// garbage: neither a table nor the library may hold on to it.
func c24Freed(c *C) {
	fin := &finals{freed: make([]int32, 0, 120000)}
	var kept []BT
	done := make(chan interface{})
	go func() {
		defer func() { done <- recover() }()
		kept = c24Rounds(c, fin)
	}()
	if r := <-done; r != nil {
		panic(r)
	}
	in := map[uint64]bool{}
	for _, t := range kept {
		t.Walk(func(_ P, x *box) bool {
			if x != nil {
				in[x.pad[0]] = true
			}
			return true
		})
	}
	left := 0
	for try := 0; try < 100; try++ {
		runtime.GC()
		time.Sleep(time.Duration(try) * time.Millisecond)
		left = 0
		for i := range fin.freed {
			if atomic.LoadInt32(&fin.freed[i]) == 0 && !in[uint64(i)+1] {
				left++
			}
		}
		if left == 0 {
			break
		}
	}
	c.Eval(len(fin.freed))
	c.CoverN(Fam+" values freed", len(fin.freed)-len(in))
	c.Distinct(mon.NewHash().Str(Fam).Str("freed").I(c.Idx))
	if left != 0 {
		c.Failf("of %d values which went through tables, %d are still referenced although no reachable table has them (%d tables left)", len(fin.freed), left, len(kept))
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d values, %d tables and %d values remain", len(fin.freed), len(kept), len(in))
	})
	runtime.KeepAlive(kept)
}

//go:noinline
func c24Rounds(c *C, fin *finals) (kept []BT) {
	b := &boxes{fin: fin}
	for round := 0; round < 150; round++ {
		t := newBT(c)
		var ks []K
		switch c.N(4) {
		case 0:
			g := gen.New(c.Rng, W)
			for i := 0; i < 40; i++ {
				ks = append(ks, g.Key())
			}
		case 1:
			u := gen.Rand(c.Rng, W)
			for l := c.N(W); l <= W && len(ks) < 40; l++ {
				ks = append(ks, model.MkKey(W, u, l))
			}
		default:
			n := []int{60, 60, 60, 130, 400}[c.N(5)]
			sh, _ := shape(c, n)
			for i := 0; i < n; i++ {
				ks = append(ks, sh(i))
			}
		}
		for _, k := range ks {
			if c.P(9, 10) {
				t.InsertOrUpdate(mkK(k), b.mk(c.N(5)))
			}
		}
		old := t.Table()
		for i := c.N(60); i > 0; i-- {
			k := ks[c.N(len(ks))]
			b.step(c, t, k, 5)
			if c.P(1, 12) {
				t = handOver(c, t)
			}
			if c.P(1, 8) {
				t.Get(mkK(k))
				t.LongestMatch(mkK(k))
				old.Get(mkK(k))
				old.LongestMatch(mkK(k))
			}
		}
		nop := func(P, *box) bool { return true }
		old.Diff(t.Table(), func(P, *box, *box) bool { return true }, nop, nop, nop)
		t.Table().Diff(old, nil, nil, nop, nil)
		abandon(c, old, t.Table())
		b.derived(c, "", t)
		switch c.N(6) {
		case 0:
			for _, k := range ks {
				t.Remove(mkK(k))
			}
			kept = append(kept, t.Table())
		case 1:
			for _, k := range ks[c.N(len(ks)):] {
				t.Remove(mkK(k))
			}
			kept = append(kept, t.Table().Aggregate())
		case 2:
			kept = append(kept, t.Table())
		}
	}
	return kept
}
