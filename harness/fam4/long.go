package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"
	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

// Long histories: a table or set is read in every way, then modified 2^n
// times (or nearly so) without a single read, then read again, first what was
// read last. Whatever counts modifications in few bits comes around.

func init() {
	for _, p := range []string{"C10", "C11", "C12", "C17"} {
		reg(p, "long-table", 16, 160, longTable).Fixed = true
		mon.Rules[p] += " Workload long-table: a table is read in every way, modified 2^n (or 2^n-1, 2^n+1) times without a read in between, up to 65,536, or as many other tables are made, and read again, what was read last first."
		mon.Need[p] = append(mon.Need[p], Fam+" long histories of a table")
	}
	for _, p := range []string{"C01", "C02", "C03", "C17"} {
		reg(p, "long-set", 16, 160, longSet).Fixed = true
		mon.Rules[p] += " Workload long-set: a set is read in every way, modified 2^n (or 2^n-1, 2^n+1) times without a read in between, up to 65,536, or as many other sets are made, and read again, what was read last first."
		mon.Need[p] = append(mon.Need[p], Fam+" long histories of a set")
	}
}

// gaps gives the numbers of modifications between reads.
func gaps(c *C) []int {
	g := []int{256, 256, 65536, 65536, 1 << uint(c.N(15)), 1 << uint(c.N(15)), 1<<uint(c.N(15)) + 1, 1<<uint(c.In(1, 15)) - 1, 255, 257, c.N(1000)}
	for i, j := range c.Perm(len(g)) {
		g[i], g[j] = g[j], g[i]
	}
	return g
}

func longTable(c *C) {
	g := gen.New(c.Rng, W)
	t := ip.NewTable_[int]()
	m := tm{}
	var keys []K
	for n := c.In(1, 12); n > 0; n-- {
		keys = append(keys, g.Key())
	}
	next := 0
	// effective makes one modification which changes something
	effective := func(k K, mayRemove bool) {
		p := mkK(k)
		next++
		_, has := m[k]
		op := c.N(4)
		switch {
		case has && mayRemove && op < 2:
			if !t.Remove(p) {
				c.Failf("Remove(%v) gave false, the entry is there: %s", p, showTM(m))
			}
			delete(m, k)
			return
		case has && op < 3:
			if !t.Update(p, next) {
				c.Failf("Update(%v) gave false, the entry is there: %s", p, showTM(m))
			}
		case has || op == 0:
			t.InsertOrUpdate(p, next)
		case op == 1:
			if v := t.GetOrInsert(p, next); v != next {
				c.Failf("GetOrInsert(%v, %d) gave %d, there was no entry: %s", p, next, v, showTM(m))
			}
		default:
			if !t.Insert(p, next) {
				c.Failf("Insert(%v) gave false, there was no entry: %s", p, showTM(m))
			}
		}
		m[k] = ent{v: next}
	}
	get := func(k K) {
		e, want := m[k]
		v, ok := t.Get(mkK(k))
		c.Eval(1)
		if ok != want || v != e.v {
			c.Failf("after a long history Get(%v) gave %d, %v; the table is %s", mkK(k), v, ok, showTM(m))
		}
	}
	match := func(k K) {
		wk, e, want := m.Match(W, k)
		v, ok, p := t.LongestMatch(mkK(k))
		c.Eval(1)
		if ok != want || v != e.v || ok && keyOf(p) != wk {
			c.Failf("after a long history LongestMatch(%v) gave %d, %v, %v; the table is %s", mkK(k), v, ok, p, showTM(m))
		}
	}
	// what is read last before the modifications is read first after them
	reads := []func(){
		func() { get(keys[0]) },
		func() { match(keys[0]) },
		func() {
			c.Eval(1)
			if n := t.NumEntries(); n != int64(len(m)) {
				c.Failf("after a long history there are %d entries; the table is %s", n, showTM(m))
			}
		},
		func() { checkWalk(c, "after a long history", t.Table(), m) },
	}
	for _, k := range keys {
		k := k
		reads = append(reads, func() { get(k) }, func() { match(k) })
	}
	for _, n := range gaps(c) {
		order := c.Perm(len(reads))
		if _, has := m[keys[0]]; !has && n > 0 {
			effective(keys[0], false)
		}
		for _, i := range order {
			reads[i]()
		}
		x := t.Table()
		old := m.Clone()
		others := c.P(1, 4)
		for i := 0; i < n; i++ {
			if others { // in as many other tables
				o := ip.NewTable_[int]()
				if i%2 == 0 {
					o = x.Table_()
				}
				o.InsertOrUpdate(mkK(keys[i%len(keys)]), -i)
				continue
			}
			effective(keys[c.N(len(keys))], i > 0)
		}
		for i := len(order) - 1; i >= 0; i-- {
			reads[order[i]]()
		}
		checkWalk(c, fmt.Sprintf("table from %d modifications ago", n), x, old)
		c.Distinct(mon.NewHash().Str(Fam).I(c.Idx).I(n).I(next))
	}
	c.Cover(Fam + " long histories of a table")
	c.Sample(func() string { return fmt.Sprintf("%d modifications of %d keys: %s", next, len(keys), showTM(m)) })
}

func longSet(c *C) {
	g := gen.New(c.Rng, W)
	s := ip.NewSet_()
	var m MS
	// blocks which don't meet, and which of them are in the set
	var blocks []MS
	var args []SI
	for n := c.In(1, 12); n > 0; n-- {
		o, om, _ := operand(c, g, nil)
		free := true
		for _, b := range blocks {
			free = free && len(model.Intersect(b, om)) == 0
		}
		if free && len(om) != 0 {
			blocks, args = append(blocks, om), append(args, o)
		}
	}
	if len(blocks) == 0 {
		u := g.Addr()
		blocks, args = append(blocks, model.One(u, u)), append(args, mkA(u))
	}
	in := make([]bool, len(blocks))
	count := 0
	effective := func(i int) {
		if in[i] {
			s.Remove(args[i])
		} else {
			s.Insert(args[i])
		}
		in[i] = !in[i]
		count++
	}
	sync := func() {
		m = nil
		for i, b := range blocks {
			if in[i] {
				m = model.Union(m, b)
			}
		}
	}
	want := func(what string, got, want bool) {
		c.Eval(1)
		if got != want {
			c.Failf("after a long history %s gave %v; the set is %s", what, got, showSet(m))
		}
	}
	reads := []func(){
		func() { want("IsEmpty", s.IsEmpty(), len(m) == 0) },
		func() {
			if n, ok := msetNumAddresses(s); ok {
				c.Eval(1)
				if n != m.Size().Int64() {
					c.Failf("after a long history there are %d addresses; the set is %s", n, showSet(m))
				}
			}
		},
		func() { canonical(c, "Set() after a long history", s.Set(), m) },
		func() { want("Equal to itself", s.Equal(build(c, m).Set_()), true) },
	}
	for i := range blocks {
		i := i
		what := fmt.Sprintf("Contains(%s)", showSet(blocks[i]))
		reads = append(reads,
			func() { want(what, s.Contains(args[i]), in[i]) },
			func() { want(what, s.Set().Contains(args[i]), in[i]) },
			func() {
				c.Eval(1)
				if x := content(c, s.Union(args[i])); !x.Equal(model.Union(m, blocks[i])) {
					c.Failf("after a long history the union with %s is %s; the set is %s", showSet(blocks[i]), showSet(x), showSet(m))
				}
			},
			func() {
				c.Eval(1)
				if x := content(c, s.Difference(args[i])); !x.Equal(model.Diff(W, m, blocks[i])) {
					c.Failf("after a long history the difference with %s is %s; the set is %s", showSet(blocks[i]), showSet(x), showSet(m))
				}
			},
			func() {
				c.Eval(1)
				if x := content(c, s.Intersection(args[i])); !x.Equal(model.Intersect(m, blocks[i])) {
					c.Failf("after a long history the intersection with %s is %s; the set is %s", showSet(blocks[i]), showSet(x), showSet(m))
				}
			})
	}
	for _, n := range gaps(c) {
		order := c.Perm(len(reads))
		sync()
		for _, i := range order {
			reads[i]()
		}
		x, old := s.Set(), m
		others := c.P(1, 4)
		for i := 0; i < n; i++ {
			j := c.N(len(blocks))
			if others { // in as many other sets
				o := ip.NewSet_()
				if i%2 == 0 {
					o = x.Set_()
				}
				o.Remove(args[j])
				o.Insert(args[i%len(blocks)])
				continue
			}
			effective(j)
		}
		sync()
		for i := len(order) - 1; i >= 0; i-- {
			reads[order[i]]()
		}
		canonical(c, fmt.Sprintf("set from %d modifications ago", n), x, old)
		c.Distinct(mon.NewHash().Str(Fam).I(c.Idx).I(n).I(count))
	}
	c.Cover(Fam + " long histories of a set")
	c.Sample(func() string { return fmt.Sprintf("%d modifications of %d blocks: %s", count, len(blocks), showSet(m)) })
}
