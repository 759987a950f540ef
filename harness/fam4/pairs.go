package fam4

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	ip "gopkg.in/addrs.v1/ipv4"
	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

// Readers which take a few reads right after one another, of different kinds,
// as fast as they can, while a writer goes through the same few states over
// and over: for windows inside of a modification or of a read which no hook
// widens.

func init() {
	mon.Rules["C20"] += " Workloads hammer-*: a writer goes through a cycle of known states tens of thousands of times while 2-4 readers take sequences of different reads as fast as they can; each must fit the states, in order. In some cases the world is stopped now and then, which halts the goroutines at arbitrary points."
	reg("C20", "hammer-set", 4, 150, c20HammerSet).Serial = true
	reg("C20", "hammer-table", 5, 150, c20HammerTable).Serial = true
	mon.Need["C20"] = append(mon.Need["C20"], Fam+" hammered reads", Fam+" hammered reads overlapping a write", Fam+" hammered versions seen")
}

// cycle is a sequence of modifications which ends where it began, with what
// the reads give in each of its states: after i modifications, read j gives
// exp[j][i%len(mods)].
type cycle struct {
	mods  []func()
	reads []func() uint64
	exp   [][]uint64
	names []string
}

func (cy *cycle) read(name string, f func() uint64, exp func(state int) uint64) {
	cy.reads = append(cy.reads, f)
	cy.names = append(cy.names, name)
	e := make([]uint64, len(cy.mods))
	for i := range e {
		e[i] = exp(i)
	}
	cy.exp = append(cy.exp, e)
}

func (cy *cycle) run(c *C, writes int, show func(state int) string) {
	L := int64(len(cy.mods))
	var begun, done int64
	var stop int32
	var gd guard
	slow := c.N(3) * c.N(20)
	wc := c.Sub()
	subs := []*C{wc}
	gd.run(func() {
		defer atomic.StoreInt32(&stop, 1)
		// until there was enough to see, but not forever
		begin := time.Now()
		for i := int64(1); i <= int64(writes); i++ {
			atomic.StoreInt64(&begun, i)
			cy.mods[(i-1)%L]()
			atomic.StoreInt64(&done, i)
			if i%7 == 0 {
				j := wc.N(len(cy.reads))
				if got, want := cy.reads[j](), cy.exp[j][i%L]; got != want {
					wc.Failf("the writer's own read %s after %d modifications gave %x, want %x: %s", cy.names[j], i, got, want, show(int(i%L)))
				}
			}
			spinFor(slow)
			if i%64 == 0 && time.Since(begin) > 2*time.Second {
				break
			}
		}
	})
	readers := c.In(2, 4)
	for r := 0; r < readers; r++ {
		r := r
		rc := c.Sub()
		subs = append(subs, rc)
		hot := []int{}
		if r%2 == 0 { // the same few over and over
			for n := c.In(2, 3); n > 0; n-- {
				hot = append(hot, c.N(len(cy.reads)))
			}
		}
		gd.run(func() {
			var last, reads, overlapping, seen int64
			js := make([]int, 3)
			res := make([]uint64, 3)
			h := mon.NewHash().Str(Fam)
			for atomic.LoadInt32(&stop) == 0 {
				n := rc.In(2, 3)
				for k := 0; k < n; k++ {
					if len(hot) > 0 {
						js[k] = hot[rc.N(len(hot))]
					} else {
						js[k] = rc.N(len(cy.reads))
					}
				}
				lo := atomic.LoadInt64(&done)
				for k := 0; k < n; k++ {
					res[k] = cy.reads[js[k]]()
				}
				hi := atomic.LoadInt64(&begun)
				if last > lo {
					lo = last
				}
				v := lo
				for k := 0; k < n; k++ {
					for v <= hi && cy.exp[js[k]][v%L] != res[k] {
						v++
						if v-lo > 4*L {
							v = hi + 1
						}
					}
					if v > hi {
						what := ""
						for i := 0; i <= k; i++ {
							what += fmt.Sprintf(" %s gave %x;", cy.names[js[i]], res[i])
						}
						rc.Failf("reader %d:%s which no versions in order between %d (the last finished before, or seen before) and %d (the last begun after) explain; the states are repeated every %d, at %d it is %s", r, what, lo, hi, L, lo, show(int(lo%L)))
					}
				}
				reads += int64(n)
				if lo < hi {
					overlapping++
				}
				if v != last {
					seen++
					if seen < 1000 {
						h = h.I(int(v))
					}
				}
				last = v
			}
			rc.Eval(int(reads))
			rc.CoverN(Fam+" hammered reads", int(reads))
			rc.CoverN(Fam+" hammered reads overlapping a write", int(overlapping))
			rc.CoverN(Fam+" hammered versions seen", int(seen))
			if seen > 1 {
				rc.Distinct(h.I(c.Idx).I(r))
			}
		})
	}
	if c.P(1, 3) {
		gd.run(func() {
			var m runtime.MemStats
			for atomic.LoadInt32(&stop) == 0 {
				runtime.ReadMemStats(&m)
				time.Sleep(20 * time.Microsecond)
			}
		})
	}
	gd.wait()
	c.Join(subs...)
	c.Sample(func() string {
		return fmt.Sprintf("%d states, %d modifications beside %d readers, from %s", L, atomic.LoadInt64(&done), readers, show(0))
	})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func c20HammerTable(c *C) {
	defer yields(c)()
	g := gen.New(c.Rng, W)
	keys := []K{}
	for n := c.In(1, 10); n > 0; n-- {
		keys = append(keys, g.Key())
	}
	t := ip.NewTable_[int]()
	init := tm{}
	if c.P(1, 4) { // other entries, which stay
		sh := mixedShape(c)
		for i, n := 0, logSize(c, 4, 300); i < n; i++ {
			k := sh(i)
			t.Insert(mkK(k), 100+i%5)
			if _, ok := init[k]; !ok {
				init[k] = ent{v: 100 + i%5}
			}
		}
	}
	put := func(m tm, k K, v int) {
		if t.Insert(mkK(k), v) {
			m[k] = ent{v: v}
		}
	}
	for _, k := range keys {
		if c.Bool() {
			put(init, k, c.N(3))
		}
	}
	cy := &cycle{}
	states := []tm{init}
	m := init.Clone()
	step := func(k K, v, op int) {
		p := mkK(k)
		_, has := m[k]
		switch op {
		case 0:
			cy.mods = append(cy.mods, func() { t.Insert(p, v) })
			if !has {
				m[k] = ent{v: v}
			}
		case 1:
			cy.mods = append(cy.mods, func() { t.Update(p, v) })
			if has {
				m[k] = ent{v: v}
			}
		case 2:
			cy.mods = append(cy.mods, func() { t.InsertOrUpdate(p, v) })
			m[k] = ent{v: v}
		case 3:
			cy.mods = append(cy.mods, func() { t.GetOrInsert(p, v) })
			if !has {
				m[k] = ent{v: v}
			}
		default:
			cy.mods = append(cy.mods, func() { t.Remove(p) })
			delete(m, k)
		}
		states = append(states, m.Clone())
	}
	for n := c.In(1, 24); n > 0; n-- {
		step(keys[c.N(len(keys))], c.N(3), c.N(6))
	}
	for _, k := range keys {
		if e, ok := init[k]; ok {
			if x, has := m[k]; !has || x.v != e.v {
				step(k, e.v, 2)
			}
		} else if _, has := m[k]; has {
			step(k, 0, 4)
		}
	}
	cy.read("NumEntries", func() uint64 { return uint64(t.NumEntries()) }, func(s int) uint64 { return uint64(len(states[s])) })
	cy.read("Table().NumEntries", func() uint64 { return uint64(t.Table().NumEntries()) }, func(s int) uint64 { return uint64(len(states[s])) })
	for _, k := range keys {
		k, p := k, mkK(k)
		get := func(s int) uint64 {
			if e, ok := states[s][k]; ok {
				return uint64(e.v) + 1
			}
			return 0
		}
		cy.read(fmt.Sprintf("Get(%v)", p), func() uint64 {
			if v, ok := t.Get(p); ok {
				return uint64(v) + 1
			}
			return 0
		}, get)
		cy.read(fmt.Sprintf("Table().Get(%v)", p), func() uint64 {
			if v, ok := t.Table().Get(p); ok {
				return uint64(v) + 1
			}
			return 0
		}, get)
		lm := func(k K, v int) uint64 {
			return uint64(hashU(mon.NewHash(), k.Addr).I(k.Len).I(v))
		}
		cy.read(fmt.Sprintf("LongestMatch(%v)", p), func() uint64 {
			if v, ok, mp := t.LongestMatch(p); ok {
				return lm(keyOf(mp), v)
			}
			return 0
		}, func(s int) uint64 {
			if mk, e, ok := states[s].Match(W, k); ok {
				return lm(mk, e.v)
			}
			return 0
		})
	}
	if len(init) < 40 {
		cy.read("Table().Walk", func() uint64 {
			h := mon.NewHash()
			t.Table().Walk(func(p P, v int) bool {
				u, l := unP(p)
				h = hashU(h, u).I(l).I(v)
				return true
			})
			return uint64(h)
		}, func(s int) uint64 {
			h := mon.NewHash()
			for _, k := range states[s].Keys() {
				h = hashU(h, k.Addr).I(k.Len).I(states[s][k].v)
			}
			return uint64(h)
		})
	}
	cy.run(c, 30000, func(s int) string { return showTM(states[s]) })
	c.Cover(Fam + " race-free cases")
}

func c20HammerSet(c *C) {
	defer yields(c)()
	g := gen.New(c.Rng, W)
	init := randSet(g, 4)
	if c.P(1, 3) {
		init = nil
	}
	s := build(c, init).Set_()
	pool, _ := somePool(c, g)
	type arg struct {
		o SI
		m MS
	}
	var args []arg
	for n := c.In(1, 6); n > 0; n-- {
		o, m, _ := operand(c, g, func() (S, MS) { return pool(c) })
		args = append(args, arg{o.Set(), m})
	}
	cy := &cycle{}
	states := []MS{init}
	m := init
	step := func(a arg, in bool) {
		if in {
			cy.mods = append(cy.mods, func() { s.Insert(a.o) })
			m = model.Union(m, a.m)
		} else {
			cy.mods = append(cy.mods, func() { s.Remove(a.o) })
			m = model.Diff(W, m, a.m)
		}
		states = append(states, m)
	}
	for n := c.In(1, 16); n > 0; n-- {
		step(args[c.N(len(args))], c.P(3, 5))
	}
	for _, part := range []struct {
		m  MS
		in bool
	}{{model.Diff(W, m, init), false}, {model.Diff(W, init, m), true}} {
		if len(part.m) != 0 {
			step(arg{build(c, part.m), part.m}, part.in)
		}
	}
	hashSet := func(x MS) uint64 {
		h := mon.NewHash()
		for _, iv := range x {
			h = hashU(hashU(h, iv.Lo), iv.Hi)
		}
		return uint64(h)
	}
	walk := func(x S) uint64 {
		h := mon.NewHash()
		x.WalkRanges(func(r R) bool {
			v := unR(r)
			h = hashU(hashU(h, v.Lo), v.Hi)
			return true
		})
		return uint64(h)
	}
	cy.read("IsEmpty", func() uint64 { return b2u(s.IsEmpty()) }, func(i int) uint64 { return b2u(len(states[i]) == 0) })
	cy.read("Set().IsEmpty", func() uint64 { return b2u(s.Set().IsEmpty()) }, func(i int) uint64 { return b2u(len(states[i]) == 0) })
	if _, has := msetNumAddresses(s); has {
		cy.read("NumAddresses", func() uint64 { n, _ := msetNumAddresses(s); return uint64(n) }, func(i int) uint64 { return states[i].Size().Uint64() })
	}
	small := true
	for _, x := range states {
		small = small && len(x) < 40
	}
	if small {
		cy.read("Set().WalkRanges", func() uint64 { return walk(s.Set()) }, func(i int) uint64 { return hashSet(states[i]) })
	}
	for n, a := range args {
		a := a
		if len(a.m) > 40 {
			continue
		}
		what := fmt.Sprintf("%d: %s", n, showSet(a.m))
		cy.read("Contains "+what, func() uint64 { return b2u(s.Contains(a.o)) }, func(i int) uint64 { return b2u(states[i].Covers(W, a.m)) })
		o := a.o.Set().Set_()
		cy.read("Equal "+what, func() uint64 { return b2u(s.Equal(o)) }, func(i int) uint64 { return b2u(states[i].Equal(a.m)) })
		if small {
			cy.read("Union "+what, func() uint64 { return walk(s.Union(a.o)) }, func(i int) uint64 { return hashSet(model.Union(states[i], a.m)) })
			cy.read("Intersection "+what, func() uint64 { return walk(s.Intersection(a.o)) }, func(i int) uint64 { return hashSet(model.Intersect(states[i], a.m)) })
			cy.read("Difference "+what, func() uint64 { return walk(s.Difference(a.o)) }, func(i int) uint64 { return hashSet(model.Diff(W, states[i], a.m)) })
		}
	}
	cy.run(c, 30000, func(i int) string { return showSet(states[i]) })
	c.Cover(Fam + " race-free cases")
}
