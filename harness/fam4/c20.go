package fam4

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C20"] = "cases: one goroutine modifies a Set_ or Table_ while 2-6 others read it in every way, with the race detector on. Workloads race-*: no synchronisation at all between the goroutines, readers also derive, clone and modify what they read; race-programs: the random programs of C26 side by side, on shared values. Workloads seen-*: readers record what they read between two readings of the writer's progress; afterwards each reader's record must be explained by versions that never go backwards and lie in the recorded window. Delays at the modification's own steps widen the windows. Oracle: race detector reports; the writer's model, version by version. Non-trivial: distinct sequences of versions seen by a reader, with at least two versions."
	mon.Assume["C20"] = []string{"the race detector sees the executed interleavings only; the Go scheduler chooses them"}
	reg("C20", "race-set", 60, 1500, c20RaceSet).Serial = true
	reg("C20", "race-table", 60, 1500, c20RaceTable).Serial = true
	reg("C20", "race-programs", 60, 1500, c20Programs).Serial = true
	reg("C20", "seen-set", 60, 1500, c20SeenSet).Serial = true
	reg("C20", "seen-table", 60, 1500, c20SeenTable).Serial = true
	for _, k := range []string{"reads", "reads overlapping a write", "versions seen", "race-free cases", "large sets inserted and removed", "large tables", "programs beside others"} {
		mon.Need["C20"] = append(mon.Need["C20"], Fam+" "+k)
	}
}

// guard runs goroutines and hands their failures to the case.
type guard struct {
	wg   sync.WaitGroup
	mu   sync.Mutex
	fail interface{}
}

func (g *guard) run(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				g.mu.Lock()
				if g.fail == nil {
					g.fail = r
				}
				g.mu.Unlock()
			}
		}()
		f()
	}()
}

func (g *guard) wait() {
	g.wg.Wait()
	if g.fail != nil {
		panic(g.fail)
	}
}

// yields sets a hook which gives up the processor now and then inside of
// modifications, without synchronising anything.
func yields(c *C) func() {
	switch c.N(3) {
	case 0:
		setYield(nil)
	case 1:
		setYield(runtime.Gosched)
	default:
		setYield(func() {
			for i := 0; i < 3; i++ {
				runtime.Gosched()
			}
		})
	}
	return func() { setYield(nil) }
}

// somePool makes a few fixed sets to insert and remove; in some cases large
// ones.
func somePool(c *C, g *gen.G) (draw func(c *C) (S, MS), large bool) {
	var ss []S
	var ms []MS
	large = c.P(1, 10)
	for i := 0; i < 4; i++ {
		m := randSet(g, 8)
		if large && i > 0 {
			m = someSet(c, logSize(c, 60, 3000))
			c.Cover(Fam + " large sets inserted and removed")
		}
		ss, ms = append(ss, build(c, m)), append(ms, m)
	}
	return func(c *C) (S, MS) { i := c.N(len(ss)); return ss[i], ms[i] }, large
}

func c20RaceSet(c *C) {
	defer yields(c)()
	g := gen.New(c.Rng, W)
	m := randSet(g, 8)
	pool, large := somePool(c, g)
	if large && c.Bool() {
		_, m = pool(c)
	}
	s := build(c, m).Set_()
	var gd guard
	writes := c.In(50, 300)
	reads := 150
	if large {
		writes = c.In(10, 40)
		reads = 40
	}
	final := m
	subs := []*C{}
	wc := c.Sub()
	subs = append(subs, wc)
	wg := *g
	wg.R = wc.Rng
	gd.run(func() {
		m := m
		for i := 0; i < writes; i++ {
			o, om, _ := operand(wc, &wg, func() (S, MS) { return pool(wc) })
			if wc.P(3, 5) {
				s.Insert(o)
				m = model.Union(m, om)
			} else {
				s.Remove(o)
				m = model.Diff(W, m, om)
			}
		}
		final = m
	})
	for r := c.In(2, 5); r > 0; r-- {
		rc := c.Sub()
		subs = append(subs, rc)
		rg := *g
		rg.R = rc.Rng
		s := s // a copy
		gd.run(func() {
			for i := 0; i < reads; i++ {
				rc.Eval(1)
				rc.Cover(Fam + " reads")
				o, om, _ := operand(rc, &rg, func() (S, MS) { return pool(rc) })
				switch rc.N(12) {
				case 0:
					s.IsEmpty()
				case 1:
					msetNumAddresses(s)
				case 2:
					s.Contains(o)
				case 3:
					s.Equal(o.Set().Set_())
				case 4:
					if x := content(rc, s.Union(o)); !x.Covers(W, om) {
						rc.Failf("Union beside a writer lacks its argument")
					}
				case 5:
					if x := content(rc, s.Intersection(o)); !om.Covers(W, x) {
						rc.Failf("Intersection beside a writer exceeds its argument")
					}
				case 6:
					if x := content(rc, s.Difference(o)); len(model.Intersect(x, om)) != 0 {
						rc.Failf("Difference beside a writer contains its argument")
					}
				case 7: // as an argument
					x := o.Set().Union(s)
					if !content(rc, x).Covers(W, om) {
						rc.Failf("Union with a Set_ beside its writer lacks the receiver")
					}
				case 8:
					t := s.Set().Set_()
					t.Insert(o)
					t.Remove(mkA(rg.Addr()))
				case 9:
					x := s.Set()
					x.FindAvailablePrefix(o, uint32(rc.N(W+1)))
					x.Equal(s.Set())
					_ = x.String()
				case 10:
					x := s.Set()
					a := content(rc, x)
					runtime.Gosched()
					if b := content(rc, x); !a.Equal(b) {
						rc.Failf("a Set taken beside a writer changed from %s to %s", showSet(a), showSet(b))
					}
					canonical(rc, "Set taken beside a writer", x, a)
				default:
					s.Set().Build(func(b S_) bool { b.Remove(o); return true })
				}
			}
		})
	}
	gd.wait()
	c.Join(subs...)
	if x := content(c, s.Set()); !x.Equal(final) {
		c.Failf("after a writer beside readers the set is %s, want %s", showSet(x), showSet(final))
	}
	c.Cover(Fam + " race-free cases")
	c.Sample(func() string { return fmt.Sprintf("%v: %d writes beside %d readers", g, writes, len(subs)-1) })
}

func c20RaceTable(c *C) {
	defer yields(c)()
	g := gen.New(c.Rng, W)
	t := newTT(g, 4)
	reads := 150
	if c.P(1, 15) {
		fill(c, t, logSize(c, 60, 4000))
		reads = 30
	}
	for i := c.N(40); i > 0; i-- {
		t.step(c)
	}
	start := t.t.Table()
	startM := t.m.Clone()
	writes := c.In(50, 300)
	var gd guard
	wc := c.Sub()
	subs := []*C{wc}
	wg := *g
	wg.R = wc.Rng
	w := &tt{t: t.t, m: t.m, g: &wg, nv: 4, keys: append([]K(nil), t.keys...)}
	gd.run(func() {
		for i := 0; i < writes; i++ {
			w.step(wc)
		}
	})
	for r := c.In(2, 5); r > 0; r-- {
		rc := c.Sub()
		subs = append(subs, rc)
		rg := *g
		rg.R = rc.Rng
		s := t.t
		gd.run(func() {
			for i := 0; i < reads; i++ {
				rc.Eval(1)
				rc.Cover(Fam + " reads")
				k := rg.Key()
				switch rc.N(9) {
				case 0:
					s.NumEntries()
				case 1:
					s.Get(mkK(k))
				case 2:
					if _, ok, p := s.LongestMatch(mkK(k)); ok && !keyOf(p).Contains(W, k) {
						rc.Failf("LongestMatch of %s beside a writer is %v", pstr(k.Addr, k.Len), p)
					}
				case 3, 4:
					x := s.Table()
					m := decode(rc, "snapshot", x)
					runtime.Gosched()
					checkWalk(rc, "snapshot beside a writer", x, m)
					if x.NumEntries() != int64(len(m)) {
						rc.Failf("snapshot beside a writer has %d entries, walks %d", x.NumEntries(), len(m))
					}
					checkMatch(rc, "snapshot beside a writer", x, x.Table_(), m, k)
				case 5:
					x := s.Table()
					x.Aggregate().NumEntries()
				case 6:
					x := s.Table().Map(func(_ P, v int) int { return v + 1 })
					x.Diff(s.Table(), nil, nil, nil, nil)
				case 7: // an own clone which shares structure
					x := s.Table()
					m := decode(rc, "snapshot", x)
					q := &tt{t: x.Table_(), m: m.Clone(), g: &rg, nv: 4, keys: m.Keys()}
					for j := 0; j < 5; j++ {
						q.step(rc)
					}
					checkWalk(rc, "snapshot beside a writer", x, m)
				default:
					n := 0
					start.Diff(s.Table(), func(P, int, int) bool { n++; return n < 3 }, nil, nil, nil)
				}
			}
			checkWalk(rc, "table from before the writer", start, startM)
		})
	}
	gd.wait()
	c.Join(subs...)
	checkWalk(c, "after a writer beside readers", t.t.Table(), w.m)
	c.Cover(Fam + " race-free cases")
	c.Sample(func() string { return fmt.Sprintf("%v: %d writes beside %d readers", g, writes, len(subs)-1) })
}

// fill adds size entries to a table.
func fill(c *C, t *tt, size int) {
	sh := mixedShape(c)
	for i := 0; i < size; i++ {
		if k := sh(i); t.t.Insert(mkK(k), i%t.nv) {
			t.m[k] = ent{v: i % t.nv}
			t.note(k)
		}
	}
	c.Cover(Fam + " large tables")
}

// obs is one recorded read: the versions finished before and begun until
// after it, and which versions explain its result.
type obs struct {
	lo, hi int64
	what   string
	ok     func(version int) bool
}

// explain checks that the reads of one reader are explained by versions
// which never go backwards.
func explain(c *C, who int, recs []obs) {
	last := 0
	h := mon.NewHash().Str(Fam)
	distinct := 0
	for i, o := range recs {
		v := int(o.lo)
		if last > v {
			v = last
		}
		for v <= int(o.hi) && !o.ok(v) {
			v++
		}
		c.Eval(1)
		c.Cover(Fam + " reads")
		if o.lo < o.hi {
			c.Cover(Fam + " reads overlapping a write")
		}
		if v > int(o.hi) {
			lo := int(o.lo)
			msg := ""
			for x := 0; x <= int(o.hi)+2; x++ {
				if o.ok(x) {
					msg += fmt.Sprintf(" %d", x)
				}
			}
			c.Failf("reader %d, read %d: %s is explained by no version between %d (the last finished before it, or seen before: %d) and %d (the last begun); versions it would fit:%s", who, i, o.what, lo, last, o.hi, msg)
		}
		if v != last {
			distinct++
			h = h.I(v)
			c.Cover(Fam + " versions seen")
		}
		last = v
	}
	if distinct > 1 {
		c.Distinct(h.I(c.Idx).I(who))
	}
}

type progress struct{ begun, done int64 }

func c20SeenSet(c *C) {
	defer yields(c)()
	g := gen.New(c.Rng, W)
	m := randSet(g, 6)
	pool, large := somePool(c, g)
	if large && c.Bool() {
		_, m = pool(c)
	}
	s := build(c, m).Set_()
	writes := c.In(20, 120)
	reads := 400
	if large {
		writes = c.In(5, 30)
		reads = 60
	}
	// versions[i] is the content after i writes, known in advance
	versions := []MS{m}
	args := []SI{nil}
	ins := []bool{false}
	for i := 0; i < writes; i++ {
		o, om, _ := operand(c, g, func() (S, MS) { return pool(c) })
		in := c.P(3, 5)
		if in {
			m = model.Union(m, om)
		} else {
			m = model.Diff(W, m, om)
		}
		versions = append(versions, m)
		args = append(args, o)
		ins = append(ins, in)
	}
	var p progress
	var gd guard
	var stop int32
	slow := c.N(3)
	gd.run(func() {
		defer atomic.StoreInt32(&stop, 1)
		for i := 1; i <= writes; i++ {
			atomic.StoreInt64(&p.begun, int64(i))
			if ins[i] {
				s.Insert(args[i])
			} else {
				s.Remove(args[i])
			}
			atomic.StoreInt64(&p.done, int64(i))
			for j := 0; j < slow; j++ {
				runtime.Gosched()
			}
		}
	})
	readers := c.In(2, 5)
	all := make([][]obs, readers)
	for r := 0; r < readers; r++ {
		r := r
		rc := c.Sub()
		rg := *g
		rg.R = rc.Rng
		s := s
		gd.run(func() {
			for i := 0; i < reads; i++ {
				if atomic.LoadInt32(&stop) != 0 && i > 20 {
					break
				}
				ob := obs{}
				o, om, _ := operand(rc, &rg, func() (S, MS) { return pool(rc) })
				kind := rc.N(7)
				os := o.Set().Set_()
				ob.lo = atomic.LoadInt64(&p.done)
				switch kind {
				case 0:
					x := s.Set()
					ob.hi = atomic.LoadInt64(&p.begun)
					got := content(rc, x)
					ob.what = "Set() " + showSet(got)
					ob.ok = func(v int) bool { return versions[v].Equal(got) }
				case 1:
					x := s.Contains(o)
					ob.hi = atomic.LoadInt64(&p.begun)
					ob.what = fmt.Sprintf("Contains(%s) %v", showSet(om), x)
					ob.ok = func(v int) bool { return versions[v].Covers(W, om) == x }
				case 2:
					x := s.IsEmpty()
					ob.hi = atomic.LoadInt64(&p.begun)
					ob.what = fmt.Sprintf("IsEmpty %v", x)
					ob.ok = func(v int) bool { return (len(versions[v]) == 0) == x }
				case 3:
					x := s.Union(o)
					ob.hi = atomic.LoadInt64(&p.begun)
					got := content(rc, x)
					ob.what = fmt.Sprintf("Union(%s) %s", showSet(om), showSet(got))
					ob.ok = func(v int) bool { return model.Union(versions[v], om).Equal(got) }
				case 4:
					x := s.Intersection(o)
					ob.hi = atomic.LoadInt64(&p.begun)
					got := content(rc, x)
					ob.what = fmt.Sprintf("Intersection(%s) %s", showSet(om), showSet(got))
					ob.ok = func(v int) bool { return model.Intersect(versions[v], om).Equal(got) }
				case 5:
					x := s.Difference(o)
					ob.hi = atomic.LoadInt64(&p.begun)
					got := content(rc, x)
					ob.what = fmt.Sprintf("Difference(%s) %s", showSet(om), showSet(got))
					ob.ok = func(v int) bool { return model.Diff(W, versions[v], om).Equal(got) }
				default:
					var x bool
					y := int64(-1)
					if rc.Bool() {
						x = s.Equal(os)
						ob.hi = atomic.LoadInt64(&p.begun)
						ob.what = fmt.Sprintf("Equal(%s) %v", showSet(om), x)
						ob.ok = func(v int) bool { return versions[v].Equal(om) == x }
					} else {
						n, has := msetNumAddresses(s)
						ob.hi = atomic.LoadInt64(&p.begun)
						if has {
							y = n
						}
						ob.what = fmt.Sprintf("NumAddresses %d", y)
						ob.ok = func(v int) bool { return !has || versions[v].Size().Int64() == n }
					}
				}
				all[r] = append(all[r], ob)
			}
		})
	}
	gd.wait()
	for r := range all {
		explain(c, r, all[r])
	}
	if x := content(c, s.Set()); !x.Equal(m) {
		c.Failf("after a writer beside readers the set is %s, want %s", showSet(x), showSet(m))
	}
	c.Sample(func() string { return fmt.Sprintf("%v: %d versions, %d readers", g, writes, readers) })
}

func c20SeenTable(c *C) {
	defer yields(c)()
	g := gen.New(c.Rng, W)
	t := newTT(g, 3)
	writes := c.In(20, 120)
	reads := 400
	if c.P(1, 15) {
		fill(c, t, logSize(c, 60, 4000))
		writes = c.In(5, 30)
		reads = 60
	}
	for i := c.N(30); i > 0; i-- {
		t.step(c)
	}
	versions := make([]tm, writes+1)
	versions[0] = t.m.Clone()
	var p progress
	var stop int32
	var gd guard
	slow := c.N(3)
	wc := c.Sub()
	wg := *g
	wg.R = wc.Rng
	w := &tt{t: t.t, m: t.m, g: &wg, nv: 3, keys: append([]K(nil), t.keys...)}
	gd.run(func() {
		defer atomic.StoreInt32(&stop, 1)
		for i := 1; i <= writes; i++ {
			atomic.StoreInt64(&p.begun, int64(i))
			w.step(wc)
			versions[i] = w.m.Clone()
			atomic.StoreInt64(&p.done, int64(i))
			for j := 0; j < slow; j++ {
				runtime.Gosched()
			}
		}
	})
	readers := c.In(2, 5)
	all := make([][]obs, readers)
	subs := []*C{wc}
	for r := 0; r < readers; r++ {
		r := r
		rc := c.Sub()
		subs = append(subs, rc)
		rg := *g
		rg.R = rc.Rng
		s := t.t
		gd.run(func() {
			for i := 0; i < reads; i++ {
				if atomic.LoadInt32(&stop) != 0 && i > 20 {
					break
				}
				k := rg.Key()
				kp := mkK(k)
				ob := obs{}
				kind := rc.N(5)
				ob.lo = atomic.LoadInt64(&p.done)
				switch kind {
				case 0, 1:
					x := s.Table()
					ob.hi = atomic.LoadInt64(&p.begun)
					got := decode(rc, "snapshot", x)
					ob.what = "Table() " + showTM(got)
					ob.ok = func(v int) bool { return exactTM(versions[v], got) }
				case 2:
					x, has := s.Get(kp)
					ob.hi = atomic.LoadInt64(&p.begun)
					ob.what = fmt.Sprintf("Get(%v) %d, %v", kp, x, has)
					ob.ok = func(v int) bool { e, ok := versions[v][k]; return ok == has && e.v == x }
				case 3:
					x, has, mp := s.LongestMatch(kp)
					ob.hi = atomic.LoadInt64(&p.begun)
					ob.what = fmt.Sprintf("LongestMatch(%v) %d, %v, %v", kp, x, has, mp)
					ob.ok = func(v int) bool {
						wk, e, ok := versions[v].Match(W, k)
						return ok == has && e.v == x && (!ok || wk == keyOf(mp))
					}
				default:
					x := s.NumEntries()
					ob.hi = atomic.LoadInt64(&p.begun)
					ob.what = fmt.Sprintf("NumEntries %d", x)
					ob.ok = func(v int) bool { return int64(len(versions[v])) == x }
				}
				all[r] = append(all[r], ob)
			}
		})
	}
	gd.wait()
	c.Join(subs...)
	for r := range all {
		explain(c, r, all[r])
	}
	checkWalk(c, "after a writer beside readers", t.t.Table(), w.m)
	c.Sample(func() string { return fmt.Sprintf("%v: %d versions, %d readers", g, writes, readers) })
}
