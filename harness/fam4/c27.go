package fam4

import (
	"fmt"
	"runtime"
	"time"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

// Faults in the user's code: callbacks, comparisons and implementations of
// PrefixI and SetI which panic or end their goroutine in one of their calls.

func init() {
	mon.Rules["C27"] = "cases: tables and sets reached by random histories; every operation that runs code of the user (PrefixI, SetI, comparison, mapper, walk, diff and build callbacks) is run once with this code only counting its calls, and then with a fault (panic, runtime error or runtime.Goexit) in each of these calls, up to a bound; comparisons which fault by themselves (uncomparable values compared with ==). Oracle: exactly the injected fault reaches the caller, no further call of the user's code is made, mutables, fixed values and clones have the content of the model from before the call, and the same operation run again gives the model's result. Non-trivial: distinct (operation, content, faulting call)."
	reg("C27", "tables", 900, 30000, c27Tables)
	reg("C27", "sets", 900, 30000, c27Sets)
	reg("C27", "big-tables", 200, 2000, func(c *C) { c27TablesOf(c, logSize(c, 60, 5000)) }).Fixed = true
	reg("C27", "big-sets", 200, 2000, func(c *C) { c27SetsOf(c, logSize(c, 60, 3000)) }).Fixed = true
	reg("C27", "uncomparable", 300, 8000, c27Uncomparable)
	mon.Rules["C27"] += " Also: tables of up to 5,000 entries and sets of up to 3,000 pieces."
	for _, k := range []string{"panics", "runtime errors", "Goexit", "repeated", "uncomparable values", "faults in tables of entries more", "faults in sets of pieces more", "faults in tables of entries up to 500", "faults in sets of pieces up to 500"} {
		mon.Need["C27"] = append(mon.Need["C27"], Fam+" "+k)
	}
}

// faulty counts the calls of the user's code and faults in one of them.
type faulty struct {
	calls, at int
	kind      int
	after     int
}

type injected struct{ f *faulty }

func (f *faulty) tick() {
	f.calls++
	if f.at > 0 && f.calls > f.at {
		f.after++
	}
	if f.calls != f.at {
		return
	}
	switch f.kind {
	case 0:
		panic(injected{f})
	case 1:
		var m map[int]int
		m[1] = 1
	default:
		runtime.Goexit()
	}
}

const (
	ended = iota // returned
	panicked
	exited
)

// apart runs g in a goroutine of its own and says how it ended.
func apart(c *C, what string, g func()) (how int, v interface{}) {
	done := make(chan struct{})
	how = exited
	go func() {
		defer close(done)
		defer func() {
			if how == exited {
				if v = recover(); v != nil {
					how = panicked
				}
			}
		}()
		g()
		how = ended
	}()
	t := time.NewTimer(100 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		c.Failf("%s: does not return", what)
	}
	if mon.IsViolation(v) {
		panic(v)
	}
	return
}

// inject runs op, first to count the calls of the user's code, then with a
// fault in each of them. check looks at everything that must not have changed.
// op is run on what prepare makes anew.
func inject(c *C, what string, f *faulty, prepare func(), op func(), check func(what string), again func(what string)) {
	*f = faulty{}
	prepare()
	if how, v := apart(c, what, op); how != ended {
		c.Failf("%s: without a fault: panics with %v (%d)", what, v, how)
	}
	calls := f.calls
	step := 1
	if calls > 12 {
		step = calls / 8
	}
	for at := 1; at <= calls; at += 1 + c.N(step) {
		kind := c.N(3)
		prepare()
		*f = faulty{at: at, kind: kind}
		w := fmt.Sprintf("%s, whose user code faults (%d) in call %d of %d", what, kind, at, calls)
		how, v := apart(c, w, op)
		c.Eval(2)
		f.at = 0
		switch kind {
		case 0:
			c.Cover(Fam + " panics")
			if i, ok := v.(injected); how != panicked || !ok || i.f != f {
				c.Failf("%s: ended with %v (%d) instead of the panic", w, v, how)
			}
		case 1:
			c.Cover(Fam + " runtime errors")
			if _, ok := v.(runtime.Error); how != panicked || !ok {
				c.Failf("%s: ended with %v (%d) instead of the runtime error", w, v, how)
			}
		default:
			c.Cover(Fam + " Goexit")
			if how != exited {
				c.Failf("%s: ended with %v (%d) instead of exiting", w, v, how)
			}
		}
		if f.after > 0 {
			c.Failf("%s: %d more calls of the user's code", w, f.after)
		}
		if how, v := apart(c, w+", reading afterwards", func() { check(w) }); how != ended {
			c.Failf("%s: reading afterwards: %v (%d)", w, v, how)
		}
		if how, v := apart(c, w+", again", func() {
			op()
			again(w + ", repeated")
		}); how != ended {
			c.Failf("%s: repeated: %v (%d)", w, v, how)
		}
		c.Distinct(mon.NewHash().Str(Fam).Str(what).I(at).I(kind))
		c.Cover(Fam + " repeated")
	}
}

type faultPrefix struct {
	f *faulty
	p P
}

func (p faultPrefix) Prefix() P { p.f.tick(); return p.p }

type faultSet struct {
	f *faulty
	s S
}

func (s faultSet) Set() S { s.f.tick(); return s.s }

func c27Tables(c *C) { c27TablesOf(c, 0) }

func c27TablesOf(c *C, size int) {
	g := gen.New(c.Rng, W)
	f := &faulty{}
	t := newTT(g, 4)
	t.t = ip.NewTableCustomCompare_[int](func(a, b int) bool { f.tick(); return a == b })
	t.eq = eqInt
	if size > 0 {
		fill(c, t, size)
		c.Cover(Fam + " faults in tables of entries " + sizeClass(size))
	}
	for i := c.N(40); i > 0; i-- {
		t.step(c)
	}
	fixed, m := t.t.Table(), t.m.Clone()
	other := t.clone()
	for i := c.N(10) + c.N(size/2+1); i > 0; i-- {
		other.step(c)
	}
	ot, om := other.t.Table(), other.m
	var x T_
	clone := fixed.Table_()
	prepare := func() { x = fixed.Table_() }
	check := func(what string) {
		checkGets(c, what, x.Table(), m)
		checkWalk(c, what, x.Table(), m)
		checkWalk(c, what+": fixed", fixed, m)
		checkWalk(c, what+": clone", clone.Table(), m)
		checkWalk(c, what+": other", ot, om)
	}
	rounds := 3
	if size > 0 {
		rounds = 1
	}
	for round := 0; round < rounds; round++ {
		k := t.key(c)
		v := c.N(4)
		old, had := m[k]
		var key PI
		kp := mkP(k.Addr, k.Len)
		if c.Bool() {
			key = faultPrefix{f, kp}
		} else {
			key = kp
		}
		with := m.Clone()
		with[k] = ent{v: v}
		without := m.Clone()
		delete(without, k)
		is := func(w string, want tm) {
			checkWalk(c, w, x.Table(), want)
			checkGets(c, w, x.Table(), want)
			checkWalk(c, w+": fixed", fixed, m)
		}
		upd := m
		if had {
			upd = with
		}
		ins := with
		if had {
			ins = m
		}
		run := func(name string, op func() bool, want tm, wantRet bool) {
			var ret bool
			inject(c, fmt.Sprintf("%s of %s on %s", name, pstr(k.Addr, k.Len), showTM(m)), f, prepare, func() { ret = op() }, check, func(w string) {
				if ret != wantRet {
					c.Failf("%s: returned %v, want %v", w, ret, wantRet)
				}
				is(w, want)
			})
		}
		run("Insert", func() bool { return x.Insert(key, v) }, ins, !had)
		run("Update", func() bool { return x.Update(key, v) }, upd, had)
		run("InsertOrUpdate", func() bool { x.InsertOrUpdate(key, v); return true }, with, true)
		gv := v
		if had {
			gv = old.v
		}
		run("GetOrInsert", func() bool { return x.GetOrInsert(key, v) == gv }, ins, true)
		run("Remove", func() bool { return x.Remove(key) }, without, had)
		run("Get", func() bool { _, ok := x.Get(key); return ok }, m, had)
		_, _, matched := m.Match(W, k)
		run("LongestMatch", func() bool { _, ok, _ := x.LongestMatch(key); return ok }, m, matched)
		run("Table.Get", func() bool { _, ok := fixed.Get(key); return ok }, m, had)
		run("Table.LongestMatch", func() bool { _, ok, _ := fixed.LongestMatch(key); return ok }, m, matched)
		run("Build", func() bool {
			b := fixed.Build(func(b T_) bool {
				f.tick()
				b.Insert(key, v)
				f.tick()
				b.InsertOrUpdate(kp, v)
				f.tick()
				return true
			})
			got, ok := b.Get(kp)
			return ok && got == v
		}, m, true)
	}
	name := " of " + showTM(m)
	var out T
	inject(c, "Walk"+name, f, prepare, func() { fixed.Walk(func(P, int) bool { f.tick(); return true }) }, check, check)
	mapped := m.Clone()
	for k, e := range mapped {
		e.v = (e.v + k.Len) % 4
		mapped[k] = e
	}
	inject(c, "Map"+name, f, prepare, func() {
		out = fixed.Map(func(p P, v int) int { f.tick(); return (v + p.Length()) % 4 })
	}, check, func(w string) {
		checkWalk(c, w, out, mapped)
		checkWalk(c, w+": fixed", fixed, m)
	})
	inject(c, "Aggregate"+name, f, prepare, func() { out = fixed.Aggregate() }, check, func(w string) {
		check(w)
		sameLookups(c, w, m, out, decode(c, w, out), eqInt)
	})
	for _, d := range []struct {
		l, r   T
		lm, rm tm
		n      string
	}{{fixed, ot, m, om, "Diff with a version"}, {ot, fixed, om, m, "Diff of a version"}} {
		d := d
		want := diffModel(d.lm, d.rm, eqInt)
		same := c.Bool()
		var n int
		cb := func(P, int) bool { f.tick(); n++; return true }
		var cs func(P, int) bool
		if same {
			cs = cb
		}
		wn := 0
		for _, e := range want {
			if same || e.class != evSame {
				wn++
			}
		}
		inject(c, d.n+name, f, prepare, func() {
			n = 0
			d.l.Diff(d.r, func(P, int, int) bool { f.tick(); n++; return true }, cb, cb, cs)
		}, check, func(w string) {
			if n != wn {
				c.Failf("%s: %d events, want %d", w, n, wn)
			}
			check(w)
		})
	}
	c.Sample(func() string { return fmt.Sprintf("%v: faults in operations on %s", g, showTM(m)) })
}

func c27Sets(c *C) { c27SetsOf(c, 0) }

func c27SetsOf(c *C, size int) {
	g := gen.New(c.Rng, W)
	f := &faulty{}
	m := randSet(g, c.In(0, 10))
	rounds := 3
	if size > 0 {
		rounds = 1
		m = someSet(c, size)
		c.Cover(Fam + " faults in sets of pieces " + sizeClass(size))
	}
	fixed := build(c, m)
	clone := fixed.Set_()
	var x S_
	prepare := func() { x = fixed.Set_() }
	check := func(what string) {
		wantSet(c, what, x.Set(), m)
		wantSet(c, what+": fixed", fixed, m)
		wantSet(c, what+": clone", clone.Set(), m)
	}
	for round := 0; round < rounds; round++ {
		om := randSet(g, 4)
		if size > 0 && c.Bool() {
			om = someSet(c, c.In(1, size))
		}
		o := faultSet{f, build(c, om)}
		u, n, d := model.Union(m, om), model.Intersect(m, om), model.Diff(W, m, om)
		var out S
		name := fmt.Sprintf(" of %s and %s", showSet(m), showSet(om))
		set := func(op string, g func() S, want MS) {
			inject(c, op+name, f, prepare, func() { out = g() }, check, func(w string) {
				wantSet(c, w, out, want)
				check(w)
			})
		}
		mut := func(op string, g func(), want MS) {
			inject(c, op+name, f, prepare, g, check, func(w string) {
				wantSet(c, w, x.Set(), want)
				wantSet(c, w+": fixed", fixed, m)
				wantSet(c, w+": clone", clone.Set(), m)
			})
		}
		mut("Insert", func() { x.Insert(o) }, u)
		mut("Remove", func() { x.Remove(o) }, d)
		set("Union", func() S { return fixed.Union(o) }, u)
		set("Intersection", func() S { return fixed.Intersection(o) }, n)
		set("Difference", func() S { return fixed.Difference(o) }, d)
		set("Set_.Union", func() S { return x.Union(o) }, u)
		set("Set_.Intersection", func() S { return x.Intersection(o) }, n)
		set("Set_.Difference", func() S { return x.Difference(o) }, d)
		set("Build", func() S {
			return fixed.Build(func(b S_) bool {
				f.tick()
				b.Remove(o)
				f.tick()
				b.Insert(o)
				f.tick()
				return true
			})
		}, u)
		var ret bool
		inject(c, "Contains"+name, f, prepare, func() { ret = fixed.Contains(o) }, check, func(w string) { wantBool(c, w, ret, m.Covers(W, om)); check(w) })
		inject(c, "Set_.Contains"+name, f, prepare, func() { ret = x.Contains(o) }, check, func(w string) { wantBool(c, w, ret, m.Covers(W, om)); check(w) })
		if len(m) > 0 {
			iv := m[c.N(len(m))]
			r := mkR(iv.Lo, iv.Hi)
			inject(c, "Range.Contains"+name, f, prepare, func() { ret = r.Contains(o) }, check, func(w string) { wantBool(c, w, ret, MS{iv}.Covers(W, om)); check(w) })
			p := mkP(iv.Lo, W-c.N(5))
			inject(c, "Prefix.Contains"+name, f, prepare, func() { p.Contains(faultSet{f, mkP(iv.Hi, W).Set()}) }, check, check)
		}
		l := uint32(c.N(W + 1))
		inject(c, "FindAvailablePrefix"+name, f, prepare, func() { fixed.FindAvailablePrefix(o, l) }, check, func(w string) {
			checkFind(c, fixed, m, o, om, l)
			check(w)
		})
	}
	walks := func(what string, s S) {
		inject(c, "WalkPrefixes"+what, f, prepare, func() { s.WalkPrefixes(func(P) bool { f.tick(); return true }) }, check, check)
		inject(c, "WalkRanges"+what, f, prepare, func() { s.WalkRanges(func(R) bool { f.tick(); return true }) }, check, check)
		if hasNum {
			inject(c, "WalkAddresses"+what, f, prepare, func() {
				n := 0
				walkAddresses(s, func(A) bool { f.tick(); n++; return n < 40 })
			}, check, check)
		}
	}
	walks(" of "+showSet(m), fixed)
	c.Sample(func() string { return fmt.Sprintf("%v: faults in operations on %s", g, showSet(m)) })
}

// c27Uncomparable: values which == cannot compare, in tables which use it.
func c27Uncomparable(c *C) {
	g := gen.New(c.Rng, W)
	t := ip.NewTableCustomCompare_[interface{}](func(a, b interface{}) bool { return a == b })
	m := map[K]interface{}{}
	ks := []K{}
	for i := c.In(1, 12); i > 0; i-- {
		k := g.Key()
		if _, ok := m[k]; ok {
			continue
		}
		var v interface{} = c.N(4)
		if c.P(1, 3) {
			v = []int{1}
		}
		t.Insert(mkK(k), v)
		m[k] = v
		ks = append(ks, k)
	}
	bad := func(v interface{}) bool { _, ok := v.([]int); return ok }
	check := func(what string) {
		n := 0
		t.Table().Walk(func(p P, v interface{}) bool {
			n++
			w, ok := m[keyOf(p)]
			if !ok || bad(v) != bad(w) || !bad(v) && v != w {
				c.Failf("%s: the table has %v:%v, want %v", what, p, v, w)
			}
			return true
		})
		if n != len(m) || t.NumEntries() != int64(n) {
			c.Failf("%s: %d entries, NumEntries %d, want %d", what, n, t.NumEntries(), len(m))
		}
	}
	for i := 0; i < 20; i++ {
		k := ks[c.N(len(ks))]
		if c.P(1, 4) {
			k = g.Key()
		}
		var v interface{} = c.N(4)
		if c.Bool() {
			v = []int{2}
		}
		old, had := m[k]
		op := c.N(5)
		what := fmt.Sprintf("operation %d on %s with %v, present %v: %v", op, pstr(k.Addr, k.Len), v, had, old)
		how, r := apart(c, what, func() {
			switch op {
			case 0:
				t.Update(mkK(k), v)
			case 1:
				t.InsertOrUpdate(mkK(k), v)
			case 2:
				t.Insert(mkK(k), v)
			case 3:
				t.GetOrInsert(mkK(k), v)
			case 4:
				t.Remove(mkK(k))
			}
		})
		c.Eval(1)
		switch how {
		case exited:
			c.Failf("%s: ended its goroutine", what)
		case panicked:
			if _, ok := r.(runtime.Error); !ok || !bad(v) || op == 4 {
				c.Failf("%s: panicked with %v", what, r)
			}
			c.Cover(Fam + " uncomparable values")
		default:
			switch {
			case op == 4:
				delete(m, k)
			case had && op < 2:
				m[k] = v
			case !had && op != 0:
				m[k] = v
				ks = append(ks, k)
			}
		}
		check(what)
		c.Distinct(mon.NewHash().Str(Fam).Str(what).I(len(m)))
	}
	c.Sample(func() string { return fmt.Sprintf("%v: %d entries", g, len(m)) })
}
