package fam4

import (
	"fmt"
	"math"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C19"] = "cases: random histories of every table operation for 16 value types (slices, maps, functions, channels, structs holding them, nil and non-nil interfaces and pointers, floats with signed zeros and NaNs, strings, arrays, empty structs), each with the default or a custom comparison which is coarser or finer than ==, on tables derived by Table, Table_, Build, Map and Aggregate. Oracle: model over value tags; equality by the chosen function only; the comparison function checks that its arguments are values which were passed in. Non-trivial: distinct (type, comparison, table content)."
	reg("C19", "types", 4000, 100000, c19Types)
	for _, k := range []string{"comparisons seen", "zero values stored", "derived by Map", "derived by Aggregate", "derived by Build", "values merged by a coarser comparison"} {
		mon.Need["C19"] = append(mon.Need["C19"], Fam+" "+k)
	}
	for _, n := range c19Names {
		mon.Need["C19"] = append(mon.Need["C19"], Fam+" type "+n)
	}
}

var c19Names = []string{"[]int", "map", "func", "chan", "struct with slice", "any", "error", "*int", "float64", "string", "[2]int", "empty struct", "[]int in array", "*struct", "interface of pointers", "bool"}

// vt describes a value type: values are made from tags, and tell their tag.
// The zero value has tag 0.
type vt[V any] struct {
	name string
	n    int
	mk   func(tag int) V
	tag  func(v V) int
	// def makes a table with the default comparison, if the type allows it
	// and values of equal tag are ==
	def func() ip.Table_[V]
}

type structV struct {
	s []int
	x int
}

type tagErr struct{ tag int }

func (e *tagErr) Error() string { return fmt.Sprint(e.tag) }

type ptrI interface{ Tag() int }

type ptrT struct{ tag int }

func (p *ptrT) Tag() int {
	if p == nil {
		return 1
	}
	return p.tag
}

type small struct {
	a int
	b string
}

func defTable[V comparable]() ip.Table_[V] { return ip.NewTable_[V]() }

func c19Types(c *C) { c19For(c, "") }

// c19For runs what is specified by one property, or everything, on the value
// types.
func c19For(c *C, prop string) {
	switch c19Names[c.Idx%len(c19Names)] {
	case "[]int":
		c19Run(c, prop, vt[[]int]{name: "[]int", n: 6, mk: func(t int) []int {
			if t == 0 {
				return nil
			}
			return []int{t}
		}, tag: func(v []int) int {
			if len(v) == 0 {
				return 0
			}
			return v[0]
		}})
	case "map":
		c19Run(c, prop, vt[map[string]int]{name: "map", n: 6, mk: func(t int) map[string]int {
			if t == 0 {
				return nil
			}
			return map[string]int{"t": t}
		}, tag: func(v map[string]int) int { return v["t"] }})
	case "func":
		c19Run(c, prop, vt[func() int]{name: "func", n: 6, mk: func(t int) func() int {
			if t == 0 {
				return nil
			}
			return func() int { return t }
		}, tag: func(v func() int) int {
			if v == nil {
				return 0
			}
			return v()
		}})
	case "chan":
		c19Run(c, prop, vt[chan int]{name: "chan", n: 6, mk: func(t int) chan int {
			if t == 0 {
				return nil
			}
			return make(chan int, t)
		}, tag: func(v chan int) int { return cap(v) }})
	case "struct with slice":
		c19Run(c, prop, vt[structV]{name: "struct with slice", n: 6, mk: func(t int) structV { return structV{make([]int, t), t} }, tag: func(v structV) int { return v.x }})
	case "any":
		c19Run(c, prop, vt[any]{name: "any", n: 6, mk: func(t int) any {
			switch t {
			case 0:
				return nil
			case 1:
				return []int{1}
			case 2:
				return func() int { return 2 }
			case 3:
				return 3
			case 4:
				return map[int]int{}
			}
			return (*int)(nil)
		}, tag: func(v any) int {
			switch v.(type) {
			case nil:
				return 0
			case []int:
				return 1
			case func() int:
				return 2
			case int:
				return 3
			case map[int]int:
				return 4
			case *int:
				return 5
			}
			return 99
		}})
	case "error":
		es := []error{nil, &tagErr{1}, &tagErr{2}, &tagErr{3}, &tagErr{4}}
		c19Run(c, prop, vt[error]{name: "error", n: 5, mk: func(t int) error { return es[t] }, tag: func(v error) int {
			if v == nil {
				return 0
			}
			return v.(*tagErr).tag
		}, def: defTable[error]})
	case "*int":
		ps := []*int{nil}
		for i := 1; i < 6; i++ {
			x := i
			ps = append(ps, &x)
		}
		c19Run(c, prop, vt[*int]{name: "*int", n: 6, mk: func(t int) *int { return ps[t] }, tag: func(v *int) int {
			if v == nil {
				return 0
			}
			return *v
		}, def: defTable[*int]})
	case "float64":
		fs := []float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(math.Float64bits(math.NaN()) ^ 1), 1, math.Inf(1)}
		c19Run(c, prop, vt[float64]{name: "float64", n: 6, mk: func(t int) float64 { return fs[t] }, tag: func(v float64) int {
			for i, f := range fs {
				if math.Float64bits(f) == math.Float64bits(v) {
					return i
				}
			}
			return 99
		}})
	case "string":
		c19Run(c, prop, vt[string]{name: "string", n: 6, mk: func(t int) string {
			b := make([]byte, t)
			return string(b)
		}, tag: func(v string) int { return len(v) }, def: defTable[string]})
	case "[2]int":
		c19Run(c, prop, vt[[2]int]{name: "[2]int", n: 6, mk: func(t int) [2]int { return [2]int{t, -t} }, tag: func(v [2]int) int { return v[0] }, def: defTable[[2]int]})
	case "empty struct":
		c19Run(c, prop, vt[struct{}]{name: "empty struct", n: 1, mk: func(t int) struct{} { return struct{}{} }, tag: func(v struct{}) int { return 0 }, def: defTable[struct{}]})
	case "[]int in array":
		c19Run(c, prop, vt[[1][]int]{name: "[]int in array", n: 6, mk: func(t int) [1][]int { return [1][]int{make([]int, t)} }, tag: func(v [1][]int) int { return len(v[0]) }})
	case "*struct":
		c19Run(c, prop, vt[*small]{name: "*struct", n: 6, mk: func(t int) *small {
			if t == 0 {
				return nil
			}
			return &small{t, "x"}
		}, tag: func(v *small) int {
			if v == nil {
				return 0
			}
			return v.a
		}})
	case "interface of pointers":
		is := []ptrI{nil, (*ptrT)(nil), &ptrT{2}, &ptrT{3}, &ptrT{4}}
		c19Run(c, prop, vt[ptrI]{name: "interface of pointers", n: 5, mk: func(t int) ptrI { return is[t] }, tag: func(v ptrI) int {
			if v == nil {
				return 0
			}
			return v.Tag()
		}, def: defTable[ptrI]})
	case "bool":
		c19Run(c, prop, vt[bool]{name: "bool", n: 2, mk: func(t int) bool { return t == 1 }, tag: func(v bool) int {
			if v {
				return 1
			}
			return 0
		}, def: defTable[bool]})
	}
}

func c19Run[V any](c *C, prop string, ty vt[V]) {
	on := func(p string) bool { return prop == "" || prop == p }
	known := map[int]bool{}
	eq, eqName := eqInt, "tags"
	var t ip.Table_[V]
	if ty.def != nil && c.P(1, 3) {
		t = ty.def()
		eqName = "=="
	} else {
		switch c.N(4) {
		case 0:
			eq, eqName = func(a, b int) bool { return a/2 == b/2 }, "halves"
		case 1:
			eq, eqName = func(a, b int) bool { return a%2 == b%2 }, "parity"
		}
		cmp := func(a, b V) bool {
			x, y := ty.tag(a), ty.tag(b)
			c.Eval(1)
			c.Cover(Fam + " comparisons seen")
			if on("C19") && (!known[x] || !known[y]) {
				c.Failf("%s: comparison called with values tagged %d and %d; only %v were ever passed in", ty.name, x, y, known)
			}
			if x != y && eq(x, y) {
				c.Cover(Fam + " values merged by a coarser comparison")
			}
			return eq(x, y)
		}
		t = ip.NewTableCustomCompare_[V](cmp)
	}
	// only some tags are ever used, so that the zero value is often foreign
	var tags []int
	for _, x := range c.Perm(ty.n) {
		if len(tags) == 0 || c.Bool() {
			tags = append(tags, x)
		}
	}
	val := func() (V, int) {
		x := tags[c.N(len(tags))]
		known[x] = true
		if x == 0 {
			c.Cover(Fam + " zero values stored")
		}
		return ty.mk(x), x
	}
	g := gen.New(c.Rng, W)
	if c.P(1, 3) {
		k := c.In(1, 4)
		base, sh := smallBase(c, c.N(6), k)
		g = gen.Grid(c.Rng, W, base, sh, k)
	}
	c.Op("type %s, comparison %s, tags %v, universe %v", ty.name, eqName, tags, g)
	m := tm{}

	check := func(what string, t ip.Table[V], m tm) {
		ks := m.Keys()
		if on("C10") && t.NumEntries() != int64(len(ks)) {
			c.Failf("%s (%s): NumEntries %d of %d entries", what, ty.name, t.NumEntries(), len(ks))
		}
		if !on("C12") && !on("C17") {
			return
		}
		if at := 1 + c.N(len(ks)+1); at <= len(ks) {
			n := 0
			ret := t.Walk(func(P, V) bool { n++; return n < at })
			if ret || n != at {
				c.Failf("%s (%s): Walk stopped in call %d of %d made %d calls and returned %v", what, ty.name, at, len(ks), n, ret)
			}
		}
		i := 0
		c.Eval(1)
		ret := t.Walk(func(p P, v V) bool {
			if i >= len(ks) || !formOK(p, ks[i], m[ks[i]]) || ty.tag(v) != m[ks[i]].v {
				c.Failf("%s (%s): Walk entry %d is %v with tag %d; table %s", what, ty.name, i, p, ty.tag(v), showTM(m))
			}
			i++
			return true
		})
		if i != len(ks) || !ret {
			c.Failf("%s (%s): Walk reports %d of %d entries and returned %v", what, ty.name, i, len(ks), ret)
		}
	}
	// accept settles the value where the old may be kept
	accept := func(t ip.Table[V], k K, old ent, had bool, m tm) {
		e, ok := m[k]
		if !ok || !had || e.v == old.v || !eq(e.v, old.v) {
			return
		}
		if v, ok := t.Get(mkK(k)); ok && ty.tag(v) == old.v {
			m[k] = ent{old.v, e.forms}
		}
	}
	read := func(what string, t ip.Table[V], t_ ip.Table_[V], m tm, k K) {
		e, has := m[k]
		for i, f := range []func(PI) (V, bool){t.Get, t_.Get} {
			if !on("C10") {
				break
			}
			v, ok := f(mkK(k))
			c.Eval(1)
			if ok != has || ok && ty.tag(v) != e.v || !ok && ty.tag(v) != 0 {
				c.Failf("%s (%s): Get(%s) (%d) is tag %d, %v; want %d, %v; table %s", what, ty.name, pstr(k.Addr, k.Len), i, ty.tag(v), ok, e.v, has, showTM(m))
			}
		}
		mk, me, has := m.Match(W, k)
		for i, f := range []func(PI) (V, bool, P){t.LongestMatch, t_.LongestMatch} {
			if !on("C11") {
				break
			}
			v, ok, p := f(mkK(k))
			c.Eval(1)
			if ok != has || ok && (ty.tag(v) != me.v || !formOK(p, mk, me)) || !ok && ty.tag(v) != 0 {
				c.Failf("%s (%s): LongestMatch(%s) (%d) is tag %d, %v, %v; want %d, %v; table %s", what, ty.name, pstr(k.Addr, k.Len), i, ty.tag(v), ok, p, me.v, has, showTM(m))
			}
		}
	}
	step := func(t ip.Table_[V], m tm) string {
		k := g.Key()
		if ks := m.Keys(); len(ks) > 0 && c.Bool() {
			k = ks[c.N(len(ks))]
		}
		arg, form := keyArg(c, k)
		old, had := m[k]
		v, x := val()
		what := ""
		bad := func(got, want interface{}) {
			c.Eval(1)
			if got != want && on("C10") {
				c.Failf("%s (%s) returned %v, want %v; table %s", what, ty.name, got, want, showTM(m))
			}
		}
		put := func() { m[k] = ent{x, append(append([]U(nil), old.forms...), form)} }
		switch c.N(7) {
		case 0, 1:
			what = fmt.Sprintf("Insert(%v, #%d)", arg, x)
			bad(t.Insert(arg, v), !had)
			if !had {
				put()
			}
		case 2:
			what = fmt.Sprintf("Update(%v, #%d)", arg, x)
			bad(t.Update(arg, v), had)
			if had {
				put()
			}
		case 3:
			what = fmt.Sprintf("InsertOrUpdate(%v, #%d)", arg, x)
			t.InsertOrUpdate(arg, v)
			put()
		case 4:
			what = fmt.Sprintf("GetOrInsert(%v, #%d)", arg, x)
			got := ty.tag(t.GetOrInsert(arg, v))
			if had {
				bad(got, old.v)
			} else {
				bad(got, x)
				put()
			}
		default:
			what = fmt.Sprintf("Remove(%v)", arg)
			bad(t.Remove(arg), had)
			delete(m, k)
		}
		c.Op("%s", what)
		accept(t.Table(), k, old, had, m)
		read(what, t.Table(), t, m, k)
		read(what, t.Table(), t, m, g.Key())
		return what
	}
	diff := func(what string, l, r ip.Table[V], lm, rm tm) {
		if !on("C13") {
			return
		}
		all := diffModel(lm, rm, eq)
		for _, mask := range []int{15, 7, c.N(16)} {
			var want []ev
			for _, e := range all {
				if mask>>uint(e.class)&1 == 1 {
					want = append(want, e)
				}
			}
			n := 0
			see := func(class int, p P, a, b int) bool {
				if n >= len(want) || want[n].class != class || want[n].k != keyOf(p) ||
					class != evRight && a != want[n].l && (class != evSame || a != want[n].r) ||
					(class == evChanged || class == evRight) && b != want[n].r {
					c.Failf("%s (%s): Diff of %s and %s with callbacks %04b: event %d is %v, want %s", what, ty.name, showTM(lm), showTM(rm), mask, n, ev{class, keyOf(p), a, b}, showEvs(want))
				}
				n++
				return true
			}
			var changed func(P, V, V) bool
			var left, right, same func(P, V) bool
			if mask&1 != 0 {
				changed = func(p P, a, b V) bool { return see(evChanged, p, ty.tag(a), ty.tag(b)) }
			}
			if mask&2 != 0 {
				left = func(p P, a V) bool { return see(evLeft, p, ty.tag(a), 0) }
			}
			if mask&4 != 0 {
				right = func(p P, b V) bool { return see(evRight, p, 0, ty.tag(b)) }
			}
			if mask&8 != 0 {
				same = func(p P, a V) bool { return see(evSame, p, ty.tag(a), 0) }
			}
			c.Eval(1)
			if at := 1 + c.N(len(want)+1); at <= len(want) && prop == "C13" {
				// stopped
				i := 0
				stop := func(f func(P, V) bool) func(P, V) bool {
					if f == nil {
						return nil
					}
					return func(P, V) bool { i++; return i < at }
				}
				stop2 := changed
				if changed != nil {
					stop2 = func(P, V, V) bool { i++; return i < at }
				}
				if l.Diff(r, stop2, stop(left), stop(right), stop(same)) || i != at {
					c.Failf("%s (%s): Diff of %s and %s with callbacks %04b, stopped in call %d, made %d", what, ty.name, showTM(lm), showTM(rm), mask, at, i)
				}
			}
			if !l.Diff(r, changed, left, right, same) || n != len(want) {
				c.Failf("%s (%s): Diff of %s and %s with callbacks %04b: %d events, want %s", what, ty.name, showTM(lm), showTM(rm), mask, n, showEvs(want))
			}
		}
	}
	aggregate := func(what string, t ip.Table[V], m tm) (ip.Table[V], tm) {
		agg := t.Aggregate()
		am := tm{}
		agg.Walk(func(p P, v V) bool {
			a, _ := unP(p)
			am[keyOf(p)] = ent{ty.tag(v), []U{a}}
			return true
		})
		check(what+" aggregated", agg, am)
		if !on("C15") {
			return agg, am
		}
		pts := append(elementary(m), elementary(am)...)
		for _, u := range pts {
			_, e, has := m.Match(W, K{Addr: u, Len: W})
			v, ok, _ := agg.LongestMatch(mkA(u))
			c.Eval(1)
			if ok != has || ok && !eq(ty.tag(v), e.v) {
				c.Failf("%s (%s): aggregating %s under %q gives %s: %s has tag %d, %v; want %d, %v", what, ty.name, showTM(m), eqName, showTM(am), stringAddr(u), ty.tag(v), ok, e.v, has)
			}
		}
		for k, e := range am {
			if k.Len == 0 {
				continue
			}
			if pk, pe, ok := am.Match(W, model.MkKey(W, k.Addr, k.Len-1)); ok && eq(pe.v, e.v) {
				c.Failf("%s (%s): aggregating %s under %q gives %s: %s is redundant beneath %s", what, ty.name, showTM(m), eqName, showTM(am), pstr(k.Addr, k.Len), pstr(pk.Addr, pk.Len))
			}
			if se, ok := am[model.MkKey(W, k.Addr.Xor(u128.Bit(W-k.Len)), k.Len)]; ok && eq(se.v, e.v) {
				c.Failf("%s (%s): aggregating %s under %q gives %s: %s can be merged with its sibling", what, ty.name, showTM(m), eqName, showTM(am), pstr(k.Addr, k.Len))
			}
		}
		return agg, am
	}
	mapped := func(what string, t ip.Table[V], m tm) (ip.Table[V], tm) {
		kind := c.N(3)
		_, konst := val()
		f := func(x int) int {
			switch kind {
			case 0:
				return x
			case 1:
				return konst
			}
			return tags[(x+1)%len(tags)]
		}
		n := 0
		ks := m.Keys()
		out := t.Map(func(p P, v V) V {
			k := keyOf(p)
			e, ok := m[k]
			if on("C16") && (n >= len(ks) || k != ks[n]) {
				c.Failf("%s (%s): call %d of the mapper is for %v; table %s", what, ty.name, n, p, showTM(m))
			}
			if on("C16") && (!ok || e.v != ty.tag(v)) {
				c.Failf("%s (%s): mapper called for %v with tag %d; table %s", what, ty.name, p, ty.tag(v), showTM(m))
			}
			n++
			known[f(e.v)] = true
			return ty.mk(f(e.v))
		})
		if n != len(m) && on("C16") {
			c.Failf("%s (%s): mapper called %d times for %d entries", what, ty.name, n, len(m))
		}
		om := m.Clone()
		for k, e := range om {
			om[k] = ent{f(e.v), e.forms}
			accept(out, k, e, true, om)
		}
		check(what+" mapped", out, om)
		if on("C16") {
			for k, e := range om {
				if v, ok := out.Get(mkK(k)); !ok || ty.tag(v) != e.v {
					c.Failf("%s (%s): mapping %s gives tag %d, %v at %s, want %d", what, ty.name, showTM(m), ty.tag(v), ok, pstr(k.Addr, k.Len), e.v)
				}
			}
			if out.NumEntries() != int64(len(om)) {
				c.Failf("%s (%s): mapping %s gives %d entries", what, ty.name, showTM(m), out.NumEntries())
			}
		}
		return out, om
	}

	// fixed ones obtained so far
	type snap struct {
		t   ip.Table[V]
		m   tm
		how string
	}
	var snaps []snap
	keep := func(how string, t ip.Table[V], m tm) {
		if on("C17") && len(snaps) < 30 {
			snaps = append(snaps, snap{t, m.Clone(), how})
		}
	}
	reread := func(what string) {
		for j := 0; j < 2 && len(snaps) > 0; j++ {
			s := snaps[c.N(len(snaps))]
			check(s.how+", obtained before "+what, s.t, s.m)
			x := s.t.Table_() // a detached copy
			xm := s.m.Clone()
			check("Table_() of "+s.how, x.Table(), xm)
			for i := 0; i < 2; i++ {
				w := step(x, xm)
				check(w+" on a copy", x.Table(), xm)
			}
			check(s.how+", of which a copy was modified", s.t, s.m)
			c.Cover(Fam + " snapshots of values re-read")
		}
	}
	n := c.In(5, 40)
	if c.P(1, 24) { // one of many entries
		n = c.In(2, 5)
		size := logSize(c, 60, 4000)
		sh := mixedShape(c)
		for i := 0; i < size; i++ {
			k := sh(i)
			v, x := val()
			if _, had := m[k]; !had {
				t.Insert(mkK(k), v)
				m[k] = ent{v: x}
			}
		}
		c.Cover(Fam + " value types in tables " + sizeClass(size))
	}
	for i := 0; i < n; i++ {
		prev, pm := t.Table(), m.Clone()
		what := step(t, m)
		keep("Table() after "+what, t.Table(), m)
		tab := t.Table()
		sm := m.Clone()
		check(what, tab, sm)
		diff(what, prev, tab, pm, m)
		diff(what, tab, prev, m, pm)
		switch c.N(8) {
		case 0:
			t = tab.Table_()
		case 1:
			bm := m.Clone()
			ok := c.Bool()
			bt := tab.Build(func(b ip.Table_[V]) bool {
				for j := c.N(4); j > 0; j-- {
					step(b, bm)
				}
				return ok
			})
			if !ok {
				bm = m.Clone()
			}
			check("Build", bt, bm)
			keep("Build", bt, bm)
			diff("Build", tab, bt, m, bm)
			t, m = bt.Table_(), bm
			c.Cover(Fam + " derived by Build")
		case 2:
			x, xm := mapped(what, tab, m)
			keep("Map", x, xm)
			diff("Map", tab, x, m, xm)
			diff("Map", x, tab, xm, m)
			aggregate("Map", x, xm)
			t, m = x.Table_(), xm
			c.Cover(Fam + " derived by Map")
		case 3:
			x, xm := aggregate(what, tab, m)
			keep("Aggregate", x, xm)
			diff("Aggregate", tab, x, m, xm)
			y, ym := aggregate("Aggregate", x, xm)
			if !exactTM(xm, ym) && on("C15") {
				c.Failf("%s: aggregating %s again gives %s", ty.name, showTM(xm), showTM(ym))
			}
			diff("Aggregate", x, y, xm, ym)
			if c.P(1, 3) {
				t, m = x.Table_(), xm
			}
			c.Cover(Fam + " derived by Aggregate")
		}
		check("original", tab, sm)
		reread(what)
		c.Distinct(hashTM(mon.NewHash().Str(Fam).Str(ty.name).Str(eqName), m))
	}
	c.Cover(Fam + " type " + ty.name)
	c.Sample(func() string {
		return fmt.Sprintf("%s compared by %s, tags %v: %s", ty.name, eqName, tags, showTM(m))
	})
}
