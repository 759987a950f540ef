package fam4

import (
	"fmt"
	"runtime"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
)

// Recycled addresses: round after round, sets and tables of the same few shapes
// but with other contents are made, read and dropped, and the collector runs in
// between, so that new ones lie where old ones lay. What remembers results by
// the address of an object it doesn't keep alive is then found out.

func init() {
	for _, p := range []string{"C01", "C03", "C22"} {
		w := reg(p, "recycled-sets", 6, 120, recycledSets)
		w.Serial, w.Fixed = true, true
		mon.Rules[p] += " Workload recycled-sets: many generations of sets of the same shape and other content, each of which is read in pairs, in every way, and collected, so that they get the same addresses."
		mon.Need[p] = append(mon.Need[p], Fam+" generations of sets", Fam+" objects at recycled addresses")
	}
	for _, p := range []string{"C11", "C12", "C13", "C15"} {
		w := reg(p, "recycled-tables", 6, 120, recycledTables)
		w.Serial, w.Fixed = true, true
		mon.Rules[p] += " Workload recycled-tables: many generations of tables of the same shape and other content, each of which is read in every way and collected, so that they get the same addresses."
		mon.Need[p] = append(mon.Need[p], Fam+" generations of tables", Fam+" objects at recycled addresses")
	}
}

// addrs notes where the objects of a set or table lie.
func addrs(c *C, seen map[uintptr]int, round int, root interface{}) {
	n := 0
	for p := range mem.Pointers(root) {
		if r, ok := seen[uintptr(p)]; ok && r != round {
			n++
		}
		seen[uintptr(p)] = round
	}
	if n > 0 {
		c.CoverN(Fam+" objects at recycled addresses", n)
	}
}

// dotted gives n pieces which don't touch.
func dotted(c *C, n int) MS {
	var ivs []Iv
	base := gen.Rand(c.Rng, W).And(mask(W - 12))
	for i := 0; i < n; i++ {
		lo := base.Or(U{Lo: uint64(i*64 + c.N(30))})
		ivs = append(ivs, Iv{Lo: lo, Hi: lo.Add(U{Lo: uint64(c.N(2) * c.N(30))})})
	}
	return model.Normalize(ivs)
}

func recycledSets(c *C) {
	pieces := []int{1, 3, 5, 9, 17, 40}[c.Idx%6]
	seen := map[uintptr]int{}
	const rounds = 150
	for round := 0; round < rounds; round++ {
		// first all models, then one set after another
		var ms []MS
		for i := 0; i < 4; i++ {
			m := dotted(c, pieces)
			if i > 0 && c.Bool() {
				m = ms[c.N(i)]
			}
			ms = append(ms, m)
		}
		collect(c)
		var ss []S
		for _, m := range ms {
			s := ip.NewSet_()
			for _, iv := range m {
				s.Insert(mkR(iv.Lo, iv.Hi))
			}
			ss = append(ss, s.Set())
		}
		for i := range ss {
			for j := range ss {
				c.Eval(2)
				if got, want := ss[i].Equal(ss[j]), ms[i].Equal(ms[j]); got != want {
					c.Failf("Equal of %s and %s gave %v", showSet(ms[i]), showSet(ms[j]), got)
				}
				if got, want := ss[i].Contains(ss[j]), ms[i].Covers(W, ms[j]); got != want {
					c.Failf("Contains of %s and %s gave %v", showSet(ms[i]), showSet(ms[j]), got)
				}
			}
		}
		for k := 0; k < 3; k++ {
			i, j := c.N(len(ms)), c.N(len(ms))
			checkPair(c, ss[i], ms[i], ss[j], ms[j])
			checkFind(c, ss[i], ms[i], ss[j], ms[j], uint32(c.In(0, W)))
		}
		i := c.N(len(ms))
		canonical(c, fmt.Sprintf("set of generation %d", round), ss[i], ms[i])
		checkPred(c, showSet(ms[i]), ss[i], ms[i])
		for i := range ss {
			addrs(c, seen, round, &ss[i])
		}
		ms, ss = nil, nil
	}
	c.CoverN(Fam+" generations of sets", rounds)
	c.Distinct(mon.NewHash().Str(Fam).Str("recycled").I(c.Idx).I(len(seen)))
	c.Sample(func() string {
		return fmt.Sprintf("%d generations of %d pieces, %d addresses", rounds, pieces, len(seen))
	})
}

func recycledTables(c *C) {
	n := []int{1, 2, 4, 9, 17, 40}[c.Idx%6]
	seen := map[uintptr]int{}
	eq := func(a, b int) bool { return a == b }
	const rounds = 100
	for round := 0; round < rounds; round++ {
		var ts []T
		var ts_ []T_
		var ms []tm
		sh, _ := shape(c, n)
		for i := c.In(2, 3); i > 0; i-- {
			t, m := ip.NewTable_[int](), tm{}
			for k := 0; k < n; k++ {
				key, v := sh(k), c.N(3)
				t.InsertOrUpdate(mkK(key), v)
				m[key] = ent{v: v}
			}
			ts, ts_, ms = append(ts, t.Table()), append(ts_, t), append(ms, m)
		}
		for i := range ts {
			what := fmt.Sprintf("table of generation %d", round)
			checkWalk(c, what, ts[i], ms[i])
			checkGets(c, what, ts[i], ms[i])
			ks := ms[i].Keys()
			for k := 0; k < 4; k++ {
				checkMatch(c, what, ts[i], ts_[i], ms[i], ks[c.N(len(ks))])
			}
			a, am := checkAggregate(c, what, ts[i], ms[i], eq)
			checkWalk(c, what+", aggregated", a, am)
			j := c.N(len(ts))
			checkDiff(c, what, ts[i], ts[j], ms[i], ms[j], diffModel(ms[i], ms[j], eq), 15-8*c.N(2), 0)
		}
		for i := range ts {
			addrs(c, seen, round, &ts[i])
			addrs(c, seen, round, &ts_[i])
		}
		ts, ts_, ms = nil, nil, nil
		collect(c)
	}
	c.CoverN(Fam+" generations of tables", rounds)
	c.Distinct(mon.NewHash().Str(Fam).Str("recycled").I(c.Idx).I(len(seen)))
	c.Sample(func() string { return fmt.Sprintf("%d generations of %d entries, %d addresses", rounds, n, len(seen)) })
}

func collect(c *C) {
	runtime.GC()
	if c.P(1, 4) {
		runtime.GC() // finalized objects take two
	}
}
