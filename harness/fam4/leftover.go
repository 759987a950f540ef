package fam4

import (
	"fmt"
	"runtime"
	"time"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mon"
)

// What is left running: calls which end, are stopped by their callbacks or are
// abandoned by a panic must not leave goroutines behind.

func init() {
	w := reg("C26", "leftover", 6, 60, c26Leftover)
	w.Serial, w.Fixed = true, true
	mon.Rules["C26"] += " Workload leftover: every iteration over sets and tables of up to 2,000 entries, run to the end, stopped, or abandoned by a panic; afterwards no more goroutines run than before."
	mon.Need["C26"] = append(mon.Need["C26"], Fam+" abandoned sets", Fam+" abandoned", Fam+" goroutines counted")
}

func c26Leftover(c *C) {
	before, calls := 0, 0
	for round := 0; round < 15; round++ {
		if round < 3 { // something set up once is not left behind
			time.Sleep(time.Millisecond)
			before, calls = runtime.NumGoroutine(), 0
		}
		n := []int{3, 20, 70, 300, 1100, 2000}[c.N(6)]
		sh, _ := shape(c, n)
		t, s := ip.NewTable_[int](), ip.NewSet_()
		for i := 0; i < n; i++ {
			k := sh(i)
			t.InsertOrUpdate(mkK(k), c.N(5))
			s.Insert(mkA(gen.Rand(c.Rng, W)))
		}
		u := t.Table().Table_()
		for i := n / 10; i >= 0; i-- {
			u.Remove(mkK(sh(c.N(n))))
		}
		for i := 0; i < 10; i++ {
			abandon(c, t.Table(), u.Table())
			abandonSet(c, s)
			t.Table().Walk(func(P, int) bool { return true })
			t.Table().Diff(u.Table(), nil, nil, nil, nil)
			t.Table().Map(func(_ P, v int) int { return v / 2 }).Aggregate()
			s.Set().Difference(s.Set().Build(func(s_ S_) bool { s_.Remove(mkP(U{}, 1)); return true }))
			s.Set().FindAvailablePrefix(mkP(U{}, 1), uint32(c.In(1, W)))
			calls += 7
		}
	}
	after := 0
	for try := 0; try < 200; try++ {
		if after = runtime.NumGoroutine(); after <= before {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	c.Eval(calls)
	c.CoverN(Fam+" goroutines counted", calls)
	c.Distinct(mon.NewHash().Str(Fam).Str("leftover").I(c.Idx))
	if after > before {
		c.Failf("after %d calls, some abandoned, %d goroutines run; before there were %d", calls, after, before)
	}
	c.Sample(func() string { return fmt.Sprintf("%d goroutines before, %d after %d calls", before, after, calls) })
}

func abandonSet(c *C, s S_) {
	n := c.In(1, 70)
	panics := c.Bool()
	cb := func() bool {
		if n--; n != 0 {
			return true
		}
		if panics {
			panic("abandoned")
		}
		return false
	}
	defer func() {
		if r := recover(); r != nil && r != "abandoned" {
			panic(r)
		}
	}()
	c.Cover(Fam + " abandoned sets")
	switch c.N(3) {
	case 0:
		s.Set().WalkPrefixes(func(P) bool { return cb() })
	case 1:
		s.Set().WalkRanges(func(R) bool { return cb() })
	case 2:
		s.Set().Build(func(s_ S_) bool {
			return s.Set().WalkPrefixes(func(p P) bool { s_.Remove(p); return cb() })
		})
	}
}
