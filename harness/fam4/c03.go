package fam4

import (
	"fmt"
	"math/big"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C03"] = "cases: random sets from hostile universes, counted for every length 0..W+2 and large lengths, walked completely and with every stopping point (up to a bound). Oracle: interval model. Non-trivial: distinct non-empty set contents."
	reg("C03", "walks", 4000, 80000, c03Walks)
	reg("C03", "shapes", 8*256, 8*256, c03Shapes)
	mon.Need["C03"] = append(mon.Need["C03"], Fam+" ranges", Fam+" stops", Fam+" top of space", Fam+" counts beyond address size", Fam+" whole space")
	if !hasNum {
		mon.Need["C03"] = append(mon.Need["C03"], Fam+" counts that do not fit", Fam+" sums that do not fit")
	}
}

func c03Shapes(c *C) {
	g := gen.Anchors(W, 3)[c.Idx/256]
	m := gridSet(g, c.Idx%256)
	c03One(c, m)
}

func c03Walks(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("universe %v", g)
	m := randSet(g, c.In(1, 12))
	if c.P(1, 8) {
		m = model.Complement(W, m)
	}
	c03One(c, m)
}

func c03One(c *C, m MS) { c03Set(c, build(c, m), m) }

func c03Set(c *C, s S, m MS) {
	what := showSet(m)
	coverEnds(c, m)
	if len(m) > 0 {
		c.Distinct(hashSet(mon.NewHash().Str(Fam), m))
	}
	c.Sample(func() string { return what })

	// complete walks
	var rs []Iv
	fin := s.WalkRanges(func(r R) bool {
		rs = append(rs, unR(r))
		if len(rs) > len(m)+2 {
			c.Failf("%s: WalkRanges reports too many ranges: %s", what, showSet(rs))
		}
		return true
	})
	c.Eval(1)
	if !MS(rs).Equal(m) || !fin {
		c.Failf("%s: WalkRanges reports %s and returns %v", what, showSet(rs), fin)
	}
	c.CoverN(Fam+" ranges", len(rs))
	ps := m.Cover(W)
	stop := func(name string, total, at int, run func(cb func(i int) bool) bool) {
		n := 0
		ret := run(func(i int) bool {
			n++
			if n > at {
				c.Failf("%s: %s went on after its callback returned false (call %d)", what, name, n)
			}
			return n < at
		})
		c.Eval(1)
		if at > total { // never stopped
			if n != total || !ret {
				c.Failf("%s: %s made %d calls of %d and returned %v", what, name, n, total, ret)
			}
		} else {
			c.Cover(Fam + " stops")
			if n != at || ret {
				c.Failf("%s: %s stopped by its callback in call %d: %d calls, returned %v", what, name, at, n, ret)
			}
		}
	}
	stops := func(total int) (out []int) {
		for i := 1; i <= total+1 && i < 8; i++ {
			out = append(out, i)
		}
		for i := 0; i < 2 && total > 8; i++ {
			out = append(out, 8+c.N(total-7))
		}
		return append(out, total, total+1)
	}
	for _, at := range stops(len(m)) {
		if at > 0 {
			stop("WalkRanges", len(m), at, func(cb func(int) bool) bool {
				i := 0
				return s.WalkRanges(func(r R) bool {
					if i < len(m) && unR(r) != m[i] {
						c.Failf("%s: WalkRanges: range %d is %v", what, i, r)
					}
					i++
					return cb(i)
				})
			})
		}
	}
	for _, at := range stops(len(ps)) {
		if at > 0 {
			stop("WalkPrefixes", len(ps), at, func(cb func(int) bool) bool {
				i := 0
				return s.WalkPrefixes(func(p P) bool {
					if a, l := unP(p); i < len(ps) && (K{Addr: a, Len: l}) != ps[i] {
						c.Failf("%s: WalkPrefixes: prefix %d is %v, want %v", what, i, p, pstr(ps[i].Addr, ps[i].Len))
					}
					i++
					return cb(i)
				})
			})
		}
	}

	// addresses
	if hasNum {
		size := m.Size()
		n := 0
		if size.Cmp(big.NewInt(5000)) <= 0 {
			n = int(size.Int64())
		} else {
			n = 5000
		}
		want := make([]U, 0, n)
		for _, v := range m {
			for u := v.Lo; len(want) < n; u = u.Inc() {
				want = append(want, u)
				if u == v.Hi {
					break
				}
			}
		}
		at := stops(n)
		if size.Cmp(big.NewInt(5000)) > 0 {
			at = []int{1, 2, n} // never to the end
		} else if n > 300 {
			at = []int{1, n, n + 1}
		} else {
			c.Cover(Fam + " addresses to the end")
		}
		for _, a := range at {
			if a > 0 {
				stop("WalkAddresses", n, a, func(cb func(int) bool) bool {
					i := 0
					ret, _ := walkAddresses(s, func(x A) bool {
						if i >= len(want) || unA(x) != want[i] {
							c.Failf("%s: WalkAddresses: address %d is %v", what, i, x)
						}
						i++
						return cb(i)
					})
					return ret
				})
			}
		}
		wantNum(c, what, s, m)
		if k, ok := msetNumAddresses(s.Set_()); ok && size.Cmp(big.NewInt(k)) != 0 {
			c.Failf("%s: Set_.NumAddresses is %d", what, k)
		}
	}

	// counts
	lens := []uint32{0, 1, uint32(W) / 2, uint32(W) - 1, uint32(W)}
	for _, p := range ps {
		lens = append(lens, uint32(p.Len))
		if len(lens) > 14 {
			break
		}
	}
	for i := 0; i < 8; i++ {
		lens = append(lens, uint32(c.N(W+1)))
	}
	lens = append(lens, uint32(W)+1, uint32(W)+2, 2*uint32(W), 1<<31, 1<<32-1, uint32(c.U64()), 256, 256+uint32(W))
	max := u128.U{Lo: ^uint64(0)}.Big()
	for _, l := range lens {
		n, err := s.NumPrefixes(l)
		c.Eval(1)
		if l > uint32(W) {
			c.Cover(Fam + " counts beyond address size")
			if len(m) > 0 && err == nil {
				c.Failf("%s: NumPrefixes(%d) is %d without an error", what, l, n)
			}
			if len(m) == 0 && err == nil && n != 0 {
				c.Failf("empty set: NumPrefixes(%d) is %d", l, n)
			}
			continue
		}
		want := m.CountPrefixes(W, int(l))
		if want.Cmp(max) > 0 {
			c.Cover(Fam + " counts that do not fit")
			fits := true
			for _, p := range ps {
				if int(l)-p.Len >= 64 {
					fits = false
				}
			}
			if fits {
				c.Cover(Fam + " sums that do not fit")
			}
			if err == nil {
				c.Failf("%s: NumPrefixes(%d) is %d without an error; there are %v", what, l, n, want)
			}
			continue
		}
		if err != nil || want.Cmp(new(big.Int).SetUint64(n)) != 0 {
			c.Failf("%s: NumPrefixes(%d) is %d, %v; want %v", what, l, n, err, want)
		}
	}
	_ = fmt.Sprint
}
