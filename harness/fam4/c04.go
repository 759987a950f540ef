package fam4

import (
	"fmt"
	"math/big"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C04"] = "cases: all pairs of ranges of 16-block universes at 8 anchors per family (ends also off the block grid by one), and random pairs from hostile universes. Oracle: interval model. Non-trivial: distinct pairs of ranges."
	reg("C04", "pairs", 8*136, 8*136, c04Pairs)
	reg("C04", "random", 3000, 200000, c04Random)
	mon.Need["C04"] = append(mon.Need["C04"], Fam+" top of space", Fam+" whole space", Fam+" empty", Fam+" split")
}

func rangesOf(rs []R) MS {
	var out MS
	for _, r := range rs {
		out = append(out, unR(r))
	}
	return out
}

// checkRange checks one range by itself.
func checkRange(c *C, lo, hi U) R {
	what := stringAddr(lo) + "-" + stringAddr(hi)
	r, empty := ip.RangeFromAddresses(mkA(lo), mkA(hi))
	c.Eval(1)
	if hi.Less(lo) {
		c.Cover(Fam + " empty")
		if !empty {
			c.Failf("RangeFromAddresses(%s) isn't reported empty", what)
		}
		return r
	}
	if empty {
		c.Failf("RangeFromAddresses(%s) is reported empty", what)
	}
	iv := Iv{Lo: lo, Hi: hi}
	if unR(r) != iv {
		c.Failf("RangeFromAddresses(%s) is %v", what, r)
	}
	m := MS{iv}
	coverEnds(c, m)
	wantSet(c, "Range "+what+".Set()", r.Set(), m)
	if n, ok := rangeNumAddresses(r); ok {
		if m.Size().Cmp(big.NewInt(n)) != 0 {
			c.Failf("Range %s.NumAddresses is %d", what, n)
		}
	}
	max := u128.U{Lo: ^uint64(0)}.Big()
	for _, l := range []int{0, W, W - 1, c.N(W + 1), c.N(W + 1), W - c.N(8)} {
		n, err := r.NumPrefixes(uint32(l))
		want := m.CountPrefixes(W, l)
		c.Eval(1)
		if want.Cmp(max) > 0 {
			if err == nil {
				c.Failf("Range %s.NumPrefixes(%d) is %d without an error, there are %v", what, l, n, want)
			}
		} else if err != nil || want.Cmp(new(big.Int).SetUint64(n)) != 0 {
			c.Failf("Range %s.NumPrefixes(%d) is %d, %v; want %v", what, l, n, err, want)
		}
	}
	for _, l := range []uint32{uint32(W) + 1, 1 << 31, 1<<32 - 1, uint32(c.U64()) | 256} {
		if n, err := r.NumPrefixes(l); err == nil {
			c.Failf("Range %s.NumPrefixes(%d) is %d without an error", what, l, n)
		}
	}
	return r
}

func checkRangePair(c *C, a, b R, ia, ib Iv) {
	c.Eval(3)
	ma, mb := MS{ia}, MS{ib}
	if got, want := rangesOf(a.Plus(b)), model.Union(ma, mb); !got.Equal(want) {
		c.Failf("%s Plus %s: got %s, want %s", showSet(ma), showSet(mb), showSet(got), showSet(want))
	}
	got, want := rangesOf(a.Minus(b)), model.Diff(W, ma, mb)
	if !got.Equal(want) {
		c.Failf("%s Minus %s: got %s, want %s", showSet(ma), showSet(mb), showSet(got), showSet(want))
	}
	if len(want) == 2 {
		c.Cover(Fam + " split")
	}
	if got := a.Contains(b); got != ma.Covers(W, mb) {
		c.Failf("%s Contains %s: %v", showSet(ma), showSet(mb), got)
	}
	h := mon.NewHash().Str(Fam)
	c.Distinct(hashSet(hashSet(h, ma), mb))
}

func c04Pairs(c *C) {
	g := gen.Anchors(W, 4)[c.Idx/136]
	n := c.Idx % 136
	x := 0
	for n >= 16-x {
		n -= 16 - x
		x++
	}
	ia := g.Block(x, x+n)
	if c.P(1, 3) && ia.Lo.Less(ia.Hi) {
		if c.Bool() {
			ia.Lo = ia.Lo.Inc()
		} else {
			ia.Hi = ia.Hi.Dec()
		}
	}
	a := checkRange(c, ia.Lo, ia.Hi)
	checkRange(c, ia.Hi, ia.Lo)
	for x := 0; x < 16; x++ {
		for y := x; y < 16; y++ {
			ib := g.Block(x, y)
			switch c.N(6) {
			case 0:
				if u := ib.Lo.Dec().And(maxU); u.LE(ib.Hi) {
					ib.Lo = u
				}
			case 1:
				if u := ib.Hi.Inc().And(maxU); ib.Lo.LE(u) {
					ib.Hi = u
				}
			case 2:
				if ib.Lo.Less(ib.Hi) {
					ib.Hi = ib.Hi.Dec()
				}
			}
			checkRangePair(c, a, checkRange(c, ib.Lo, ib.Hi), ia, ib)
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%v: %s against all ranges", g, showSet(MS{ia})) })
}

func c04Random(c *C) {
	g := gen.New(c.Rng, W)
	for i := 0; i < 20; i++ {
		alo, ahi := g.Range()
		blo, bhi := g.Range()
		switch c.N(8) {
		case 0:
			ahi = maxU
		case 1:
			bhi = maxU
		case 2:
			alo = U{}
		case 3:
			blo = U{}
		case 4: // adjacent
			if ahi != maxU {
				blo = ahi.Inc()
				if bhi.Less(blo) {
					bhi = blo
				}
			}
		case 5: // from one address, or network address, with any end
			blo = alo
			if bhi.Less(blo) {
				bhi = blo
			}
		}
		a, b := checkRange(c, alo, ahi), checkRange(c, blo, bhi)
		ia, ib := Iv{Lo: alo, Hi: ahi}, Iv{Lo: blo, Hi: bhi}
		checkRangePair(c, a, b, ia, ib)
		checkRangePair(c, b, a, ib, ia)
		x, y := g.Addr(), g.Addr()
		checkRange(c, x, y)
		// what else a range may contain
		arg, am, desc := operand(c, g, func() (S, MS) { m := randSet(g, 4); return build(c, m), m })
		if got := a.Contains(arg); got != (MS{ia}).Covers(W, am) {
			c.Failf("%s Contains %s: %v", showSet(MS{ia}), desc, got)
		}
		c.Sample(func() string { return fmt.Sprintf("%v and %v", a, b) })
	}
	c.Cover(Fam + " " + g.Kind)
}
