package fam4

import (
	"fmt"
	"math/big"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C05"] = "cases: every prefix length with hostile and random addresses (host bits zero, one, all, random), Contains against every kind of set argument near its ends. Oracle: bitwise definition on an independent 128-bit integer. Non-trivial: distinct (address, length)."
	reg("C05", "prefix", W+1, (W+1)*20, c05Prefix)
	reg("C05", "contains", 3000, 60000, c05Contains)
	reg("C05", "address", 500, 10000, c05Address)
	mon.Need["C05"] = append(mon.Need["C05"], Fam+" length 0", Fam+fmt.Sprintf(" length %d", W), Fam+" contained", Fam+" not contained", Fam+" host bits")
}

func checkPrefix(c *C, u U, l int) P {
	p := mkP(u, l)
	k := model.MkKey(W, u, l)
	what := pstr(u, l)
	c.Eval(12)
	h := mon.NewHash().Str(Fam)
	c.Distinct(hashU(h, u).I(l))
	c.Cover(fmt.Sprintf("%s length %d", Fam, l))
	is := func(name string, q P, a U, l int) {
		if ga, gl := unP(q); ga != a || gl != l {
			c.Failf("%s.%s is %s, want %s", what, name, pstr(ga, gl), pstr(a, l))
		}
	}
	is("itself", p, u, l)
	is("Prefix()", p.Prefix(), u, l)
	is("Network()", p.Network(), k.Addr, l)
	is("Host()", p.Host(), u.And(mask(l).Not()), l)
	if u != k.Addr {
		c.Cover(Fam + " host bits")
	}
	if b, ok := broadcast(p); ok {
		is("Broadcast()", b, k.Last(W), l)
	}
	if m := p.Mask(); unM(m) != mask(l) || m.Length() != l || m != mkM(l) {
		c.Failf("%s.Mask() is %v", what, m)
	}
	if r := unR(p.Range()); r != k.Iv(W) {
		c.Failf("%s.Range() is %s-%s", what, stringAddr(r.Lo), stringAddr(r.Hi))
	}
	if a, m := prefixInts(p); a != u || m != mask(l) {
		c.Failf("%s as integers: %v %v", what, a, m)
	}
	if l < W {
		a, b := p.Halves()
		is("first half", a, k.Addr, l+1)
		is("second half", b, k.Addr.Or(u128.Bit(W-l-1)), l+1)
	}
	if n, ok := prefixNumAddresses(p); ok && big.NewInt(n).Cmp(new(big.Int).Lsh(big.NewInt(1), uint(W-l))) != 0 {
		c.Failf("%s.NumAddresses is %d", what, n)
	}
	for n := 0; n <= W; n++ {
		got, err := p.NumPrefixes(uint32(n))
		switch {
		case n < l:
			if err != nil || got != 0 {
				c.Failf("%s.NumPrefixes(%d) is %d, %v", what, n, got, err)
			}
		case n-l >= 64:
			if err == nil {
				c.Failf("%s.NumPrefixes(%d) is %d without an error", what, n, got)
			}
		default:
			if err != nil || got != 1<<uint(n-l) {
				c.Failf("%s.NumPrefixes(%d) is %d, %v", what, n, got, err)
			}
		}
	}
	for _, n := range []uint32{uint32(W) + 1, 2 * uint32(W), 256, 1 << 31, 1<<32 - 1} {
		if got, err := p.NumPrefixes(n); err == nil {
			c.Failf("%s.NumPrefixes(%d) is %d without an error", what, n, got)
		}
	}
	return p
}

func c05Prefix(c *C) {
	l := c.Idx % (W + 1)
	for i := 0; i < 60; i++ {
		var u U
		switch c.N(8) {
		case 0:
		case 1:
			u = maxU
		case 2:
			u = u128.Bit(c.N(W))
		case 3:
			u = u128.Bit(c.N(W)).Not().And(maxU)
		case 4:
			u = mask(l)
		case 5:
			u = mask(l).Not().And(maxU)
		default:
			u = gen.Rand(c.Rng, W)
		}
		checkPrefix(c, u, l)
		c.Sample(func() string { return pstr(u, l) })
	}
	c.Eval(2)
	if m := mkM(l); unM(m) != mask(l) || m.Length() != l {
		c.Failf("MaskFromLength(%d) is %v, length %d", l, m, m.Length())
	}
	if m, err := maskInt(mask(l)); err != nil || unM(m) != mask(l) || m.Length() != l {
		c.Failf("mask of length %d from an integer is %v, %v", l, m, err)
	}
}

func c05Contains(c *C) {
	g := gen.New(c.Rng, W)
	for i := 0; i < 12; i++ {
		u, l := g.Prefix()
		p := checkPrefix(c, u, l)
		m := model.OfKey(W, model.MkKey(W, u, l))
		try := func(arg SI, am MS, desc string) {
			c.Eval(1)
			want := m.Covers(W, am)
			if want {
				c.Cover(Fam + " contained")
			} else {
				c.Cover(Fam + " not contained")
			}
			if got := p.Contains(arg); got != want {
				c.Failf("%s.Contains(%s) = %v", pstr(u, l), desc, got)
			}
		}
		pool := func() (S, MS) { m := randSet(g, 4); return build(c, m), m }
		for j := 0; j < 6; j++ {
			arg, am, desc := operand(c, g, pool)
			try(arg, am, desc)
		}
		// near its ends
		for _, x := range gen.Edges(W, m) {
			try(mkA(x), model.One(x, x), "address "+stringAddr(x))
			l2 := c.In(l, W)
			try(mkP(x, l2), model.OfKey(W, model.MkKey(W, x, l2)), "prefix "+pstr(x, l2))
			if l > 0 {
				l3 := c.N(l)
				try(mkP(x, l3), model.OfKey(W, model.MkKey(W, x, l3)), "prefix "+pstr(x, l3))
			}
			if x.LE(m[0].Hi) && m[0].Lo.LE(x) {
				try(mkR(m[0].Lo, x), model.One(m[0].Lo, x), "range up to "+stringAddr(x))
				try(mkR(x, m[0].Hi), model.One(x, m[0].Hi), "range from "+stringAddr(x))
			} else if m[0].Hi.Less(x) {
				try(mkR(m[0].Lo, x), model.One(m[0].Lo, x), "range up to "+stringAddr(x))
			}
		}
		wantSet(c, pstr(u, l)+".Set()", p.Set(), m)
	}
	c.Cover(Fam + " " + g.Kind)
}

func c05Address(c *C) {
	g := gen.New(c.Rng, W)
	for i := 0; i < 12; i++ {
		u := g.Addr()
		a := mkA(u)
		c.Eval(4)
		if x, l := unP(a.Prefix()); x != u || l != W {
			c.Failf("%s.Prefix() is %s", stringAddr(u), pstr(x, l))
		}
		wantSet(c, stringAddr(u)+".Set()", a.Set(), model.One(u, u))
		if a.NumBits() != W {
			c.Failf("%s.NumBits() is %d", stringAddr(u), a.NumBits())
		}
		if unA(a) != u || addrParts(u) != a {
			c.Failf("%s as integers: %v", stringAddr(u), unA(a))
		}
		if ip.PrefixFromAddressMask(a, mkM(W)) != a.Prefix() {
			c.Failf("%s: host prefix is %v", stringAddr(u), a.Prefix())
		}
		c.Distinct(hashU(mon.NewHash().Str(Fam), u))
	}
}
