package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C22"] = "cases: all subsets of 8-block universes with random reserved subsets at 8 anchors per family, random sets from hostile universes (nested, fragmented, with reserved space larger than, equal to or disjoint from the set), every length, lengths beyond the address size, and allocation sequences which fill a set. Oracle: free blocks are the minimal cover of the difference; best fit is the longest free block that is long enough. Non-trivial: distinct (set, reserved, length) with free space."
	reg("C22", "shapes", 8*256, 8*256*8, c22Shapes)
	reg("C22", "random", 3000, 80000, c22Random)
	reg("C22", "fill", 150, 3000, c22Fill)
	mon.Need["C22"] = append(mon.Need["C22"], Fam+" found", Fam+" exact fit", Fam+" splits a block", Fam+" no room", Fam+" length beyond size", Fam+" choice among sizes", Fam+" reserved covers all")
}

func checkFind(c *C, s S, m MS, reserved SI, rm MS, l uint32) (K, bool) {
	free := model.Diff(W, m, rm).Cover(W)
	best := -1
	sizes := map[int]bool{}
	for _, k := range free {
		if uint32(k.Len) <= l {
			sizes[k.Len] = true
			if k.Len > best {
				best = k.Len
			}
		}
	}
	what := func() string {
		return fmt.Sprintf("FindAvailablePrefix(reserved %s, %d) in %s", showSet(rm), l, showSet(m))
	}
	p, err := s.FindAvailablePrefix(reserved, l)
	c.Eval(1)
	if len(free) == 0 && len(m) > 0 {
		c.Cover(Fam + " reserved covers all")
	}
	if l > uint32(W) {
		c.Cover(Fam + " length beyond size")
		if err == nil {
			c.Failf("%s gives %v", what(), p)
		}
		return K{}, false
	}
	if best < 0 {
		c.Cover(Fam + " no room")
		if err == nil {
			c.Failf("%s gives %v, but there is no room", what(), p)
		}
		return K{}, false
	}
	if err != nil {
		c.Failf("%s: %v, but there is room in a /%d", what(), err, best)
	}
	a, gl := unP(p)
	if uint32(gl) != l || a.And(mask(gl)) != a {
		c.Failf("%s gives %s: not a network prefix of that length", what(), pstr(a, gl))
	}
	k := K{Addr: a, Len: gl}
	for _, f := range free {
		if f.Contains(W, k) {
			if f.Len != best {
				c.Failf("%s gives %s from the free block %s; there is a free /%d", what(), pstr(a, gl), pstr(f.Addr, f.Len), best)
			}
			c.Cover(Fam + " found")
			if f.Len == gl {
				c.Cover(Fam + " exact fit")
			} else {
				c.Cover(Fam + " splits a block")
			}
			if len(sizes) > 1 {
				c.Cover(Fam + " choice among sizes")
			}
			h := mon.NewHash().Str(Fam)
			c.Distinct(hashSet(hashSet(h, m), rm).I(int(l)))
			return k, true
		}
	}
	c.Failf("%s gives %s, which is not free", what(), pstr(a, gl))
	return K{}, false
}

func c22Lens(c *C, m MS, rm MS) (out []uint32) {
	seen := map[uint32]bool{}
	add := func(l int) {
		if l >= 0 && !seen[uint32(l)] {
			seen[uint32(l)] = true
			out = append(out, uint32(l))
		}
	}
	for _, k := range model.Diff(W, m, rm).Cover(W) {
		add(k.Len)
		add(k.Len + 1)
		add(k.Len - 1)
		if len(out) > 24 {
			break
		}
	}
	for _, l := range []int{0, 1, W, W - 1, c.N(W + 1), c.N(W + 1), W + 1, 2 * W, 256, 256 + c.N(W), 1<<31 - 1} {
		add(l)
	}
	if !seen[^uint32(0)] {
		out = append(out, ^uint32(0))
	}
	return
}

func c22Shapes(c *C) {
	i := c.Idx % (8 * 256)
	g := gen.Anchors(W, 3)[i/256]
	m := gridSet(g, i%256)
	s := build(c, m)
	for j := 0; j < 12; j++ {
		rm := gridSet(g, c.N(256))
		switch j {
		case 0:
			rm = nil
		case 1:
			rm = m
		case 2:
			rm = model.Complement(W, m)
		case 3:
			rm = model.Complement(W, gridSet(g, 1<<uint(c.N(8))))
		}
		r := build(c, rm)
		for _, l := range c22Lens(c, m, rm) {
			checkFind(c, s, m, r, rm, l)
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%v: %s", g, showSet(m)) })
}

func c22Random(c *C) {
	g := gen.New(c.Rng, W)
	c.Op("%v", g)
	m := randSet(g, c.In(1, 8))
	s := build(c, m)
	for j := 0; j < 6; j++ {
		rm := randSet(g, c.In(1, 10))
		if c.P(1, 4) {
			rm = model.Union(rm, model.Complement(W, randSet(g, 3)))
		}
		if c.P(1, 4) && len(m) > 0 {
			// a hole with an address less or more
			v := m[c.N(len(m))]
			rm = model.Union(rm, model.Diff(W, MS{v}, model.One(v.Lo, v.Lo)))
		}
		var reserved SI = build(c, rm)
		switch c.N(4) {
		case 0:
			reserved = reserved.Set().Set_()
		case 1:
			var desc string
			reserved, rm, desc = operand(c, g, nil)
			c.Op("reserved %s", desc)
		}
		for _, l := range c22Lens(c, m, rm) {
			checkFind(c, s, m, reserved, rm, l)
		}
	}
	c.Cover(Fam + " " + g.Kind)
	c.Sample(func() string { return fmt.Sprintf("%v: %s", g, showSet(m)) })
}

// c22Fill allocates until nothing is left.
func c22Fill(c *C) {
	g := gen.New(c.Rng, W)
	m := randSet(g, 5)
	if len(m) == 0 {
		k := g.Key()
		m = MS{k.Iv(W)}
	}
	s := build(c, m)
	reserved := ip.NewSet_()
	var rm MS
	ks := m.Cover(W)
	min := ks[0].Len
	for _, k := range ks {
		if k.Len < min {
			min = k.Len
		}
	}
	for i := 0; i < 60; i++ {
		l := min + c.N(6)
		if l > W {
			l = W
		}
		k, ok := checkFind(c, s, m, reserved, rm, uint32(l))
		if ok {
			reserved.Insert(mkK(k))
			rm = model.Union(rm, model.OfKey(W, k))
		} else if c.P(1, 3) && len(rm) > 0 {
			// give something back
			v := rm[c.N(len(rm))]
			reserved.Remove(mkR(v.Lo, v.Hi))
			rm = model.Diff(W, rm, MS{v})
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s, allocated %s", showSet(m), showSet(rm)) })
}
