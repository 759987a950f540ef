package fam4

import (
	"math"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

// Tables and sets between the small ones of most workloads and the huge ones:
// hundreds to thousands of entries, drawn over the whole scale, of every
// shape. What depends on a size is found only by sizes on both sides of it.

func init() {
	for _, p := range []string{"C10", "C11", "C12", "C13", "C15", "C16", "C17"} {
		p := p
		mon.Rules[p] += " Also: tables of 60 to 8,000 entries, of sizes spread evenly over the scale."
		reg(p, "big", 1500, 30000, func(c *C) {
			size := logSize(c, 60, 8000)
			tablesOf(c, p, size, 12)
			c.Cover(Fam + " big " + sizeClass(size))
		}).Fixed = true
	}
	for _, p := range []string{"C01", "C02", "C03", "C22"} {
		p := p
		mon.Rules[p] += " Also: sets of 60 to 8,000 pieces, of sizes spread evenly over the scale."
		reg(p, "big", 1500, 30000, func(c *C) {
			size := logSize(c, 60, 8000)
			setsOf(c, p, size)
			c.Cover(Fam + " big " + sizeClass(size))
		}).Fixed = true
	}
	for _, p := range []string{"C01", "C02", "C03", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C22"} {
		for _, s := range []string{"up to 500", "up to 2000", "more"} {
			mon.Need[p] = append(mon.Need[p], Fam+" big "+s)
		}
	}
}

// logSize draws a size, every order of magnitude as likely as any other.
func logSize(c *C, lo, hi int) int {
	f := float64(c.N(1<<20)) / (1 << 20)
	return int(float64(lo) * math.Pow(float64(hi)/float64(lo), f))
}

func sizeClass(n int) string {
	switch {
	case n <= 500:
		return "up to 500"
	case n <= 2000:
		return "up to 2000"
	}
	return "more"
}

// mixedShape makes keys of every kind side by side: the default route and
// other short ones, the path to an address with its siblings, a complete
// tree, host routes and random ones.
func mixedShape(c *C) func(i int) K {
	u := gen.Rand(c.Rng, W)
	base := gen.Rand(c.Rng, W).And(mask(W - 12))
	top := c.N(W - 16)
	return func(i int) K {
		switch i % 5 {
		case 0:
			if l := i / 5; l <= W {
				return mkKey(u, l)
			}
			return mkKey(gen.Rand(c.Rng, W), c.N(14))
		case 1:
			l := 1 + i/5
			if l > W {
				l = c.In(1, W)
			}
			return mkKey(u.Xor(u128.Bit(W-l)), l)
		case 2:
			return mkKey(base.Or(gen.Rand(c.Rng, W).And(mask(W-12).Not())).And(maxU), c.In(W-12, W))
		case 3:
			return mkKey(base.Add(u128.From(uint64(i))).And(maxU), W)
		}
		return mkKey(u.And(mask(top)).Or(gen.Rand(c.Rng, W).And(mask(top).Not())).And(maxU), c.In(top, W))
	}
}

// someSet draws the content of a set of about n pieces.
func someSet(c *C, n int) MS {
	base := gen.Rand(c.Rng, W).And(mask(W - 24))
	var ivs []Iv
	add := func(k K) { ivs = append(ivs, k.Iv(W)) }
	switch c.N(4) {
	case 0: // evenly spaced
		st := uint64(c.In(2, 9))
		w := c.In(0, 2)
		for i := 0; i < n; i++ {
			add(mkKey(base.Add(u128.From(st*uint64(i)<<uint(w))), W-w))
		}
	case 1:
		for i := 0; i < n; i++ {
			add(mkKey(gen.Rand(c.Rng, W), c.In(W-8, W)))
		}
	case 2:
		lo := c.In(8, W-14)
		for i := 0; i < n; i++ {
			add(mkKey(gen.Rand(c.Rng, W), c.In(lo+6, W)))
		}
	default:
		f := mixedShape(c)
		for i := 0; i < n; i++ {
			if k := f(i); k.Len > 8 {
				add(k)
			}
		}
	}
	return model.Normalize(ivs)
}
