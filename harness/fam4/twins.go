package fam4

import (
	"fmt"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

// Twins: sets and tables which are different but agree in whatever could be
// taken for them: sizes, sums, ends, most of their pieces.

func init() {
	mon.Rules["C01"] += " Also: twins, sets of 2 to thousands of pieces which differ in a few pieces only, in ways that keep the number of prefixes and addresses and the sums of either."
	mon.Rules["C13"] += " Also: twins, tables built separately which differ in a few entries only, with values or keys exchanged."
	reg("C01", "twins", 240, 6000, c01Twins)
	reg("C13", "twins", 120, 3000, c13Twins)
	mon.Need["C01"] = append(mon.Need["C01"], Fam+" twins", Fam+" twins of many pieces", Fam+" equal twins")
	mon.Need["C13"] = append(mon.Need["C13"], Fam+" twins", Fam+" twins of many entries")
}

// twinBase places cells of size 1<<sh somewhere; at gives the address of a cell.
func twinBase(c *C, cells int) (at func(i int) U, sh int) {
	bits := 1
	for 1<<uint(bits) < cells {
		bits++
	}
	sh = c.N(W - bits + 1)
	if c.Bool() {
		sh = c.N(4)
	}
	if sh > W-bits {
		sh = W - bits
	}
	base := gen.Rand(c.Rng, W).And(mask(W - sh - bits))
	switch c.N(4) {
	case 0:
		base = U{}
	case 1:
		base = maxU.And(mask(W - sh - bits))
	}
	return func(i int) U { return base.Or(u128.From(uint64(i)).Shl(sh)) }, sh
}

func twinSize(c *C) int {
	switch c.N(6) {
	case 0:
		return c.In(2, 8)
	case 1, 2:
		return c.In(8, 100)
	case 3, 4:
		return c.In(64, 600)
	}
	return c.In(600, 4000)
}

// exchange gives a variant of used (over cells): a few elements moved so that
// much stays the same. With how it tells what was done.
func exchange(c *C, used map[int]bool, cells int) (map[int]bool, string) {
	out := map[int]bool{}
	var in []int
	for i := 0; i < cells; i++ {
		if used[i] {
			out[i] = true
			in = append(in, i)
		}
	}
	how := ""
	for tries := 0; tries < 40; tries++ {
		i, j := in[c.N(len(in))], in[c.N(len(in))]
		d := c.In(1, 6)
		if c.P(1, 4) {
			d = c.In(1, cells-1)
		}
		var x, y int
		switch c.N(4) {
		case 0: // the sum stays
			x, y = i+d, j-d
			how = "moved apart"
		case 1: // the exclusive or stays
			x, y = i^d, j^d
			how = "bits exchanged"
		case 2:
			x, y = i^d, j
			how = "moved"
		default: // mirrored pair
			x, y = i+d, j+d
			how = "shifted"
		}
		if i == j && how != "moved" || x < 0 || y < 0 || x >= cells || y >= cells || x == y {
			continue
		}
		if how == "moved" {
			if out[x] || i == j && x == i {
				continue
			}
			delete(out, i)
			out[x] = true
			return out, how
		}
		if out[x] && x != j || out[y] && y != i {
			continue
		}
		delete(out, i)
		delete(out, j)
		out[x], out[y] = true, true
		if len(out) != len(in) {
			break
		}
		return out, how
	}
	// at worst, one removed
	out = map[int]bool{}
	for _, i := range in[1:] {
		out[i] = true
	}
	return out, "removed"
}

func c01Twins(c *C) {
	n := twinSize(c)
	cells := n * c.In(2, 4)
	at, sh := twinBase(c, cells)
	used := map[int]bool{}
	for _, i := range c.Perm(cells)[:n] {
		used[i] = true
	}
	set := func(cs map[int]bool) (ivs []Iv) {
		for i := 0; i < cells; i++ {
			if cs[i] {
				ivs = append(ivs, model.MkKey(W, at(i), W-sh).Iv(W))
			}
		}
		return
	}
	mk := func(m MS) S {
		if len(m) > 600 { // the quick ways only
			t := ip.NewSet_()
			for _, i := range c.Perm(len(m)) {
				t.Insert(mkR(m[i].Lo, m[i].Hi))
			}
			return t.Set()
		}
		return build(c, m)
	}
	ma := model.Normalize(set(used))
	sa := mk(ma)
	wantSet(c, "twin", sa, ma)
	// the same again, built in another way
	same := mk(ma)
	c.Eval(2)
	if !sa.Equal(same) || !same.Equal(sa) || !sa.Set_().Equal(same.Set_()) || !sa.Contains(same) {
		c.Failf("two sets with the content %s are not Equal", showSet(ma))
	}
	c.Cover(Fam + " equal twins")
	if sa.Intersection(same).IsEmpty() != (len(ma) == 0) || !sa.Difference(same).IsEmpty() || !sa.Union(same).Equal(sa) {
		c.Failf("operations on two sets with the content %s", showSet(ma))
	}
	hows := ""
	for i := 0; i < 3; i++ {
		cs, how := exchange(c, used, cells)
		mb := model.Normalize(set(cs))
		var sb S
		if c.Bool() {
			sb = mk(mb)
		} else { // derived, sharing structure
			t := sa.Set_()
			for _, v := range model.Diff(W, ma, mb) {
				t.Remove(mkR(v.Lo, v.Hi))
			}
			for _, v := range model.Diff(W, mb, ma) {
				t.Insert(mkR(v.Lo, v.Hi))
			}
			sb = t.Set()
		}
		wantSet(c, "twin", sb, mb)
		checkPair(c, sa, ma, sb, mb)
		checkPair(c, sb, mb, sa, ma)
		c.Cover(Fam + " twins")
		if len(ma) > 64 && ma.Size().Cmp(mb.Size()) == 0 {
			c.Cover(Fam + " twins of many pieces")
		}
		c.Distinct(hashSet(hashSet(mon.NewHash().Str(Fam), ma), mb))
		hows += how + " "
	}
	c.Sample(func() string { return fmt.Sprintf("%d cells of /%d: %s", n, W-sh, hows) })
}

func c13Twins(c *C) {
	n := twinSize(c)
	cells := n * c.In(2, 3)
	at, sh := twinBase(c, cells)
	nv := []int{2, 3, 1000}[c.N(3)]
	used := map[int]bool{}
	var lm = tm{}
	for _, i := range c.Perm(cells)[:n] {
		used[i] = true
		lm[model.MkKey(W, at(i), W-sh)] = ent{v: c.N(nv)}
	}
	for i := c.N(4); i > 0; i-- { // some above others
		lm[model.MkKey(W, at(c.N(cells)), c.N(W-sh+1))] = ent{v: c.N(nv)}
	}
	mk := func(m tm) T {
		t := ip.NewTable_[int]()
		ks := m.Keys()
		for _, i := range c.Perm(len(ks)) {
			t.Insert(mkK(ks[i]), m[ks[i]].v)
		}
		return t.Table()
	}
	lt := mk(lm)
	eq := func(a, b int) bool { return a == b }
	check := func(how string, rm tm) {
		rt := mk(rm)
		if c.Bool() { // derived, sharing structure
			t := lt.Table_()
			for k := range lm {
				if _, ok := rm[k]; !ok {
					t.Remove(mkK(k))
				}
			}
			for k, e := range rm {
				t.InsertOrUpdate(mkK(k), e.v)
			}
			rt = t.Table()
		}
		for i, x := range []tm{lm, rm} {
			all := diffModel(x, [2]tm{rm, lm}[i], eq)
			coverEvs(c, all)
			a, b := [2]T{lt, rt}[i], [2]T{rt, lt}[i]
			for _, m := range []int{7, 15, c.N(16)} {
				checkDiff(c, "twins, "+how, a, b, x, [2]tm{rm, lm}[i], all, m, 0)
			}
			checkDiff(c, "twins, "+how, a, b, x, [2]tm{rm, lm}[i], all, 7, 1)
		}
		c.Cover(Fam + " twins")
		if n > 64 {
			c.Cover(Fam + " twins of many entries")
		}
		c.Distinct(hashTM(hashTM(mon.NewHash().Str(Fam), lm), rm))
	}
	check("same", lm.Clone())
	// keys exchanged
	cs, how := exchange(c, used, cells)
	rm := lm.Clone()
	var free []int
	for i := 0; i < cells; i++ {
		if used[i] && !cs[i] {
			k := model.MkKey(W, at(i), W-sh)
			free = append(free, rm[k].v)
			delete(rm, k)
		}
	}
	for i := 0; i < cells; i++ {
		if cs[i] && !used[i] {
			v := 0
			if len(free) > 0 {
				v, free = free[0], free[1:]
			}
			rm[model.MkKey(W, at(i), W-sh)] = ent{v: v}
		}
	}
	check("keys "+how, rm)
	// values exchanged
	ks := lm.Keys()
	rm = lm.Clone()
	for tries := 0; tries < 20; tries++ {
		i, j := c.N(len(ks)), c.N(len(ks))
		if rm[ks[i]].v != rm[ks[j]].v {
			rm[ks[i]], rm[ks[j]] = rm[ks[j]], rm[ks[i]]
			break
		}
	}
	check("values exchanged", rm)
	// lengths exchanged
	rm = lm.Clone()
	i := c.N(len(ks))
	if k := ks[i]; k.Len > 0 {
		delete(rm, k)
		k.Len--
		k = model.MkKey(W, k.Addr, k.Len)
		if _, ok := rm[k]; !ok {
			rm[k] = lm[ks[i]]
		}
		check("length changed", rm)
	}
	c.Sample(func() string { return fmt.Sprintf("%d cells of /%d: %s", n, W-sh, how) })
}
