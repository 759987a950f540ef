package fam4

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

type (
	U  = u128.U
	A  = ip.Address
	M  = ip.Mask
	P  = ip.Prefix
	R  = ip.Range
	S  = ip.Set
	S_ = ip.Set_
	PI = ip.PrefixI
	SI = ip.SetI
	C  = mon.C
	K  = model.Key
	MS = model.Set
	Iv = model.Iv
)

var maxU = u128.Ones(W)

func reg(prop, name string, quick, thorough int, run func(c *C)) *mon.Workload {
	return mon.Register(prop, Fam+"/"+name, quick, thorough, run)
}

func mkM(l int) M {
	m, err := ip.MaskFromLength(l)
	if err != nil {
		panic(fmt.Sprintf("MaskFromLength(%d): %v", l, err))
	}
	return m
}

// mkP makes a prefix with its host bits kept.
func mkP(u U, l int) P       { return ip.PrefixFromAddressMask(mkA(u), mkM(l)) }
func mkK(k K) P              { return mkP(k.Addr, k.Len) }
func unP(p P) (U, int)       { return unA(p.Address()), p.Length() }
func keyOf(p P) K            { a, l := unP(p); return model.MkKey(W, a, l) }
func mkR(lo, hi U) R         { r, _ := ip.RangeFromAddresses(mkA(lo), mkA(hi)); return r }
func unR(r R) Iv             { return Iv{Lo: unA(r.First()), Hi: unA(r.Last())} }
func mask(l int) U           { return model.Mask(W, l) }
func mkKey(u U, l int) K     { return model.MkKey(W, u, l) }
func pstr(u U, l int) string { return fmt.Sprintf("%s/%d", stringAddr(u), l) }

// walk returns the prefixes a set reports, verbatim.
func walk(c *C, s S, limit int) (ps []pfx) {
	fin := s.WalkPrefixes(func(p P) bool {
		a, l := unP(p)
		ps = append(ps, pfx{a, l})
		if limit > 0 && len(ps) > limit {
			c.Failf("WalkPrefixes reports more than %d prefixes", limit)
		}
		return true
	})
	if !fin {
		c.Failf("WalkPrefixes returned false although the callback never did")
	}
	return
}

// pfx is a prefix as reported, host bits included.
type pfx struct {
	A U
	L int
}

func (p pfx) String() string { return pstr(p.A, p.L) }

// content decodes a set into the reference form: the union of the prefixes it
// reports.
func content(c *C, s S) MS {
	ps := walk(c, s, 0)
	ivs := make([]Iv, len(ps))
	for i, p := range ps {
		ivs[i] = model.MkKey(W, p.A, p.L).Iv(W)
	}
	return model.Normalize(ivs)
}

func showSet(m MS) string {
	var b strings.Builder
	b.WriteString("{")
	for i, v := range m {
		if i > 0 {
			b.WriteString(" ")
		}
		if i == 10 {
			fmt.Fprintf(&b, "... %d more", len(m)-i)
			break
		}
		if v.Lo == v.Hi {
			b.WriteString(stringAddr(v.Lo))
		} else {
			fmt.Fprintf(&b, "%s-%s", stringAddr(v.Lo), stringAddr(v.Hi))
		}
	}
	return b.String() + "}"
}

func showKeys(ks []K) string {
	var ss []string
	for i, k := range ks {
		if i == 24 {
			ss = append(ss, fmt.Sprintf("... %d more", len(ks)-i))
			break
		}
		ss = append(ss, pstr(k.Addr, k.Len))
	}
	return "[" + strings.Join(ss, " ") + "]"
}

func hashSet(h mon.Hash, m MS) mon.Hash {
	for _, v := range m {
		h = h.U(v.Lo.Hi).U(v.Lo.Lo).U(v.Hi.Hi).U(v.Hi.Lo)
	}
	return h.I(len(m))
}

func hashKey(h mon.Hash, k K) mon.Hash { return h.U(k.Addr.Hi).U(k.Addr.Lo).I(k.Len) }
func hashU(h mon.Hash, u U) mon.Hash   { return h.U(u.Hi).U(u.Lo) }

// wrapSet is a user-defined SetI.
type wrapSet struct{ s S }

func (w wrapSet) Set() S { return w.s }

// wrapPrefix is a user-defined PrefixI.
type wrapPrefix struct{ p P }

func (w wrapPrefix) Prefix() P { return w.p }

// operand draws a set argument of one of the kinds a user can pass, and what
// it denotes. Bigger ones come from pool.
func operand(c *C, g *gen.G, pool func() (S, MS)) (SI, MS, string) {
	switch n := c.N(10); {
	case n < 2:
		u := g.Addr()
		return mkA(u), model.One(u, u), "address " + stringAddr(u)
	case n < 5:
		u, l := g.Prefix()
		return mkP(u, l), model.OfKey(W, model.MkKey(W, u, l)), "prefix " + pstr(u, l)
	case n < 8 || pool == nil:
		lo, hi := g.Range()
		return mkR(lo, hi), model.One(lo, hi), "range " + stringAddr(lo) + "-" + stringAddr(hi)
	default:
		s, m := pool()
		switch c.N(3) {
		case 0:
			return s, m, "Set " + showSet(m)
		case 1:
			return s.Set_(), m, "Set_ " + showSet(m)
		}
		return wrapSet{s}, m, "SetI " + showSet(m)
	}
}

// build makes a set with exactly the content m in one of many ways.
func build(c *C, m MS) S {
	switch c.N(6) {
	case 0: // ranges in random order
		s := ip.NewSet_()
		for _, i := range c.Perm(len(m)) {
			s.Insert(mkR(m[i].Lo, m[i].Hi))
		}
		return s.Set()
	case 1: // prefixes in random order, with host bits
		ks := m.Cover(W)
		s := ip.NewSet_()
		for _, i := range c.Perm(len(ks)) {
			s.Insert(mkP(ks[i].Addr.Or(gen.Rand(c.Rng, W).And(mask(ks[i].Len).Not())).And(maxU), ks[i].Len))
		}
		return s.Set()
	case 2: // everything minus the complement
		s := mkR(U{}, maxU).Set().Set_()
		for _, v := range model.Complement(W, m) {
			s.Remove(mkR(v.Lo, v.Hi))
		}
		return s.Set()
	case 3: // union of fixed sets, balanced
		var ss []S
		for _, v := range m {
			ss = append(ss, mkR(v.Lo, v.Hi).Set())
		}
		for len(ss) > 1 {
			i := c.N(len(ss) - 1)
			ss[i] = ss[i].Union(ss[i+1])
			ss = append(ss[:i+1], ss[i+2:]...)
		}
		if len(ss) == 0 {
			return S{}
		}
		return ss[0]
	case 4: // ranges cut into halves, overlapping, with Build
		return S{}.Build(func(s S_) bool {
			for _, i := range c.Perm(len(m)) {
				v := m[i]
				mid := v.Lo.Add(v.Hi.Sub(v.Lo).Shr(1))
				s.Insert(mkR(mid, v.Hi))
				s.Insert(mkR(v.Lo, mid))
			}
			return true
		})
	default: // grow too big, then cut down by intersection
		hull := S{}
		for _, v := range m {
			k := K{Addr: v.Lo, Len: W}
			for k.Len > 0 && k.Last(W).Less(v.Hi) {
				k = model.MkKey(W, v.Lo, k.Len-1)
			}
			hull = hull.Union(mkK(k))
		}
		want := S{}
		for _, v := range m {
			want = want.Union(mkR(v.Lo, v.Hi))
		}
		return hull.Intersection(want)
	}
}

// randSet draws a reference set with at most n pieces.
func randSet(g *gen.G, n int) MS {
	if g.R.P(1, 16) {
		return ladderSet(g)
	}
	var ivs []Iv
	for i := g.R.N(n + 1); i > 0; i-- {
		if g.R.P(1, 2) {
			ivs = append(ivs, g.Key().Iv(W))
		} else {
			lo, hi := g.Range()
			ivs = append(ivs, Iv{Lo: lo, Hi: hi})
		}
	}
	return model.Normalize(ivs)
}
