package fam4

import (
	"fmt"
	"net"
	"unsafe"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mem"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C08"] = "cases: the same value produced by every constructor, derivation and callback of the package, compared with == and as map keys, against neighbours one bit away; values used in every operation and compared with a byte copy afterwards; sizes; heap objects created by basic operations. Oracle: value identity by (address, length). Non-trivial: distinct values."
	reg("C08", "equal", 1500, 40000, c08Equal)
	reg("C08", "use", 800, 20000, c08Use)
	reg("C08", "alloc", 6, 40, c08Alloc).Serial = true
	mon.Need["C08"] = append(mon.Need["C08"], Fam+" addresses", Fam+" prefixes", Fam+" ranges", Fam+" alloc-free operations", Fam+" operations on values")
}

// Compile-time size checks would stop the build; these are observed instead.
func checkSizes(c *C) {
	c.Eval(2)
	if n := unsafe.Sizeof(A{}); n != bytesN {
		c.Failf("an Address takes %d bytes", n)
	}
	if n := unsafe.Sizeof(M{}); n != bytesN {
		c.Failf("a Mask takes %d bytes", n)
	}
}

// bytesOfAny is the memory of a value.
func rawBytes(p unsafe.Pointer, n uintptr) string {
	return string(unsafe.Slice((*byte)(p), n))
}

// addrWays makes the same address in every way known.
func addrWays(c *C, u U) (out []A, names []string) {
	add := func(n string, a A, err error) {
		if err != nil {
			c.Failf("%s of %s: %v", n, stringAddr(u), err)
		}
		out, names = append(out, a), append(names, n)
	}
	add("integer", mkA(u), nil)
	add("parts", addrParts(u), nil)
	a, err := ip.AddressFromSlice(bytesOf(u))
	add("slice", a, err)
	a, err = ip.AddressFromNetIP(stdIP(u))
	add("net.IP", a, err)
	a, err = ip.AddressFromString(stringAddr(u))
	add("string", a, err)
	if W == 32 {
		a, err = ip.AddressFromNetIP(net.ParseIP(stringAddr(u)))
		add("16-byte net.IP", a, err)
	}
	l := c.N(W + 1)
	add("prefix", mkP(u, l).Address(), nil)
	add("host prefix", mkA(u).Prefix().Network().Address(), nil)
	add("range first", mkR(u, maxU).First(), nil)
	add("range last", mkR(U{}, u).Last(), nil)
	k := model.MkKey(W, u, l)
	if k.Addr == u {
		add("network", mkP(u.Or(gen.Rand(c.Rng, W).And(mask(l).Not())), l).Network().Address(), nil)
		add("range of prefix", mkP(k.Last(W), l).Range().First(), nil)
	}
	if k.Last(W) == u {
		add("range of prefix", mkK(k).Range().Last(), nil)
	}
	mkA(u).Set().WalkPrefixes(func(p P) bool { add("walk", p.Address(), nil); return true })
	walkAddresses(mkA(u).Set(), func(a A) bool { add("walk addresses", a, nil); return true })
	p, err := ip.PrefixFromString(pstr(u, l))
	add("prefix string", p.Address(), err)
	return
}

func prefixWays(c *C, u U, l int) (out []P, names []string) {
	add := func(n string, p P, err error) {
		if err != nil {
			c.Failf("%s of %s: %v", n, pstr(u, l), err)
		}
		out, names = append(out, p), append(names, n)
	}
	add("address+mask", mkP(u, l), nil)
	p, err := ip.PrefixFromString(pstr(u, l))
	add("string", p, err)
	p, err = ip.PrefixFromNetIPNet(&net.IPNet{IP: stdIP(u), Mask: net.CIDRMask(l, W)})
	add("net.IPNet", p, err)
	add("Prefix()", mkP(u, l).Prefix(), nil)
	m, err := maskParts(mask(l))
	add("mask from parts", ip.PrefixFromAddressMask(addrParts(u), m), err)
	m, err = ip.MaskFromNetIPMask(net.CIDRMask(l, W))
	add("mask from net", ip.PrefixFromAddressMask(mkA(u), m), err)
	k := model.MkKey(W, u, l)
	noise := u.Or(gen.Rand(c.Rng, W)).And(mask(l).Not()).Or(k.Addr)
	if k.Addr == u {
		add("Network", mkP(noise, l).Network(), nil)
		mkP(noise, l).Set().WalkPrefixes(func(p P) bool { add("walk", p, nil); return true })
		if l > 0 {
			a, b := mkP(noise, l-1).Halves()
			if u.And(u128.Bit(W-l)) == (U{}) {
				add("first half", a, nil)
			} else {
				add("second half", b, nil)
			}
		}
		if f, err := mkP(noise, l).Set().FindAvailablePrefix(S{}, uint32(l)); err == nil {
			add("FindAvailablePrefix", f, nil)
		}
	}
	if k.Addr.IsZero() {
		add("Host", mkP(noise.Or(u).And(mask(l).Not()).Or(gen.Rand(c.Rng, W).And(mask(l))).And(mask(l).Or(u)).Or(u), l).Host(), nil)
	}
	if l == W {
		add("address", mkA(u).Prefix(), nil)
	}
	if b, ok := broadcast(mkK(k)); ok && k.Last(W) == u {
		add("Broadcast", b, nil)
	}
	return
}

func rangeWays(c *C, lo, hi U) (out []R, names []string) {
	add := func(n string, r R) { out, names = append(out, r), append(names, n) }
	add("addresses", mkR(lo, hi))
	mkR(lo, hi).Set().WalkRanges(func(r R) bool { add("walk", r); return true })
	mid := lo.Add(hi.Sub(lo).Shr(1))
	for _, r := range mkR(lo, mid).Plus(mkR(mid, hi)) {
		add("plus", r)
	}
	if hi != maxU {
		add("minus", mkR(lo, maxU).Minus(mkR(hi.Inc(), maxU))[0])
	}
	if !lo.IsZero() {
		add("minus", mkR(U{}, hi).Minus(mkR(U{}, lo.Dec()))[0])
	}
	for l := 0; l <= W; l++ {
		if k := model.MkKey(W, lo, l); k.Addr == lo && k.Last(W) == hi {
			add("prefix", mkK(k).Range())
			add("prefix with host bits", mkP(hi, l).Range())
		}
	}
	return
}

func c08Equal(c *C) {
	if c.Idx == 0 {
		checkSizes(c)
	}
	g := gen.New(c.Rng, W)
	u, l := g.Prefix()
	if c.Bool() {
		u = textU(c)
	}
	c.Distinct(hashU(mon.NewHash().Str(Fam), u).I(l))
	c.Sample(func() string { return pstr(u, l) })
	near := u.Xor(u128.Bit(c.N(W)))

	as, ns := addrWays(c, u)
	ma := map[A]string{}
	for i, a := range as {
		c.Eval(1)
		ma[a] = ns[i]
		if a != as[0] || rawBytes(unsafe.Pointer(&a), unsafe.Sizeof(a)) != rawBytes(unsafe.Pointer(&as[0]), unsafe.Sizeof(a)) && unsafe.Sizeof(a) == bytesN {
			c.Failf("address %s made by %s and by %s differ", stringAddr(u), ns[0], ns[i])
		}
		if a == mkA(near) {
			c.Failf("addresses %s and %s are ==", stringAddr(u), stringAddr(near))
		}
	}
	if len(ma) != 1 {
		c.Failf("address %s has %d map keys", stringAddr(u), len(ma))
	}
	c.CoverN(Fam+" addresses", len(as))

	ps, ns := prefixWays(c, u, l)
	mp := map[P]string{}
	for i, p := range ps {
		c.Eval(1)
		mp[p] = ns[i]
		if p != ps[0] {
			c.Failf("prefix %s made by %s and by %s differ: %v %v", pstr(u, l), ns[0], ns[i], ps[0], p)
		}
		if p == mkP(near, l) || l < W && p == mkP(u, l+1) || l > 0 && p == mkP(u, l-1) {
			c.Failf("prefix %s is == to a neighbour", pstr(u, l))
		}
	}
	if len(mp) != 1 {
		c.Failf("prefix %s has %d map keys", pstr(u, l), len(mp))
	}
	c.CoverN(Fam+" prefixes", len(ps))

	ms := map[M]bool{mkM(l): true, mkP(u, l).Mask(): true}
	if m, err := maskInt(mask(l)); err == nil {
		ms[m] = true
	}
	if m, err := maskParts(mask(l)); err == nil {
		ms[m] = true
	}
	if m, err := ip.MaskFromNetIPMask(net.CIDRMask(l, W)); err == nil {
		ms[m] = true
	}
	if len(ms) != 1 {
		c.Failf("mask of length %d has %d map keys", l, len(ms))
	}
	if l < W && mkM(l) == mkM(l+1) {
		c.Failf("masks of length %d and %d are ==", l, l+1)
	}

	lo, hi := g.Range()
	if c.Bool() {
		k := model.MkKey(W, u, l)
		lo, hi = k.Addr, k.Last(W)
	}
	rs, ns := rangeWays(c, lo, hi)
	mr := map[R]string{}
	for i, r := range rs {
		c.Eval(1)
		mr[r] = ns[i]
		if r != rs[0] {
			c.Failf("range %s-%s made by %s and by %s differ: %v", stringAddr(lo), stringAddr(hi), ns[0], ns[i], r)
		}
	}
	if len(mr) != 1 {
		c.Failf("range %s-%s has %d map keys", stringAddr(lo), stringAddr(hi), len(mr))
	}
	if lo.Less(hi) && (mkR(lo, hi) == mkR(lo, hi.Dec()) || mkR(lo, hi) == mkR(lo.Inc(), hi)) {
		c.Failf("range %s-%s is == to a neighbour", stringAddr(lo), stringAddr(hi))
	}
	c.CoverN(Fam+" ranges", len(rs))
}

// c08Use uses values in everything and looks at them again.
func c08Use(c *C) {
	g := gen.New(c.Rng, W)
	u, l := g.Prefix()
	lo, hi := g.Range()
	a, m, p, r := mkA(u), mkM(l), mkP(u, l), mkR(lo, hi)
	a0 := rawBytes(unsafe.Pointer(&a), unsafe.Sizeof(a))
	m0 := rawBytes(unsafe.Pointer(&m), unsafe.Sizeof(m))
	p0 := rawBytes(unsafe.Pointer(&p), unsafe.Sizeof(p))
	r0 := rawBytes(unsafe.Pointer(&r), unsafe.Sizeof(r))
	other, _, _ := operand(c, g, nil)
	ks := map[P]int{p: 1}
	t := ip.NewTable_[int]()
	s := ip.NewSet_()
	uses := []func(){
		func() { _ = a.ToNetIP() }, func() { _ = a.String() }, func() { a.Prefix().Host() }, func() { a.Set() },
		func() { _ = m.String() }, func() { _ = m.ToNetIPMask() }, func() { m.Length() },
		func() { p.Network() }, func() { p.Host() }, func() { p.Mask() }, func() { p.Range() }, func() { _ = p.String() },
		func() { _ = p.ToNetIPNet() }, func() { broadcast(p) }, func() { p.Contains(other) }, func() { p.Contains(p) }, func() { p.Set() },
		func() { p.NumPrefixes(uint32(W)) }, func() { prefixNumAddresses(p) },
		func() {
			if l < W {
				p.Halves()
			}
		},
		func() { r.Set() }, func() { r.Minus(mkR(lo, lo)) }, func() { r.Plus(mkR(hi, hi)) }, func() { r.Contains(other) }, func() { _ = r.String() },
		func() { rangeNumAddresses(r) }, func() { r.NumPrefixes(uint32(l)) },
		func() { s.Insert(p) }, func() { s.Insert(r) }, func() { s.Remove(a) }, func() { s.Remove(p) }, func() { s.Insert(a) }, func() { s.Remove(r) },
		func() { t.Insert(p, 1) }, func() { t.Insert(a, 2) }, func() { t.InsertOrUpdate(p, 3) }, func() { t.Update(p, 4) }, func() { t.GetOrInsert(p, 5) },
		func() { t.Get(p) }, func() { t.LongestMatch(p) }, func() { t.Table().Aggregate() }, func() { t.Remove(p) }, func() { t.Remove(a) },
		func() { ip.PrefixFromAddressMask(a, m) }, func() { ip.RangeFromAddresses(a, a) },
		func() { s.Set().FindAvailablePrefix(p, uint32(l)) },
	}
	for n := 0; n < 2*len(uses); n++ {
		i := c.N(len(uses))
		uses[i]()
		c.Eval(1)
		c.Cover(Fam + " operations on values")
		if rawBytes(unsafe.Pointer(&a), unsafe.Sizeof(a)) != a0 || rawBytes(unsafe.Pointer(&m), unsafe.Sizeof(m)) != m0 ||
			rawBytes(unsafe.Pointer(&p), unsafe.Sizeof(p)) != p0 || rawBytes(unsafe.Pointer(&r), unsafe.Sizeof(r)) != r0 {
			c.Failf("operation %d changed a value: %v %v %v %v", i, a, m, p, r)
		}
		if ks[p] != 1 || unA(a) != u || unM(m) != mask(l) || unR(r) != (Iv{Lo: lo, Hi: hi}) {
			c.Failf("operation %d changed a value: %v %v %v %v", i, a, m, p, r)
		}
	}
	c.Distinct(hashU(mon.NewHash().Str(Fam+"use"), u).I(l))
}

var (
	sinkA A
	sinkM M
	sinkP P
	sinkR R
	sinkB bool
	sinkU U
	sinkI int
)

// c08Alloc counts heap objects created by basic operations.
func c08Alloc(c *C) {
	g := gen.New(c.Rng, W)
	u, l := g.Prefix()
	if l == W {
		l--
	}
	lo, hi := g.Range()
	a, m, p, r := mkA(u), mkM(l), mkP(u, l), mkR(lo, hi)
	b := bytesOf(u)
	nip, nm := stdIP(u), net.CIDRMask(l, W)
	ops := []struct {
		name string
		f    func()
	}{
		{"address from integer", func() { sinkA = mkA(u) }},
		{"AddressFromSlice", func() { sinkA, _ = ip.AddressFromSlice(b) }},
		{"AddressFromNetIP", func() { sinkA, _ = ip.AddressFromNetIP(nip) }},
		{"address to integer", func() { sinkU = unA(a) }},
		{"MaskFromLength", func() { sinkM, _ = ip.MaskFromLength(l) }},
		{"mask from integer", func() { sinkM, _ = maskInt(mask(l)) }},
		{"MaskFromNetIPMask", func() { sinkM, _ = ip.MaskFromNetIPMask(nm) }},
		{"Mask.Length", func() { sinkI = m.Length() }},
		{"mask to integer", func() { sinkU = unM(m) }},
		{"PrefixFromAddressMask", func() { sinkP = ip.PrefixFromAddressMask(a, m) }},
		{"Address.Prefix", func() { sinkP = a.Prefix() }},
		{"Prefix.Address", func() { sinkA = p.Address() }},
		{"Prefix.Mask", func() { sinkM = p.Mask() }},
		{"Prefix.Length", func() { sinkI = p.Length() }},
		{"Prefix.Network", func() { sinkP = p.Network() }},
		{"Prefix.Host", func() { sinkP = p.Host() }},
		{"Prefix.Prefix", func() { sinkP = p.Prefix() }},
		{"Prefix.Broadcast", func() { sinkP, _ = broadcast(p) }},
		{"Prefix.Halves", func() { sinkP, _ = p.Halves() }},
		{"Prefix.Range", func() { sinkR = p.Range() }},
		{"prefix to integers", func() { sinkU, _ = prefixInts(p) }},
		{"Prefix.NumPrefixes", func() { p.NumPrefixes(uint32(l)) }},
		{"RangeFromAddresses", func() { sinkR, sinkB = ip.RangeFromAddresses(a, a) }},
		{"Range.First", func() { sinkA = r.First() }},
		{"Range.Last", func() { sinkA = r.Last() }},
		{"compare", func() { sinkB = a == sinkA && p == sinkP && m == sinkM && r == sinkR }},
		{"copy", func() { sinkA, sinkM, sinkP, sinkR = a, m, p, r }},
	}
	for _, op := range ops {
		c.Eval(1)
		c.Cover(Fam + " alloc-free operations")
		f := op.f
		if n := mem.Mallocs(3, func() {
			for i := 0; i < 50; i++ {
				f()
			}
		}); n >= 50 {
			c.Failf("%s allocates: %d heap objects in 50 calls", op.name, n)
		}
	}
	c.Distinct(hashU(mon.NewHash().Str(Fam+"alloc"), u).I(l))
	c.Sample(func() string { return fmt.Sprintf("%d operations on %s", len(ops), pstr(u, l)) })
}
