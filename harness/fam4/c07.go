package fam4

import (
	"bytes"
	"fmt"
	"math"
	"net"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C07"] = "cases: hostile and random values through every conversion and back, with the caller's and the returned memory scribbled over in between; byte slices of every size 0..40; masks with holes; integers far out of range. Oracle: big-endian byte arithmetic. Non-trivial: distinct inputs."
	reg("C07", "values", 2500, 60000, c07Values)
	reg("C07", "bad", 2500, 60000, c07Bad)
	reg("C07", "lengths", 1, 1, c07Lengths)
	mon.Need["C07"] = append(mon.Need["C07"], Fam+" values", Fam+" wrong size", Fam+" holes", Fam+" good masks")
}

func c07Values(c *C) {
	g := gen.New(c.Rng, W)
	for i := 0; i < 10; i++ {
		u := g.Addr()
		if c.Bool() {
			u = textU(c)
		}
		l := c.N(W + 1)
		a, p, m := mkA(u), mkP(u, l), mkM(l)
		want := bytesOf(u)
		what := pstr(u, l)
		c.Eval(12)
		c.Cover(Fam + " values")
		c.Distinct(hashU(mon.NewHash().Str(Fam), u).I(l))
		c.Sample(func() string { return what })
		bad := func(f string, got ...interface{}) { c.Failf("%s: %s: %v", what, f, got) }

		if unA(a) != u || addrParts(u) != a {
			bad("integers", unA(a), addrParts(u))
		}
		if am, mm := prefixInts(p); am != u || mm != mask(l) {
			bad("prefix integers", am, mm)
		}
		if unM(m) != mask(l) {
			bad("mask integer", unM(m))
		}
		// out
		n := a.ToNetIP()
		if len(n) != bytesN || !bytes.Equal(n, want) {
			bad("ToNetIP", n)
		}
		for j := range n {
			n[j] ^= 0xff
		}
		if n2 := a.ToNetIP(); !bytes.Equal(n2, want) || unA(a) != u {
			bad("ToNetIP after the caller changed an earlier result", n2)
		}
		im := m.ToNetIPMask()
		if !bytes.Equal(im, bytesOf(mask(l))) || len(im) != bytesN {
			bad("ToNetIPMask", im)
		}
		for j := range im {
			im[j] ^= 0xff
		}
		if im2 := m.ToNetIPMask(); !bytes.Equal(im2, bytesOf(mask(l))) {
			bad("ToNetIPMask after the caller changed an earlier result", im2)
		}
		in := p.ToNetIPNet()
		if in == nil || !bytes.Equal(in.IP, want) || !bytes.Equal(in.Mask, bytesOf(mask(l))) {
			bad("ToNetIPNet", in)
		}
		for j := range in.IP {
			in.IP[j] ^= 0xff
			in.Mask[j] ^= 0xff
		}
		if in2 := p.ToNetIPNet(); !bytes.Equal(in2.IP, want) || !bytes.Equal(in2.Mask, bytesOf(mask(l))) {
			bad("ToNetIPNet after the caller changed an earlier result", in2)
		}
		if unM(p.Mask()) != mask(l) || unM(mkM(l)) != mask(l) {
			bad("mask after the caller changed an earlier result", p.Mask())
		}
		// in
		b := append([]byte(nil), want...)
		x, err := ip.AddressFromSlice(b)
		y, err2 := ip.AddressFromNetIP(net.IP(b))
		mb := append([]byte(nil), bytesOf(mask(l))...)
		nm, err3 := ip.MaskFromNetIPMask(net.IPMask(mb))
		np, err4 := ip.PrefixFromNetIPNet(&net.IPNet{IP: b, Mask: mb})
		if !bytes.Equal(b, want) || !bytes.Equal(mb, bytesOf(mask(l))) {
			bad("a conversion changed the caller's bytes", b, mb)
		}
		for j := range b {
			b[j] ^= 0x5a
			mb[j] ^= 0xa5
		}
		if err != nil || x != a {
			bad("AddressFromSlice", x, err)
		}
		if err2 != nil || y != a {
			bad("AddressFromNetIP", y, err2)
		}
		if err3 != nil || nm != m || nm.Length() != l {
			bad("MaskFromNetIPMask", nm, err3)
		}
		if err4 != nil || np != p {
			bad("PrefixFromNetIPNet", np, err4)
		}
		if q, err := maskParts(mask(l)); err != nil || q != m {
			bad("mask from parts", q, err)
		}
		if q, err := maskInt(mask(l)); err != nil || q != m {
			bad("mask from integer", q, err)
		}
		if q := ip.PrefixFromAddressMask(a, m); q != p || q.Address() != a || q.Mask() != m {
			bad("PrefixFromAddressMask", q)
		}
		// the 16-byte form the net package itself uses for IPv4
		if W == 32 {
			m16 := net.IPv4(want[0], want[1], want[2], want[3])
			if y, err := ip.AddressFromNetIP(m16); err != nil || y != a {
				bad("AddressFromNetIP of the 16-byte form", y, err)
			}
			if q, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: m16, Mask: net.CIDRMask(l, 32)}); err != nil || q != p {
				bad("PrefixFromNetIPNet of the 16-byte form", q, err)
			}
		}
	}
}

// contiguous says whether u is ones followed by zeros, and how many.
func contiguous(u U) (int, bool) {
	for l := 0; l <= W; l++ {
		if mask(l) == u {
			return l, true
		}
	}
	return 0, false
}

func checkMaskVal(c *C, u U) {
	l, ok := contiguous(u)
	c.Eval(3)
	c.Distinct(hashU(mon.NewHash().Str(Fam+"mask"), u))
	if ok {
		c.Cover(Fam + " good masks")
	} else {
		c.Cover(Fam + " holes")
	}
	see := func(name string, m M, err error) {
		if ok != (err == nil) {
			c.Failf("%s of %s: %v, %v", name, stringAddr(u), m, err)
		}
		if ok && (unM(m) != u || m.Length() != l) {
			c.Failf("%s of %s is %v, length %d", name, stringAddr(u), m, m.Length())
		}
	}
	m, err := maskInt(u)
	see("mask from integer", m, err)
	m, err = maskParts(u)
	see("mask from parts", m, err)
	m, err = ip.MaskFromNetIPMask(net.IPMask(bytesOf(u)))
	see("MaskFromNetIPMask", m, err)
	p, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: stdIP(u), Mask: net.IPMask(bytesOf(u))})
	if ok != (err == nil) {
		c.Failf("PrefixFromNetIPNet with mask %s: %v, %v", stringAddr(u), p, err)
	}
	if err == nil && (p.Length() != l || unM(p.Mask()) != u) {
		c.Failf("PrefixFromNetIPNet with mask %s: %v", stringAddr(u), p)
	}
}

func mappedV4(b []byte) bool {
	if len(b) != 16 {
		return false
	}
	for i := 0; i < 10; i++ {
		if b[i] != 0 {
			return false
		}
	}
	return b[10] == 0xff && b[11] == 0xff
}

func c07Bad(c *C) {
	// masks
	for i := 0; i < 10; i++ {
		var u U
		switch c.N(4) {
		case 0:
			u = mask(c.N(W + 1)).Xor(u128.Bit(c.N(W)))
		case 1:
			u = mask(c.N(W + 1)).Not().And(maxU)
		case 2:
			u = mask(c.N(W + 1)).Xor(mask(c.N(W + 1))).Xor(mask(c.N(W + 1)))
		case 3:
			u = gen.Rand(c.Rng, W)
		}
		checkMaskVal(c, u)
	}
	// sizes
	for n := 0; n <= 40; n++ {
		if n > 20 && n != 32 && n != 40 {
			continue
		}
		b := make([]byte, n)
		for i := range b {
			switch c.N(3) {
			case 0:
				b[i] = byte(c.U64())
			case 1:
				b[i] = 0xff
			}
		}
		if n == 16 && c.P(1, 3) {
			copy(b, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
		}
		c.Eval(4)
		c.Distinct(mon.NewHash().Str(Fam + string(b)))
		a, err := ip.AddressFromSlice(b)
		if (err == nil) != (n == bytesN) {
			c.Failf("AddressFromSlice(%v) is %v, %v", b, a, err)
		}
		a, err = ip.AddressFromNetIP(net.IP(b))
		if ok := n == bytesN || W == 32 && mappedV4(b); (err == nil) != ok {
			c.Failf("AddressFromNetIP(%v) is %v, %v", []byte(b), a, err)
		}
		if n != bytesN {
			c.Cover(Fam + " wrong size")
			ones := bytes.Repeat([]byte{0xff}, n)
			m, err := ip.MaskFromNetIPMask(net.IPMask(ones))
			if err == nil {
				c.Failf("MaskFromNetIPMask of %d bytes is %v", n, m)
			}
			p, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: stdIP(U{}), Mask: ones})
			if err == nil {
				c.Failf("PrefixFromNetIPNet with a mask of %d bytes is %v", n, p)
			}
			p, err = ip.PrefixFromNetIPNet(&net.IPNet{IP: b, Mask: net.CIDRMask(c.N(W+1), W)})
			if err == nil && !(W == 32 && mappedV4(b)) {
				c.Failf("PrefixFromNetIPNet with an address %v is %v", b, p)
			}
		}
	}
	if c.Idx == 0 {
		type res struct {
			what string
			err  error
		}
		_, e1 := ip.AddressFromSlice(nil)
		_, e2 := ip.AddressFromNetIP(nil)
		_, e3 := ip.MaskFromNetIPMask(nil)
		_, e4 := ip.PrefixFromNetIPNet(nil)
		_, e5 := ip.PrefixFromNetIPNet(&net.IPNet{})
		_, e6 := ip.PrefixFromNetIPNet(&net.IPNet{IP: stdIP(maxU)})
		_, e7 := ip.PrefixFromNetIPNet(&net.IPNet{Mask: net.CIDRMask(8, W)})
		for _, r := range []res{{"AddressFromSlice(nil)", e1}, {"AddressFromNetIP(nil)", e2}, {"MaskFromNetIPMask(nil)", e3}, {"PrefixFromNetIPNet(nil)", e4}, {"PrefixFromNetIPNet(empty)", e5}, {"PrefixFromNetIPNet(no mask)", e6}, {"PrefixFromNetIPNet(no address)", e7}} {
			if r.err == nil {
				c.Failf("%s gives no error", r.what)
			}
		}
	}
}

func c07Lengths(c *C) {
	try := func(n int) {
		m, err := ip.MaskFromLength(n)
		c.Eval(1)
		c.Distinct(mon.NewHash().Str(Fam + "len").I(n))
		if (err == nil) != (0 <= n && n <= W) {
			c.Failf("MaskFromLength(%d) is %v, %v", n, m, err)
		}
		if err == nil && (m.Length() != n || unM(m) != mask(n)) {
			c.Failf("MaskFromLength(%d) is %v", n, m)
		}
	}
	for n := -300; n < 1000; n++ {
		try(n)
	}
	for i := uint(8); i < 63; i++ {
		for d := -2; d <= W; d++ {
			try(1<<i + d)
			try(-(1 << i) + d)
		}
	}
	try(math.MaxInt)
	try(math.MinInt)
	try(math.MaxInt32)
	// every mask value of the form ones, hole, ones
	for i := 0; i <= W; i++ {
		for j := i; j <= W; j++ {
			checkMaskVal(c, mask(i).Xor(mask(j)))
			checkMaskVal(c, mask(i).Xor(mask(j)).Not().And(maxU))
		}
	}
	c.Sample(func() string { return fmt.Sprintf("MaskFromLength(-300..1000), masks with one run of ones") })
}
