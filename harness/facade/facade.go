// Package facade checks the family-independent ip package against the family
// packages.
package facade

import (
	"fmt"
	"net"
	"net/netip"
	"reflect"

	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/u128"
)

type C = mon.C
type U = u128.U

func init() {
	mon.Rules["C09"] = "cases: hostile values of both families through every ip.* function, compared (==, concrete type) with the family package's answer; every mixture of families, nils, typed nils and foreign implementations. Oracle: the family packages. Non-trivial: distinct (function, input)."
	mon.Register("C09", "values", 5000, 200000, values)
	mon.Register("C09", "foreign", 300, 3000, foreign)
	mon.Register("C09", "strings", 6000, 200000, strs)
	mon.Need["C09"] = []string{"v4 values", "v6 values", "mixed", "foreign", "rejected", "accepted v4", "accepted v6"}
}

func addr4(u U) ipv4.Address { return ipv4.AddressFromUint32(uint32(u.Lo)) }
func addr6(u U) ipv6.Address { return ipv6.AddressFromUint64(u.Hi, u.Lo) }

func same(c *C, what string, got, want interface{}) {
	c.Eval(1)
	if reflect.TypeOf(got) != reflect.TypeOf(want) || got != want {
		c.Failf("%s: got %T %v, want %T %v", what, got, got, want, want)
	}
}

func noerr(c *C, what string, err error) {
	if err != nil {
		c.Failf("%s: unexpected error %v", what, err)
	}
}

func wanterr(c *C, what string, v interface{}, err error) {
	c.Eval(1)
	if err == nil {
		c.Failf("%s: got %T %v and no error", what, v, v)
	}
	c.Cover("rejected")
}

// isNil: the documented nil result.
func isNil(c *C, what string, v interface{}) {
	c.Eval(1)
	if v != nil {
		c.Failf("%s: got %T %v, want nil", what, v, v)
	}
}

func mapped(u U) bool { return u.Hi == 0 && u.Lo>>32 == 0xffff }

func values(c *C) {
	g4, g6 := gen.New(c.Rng, 32), gen.New(c.Rng, 128)
	for i := 0; i < 5; i++ {
		u4, l4 := g4.Prefix()
		u6, l6 := g6.Prefix()
		switch c.N(8) {
		case 0:
			u6 = U{Lo: 0xffff<<32 | u4.Lo} // IPv4-mapped
		case 1:
			u6 = U{Lo: u4.Lo}
		}
		if l6 <= 32 && c.Bool() {
			l6 = l4
		}
		a4, a6 := addr4(u4), addr6(u6)
		m4, err := ipv4.MaskFromLength(l4)
		noerr(c, "mask", err)
		m6, err := ipv6.MaskFromLength(l6)
		noerr(c, "mask", err)
		p4, p6 := ipv4.PrefixFromAddressMask(a4, m4), ipv6.PrefixFromAddressMask(a6, m6)
		what := fmt.Sprintf("%v %v", p4, p6)
		c.Distinct(mon.NewHash().Str(what))
		c.Cover("v4 values")
		c.Cover("v6 values")
		c.Sample(func() string { return what })

		// addresses
		x, err := ip.AddressFromString(a4.String())
		noerr(c, a4.String(), err)
		same(c, "AddressFromString "+a4.String(), x, a4)
		x, err = ip.AddressFromString(a6.String())
		noerr(c, a6.String(), err)
		same(c, "AddressFromString "+a6.String(), x, a6)
		x, err = ip.AddressFromNetIP(a4.ToNetIP())
		noerr(c, what, err)
		same(c, "AddressFromNetIP", x, a4)
		x, err = ip.AddressFromNetIP(a6.ToNetIP())
		noerr(c, what, err)
		same(c, "AddressFromNetIP", x, a6)
		same(c, "PrefixFromAddress", ip.PrefixFromAddress(a4), a4.Prefix())
		same(c, "PrefixFromAddress", ip.PrefixFromAddress(a6), a6.Prefix())

		// prefixes
		p, err := ip.PrefixFromAddressMask(a4, m4)
		noerr(c, what, err)
		same(c, "PrefixFromAddressMask", p, p4)
		p, err = ip.PrefixFromAddressMask(a6, m6)
		noerr(c, what, err)
		same(c, "PrefixFromAddressMask", p, p6)
		p, err = ip.PrefixFromAddressMask(a4, m6)
		wanterr(c, "PrefixFromAddressMask(v4, v6)", p, err)
		p, err = ip.PrefixFromAddressMask(a6, m4)
		wanterr(c, "PrefixFromAddressMask(v6, v4)", p, err)
		c.Cover("mixed")
		p, err = ip.PrefixFromString(p4.String())
		noerr(c, what, err)
		same(c, "PrefixFromString "+p4.String(), p, p4)
		p, err = ip.PrefixFromString(p6.String())
		noerr(c, what, err)
		same(c, "PrefixFromString "+p6.String(), p, p6)
		p, err = ip.PrefixFromNetIPNet(p4.ToNetIPNet())
		noerr(c, what, err)
		same(c, "PrefixFromNetIPNet", p, p4)
		p, err = ip.PrefixFromNetIPNet(p6.ToNetIPNet())
		noerr(c, what, err)
		same(c, "PrefixFromNetIPNet", p, p6)
		p, err = ip.PrefixFromNetIPNet(&net.IPNet{IP: a4.ToNetIP(), Mask: m6.ToNetIPMask()})
		wanterr(c, "PrefixFromNetIPNet(v4 address, v6 mask)", p, err)
		if !mapped(u6) {
			p, err = ip.PrefixFromNetIPNet(&net.IPNet{IP: a6.ToNetIP(), Mask: m4.ToNetIPMask()})
			wanterr(c, "PrefixFromNetIPNet(v6 address, v4 mask)", p, err)
		}
		same(c, "AddressFromPrefix", ip.AddressFromPrefix(p4), p4.Address())
		same(c, "AddressFromPrefix", ip.AddressFromPrefix(p6), p6.Address())
		same(c, "MaskFromPrefix", ip.MaskFromPrefix(p4), p4.Mask())
		same(c, "MaskFromPrefix", ip.MaskFromPrefix(p6), p6.Mask())
		same(c, "RangeFromPrefix", ip.RangeFromPrefix(p4), p4.Range())
		same(c, "RangeFromPrefix", ip.RangeFromPrefix(p6), p6.Range())

		// masks
		m, err := ip.MaskFromNetIPMask(m4.ToNetIPMask())
		noerr(c, what, err)
		same(c, "MaskFromNetIPMask", m, m4)
		m, err = ip.MaskFromNetIPMask(m6.ToNetIPMask())
		noerr(c, what, err)
		same(c, "MaskFromNetIPMask", m, m6)
		hole := m6.ToNetIPMask()
		hole[c.N(16)] ^= 1 << uint(c.N(8))
		want6, err6 := ipv6.MaskFromNetIPMask(hole)
		m, err = ip.MaskFromNetIPMask(hole)
		if (err == nil) != (err6 == nil) {
			c.Failf("MaskFromNetIPMask(%v): %v, ipv6 says %v", hole, err, err6)
		}
		if err == nil {
			same(c, "MaskFromNetIPMask", m, want6)
		}
		hole = m4.ToNetIPMask()
		hole[c.N(4)] ^= 1 << uint(c.N(8))
		want4, err4 := ipv4.MaskFromNetIPMask(hole)
		m, err = ip.MaskFromNetIPMask(hole)
		if (err == nil) != (err4 == nil) {
			c.Failf("MaskFromNetIPMask(%v): %v, ipv4 says %v", hole, err, err4)
		}
		if err == nil {
			same(c, "MaskFromNetIPMask", m, want4)
		}

		// ranges
		b4, b6 := addr4(g4.Addr()), addr6(g6.Addr())
		if c.P(1, 3) {
			b4, b6 = a4, a6
		}
		for _, sw := range []bool{false, true} {
			f4, t4, f6, t6 := a4, b4, a6, b6
			if sw {
				f4, t4, f6, t6 = b4, a4, b6, a6
			}
			r, empty, err := ip.RangeFromAddresses(f4, t4)
			noerr(c, what, err)
			w4, e4 := ipv4.RangeFromAddresses(f4, t4)
			if empty != e4 {
				c.Failf("RangeFromAddresses(%v,%v): empty %v", f4, t4, empty)
			}
			if !empty {
				same(c, "RangeFromAddresses", r, w4)
				same(c, "FirstFromRange", ip.FirstFromRange(r), w4.First())
				same(c, "LastFromRange", ip.LastFromRange(r), w4.Last())
			}
			r, empty, err = ip.RangeFromAddresses(f6, t6)
			noerr(c, what, err)
			w6, e6 := ipv6.RangeFromAddresses(f6, t6)
			if empty != e6 {
				c.Failf("RangeFromAddresses(%v,%v): empty %v", f6, t6, empty)
			}
			if !empty {
				same(c, "RangeFromAddresses", r, w6)
				same(c, "FirstFromRange", ip.FirstFromRange(r), w6.First())
				same(c, "LastFromRange", ip.LastFromRange(r), w6.Last())
			}
			r, _, err = ip.RangeFromAddresses(f4, t6)
			wanterr(c, "RangeFromAddresses(v4, v6)", r, err)
			r, _, err = ip.RangeFromAddresses(f6, t4)
			wanterr(c, "RangeFromAddresses(v6, v4)", r, err)
		}
	}
}

// foreign implementations of the interfaces

type fa struct{ ipv4.Address }
type fm struct{ ipv6.Mask }
type fp struct{ ipv4.Prefix }
type fr struct{ ipv6.Range }
type fa2 [4]byte

func (fa2) String() string  { return "10.0.0.1" }
func (fa2) ToNetIP() net.IP { return net.IP{10, 0, 0, 1} }
func (fa2) NumBits() int    { return 32 }

func foreign(c *C) {
	g4, g6 := gen.New(c.Rng, 32), gen.New(c.Rng, 128)
	a4, a6 := addr4(g4.Addr()), addr6(g6.Addr())
	m4, _ := ipv4.MaskFromLength(c.N(33))
	m6, _ := ipv6.MaskFromLength(c.N(129))
	p4, p6 := ipv4.PrefixFromAddressMask(a4, m4), ipv6.PrefixFromAddressMask(a6, m6)
	// pointers to the values satisfy the interfaces as well, and may be nil
	badA := []ip.Address{nil, fa{a4}, &fa{a4}, fa2{}, &a4, &a6, (*ipv4.Address)(nil), (*ipv6.Address)(nil)}
	badM := []ip.Mask{nil, fm{m6}, &m4, &m6, (*ipv4.Mask)(nil)}
	badP := []ip.Prefix{nil, fp{p4}, &p4, &p6, (*ipv6.Prefix)(nil)}
	badR := []ip.Range{nil, fr{p6.Range()}, a4, a6, p4, p6, m4, (*ipv4.Range)(nil)}
	goodA := []ip.Address{a4, a6}
	goodM := []ip.Mask{m4, m6}
	for _, a := range badA {
		c.Cover("foreign")
		isNil(c, fmt.Sprintf("PrefixFromAddress(%T)", a), ip.PrefixFromAddress(a))
		for _, m := range append(append([]ip.Mask(nil), goodM...), badM...) {
			p, err := ip.PrefixFromAddressMask(a, m)
			wanterr(c, fmt.Sprintf("PrefixFromAddressMask(%T, %T)", a, m), p, err)
		}
		for _, b := range append(append([]ip.Address(nil), goodA...), badA...) {
			r, _, err := ip.RangeFromAddresses(a, b)
			wanterr(c, fmt.Sprintf("RangeFromAddresses(%T, %T)", a, b), r, err)
			r, _, err = ip.RangeFromAddresses(b, a)
			wanterr(c, fmt.Sprintf("RangeFromAddresses(%T, %T)", b, a), r, err)
		}
	}
	for _, m := range badM {
		for _, a := range goodA {
			p, err := ip.PrefixFromAddressMask(a, m)
			wanterr(c, fmt.Sprintf("PrefixFromAddressMask(%T, %T)", a, m), p, err)
		}
	}
	for _, p := range badP {
		isNil(c, fmt.Sprintf("AddressFromPrefix(%T)", p), ip.AddressFromPrefix(p))
		isNil(c, fmt.Sprintf("MaskFromPrefix(%T)", p), ip.MaskFromPrefix(p))
		isNil(c, fmt.Sprintf("RangeFromPrefix(%T)", p), ip.RangeFromPrefix(p))
	}
	for _, r := range badR {
		isNil(c, fmt.Sprintf("FirstFromRange(%T)", r), ip.FirstFromRange(r))
		isNil(c, fmt.Sprintf("LastFromRange(%T)", r), ip.LastFromRange(r))
	}
	a, err := ip.AddressFromNetIP(nil)
	wanterr(c, "AddressFromNetIP(nil)", a, err)
	m, err := ip.MaskFromNetIPMask(nil)
	wanterr(c, "MaskFromNetIPMask(nil)", m, err)
	p, err := ip.PrefixFromNetIPNet(nil)
	wanterr(c, "PrefixFromNetIPNet(nil)", p, err)
	for n := 0; n <= 34; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.U64())
		}
		ones := make(net.IPMask, n)
		for i := range ones {
			ones[i] = 0xff
		}
		if n != 4 && n != 16 {
			a, err := ip.AddressFromNetIP(b)
			wanterr(c, fmt.Sprintf("AddressFromNetIP of %d bytes", n), a, err)
			m, err := ip.MaskFromNetIPMask(ones)
			wanterr(c, fmt.Sprintf("MaskFromNetIPMask of %d bytes", n), m, err)
		}
		for k := 0; k <= 20; k += 4 {
			if n != 4 && n != 16 || k != n && !(n == 16 && k == 4) {
				p, err := ip.PrefixFromNetIPNet(&net.IPNet{IP: b, Mask: ones[:0:0]})
				wanterr(c, "PrefixFromNetIPNet without mask", p, err)
				if k <= n {
					p, err = ip.PrefixFromNetIPNet(&net.IPNet{IP: b, Mask: ones[:k]})
					wanterr(c, fmt.Sprintf("PrefixFromNetIPNet of %d bytes and a mask of %d", n, k), p, err)
				}
			}
		}
	}
	c.Distinct(mon.NewHash().Str(p4.String()).Str(p6.String()))
}

const alphabet = "0123456789abcdef.:/%g "

func strs(c *C) {
	for i := 0; i < 20; i++ {
		var s string
		u := gen.Rand(c.Rng, 128)
		switch c.N(4) {
		case 0:
			s = addr4(u).String()
		case 1:
			s = addr6(u).String()
		case 2:
			s = "::ffff:" + addr4(u).String()
		case 3:
			s = addr6(u.And(gen.Rand(c.Rng, 128)).And(U{Hi: 0xffff0000ffff0000, Lo: 0xffff00000000ffff})).String()
		}
		if c.P(2, 3) {
			s = fmt.Sprintf("%s/%d", s, c.N(40))
		}
		b := []byte(s)
		for n := c.N(3); n > 0 && len(b) > 0; n-- {
			j := c.N(len(b))
			switch c.N(3) {
			case 0:
				b[j] = alphabet[c.N(len(alphabet))]
			case 1:
				b = append(b[:j:j], b[j+1:]...)
			case 2:
				b = append(b[:j:j], append([]byte{alphabet[c.N(len(alphabet))]}, b[j:]...)...)
			}
		}
		s = string(b)
		c.Distinct(mon.NewHash().Str(s))
		c.Eval(2)
		// the family of a text is what netip takes it for
		na, err := netip.ParseAddr(s)
		a, gotErr := ip.AddressFromString(s)
		switch {
		case err != nil || na.Zone() != "":
			if net.ParseIP(s) == nil {
				wanterr(c, fmt.Sprintf("AddressFromString(%q)", s), a, gotErr)
			}
		case na.Is4():
			c.Cover("accepted v4")
			want, err := ipv4.AddressFromString(s)
			if (err == nil) != (gotErr == nil) {
				c.Failf("AddressFromString(%q): %v, ipv4 says %v", s, gotErr, err)
			}
			if err == nil {
				same(c, s, a, want)
			}
		default:
			c.Cover("accepted v6")
			want, err := ipv6.AddressFromString(s)
			if (err == nil) != (gotErr == nil) {
				c.Failf("AddressFromString(%q): %v, ipv6 says %v", s, gotErr, err)
			}
			if err == nil {
				same(c, s, a, want)
			}
		}
		np, err := netip.ParsePrefix(s)
		_, _, err2 := net.ParseCIDR(s)
		p, gotErr := ip.PrefixFromString(s)
		switch {
		case err != nil:
			if err2 != nil {
				wanterr(c, fmt.Sprintf("PrefixFromString(%q)", s), p, gotErr)
			}
		case np.Addr().Is4():
			want, err := ipv4.PrefixFromString(s)
			if (err == nil) != (gotErr == nil) {
				c.Failf("PrefixFromString(%q): %v, ipv4 says %v", s, gotErr, err)
			}
			if err == nil {
				same(c, s, p, want)
			}
		default:
			want, err := ipv6.PrefixFromString(s)
			if (err == nil) != (gotErr == nil) {
				c.Failf("PrefixFromString(%q): %v, ipv6 says %v", s, gotErr, err)
			}
			if err == nil {
				same(c, s, p, want)
			}
		}
	}
}
