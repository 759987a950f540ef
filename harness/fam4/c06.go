package fam4

import (
	"fmt"
	"net"
	"net/netip"
	"strings"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

func init() {
	mon.Rules["C06"] = "cases: printing and re-parsing hostile values (every length, zero runs of every shape, IPv4-mapped), valid spellings generated from values (leading zero groups, upper case, any compression, embedded IPv4), and mutated / random / cross-family strings. Oracle: netip and net for the printed form, the generating value for spellings; rejection is judged only where net and netip agree that a string is no address / prefix of the family. Non-trivial: distinct strings."
	reg("C06", "roundtrip", 3000, 60000, c06Round)
	reg("C06", "strings", 6000, 400000, c06Strings)
	mon.Need["C06"] = append(mon.Need["C06"], Fam+" addresses printed", Fam+" accepted", Fam+" rejected", Fam+" prefix accepted", Fam+" prefix rejected", Fam+" other family")
}

// textU draws an address whose text form is interesting.
func textU(c *C) U {
	if c.P(1, 4) {
		return gen.New(c.Rng, W).Addr()
	}
	step := 8
	if W == 128 {
		step = 16
	}
	var u U
	for i := 0; i < W/step; i++ {
		var g uint64
		switch c.N(5) {
		case 0, 1:
		case 2:
			g = uint64(c.N(16))
		case 3:
			g = 1<<uint(step) - 1
		case 4:
			g = c.U64() & (1<<uint(step) - 1)
		}
		u = u.Shl(step).Or(u128.From(g))
	}
	if W == 128 && c.P(1, 8) {
		u = U{Lo: 0xffff<<32 | u.Lo&0xffffffff}
	} else if W == 128 && c.P(1, 12) {
		u = U{Lo: u.Lo & 0xffffffff}
	}
	return u
}

func c06Round(c *C) {
	for i := 0; i < 25; i++ {
		u := textU(c)
		l := c.N(W + 1)
		want := stringAddr(u)
		c.Cover(Fam + " addresses printed")
		c.Eval(8)
		a := mkA(u)
		if got := a.String(); got != want {
			c.Failf("address %v prints as %q, standard form is %q", u, got, want)
		}
		b, err := ip.AddressFromString(a.String())
		if err != nil || b != a {
			c.Failf("%q parses back as %v, %v", a.String(), b, err)
		}
		wantP := fmt.Sprintf("%s/%d", want, l)
		p := mkP(u, l)
		if got := p.String(); got != wantP {
			c.Failf("prefix prints as %q, standard form is %q", got, wantP)
		}
		q, err := ip.PrefixFromString(p.String())
		if err != nil || q != p {
			c.Failf("%q parses back as %v, %v", p.String(), q, err)
		}
		if got, want := mkM(l).String(), stringAddr(mask(l)); got != want {
			c.Failf("mask of length %d prints as %q, standard form is %q", l, got, want)
		}
		lo, hi := u, textU(c)
		if hi.Less(lo) {
			lo, hi = hi, lo
		}
		if got, want := mkR(lo, hi).String(), "["+stringAddr(lo)+","+stringAddr(hi)+"]"; got != want {
			c.Failf("range prints as %q, want %q", got, want)
		}
		k := model.MkKey(W, u, l)
		if got, want := p.Set().String(), "["+pstr(k.Addr, k.Len)+"]"; got != want {
			c.Failf("set of %s prints as %q, want %q", p, got, want)
		}
		c.Distinct(mon.NewHash().Str(wantP))
		c.Sample(func() string { return wantP })
	}
	m := model.Normalize([]Iv{model.MkKey(W, textU(c), c.N(W+1)).Iv(W), {Lo: textU(c), Hi: maxU}, model.One(textU(c), maxU)[0], model.MkKey(W, textU(c), W).Iv(W)})
	canonicalString(c, "set", build(c, m), m)
	if S := (S{}).String(); S != "[]" {
		c.Failf("empty set prints as %q", S)
	}
}

// spell writes an address in one of its valid forms.
func spell(c *C, u U) string {
	b := bytesOf(u)
	if W == 32 {
		return fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3])
	}
	n := 8
	tail := ""
	if c.P(1, 4) {
		n = 6
		tail = fmt.Sprintf("%d.%d.%d.%d", b[len(b)-4], b[len(b)-3], b[len(b)-2], b[len(b)-1])
	}
	var gs []string
	zero := make([]bool, n)
	for i := 0; i < n; i++ {
		x := u.Shr(16*(7-i)).Lo & 0xffff
		zero[i] = x == 0
		f := "%x"
		if c.P(1, 3) {
			f = "%04x"
		}
		s := fmt.Sprintf(f, x)
		if c.P(1, 4) {
			s = strings.ToUpper(s)
		}
		gs = append(gs, s)
	}
	// compress any run of zeros, or none
	i := c.N(n)
	j := i
	for j < n && zero[j] && (j == i || !c.P(1, 5)) {
		j++
	}
	if c.P(3, 4) && j > i {
		l, r := strings.Join(gs[:i], ":"), strings.Join(gs[j:], ":")
		if tail != "" {
			if r != "" {
				r += ":"
			}
			r += tail
		}
		return l + "::" + r
	}
	s := strings.Join(gs, ":")
	if tail != "" {
		s += ":" + tail
	}
	return s
}

const alphabet = "0123456789abcdefABCDEFx.:/%g -+,[]\x00\xff\u0661\n_eEoO"

func mutate(c *C, s string) string {
	rs := []byte(s)
	for n := c.In(1, 3); n > 0; n-- {
		i := 0
		if len(rs) > 0 {
			i = c.N(len(rs))
		}
		switch c.N(7) {
		case 0: // insert
			ch := alphabet[c.N(len(alphabet))]
			rs = append(rs[:i:i], append([]byte{ch}, rs[i:]...)...)
		case 1: // delete
			if len(rs) > 0 {
				rs = append(rs[:i:i], rs[i+1:]...)
			}
		case 2: // replace
			if len(rs) > 0 {
				rs[i] = alphabet[c.N(len(alphabet))]
			}
		case 3: // duplicate a piece
			j := i + c.N(len(rs)-i+1)
			rs = append(rs[:j:j], rs[i:]...)
		case 4: // cut
			rs = rs[:i]
		case 5: // wrap
			switch c.N(6) {
			case 0:
				rs = append([]byte(" "), rs...)
			case 1:
				rs = append(rs, '\n')
			case 2:
				rs = append([]byte("0"), rs...)
			case 3:
				rs = append(rs, "%eth0"...)
			case 4:
				rs = append([]byte("["), append(rs, ']')...)
			case 5:
				rs = append(rs, ':')
			}
		case 6: // swap
			if len(rs) > 1 {
				j := c.N(len(rs))
				rs[i], rs[j] = rs[j], rs[i]
			}
		}
	}
	return string(rs)
}

func otherFamily(c *C) string {
	if W == 32 {
		return netip.AddrFrom16([16]byte{0x20, 1, 0xd, 0xb8, byte(c.N(256)), 0, 0, byte(c.N(2)), 0, 0, 0, 0, 0, 0, byte(c.N(256)), 1}).String()
	}
	return netip.AddrFrom4([4]byte{byte(c.N(256)), byte(c.N(256)), 0, 1}).String()
}

// ofFamily says whether the standard library takes the text for an address of
// the family; sure is false where the two parsers disagree or where the
// family is a matter of taste (an IPv4-mapped text given to the IPv4 parser).
func ofFamily(s string) (u U, is, sure bool) {
	a, err := netip.ParseAddr(s)
	i := net.ParseIP(s)
	ok := err == nil && a.Zone() == ""
	if ok != (i != nil) {
		return U{}, false, false
	}
	if !ok {
		return U{}, false, true
	}
	if W == 32 && a.Is4In6() {
		return U{}, false, false
	}
	if a.Is4() != (W == 32) {
		return U{}, false, true
	}
	return fromBytes(a.AsSlice()), true, true
}

func prefixOfFamily(s string) (u U, l int, is, sure bool) {
	p, err := netip.ParsePrefix(s)
	i, n, err2 := net.ParseCIDR(s)
	if (err == nil) != (err2 == nil) {
		return U{}, 0, false, false
	}
	if err != nil {
		return U{}, 0, false, true
	}
	ones, bits := n.Mask.Size()
	if ones != p.Bits() || (bits == 32) != p.Addr().Is4() || !i.Equal(net.IP(p.Addr().AsSlice())) {
		return U{}, 0, false, false
	}
	if p.Addr().Is4() != (W == 32) {
		return U{}, 0, false, true
	}
	return fromBytes(p.Addr().AsSlice()), p.Bits(), true, true
}

func checkAddrText(c *C, s string) {
	c.Eval(1)
	c.Distinct(mon.NewHash().Str(Fam + "a" + s))
	a, err := ip.AddressFromString(s)
	u, is, sure := ofFamily(s)
	switch {
	case !sure:
		c.Cover(Fam + " left open")
	case is:
		c.Cover(Fam + " accepted")
		if err != nil || unA(a) != u {
			c.Failf("AddressFromString(%q) is %v, %v; want %s", s, a, err, stringAddr(u))
		}
	default:
		c.Cover(Fam + " rejected")
		if err == nil {
			c.Failf("AddressFromString(%q) is accepted as %v", s, a)
		}
	}
}

func checkPrefixText(c *C, s string) {
	c.Eval(1)
	c.Distinct(mon.NewHash().Str(Fam + "p" + s))
	p, err := ip.PrefixFromString(s)
	u, l, is, sure := prefixOfFamily(s)
	switch {
	case !sure:
		c.Cover(Fam + " prefix left open")
	case is:
		c.Cover(Fam + " prefix accepted")
		if gu, gl := unP(p); err != nil || gu != u || gl != l {
			c.Failf("PrefixFromString(%q) is %v, %v; want %s", s, p, err, pstr(u, l))
		}
	default:
		c.Cover(Fam + " prefix rejected")
		if err == nil {
			c.Failf("PrefixFromString(%q) is accepted as %v", s, p)
		}
	}
}

func c06Strings(c *C) {
	for i := 0; i < 12; i++ {
		u := textU(c)
		s := spell(c, u)
		c.Sample(func() string { return fmt.Sprintf("%q", s) })
		if a, err := ip.AddressFromString(s); err != nil || unA(a) != u {
			c.Failf("AddressFromString(%q) is %v, %v; want %s", s, a, err, stringAddr(u))
		}
		l := c.N(W + 1)
		sp := fmt.Sprintf("%s/%d", s, l)
		if p, err := ip.PrefixFromString(sp); err != nil || p != mkP(u, l) {
			c.Failf("PrefixFromString(%q) is %v, %v; want %s", sp, p, err, pstr(u, l))
		}
		checkAddrText(c, s)
		checkPrefixText(c, sp)
		checkAddrText(c, sp)
		checkPrefixText(c, s)
		for j := 0; j < 6; j++ {
			checkAddrText(c, mutate(c, s))
			checkPrefixText(c, mutate(c, sp))
		}
		tails := []string{"/", "/-1", "/+1", fmt.Sprintf("/%d", W+1), fmt.Sprintf("/%d", W+c.N(300)), "/ 8", "/8 ", "/0x8", "/8/8", "/256", "/4294967296", "/4294967304", "/18446744073709551624", "/255.255.255.0", "//8", "/a", "/8."}
		checkPrefixText(c, s+tails[c.N(len(tails))])
		o := otherFamily(c)
		c.Cover(Fam + " other family")
		checkAddrText(c, o)
		checkPrefixText(c, fmt.Sprintf("%s/%d", o, c.N(33)))
		// noise
		var b strings.Builder
		for n := c.N(24); n > 0; n-- {
			b.WriteByte(alphabet[c.N(len(alphabet))])
		}
		checkAddrText(c, b.String())
		checkPrefixText(c, b.String())
		if i == 0 {
			for _, e := range []string{"", " ", "/", ":", "::", ":::", ".", "...", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.256", "01.2.3.4", "1.2.3.04", "0x1.2.3.4", "1", "4294967296", "::1::", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "12345::", "::g", "::1%lo", "fe80::1%eth0", "::1.2.3.4.5", "::1.2.3", "1::1.2.3.4:5", strings.Repeat("1", 300), strings.Repeat("1:", 300), "/8", "::/", "::/129", "0.0.0.0/33", "0.0.0.0/", "1.2.3/8"} {
				checkAddrText(c, e)
				checkPrefixText(c, e)
			}
		}
	}
}
