// Package fam6 drives the ipv6 package. Everything but this file is generated
// from fam4.
package fam6

import (
	"net"
	"net/netip"

	ip "gopkg.in/addrs.v1/ipv6"
)

const (
	W      = 128
	Fam    = "v6"
	hasNum = false
	hasBc  = false
	bytesN = 16
)

func mkA(u U) A { return ip.AddressFromUint64(u.Hi, u.Lo) }
func unA(a A) U { h, l := a.Uint64(); return U{Hi: h, Lo: l} }
func unM(m M) U { h, l := m.Uint64(); return U{Hi: h, Lo: l} }

// maskInt makes a mask from an integer.
func maskInt(u U) (M, error) { return ip.MaskFromUint64(u.Hi, u.Lo) }

func words(u U) (w [8]uint16) {
	for i := range w {
		w[i] = uint16(u.Shr(16 * (7 - i)).Lo)
	}
	return
}

// maskParts makes a mask from bytes / 16-bit words.
func maskParts(u U) (M, error) {
	w := words(u)
	return ip.MaskFromUint16(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])
}

func addrParts(u U) A {
	w := words(u)
	return ip.AddressFromUint16(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])
}

func prefixInts(p P) (a, m U) {
	ah, al, mh, ml := p.Uint64()
	return U{Hi: ah, Lo: al}, U{Hi: mh, Lo: ml}
}

func bytesOf(u U) []byte {
	b := make([]byte, 16)
	for i := range b {
		b[i] = byte(u.Shr(8 * (15 - i)).Lo)
	}
	return b
}

func fromBytes(b []byte) (u U) {
	for _, x := range b {
		u = u.Shl(8).Or(U{Lo: uint64(x)})
	}
	return
}

// stdAddr is the standard library's view of the address.
func stdAddr(u U) netip.Addr {
	var b [16]byte
	copy(b[:], bytesOf(u))
	return netip.AddrFrom16(b)
}

func stdIP(u U) net.IP { return net.IP(bytesOf(u)) }

func prefixNumAddresses(p P) (int64, bool)              { return 0, false }
func rangeNumAddresses(r R) (int64, bool)               { return 0, false }
func setNumAddresses(s S) (int64, bool)                 { return 0, false }
func msetNumAddresses(s S_) (int64, bool)               { return 0, false }
func walkAddresses(s S, cb func(A) bool) (ret, ok bool) { return false, false }
func broadcast(p P) (P, bool)                           { return P{}, false }
func setYield(f func())                                 { ip.VerifYield = f }

func stringAddr(u U) string { return stdAddr(u).String() }

// pkgFuncs are the exported functions.
var pkgFuncs = map[string]interface{}{
	"AddressFromNetIP":      ip.AddressFromNetIP,
	"AddressFromSlice":      ip.AddressFromSlice,
	"AddressFromString":     ip.AddressFromString,
	"AddressFromUint16":     ip.AddressFromUint16,
	"AddressFromUint64":     ip.AddressFromUint64,
	"MaskFromLength":        ip.MaskFromLength,
	"MaskFromNetIPMask":     ip.MaskFromNetIPMask,
	"MaskFromUint16":        ip.MaskFromUint16,
	"MaskFromUint64":        ip.MaskFromUint64,
	"PrefixFromAddressMask": ip.PrefixFromAddressMask,
	"PrefixFromNetIPNet":    ip.PrefixFromNetIPNet,
	"PrefixFromString":      ip.PrefixFromString,
	"RangeFromAddresses":    ip.RangeFromAddresses,
}

// pkgMethods are the methods which only this family has.
var pkgMethods = map[string]string{
	"Address": "Uint64", "Mask": "Uint64", "Prefix": "Uint64",
}
