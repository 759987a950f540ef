// Package fam4 drives the ipv4 package. fam6 is generated from it, except
// for adapt.go.
package fam4

import (
	"net"
	"net/netip"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/u128"
)

const (
	W      = 32
	Fam    = "v4"
	hasNum = true
	hasBc  = true
	bytesN = 4
)

func mkA(u U) A { return ip.AddressFromUint32(uint32(u.Lo)) }
func unA(a A) U { return u128.From(uint64(a.Uint32())) }
func unM(m M) U { return u128.From(uint64(m.Uint32())) }

// maskInt makes a mask from an integer.
func maskInt(u U) (M, error) { return ip.MaskFromUint32(uint32(u.Lo)) }

// maskParts makes a mask from bytes / 16-bit words.
func maskParts(u U) (M, error) {
	b := bytesOf(u)
	return ip.MaskFromBytes(b[0], b[1], b[2], b[3])
}

func addrParts(u U) A {
	b := bytesOf(u)
	return ip.AddressFromBytes(b[0], b[1], b[2], b[3])
}

func prefixInts(p P) (a, m U) {
	x, y := p.Uint32()
	return u128.From(uint64(x)), u128.From(uint64(y))
}

func bytesOf(u U) []byte {
	x := uint32(u.Lo)
	return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

func fromBytes(b []byte) (u U) {
	for _, x := range b {
		u = u.Shl(8).Or(u128.From(uint64(x)))
	}
	return
}

// stdAddr is the standard library's view of the address.
func stdAddr(u U) netip.Addr {
	var b [4]byte
	copy(b[:], bytesOf(u))
	return netip.AddrFrom4(b)
}

func stdIP(u U) net.IP { return net.IP(bytesOf(u)) }

func prefixNumAddresses(p P) (int64, bool) { return p.NumAddresses(), true }
func rangeNumAddresses(r R) (int64, bool)  { return r.NumAddresses(), true }
func setNumAddresses(s S) (int64, bool)    { return s.NumAddresses(), true }
func msetNumAddresses(s S_) (int64, bool)  { return s.NumAddresses(), true }
func walkAddresses(s S, cb func(A) bool) (ret, ok bool) {
	return s.WalkAddresses(cb), true
}
func broadcast(p P) (P, bool) { return p.Broadcast(), true }
func setYield(f func())       { ip.VerifYield = f }

// stringIsStandard: forms the family's String must have. For IPv4 all do.
func stringAddr(u U) string { return stdAddr(u).String() }

// pkgFuncs are the exported functions.
var pkgFuncs = map[string]interface{}{
	"AddressFromBytes":      ip.AddressFromBytes,
	"AddressFromNetIP":      ip.AddressFromNetIP,
	"AddressFromSlice":      ip.AddressFromSlice,
	"AddressFromString":     ip.AddressFromString,
	"AddressFromUint32":     ip.AddressFromUint32,
	"MaskFromBytes":         ip.MaskFromBytes,
	"MaskFromLength":        ip.MaskFromLength,
	"MaskFromNetIPMask":     ip.MaskFromNetIPMask,
	"MaskFromUint32":        ip.MaskFromUint32,
	"PrefixFromAddressMask": ip.PrefixFromAddressMask,
	"PrefixFromNetIPNet":    ip.PrefixFromNetIPNet,
	"PrefixFromString":      ip.PrefixFromString,
	"RangeFromAddresses":    ip.RangeFromAddresses,
}

// pkgMethods are the methods which only this family has.
var pkgMethods = map[string]string{
	"Address": "Uint32", "Mask": "Uint32",
	"Prefix": "Broadcast NumAddresses Uint32", "Range": "NumAddresses",
	"Set": "NumAddresses WalkAddresses", "Set_": "NumAddresses",
}
