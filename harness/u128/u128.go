// Package u128 is the harness's own 128-bit unsigned integer. It shares no
// code with the library under test.
package u128

import (
	"fmt"
	"math/big"
	"math/bits"
)

// U is an unsigned 128-bit integer.
type U struct{ Hi, Lo uint64 }

var Max = U{^uint64(0), ^uint64(0)}

func From(x uint64) U { return U{0, x} }

func (a U) Cmp(b U) int {
	switch {
	case a.Hi < b.Hi:
		return -1
	case a.Hi > b.Hi:
		return 1
	case a.Lo < b.Lo:
		return -1
	case a.Lo > b.Lo:
		return 1
	}
	return 0
}
func (a U) Less(b U) bool { return a.Cmp(b) < 0 }
func (a U) LE(b U) bool   { return a.Cmp(b) <= 0 }
func (a U) IsZero() bool  { return a == U{} }
func (a U) Add(b U) U {
	lo, c := bits.Add64(a.Lo, b.Lo, 0)
	hi, _ := bits.Add64(a.Hi, b.Hi, c)
	return U{hi, lo}
}
func (a U) Sub(b U) U {
	lo, c := bits.Sub64(a.Lo, b.Lo, 0)
	hi, _ := bits.Sub64(a.Hi, b.Hi, c)
	return U{hi, lo}
}
func (a U) Inc() U    { return a.Add(U{0, 1}) }
func (a U) Dec() U    { return a.Sub(U{0, 1}) }
func (a U) And(b U) U { return U{a.Hi & b.Hi, a.Lo & b.Lo} }
func (a U) Or(b U) U  { return U{a.Hi | b.Hi, a.Lo | b.Lo} }
func (a U) Xor(b U) U { return U{a.Hi ^ b.Hi, a.Lo ^ b.Lo} }
func (a U) Not() U    { return U{^a.Hi, ^a.Lo} }

// Shl shifts left by n in [0,128]; anything shifted out is lost.
func (a U) Shl(n int) U {
	for ; n >= 64; n -= 64 {
		a = U{a.Lo, 0}
	}
	if n == 0 {
		return a
	}
	return U{a.Hi<<uint(n) | a.Lo>>uint(64-n), a.Lo << uint(n)}
}

// Shr shifts right by n in [0,128].
func (a U) Shr(n int) U {
	for ; n >= 64; n -= 64 {
		a = U{0, a.Hi}
	}
	if n == 0 {
		return a
	}
	return U{a.Hi >> uint(n), a.Lo>>uint(n) | a.Hi<<uint(64-n)}
}

// TrailingZeros returns 128 for zero.
func (a U) TrailingZeros() int {
	if a.Lo != 0 {
		return bits.TrailingZeros64(a.Lo)
	}
	return 64 + bits.TrailingZeros64(a.Hi)
}

// Ones returns a value with the low n bits set.
func Ones(n int) U {
	if n <= 0 {
		return U{}
	}
	return Max.Shr(128 - n)
}

// Bit returns 1<<n.
func Bit(n int) U { return U{0, 1}.Shl(n) }

func (a U) Big() *big.Int {
	x := new(big.Int).SetUint64(a.Hi)
	x.Lsh(x, 64)
	return x.Or(x, new(big.Int).SetUint64(a.Lo))
}

func (a U) String() string {
	if a.Hi == 0 {
		return fmt.Sprintf("0x%x", a.Lo)
	}
	return fmt.Sprintf("0x%x%016x", a.Hi, a.Lo)
}
