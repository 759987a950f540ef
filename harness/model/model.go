// Package model holds the executable reference models: address sets as sorted
// lists of disjoint, non-adjacent inclusive intervals, and tables as plain
// maps keyed by (network, length).
package model

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verifharness/u128"
)

type U = u128.U

// Iv is an inclusive interval.
type Iv struct{ Lo, Hi U }

// Set is a sorted list of disjoint non-adjacent inclusive intervals.
type Set []Iv

// Key is a network prefix: Addr has no bits below the mask.
type Key struct {
	Addr U
	Len  int
}

// Mask returns the network mask of a prefix of the given length in a w-bit
// family, right-aligned in 128 bits.
func Mask(w, length int) U { return u128.Ones(w).Xor(u128.Ones(w - length)) }

// MkKey masks off host bits.
func MkKey(w int, a U, length int) Key { return Key{a.And(Mask(w, length)), length} }

// Last returns the last address of the prefix.
func (k Key) Last(w int) U { return k.Addr.Or(u128.Ones(w - k.Len)) }

// Iv returns the interval of the prefix.
func (k Key) Iv(w int) Iv { return Iv{k.Addr, k.Last(w)} }

// Contains says whether k contains the prefix o.
func (k Key) Contains(w int, o Key) bool {
	return k.Len <= o.Len && o.Addr.And(Mask(w, k.Len)) == k.Addr
}

// Less is the lexical order: network address first, shorter first.
func (k Key) Less(o Key) bool {
	if c := k.Addr.Cmp(o.Addr); c != 0 {
		return c < 0
	}
	return k.Len < o.Len
}
func (k Key) String() string { return fmt.Sprintf("%v/%d", k.Addr, k.Len) }

// Normalize sorts and merges arbitrary intervals.
func Normalize(in []Iv) Set {
	if len(in) == 0 {
		return nil
	}
	s := append([]Iv(nil), in...)
	sort.Slice(s, func(i, j int) bool { return s[i].Lo.Less(s[j].Lo) })
	out := Set{s[0]}
	for _, v := range s[1:] {
		l := &out[len(out)-1]
		if l.Hi == u128.Max || v.Lo.LE(l.Hi.Inc()) {
			if l.Hi.Less(v.Hi) {
				l.Hi = v.Hi
			}
		} else {
			out = append(out, v)
		}
	}
	return out
}

func One(lo, hi U) Set       { return Set{{lo, hi}} }
func OfKey(w int, k Key) Set { return Set{k.Iv(w)} }
func Union(a, b Set) Set     { return Normalize(append(append([]Iv(nil), a...), b...)) }
func (a Set) Equal(b Set) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Intersect(a, b Set) Set {
	var out Set
	for i, j := 0, 0; i < len(a) && j < len(b); {
		lo, hi := a[i].Lo, a[i].Hi
		if lo.Less(b[j].Lo) {
			lo = b[j].Lo
		}
		if b[j].Hi.Less(hi) {
			hi = b[j].Hi
		}
		if lo.LE(hi) {
			out = append(out, Iv{lo, hi})
		}
		if a[i].Hi.Less(b[j].Hi) {
			i++
		} else {
			j++
		}
	}
	return out
}

// Complement within [0, 2^w).
func Complement(w int, a Set) Set {
	var out Set
	max := u128.Ones(w)
	next := U{}
	for _, v := range a {
		if next.Less(v.Lo) {
			out = append(out, Iv{next, v.Lo.Dec()})
		}
		if v.Hi == max {
			return out
		}
		next = v.Hi.Inc()
	}
	return append(out, Iv{next, max})
}

func Diff(w int, a, b Set) Set { return Intersect(a, Complement(w, b)) }

func (a Set) Has(x U) bool {
	i := sort.Search(len(a), func(i int) bool { return x.LE(a[i].Hi) })
	return i < len(a) && a[i].Lo.LE(x)
}

// Covers says whether every address of b is in a.
func (a Set) Covers(w int, b Set) bool { return len(Diff(w, b, a)) == 0 }

// Cover returns the unique minimal list of disjoint maximal prefixes.
func (a Set) Cover(w int) []Key {
	var out []Key
	for _, v := range a {
		lo := v.Lo
		for {
			n := lo.TrailingZeros()
			if n > w {
				n = w
			}
			for v.Hi.Less(lo.Or(u128.Ones(n))) {
				n--
			}
			out = append(out, Key{lo, w - n})
			last := lo.Or(u128.Ones(n))
			if last == v.Hi {
				break
			}
			lo = last.Inc()
		}
	}
	return out
}

// Size is the number of addresses.
func (a Set) Size() *big.Int {
	t := new(big.Int)
	for _, v := range a {
		t.Add(t, v.Hi.Sub(v.Lo).Big())
		t.Add(t, big.NewInt(1))
	}
	return t
}

// CountPrefixes is the number of aligned prefixes of the given length which
// are subsets of the set.
func (a Set) CountPrefixes(w, length int) *big.Int {
	t := new(big.Int)
	sh := uint(w - length)
	one := big.NewInt(1)
	for _, v := range a {
		// first block index >= Lo, one past last block index within Hi
		lo := v.Lo.Big()
		lo.Add(lo, new(big.Int).Sub(new(big.Int).Lsh(one, sh), one))
		lo.Rsh(lo, sh)
		hi := v.Hi.Big()
		hi.Add(hi, one)
		hi.Rsh(hi, sh)
		if hi.Cmp(lo) > 0 {
			t.Add(t, hi.Sub(hi, lo))
		}
	}
	return t
}

func (a Set) String() string {
	var b strings.Builder
	b.WriteString("{")
	for i, v := range a {
		if i > 0 {
			b.WriteString(" ")
		}
		if i == 12 {
			fmt.Fprintf(&b, "... %d more", len(a)-i)
			break
		}
		fmt.Fprintf(&b, "%v-%v", v.Lo, v.Hi)
	}
	return b.String() + "}"
}

// Table is the reference table.
type Table[V any] map[Key]V

func (t Table[V]) Clone() Table[V] {
	n := make(Table[V], len(t))
	for k, v := range t {
		n[k] = v
	}
	return n
}

// Keys in lexical order.
func (t Table[V]) Keys() []Key {
	ks := make([]Key, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	SortKeys(ks)
	return ks
}

func SortKeys(ks []Key) { sort.Slice(ks, func(i, j int) bool { return ks[i].Less(ks[j]) }) }

// Match is the longest prefix match by trying every length.
func (t Table[V]) Match(w int, s Key) (k Key, v V, ok bool) {
	for l := s.Len; l >= 0; l-- {
		k = MkKey(w, s.Addr, l)
		if v, ok = t[k]; ok {
			return k, v, true
		}
	}
	return Key{}, v, false
}

func (t Table[V]) String() string {
	var b strings.Builder
	b.WriteString("{")
	for i, k := range t.Keys() {
		if i > 0 {
			b.WriteString(", ")
		}
		if i == 24 {
			fmt.Fprintf(&b, "... %d more", len(t)-i)
			break
		}
		fmt.Fprintf(&b, "%v:%v", k, t[k])
	}
	return b.String() + "}"
}
