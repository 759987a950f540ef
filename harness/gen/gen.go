// Package gen makes hostile addresses, prefixes and ranges: small dense
// universes at awkward places of the address space, so that adjacency,
// containment, halves, the ends of the space and word boundaries are common.
package gen

import (
	"fmt"

	"verifharness/model"
	"verifharness/mon"
	"verifharness/u128"
)

type U = u128.U

// G draws from one universe.
type G struct {
	R    *mon.Rng
	W    int
	Kind string
	// grid universes: base + x<<Shift for x < 1<<K
	Base     U
	Shift, K int
	// focal universes: addresses which leave the path to Focal at some bit
	Focal U
	// Jitter lets addresses leave the grid by one and ranges end anywhere
	Jitter bool
}

func (g *G) String() string {
	if g.Kind == "focal" {
		return fmt.Sprintf("focal %v", g.Focal)
	}
	return fmt.Sprintf("%s base=%v shift=%d k=%d jitter=%v", g.Kind, g.Base, g.Shift, g.K, g.Jitter)
}

// Rand returns a random W-bit value.
func Rand(r *mon.Rng, w int) U {
	return U{Hi: r.U64(), Lo: r.U64()}.And(u128.Ones(w))
}

// New picks a universe.
func New(r *mon.Rng, w int) *G {
	g := &G{R: r, W: w}
	g.K = r.In(1, 6)
	switch r.N(10) {
	case 0:
		g.Kind = "bottom"
	case 1, 2:
		g.Kind = "top"
		g.Base = u128.Ones(w).And(u128.Ones(g.K).Not())
	case 3:
		// covers the whole space
		g.Kind = "whole"
		g.Shift = w - g.K
	case 4:
		// straddles the middle of the space, or another high boundary
		g.Kind = "straddle"
		at := r.In(g.K, w-1)
		g.Shift = r.N(at - g.K + 1)
		if r.Bool() {
			g.Shift = 0
		}
		g.Base = u128.Bit(at).Sub(u128.Bit(g.K - 1 + g.Shift))
		if r.Bool() { // somewhere else with a long run of borrows
			g.Base = g.Base.Add(Rand(r, w).And(u128.Ones(at + 1).Not())).And(u128.Ones(w))
		}
	case 5:
		g.Kind = "word" // around the boundary of the 64-bit halves, or of bytes
		b := 64
		if w == 32 {
			b = 8 * r.In(1, 3)
		}
		g.Shift = b - r.N(g.K+1)
		g.Base = Rand(r, w).And(u128.Ones(g.Shift + g.K).Not())
		if r.Bool() {
			g.Base = u128.Ones(w).And(u128.Ones(g.Shift + g.K).Not())
		}
	case 6:
		g.Kind = "topshift"
		g.Shift = r.N(w - g.K + 1)
		g.Base = u128.Ones(w).And(u128.Ones(g.K + g.Shift).Not())
	case 7:
		g.Kind = "random"
		g.Shift = r.N(w - g.K + 1)
		g.Base = Rand(r, w).And(u128.Ones(g.K + g.Shift).Not())
	default:
		g.Kind = "focal"
		g.Focal = Rand(r, w)
		switch r.N(6) {
		case 0:
			g.Focal = U{}
		case 1:
			g.Focal = u128.Ones(w)
		}
	}
	g.Jitter = r.P(1, 3)
	return g
}

// Grid is a universe of 1<<k blocks of 1<<shift addresses.
func Grid(r *mon.Rng, w int, base U, shift, k int) *G {
	return &G{R: r, W: w, Kind: "grid", Base: base, Shift: shift, K: k}
}

// Anchors are places for exhaustive small universes of 1<<k blocks: bottom,
// top, whole space, straddling the middle, straddling the word boundary...
func Anchors(w, k int) []*G {
	var out []*G
	add := func(base U, shift int) {
		out = append(out, &G{W: w, Kind: "anchor", Base: base.And(u128.Ones(w)), Shift: shift, K: k})
	}
	add(U{}, 0)
	add(u128.Ones(w).And(u128.Ones(k).Not()), 0)
	add(U{}, w-k)
	add(u128.Bit(w-1).Sub(u128.Bit(k-1)), 0)
	add(u128.Bit(w/2).Sub(u128.Bit(k-1)), 0)
	add(u128.Ones(w).And(u128.Ones(k+w/2-1).Not()), w/2-1)
	add(u128.Bit(w-2).Sub(u128.Bit(k-1+w/2)), w/2)
	add(U{Hi: 0x20010db800000000, Lo: 0x0a000100}, 3)
	return out
}

// Point is the first address of block x.
func (g *G) Point(x int) U { return g.Base.Add(u128.From(uint64(x)).Shl(g.Shift)).And(u128.Ones(g.W)) }

// Block is the interval of blocks x..y.
func (g *G) Block(x, y int) model.Iv {
	return model.Iv{Lo: g.Point(x), Hi: g.Point(y).Add(u128.Ones(g.Shift)).And(u128.Ones(g.W))}
}

func (g *G) clip(a U) U { return a.And(u128.Ones(g.W)) }

// Addr draws an address.
func (g *G) Addr() U {
	r := g.R
	if g.Kind == "focal" {
		a := g.Focal
		if r.P(1, 8) {
			return a
		}
		b := r.N(g.W)
		a = a.Xor(u128.Bit(b))
		switch r.N(4) {
		case 0: // random below
			a = a.Xor(Rand(r, g.W).And(u128.Ones(b)))
		case 1: // zeros below
			a = a.And(u128.Ones(b).Not())
		case 2: // ones below
			a = a.Or(u128.Ones(b))
		}
		return g.clip(a)
	}
	x := r.N(1 << uint(g.K))
	iv := g.Block(x, x)
	switch r.N(5) {
	case 0, 1:
		return iv.Lo
	case 2:
		return iv.Hi
	case 3:
		return iv.Lo.Or(Rand(r, g.W).And(u128.Ones(g.Shift)))
	}
	if g.Jitter {
		if r.Bool() {
			return g.clip(iv.Lo.Dec())
		}
		return g.clip(iv.Hi.Inc())
	}
	return iv.Lo
}

// Len draws a prefix length.
func (g *G) Len() int {
	r := g.R
	if g.Kind == "focal" {
		return r.N(g.W + 1)
	}
	lo := g.W - g.Shift - g.K - 1
	hi := g.W - g.Shift
	if r.P(1, 6) {
		hi++
	}
	if r.P(1, 40) {
		return r.N(g.W + 1)
	}
	if lo < 0 {
		lo = 0
	}
	if hi > g.W {
		hi = g.W
	}
	return r.In(lo, hi)
}

// Prefix draws an address (host bits likely) and a length.
func (g *G) Prefix() (U, int) {
	l := g.Len()
	a := g.Addr()
	if g.R.P(1, 2) {
		a = a.And(model.Mask(g.W, l))
	}
	return a, l
}

// Key draws a network prefix.
func (g *G) Key() model.Key {
	a, l := g.Prefix()
	return model.MkKey(g.W, a, l)
}

// Range draws first <= last.
func (g *G) Range() (lo, hi U) {
	r := g.R
	if g.Kind == "focal" || r.P(1, 6) {
		lo, hi = g.Addr(), g.Addr()
	} else {
		x, y := r.N(1<<uint(g.K)), r.N(1<<uint(g.K))
		if x > y {
			x, y = y, x
		}
		iv := g.Block(x, y)
		lo, hi = iv.Lo, iv.Hi
		if g.Jitter {
			switch r.N(6) {
			case 0:
				lo = g.clip(lo.Inc())
			case 1:
				lo = g.clip(lo.Dec())
			case 2:
				hi = g.clip(hi.Inc())
			case 3:
				hi = g.clip(hi.Dec())
			}
		}
	}
	if hi.Less(lo) {
		lo, hi = hi, lo
	}
	return
}

// Edges returns the interesting single addresses of the given intervals:
// ends, one beyond the ends, and one inside; deduplicated.
func Edges(w int, ivs []model.Iv) []U {
	seen := map[U]bool{}
	var out []U
	add := func(a U) {
		a = a.And(u128.Ones(w))
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	add(U{})
	add(u128.Ones(w))
	for _, v := range ivs {
		add(v.Lo)
		add(v.Hi)
		add(v.Lo.Dec())
		add(v.Hi.Inc())
		add(v.Lo.Add(v.Hi.Sub(v.Lo).Shr(1)))
	}
	return out
}
