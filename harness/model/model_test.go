package model

import (
	"math/rand"
	"testing"

	"verifharness/u128"
)

// The interval model against bitmaps of an 8-bit universe (self-test of the
// harness, not of the library).
func TestAgainstBitmaps(t *testing.T) {
	const w = 8
	r := rand.New(rand.NewSource(1))
	mk := func() (Set, [256]bool) {
		var m [256]bool
		var iv []Iv
		for n := r.Intn(6); n > 0; n-- {
			a, b := r.Intn(256), r.Intn(256)
			if r.Intn(4) == 0 {
				b = 255
			}
			if r.Intn(4) == 0 {
				a = 0
			}
			if a > b {
				a, b = b, a
			}
			for i := a; i <= b; i++ {
				m[i] = true
			}
			iv = append(iv, Iv{u128.From(uint64(a)), u128.From(uint64(b))})
		}
		return Normalize(iv), m
	}
	eq := func(s Set, f func(i int) bool) {
		t.Helper()
		n := 0
		for i := 0; i < 256; i++ {
			if s.Has(u128.From(uint64(i))) != f(i) {
				t.Fatalf("%v at %d", s, i)
			}
			if f(i) {
				n++
			}
		}
		if s.Size().Int64() != int64(n) {
			t.Fatal("size")
		}
		for i := 1; i < len(s); i++ {
			if !s[i-1].Hi.Inc().Less(s[i].Lo) {
				t.Fatalf("not normal: %v", s)
			}
		}
		cover := s.Cover(w)
		var iv []Iv
		for _, k := range cover {
			iv = append(iv, k.Iv(w))
		}
		if !Normalize(iv).Equal(s) {
			t.Fatal("cover")
		}
		for i := 1; i < len(cover); i++ {
			a, b := cover[i-1], cover[i]
			if a.Len == b.Len && MkKey(w, a.Addr, a.Len-1) == MkKey(w, b.Addr, b.Len-1) {
				t.Fatal("not minimal")
			}
		}
		for l := 0; l <= w; l++ {
			c := 0
			for b := 0; b < 1<<l; b++ {
				all := true
				for i := b << (w - l); i < (b+1)<<(w-l); i++ {
					all = all && f(i)
				}
				if all {
					c++
				}
			}
			if s.CountPrefixes(w, l).Int64() != int64(c) {
				t.Fatalf("count %v /%d", s, l)
			}
		}
	}
	for n := 0; n < 3000; n++ {
		a, am := mk()
		b, bm := mk()
		eq(a, func(i int) bool { return am[i] })
		eq(Union(a, b), func(i int) bool { return am[i] || bm[i] })
		eq(Intersect(a, b), func(i int) bool { return am[i] && bm[i] })
		eq(Diff(w, a, b), func(i int) bool { return am[i] && !bm[i] })
		sub := true
		for i := range am {
			sub = sub && (!bm[i] || am[i])
		}
		if a.Covers(w, b) != sub {
			t.Fatal("covers")
		}
	}
	_ = Complement(128, Set{{U{}, u128.Max}})
}
