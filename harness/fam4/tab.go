package fam4

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

// ent is a reference entry: its value and the addresses it was ever given
// under (host bits included).
type ent struct {
	v     int
	forms []U
}

type tm = model.Table[ent]
type T = ip.Table[int]
type T_ = ip.Table_[int]

func showTM(m tm) string {
	var b strings.Builder
	b.WriteString("{")
	for i, k := range m.Keys() {
		if i > 0 {
			b.WriteString(", ")
		}
		if i == 16 {
			fmt.Fprintf(&b, "... %d more", len(m)-i)
			break
		}
		fmt.Fprintf(&b, "%s:%d", pstr(k.Addr, k.Len), m[k].v)
	}
	return b.String() + "}"
}

func hashTM(h mon.Hash, m tm) mon.Hash {
	for _, k := range m.Keys() {
		h = hashKey(h, k).I(m[k].v)
	}
	return h.I(len(m))
}

// formOK says whether the reported prefix is the key as it was stored: with
// the network address, or one of the addresses given for it.
func formOK(p P, k K, e ent) bool {
	a, l := unP(p)
	if l != k.Len || a.And(mask(l)) != k.Addr {
		return false
	}
	if a == k.Addr {
		return true
	}
	for _, f := range e.forms {
		if f == a {
			return true
		}
	}
	return false
}

// keyArg draws one of the ways to pass a key, and the address it has.
func keyArg(c *C, k K) (PI, U) {
	a := k.Addr
	if c.P(1, 3) {
		a = a.Or(gen.Rand(c.Rng, W).And(mask(k.Len).Not())).And(maxU)
	}
	if k.Len == W && c.Bool() {
		return mkA(a), a
	}
	if k.Len == 0 && c.P(1, 3) {
		return nil, U{}
	}
	if c.P(1, 6) {
		return wrapPrefix{mkP(a, k.Len)}, a
	}
	return mkP(a, k.Len), a
}

// tt drives a mutable table beside its model.
type tt struct {
	t T_
	m tm
	g *gen.G
	// nv bounds the values
	nv int
	// eq is the table's comparison, if it is not ==. Storing a value which
	// compares equal to the one already there may keep the old one.
	eq func(a, b int) bool
	// keys used so far, to hit existing entries often
	keys []K
}

func newTT(g *gen.G, nv int) *tt {
	return &tt{t: ip.NewTable_[int](), m: tm{}, g: g, nv: nv}
}

func (t *tt) clone() *tt {
	return &tt{t: t.t.Table().Table_(), m: t.m.Clone(), g: t.g, nv: t.nv, eq: t.eq, keys: append([]K(nil), t.keys...)}
}

func (t *tt) key(c *C) K {
	if len(t.keys) > 0 && c.P(2, 5) {
		k := t.keys[c.N(len(t.keys))]
		switch c.N(6) {
		case 0: // parent
			if k.Len > 0 {
				return model.MkKey(W, k.Addr, k.Len-1)
			}
		case 1: // child
			if k.Len < W {
				return model.MkKey(W, k.Addr.Or(gen.Rand(c.Rng, W)).And(mask(k.Len+1).Xor(mask(k.Len))).Or(k.Addr), k.Len+1)
			}
		}
		return k
	}
	return t.g.Key()
}

func (t *tt) note(k K) {
	if len(t.keys) < 4096 {
		t.keys = append(t.keys, k)
	}
}

// step performs one random operation and checks what it returned.
func (t *tt) step(c *C) string {
	k := t.key(c)
	return t.op(c, c.N(8), k, c.N(t.nv))
}

func (t *tt) op(c *C, op int, k K, v int) string {
	arg, form := keyArg(c, k)
	old, had := t.m[k]
	what := ""
	if c.Tracing() {
		defer func() { c.Op("%s", what) }()
	}
	put := func() { t.m[k] = ent{v, append(append([]U(nil), old.forms...), form)} }
	check := func(name string, got, want bool) {
		c.Eval(1)
		if got != want {
			c.Failf("%s returned %v, but the key was present: %v; table %s", what, got, had, showTM(t.m))
		}
		if want {
			c.Cover(Fam + " " + name + " true")
		} else {
			c.Cover(Fam + " " + name + " false")
		}
	}
	switch op {
	case 0, 1:
		what = fmt.Sprintf("Insert(%v, %d)", arg, v)
		check("Insert", t.t.Insert(arg, v), !had)
		if !had {
			put()
			t.note(k)
		}
	case 2:
		what = fmt.Sprintf("Update(%v, %d)", arg, v)
		check("Update", t.t.Update(arg, v), had)
		if had {
			put()
		}
	case 3, 4:
		what = fmt.Sprintf("InsertOrUpdate(%v, %d)", arg, v)
		t.t.InsertOrUpdate(arg, v)
		put()
		if !had {
			t.note(k)
		}
	case 5:
		what = fmt.Sprintf("GetOrInsert(%v, %d)", arg, v)
		got := t.t.GetOrInsert(arg, v)
		want := v
		if had {
			want = old.v
		} else {
			put()
			t.note(k)
		}
		c.Eval(1)
		if got != want {
			c.Failf("%s returned %d, want %d; table %s", what, got, want, showTM(t.m))
		}
	default:
		what = fmt.Sprintf("Remove(%v)", arg)
		check("Remove", t.t.Remove(arg), had)
		delete(t.m, k)
	}
	// the key itself, at once
	e, has := t.m[k]
	got, ok := t.t.Get(arg)
	if has && had && ok && got == old.v && got != e.v && t.eq != nil && t.eq(old.v, e.v) {
		e.v = got
		t.m[k] = e
	}
	c.Eval(1)
	if ok != has || got != e.v {
		c.Failf("after %s: Get is %d, %v; want %d, %v", what, got, ok, e.v, has)
	}
	if n := t.t.NumEntries(); n != int64(len(t.m)) {
		c.Failf("after %s: NumEntries is %d, want %d", what, n, len(t.m))
	}
	return what
}

// checkWalk compares a complete walk with the model.
func checkWalk(c *C, what string, t T, m tm) {
	ks := m.Keys()
	i := 0
	c.Eval(1)
	ret := t.Walk(func(p P, v int) bool {
		if i >= len(ks) {
			c.Failf("%s: Walk reports %v:%d after all %d entries of %s", what, p, v, len(ks), showTM(m))
		}
		k := ks[i]
		if !formOK(p, k, m[k]) || v != m[k].v {
			c.Failf("%s: Walk entry %d is %v:%d, want %s:%d; table %s", what, i, p, v, pstr(k.Addr, k.Len), m[k].v, showTM(m))
		}
		i++
		return true
	})
	if i != len(ks) || !ret {
		c.Failf("%s: Walk reported %d of %d entries and returned %v; table %s", what, i, len(ks), ret, showTM(m))
	}
}

// checkGets looks up every stored key and absent ones next to them.
func checkGets(c *C, what string, t T, m tm) {
	if n := t.NumEntries(); n != int64(len(m)) {
		c.Failf("%s: NumEntries is %d, want %d", what, n, len(m))
	}
	one := func(k K) {
		arg, _ := keyArg(c, k)
		e, has := m[k]
		got, ok := t.Get(arg)
		c.Eval(1)
		if ok != has || got != e.v {
			c.Failf("%s: Get(%v) is %d, %v; want %d, %v; table %s", what, arg, got, ok, e.v, has, showTM(m))
		}
	}
	n := 0
	for k := range m {
		_ = k
		n++
	}
	ks := m.Keys()
	stepN := 1 + len(ks)/400
	for i := c.N(stepN); i < len(ks); i += stepN {
		k := ks[i]
		one(k)
		if k.Len > 0 {
			one(model.MkKey(W, k.Addr, k.Len-1))
			one(model.MkKey(W, k.Addr.Xor(mask(k.Len).Xor(mask(k.Len-1))), k.Len))
		}
		if k.Len < W {
			one(K{Addr: k.Addr, Len: k.Len + 1})
		}
	}
	one(K{})
	one(K{Addr: maxU, Len: W})
	one(K{Addr: U{}, Len: W})
}

// checkMatch asks for the longest match of one search key.
func checkMatch(c *C, what string, t T, t_ T_, m tm, s K) {
	arg, _ := keyArg(c, s)
	k, e, has := m.Match(W, s)
	c.Eval(2)
	v, ok, p := t.LongestMatch(arg)
	v2, ok2, p2 := t_.LongestMatch(arg)
	if ok != has || ok2 != has || v != e.v || v2 != e.v {
		c.Failf("%s: LongestMatch(%v) is %d, %v, %v (Table_: %d, %v, %v); want %d, %v, %s; table %s", what, arg, v, ok, p, v2, ok2, p2, e.v, has, pstr(k.Addr, k.Len), showTM(m))
	}
	if has {
		if !formOK(p, k, e) || !formOK(p2, k, e) {
			c.Failf("%s: LongestMatch(%v) matched %v (Table_: %v), want %s; table %s", what, arg, p, p2, pstr(k.Addr, k.Len), showTM(m))
		}
		c.Cover(Fam + " found")
		if k.Len == s.Len {
			c.Cover(Fam + " found exactly")
		}
	} else {
		c.Cover(Fam + " not found")
	}
}

// spaces returns an ascending list of the first addresses of the elementary
// intervals the keys cut the space into.
func elementary(m tm) []U {
	seen := map[U]bool{}
	var out []U
	add := func(u U) {
		if !seen[u] {
			seen[u] = true
			out = append(out, u)
		}
	}
	add(U{})
	for k := range m {
		add(k.Addr)
		if l := k.Last(W); l != maxU {
			add(l.Inc())
		}
	}
	return out
}
