package fam4

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C21"] = "cases: (inject-*) one or more complete modifications run in the middle of another one, at the hook between its read of the root and its store, and inside user callbacks (PrefixI, SetI, comparison function): all pairs of operations on small tables and sets, and sequences which restore the old content; (stress-*) 2-4 goroutines with a few operations each on a tiny set or table, forced to overlap; (hammer-*) 2-3 goroutines which stay around do one or two operations each, thousands of times, the later ones after a random delay of up to about the time the first one takes, on tiny and on large containers, with complete, exact and no-op changes; (conserve-*) many goroutines inserting and removing keys of their own, retrying on panic. Oracle: some order of the non-panicking operations, consistent with real time, explains every return value, every read and the final content (depth-first search); lone writers never panic. Non-trivial: distinct recorded histories with overlapping operations."
	mon.Assume["C21"] = []string{"schedules beyond the injected ones are chosen by the Go scheduler"}
	reg("C21", "inject-table", 1500, 40000, c21InjectTable).Serial = true
	reg("C21", "inject-set", 1500, 40000, c21InjectSet).Serial = true
	reg("C21", "stress-table", 1500, 40000, c21StressTable).Serial = true
	reg("C21", "stress-set", 1500, 40000, c21StressSet).Serial = true
	reg("C21", "conserve", 12, 200, c21Conserve).Serial = true
	reg("C21", "hammer-set", 6, 150, c21HammerSet).Serial = true
	reg("C21", "hammer-table", 6, 150, c21HammerTable).Serial = true
	for _, k := range []string{"nested operations", "overlapping operations", "histories explained", "lone writers", "retried until done", "large sets", "large tables", "hammered"} {
		mon.Need["C21"] = append(mon.Need["C21"], Fam+" "+k)
	}
}

// A history is a list of operations on an abstract state.
type hop struct {
	inv, resp int64
	what      string
	panicked  bool
	// apply returns the state afterwards, and whether what the operation
	// returned fits
	apply func(s uint64) (uint64, bool)
}

// explained searches an order of the operations which did not panic.
func explained(c *C, ops []hop, init uint64) bool {
	var done []hop
	for _, o := range ops {
		if !o.panicked {
			done = append(done, o)
		}
	}
	if len(done) > 60 {
		mon.Inconc("history too long")
	}
	type node struct{ set, state uint64 }
	seen := map[node]bool{}
	var dfs func(set, state uint64) bool
	dfs = func(set, state uint64) bool {
		if set == 1<<uint(len(done))-1 {
			return true
		}
		n := node{set, state}
		if seen[n] {
			return false
		}
		seen[n] = true
		first := int64(1) << 62
		for i, o := range done {
			if set>>uint(i)&1 == 0 && o.resp < first {
				first = o.resp
			}
		}
		for i, o := range done {
			if set>>uint(i)&1 == 1 || o.inv > first {
				continue
			}
			if next, ok := o.apply(state); ok && dfs(set|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	ok := dfs(0, init)
	c.Eval(len(seen) + 1)
	return ok
}

func showHist(ops []hop) string {
	o := append([]hop(nil), ops...)
	sort.Slice(o, func(i, j int) bool { return o[i].inv < o[j].inv })
	var ss []string
	for _, x := range o {
		p := ""
		if x.panicked {
			p = " PANICKED"
		}
		ss = append(ss, fmt.Sprintf("[%d,%d] %s%s", x.inv, x.resp, x.what, p))
	}
	return strings.Join(ss, "; ")
}

// judge checks a history and what it covered.
func judge(c *C, ops []hop, init uint64, show func(uint64) string) {
	overlap := false
	for i, a := range ops {
		if a.panicked {
			c.Cover(Fam + " operations panicked")
		}
		for _, b := range ops[:i] {
			if a.inv < b.resp && b.inv < a.resp {
				overlap = true
			}
		}
	}
	if overlap {
		c.Cover(Fam + " overlapping operations")
		c.Distinct(mon.NewHash().Str(Fam).Str(showHist(ops)).U(init))
	}
	if !explained(c, ops, init) {
		c.Failf("no order of the operations that did not panic explains what they returned and what was read: initially %s; %s", show(init), showHist(ops))
	}
	c.Cover(Fam + " histories explained")
}

// ---- tables: the 7 prefixes of a block of 4 addresses, values 0..6, as 4
// bits per key: 0 is absent, value+1 otherwise.

type tabWorld struct {
	keys []K
	idx  map[K]int
	// entries which nobody touches
	more tm
}

func newTabWorld(c *C) *tabWorld {
	base, sh := smallBase(c, c.N(6), 2)
	w := &tabWorld{keys: blockKeys(base, sh, 2), idx: map[K]int{}}
	for i, k := range w.keys {
		w.idx[k] = i
	}
	if c.P(1, 50) { // in the middle of many others
		w.more = tm{}
		f := mixedShape(c)
		for i := logSize(c, 60, 3000); i > 0; i-- {
			k := f(i)
			if _, ok := w.idx[k]; !ok {
				w.more[k] = ent{v: c.N(3)}
			}
		}
		c.Cover(Fam + " large tables")
	}
	return w
}

// fill adds the entries nobody touches.
func (w *tabWorld) fill(t T_) {
	for k, e := range w.more {
		t.Insert(mkK(k), e.v)
	}
}

func (w *tabWorld) get(s uint64, i int) int { return int(s>>uint(4*i)&15) - 1 }
func (w *tabWorld) put(s uint64, i, v int) uint64 {
	return s&^(15<<uint(4*i)) | uint64(v+1)<<uint(4*i)
}

func (w *tabWorld) show(s uint64) string {
	m := tm{}
	for i, k := range w.keys {
		if v := w.get(s, i); v >= 0 {
			m[k] = ent{v: v}
		}
	}
	return showTM(m)
}

func (w *tabWorld) state(c *C, t T) uint64 {
	s := uint64(0)
	n := int64(0)
	t.Walk(func(p P, v int) bool {
		k := keyOf(p)
		i, ok := w.idx[k]
		if e, has := w.more[k]; has {
			if e.v != v {
				c.Failf("table holds %v:%d; nobody changed it from %d", p, v, e.v)
			}
			n++
			return true
		}
		if !ok || w.get(s, i) >= 0 || v < 0 || v > 6 {
			c.Failf("table holds %v:%d, which nobody put there", p, v)
		}
		s = w.put(s, i, v)
		n++
		return true
	})
	others := n
	for i := range w.keys {
		if w.get(s, i) >= 0 {
			others--
		}
	}
	if others != int64(len(w.more)) {
		c.Failf("of %d entries nobody touches, %d are left", len(w.more), others)
	}
	if t.NumEntries() != n {
		c.Failf("a table with %d entries says it has %d", n, t.NumEntries())
	}
	return s
}

var opNames = []string{"Insert", "Update", "InsertOrUpdate", "GetOrInsert", "Remove", "Table", "Get"}

// run performs an operation and records it. arg is what is passed for key i.
func (w *tabWorld) run(c *C, t T_, clock *int64, op, i, v int, arg PI) (h hop) {
	h.what = fmt.Sprintf("%s(%s, %d)", opNames[op], pstr(w.keys[i].Addr, w.keys[i].Len), v)
	if op >= 4 {
		h.what = fmt.Sprintf("%s(%s)", opNames[op], pstr(w.keys[i].Addr, w.keys[i].Len))
	}
	var b bool
	var x int
	var st uint64
	h.inv = atomic.AddInt64(clock, 1)
	why, panicked := mon.Panics(func() {
		switch op {
		case 0:
			b = t.Insert(arg, v)
		case 1:
			b = t.Update(arg, v)
		case 2:
			t.InsertOrUpdate(arg, v)
		case 3:
			x = t.GetOrInsert(arg, v)
		case 4:
			b = t.Remove(arg)
		case 5:
			tab := t.Table()
			h.resp = atomic.AddInt64(clock, 1)
			st = w.state(c, tab)
		default:
			x, b = t.Get(arg)
		}
	})
	if h.resp == 0 {
		h.resp = atomic.AddInt64(clock, 1)
	}
	h.panicked = panicked
	if panicked {
		if op >= 5 {
			c.Failf("%s panicked: %v", h.what, why)
		}
		h.what += fmt.Sprintf(" (%v)", why)
		return
	}
	switch op {
	case 0, 1, 4:
		h.what += fmt.Sprintf(" = %v", b)
	case 3:
		h.what += fmt.Sprintf(" = %d", x)
	case 5:
		h.what = "Table() = " + w.show(st)
	case 6:
		h.what += fmt.Sprintf(" = %d, %v", x, b)
	}
	h.apply = func(s uint64) (uint64, bool) {
		old := w.get(s, i)
		switch op {
		case 0:
			if old >= 0 {
				return s, !b
			}
			return w.put(s, i, v), b
		case 1:
			if old < 0 {
				return s, !b
			}
			return w.put(s, i, v), b
		case 2:
			return w.put(s, i, v), true
		case 3:
			if old >= 0 {
				return s, x == old
			}
			return w.put(s, i, v), x == v
		case 4:
			return w.put(s, i, -1), b == (old >= 0)
		case 5:
			return s, s == st
		}
		return s, b == (old >= 0) && (!b || x == old)
	}
	return
}

// hookPrefix runs f when the library asks it for its prefix.
type hookPrefix struct {
	p P
	f func()
}

func (h hookPrefix) Prefix() P { h.f(); return h.p }

type hookSet struct {
	s S
	f func()
}

func (h hookSet) Set() S { h.f(); return h.s }

// c21InjectTable: complete operations in the middle of another one.
func c21InjectTable(c *C) {
	w := newTabWorld(c)
	var clock int64
	for round := 0; round < 20; round++ {
		var inject func()
		fire := func() {
			if f := inject; f != nil {
				inject = nil
				f()
			}
		}
		place := c.N(5)
		var t T_
		var onCmp func()
		if place == 3 {
			t = ip.NewTableCustomCompare_[int](func(a, b int) bool {
				if onCmp != nil {
					onCmp()
				}
				return a == b
			})
		} else {
			t = ip.NewTable_[int]()
		}
		w.fill(t)
		for i := range w.keys {
			if c.P(2, 5) {
				t.Insert(mkK(w.keys[i]), c.N(3))
			}
		}
		init := w.state(c, t.Table())
		var hist []hop
		// what happens in the middle
		n := c.In(1, 3)
		type call struct{ op, i, v int }
		var calls []call
		for j := 0; j < n; j++ {
			calls = append(calls, call{c.N(7), c.N(7), c.N(4)})
		}
		if c.P(1, 4) { // puts everything back
			i := c.N(7)
			calls = []call{{0, i, 3}, {4, i, 0}}
			if w.get(init, i) >= 0 {
				calls = []call{{4, i, 0}, {0, i, w.get(init, i)}}
			}
		}
		ran := 0
		inner := func() {
			for _, x := range calls {
				hist = append(hist, w.run(c, t, &clock, x.op, x.i, x.v, mkK(w.keys[x.i])))
				ran++
			}
		}
		op, i, v := c.N(5), c.N(7), c.N(4)
		// often around the same key
		if c.Bool() {
			i = calls[0].i
		}
		arg := PI(mkK(w.keys[i]))
		inject = inner
		switch place {
		case 0, 1: // at the n-th hook call
			skip := c.N(2)
			setYield(func() {
				if skip > 0 {
					skip--
					return
				}
				fire()
			})
			c.Cover(Fam + " injected at the hook")
		case 2:
			arg = hookPrefix{mkK(w.keys[i]), fire}
			c.Cover(Fam + " injected in PrefixI")
		case 3:
			onCmp = fire
			c.Cover(Fam + " injected in the comparison")
		default: // not injected: a lone writer
			inject = nil
		}
		h := w.run(c, t, &clock, op, i, v, arg)
		setYield(nil)
		onCmp = nil
		inject = nil
		if ran == 0 {
			if h.panicked {
				c.Failf("a lone writer panicked: %s", h.what)
			}
			c.Cover(Fam + " lone writers")
		} else {
			c.CoverN(Fam+" nested operations", ran)
		}
		hist = append(hist, h)
		hist = append(hist, w.run(c, t, &clock, 5, 0, 0, nil))
		c.Op("%s", showHist(hist))
		judge(c, hist, init, w.show)
		// a lone writer goes on from there
		i = c.N(7)
		h = w.run(c, t, &clock, c.N(5), i, c.N(4), mkK(w.keys[i]))
		if h.panicked {
			c.Failf("a lone writer panicked after %s: %s", showHist(hist), h.what)
		}
	}
	c.Sample(func() string { return "operations inside of operations on tables over " + showKeys(w.keys) })
}

// ---- sets: subsets of 8 blocks as bits.

type setWorld struct {
	blk []MS
	// sets made before
	libs map[uint64]S
}

// newSetWorld makes 8 small blocks or, sometimes, 8 sets of many pieces.
func newSetWorld(c *C) *setWorld {
	w := &setWorld{libs: map[uint64]S{}}
	if c.P(1, 50) {
		n := logSize(c, 60, 4000)
		all := someSet(c, n)
		w.blk = make([]MS, 8)
		switch kind := c.N(3); {
		case len(all) < 16:
		case kind == 0: // one after the other
			for i, v := range all {
				w.blk[i*8/len(all)] = append(w.blk[i*8/len(all)], v)
			}
		case kind == 1: // interleaved
			for i, v := range all {
				w.blk[i%8] = append(w.blk[i%8], v)
			}
		default: // one large, others small
			for i, v := range all {
				j := 0
				if i%(len(all)/8) == 1 {
					j = 1 + i/(len(all)/8)%7
				}
				w.blk[j] = append(w.blk[j], v)
			}
		}
		ok := true
		for _, b := range w.blk {
			ok = ok && len(b) > 0
		}
		if ok {
			c.Cover(Fam + " large sets")
			return w
		}
		w.blk = nil
	}
	base, sh := smallBase(c, c.N(6), 3)
	for _, k := range blockKeys(base, sh, 3)[7:] {
		w.blk = append(w.blk, MS{k.Iv(W)})
	}
	return w
}

func (w *setWorld) set(bits uint64) MS {
	var ivs []Iv
	for i, b := range w.blk {
		if bits>>uint(i)&1 == 1 {
			ivs = append(ivs, b...)
		}
	}
	return model.Normalize(ivs)
}

func (w *setWorld) show(bits uint64) string { return showSet(w.set(bits)) }

func (w *setWorld) state(c *C, s S) uint64 {
	m := content(c, s)
	bits := uint64(0)
	for i, b := range w.blk {
		if m.Has(b[0].Lo) {
			bits |= 1 << uint(i)
		}
	}
	if !w.set(bits).Equal(m) {
		c.Failf("a set holds %s, of which nobody inserted or removed all", showSet(m))
	}
	return bits
}

// lib makes a Set with the given blocks.
func (w *setWorld) lib(bits uint64) S {
	if s, ok := w.libs[bits]; ok && len(w.blk[0]) > 1 {
		return s
	}
	t := ip.NewSet_()
	for i, b := range w.blk {
		if bits>>uint(i)&1 == 1 {
			for _, v := range b {
				t.Insert(mkR(v.Lo, v.Hi))
			}
		}
	}
	s := t.Set()
	w.libs[bits] = s
	return s
}

func (w *setWorld) run(c *C, s S_, clock *int64, op int, bits uint64, arg SI) (h hop) {
	h.what = fmt.Sprintf("%s(%s)", []string{"Insert", "Remove", "Set", "Contains"}[op], w.show(bits))
	var st uint64
	var b bool
	h.inv = atomic.AddInt64(clock, 1)
	why, panicked := mon.Panics(func() {
		switch op {
		case 0:
			s.Insert(arg)
		case 1:
			s.Remove(arg)
		case 2:
			x := s.Set()
			h.resp = atomic.AddInt64(clock, 1)
			st = w.state(c, x)
		default:
			b = s.Contains(arg)
		}
	})
	if h.resp == 0 {
		h.resp = atomic.AddInt64(clock, 1)
	}
	h.panicked = panicked
	if panicked {
		if op >= 2 {
			c.Failf("%s panicked: %v", h.what, why)
		}
		h.what += fmt.Sprintf(" (%v)", why)
		return
	}
	switch op {
	case 2:
		h.what = "Set() = " + w.show(st)
	case 3:
		h.what += fmt.Sprintf(" = %v", b)
	}
	h.apply = func(x uint64) (uint64, bool) {
		switch op {
		case 0:
			return x | bits, true
		case 1:
			return x &^ bits, true
		case 2:
			return x, x == st
		}
		return x, b == (bits&^x == 0)
	}
	return
}

func c21InjectSet(c *C) {
	w := newSetWorld(c)
	var clock int64
	for round := 0; round < 20; round++ {
		init := c.U64() & 255
		s := w.lib(init).Set_()
		var hist []hop
		type call struct {
			op   int
			bits uint64
			lib  S
		}
		var calls []call
		add := func(op int, bits uint64) { calls = append(calls, call{op, bits, w.lib(bits)}) }
		for j := c.In(1, 3); j > 0; j-- {
			add(c.N(4), c.U64()&c.U64()&255)
		}
		if c.P(1, 4) {
			calls = nil
			b := uint64(1) << uint(c.N(8))
			if init&b == 0 {
				add(0, b)
				add(1, b)
			} else {
				add(1, b)
				add(0, b)
			}
		}
		ran := 0
		var inject func()
		fire := func() {
			if f := inject; f != nil {
				inject = nil
				f()
			}
		}
		inject = func() {
			for _, x := range calls {
				hist = append(hist, w.run(c, s, &clock, x.op, x.bits, x.lib))
				ran++
			}
		}
		op, bits := c.N(2), c.U64()&c.U64()&255
		lib := w.lib(bits)
		arg := SI(lib)
		switch c.N(4) {
		case 0, 1:
			skip := c.N(2)
			setYield(func() {
				if skip > 0 {
					skip--
					return
				}
				fire()
			})
			c.Cover(Fam + " injected at the hook")
		case 2:
			arg = hookSet{lib, fire}
			c.Cover(Fam + " injected in SetI")
		default:
			inject = nil
		}
		h := w.run(c, s, &clock, op, bits, arg)
		setYield(nil)
		inject = nil
		if ran == 0 {
			if h.panicked {
				c.Failf("a lone writer panicked: %s", h.what)
			}
			c.Cover(Fam + " lone writers")
		} else {
			c.CoverN(Fam+" nested operations", ran)
		}
		hist = append(hist, h)
		hist = append(hist, w.run(c, s, &clock, 2, 0, nil))
		c.Op("%s", showHist(hist))
		judge(c, hist, init, w.show)
		bits = c.U64() & 255
		if h := w.run(c, s, &clock, c.N(2), bits, w.lib(bits)); h.panicked {
			c.Failf("a lone writer panicked after %s: %s", showHist(hist), h.what)
		}
	}
	c.Sample(func() string { return "operations inside of operations on sets over 8 blocks" })
}

// rendezvous makes modifications wait for one another, for a while, between
// reading the root and storing the new one.
func rendezvous(c *C) (done func()) {
	var inside int64
	spin := c.In(0, 400)
	kind := c.N(4)
	var n int64
	setYield(func() {
		switch kind {
		case 0:
			return
		case 1:
			runtime.Gosched()
			return
		case 2:
			if atomic.AddInt64(&n, 1)%3 == 0 {
				runtime.Gosched()
			}
			return
		}
		atomic.AddInt64(&inside, 1)
		for i := 0; i < spin && atomic.LoadInt64(&inside) < 2; i++ {
			if i%32 == 31 {
				runtime.Gosched()
			}
		}
		atomic.AddInt64(&inside, -1)
	})
	return func() { setYield(nil) }
}

func c21StressTable(c *C) {
	w := newTabWorld(c)
	t := ip.NewTable_[int]()
	w.fill(t)
	for i := range w.keys {
		if c.Bool() {
			t.Insert(mkK(w.keys[i]), c.N(3))
		}
	}
	init := w.state(c, t.Table())
	defer rendezvous(c)()
	var clock int64
	workers := c.In(2, 4)
	hists := make([][]hop, workers)
	hot := c.In(1, 7)
	var gd guard
	var start int32
	for g := 0; g < workers; g++ {
		g := g
		rc := c.Sub()
		t := t
		per := c.In(2, 5)
		gd.run(func() {
			atomic.AddInt32(&start, 1)
			for i := 0; atomic.LoadInt32(&start) < int32(workers) && i < 1e6; i++ {
				if i%64 == 63 {
					runtime.Gosched()
				}
			}
			for j := 0; j < per; j++ {
				i := rc.N(hot)
				hists[g] = append(hists[g], w.run(rc, t, &clock, rc.N(7), i, rc.N(4), mkK(w.keys[i])))
			}
		})
	}
	gd.wait()
	var all []hop
	for _, h := range hists {
		all = append(all, h...)
	}
	setYield(nil)
	all = append(all, w.run(c, t, &clock, 5, 0, 0, nil))
	judge(c, all, init, w.show)
	c.Sample(func() string { return showHist(all) })
}

func c21StressSet(c *C) {
	w := newSetWorld(c)
	init := c.U64() & 255
	s := w.lib(init).Set_()
	type call struct {
		op   int
		bits uint64
		lib  S
	}
	workers := c.In(2, 4)
	calls := make([][]call, workers)
	for g := range calls {
		for j := c.In(2, 5); j > 0; j-- {
			bits := c.U64() & c.U64() & 255
			calls[g] = append(calls[g], call{c.N(4), bits, w.lib(bits)})
		}
	}
	defer rendezvous(c)()
	var clock int64
	hists := make([][]hop, workers)
	var gd guard
	var start int32
	for g := 0; g < workers; g++ {
		g := g
		rc := c.Sub()
		s := s
		gd.run(func() {
			atomic.AddInt32(&start, 1)
			for i := 0; atomic.LoadInt32(&start) < int32(workers) && i < 1e6; i++ {
				if i%64 == 63 {
					runtime.Gosched()
				}
			}
			for _, x := range calls[g] {
				hists[g] = append(hists[g], w.run(rc, s, &clock, x.op, x.bits, x.lib))
			}
		})
	}
	gd.wait()
	var all []hop
	for _, h := range hists {
		all = append(all, h...)
	}
	setYield(nil)
	all = append(all, w.run(c, s, &clock, 2, 0, nil))
	judge(c, all, init, w.show)
	c.Sample(func() string { return showHist(all) })
}

// c21Conserve: every goroutine owns keys; what it did with them must stay
// done, whatever the others do.
func c21Conserve(c *C) {
	t := ip.NewTable_[int]()
	s := ip.NewSet_()
	defer rendezvous(c)()
	workers := c.In(2, 6)
	base := maxU.And(mask(W - 12))
	owned := make([]map[K]int, workers)
	inSet := make([]map[K]bool, workers)
	conflicts := make([]int, workers)
	var gd guard
	for g := 0; g < workers; g++ {
		g := g
		rc := c.Sub()
		owned[g] = map[K]int{}
		inSet[g] = map[K]bool{}
		gd.run(func() {
			for j := 0; j < 300; j++ {
				k := model.MkKey(W, base.Or(U{Lo: uint64(rc.N(500)*workers + g)}), W)
				p := mkK(k)
				old, had := owned[g][k]
				v := rc.N(1000)
				op := rc.N(6)
				for try := 0; ; try++ {
					if try > 1e6 {
						mon.Inconc("a modification never succeeded")
					}
					var b bool
					var x int
					_, panicked := mon.Panics(func() {
						switch op {
						case 0, 1:
							b = t.Insert(p, v)
						case 2:
							b = t.Update(p, v)
						case 3:
							x = t.GetOrInsert(p, v)
						case 4:
							b = t.Remove(p)
						default:
							if v%3 == 0 {
								s.Remove(p)
							} else {
								s.Insert(p)
							}
						}
					})
					if panicked {
						conflicts[g]++
						runtime.Gosched()
						continue
					}
					switch op {
					case 0, 1:
						if b == had {
							rc.Failf("Insert(%v) by the only goroutine using that key returned %v (had: %v)", p, b, had)
						}
						if !had {
							owned[g][k] = v
						}
					case 2:
						if b != had {
							rc.Failf("Update(%v) by the only goroutine using that key returned %v (had: %v)", p, b, had)
						}
						if had {
							owned[g][k] = v
						}
					case 3:
						if had && x != old || !had && x != v {
							rc.Failf("GetOrInsert(%v, %d) by the only goroutine using that key returned %d (had: %d, %v)", p, v, x, old, had)
						}
						if !had {
							owned[g][k] = v
						}
					case 4:
						if b != had {
							rc.Failf("Remove(%v) by the only goroutine using that key returned %v (had: %v)", p, b, had)
						}
						delete(owned[g], k)
					default:
						inSet[g][k] = v%3 != 0
						if s.Contains(p) != inSet[g][k] {
							rc.Failf("a Set_ lost the insertion or removal of %v", p)
						}
					}
					if got, ok := t.Get(p); op < 5 && (got != owned[g][k] || ok != func() bool { _, h := owned[g][k]; return h }()) {
						rc.Failf("a Table_ lost operation %d on %v", op, p)
					}
					break
				}
			}
		})
	}
	gd.wait()
	want := tm{}
	var wantS MS
	n := 0
	for g := range owned {
		for k, v := range owned[g] {
			want[k] = ent{v: v}
		}
		for k, in := range inSet[g] {
			if in {
				wantS = append(wantS, k.Iv(W))
			}
		}
		n += conflicts[g]
	}
	checkWalk(c, "after conflicting writers", t.Table(), want)
	if got := content(c, s.Set()); !got.Equal(model.Normalize(wantS)) {
		c.Failf("after conflicting writers a set has %s, want %s", showSet(got), showSet(model.Normalize(wantS)))
	}
	c.CoverN(Fam+" retried until done", 1)
	c.CoverN(Fam+" conflicts retried", n)
	c.Distinct(mon.NewHash().Str(Fam).I(c.Idx).I(len(want)))
	c.Sample(func() string { return fmt.Sprintf("%d goroutines, %d conflicts, %d entries", workers, n, len(want)) })
}

// hammer runs rounds of functions at about the same time: the first one at
// once, the others after a delay of their own (in spins).
func hammer(c *C, workers, rounds int, prepare func(round int) (fns []func(), delays []int, check func())) {
	var turn, left int64
	var fns []func()
	var delays []int
	var gd guard
	failed := make([]interface{}, workers)
	quit := func() { atomic.StoreInt64(&turn, 1<<40) }
	for g := 1; g < workers; g++ {
		g := g
		gd.run(func() {
			for seen := int64(0); ; {
				for i := 0; atomic.LoadInt64(&turn) == seen; i++ {
					if i%1024 == 1023 {
						runtime.Gosched()
					}
				}
				seen = atomic.LoadInt64(&turn)
				if seen >= 1<<40 {
					return
				}
				func() {
					defer atomic.AddInt64(&left, -1)
					defer func() { failed[g] = recover() }()
					spinFor(delays[g])
					fns[g]()
				}()
			}
		})
	}
	func() {
		defer gd.wait()
		defer quit()
		for r := 0; r < rounds; r++ {
			var check func()
			fns, delays, check = prepare(r)
			atomic.StoreInt64(&left, int64(workers-1))
			atomic.AddInt64(&turn, 1)
			spinFor(delays[0])
			fns[0]()
			for i := 0; atomic.LoadInt64(&left) > 0; i++ {
				if i%1024 == 1023 {
					runtime.Gosched()
				}
			}
			for _, f := range failed {
				if f != nil {
					panic(f)
				}
			}
			check()
		}
	}()
	c.CoverN(Fam+" hammered", rounds)
}

var spinSink int64

func spinFor(n int) {
	for i := 0; i < n; i++ {
		atomic.LoadInt64(&spinSink)
	}
}

// delaysFor picks how long each of the workers waits. most is what an
// operation takes, more or less, in spins.
func delaysFor(c *C, workers, most int) []int {
	d := make([]int, workers)
	for g := range d {
		if g > 0 || c.P(1, 3) {
			d[g] = c.N(logSize(c, 1, most) + 1)
		}
	}
	return d
}

// change picks a set of blocks to insert or remove: often all there are, or
// all the others.
func change(c *C, have uint64) uint64 {
	switch c.N(6) {
	case 0:
		return have
	case 1:
		return ^have & 255
	case 2:
		return 255
	case 3:
		return have & c.U64()
	case 4:
		return 1 << uint(c.N(8))
	}
	return c.U64() & c.U64() & 255
}

func fewBits(c *C) uint64 {
	switch c.N(4) {
	case 0:
		return 1 << uint(c.N(8))
	case 1:
		return c.U64() & c.U64() & c.U64() & 255
	case 2:
		return 3 << uint(2*c.N(4))
	}
	return c.U64() & 255
}

func c21HammerSet(c *C) {
	w := newSetWorld(c)
	for try := 0; try < 40 && c.Idx%4 == 0 && len(w.blk[0]) == 1; try++ {
		w = newSetWorld(c)
	}
	large := len(w.blk[0]) > 1
	rounds, most := 2500, 3000
	if large {
		rounds, most = 250, 400000
	}
	workers := c.In(2, 3)
	var subs []*C
	for g := 0; g < workers; g++ {
		subs = append(subs, c.Sub())
	}
	var clock int64
	var sample string
	hammer(c, workers, rounds, func(r int) (fns []func(), delays []int, check func()) {
		init := fewBits(c)
		s := w.lib(init).Set_()
		hists := make([][]hop, workers)
		for g := 0; g < workers; g++ {
			g := g
			type call struct {
				op   int
				bits uint64
				lib  S
			}
			var calls []call
			for n := 1 + c.N(2)*c.N(2); n > 0; n-- {
				op := c.N(2)
				if c.P(1, 8) {
					op = 2 + c.N(2)
				}
				bits := change(c, init)
				calls = append(calls, call{op, bits, w.lib(bits)})
			}
			s, rc := s, subs[g]
			fns = append(fns, func() {
				for _, x := range calls {
					hists[g] = append(hists[g], w.run(rc, s, &clock, x.op, x.bits, x.lib))
				}
			})
		}
		return fns, delaysFor(c, workers, most), func() {
			var all []hop
			for _, h := range hists {
				all = append(all, h...)
			}
			all = append(all, w.run(c, s, &clock, 2, 0, nil))
			judge(c, all, init, w.show)
			if r == rounds-1 {
				sample = showHist(all)
			}
		}
	})
	c.Sample(func() string { return sample })
}

func c21HammerTable(c *C) {
	w := newTabWorld(c)
	for try := 0; try < 40 && c.Idx%4 == 0 && w.more == nil; try++ {
		w = newTabWorld(c)
	}
	rounds, most := 2500, 3000
	if w.more != nil {
		rounds = 60
	}
	workers := c.In(2, 3)
	var subs []*C
	for g := 0; g < workers; g++ {
		subs = append(subs, c.Sub())
	}
	var clock int64
	var sample string
	var full T
	{
		t := ip.NewTable_[int]()
		w.fill(t)
		full = t.Table()
	}
	hammer(c, workers, rounds, func(r int) (fns []func(), delays []int, check func()) {
		t := full.Table_()
		for n := c.N(4); n > 0; n-- {
			t.Insert(mkK(w.keys[c.N(7)]), c.N(3))
		}
		init := w.state(c, t.Table())
		hists := make([][]hop, workers)
		hot := c.In(1, 7)
		for g := 0; g < workers; g++ {
			g := g
			type call struct{ op, i, v int }
			var calls []call
			for n := 1 + c.N(2)*c.N(2); n > 0; n-- {
				x := call{c.N(5), c.N(hot), c.N(4)}
				if c.P(1, 8) {
					x.op = 5 + c.N(2)
				}
				if v := w.get(init, x.i); v >= 0 && c.P(1, 3) {
					x.v = v
				}
				calls = append(calls, x)
			}
			t, rc := t, subs[g]
			fns = append(fns, func() {
				for _, x := range calls {
					hists[g] = append(hists[g], w.run(rc, t, &clock, x.op, x.i, x.v, mkK(w.keys[x.i])))
				}
			})
		}
		return fns, delaysFor(c, workers, most), func() {
			var all []hop
			for _, h := range hists {
				all = append(all, h...)
			}
			all = append(all, w.run(c, t, &clock, 5, 0, 0, nil))
			judge(c, all, init, w.show)
			if r == rounds-1 {
				sample = showHist(all)
			}
		}
	})
	c.Sample(func() string { return sample })
}
