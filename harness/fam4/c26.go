package fam4

import (
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strings"

	ip "gopkg.in/addrs.v1/ipv4"

	"verifharness/gen"
	"verifharness/model"
	"verifharness/mon"
)

func init() {
	mon.Rules["C26"] = "cases: random programs over the whole exported interface: every function and method is called by reflection with arguments from a pool of all values obtained so far (zero values, fresh ones, nil interfaces, host bits, out-of-range integers, mangled strings and slices, callbacks which stop early, call other methods and modify other sets and tables), results join the pool. Oracle: no panic (but a modification of a zero Set_ or Table_ must); every value obtained, also by callbacks, is well-formed (unless the documentation says to ignore it); fixed values, arguments and results obtained earlier read the same afterwards; the same call on the same fixed values gives the same result. Non-trivial: distinct (method, kinds of arguments, receiver content)."
	reg("C26", "programs", 1000, 40000, c26Programs)
	mon.Rules["C26"] += " Workload large: with sets and tables of up to 3,000 entries among the values."
	reg("C26", "large", 1200, 20000, c26Large).Fixed = true
	mon.Need["C26"] = append(mon.Need["C26"], Fam+" sets of more than 500 prefixes", Fam+" tables of more than 500 entries")
	for _, m := range c26Methods() {
		mon.Need["C26"] = append(mon.Need["C26"], Fam+" "+m.name)
	}
	mon.Need["C26"] = append(mon.Need["C26"], Fam+" calls in callbacks", Fam+" repeated calls", Fam+" repeated walks", Fam+" expected panics", Fam+" errors")
}

var c26Types = map[string]reflect.Type{
	"Address": reflect.TypeOf(A{}), "Mask": reflect.TypeOf(M{}), "Prefix": reflect.TypeOf(P{}), "Range": reflect.TypeOf(R{}),
	"Set": reflect.TypeOf(S{}), "Set_": reflect.TypeOf(S_{}), "Table": reflect.TypeOf(T{}), "Table_": reflect.TypeOf(T_{}),
}

// the interface as it is, not as reflection finds it: a build tag or a change
// may add methods which are not for users
var c26List = map[string]string{
	"Address": "NumBits Prefix Set String ToNetIP",
	"Mask":    "Length String ToNetIPMask",
	"Prefix":  "Address Contains Halves Host Length Mask Network NumPrefixes Prefix Range Set String ToNetIPNet",
	"Range":   "Contains First Last Minus NumPrefixes Plus Set String",
	"Set":     "Build Contains Difference Equal FindAvailablePrefix Intersection IsEmpty NumPrefixes Set Set_ String Union WalkPrefixes WalkRanges",
	"Set_":    "Contains Difference Equal Insert Intersection IsEmpty Remove Set Union",
	"Table":   "Aggregate Build Diff Get LongestMatch Map NumEntries Table_ Walk",
	"Table_":  "Get GetOrInsert Insert InsertOrUpdate LongestMatch NumEntries Remove Table Update",
}

type c26Method struct {
	name string
	recv reflect.Type // nil: a function
	fn   reflect.Value
	meth string
}

var c26Mutator = map[string]bool{"Insert": true, "Remove": true, "Update": true, "InsertOrUpdate": true, "GetOrInsert": true}

func c26Methods() (out []c26Method) {
	for t, l := range c26List {
		l += " " + pkgMethods[t]
		for _, m := range strings.Fields(l) {
			if _, ok := c26Types[t].MethodByName(m); ok {
				out = append(out, c26Method{name: t + "." + m, recv: c26Types[t], meth: m})
			}
		}
	}
	for n, f := range pkgFuncs {
		out = append(out, c26Method{name: n, fn: reflect.ValueOf(f)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return
}

var c26All = c26Methods()

// c26 is the state of one program.
type c26 struct {
	c     *C
	g     *gen.G
	pool  map[reflect.Type][]*c26Val
	depth int
	calls int
	kept  []*c26Val
	// reads what is shared, but does not modify it
	reader bool
	// the call being made
	cur     c26Method
	curRecv *c26Val
	// with large sets and tables among the values
	large bool
	// probe is searched again and again
	probe K
}

// c26Val is a value in the pool with what it said when it was obtained.
type c26Val struct {
	v    reflect.Value
	said string
	how  string
	cb   *c26Callback
	// shared with other goroutines; only one modifies it
	shared bool
}

// c26Callback remembers what a callback was called with and what it returned.
type c26Callback struct {
	args   []string
	ret    [][]reflect.Value
	replay bool
	at     int
}

func fixedType(t reflect.Type) bool {
	switch t {
	case c26Types["Set_"], c26Types["Table_"]:
		return false
	}
	return true
}

// describe renders all that a fixed value says.
func (x *c26) describe(v reflect.Value) string {
	switch i := v.Interface().(type) {
	case nil:
		return "nil"
	case A:
		return "address " + i.String()
	case M:
		return "mask " + i.String()
	case P:
		a, l := unP(i)
		return "prefix " + pstr(a, l)
	case R:
		return "range " + i.String()
	case S:
		return "set " + i.String()
	case S_:
		return "Set_ " + i.Set().String()
	case T:
		var b strings.Builder
		b.WriteString("table ")
		i.Walk(func(p P, v int) bool {
			a, l := unP(p)
			fmt.Fprintf(&b, "%s:%d ", pstr(a, l), v)
			return true
		})
		return b.String()
	case T_:
		return "Table_ " + x.describe(reflect.ValueOf(i.Table()))
	case []R:
		return fmt.Sprint("ranges ", i)
	case error:
		return "error"
	case wrapSet:
		return "SetI " + i.s.String()
	case wrapPrefix:
		return "PrefixI " + x.describe(reflect.ValueOf(i.p))
	case *net.IPNet:
		if i == nil {
			return "nil IPNet"
		}
		return fmt.Sprintf("IPNet %x/%x", []byte(i.IP), []byte(i.Mask))
	case net.IP:
		return fmt.Sprintf("IP %x", []byte(i))
	case net.IPMask:
		return fmt.Sprintf("IPMask %x", []byte(i))
	case string:
		return fmt.Sprintf("%q", i)
	}
	if v.Kind() == reflect.Func {
		if v.IsNil() {
			return "nil func"
		}
		return "func"
	}
	return fmt.Sprintf("%v", v.Interface())
}

// wellFormed checks what every value of a type must satisfy.
func (x *c26) wellFormed(v reflect.Value, how string) {
	c := x.c
	c.Eval(1)
	bad := func(f string, args ...interface{}) {
		c.Failf("%s gave %s: %s", how, x.describe(v), fmt.Sprintf(f, args...))
	}
	switch i := v.Interface().(type) {
	case A:
		if b, err := ip.AddressFromString(i.String()); err != nil || b != i {
			bad("parsing its string gives %v, %v", b, err)
		}
	case M:
		l := i.Length()
		if l < 0 || l > W || unM(i) != mask(l) {
			bad("not %d ones followed by zeros", l)
		}
		if m, err := ip.MaskFromLength(l); err != nil || m != i {
			bad("differs from the mask of length %d", l)
		}
	case P:
		if l := i.Length(); l < 0 || l > W || ip.PrefixFromAddressMask(i.Address(), i.Mask()) != i {
			bad("not the prefix of its address and mask")
		}
		x.wellFormed(reflect.ValueOf(i.Mask()), how+", its mask")
	case R:
		if unA(i.Last()).Less(unA(i.First())) {
			bad("ends before it begins")
		}
	case S:
		m := content(c, i)
		canonical(c, how, i, m)
		if i.IsEmpty() != (len(m) == 0) {
			bad("IsEmpty is wrong")
		}
		for _, iv := range m {
			if !i.Contains(mkR(iv.Lo, iv.Hi)) {
				bad("does not contain its range %v", mkR(iv.Lo, iv.Hi))
			}
			if iv.Lo != (U{}) && i.Contains(mkA(iv.Lo.Dec())) || iv.Hi != maxU && i.Contains(mkA(iv.Hi.Inc())) {
				bad("contains a neighbour of its range %v", mkR(iv.Lo, iv.Hi))
			}
		}
		if n, ok := setNumAddresses(i); ok && fmt.Sprint(n) != m.Size().String() {
			bad("%d addresses, not %v", n, m.Size())
		}
	case S_:
		x.wellFormed(reflect.ValueOf(i.Set()), how+".Set()")
	case T:
		var last K
		n := 0
		type hit struct {
			k K
			v int
		}
		var in, best *hit
		i.Walk(func(p P, v int) bool {
			k := keyOf(p)
			if k == x.probe {
				in = &hit{k, v}
			}
			if k.Contains(W, x.probe) && (best == nil || best.k.Len < k.Len) {
				best = &hit{k, v}
			}
			return true
		})
		if v, ok, q := i.LongestMatch(mkK(x.probe)); ok != (best != nil) || ok && (v != best.v || keyOf(q) != best.k) || !ok && v != 0 {
			bad("LongestMatch(%s) is %d, %v, %s; Walk says %+v", mkK(x.probe), v, ok, q, best)
		}
		if v, ok := i.Get(mkK(x.probe)); ok != (in != nil) || ok && v != in.v || !ok && v != 0 {
			bad("Get(%s) is %d, %v; Walk says %+v", mkK(x.probe), v, ok, in)
		}
		if v, ok, q := i.LongestMatch(mkK(x.probe)); ok != (best != nil) || ok && (v != best.v || keyOf(q) != best.k) || !ok && v != 0 {
			bad("LongestMatch(%s) is %d, %v, %s; Walk says %+v", mkK(x.probe), v, ok, q, best)
		}
		defer i.LongestMatch(mkK(x.probe))
		i.Walk(func(p P, v int) bool {
			k := keyOf(p)
			if n > 0 && !last.Less(k) {
				bad("%s does not come after the entry before it", p)
			}
			last = k
			n++
			if n < 30 || c.P(1, 8) {
				if w, ok := i.Get(mkK(k)); !ok || w != v {
					bad("Get(%s) is %d, %v; Walk says %d", p, w, ok, v)
				}
				if w, ok, q := i.LongestMatch(mkK(k)); !ok || w != v || keyOf(q) != k {
					bad("LongestMatch(%s) is %d, %v, %s; Walk says %d", p, w, ok, q, v)
				}
			}
			return true
		})
		if int64(n) != i.NumEntries() {
			bad("NumEntries is %d, Walk visits %d", i.NumEntries(), n)
		}
	case T_:
		x.wellFormed(reflect.ValueOf(i.Table()), how+".Table()")
	case []R:
		for j, r := range i {
			x.wellFormed(reflect.ValueOf(r), how)
			if j > 0 && (unA(i[j-1].Last()) == maxU || !unA(i[j-1].Last()).Inc().Less(unA(r.First()))) {
				bad("not ascending with gaps")
			}
		}
	case net.IP:
		if len(i) != W/8 {
			bad("%d bytes", len(i))
		}
	case net.IPMask:
		if len(i) != W/8 {
			bad("%d bytes", len(i))
		}
	case *net.IPNet:
		if i == nil || len(i.IP) != W/8 || len(i.Mask) != W/8 {
			bad("wrong sizes")
		}
	case error:
		if i.Error() == "" {
			bad("an error without a text")
		}
	}
}

// add puts a value into the pool.
func (x *c26) add(v reflect.Value, how string) {
	t := v.Type()
	known := false
	for _, k := range c26Types {
		known = known || k == t
	}
	if !known {
		// not the library's own: must stay what it is all the same
		switch v.Interface().(type) {
		case []R, net.IP, net.IPMask, *net.IPNet:
			x.kept = append(x.kept, &c26Val{v: v, how: how, said: x.describe(v)})
		}
		return
	}
	most := 100
	if x.large {
		most = 4000
	}
	switch i := v.Interface().(type) {
	case S:
		n := 0
		if !i.WalkPrefixes(func(P) bool { n++; return n < most*3/2 }) {
			return
		}
		if n > 500 {
			x.c.Cover(Fam + " sets of more than 500 prefixes")
		}
	case T:
		if i.NumEntries() > int64(most) {
			return
		}
		if i.NumEntries() > 500 {
			x.c.Cover(Fam + " tables of more than 500 entries")
		}
	}
	e := &c26Val{v: v, how: how}
	if fixedType(t) {
		e.said = x.describe(v)
	}
	if p := x.pool[t]; len(p) < 12 {
		x.pool[t] = append(p, e)
	} else {
		p[x.c.N(12)] = e
	}
}

func (x *c26) unchanged(e *c26Val, after string) {
	if !fixedType(e.v.Type()) {
		return
	}
	x.c.Eval(1)
	if now := x.describe(e.v); now != e.said {
		x.c.Failf("after %s, the value obtained by %s reads %s; it was %s", after, e.how, now, e.said)
	}
}

// fresh makes a new value of one of the library's types.
func (x *c26) fresh(t reflect.Type) (reflect.Value, string) {
	c, g := x.c, x.g
	switch t {
	case c26Types["Address"]:
		return reflect.ValueOf(mkA(g.Addr())), "address"
	case c26Types["Mask"]:
		return reflect.ValueOf(mkM(c.N(W + 1))), "mask"
	case c26Types["Prefix"]:
		u, l := g.Prefix()
		return reflect.ValueOf(mkP(u, l)), "prefix"
	case c26Types["Range"]:
		return reflect.ValueOf(mkR(g.Range())), "range"
	case c26Types["Set"]:
		if x.large && c.Bool() {
			return reflect.ValueOf(build(c, someSet(c, logSize(c, 60, 2000)))), "large set"
		}
		return reflect.ValueOf(build(c, randSet(g, 5))), "set"
	case c26Types["Set_"]:
		if c.Bool() {
			return reflect.ValueOf(ip.NewSet_()), "NewSet_"
		}
		if x.large && c.Bool() {
			return reflect.ValueOf(build(c, someSet(c, logSize(c, 60, 2000))).Set_()), "large Set_"
		}
		return reflect.ValueOf(build(c, randSet(g, 5)).Set_()), "Set_"
	case c26Types["Table"], c26Types["Table_"]:
		var t_ T_
		switch c.N(4) {
		case 0:
			t_ = ip.NewTableCustomCompare_(func(a, b int) bool { return a/2 == b/2 })
		default:
			t_ = ip.NewTable_[int]()
		}
		if c.P(1, 4) {
			// a ladder
			u := g.Addr()
			for l := c.N(W); l <= W && c.P(30, 31); l++ {
				t_.Insert(mkP(u, l), c.N(4))
			}
		}
		if x.large && c.Bool() {
			f := mixedShape(c)
			for i := logSize(c, 60, 3000); i > 0; i-- {
				t_.InsertOrUpdate(mkK(f(i)), c.N(4))
			}
		}
		for i := c.N(12); i > 0; i-- {
			k := g.Key()
			t_.InsertOrUpdate(mkK(k), c.N(4))
		}
		if t == c26Types["Table_"] {
			return reflect.ValueOf(t_), "Table_"
		}
		return reflect.ValueOf(t_.Table()), "Table"
	}
	panic("fresh " + t.String())
}

// value draws one of the library's types.
func (x *c26) value(t reflect.Type) *c26Val {
	c := x.c
	if c.P(1, 25) {
		e := &c26Val{v: reflect.Zero(t), how: "zero value"}
		e.said = x.describe(e.v)
		return e
	}
	if p := x.pool[t]; len(p) > 0 && !c.P(1, 12) {
		return p[c.N(len(p))]
	}
	v, how := x.fresh(t)
	x.add(v, how)
	e := &c26Val{v: v, how: how}
	e.said = x.describe(v)
	return e
}

var (
	typePI  = reflect.TypeOf((*PI)(nil)).Elem()
	typeSI  = reflect.TypeOf((*SI)(nil)).Elem()
	typeErr = reflect.TypeOf((*error)(nil)).Elem()
)

// arg draws an argument. det: the same argument passed again means the same.
func (x *c26) arg(t reflect.Type, nilable bool) (e *c26Val, det bool) {
	c, g := x.c, x.g
	lit := func(i interface{}) (*c26Val, bool) {
		v := reflect.ValueOf(i)
		if v.Type() != t {
			v = v.Convert(t)
		}
		e := &c26Val{v: v, how: "argument"}
		e.said = x.describe(v)
		return e, true
	}
	for _, k := range c26Types {
		if k == t {
			return x.value(t), fixedType(t)
		}
	}
	num := func(max int) int {
		switch c.N(8) {
		case 0:
			return []int{-1, -128, 256, 255, 1 << 20, -1 << 31, 1<<31 - 1, math.MaxInt>>1 + 25, W + 1, 2 * W}[c.N(10)]
		case 1:
			return []int{0, W, W - 1, 1, W / 2}[c.N(5)]
		}
		return c.N(max + 1)
	}
	bs := func() []byte {
		n := W / 8
		if c.P(1, 4) {
			n = c.N(40)
		}
		b := make([]byte, n)
		copy(b, bytesOf(g.Addr()))
		if c.P(1, 4) {
			copy(b, bytesOf(mask(c.N(W+1))))
		}
		return b
	}
	switch t {
	case typePI, typeSI:
		names := []string{"Address", "Prefix", "Prefix"}
		if t == typeSI {
			names = []string{"Address", "Prefix", "Range", "Set", "Set", "Set_"}
		}
		if c.P(1, 10) {
			return &c26Val{v: reflect.Zero(t), how: "nil", said: "nil"}, true
		}
		e := x.value(c26Types[names[c.N(len(names))]])
		det := fixedType(e.v.Type())
		if c.P(1, 8) {
			switch i := e.v.Interface().(type) {
			case P:
				if t == typePI {
					return &c26Val{v: reflect.ValueOf(wrapPrefix{i}), how: e.how, said: "PrefixI " + e.said}, det
				}
			case S:
				return &c26Val{v: reflect.ValueOf(wrapSet{i}), how: e.how, said: "SetI " + i.String()}, det
			}
		}
		return e, det
	case reflect.TypeOf(net.IP{}), reflect.TypeOf(net.IPMask{}), reflect.TypeOf([]byte{}):
		if c.P(1, 12) {
			return &c26Val{v: reflect.Zero(t), how: "nil", said: x.describe(reflect.Zero(t))}, true
		}
		return lit(bs())
	case reflect.TypeOf(&net.IPNet{}):
		switch c.N(12) {
		case 0:
			return lit((*net.IPNet)(nil))
		case 1:
			return lit(&net.IPNet{})
		}
		m := net.IPMask(bytesOf(mask(c.N(W + 1))))
		if c.P(1, 4) {
			m = bs()
		}
		return lit(&net.IPNet{IP: bs(), Mask: m})
	}
	switch t.Kind() {
	case reflect.String:
		names := []string{"Address", "Prefix", "Range", "Set"}
		s := fmt.Sprint(x.value(c26Types[names[c.N(len(names))]]).v.Interface())
		for c.P(1, 3) && len(s) > 0 {
			i := c.N(len(s))
			switch c.N(3) {
			case 0:
				s = s[:i] + s[i+1:]
			case 1:
				s = s[:i] + string("0123456789abcdef.:/%- "[c.N(22)]) + s[i:]
			case 2:
				s = s[:i]
			}
		}
		return lit(s)
	case reflect.Int:
		return lit(num(W))
	case reflect.Uint8:
		return lit(uint8(num(255)))
	case reflect.Uint16:
		return lit(uint16(num(65535)))
	case reflect.Uint32:
		if c.Bool() {
			return lit(uint32(num(W)))
		}
		return lit(uint32(g.Addr().Lo))
	case reflect.Uint64:
		if c.Bool() {
			return lit(g.Addr().Lo)
		}
		return lit(uint64(num(W)))
	case reflect.Func:
		if nilable && c.P(1, 4) {
			return &c26Val{v: reflect.Zero(t), how: "nil", said: "nil func"}, true
		}
		e := x.callback(t)
		return e, e.cb != nil
	}
	panic("no argument of type " + t.String())
}

// callback makes a function which checks what it is given, does other things,
// and stops sooner or later.
func (x *c26) callback(t reflect.Type) *c26Val {
	c := x.c
	m, recv := x.cur, x.curRecv
	stop := 1 + c.N(4)
	if c.Bool() {
		stop = 60 // enough for most; WalkAddresses must end
		if x.large && c.Bool() {
			stop = 5000
		}
	}
	n := 0
	cb := &c26Callback{}
	v := reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		if cb.replay {
			// the same call again: the same arguments, quietly
			s := x.describeAll(args)
			if cb.at >= len(cb.args) || cb.args[cb.at] != s {
				old := "no more"
				if cb.at < len(cb.args) {
					old = cb.args[cb.at]
				}
				x.c.Failf("call %d of a callback has %s; the first time (other calls were made inside) it was %s", cb.at, s, old)
			}
			cb.at++
			return cb.ret[cb.at-1]
		}
		if t.In(0) != c26Types["Set_"] && t.In(0) != c26Types["Table_"] {
			cb.args = append(cb.args, x.describeAll(args))
		}
		n++
		many := n > 100
		for i, a := range args {
			if many && !c.P(1, 50) {
				break
			}
			x.wellFormed(a, fmt.Sprintf("argument %d of a callback %v", i, t))
			x.add(a, "a callback")
		}
		if x.depth < 2 && c.P(1, 6) && (!many || c.P(1, 200)) {
			x.c.Cover(Fam + " calls in callbacks")
			if c.Bool() {
				x.call()
			} else {
				// of the same method, with the same receiver
				x.callMethod(m, recv)
			}
		}
		// a builder's object: change it
		if len(args) == 1 && x.depth < 3 {
			switch b := args[0].Interface().(type) {
			case S_:
				for i := c.N(5); i > 0; i-- {
					si, _, _ := operand(c, x.g, nil)
					if c.Bool() {
						b.Insert(si)
					} else {
						b.Remove(si)
					}
				}
			case T_:
				for i := c.N(5); i > 0; i-- {
					p, _ := keyArg(c, x.g.Key())
					if c.Bool() {
						b.InsertOrUpdate(p, c.N(4))
					} else {
						b.Remove(p)
					}
				}
			}
		}
		out := make([]reflect.Value, t.NumOut())
		for i := range out {
			switch t.Out(i).Kind() {
			case reflect.Bool:
				out[i] = reflect.ValueOf(n < stop)
			case reflect.Int:
				out[i] = reflect.ValueOf(c.N(4))
			default:
				panic("callback result " + t.Out(i).String())
			}
		}
		cb.ret = append(cb.ret, out)
		return out
	})
	e := &c26Val{v: v, how: "callback", said: "func"}
	if t.In(0) != c26Types["Set_"] && t.In(0) != c26Types["Table_"] {
		e.cb = cb
	}
	return e
}

// call does one random call.
func (x *c26) call() {
	c := x.c
	var m c26Method
	for {
		m = c26All[c.N(len(c26All))]
		if m.recv == nil && c.P(1, 2) {
			continue
		}
		break
	}
	var recv *c26Val
	if m.recv != nil {
		recv = x.value(m.recv)
		if recv.shared && x.reader && c26Mutator[m.meth] {
			return
		}
	}
	x.callMethod(m, recv)
}

func (x *c26) callMethod(m c26Method, recv *c26Val) {
	c := x.c
	x.depth++
	defer func() { x.depth-- }()
	x.calls++
	x.cur, x.curRecv = m, recv
	fn := m.fn
	det := true
	if m.recv != nil {
		fn = recv.v.MethodByName(m.meth)
		det = fixedType(m.recv)
	}
	ft := fn.Type()
	args := make([]reflect.Value, ft.NumIn())
	vals := make([]*c26Val, ft.NumIn())
	nilable := m.meth == "Map" || m.meth == "Diff"
	h := mon.NewHash().Str(Fam).Str(m.name)
	var desc []string
	for i := range args {
		e, d := x.arg(ft.In(i), nilable)
		det = det && d
		vals[i] = e
		args[i] = e.v
		s := e.said
		if s == "" {
			s = x.describe(e.v)
		}
		desc = append(desc, s)
	}
	what := m.name + "(" + strings.Join(desc, ", ") + ")"
	rs := ""
	if recv != nil {
		rs = recv.said
		if rs == "" {
			rs = x.describe(recv.v)
		}
		what += " of " + rs
	}
	if len(what) > 1500 {
		what = what[:1500] + "..."
	}
	c.Op("%*s%s", x.depth*2, "", what)
	mustPanic := recv != nil && !fixedType(m.recv) && c26Mutator[m.meth] && recv.v.IsZero()
	var res []reflect.Value
	pv, panicked := mon.Panics(func() { res = fn.Call(args) })
	c.Eval(1)
	if panicked != mustPanic {
		if panicked {
			c.Failf("%s panicked: %v", what, pv)
		}
		c.Failf("%s did not panic", what)
	}
	c.Cover(Fam + " " + m.name)
	for _, e := range vals {
		x.unchanged(e, what)
	}
	if recv != nil {
		x.unchanged(recv, what)
		if !fixedType(m.recv) {
			x.wellFormed(recv.v, "after "+what+" the receiver")
		}
	}
	if panicked {
		c.Cover(Fam + " expected panics")
		return
	}
	// what comes with an error, an empty range and the halves of a host route
	// must be ignored
	failed := m.name == "Prefix.Halves" && recv.v.Interface().(P).Length() == W
	for i, r := range res {
		if ft.Out(i) == typeErr && !r.IsNil() {
			failed = true
			c.Cover(Fam + " errors")
			x.wellFormed(r.Elem(), what)
		}
		if m.name == "RangeFromAddresses" && r.Kind() == reflect.Bool && r.Bool() {
			failed = true
		}
	}
	for i, r := range res {
		if failed || ft.Out(i) == typeErr {
			continue
		}
		x.wellFormed(r, what)
		h = h.Str(x.describe(r))
	}
	c.Distinct(h.Str(rs))
	// the same again
	hasCb := false
	for _, e := range vals {
		hasCb = hasCb || e.cb != nil
	}
	if det && !failed && (hasCb || c.P(1, 3)) {
		c.Cover(Fam + " repeated calls")
		for _, e := range vals {
			if e.cb != nil {
				e.cb.replay = true
				c.Cover(Fam + " repeated walks")
			}
		}
		again := fn.Call(args)
		for i := range res {
			a, b := x.say(res[i]), x.say(again[i])
			if a != b {
				c.Failf("%s gives %s the first time and %s the second time", what, a, b)
			}
		}
		for i, e := range vals {
			if e.cb != nil && e.cb.at != len(e.cb.args) {
				c.Failf("%s calls callback %d %d times; the first time (other calls were made inside) %d times", what, i, e.cb.at, len(e.cb.args))
			}
		}
	}
	if !failed {
		for _, r := range res {
			x.add(r, what)
		}
	}
}

func (x *c26) describeAll(vs []reflect.Value) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, x.describe(v))
	}
	return strings.Join(ss, ", ")
}

func (x *c26) say(v reflect.Value) string {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	return x.describe(v)
}

// end re-reads everything.
func (x *c26) end() {
	for _, t := range []string{"Address", "Mask", "Prefix", "Range", "Set", "Set_", "Table", "Table_"} {
		for _, e := range x.pool[c26Types[t]] {
			x.unchanged(e, "all calls")
			x.wellFormed(e.v, e.how+", at the end,")
		}
	}
	for _, e := range x.kept {
		x.unchanged(e, "all calls")
	}
}

// c20Programs: several programs at once. They share what another one made
// before; only one of them modifies the sets and tables among it.
func c20Programs(c *C) {
	defer yields(c)()
	x := &c26{c: c, g: gen.New(c.Rng, W), pool: map[reflect.Type][]*c26Val{}}
	for i := 0; i < 60; i++ {
		x.call()
	}
	for _, n := range []string{"Set_", "Table_"} {
		for len(x.pool[c26Types[n]]) < 3 {
			v, how := x.fresh(c26Types[n])
			x.add(v, how)
		}
		for _, e := range x.pool[c26Types[n]] {
			e.shared = true
		}
	}
	var gd guard
	var subs []*C
	for n, m := 0, c.In(3, 6); n < m; n++ {
		rc := c.Sub()
		subs = append(subs, rc)
		rg := *x.g
		rg.R = rc.Rng
		y := &c26{c: rc, g: &rg, pool: map[reflect.Type][]*c26Val{}, reader: n > 0}
		for t, p := range x.pool {
			y.pool[t] = append([]*c26Val(nil), p...)
		}
		gd.run(func() {
			for i := 0; i < 60; i++ {
				y.call()
			}
			y.end()
			y.c.CoverN(Fam+" reads", y.calls)
			y.c.Cover(Fam + " programs beside others")
		})
	}
	gd.wait()
	c.Join(subs...)
	x.end()
}

func c26Programs(c *C) {
	x := &c26{c: c, g: gen.New(c.Rng, W), pool: map[reflect.Type][]*c26Val{}}
	c.Op("universe %v", x.g)
	c26Run(x, 120)
}

func c26Large(c *C) {
	x := &c26{c: c, g: gen.New(c.Rng, W), pool: map[reflect.Type][]*c26Val{}, large: true}
	c.Op("universe %v", x.g)
	for _, t := range []string{"Set", "Set_", "Table", "Table_"} {
		for i := 0; i < 3; i++ {
			v, how := x.fresh(c26Types[t])
			x.add(v, how)
		}
	}
	c26Run(x, 50)
}

func c26Run(x *c26, n int) {
	c := x.c
	for i := 0; i < n; i++ {
		if i%15 == 0 {
			x.probe = x.g.Key()
			if p := x.pool[c26Types["Table"]]; len(p) > 0 && c.Bool() {
				n := 0
				p[c.N(len(p))].v.Interface().(T).Walk(func(p P, _ int) bool {
					x.probe = model.MkKey(W, unA(p.Address()).Or(gen.Rand(c.Rng, W).And(mask(p.Length()).Not())).And(maxU), c.In(p.Length(), W))
					n++
					return n < 5
				})
			}
		}
		x.call()
		// something else
		t := [...]string{"Set", "Table", "Prefix", "Range"}[c.N(4)]
		if p := x.pool[c26Types[t]]; len(p) > 0 {
			x.unchanged(p[c.N(len(p))], "later calls")
		}
	}
	x.end()
	c.Sample(func() string { return fmt.Sprintf("%v: %d calls", x.g, x.calls) })
}

var _ = model.Mask
