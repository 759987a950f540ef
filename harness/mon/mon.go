// Package mon runs monitored workloads: numbered, PRNG-determined cases whose
// executions are observed by oracles. It knows nothing about the library.
package mon

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Workload is a numbered list of cases.
type Workload struct {
	Prop, Name      string
	Quick, Thorough int
	// Serial workloads run one case at a time with nothing else running
	// (allocation counters, race detector attribution).
	Serial bool
	// Fixed workloads are not multiplied by Scale.
	Fixed bool
	Run   func(c *C)
	// Fresh: every case runs in a new process (and once more in this one, for
	// counting), so that it meets what happens at the first use of anything.
	Fresh bool
}

// Rules holds, per property, how cases are made and what is non-trivial.
var Rules = map[string]string{}

// Assume holds, per property, what the verdict trusts.
var Assume = map[string][]string{}

// Need holds, per property, coverage keys which must have been observed in a
// run for its silence to mean anything.
var Need = map[string][]string{}

var workloads []*Workload

func Register(prop, name string, quick, thorough int, run func(c *C)) *Workload {
	w := &Workload{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Run: run}
	workloads = append(workloads, w)
	return w
}

func Props() []string {
	m := map[string]bool{}
	for _, w := range workloads {
		m[w.Prop] = true
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Workloads of one property, sorted by name.
func Workloads(prop string) []*Workload {
	var out []*Workload
	for _, w := range workloads {
		if w.Prop == prop {
			out = append(out, w)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Scale multiplies the numbers of cases of a property's workloads: in a quick
// check, so that it takes some tens of seconds, and in a thorough one.
// Workloads with as many quick as thorough cases are exhaustive and stay as
// they are.
var Scale = map[string][2]int{
	"C01": {12, 2}, "C02": {15, 3}, "C03": {150, 25}, "C04": {12, 2}, "C05": {24, 4}, "C06": {16, 3},
	"C07": {300, 25}, "C08": {500, 25}, "C09": {200, 25}, "C10": {30, 5}, "C11": {60, 10}, "C12": {75, 13},
	"C13": {20, 4}, "C15": {24, 5}, "C16": {40, 8}, "C17": {36, 6}, "C18": {35, 5}, "C19": {35, 6},
	"C20": {6, 3}, "C21": {10, 3}, "C22": {40, 8}, "C24": {8, 2}, "C26": {40, 8}, "C27": {16, 3},
}

func (w *Workload) N(tier string) int {
	k, more := Scale[w.Prop]
	if !more || w.Fixed || w.Quick == w.Thorough {
		k = [2]int{1, 1}
	}
	n := w.Thorough * k[1]
	if tier == "thorough" {
		return n
	}
	if w.Quick*k[0] < n {
		return w.Quick * k[0]
	}
	return n
}

// acc accumulates what one runner goroutine observed.
type acc struct {
	evals    int64
	distinct map[uint64]struct{}
	cover    map[string]int64
	samples  map[string]string
	cases    int64
}

func newAcc() *acc {
	return &acc{distinct: map[uint64]struct{}{}, cover: map[string]int64{}, samples: map[string]string{}}
}

func (a *acc) merge(b *acc) {
	a.evals += b.evals
	a.cases += b.cases
	for k := range b.distinct {
		a.distinct[k] = struct{}{}
	}
	for k, v := range b.cover {
		a.cover[k] += v
	}
	for k, v := range b.samples {
		if _, ok := a.samples[k]; !ok {
			a.samples[k] = v
		}
	}
}

// C is one case.
type C struct {
	*Rng
	W      *Workload
	Idx    int
	Tier   string
	Seed   int64
	a      *acc
	trace  bool
	lines  []string
	Serial bool
	// Fixed workloads are not multiplied by Scale.
	Fixed bool
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

type violation struct{ msg string }

// Failf reports a violation of the property and ends the case.
func (c *C) Failf(format string, args ...interface{}) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Eval counts oracle evaluations.
func (c *C) Eval(n int) { c.a.evals += int64(n) }

// Distinct records the hash of a non-trivial observed input.
func (c *C) Distinct(h Hash) {
	if len(c.a.distinct) < maxDistinct {
		c.a.distinct[uint64(h)] = struct{}{}
	}
}

// maxDistinct bounds the memory for counting; beyond it the count is a lower
// bound.
const maxDistinct = 2000000

// Cover counts an observed situation.
func (c *C) Cover(key string) { c.a.cover[key]++ }

func (c *C) CoverN(key string, n int) { c.a.cover[key] += int64(n) }

// Tracing says whether this is a traced re-run.
func (c *C) Tracing() bool { return c.trace }

// Op adds a line to the trace of a traced re-run.
func (c *C) Op(format string, args ...interface{}) {
	if c.trace {
		if len(c.lines) < 20000 {
			c.lines = append(c.lines, fmt.Sprintf(format, args...))
		}
	}
}

// Sample records an actual case, once per workload and case number below 2.
func (c *C) Sample(f func() string) {
	if c.Idx < 2 {
		k := fmt.Sprintf("%s#%d", c.W.Name, c.Idx)
		if _, ok := c.a.samples[k]; !ok {
			s := f()
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			c.a.samples[k] = s
		}
	}
}

// Sub makes a private case for use by another goroutine: own randomness, own
// counters, to be given back with Join.
func (c *C) Sub() *C {
	return &C{Rng: NewRng(c.U64()), W: c.W, Idx: c.Idx, Tier: c.Tier, Seed: c.Seed, a: newAcc()}
}

// Join merges what private cases counted.
func (c *C) Join(subs ...*C) {
	for _, s := range subs {
		c.a.merge(s.a)
	}
}

// Panics runs f and returns what it panicked with.
func Panics(f func()) (v interface{}, panicked bool) {
	defer func() {
		if panicked {
			v = recover()
			if vv, ok := v.(violation); ok {
				panic(vv)
			}
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

// IsViolation says whether a panic is one of Failf.
func IsViolation(v interface{}) bool {
	_, ok := v.(violation)
	return ok
}

// Vio describes a violation.
type Vio struct {
	Prop     string   `json:"property"`
	Workload string   `json:"workload"`
	Idx      int      `json:"case"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

// FreshRun runs a case in a process of its own.
var FreshRun func(w *Workload, idx int, tier string, seed int64) *Vio

// After is called after every case of a serial workload; it may return a
// violation (race detector logs).
var After func(c *C) (string, bool)

func runCase(w *Workload, idx int, tier string, seed int64, a *acc, trace bool) (v *Vio) {
	h := NewHash().U(uint64(seed)).Str(w.Prop).Str(w.Name).I(idx)
	c := &C{Rng: NewRng(uint64(h)), W: w, Idx: idx, Tier: tier, Seed: seed, a: a, trace: trace}
	done := false
	mk := func(kind, msg string) {
		v = &Vio{Prop: w.Prop, Workload: w.Name, Idx: idx, Seed: seed, Tier: tier, Kind: kind, Msg: msg, Trace: c.lines}
	}
	defer func() {
		if !done {
			switch r := recover().(type) {
			case violation:
				mk("oracle", r.msg)
			case Inconclusive:
				panic(r)
			default:
				mk("panic", fmt.Sprintf("unexpected panic: %v\n%s", r, debug.Stack()))
			}
		}
		if v == nil && w.Serial && After != nil {
			if msg, bad := After(c); bad {
				mk("race", msg)
			}
		}
	}()
	if w.Fresh && FreshRun != nil {
		if v := FreshRun(w, idx, tier, seed); v != nil {
			a.cases++
			done = true
			return v
		}
	}
	w.Run(c)
	a.cases++
	done = true
	return nil
}

// Inconclusive is panicked by workloads which cannot decide; it makes the
// check end with an error, not a verdict.
type Inconclusive string

func Inconc(format string, args ...interface{}) { panic(Inconclusive(fmt.Sprintf(format, args...))) }

// Progress receives (slot, workload index, case) for crash attribution.
type Progress interface {
	Set(slot, wl, idx int)
	Clear(slot int)
}

type Result struct {
	Evals    int64
	Distinct int64
	Cases    int64
	Cover    map[string]int64
	Samples  map[string]string
	PerWL    map[string]int64
	Vio      *Vio
	Inconc   string
}

const Slots = 8

// RunAll runs every case of a property.
func RunAll(prop, tier string, seed int64, only string, pr Progress) *Result {
	wls := Workloads(prop)
	total := newAcc()
	perWL := map[string]int64{}
	var vio *Vio
	var inconc string
	var mu sync.Mutex
	for wi, w := range wls {
		if only != "" && !strings.Contains(w.Name, only) {
			continue
		}
		n := w.N(tier)
		procs := runtime.GOMAXPROCS(0)
		if procs > Slots {
			procs = Slots
		}
		if w.Serial {
			procs = 1
		}
		var next int64 = -1
		var stop int32
		var wg sync.WaitGroup
		before := total.cases
		for s := 0; s < procs; s++ {
			wg.Add(1)
			go func(slot int) {
				defer wg.Done()
				a := newAcc()
				defer func() {
					r := recover()
					mu.Lock()
					if ic, ok := r.(Inconclusive); ok {
						inconc = string(ic)
						atomic.StoreInt32(&stop, 1)
						r = nil
					}
					total.merge(a)
					mu.Unlock()
					if r != nil {
						panic(r)
					}
				}()
				for atomic.LoadInt32(&stop) == 0 {
					i := int(atomic.AddInt64(&next, 1))
					if i >= n {
						break
					}
					pr.Set(slot, wi, i)
					v := runCase(w, i, tier, seed, a, false)
					pr.Clear(slot)
					if v != nil {
						atomic.StoreInt32(&stop, 1)
						mu.Lock()
						if vio == nil || v.Idx < vio.Idx {
							vio = v
						}
						mu.Unlock()
					}
				}
			}(s)
		}
		wg.Wait()
		perWL[w.Name] = total.cases - before
		if vio != nil || inconc != "" {
			break
		}
	}
	if vio != nil {
		// again, with a trace
		if t := RunOne(prop, vio.Workload, vio.Idx, tier, seed); t != nil {
			vio = t
		} else {
			vio.Trace = append(vio.Trace, "(a traced re-run of this case did not violate: the violation depends on the schedule)")
		}
	}
	return &Result{Evals: total.evals, Distinct: int64(len(total.distinct)), Cases: total.cases,
		Cover: total.cover, Samples: total.samples, PerWL: perWL, Vio: vio, Inconc: inconc}
}

// RunOne runs a single case with tracing.
func RunOne(prop, wl string, idx int, tier string, seed int64) *Vio {
	for _, w := range Workloads(prop) {
		if w.Name == wl {
			return runCase(w, idx, tier, seed, newAcc(), true)
		}
	}
	fmt.Fprintf(os.Stderr, "no workload %s of %s\n", wl, prop)
	os.Exit(2)
	return nil
}
