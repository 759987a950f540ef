package facade

import (
	"runtime"
	"sync"
	"sync/atomic"

	"verifharness/mon"
)

func init() {
	w := mon.Register("C20", "ip/together", 3, 60, together)
	w.Serial, w.Fresh = true, true
	mon.Need["C20"] = append(mon.Need["C20"], "ip functions called side by side")
}

// together calls the functions of the ip package in several goroutines, with
// the same arguments, from the start of a process.
func together(c *C) {
	n := c.In(2, 4)
	seed := c.U64()
	first := c.N(3)
	var ready int32
	var wg sync.WaitGroup
	fail := make([]interface{}, n)
	subs := make([]*C, n)
	for g := range subs {
		g := g
		rc := c.Sub()
		rc.Rng = mon.NewRng(seed)
		subs[g] = rc
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if fail[g] = recover(); fail[g] != nil {
					atomic.AddInt32(&ready, 1<<16) // nobody has to wait for this one
				}
			}()
			for part := 0; part < 3; part++ {
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(n*(part+1)) {
					runtime.Gosched()
				}
				switch (first + part) % 3 {
				case 0:
					values(rc)
				case 1:
					strs(rc)
				default:
					foreign(rc)
				}
			}
		}()
	}
	wg.Wait()
	for _, f := range fail {
		if f != nil {
			panic(f)
		}
	}
	c.Join(subs...)
	c.Cover("ip functions called side by side")
}
