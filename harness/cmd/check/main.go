// Command check runs the monitored workloads of one property under a
// supervisor, so that fatal errors, runaway memory and endless loops in the
// code under test are observed too and attributed to one case.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifharness/mon"
)

const (
	stallWall  = 150 * time.Second // a worker slot stuck this long is re-run alone
	oneCPU     = 90                // CPU seconds a single case may burn alone (normally far below 2)
	oneWall    = 600 * time.Second // beyond this: inconclusive
	workerRSS  = 14 << 30
	oneRSS     = 6 << 30
	quickWall  = 850 * time.Second
	thoroughMx = 4 * time.Hour
)

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: check run PROP | replay FILE | list")
	}
	switch os.Args[1] {
	case "list":
		for _, p := range mon.Props() {
			for _, w := range mon.Workloads(p) {
				fmt.Println(p, w.Name, w.Quick, w.Thorough)
			}
		}
	case "run":
		run(os.Args[2])
	case "worker":
		worker(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	default:
		die("unknown command")
	}
}

func env() (tier string, seed int64) {
	tier = os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	return
}

// shared progress slots

type slot struct{ wl, idx, seq int64 }
type slots [mon.Slots]slot

func (s *slots) Set(i, wl, idx int) {
	s[i].wl, s[i].idx = int64(wl), int64(idx)
	s[i].seq = (s[i].seq + 1) | 1 // odd: busy
}
func (s *slots) Clear(i int) { s[i].seq = (s[i].seq | 1) + 1 }

func mapSlots(f *os.File) *slots {
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("mmap: %v", err)
	}
	return (*slots)(unsafe.Pointer(&b[0]))
}

func raceFile() string { return fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACELOG"), os.Getpid()) }

func installRaceMonitor() {
	var off int64
	mon.After = func(c *mon.C) (string, bool) {
		f, err := os.Open(raceFile())
		if err != nil {
			return "", false
		}
		defer f.Close()
		st, err := f.Stat()
		if err != nil || st.Size() <= off {
			return "", false
		}
		b := make([]byte, st.Size()-off)
		f.ReadAt(b, off)
		off = st.Size()
		txt := string(b)
		if !strings.Contains(txt, "DATA RACE") {
			return "", false
		}
		if !strings.Contains(txt, "gopkg.in/addrs.v1/") {
			mon.Inconc("race report without library frames:\n%s", txt)
		}
		if len(txt) > 6000 {
			txt = txt[:6000] + "\n..."
		}
		return "data race reported by the race detector:\n" + txt, true
	}
}

func worker(a []string) {
	prop, tier, seedS, slotFile, out, only := a[0], a[1], a[2], a[3], a[4], a[5]
	seed, _ := strconv.ParseInt(seedS, 10, 64)
	f, err := os.OpenFile(slotFile, os.O_RDWR, 0)
	if err != nil {
		die("%v", err)
	}
	installRaceMonitor()
	mon.FreshRun = func(w *mon.Workload, idx int, tier string, seed int64) *mon.Vio {
		v, inc := runOne(filepath.Dir(slotFile), prop, w.Name, idx, tier, seed)
		if inc != "" {
			mon.Inconc("%s", inc)
		}
		return v
	}
	r := mon.RunAll(prop, tier, seed, only, mapSlots(f))
	writeJSON(out, r)
}

func one(a []string) {
	prop, wl, idxS, tier, seedS, out := a[0], a[1], a[2], a[3], a[4], a[5]
	idx, _ := strconv.Atoi(idxS)
	seed, _ := strconv.ParseInt(seedS, 10, 64)
	lim := syscall.Rlimit{Cur: oneCPU, Max: oneCPU + 5}
	syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
	installRaceMonitor()
	writeJSON(out, &mon.Result{Vio: mon.RunOne(prop, wl, idx, tier, seed)})
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		die("%v", err)
	}
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	fs := strings.Fields(string(b))
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(fs[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type outcome struct {
	why  string // "" if it ended by itself
	err  error
	log  string
	ps   *os.ProcessState
	wall time.Duration
}

// watch runs a child, ending it when it uses too much memory or time, or
// when stalled says so.
func watch(dir string, args []string, rssMax int64, wall time.Duration, stalled func() string) outcome {
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	logf, err := os.CreateTemp(dir, "log")
	if err != nil {
		die("%v", err)
	}
	defer logf.Close()
	cmd := exec.Command(exe, args...)
	cmd.Stdout, cmd.Stderr = logf, logf
	rl := filepath.Join(dir, "race")
	cmd.Env = append(os.Environ(), "VERIF_RACELOG="+rl,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+rl, "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := outcome{}
	for {
		select {
		case o.err = <-done:
			b, _ := os.ReadFile(logf.Name())
			if len(b) > 8000 {
				b = append(b[:6000:6000], append([]byte("\n...\n"), b[len(b)-1500:]...)...)
			}
			o.log, o.ps, o.wall = string(b), cmd.ProcessState, time.Since(start)
			return o
		case <-time.After(100 * time.Millisecond):
		}
		if o.why != "" {
			continue
		}
		if rss(cmd.Process.Pid) > rssMax {
			o.why = "memory"
		} else if time.Since(start) > wall {
			o.why = "wall"
		} else if stalled != nil {
			o.why = stalled()
		}
		if o.why != "" {
			cmd.Process.Kill()
		}
	}
}

func replayPath(v *mon.Vio) string {
	d := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(d, 0o755)
	return filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", v.Prop, strings.NewReplacer("/", "_", " ", "_").Replace(v.Workload), v.Idx))
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func report(v *mon.Vio) {
	p := replayPath(v)
	writeJSON(p, v)
	fmt.Printf("%s: %s (workload %s, case %d, seed %d)\n", v.Kind, v.Msg, v.Workload, v.Idx, v.Seed)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, p)
}

// runOne runs one case in a child and says what happened.
func runOne(dir, prop, wl string, idx int, tier string, seed int64) (v *mon.Vio, inconclusive string) {
	out := filepath.Join(dir, "one.json")
	os.Remove(out)
	o := watch(dir, []string{"one", prop, wl, strconv.Itoa(idx), tier, strconv.FormatInt(seed, 10), out}, oneRSS, oneWall, nil)
	mk := func(kind, msg string) *mon.Vio {
		return &mon.Vio{Prop: prop, Workload: wl, Idx: idx, Seed: seed, Tier: tier, Kind: kind, Msg: msg}
	}
	if o.why == "memory" {
		return mk("memory", fmt.Sprintf("the case used more than %d bytes of memory (cases normally need far less than 1 GB)", int64(oneRSS))), ""
	}
	if o.why == "wall" {
		return nil, "the case did not end and used no CPU"
	}
	if o.err != nil {
		if ws, ok := o.ps.Sys().(syscall.WaitStatus); ok && ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) {
			if cpu := o.ps.UserTime() + o.ps.SystemTime(); cpu >= (oneCPU-2)*time.Second {
				return mk("endless", fmt.Sprintf("the case does not end: alone, it used %v of CPU time", cpu)), ""
			}
			return nil, "killed: " + o.log
		}
		if strings.Contains(o.log, "SIGXCPU") {
			return mk("endless", "the case does not end\n"+o.log), ""
		}
		if strings.Contains(o.log, "fatal error:") || strings.Contains(o.log, "panic:") || strings.Contains(o.log, "goroutine ") {
			if strings.Contains(o.log, "mon.Inconclusive") {
				return nil, o.log
			}
			return mk("crash", "the process died: "+o.log), ""
		}
		return nil, o.err.Error() + ": " + o.log
	}
	var r mon.Result
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		return nil, err.Error()
	}
	return r.Vio, ""
}

func run(prop string) {
	tier, seed := env()
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		die("%v", err)
	}
	code := runIn(dir, prop, tier, seed, start)
	os.RemoveAll(dir)
	os.Exit(code)
}

func runIn(dir, prop, tier string, seed int64, start time.Time) int {
	wls := mon.Workloads(prop)
	if len(wls) == 0 {
		die("no workloads for %s", prop)
	}
	sf, err := os.Create(filepath.Join(dir, "slots"))
	if err != nil {
		die("%v", err)
	}
	sf.Truncate(4096)
	sl := mapSlots(sf)
	var last slots
	var since [mon.Slots]time.Time
	stalled := func() string {
		now := time.Now()
		for i := range sl {
			if sl[i].seq != last[i].seq || sl[i].seq&1 == 0 {
				last[i] = sl[i]
				since[i] = now
			} else if now.Sub(since[i]) > stallWall {
				return "stall"
			}
		}
		return ""
	}
	wall := quickWall
	if tier == "thorough" {
		wall = thoroughMx
	}
	only := os.Getenv("VERIF_ONLY") // development only: run some workloads
	out := filepath.Join(dir, "result.json")
	o := watch(dir, []string{"worker", prop, tier, strconv.FormatInt(seed, 10), sf.Name(), out, only}, workerRSS, wall, stalled)
	if o.err != nil || o.why != "" {
		// which case was it?
		cpl := 0
		var incs []string
		if o.why != "wall" {
			for i := range sl {
				if sl[i].seq&1 == 0 || sl[i].wl < 0 || int(sl[i].wl) >= len(wls) {
					continue
				}
				cpl++
				v, inc := runOne(dir, prop, wls[sl[i].wl].Name, int(sl[i].idx), tier, seed)
				if v != nil {
					evidence(prop, tier, seed, start, &mon.Result{Vio: v, Evals: 1})
					report(v)
					return 1
				}
				if inc != "" {
					incs = append(incs, inc)
				}
			}
		}
		fmt.Fprintf(os.Stderr, "check: inconclusive: the worker ended (%v %s) and none of %d cases under way does it again: %v\n%s\n", o.err, o.why, cpl, incs, o.log)
		return 2
	}
	var r mon.Result
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		die("%v\n%s", err, o.log)
	}
	if r.Inconc != "" {
		die("inconclusive: %s", r.Inconc)
	}
	evidence(prop, tier, seed, start, &r)
	if r.Vio != nil {
		report(r.Vio)
		return 1
	}
	if only == "" {
		for _, w := range wls {
			if r.PerWL[w.Name] != int64(w.N(tier)) {
				die("workload %s ran %d of %d cases", w.Name, r.PerWL[w.Name], w.N(tier))
			}
		}
		for _, k := range mon.Need[prop] {
			if r.Cover[k] == 0 {
				die("inconclusive: %q was never observed", k)
			}
		}
		if r.Evals == 0 || r.Distinct == 0 {
			die("inconclusive: nothing was observed")
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n", prop, tier, seed, r.Cases, r.Evals, r.Distinct, time.Since(start).Seconds())
	return 0
}

func evidence(prop, tier string, seed int64, start time.Time, r *mon.Result) {
	var samples []string
	var ks []string
	for k := range r.Samples {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		samples = append(samples, k+": "+r.Samples[k])
	}
	if r.Vio != nil {
		samples = append(samples, "VIOLATION: "+r.Vio.Msg)
	}
	if samples == nil {
		samples = []string{}
	}
	nv := 0
	if r.Vio != nil {
		nv = 1
	}
	e := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         r.Evals,
			"distinct_nontrivial": r.Distinct,
			"rule":                mon.Rules[prop],
			"samples":             samples,
			"cases_per_workload":  r.PerWL,
			"observed":            r.Cover,
		},
		"assumptions": append([]string{"PRNG-determined cases: held on the executions observed, not proved"}, mon.Assume[prop]...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nv,
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	writeJSON(filepath.Join(verifDir(), "evidence", prop+".json"), e)
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var v mon.Vio
	if err := json.Unmarshal(b, &v); err != nil {
		die("%v", err)
	}
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		die("%v", err)
	}
	got, inc := runOne(dir, v.Prop, v.Workload, v.Idx, v.Tier, v.Seed)
	os.RemoveAll(dir)
	if inc != "" {
		die("inconclusive: %s", inc)
	}
	if got == nil {
		fmt.Println("the case holds now")
		return
	}
	for _, l := range got.Trace {
		fmt.Println(l)
	}
	report(got)
	os.Exit(1)
}
