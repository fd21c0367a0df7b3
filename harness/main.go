package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"go.dedis.ch/onet/v3/log"
)

func main() {
	if len(os.Args) == 2 && os.Args[1] == "probe" {
		if !loopbackUp() {
			os.Exit(1)
		}
		os.Exit(0)
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: harness run|worker|list ID [flags]")
		os.Exit(2)
	}
	mode, id := os.Args[1], os.Args[2]
	c := checks[id]
	if c == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	list := fs.String("cases", "", "worker: comma separated case indices")
	only := fs.String("only", "", "run only cases whose name contains this")
	out := fs.String("evidence", "", "")
	replayDir := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	dir := fs.String("dir", "", "scratch directory")
	verbose := fs.Bool("v", false, "")
	budget := fs.Float64("budget", 0, "wall seconds after which no further case is started")
	fs.Parse(os.Args[3:])

	switch mode {
	case "list":
		for i, cs := range c.Cases(*tier, *seed) {
			fmt.Println(i, cs.Name, cs.Cost)
		}
	case "worker":
		evOut = os.NewFile(3, "events")
		log.SetDebugVisible(0)
		if os.Getenv("VERIF_NETNS") != "" {
			ownNet = loopbackUp()
		}
		cases := c.Cases(*tier, *seed)
		for _, s := range strings.Split(*list, ",") {
			i, _ := strconv.Atoi(s)
			runCase(&cases[i], i, *tier, *seed, *dir)
		}
		emit(Ev{E: "end"})
		os.Exit(0)
	case "run":
		os.Exit(drive(c, *tier, *seed, *only, *out, *replayDir, *known, *dir, *verbose, *budget))
	}
}

type viol struct {
	I        int
	Key, Msg string
}

type driver struct {
	c          *Check
	tier       string
	seed       int64
	cases      []Case
	dir        string
	mu         sync.Mutex
	counts     map[string]int64
	seen       map[string]map[string]bool
	samples    []string
	viols      []viol
	done       int
	fatal      int // hangs and crashes
	retried    int
	deadline   time.Time
	truncated  bool
	verbose    bool
	knownKeys  map[string]string
	groups     map[int]bool // process groups of the running workers
	raceLogs   []string
	repl       string
	incomplete int
	nworkers   int
}

func drive(c *Check, tier string, seed int64, only, out, replayDir, known, dir string, verbose bool, budget float64) int {
	start := time.Now()
	d := &driver{c: c, groups: map[int]bool{}, tier: tier, seed: seed, dir: dir, counts: map[string]int64{}, seen: map[string]map[string]bool{}, verbose: verbose, knownKeys: map[string]string{}, repl: replayDir}
	d.cases = c.Cases(tier, seed)
	names := map[string]bool{}
	for _, cs := range d.cases {
		if names[cs.Name] {
			fmt.Println("duplicate case name", cs.Name)
			return 2
		}
		names[cs.Name] = true
	}
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 5000
		}
	}
	d.deadline = start.Add(time.Duration(budget * float64(time.Second)))
	d.loadKnown(known)
	nw := c.Workers
	if nw == 0 {
		nw = 8
	}
	var sel []Case
	var selIdx []int
	for i, cs := range d.cases {
		if only == "" || strings.Contains(cs.Name, only) {
			sel = append(sel, cs)
			selIdx = append(selIdx, i)
		}
	}
	if nw > len(sel) {
		nw = len(sel)
	}
	d.nworkers = nw
	var wg sync.WaitGroup
	for w, sh := range shards(sel, nw) {
		var list []int
		for _, k := range sh {
			list = append(list, selIdx[k])
		}
		wg.Add(1)
		go func(w int, list []int) {
			defer wg.Done()
			d.worker(w, list)
		}(w, list)
	}
	wg.Wait()
	return d.finish(out, replayDir, time.Since(start).Seconds(), len(sel))
}

func (d *driver) loadKnown(path string) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || f[1] != "property="+d.c.ID || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		d.knownKeys[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
}

func (d *driver) addViol(v viol) {
	d.mu.Lock()
	d.viols = append(d.viols, v)
	d.mu.Unlock()
	if _, known := d.knownKeys[v.Key]; !known && os.Getenv("VERIF_FAILFAST") != "" { // for campaigns only
		fmt.Printf("VIOLATION property=%s replay=none %s\n", d.c.ID, v.Key)
		d.mu.Lock()
		for pid := range d.groups {
			syscall.Kill(-pid, syscall.SIGKILL)
		}
		os.Exit(1)
	}
	if d.verbose {
		fmt.Println("  viol", v.Key, trim(v.Msg, 1500))
	}
}

func (d *driver) stop() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.fatal >= 3 {
		d.truncated = true
		return true
	}
	if time.Now().After(d.deadline) {
		d.truncated = true
		return true
	}
	return false
}

// worker runs the listed cases in worker processes, restarting after crashes.
func (d *driver) worker(w int, list []int) {
	retries := map[int]int{}
	for len(list) > 0 {
		if d.stop() {
			return
		}
		// split at cases that want a fresh process
		n := 1
		if !d.cases[list[0]].Fresh {
			for n < len(list) && !d.cases[list[n]].Fresh {
				n++
			}
		}
		batch := list[:n]
		doneN, status, cur, tail := d.batch(w, batch)
		rest := append([]int{}, list[doneN:]...)
		switch status {
		case "ok":
		case "killed":
			// ended from outside (memory guard): not a verdict; retry once
			d.mu.Lock()
			d.retried++
			d.mu.Unlock()
			if cur >= 0 {
				retries[cur]++
				if retries[cur] > 1 {
					d.mu.Lock()
					d.incomplete++
					d.mu.Unlock()
					rest = rest[1:]
				}
			}
		case "budget":
			return
		default: // crash, hang, livelock
			d.mu.Lock()
			d.fatal++
			d.mu.Unlock()
			if cur >= 0 {
				d.addViol(viol{cur, status, d.cases[cur].Name + ": worker " + status + "\n" + tail})
				rest = rest[1:]
			} else {
				d.addViol(viol{batch[0], status, "worker " + status + " outside any case\n" + tail})
				return
			}
		}
		list = rest
	}
}

func (d *driver) batch(w int, batch []int) (doneN int, status string, cur int, tail string) {
	cur = -1
	var ss []string
	for _, i := range batch {
		ss = append(ss, strconv.Itoa(i))
	}
	wdir, err := ioutil.TempDir(d.dir, fmt.Sprintf("w%d-", w))
	if err != nil {
		return 0, "crash", -1, err.Error()
	}
	defer os.RemoveAll(wdir)
	cmd := exec.Command(os.Args[0], "worker", d.c.ID, "-tier", d.tier, "-seed", fmt.Sprint(d.seed), "-cases", strings.Join(ss, ","), "-dir", wdir)
	cmd.Dir = wdir
	logf, _ := os.Create(filepath.Join(wdir, "worker.log"))
	defer logf.Close()
	cmd.Stdout, cmd.Stderr = logf, logf
	pr, pw, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{pw}
	attr := &syscall.SysProcAttr{Setpgid: true}
	netEnv := "VERIF_NETNS="
	if d.c.NetNS && netNSWorks() {
		netEnv += "1"
		addNetNS(attr)
		d.mu.Lock()
		d.counts["workers_with_own_loopback"]++
		d.mu.Unlock()
	}
	cmd.SysProcAttr = attr
	racePath := filepath.Join(wdir, "race")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", netEnv, "TMPDIR="+wdir, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+racePath)
	if err := cmd.Start(); err != nil {
		return 0, "crash", -1, err.Error()
	}
	pw.Close()
	d.mu.Lock()
	d.groups[cmd.Process.Pid] = true
	d.mu.Unlock()
	defer func() {
		d.mu.Lock()
		delete(d.groups, cmd.Process.Pid)
		d.mu.Unlock()
	}()
	evs := make(chan Ev, 1000)
	go func() {
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			var e Ev
			if json.Unmarshal(sc.Bytes(), &e) == nil {
				evs <- e
			}
		}
		close(evs)
	}()
	ended := false
	hang := ""
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	var cpuAtStart, lastCPU, stallBase float64
	stallTicks, runTicks := 0, 0
loop:
	for {
		select {
		case e, ok := <-evs:
			if !ok {
				break loop
			}
			d.mu.Lock()
			switch e.E {
			case "start":
				cur = e.I
				cpuAtStart = groupCPU(cmd.Process.Pid)
				if d.verbose {
					fmt.Printf("[%d] start %s\n", w, e.Msg)
				}
			case "done":
				cur = -1
				doneN++
				d.done++
			case "viol":
				d.mu.Unlock()
				d.addViol(viol{e.I, e.Key, e.Msg})
				d.mu.Lock()
			case "count":
				d.counts[e.Key] += e.N
			case "seen":
				if d.seen[e.Key] == nil {
					d.seen[e.Key] = map[string]bool{}
				}
				for _, v := range e.Vals {
					d.seen[e.Key][v] = true
				}
			case "sample":
				if len(d.samples) < 12 {
					d.samples = append(d.samples, trim(e.Msg, 600))
				}
			case "end":
				ended = true
			}
			d.mu.Unlock()
			stallTicks, runTicks = 0, 0
			stallBase = groupCPU(cmd.Process.Pid)
		case <-tick.C:
			cpu := groupCPU(cmd.Process.Pid)
			if cpu-lastCPU > 0.05 && cpu-lastCPU < 0 {
				_ = cpu
			}
			lastCPU = cpu
			stallTicks++
			if groupRunnable(cmd.Process.Pid) {
				runTicks++
			}
			if cpu-stallBase > 1.0 {
				stallTicks, runTicks = 0, 0
				stallBase = cpu
			}
			if hang == "" && stallTicks >= 45 && runTicks <= 12 {
				hang = "hang"
			}
			maxCPU := 400.0
			if cur >= 0 && d.cases[cur].MaxCPU > 0 {
				maxCPU = d.cases[cur].MaxCPU
			}
			if hang == "" && cur >= 0 && cpu-cpuAtStart > maxCPU {
				hang = "livelock"
			}
			if hang == "" && time.Now().After(d.deadline) {
				hang = "budget"
			}
			if hang != "" {
				if hang != "budget" {
					syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
					time.Sleep(1500 * time.Millisecond)
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				// drain
				for range evs {
				}
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	err = cmd.Wait()
	pr.Close()
	races, _ := filepath.Glob(racePath + "*")
	for _, r := range races {
		if b, err := ioutil.ReadFile(r); err == nil {
			d.mu.Lock()
			d.raceLogs = append(d.raceLogs, string(b))
			d.mu.Unlock()
		}
	}
	tail = logTail(logf.Name(), hang != "")
	switch {
	case hang == "budget":
		d.mu.Lock()
		d.truncated = true
		d.mu.Unlock()
		return doneN, "budget", cur, tail
	case hang != "":
		return doneN, hang, cur, tail
	case ended:
		return doneN, "ok", -1, ""
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			// our own trailing SIGKILL can only hit after the pipe closed,
			// i.e. while a crashing process was already exiting
			if strings.Contains(tail, "panic") || strings.Contains(tail, "fatal error") {
				return doneN, "crash", cur, tail
			}
			return doneN, "killed", cur, tail
		}
	}
	return doneN, "crash", cur, tail
}

func logTail(path string, dump bool) string {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return ""
	}
	s := string(b)
	for _, m := range []string{"SIGQUIT", "\npanic:", "fatal error:", "[-]"} {
		if i := strings.Index(s, m); i >= 0 {
			if i > 8000 {
				return trim(s[i-8000:], 68000)
			}
			return trim(s, 60000)
		}
	}
	if len(s) > 8000 {
		s = s[len(s)-8000:]
	}
	return s
}

// groupCPU returns the CPU seconds used by the process group.
func groupCPU(pgid int) float64 {
	var ticks int64
	eachProc(pgid, func(pid int, f []string) {
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		cu, _ := strconv.ParseInt(f[13], 10, 64)
		cs, _ := strconv.ParseInt(f[14], 10, 64)
		ticks += u + s + cu + cs
	})
	return float64(ticks) / 100
}

func eachProc(pgid int, fn func(pid int, f []string)) {
	ents, _ := ioutil.ReadDir("/proc")
	for _, e := range ents {
		pid, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		f := statFields(fmt.Sprintf("/proc/%d/stat", pid))
		if len(f) < 20 {
			continue
		}
		if g, _ := strconv.Atoi(f[2]); g == pgid {
			fn(pid, f)
		}
	}
}

func statFields(path string) []string {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return nil
	}
	return strings.Fields(s[i+1:])
}

// groupRunnable tells whether some thread of the group is running or waiting
// for a CPU right now.
func groupRunnable(pgid int) bool {
	run := false
	eachProc(pgid, func(pid int, f []string) {
		ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
		for _, t := range ts {
			g := statFields(t)
			if len(g) > 0 && (g[0] == "R" || g[0] == "D") {
				run = true
			}
		}
	})
	return run
}

func (d *driver) finish(out, replayDir string, wall float64, selected int) int {
	if d.c.Race {
		d.judgeRaces()
	}
	if d.c.Final != nil {
		d.c.Final(d)
	}
	// group the violations by key
	byKey := map[string][]viol{}
	var keys []string
	for _, v := range d.viols {
		if byKey[v.Key] == nil {
			keys = append(keys, v.Key)
		}
		byKey[v.Key] = append(byKey[v.Key], v)
	}
	sort.Strings(keys)
	bad := 0
	for _, k := range keys {
		if txt, ok := d.knownKeys[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", d.c.ID, k, txt)
			continue
		}
		bad++
		v := byKey[k][0]
		name := fmt.Sprintf("%s-%s-%d.json", d.c.ID, sanitize(k), v.I)
		path := filepath.Join(replayDir, name)
		os.MkdirAll(replayDir, 0755)
		caseName := ""
		if v.I >= 0 && v.I < len(d.cases) {
			caseName = d.cases[v.I].Name
		}
		var msgs []string
		for _, x := range byKey[k] {
			if len(msgs) < 5 {
				msgs = append(msgs, x.Msg)
			}
		}
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": d.c.ID, "key": k, "case": caseName, "case_index": v.I, "tier": d.tier, "seed": d.seed,
			"occurrences": len(byKey[k]), "messages": msgs,
			"replay": fmt.Sprintf("VERIF_SEED=%d /verif/check.sh %s %s -only '%s'", d.seed, d.c.ID, d.tier, caseName),
		}, "", " ")
		ioutil.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.c.ID, path)
		fmt.Printf("  %s (%d times): %s\n", k, len(byKey[k]), trim(firstLine(v.Msg), 400))
	}
	ev := d.counts["evaluations"]
	observed := map[string]interface{}{}
	for k, n := range d.counts {
		if k != "evaluations" {
			observed[k] = n
		}
	}
	distinct := map[string]int{}
	for k, m := range d.seen {
		if k != "nontrivial" {
			distinct[k] = len(m)
		}
	}
	if len(d.samples) == 0 {
		for i := 0; i < len(d.cases) && i < 3; i++ {
			d.samples = append(d.samples, d.cases[i].Name)
		}
	}
	cov := map[string]interface{}{
		"evaluations": ev, "distinct_nontrivial": len(d.seen["nontrivial"]), "rule": d.c.Rule,
		"samples": d.samples, "observed": observed, "distinct_observed": distinct,
		"cases_selected": selected, "cases_completed": d.done, "cases_not_started_or_cut_by_budget": selected - d.done,
		"worker_restarts_after_outside_kill": d.retried, "budget_exhausted": d.truncated,
	}
	e := map[string]interface{}{
		"property": d.c.ID, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{fmt.Sprintf("%s, GOMAXPROCS %d", runtime.Version(), runtime.NumCPU())}, d.c.Assumptions...),
		"wall_s":      wall, "violations": bad,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	if out != "" {
		if err := ioutil.WriteFile(out, append(b, '\n'), 0644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d/%d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", d.c.ID, d.tier, d.done, selected, ev, len(d.seen["nontrivial"]), bad, wall)
	if bad > 0 {
		return 1
	}
	if d.done == 0 {
		fmt.Println("nothing was explored")
		return 2
	}
	return 0
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '-' || r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return trim(b.String(), 80)
}

// judgeRaces turns race reports whose racing accesses touch the module into
// violations.
func (d *driver) judgeRaces() {
	for _, l := range d.raceLogs {
		for _, rep := range strings.Split(l, "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			d.counts["race_reports"]++
			key, ok := raceKey(rep)
			if !ok {
				d.counts["race_reports_outside_module"]++
				continue
			}
			d.viols = append(d.viols, viol{0, key, "data race:\n" + trim(rep, 8000)})
		}
	}
}

// raceKey returns the functions of the two racing accesses nearest to the
// module; ok is false when one of the accesses has no module frame.
func raceKey(rep string) (string, bool) {
	secs := strings.Split(rep, "\n\n")
	var fn []string
	for _, s := range secs {
		lines := strings.Split(s, "\n")
		head := -1
		for i, l := range lines {
			if strings.Contains(l, "ead at 0x") || strings.Contains(l, "rite at 0x") {
				head = i
				break
			}
		}
		if head < 0 {
			continue
		}
		f := ""
		for _, l := range lines[head+1:] {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "main.") { // the harness's own access
				return "", false
			}
			if strings.HasPrefix(l, "github.com/ldsec/unlynx/") {
				f = strings.TrimPrefix(l, "github.com/ldsec/unlynx/")
				if i := strings.Index(f, "("); i > 0 && !strings.HasPrefix(f[i:], "(*") {
					f = f[:i]
				}
				break
			}
		}
		fn = append(fn, f)
	}
	n := 0
	for _, f := range fn {
		if f != "" {
			n++
		}
	}
	if n == 0 {
		return "", false
	}
	sort.Strings(fn)
	return "race:" + strings.Join(fn, "|"), true
}
