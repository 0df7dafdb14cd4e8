// Package vk is the monitor kernel: it schedules the cases of a property over
// supervised worker processes, collects what the monitors observed, and turns
// violations, crashes, race reports, runaway cases and deadlocks into verdicts.
package vk

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Workload is a named family of cases.
type Workload struct {
	Name            string
	Quick, Thorough int  // number of cases per tier; the quick one times scale/100
	Race            bool // run in the race-detector build
	F               func(m *M)
}

// Known is a probe of one recorded finding: it reports whether the specific
// failing input still fails, and how.
type Known struct {
	Key string
	F   func() (bool, string)
}

// Prop is one property.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Workloads   []Workload
	Setup       func() // run once per worker
	Known       []Known
}

// M is the per-case monitor.
type M struct {
	R         *rand.Rand
	Idx       int
	Thorough  bool
	Seed      int64
	w         *worker
	name      string
	notes     []string
	viol      []string
	tmps      []string
	mu        sync.Mutex
	verbose   bool
	sampleStr string
	panicked  bool
}

type abort struct{}

// Check records one evaluation of a monitor; a false condition is a violation.
func (m *M) Check(ok bool, format string, args ...interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.w.checks++
	if !ok {
		if len(m.viol) < 5 {
			s := fmt.Sprintf(format, args...)
			if len(s) > 4000 {
				s = s[:4000] + "..."
			}
			m.viol = append(m.viol, s)
		}
	}
	return ok
}

// Must is Check, but a violation ends the case.
func (m *M) Must(ok bool, format string, args ...interface{}) {
	if !m.Check(ok, format, args...) {
		panic(abort{})
	}
}

// Note adds context that is reported with a violation.
func (m *M) Note(format string, args ...interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	s := fmt.Sprintf(format, args...)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	m.notes = append(m.notes, s)
	if len(m.notes) > 40 {
		m.notes = m.notes[1:]
	}
	if m.verbose {
		fmt.Fprintln(os.Stderr, "note:", s)
	}
}

// Count adds to a named counter of observed events.
func (m *M) Count(name string, n int) {
	m.mu.Lock()
	m.w.counts[name] += int64(n)
	m.mu.Unlock()
}

// Sig marks the case as non-trivial, with a signature of what was exercised.
func (m *M) Sig(format string, args ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, m.name+"|"+format, args...)
	m.mu.Lock()
	m.w.sigs[h.Sum64()] = true
	m.mu.Unlock()
}

// Sample records a description of the case for the evidence (first ones kept).
func (m *M) Sample(format string, args ...interface{}) {
	if m.Idx < 2 && m.sampleStr == "" {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		m.sampleStr = s
	}
}

// Tmp returns a scratch directory removed when the case ends.
func (m *M) Tmp() string {
	d, err := os.MkdirTemp("", "case")
	if err != nil {
		panic(err)
	}
	m.tmps = append(m.tmps, d)
	return d
}

type worker struct {
	counts map[string]int64
	sigs   map[uint64]bool
	checks int64
	evals  int64
	out    *bufio.Writer
}

type event struct {
	K       string           `json:"k"` // s start, v violation, d done
	W       int              `json:"w"`
	I       int              `json:"i"`
	Msgs    []string         `json:"m,omitempty"`
	Notes   []string         `json:"n,omitempty"`
	Counts  map[string]int64 `json:"c,omitempty"`
	Checks  int64            `json:"ch,omitempty"`
	Evals   int64            `json:"ev,omitempty"`
	Sigs    []string         `json:"sg,omitempty"`
	Samples []string         `json:"sm,omitempty"`
}

func (w *worker) emit(e event) {
	b, _ := json.Marshal(e)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

func caseSeed(prop, wl string, idx int, seed int64) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%d", prop, wl, idx, seed)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// BeforeCase is run before every case (to reseed the library, for instance).
var BeforeCase func(seed int64)

func runCase(p *Prop, wi, idx int, seed int64, thorough bool, w *worker, verbose bool) (m *M) {
	wl := p.Workloads[wi]
	s := caseSeed(p.ID, wl.Name, idx, seed)
	m = &M{R: rand.New(rand.NewSource(s)), Idx: idx, Thorough: thorough, Seed: s, w: w, name: wl.Name, verbose: verbose}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); !ok {
				m.panicked = true
				m.viol = append(m.viol, fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
			}
		}
		for _, d := range m.tmps {
			os.RemoveAll(d)
		}
	}()
	if BeforeCase != nil {
		BeforeCase(s)
	}
	wl.F(m)
	return m
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	var o []string
	for _, s := range l {
		if strings.Contains(s, "runtime/") || strings.Contains(s, "runtime.") {
			continue
		}
		o = append(o, s)
		if len(o) > 40 {
			break
		}
	}
	return strings.Join(o, "\n")
}

// cases enumerates (workload, index) pairs of the tier, interleaved so that
// shards are balanced.
func cases(p *Prop, thorough, race bool) [][2]int {
	var c [][2]int
	n := make([]int, len(p.Workloads))
	for i, w := range p.Workloads {
		if w.Race != race {
			continue
		}
		n[i] = (w.Quick*scale + 99) / 100
		if thorough {
			if n[i] = max(w.Thorough, 3*w.Quick); w.Thorough == 0 {
				n[i] = 10 * w.Quick
			}
		}
	}
	for i := range p.Workloads {
		for k := 0; k < n[i]; k++ {
			c = append(c, [2]int{i, k})
		}
	}
	// Deterministic shuffle.
	r := rand.New(rand.NewSource(12345))
	r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	return c
}

func workerMain(p *Prop, thorough, race bool, shard, n, from int, seed int64) {
	f := os.NewFile(3, "events")
	w := &worker{counts: map[string]int64{}, sigs: map[uint64]bool{}, out: bufio.NewWriter(f)}
	if p.Setup != nil {
		p.Setup()
	}
	samples := []string{}
	all := cases(p, thorough, race)
	k := 0
	for i, c := range all {
		if i%n != shard {
			continue
		}
		if k < from {
			k++
			continue
		}
		k++
		w.emit(event{K: "s", W: c[0], I: c[1]})
		m := runCase(p, c[0], c[1], seed, thorough, w, false)
		w.evals++
		if m.sampleStr != "" && len(samples) < 6 {
			samples = append(samples, p.Workloads[c[0]].Name+"#"+strconv.Itoa(c[1])+": "+m.sampleStr)
		}
		if len(m.viol) > 0 {
			w.emit(event{K: "v", W: c[0], I: c[1], Msgs: m.viol, Notes: m.notes})
			if m.panicked {
				// Locks may still be held: go on in a fresh process.
				w.emit(event{K: "r"})
				os.Exit(0)
			}
		}
	}
	sg := make([]string, 0, len(w.sigs))
	for s := range w.sigs {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], s)
		sg = append(sg, fmt.Sprintf("%x", s))
	}
	w.emit(event{K: "d", Counts: w.counts, Checks: w.checks, Evals: w.evals, Sigs: sg, Samples: samples})
	os.Exit(0)
}

// Violation is one reported violation.
type Violation struct {
	Property string   `json:"property"`
	Workload string   `json:"workload"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Messages []string `json:"messages"`
	Notes    []string `json:"notes,omitempty"`
}

type super struct {
	p        *Prop
	tier     string
	thorough bool
	seed     int64
	scratch  string
	mu       sync.Mutex
	viols    []Violation
	counts   map[string]int64
	sigs     map[string]bool
	checks   int64
	evals    int64
	samples  []string
	races    map[string]bool
	incon    []string
	stop     bool
	wlEvals  map[string]int64
}

func cpuOf(pid int) (ticks int64, rss int64, running bool, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false, false
	}
	s := string(b)
	j := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[j+1:])
	if len(f) < 22 {
		return 0, 0, false, false
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	r, _ := strconv.ParseInt(f[21], 10, 64)
	running = f[0] == "R"
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err == nil {
		for _, t := range d {
			tb, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, t.Name()))
			if err == nil {
				ts := string(tb)
				tf := strings.Fields(ts[strings.LastIndexByte(ts, ')')+1:])
				if len(tf) > 0 && (tf[0] == "R" || tf[0] == "D") {
					running = true
				}
			}
		}
	}
	return u + k, r * int64(os.Getpagesize()), running, true
}

// Child waits for a command that was started: it is killed, and false returned, when it burns more
// than cpu seconds or does nothing at all for idle. The wait itself counts as progress of the case.
func Child(cmd *exec.Cmd, cpu int64, idle time.Duration) (error, bool) {
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	prev, since := int64(-1), time.Now()
	for {
		select {
		case err := <-done:
			return err, true
		case <-time.After(500 * time.Millisecond):
		}
		for t := time.Now(); time.Since(t) < 12*time.Millisecond; { // seen by the supervisor
		}
		c, _, running, ok := cpuOf(cmd.Process.Pid)
		if c != prev || running || !ok {
			prev, since = c, time.Now()
		}
		if c > cpu*100 || time.Since(since) > idle {
			cmd.Process.Kill()
			return <-done, false
		}
	}
}

const (
	caseCPU  = 150 * 100 // ticks of CPU one case may burn (typical: below one second)
	idleWall = 60 * time.Second
	maxRSS   = int64(3500) << 20
)

// For mutation experiments: VK_SCALE replaces the percentage of the quick case counts,
// VK_CASE_CPU the CPU seconds one case may burn.
var scale, caseLimit = 300, int64(caseCPU)

func init() {
	if v, err := strconv.Atoi(os.Getenv("VK_SCALE")); err == nil && v > 0 {
		scale = v
	}
	if v, err := strconv.Atoi(os.Getenv("VK_CASE_CPU")); err == nil && v > 0 {
		caseLimit = int64(v) * 100
	}
}

func (s *super) addViol(v Violation) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.viols = append(s.viols, v)
	if len(s.viols) >= 12 || v.Kind == "no termination" {
		s.stop = true
	}
}

func (s *super) stopped() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stop
}

// runShard runs one shard, restarting after the offending case if a worker dies.
func (s *super) runShard(bin string, race bool, shard, n int) {
	from := 0
	for attempt := 0; attempt < 4; attempt++ {
		done, last, started, kind, detail := s.runWorker(bin, race, shard, n, from, attempt)
		if done || s.stopped() {
			return
		}
		if last[0] < 0 {
			s.mu.Lock()
			s.incon = append(s.incon, fmt.Sprintf("worker %d ended before its first case: %s", shard, detail))
			s.mu.Unlock()
			return
		}
		if kind != "restart" {
			s.addViol(Violation{Property: s.p.ID, Workload: s.p.Workloads[last[0]].Name, Index: last[1], Seed: s.seed, Tier: s.tier, Kind: kind, Messages: []string{detail}})
		}
		from += started
	}
}

func (s *super) runWorker(bin string, race bool, shard, n, from, attempt int) (done bool, last [2]int, started int, kind, detail string) {
	last = [2]int{-1, -1}
	dir := filepath.Join(s.scratch, fmt.Sprintf("w%v-%d-%d", race, shard, attempt))
	os.MkdirAll(filepath.Join(dir, "tmp"), 0755)
	defer os.RemoveAll(dir)
	pr, pw, err := os.Pipe()
	if err != nil {
		return false, last, 0, "error", err.Error()
	}
	cmd := exec.Command(bin, "-worker", s.tier, strconv.Itoa(shard), strconv.Itoa(n), strconv.Itoa(from), strconv.FormatInt(s.seed, 10), strconv.FormatBool(race))
	cmd.Dir = dir
	cmd.ExtraFiles = []*os.File{pw}
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = errf
	gmp := 2
	if race {
		gmp = []int{8, 4, 2, 16}[shard%4]
	}
	racelog := filepath.Join(dir, "race")
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(gmp), "TMPDIR="+filepath.Join(dir, "tmp"),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+racelog, "GOTRACEBACK=all")
	if err := cmd.Start(); err != nil {
		pw.Close()
		return false, last, 0, "error", err.Error()
	}
	pw.Close()
	errf.Close()
	var mu sync.Mutex
	var caseStart int64
	caseStart, _, _, _ = cpuOf(cmd.Process.Pid)
	killed := ""
	restart := false
	stopMon := make(chan struct{})
	go func() {
		var lastCPU int64 = -1
		lastMove := time.Now()
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopMon:
				return
			case <-t.C:
			}
			c, rss, running, ok := cpuOf(cmd.Process.Pid)
			if !ok {
				return
			}
			mu.Lock()
			cs := caseStart
			mu.Unlock()
			why := ""
			// A sleeping Go process still burns a tick now and then (sysmon).
			if running || c > lastCPU+2 {
				lastMove = time.Now()
				lastCPU = c
			}
			if cs >= 0 && c-cs > caseLimit {
				why = fmt.Sprintf("case burnt %.0f s of CPU without finishing (does not terminate)", float64(c-cs)/100)
			} else if time.Since(lastMove) > idleWall {
				why = fmt.Sprintf("case is blocked: no thread was running or used CPU for %v (deadlock)", idleWall)
			} else if rss > maxRSS {
				why = fmt.Sprintf("case grew to %d MB of memory", rss>>20)
			} else if s.stopped() {
				why = "stopped"
			}
			if why != "" {
				mu.Lock()
				killed = why
				mu.Unlock()
				cmd.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewReaderSize(pr, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			break
		}
		var e event
		if json.Unmarshal(line, &e) != nil {
			continue
		}
		switch e.K {
		case "s":
			c, _, _, _ := cpuOf(cmd.Process.Pid)
			mu.Lock()
			caseStart = c
			mu.Unlock()
			last = [2]int{e.W, e.I}
			started++
			s.mu.Lock()
			s.wlEvals[s.p.Workloads[e.W].Name]++
			s.mu.Unlock()
		case "v":
			s.addViol(Violation{Property: s.p.ID, Workload: s.p.Workloads[e.W].Name, Index: e.I, Seed: s.seed, Tier: s.tier, Kind: "monitor", Messages: e.Msgs, Notes: e.Notes})
		case "r":
			restart = true
		case "d":
			done = true
			s.mu.Lock()
			for k, v := range e.Counts {
				s.counts[k] += v
			}
			for _, g := range e.Sigs {
				s.sigs[g] = true
			}
			s.checks += e.Checks
			s.evals += e.Evals
			for _, x := range e.Samples {
				if len(s.samples) < 8 {
					s.samples = append(s.samples, x)
				}
			}
			s.mu.Unlock()
		}
	}
	werr := cmd.Wait()
	close(stopMon)
	pr.Close()
	// Race reports.
	if race {
		logs, _ := filepath.Glob(racelog + "*")
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			for _, blk := range strings.Split(string(b), "==================") {
				if !strings.Contains(blk, "WARNING: DATA RACE") {
					continue
				}
				key := raceKey(blk)
				s.mu.Lock()
				seen := s.races[key]
				s.races[key] = true
				s.mu.Unlock()
				if !seen {
					if len(blk) > 3500 {
						blk = blk[:3500]
					}
					w := "?"
					i := 0
					if last[0] >= 0 {
						w, i = s.p.Workloads[last[0]].Name, last[1]
					}
					s.addViol(Violation{Property: s.p.ID, Workload: w, Index: i, Seed: s.seed, Tier: s.tier, Kind: "data race", Messages: []string{blk}})
				}
			}
		}
	}
	mu.Lock()
	k := killed
	mu.Unlock()
	if k == "stopped" {
		return false, last, started, "stopped", ""
	}
	if done {
		return true, last, started, "", ""
	}
	if restart {
		return false, last, started, "restart", ""
	}
	if k != "" {
		return false, last, started, "no termination", k
	}
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	t := string(b)
	if len(t) > 3500 {
		t = t[:3500]
	}
	return false, last, started, "crash", fmt.Sprintf("worker died (%v): %s", werr, t)
}

func raceKey(blk string) string {
	var o []string
	for _, l := range strings.Split(blk, "\n") {
		if strings.HasPrefix(l, "  ") && strings.Contains(l, "(") && !strings.HasPrefix(l, "      ") {
			o = append(o, strings.TrimSpace(l))
			if len(o) >= 6 {
				break
			}
		}
	}
	return strings.Join(o, "|")
}

// Main is the entry point of a property's program.
func Main(p *Prop) {
	a := os.Args[1:]
	if len(a) > 0 && a[0] == "-worker" {
		sh, _ := strconv.Atoi(a[2])
		n, _ := strconv.Atoi(a[3])
		from, _ := strconv.Atoi(a[4])
		seed, _ := strconv.ParseInt(a[5], 10, 64)
		workerMain(p, a[1] == "thorough", a[6] == "true", sh, n, from, seed)
		return
	}
	if len(a) > 1 && a[0] == "-replay" {
		replay(p, a[1])
		return
	}
	if len(a) > 2 && a[0] == "-case" {
		idx, _ := strconv.Atoi(a[2])
		os.Exit(one(p, a[1], idx, seedEnv(), len(a) > 3 && a[3] == "thorough"))
	}
	tier := "quick"
	if len(a) > 0 {
		tier = a[0]
	}
	os.Exit(supervise(p, tier, seedEnv()))
}

func seedEnv() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

func replay(p *Prop, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	os.Exit(one(p, v.Workload, v.Index, v.Seed, v.Tier == "thorough"))
}

func one(p *Prop, wl string, idx int, seed int64, thorough bool) int {
	for i, w := range p.Workloads {
		if w.Name == wl {
			d, _ := os.MkdirTemp("", "vkcase")
			defer os.RemoveAll(d)
			os.Chdir(d)
			if p.Setup != nil {
				p.Setup()
			}
			wk := &worker{counts: map[string]int64{}, sigs: map[uint64]bool{}, out: bufio.NewWriter(io.Discard)}
			t := time.Now()
			m := runCase(p, i, idx, seed, thorough, wk, true)
			fmt.Fprintf(os.Stderr, "case %s#%d: %d checks, counts %v, sample %q, %v\n", wl, idx, wk.checks, wk.counts, m.sampleStr, time.Since(t))
			for _, x := range m.viol {
				fmt.Fprintln(os.Stderr, "VIOLATED:", x)
			}
			if len(m.viol) > 0 {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such workload")
	return 2
}

func supervise(p *Prop, tier string, seed int64) int {
	t0 := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	scratch, err := os.MkdirTemp("", "vk-"+p.ID+"-")
	if err != nil {
		fmt.Println("cannot make scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	s := &super{p: p, tier: tier, thorough: tier == "thorough", seed: seed, scratch: scratch, counts: map[string]int64{},
		sigs: map[string]bool{}, races: map[string]bool{}, wlEvals: map[string]int64{}}
	bin, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	if ncpu < 2 {
		ncpu = 2
	}
	run := func(race bool, bin string) {
		c := cases(p, s.thorough, race)
		if len(c) == 0 {
			return
		}
		n := ncpu
		if race {
			n = (ncpu + 1) / 2
		}
		if n > len(c) {
			n = len(c)
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); s.runShard(bin, race, i, n) }(i)
		}
		wg.Wait()
	}
	run(false, bin)
	if !s.stopped() && len(cases(p, s.thorough, true)) > 0 {
		rb := os.Getenv("VK_RACE_BIN")
		if rb == "" {
			fmt.Println("no race-detector build given")
			return 2
		}
		run(true, rb)
	}
	// Known findings.
	listed := readKnown(filepath.Join(verif, "known_findings.txt"), p.ID)
	for _, k := range p.Known {
		fails, what := k.F()
		if !fails {
			continue
		}
		if listed[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.Key, what)
		} else {
			s.addViol(Violation{Property: p.ID, Workload: "known:" + k.Key, Seed: seed, Tier: tier, Kind: "monitor", Messages: []string{what}})
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	cov := map[string]interface{}{
		"evaluations":          s.evals,
		"distinct_nontrivial":  len(s.sigs),
		"rule":                 p.Rule,
		"samples":              s.samples,
		"monitor_evaluations":  s.checks,
		"observed_events":      s.counts,
		"cases_per_workload":   s.wlEvals,
		"data_race_reports":    len(s.races),
		"inconclusive_workers": s.incon,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{"held on the executions listed, not proved"}, p.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(s.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(s.viols) > 0 {
		rd := filepath.Join(evdir, "replays")
		os.MkdirAll(rd, 0755)
		sort.SliceStable(s.viols, func(i, j int) bool { return s.viols[i].Kind > s.viols[j].Kind })
		for i, v := range s.viols {
			if i >= 5 {
				break
			}
			f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", p.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
			msg := strings.Join(v.Messages, "; ")
			if len(msg) > 1200 {
				msg = msg[:1200] + "..."
			}
			fmt.Printf("  %s in %s#%d: %s\n", v.Kind, v.Workload, v.Index, msg)
			for j, nt := range v.Notes {
				if j > 3 {
					break
				}
				if len(nt) > 300 {
					nt = nt[:300] + "..."
				}
				fmt.Printf("    note: %s\n", nt)
			}
		}
		return 1
	}
	if len(s.incon) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s %v\n", p.ID, s.incon)
		return 2
	}
	if s.evals == 0 || s.checks == 0 || len(s.sigs) == 0 {
		fmt.Printf("INCONCLUSIVE property=%s nothing observed\n", p.ID)
		return 2
	}
	fmt.Printf("HELD property=%s tier=%s cases=%d monitor_evaluations=%d distinct=%d wall=%.1fs\n", p.ID, tier, s.evals, s.checks, len(s.sigs), time.Since(t0).Seconds())
	return 0
}

// readKnown reads lines "known: property=<id> key=<key> ...".
func readKnown(file, id string) map[string]bool {
	o := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return o
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			o[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return o
}
