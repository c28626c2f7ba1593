package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// needEnv restarts this process with the settings of the race detector if they are missing.
func needEnv() {
	if strings.Contains(os.Getenv("GORACE"), "suppress_equal_stacks=0") {
		return
	}
	dir, err := os.MkdirTemp("", "verif-race-")
	if err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(self(), os.Args[1:]...)
	cmd.Env = raceEnv(dir)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err = cmd.Run()
	os.RemoveAll(dir)
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			os.Exit(e.ExitCode())
		}
		fatal("%v", err)
	}
	os.Exit(0)
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

type known struct{ prop, class, match, text string }

// knownFindings reads lines of the form
//
//	known: property=C11 class=... match="..." what fails
func knownFindings() []known {
	b, err := os.ReadFile(filepath.Join(root(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "known: ")
		for {
			rest = strings.TrimLeft(rest, " ")
			i := strings.IndexByte(rest, '=')
			if i < 0 || strings.ContainsRune(rest[:i], ' ') {
				break
			}
			key := rest[:i]
			if key != "property" && key != "class" && key != "match" {
				break
			}
			val := rest[i+1:]
			if strings.HasPrefix(val, `"`) {
				j := strings.IndexByte(val[1:], '"')
				if j < 0 {
					break
				}
				rest, val = val[j+2:], val[1:j+1]
			} else if j := strings.IndexByte(val, ' '); j >= 0 {
				rest, val = val[j:], val[:j]
			} else {
				rest = ""
			}
			switch key {
			case "property":
				k.prop = val
			case "class":
				k.class = val
			case "match":
				k.match = val
			}
		}
		k.text = rest
		out = append(out, k)
	}
	return out
}

func matchKnown(ks []known, prop, class, detail string) *known {
	for i := range ks {
		k := &ks[i]
		if k.prop == prop && k.class == class && k.match != "" && strings.Contains(detail, k.match) {
			return k
		}
	}
	return nil
}

type tally struct {
	runs, nontrivial int
	keys             map[uint64]bool
	scheds           map[uint64]bool
	scn              map[string]int
	m                Measures
	samples          []map[string]any
}

func (t *tally) add(l *Line) {
	t.runs++
	if l.NT {
		t.nontrivial++
		t.keys[l.Key] = true
	}
	t.scheds[l.Sched] = true
	t.scn[l.Scn]++
	m := &t.m
	m.Worlds += l.M.Worlds
	m.Requests += l.M.Requests
	m.Decides += l.M.Decides
	m.Choices += l.M.Choices
	m.Switches += l.M.Switches
	m.Preempts += l.M.Preempts
	m.MapDevs += l.M.MapDevs
	m.Tasks += l.M.Tasks
	m.SimNs += l.M.SimNs
	m.DiskOps += l.M.DiskOps
	m.Checks += l.M.Checks
	m.Crashes += l.M.Crashes
	m.Refs += l.M.Refs
	for k, n := range l.M.Faults {
		m.Faults[k] += n
	}
	for k, n := range l.M.Probes {
		m.Probes[k] += n
	}
	if len(t.samples) < 5 && l.NT {
		t.samples = append(t.samples, map[string]any{"run": l.I, "seed": l.Seed, "scenario": l.Scn, "decisions": l.M.Decides, "choices": l.M.Choices, "requests": l.M.Requests, "event_hash": fmt.Sprintf("%016x", l.Hash)})
	}
}

// check decides one property on the current tree.
func check(id string) {
	p := props[id]
	if p == nil {
		fatal("no check for %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("bad VERIF_SEED %q", s)
		}
		seed = uint64(n)
	}
	n, limit := p.Quick, 150
	if tier == "thorough" {
		n, limit = p.Thorough, 240
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		n = atoi(s)
	}
	start := time.Now()
	fmt.Printf("property=%s tier=%s seed=%d runs=%d\n", id, tier, seed, n)
	dir := filepath.Join(root(), ".build", fmt.Sprintf("run-%s-%d", id, os.Getpid()))
	if err := os.MkdirAll(dir, 0755); err != nil {
		fatal("%v", err)
	}
	c := &coord{p: p, seed: seed, n: n, tier: tier, limit: limit, dir: dir, best: -1,
		t:     tally{keys: map[uint64]bool{}, scheds: map[uint64]bool{}, scn: map[string]int{}, m: Measures{Faults: map[string]int{}, Probes: map[string]int{}}},
		known: knownFindings(), knownHit: map[string]string{}}
	workers := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers = atoi(s)
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c.worker(k, workers)
		}(k)
	}
	wg.Wait()
	code := 0
	nviol := 0
	if c.err != "" {
		os.RemoveAll(dir)
		fatal("%s", c.err)
	}
	for _, k := range sortedKeys(c.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if c.viol != nil {
		nviol = 1
		file := c.report()
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		code = 1
	}
	writeEvidence(p, tier, seed, &c.t, nviol, time.Since(start).Seconds(), sortedKeys(c.knownHit))
	os.RemoveAll(dir)
	if code == 0 {
		fmt.Printf("held: %d runs, %d decisions, %d requests, %.0f s\n", c.t.runs, c.t.m.Decides, c.t.m.Requests, time.Since(start).Seconds())
	}
	os.Exit(code)
}

type coord struct {
	p        *Prop
	seed     uint64
	n, limit int
	tier     string
	dir      string
	mu       sync.Mutex
	t        tally
	viol     *Line
	best     int
	err      string
	known    []known
	knownHit map[string]string
	procs    []*exec.Cmd
}

func (c *coord) stopAt(i int) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err != "" || c.best >= 0 && i > c.best
}

// worker runs one worker process, and another one in its place where a run killed it.
func (c *coord) worker(k, step int) {
	first := k
	deadline := time.Now().Add(time.Duration(c.limit) * time.Second)
	died := map[int]int{}
	for first < c.n && !c.stopAt(first) {
		left := int(time.Until(deadline).Seconds())
		if left <= 0 {
			return
		}
		cmd := exec.Command(self(), "work", c.p.ID, strconv.FormatUint(c.seed, 10), strconv.Itoa(first), strconv.Itoa(step), strconv.Itoa(c.n), c.tier, strconv.Itoa(left))
		cmd.Env = raceEnv(c.dir)
		errFile, _ := os.Create(filepath.Join(c.dir, fmt.Sprintf("err-%d", k)))
		cmd.Stderr = errFile
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			c.fail("cannot start a worker: %v", err)
			return
		}
		rd := bufio.NewReaderSize(out, 1<<20)
		cur, stopped := -1, false
		for {
			b, err := rd.ReadBytes('\n')
			if len(b) > 0 && b[len(b)-1] == '\n' {
				l := &Line{}
				if json.Unmarshal(b, l) != nil {
					continue
				}
				if l.Stuck {
					c.fail("run %d of seed %d did not finish in time", l.I, c.seed)
					break
				}
				if l.Start {
					cur = l.I
					if c.stopAt(cur) {
						stopped = true
						cmd.Process.Kill()
						break
					}
					continue
				}
				cur = -1
				first = l.I + step
				c.take(l)
			}
			if err != nil {
				break
			}
		}
		werr := cmd.Wait()
		errFile.Close()
		if stopped || c.stopAt(first) {
			return
		}
		if werr == nil {
			return
		}
		if cur < 0 {
			c.fail("a worker ended early: %v %s", werr, tail(errFile.Name()))
			return
		}
		// the run killed the process: once more, in a fresh one
		died[cur]++
		first = cur
		if died[cur] < 2 {
			continue
		}
		if t := tail(errFile.Name()); strings.Contains(t, "panic: ") && !strings.Contains(t, "fatal error") {
			// panics of the program are caught by the simulator: this one is of the check itself
			c.fail("run %d: the check panicked: %s", cur, t)
			return
		}
		cs := caseOf(c.p, c.seed, cur, c.tier)
		cs.Class, cs.Detail = "died", "the simulated process brought the host process down: "+tail(errFile.Name())
		c.take(&Line{I: cur, Viol: []Violation{{cs.Class, cs.Detail}}, Case: cs})
		first = cur + step
	}
}

func tail(file string) string {
	b, _ := os.ReadFile(file)
	s := string(b)
	if i := strings.Index(s, "fatal error"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func (c *coord) fail(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == "" {
		c.err = fmt.Sprintf(format, args...)
	}
}

func (c *coord) take(l *Line) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.t.add(l)
	found := false
	for _, v := range l.Viol {
		if k := matchKnown(c.known, c.p.ID, v.Class, v.Detail); k != nil {
			c.knownHit[strings.TrimSpace(k.text)] = ""
			continue
		}
		if !found {
			found = true
			l.Case.Class, l.Case.Detail = v.Class, v.Detail
		}
	}
	if !found {
		return
	}
	if c.best < 0 || l.I < c.best {
		c.best, c.viol = l.I, l
	}
}

// report minimises the failure, confirms it in a fresh process and returns the replay file.
func (c *coord) report() string {
	l := c.viol
	os.MkdirAll(filepath.Join(root(), "replays"), 0755)
	file := filepath.Join(root(), "replays", fmt.Sprintf("%s-seed%d-run%d.json", c.p.ID, c.seed, l.I))
	cl, detail := l.Case.Class, l.Case.Detail
	fmt.Printf("seed %d run %d: %s: %s\n", c.seed, l.I, cl, detail)
	for _, r := range l.Case.Races {
		fmt.Println("  " + r)
	}
	writeCase(file, l.Case)
	if cl == "died" {
		return file
	}
	min := filepath.Join(c.dir, "min.json")
	if os.Getenv("VERIF_NOMIN") == "" {
		cmd := exec.Command(self(), "minimise", file, min, "60")
		cmd.Env = raceEnv(c.dir)
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err == nil && c.confirm(min) {
			fmt.Print(string(out))
			m := readCase(min)
			writeCase(file, m)
			fmt.Printf("minimised: %s: %s\n", m.Class, m.Detail)
			return file
		}
	}
	if !c.confirm(file) {
		os.RemoveAll(c.dir)
		fatal("the failure of run %d (seed %d, %s) did not repeat in a fresh process: %s", l.I, c.seed, cl, detail)
	}
	return file
}

func (c *coord) confirm(file string) bool {
	cmd := exec.Command(self(), "replay", file)
	cmd.Env = raceEnv(c.dir)
	out, err := cmd.Output()
	e, ok := err.(*exec.ExitError)
	return ok && e.ExitCode() == 1 && strings.Contains(string(out), "reproduced: ")
}

func writeEvidence(p *Prop, tier string, seed uint64, t *tally, nviol int, wall float64, known []string) {
	hours := wall / 3600
	perHour := 0
	if hours > 0 {
		perHour = int(float64(t.runs) / hours)
	}
	faults := map[string]int{}
	for k, v := range t.m.Faults {
		faults[k] = v
	}
	probes := []string{}
	for k := range t.m.Probes {
		probes = append(probes, k)
	}
	sort.Strings(probes)
	cov := map[string]any{
		"evaluations":         t.runs,
		"distinct_nontrivial": len(t.keys),
		"rule":                p.Rule,
		"samples":             t.samples,
		"seeds_per_hour":      perHour,
		"processes_simulated": t.m.Worlds,
		"reference_processes": t.m.Refs,
		"simulated_seconds":   float64(t.m.SimNs) / 1e9,
		"faults_injected":     faults,
		"process_crashes":     t.m.Crashes,
		"distinct_interleavings": map[string]any{
			"count":   len(t.scheds),
			"measure": "hash of the sequence of (task, operation) pairs picked by the scheduler and of the map orders used, in the explored process of each run",
		},
		"scheduling_decisions":        t.m.Decides,
		"decisions_with_alternatives": t.m.Choices,
		"context_switches":            t.m.Switches,
		"preemptions_inside_code":     t.m.Preempts,
		"map_orders_changed":          t.m.MapDevs,
		"tasks_created":               t.m.Tasks,
		"disk_operations":             t.m.DiskOps,
		"requests_sent":               t.m.Requests,
		"oracle_comparisons":          t.m.Checks,
		"situations_reached":          t.m.Probes,
		"scenarios":                   t.scn,
		"known_findings_seen":         known,
		"components": map[string]any{
			"real": []string{"all packages of the repository as they stand in the working tree, including main", "gorilla/mux routing", "go-cache", "encoding/xml, encoding/json, net/html, xmlquery and the other libraries", "net/http request and response types, file server"},
			"stub": []string{"goroutine scheduler, channels, sync and atomic (simulated)", "os and path/filepath disk access (in-memory disk)", "time and context deadlines (simulated clock)", "net/http listener and connections (requests are handed to the handler)", "os/signal", "random numbers"},
		},
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": append([]string{
			"a goroutine of the program is preempted at synchronisation, channel, disk, clock and goroutine operations and between statements of the repository and of go-cache, not inside other libraries",
			"the simulated disk, clock, scheduler and listener behave as the real ones do for the operations used",
		}, p.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root(), "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}
