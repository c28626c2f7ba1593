package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"ecksbee.com/telefacts/vsim"
)

// Prop is the machinery of one property.
type Prop struct {
	ID       string
	Level    string
	Quick    int // runs
	Thorough int
	Rule     string
	// Gen draws a case. fr is shared by the few runs that use the same filings.
	Gen func(c *Case, fr, r *vsim.Rand, tier string)
	Run func(x *Exec)
	// Assume lists what the verdict rests on.
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// groupOf makes runs share filings: four runs of a group differ in requests, schedule and faults.
func groupOf(i int) uint64 { return uint64(i/32)*8 + uint64(i%8) }

func caseOf(p *Prop, seed uint64, i int, tier string) *Case {
	h := uint64(1469598103934665603)
	for _, b := range []byte(p.ID) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	fr := vsim.NewRand(seed*0x9e3779b97f4a7c15 ^ h ^ groupOf(i)*0xc2b2ae3d27d4eb4f)
	r := vsim.NewRand(seed*0xff51afd7ed558ccd ^ h ^ uint64(i)*0x9fb21c651e98df25 ^ 0x5bd1e995)
	fr.U64()
	c := &Case{Prop: p.ID, Seed: r.U64(), Knob: map[string]int{}}
	p.Gen(c, fr, r, tier)
	return c
}

func runCase(c *Case) (x *Exec) {
	x = &Exec{c: c}
	props[c.Prop].Run(x)
	return x
}

// Line is what a worker reports.
type Line struct {
	I     int         `json:"i"`
	Start bool        `json:"start,omitempty"`
	Viol  []Violation `json:"viol,omitempty"`
	Case  *Case       `json:"case,omitempty"`
	M     Measures    `json:"m"`
	Hash  uint64      `json:"hash,omitempty"`
	Sched uint64      `json:"sched,omitempty"`
	NT    bool        `json:"nt,omitempty"`
	Scn   string      `json:"scn,omitempty"`
	Key   uint64      `json:"key,omitempty"`
	Seed  uint64      `json:"seed,omitempty"`
	Wall  float64     `json:"wall,omitempty"`
	Stuck bool        `json:"stuck,omitempty"`
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: drv check|work|replay|minimise|hashes|list ...")
	}
	args := os.Args[1:]
	switch args[0] {
	case "check":
		check(args[1])
	case "work":
		work(args[1:])
	case "replay":
		replay(args[1])
	case "minimise":
		minimise(args[1], args[2], args[3])
	case "hashes":
		hashes(args[1:])
	case "show":
		show(args[1:])
	case "dump":
		dump(readCase(args[1]), args[2])
	case "list":
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
	default:
		fatal("unknown command %s", args[0])
	}
}

// mute keeps the output of the program under test away from ours.
func mute() (out *os.File) {
	out = os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout = null
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	return out
}

// warm runs the library paths once, so that caches inside the standard library (which
// synchronise when first filled) look the same for every run that counts.
func warm() {
	var feats []string
	for _, f := range allFeats {
		if f != "cycle" && f != "diamond" {
			feats = append(feats, f)
		}
	}
	sp := FSpec{ID: "warm", Seed: 7, NCon: 6, NCtx: 3, NRole: 2, NSch: 1, Fill: 70, Feats: feats}
	c := &Case{Prop: "C01", Filings: []FSpec{sp}, Names: "ok"}
	sp2 := sp
	sp2.ID = "warm2"
	sp2.Feats = nil
	c.Filings = append(c.Filings, sp2)
	x := &Exec{c: c}
	d := x.disk()
	dk := diskKey(d)
	from := time.Now()
	full := maxDecide
	maxDecide = 8_000
	for _, f := range x.filings() {
		tg := x.targets(d, dk, f)
		for _, k := range sortedKeys(tg) {
			for i, u := range tg[k] {
				if i < 4 && time.Since(from) < 10*time.Second {
					x.cold(d, dk, u)
				}
			}
		}
	}
	refs = map[refKey]Answer{}
	refsSize = 0
	maxDecide = full
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal("bad number %q", s)
	}
	return n
}

// work runs the cases first, first+step, ... below end and reports each on standard output.
func work(a []string) {
	p := props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	first, step, end := atoi(a[2]), atoi(a[3]), atoi(a[4])
	tier := a[5]
	secs := atoi(a[6])
	out := mute()
	enc := json.NewEncoder(out)
	start := time.Now()
	warm()
	for i := first; i < end; i += step {
		if secs > 0 && time.Since(start) > time.Duration(secs)*time.Second {
			break
		}
		enc.Encode(Line{I: i, Start: true})
		c := caseOf(p, seed, i, tier)
		t := time.Now()
		dog := time.AfterFunc(180*time.Second, func() {
			enc.Encode(Line{I: i, Stuck: true})
			os.Exit(3)
		})
		x := runCase(c)
		dog.Stop()
		l := Line{I: i, M: x.M, Hash: x.Hash, Sched: x.Sched, NT: x.Nontrivial, Scn: c.Scn, Seed: c.Seed, Wall: time.Since(t).Seconds(), Key: x.key()}
		if len(x.Viol) > 0 {
			l.Viol = x.Viol
			cc := *c
			cc.Dec = decisions(x)
			cc.Hash = fmt.Sprintf("%016x", x.Hash)
			l.Case = &cc
			if c.Prop == "C08" {
				cc.Races = raceReports()
			}
		}
		enc.Encode(l)
	}
}

func decisions(x *Exec) *vsim.Decisions {
	d := x.Dec
	return &d
}

func (x *Exec) key() uint64 {
	h := x.Sched
	b, _ := json.Marshal(x.c.Filings)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	b, _ = json.Marshal(x.c.Ops)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// raceReports reads what the race detector wrote for this process.
func raceReports() []string {
	base := raceLog()
	if base == "" {
		return nil
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", base, os.Getpid()))
	if err != nil {
		return nil
	}
	var out []string
	for _, part := range strings.Split(string(b), "==================") {
		if strings.Contains(part, "DATA RACE") {
			out = append(out, raceBrief(part))
		}
	}
	if len(out) > 4 {
		out = out[len(out)-4:]
	}
	return out
}

// programRaces counts how many of the last n reports are about two goroutines of the program.
// The scheduler runs none of its code, so that a report about the scheduler is not one.
func programRaces(n int) int {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog(), os.Getpid()))
	if err != nil {
		return n
	}
	var all []string
	for _, part := range strings.Split(string(b), "==================") {
		if strings.Contains(part, "DATA RACE") {
			all = append(all, part)
		}
	}
	if len(all) < n {
		return n
	}
	real := 0
	for _, part := range all[len(all)-n:] {
		if !strings.Contains(part, "vsim.(*World).Run(") {
			real++
		}
	}
	return real
}

func raceBrief(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, " at 0x") || strings.HasPrefix(l, "Goroutine") {
			if i := strings.Index(l, " at 0x"); i > 0 {
				l = l[:i]
			}
			keep = append(keep, l+":")
		} else if strings.Contains(l, "telefacts") && strings.HasSuffix(l, ")") {
			keep = append(keep, l)
		}
	}
	if len(keep) > 16 {
		keep = keep[:16]
	}
	return strings.Join(keep, " ")
}

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return strings.TrimPrefix(f, "log_path=")
		}
	}
	return ""
}

func raceEnv(dir string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") {
			env = append(env, e)
		}
	}
	return append(env, "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"), "GOMAXPROCS=2")
}

func readCase(file string) *Case {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		fatal("%v", err)
	}
	if props[c.Prop] == nil {
		fatal("unknown property %q", c.Prop)
	}
	if c.Knob == nil {
		c.Knob = map[string]int{}
	}
	return c
}

func writeCase(file string, c *Case) {
	b, err := json.MarshalIndent(c, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(file, append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

// replay runs one written case in this process and says whether it still fails the same way.
func replay(file string) {
	needEnv()
	c := readCase(file)
	want := c.Class
	out := mute()
	warm()
	verbose := os.Getenv("VERIF_VERBOSE") != ""
	ks := knownFindings()
	for try := 0; ; try++ {
		x := runCase(c)
		for _, v := range x.Viol {
			if verbose {
				fmt.Fprintf(out, "%s: %s\n", v.Class, v.Detail)
			}
		}
		for _, v := range x.Viol {
			if (want == "" || v.Class == want) && matchKnown(ks, c.Prop, v.Class, v.Detail) == nil {
				fmt.Fprintf(out, "reproduced: property=%s class=%s hash=%016x\n  %s\n", c.Prop, v.Class, x.Hash, v.Detail)
				if strings.HasPrefix(v.Class, "race") {
					for _, r := range raceReports() {
						fmt.Fprintln(out, "  "+r)
					}
				}
				os.Exit(1)
			}
		}
		// the race detector keeps a bounded number of past accesses, so that one pass over the
		// same execution can miss; the execution itself does not change
		if strings.HasPrefix(want, "race") && try < 4 {
			continue
		}
		fmt.Fprintf(out, "not reproduced: property=%s class=%s hash=%016x\n", c.Prop, want, x.Hash)
		os.Exit(0)
	}
}

// hashes prints the event hash of each run, for the determinism check.
func hashes(a []string) {
	needEnv()
	p := props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	out := mute()
	warm()
	for i := atoi(a[2]); i < atoi(a[3]); i++ {
		x := runCase(caseOf(p, seed, i, "quick"))
		cl := ""
		if len(x.Viol) > 0 {
			cl = x.Viol[0].Class
		}
		fmt.Fprintf(out, "%s %d %016x %016x %s\n", p.ID, i, x.Hash, x.Sched, cl)
	}
}

// show runs cases and prints what they found.
func show(a []string) {
	needEnv()
	p := props[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	out := mute()
	warm()
	classes := map[string]int{}
	first := map[string]string{}
	for i := atoi(a[2]); i < atoi(a[3]); i++ {
		t := time.Now()
		c := caseOf(p, seed, i, "quick")
		x := runCase(c)
		for _, v := range x.Viol {
			classes[v.Class]++
			if first[v.Class] == "" {
				first[v.Class] = fmt.Sprintf("run %d (%s): %s", i, c.Scn, v.Detail)
			}
		}
		fmt.Fprintf(out, "%d %s worlds=%d req=%d decide=%d choice=%d disk=%d viol=%d %.2fs probes=%v faults=%v\n", i, c.Scn, x.M.Worlds, x.M.Requests, x.M.Decides, x.M.Choices, x.M.DiskOps, len(x.Viol), time.Since(t).Seconds(), x.M.Probes, x.M.Faults)
	}
	ks := sortedKeys(classes)
	sort.Slice(ks, func(i, j int) bool { return classes[ks[i]] > classes[ks[j]] })
	for _, k := range ks {
		d := first[k]
		if len(d) > 1500 {
			d = d[:1500]
		}
		fmt.Fprintf(out, "## %s x%d\n   %s\n", k, classes[k], d)
	}
	if len(ks) > 0 {
		for _, r := range raceReports() {
			fmt.Fprintln(out, r)
		}
	}
}
