package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"flag"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/google/uuid"

	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/vsim"
	"ecksbee.com/telefacts/vsim/app"
	"ecksbee.com/telefacts/vsim/shttp"
	"ecksbee.com/telefacts/vsim/sos"
	"ecksbee.com/telefacts/vsim/srand"
)

// PolSpec is the written form of a scheduling and fault policy.
type PolSpec struct {
	Seed     uint64   `json:"seed"`
	Switch   float64  `json:"switch"`
	Pre      int      `json:"pre,omitempty"`
	Prio     bool     `json:"prio,omitempty"`
	Order    int      `json:"order,omitempty"`
	Bias     bool     `json:"bias,omitempty"`
	Maps     bool     `json:"maps,omitempty"`
	Rate     float64  `json:"rate,omitempty"`
	Kinds    []string `json:"kinds,omitempty"`
	MaxFault int      `json:"maxfault,omitempty"`
	On       string   `json:"on,omitempty"` // only paths holding this text are hit
	CrashAt  int      `json:"crashat,omitempty"`
	Clock    int      `json:"clock,omitempty"` // hours the clock is off
	Zone     int      `json:"zone,omitempty"`  // hours east of Greenwich
}

// Op is one client action.
type Op struct {
	C    int    `json:"c"`
	Kind string `json:"kind"` // cat net doc fact nofact badhash xnet xfact xdoc raw
	F    int    `json:"f"`
	N    int    `json:"n,omitempty"`
	Path string `json:"path,omitempty"`
	Wait int64  `json:"wait,omitempty"` // milliseconds of simulated time before it
	Net  string `json:"net,omitempty"`  // how the client takes the answer: slow stuck gone
	Lag  int64  `json:"lag,omitempty"`  // slow: milliseconds per KB; else when it goes away, negative: turns
}

func (op *Op) line() *shttp.Line {
	switch op.Net {
	case "slow":
		return &shttp.Line{PerKB: op.Lag * 1e6}
	case "stuck":
		return &shttp.Line{Stuck: true, Leave: op.Lag > 0, After: op.Lag * 1e6}
	case "gone":
		if op.Lag < 0 {
			return &shttp.Line{Leave: true, Turns: int(-op.Lag)}
		}
		return &shttp.Line{Leave: true, After: op.Lag * 1e6}
	}
	return nil
}

// Case is everything a run depends on.
type Case struct {
	Prop    string          `json:"property"`
	Scn     string          `json:"scenario"`
	Seed    uint64          `json:"seed"`
	Filings []FSpec         `json:"filings,omitempty"`
	Names   string          `json:"names,omitempty"`
	Ops     []Op            `json:"ops,omitempty"`
	Pol     PolSpec         `json:"policy"`
	Knob    map[string]int  `json:"knob,omitempty"`
	Dec     *vsim.Decisions `json:"decisions,omitempty"`
	Class   string          `json:"class,omitempty"`
	Detail  string          `json:"detail,omitempty"`
	Races   []string        `json:"races,omitempty"`
	Hash    string          `json:"hash,omitempty"`
}

func (c *Case) knob(k string) int { return c.Knob[k] }

type Violation struct {
	Class  string
	Detail string
}

// Exec runs one case and collects what happened.
type Exec struct {
	c          *Case
	Viol       []Violation
	M          Measures
	Hash       uint64
	Sched      uint64
	Dec        vsim.Decisions
	fil        []*Filing
	env        map[string]string // of the process
	worlds     int
	Nontrivial bool
}

// Measures are summed over runs.
type Measures struct {
	Worlds   int            `json:"worlds"`
	Requests int            `json:"requests"`
	Decides  int            `json:"decides"`
	Choices  int            `json:"choices"`
	Switches int            `json:"switches"`
	Preempts int            `json:"preempts"`
	MapDevs  int            `json:"mapdevs"`
	Tasks    int            `json:"tasks"`
	SimNs    int64          `json:"simns"`
	DiskOps  int            `json:"diskops"`
	Checks   int            `json:"checks"` // comparisons made by the oracles
	Faults   map[string]int `json:"faults,omitempty"`
	Crashes  int            `json:"crashes"`
	Refs     int            `json:"refs"`
	Probes   map[string]int `json:"probes,omitempty"` // situations that were reached
}

func (x *Exec) probe(name string, n int) {
	if n == 0 {
		return
	}
	if x.M.Probes == nil {
		x.M.Probes = map[string]int{}
	}
	x.M.Probes[name] += n
}

func (x *Exec) fail(class, format string, args ...any) {
	if len(x.Viol) < 20 {
		x.Viol = append(x.Viol, Violation{class, fmt.Sprintf(format, args...)})
	}
}

func (x *Exec) filings() []*Filing {
	if x.fil == nil {
		for i := range x.c.Filings {
			x.fil = append(x.fil, buildCached(&x.c.Filings[i]))
		}
	}
	return x.fil
}

var built = map[string]*Filing{}

func buildCached(sp *FSpec) *Filing {
	k := fmt.Sprintf("%+v", *sp)
	if f, ok := built[k]; ok {
		return f
	}
	if len(built) > 64 {
		built = map[string]*Filing{}
	}
	f := Build(sp)
	built[k] = f
	return f
}

// disk lists the files a case starts with.
func (x *Exec) disk() map[string][]byte {
	out := map[string][]byte{}
	for k, v := range globalFiles() {
		out["/app/"+k] = v
	}
	out["/app/goldlord-midas/index.html"] = []byte("<html>home</html>")
	for _, f := range x.filings() {
		for n, b := range f.Files {
			out["/app/wd/folders/"+f.Spec.ID+"/"+n] = b
		}
	}
	if b := namesFile(x.c.Names, x.filings()); b != nil {
		out["/app/wd/names.json"] = b
	}
	return out
}

func displayName(e [2]string) string { return "Entity " + e[1] + " of " + e[0] }

func namesFile(mode string, fil []*Filing) []byte {
	switch mode {
	case "absent":
		return nil
	case "garbage":
		return []byte(`{"http://www.sec.gov/CIK": {"00`)
	case "empty":
		return []byte{}
	case "wrongtype":
		return []byte(`["a", 1]`)
	case "wrongtype2":
		return []byte(`{"http://www.sec.gov/CIK": "x"}`)
	case "null":
		return []byte(`null`)
	case "emptymap":
		return []byte(`{}`)
	}
	m := map[string]map[string]string{}
	put := func(s, e, n string) {
		if m[s] == nil {
			m[s] = map[string]string{}
		}
		if m[s][e] == "" {
			m[s][e] = n
		}
	}
	for _, f := range fil {
		for _, e := range f.Entities {
			if m[e[0]] == nil {
				m[e[0]] = map[string]string{}
			}
			m[e[0]][e[1]] = displayName(e)
		}
	}
	// entries that are nearly those of the entities
	for _, f := range fil {
		for _, e := range f.Entities {
			put(e[0], strings.TrimLeft(e[1], "0"), "Wrong, no zeros")
			put(e[0], "0"+e[1], "Wrong, one more zero")
			put(e[0], e[1]+" ", "Wrong, trailing space")
			put(e[0]+"/", e[1], "Wrong, other scheme")
			put(strings.ToLower(e[0]), e[1], "Wrong, lower case scheme")
			put("", e[1], "Wrong, no scheme")
		}
	}
	var b strings.Builder
	b.WriteString("{")
	if mode == "partly" {
		b.WriteString(`"http://partly.example/":{"1":2},`)
	}
	for i, s := range sortedKeys(m) {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "%q:{", s)
		for j, e := range sortedKeys(m[s]) {
			if j > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%q:%q", e, m[s][e])
		}
		b.WriteString("}")
	}
	b.WriteString("}")
	return []byte(b.String())
}

func diskKey(d map[string][]byte) string {
	h := sha256.New()
	for _, k := range sortedKeys(d) {
		fmt.Fprintf(h, "%s\x00%d\x00", k, len(d[k]))
		h.Write(d[k])
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// Sim is one simulated machine: a disk, a clock, and at most one process at a time.
type Sim struct {
	zone  int
	rand  uint64
	w     *vsim.World
	x     *Exec
	races int
	main  bool
}

const stepLimit = 3_000_000

// steps allows larger filings more: every fact is looked at for every cell.
func (x *Exec) steps() int64 {
	n := int64(stepLimit)
	for _, sp := range x.c.Filings {
		if k := int64(sp.NCon*sp.NCtx) * 10 / 60; k > 10 {
			n = max(n, stepLimit*k*k/100)
		}
	}
	return n
}

// an ordinary run takes a few thousand decisions and some hundred goroutines
const maxTasks = 800

var maxDecide = 40_000

func (x *Exec) policy() vsim.Policy {
	p := x.c.Pol
	pol := vsim.Policy{Seed: p.Seed, SwitchProb: p.Switch, PreGap: p.Pre, Prio: p.Prio, Order: p.Order, SiteBias: p.Bias, MapShuffle: p.Maps,
		FaultRate: p.Rate, FaultKinds: p.Kinds, FaultMax: p.MaxFault, CrashAt: p.CrashAt, StepLimit: x.steps(), MaxDecide: maxDecide, MaxTasks: maxTasks, Replay: x.c.Dec, Clock: int64(p.Clock) * 3600e9}
	if p.On != "" {
		on := strings.Split(p.On, "|")
		pol.FaultPath = func(op, path string) bool {
			for _, o := range on {
				if strings.Contains(path, o) {
					return true
				}
			}
			return false
		}
	}
	return pol
}

// explore makes the machine whose decisions the case explores. There is one per case.
func (x *Exec) explore(disk map[string][]byte) *Sim { return x.exploreAs(x.policy(), disk) }

func (x *Exec) exploreAs(pol vsim.Policy, disk map[string][]byte) *Sim {
	s := x.machine(pol, disk)
	s.zone = x.c.Pol.Zone
	s.rand = x.c.Seed ^ 77
	return s
}

// quiet makes a machine with the default schedule and no faults, for reference answers.
func (x *Exec) quiet(disk map[string][]byte) *Sim {
	x.M.Refs++
	return x.machine(vsim.Policy{StepLimit: x.steps() * 4, MaxDecide: maxDecide, MaxTasks: maxTasks, Replay: &vsim.Decisions{}}, disk)
}

func (x *Exec) machine(pol vsim.Policy, disk map[string][]byte) *Sim {
	s := &Sim{w: vsim.NewWorld(pol), x: x}
	s.w.FS.PutDir("/app/wd/folders")
	for _, k := range sortedKeys(disk) {
		s.w.FS.Put(k, disk[k])
	}
	return s
}

var appArgs = []string{"telefacts"}

// image prepares what a process finds when it starts.
func (s *Sim) image(args ...string) {
	shttp.Reset()
	sos.ResetTemp()
	sos.Env = map[string]string{}
	for k, v := range s.x.env {
		sos.Env[k] = v
	}
	srand.Seeded = vsim.NewRand(s.rand)
	time.Local = time.FixedZone("", s.zone*3600)
	uuid.SetRand(srand.Reader)
	flag.CommandLine = flag.NewFlagSet("telefacts", flag.ContinueOnError)
	os.Args = append(append([]string{}, appArgs...), args...)
}

// boot starts the program. Its first act is to put every package variable to its initial value.
func (s *Sim) boot(args ...string) {
	s.image(args...)
	s.main = true
	s.w.Spawn("main", false, func() {
		vsim.ResetGlobals()
		app.Main()
		vsim.ProcExit(0)
	})
}

// library prepares the packages for direct use, the way main does, without a server.
func (s *Sim) library() {
	s.image()
	s.w.Spawn("init", true, func() {
		vsim.ResetGlobals()
		serializables.WorkingDirectoryPath = "/app/wd"
		serializables.GlobalTaxonomySetPath = "/app/gts"
	})
	s.run()
}

// run schedules until the clients are done and takes the race count before anything else can
// touch the memory of the tasks.
func (s *Sim) run() vsim.EndReason {
	before := vsim.RaceErrors()
	end := s.w.Run()
	s.races += vsim.RaceErrors() - before
	if end != vsim.EndDone {
		return end
	}
	s.w.Join()
	return end
}

// close ends the machine and adds its measures to the run.
func (s *Sim) close(explored bool) {
	w := s.w
	w.Kill()
	x := s.x
	x.M.Worlds++
	x.M.Decides += w.NDecide
	x.M.SimNs += w.Now - w.Start
	x.M.DiskOps += w.FS.NOps
	x.M.Tasks += w.NSpawn
	if explored {
		x.M.Choices += w.NChoice
		x.M.Switches += w.NSwitch
		x.M.Preempts += w.NPre
		x.Dec = w.Recorded()
		x.M.MapDevs += len(x.Dec.Maps)
		if x.M.Faults == nil {
			x.M.Faults = map[string]int{}
		}
		for k, n := range w.FaultsHit {
			x.M.Faults[k] += n
		}
		x.Hash = w.Hash
		x.Sched = w.SchedHash
	}
}

// Rec is what a client saw of one request.
type Rec struct {
	Op   int
	URL  string
	Sent bool
	Code int
	Body []byte
	Out  shttp.Outcome
	NoUp bool  // the server never came up
	Took int64 // simulated nanoseconds
}

func (r *Rec) answered() bool {
	return r.Sent && !r.Out.Refused && !r.Out.Aborted && !r.Out.Late && !r.Out.Gone && !r.Out.Lost
}

func (r *Rec) String() string {
	switch {
	case !r.Sent:
		return "no answer"
	case r.NoUp:
		return "server not up"
	case r.Out.Refused:
		return "connection refused"
	case r.Out.Aborted:
		return "connection aborted: " + r.Out.Panic + " " + vsim.Frames(r.Out.Stack)
	case r.Out.Late:
		return fmt.Sprintf("answer after the write timeout (%d)", r.Code)
	}
	if r.Out.Gone || r.Out.Lost {
		return "the client went away"
	}
	return fmt.Sprintf("%d, %d bytes", r.Code, len(r.Body))
}

func waitUp() bool {
	for i := 0; i < 4000; i++ {
		if shttp.Up() {
			return true
		}
		vsim.Sleep(50e6)
	}
	return false
}

// get performs one request from a client task.
func get(rec *Rec, target string) { getOver(rec, target, nil) }

func getOver(rec *Rec, target string, line *shttp.Line) {
	rec.URL = target
	req := newReq(target)
	if req == nil {
		return
	}
	w := httptest.NewRecorder()
	from := vsim.NowNanos()
	shttp.Deliver(&rec.Out, w, req, line)
	rec.Took = vsim.NowNanos() - from
	rec.Code = w.Code
	rec.Body = w.Body.Bytes()
	rec.Sent = true
}

// newReq makes a request. A target may start with a method.
func newReq(target string) *http.Request {
	method := "GET"
	if m, rest, ok := strings.Cut(target, " "); ok {
		method, target = m, rest
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return nil
	}
	req := httptest.NewRequest(method, "http://localhost:8080/", nil)
	req.URL = u
	req.RequestURI = target
	req.Host = "localhost:8080"
	return req
}

// Answer is a reference answer.
type Answer struct {
	Code int
	Body []byte
	Bad  string // why there is none
}

func (a Answer) ok() bool { return a.Bad == "" && a.Code >= 200 && a.Code < 300 }

func (a Answer) String() string {
	if a.Bad != "" {
		return a.Bad
	}
	return fmt.Sprintf("%d, %d bytes", a.Code, len(a.Body))
}

type refKey struct{ disk, env, url string }

var refs = map[refKey]Answer{}
var refsSize int

// cold is the answer of a freshly started server over the given files.
func (x *Exec) cold(disk map[string][]byte, dk, target string) Answer {
	k := refKey{dk, fmt.Sprint(x.env), target}
	if a, ok := refs[k]; ok {
		return a
	}
	s := x.quiet(disk)
	s.boot()
	rec := &Rec{}
	s.w.Spawn("client", true, func() {
		if !waitUp() {
			return
		}
		get(rec, target)
	})
	end := s.run()
	var a Answer
	switch {
	case end != vsim.EndDone:
		a.Bad = s.story(end)
	case !rec.Sent:
		a.Bad = "no server"
	case !rec.answered():
		a.Bad = rec.String()
	default:
		a = Answer{Code: rec.Code, Body: rec.Body}
	}
	s.close(false)
	if refsSize > 64<<20 {
		refs, refsSize = map[refKey]Answer{}, 0
	}
	refs[k] = a
	refsSize += len(a.Body) + 100
	return a
}

// story says how a process ended.
func (s *Sim) story(end vsim.EndReason) string {
	w := s.w
	switch end {
	case vsim.EndPanic:
		return fmt.Sprintf("the process crashed: %s in %s [%s]", w.PanicVal, w.PanicSite, vsim.Frames(w.PanicStk))
	case vsim.EndDeadlock:
		return "the process is wedged: " + strings.Join(w.Blocked(), "; ")
	case vsim.EndSteps:
		return "the process does not finish: " + w.PanicSite
	case vsim.EndExit:
		return fmt.Sprintf("the process exited with status %d", w.ExitCode)
	case vsim.EndCrash:
		return "killed"
	}
	return string(end)
}

// targets lists the requests a filing answers, by kind.
func (x *Exec) targets(disk map[string][]byte, dk string, f *Filing) map[string][]string {
	id := url.PathEscape(f.Spec.ID)
	base := "/folders/" + id
	out := map[string][]string{"cat": {base}}
	a := x.cold(disk, dk, base)
	if a.ok() {
		for _, h := range networkHashes(a.Body) {
			out["net"] = append(out["net"], base+"/"+h)
		}
	}
	out["doc"] = []string{base + "/" + f.Entry}
	q := func(n, c string) string {
		return base + "/facts?name=" + url.QueryEscape(n) + "&contextref=" + url.QueryEscape(c)
	}
	seen := map[string]bool{}
	for _, t := range f.Tagged {
		u := q(t[0], t[1])
		if !seen[u] {
			seen[u] = true
			out["fact"] = append(out["fact"], u)
		}
	}
	for i, ft := range f.Facts {
		c := f.Ctx[(ft.Ctx+1)%len(f.Ctx)].ID
		if u := q(f.docname(ft.Con), c); !seen[u] && i < 20 {
			out["nofact"] = append(out["nofact"], u)
		}
	}
	// the same letters with the border between name and context elsewhere, and near misses
	for i, t := range f.Tagged {
		n, c := t[0], t[1]
		if i < 6 && len(c) > 1 {
			out["nofact"] = append(out["nofact"], q(n+c[:1], c[1:]), q(n[:len(n)-1], n[len(n)-1:]+c), q(strings.ToLower(n), c), q(n, strings.ToUpper(c)), q(n+" ", c))
		}
	}
	out["nofact"] = append(out["nofact"], q("p0:Nothing", "ctx0"), q("Nothing", "ctx0"), q("p0:Con0", "nowhere"), q("", ""))
	for i, u := range out["net"] {
		if h := u[len(base)+1:]; i < 3 && len(h) > 2 {
			out["badhash"] = append(out["badhash"], base+"/"+strings.ToUpper(h), base+"/"+h[:len(h)-1], base+"/"+h+"0", base+"/"+h[1:], base+"/%20"+h)
		}
	}
	out["badhash"] = append(out["badhash"], base+"/00000000000000000000000000000000", base+"/zz", base+"/other.htm", base+"/_", base+"/report.htm.xml")
	return out
}

// resolve turns an operation into a request target.
func resolve(op *Op, tg []map[string][]string) string {
	if op.Kind == "raw" {
		return op.Path
	}
	if len(tg) == 0 {
		return "/"
	}
	t := tg[op.F%len(tg)]
	switch op.Kind {
	case "xnet", "xfact", "xdoc":
		// what another filing answers, asked of this one
		if l := tg[(op.F+1)%len(tg)][op.Kind[1:]]; len(l) > 0 && len(tg) > 1 {
			u := l[op.N%len(l)]
			if i := strings.IndexByte(u[len("/folders/"):], '/'); i >= 0 {
				return t["cat"][0] + u[len("/folders/")+i:]
			}
		}
	}
	l := t[op.Kind]
	if len(l) == 0 {
		l = t["cat"]
	}
	return l[op.N%len(l)]
}

// clients spawns one task per client of the case and returns their records once run is over.
func (s *Sim) clients(ops []Op, tg []map[string][]string, late bool) [][]Rec {
	byC := map[int][]int{}
	var order []int
	for i := range ops {
		c := ops[i].C
		if byC[c] == nil {
			order = append(order, c)
		}
		byC[c] = append(byC[c], i)
	}
	sort.Ints(order)
	recs := make([][]Rec, len(order))
	for k, c := range order {
		idx := byC[c]
		targets := make([]string, len(idx))
		waits := make([]int64, len(idx))
		lines := make([]*shttp.Line, len(idx))
		mine := make([]Rec, len(idx))
		for j, i := range idx {
			targets[j] = resolve(&ops[i], tg)
			waits[j] = ops[i].Wait
			lines[j] = ops[i].line()
			mine[j].Op = i
			mine[j].URL = targets[j]
		}
		recs[k] = mine
		s.w.Spawn("client", true, func() {
			if !waitUp() {
				return
			}
			for j := range mine {
				if waits[j] > 0 {
					vsim.Sleep(waits[j] * 1e6)
				}
				getOver(&mine[j], targets[j], lines[j])
			}
		})
	}
	return recs
}

func same(a Answer, r *Rec) bool {
	if a.Code != r.Code {
		return false
	}
	return a.Code < 200 || a.Code >= 300 || bytes.Equal(a.Body, r.Body)
}

// diff shows where two bodies part.
func diff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s []byte) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return string(s[lo:hi])
	}
	return fmt.Sprintf("at byte %d: expected %q, got %q", i, cut(a), cut(b))
}
