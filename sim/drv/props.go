package main

import (
	"fmt"
	"net/url"
	"strings"

	"ecksbee.com/telefacts/vsim"
)

// drawSpec draws a filing. Every feature is on or off per filing, so that a run has few of them
// and all combinations come up.
func drawSpec(r *vsim.Rand, id string, feats []string, density float64) FSpec {
	sp := FSpec{ID: id, Seed: r.U64(), NCon: 3 + r.Intn(8), NCtx: 1 + r.Intn(6), NRole: 1 + r.Intn(3), NSch: r.Intn(3), Fill: 25 + r.Intn(75)}
	if r.Chance(0.05) { // a large one
		switch r.Intn(3) {
		case 0:
			sp.NCon = 11 + r.Intn(20)
		case 1:
			sp.NCtx = 7 + r.Intn(20)
		case 2:
			sp.NRole = 4 + r.Intn(6)
		}
	}
	for _, f := range feats {
		if r.Chance(density) {
			sp.Feats = append(sp.Feats, f)
		}
	}
	return sp
}

// with makes sure that a filing has some features.
func with(sp FSpec, feats ...string) FSpec {
	for _, f := range feats {
		if !sp.has(f) {
			sp.Feats = append(sp.Feats, f)
		}
	}
	return sp
}

// drawPol draws a scheduling policy.
func drawPol(r *vsim.Rand) PolSpec {
	p := PolSpec{Seed: r.U64(), Switch: []float64{0.02, 0.1, 0.3, 0.6, 0.95}[r.Intn(5)]}
	switch r.Intn(4) {
	case 0:
		p.Prio, p.Order = true, r.Intn(4)
		p.Switch = []float64{0.005, 0.03, 0.1}[r.Intn(3)]
	case 1:
		p.Bias = true
	}
	if r.Chance(0.5) {
		p.Pre = []int{5, 20, 100, 500, 3000}[r.Intn(5)]
	}
	if r.Chance(0.6) { // from 2008, before what the filings report, to 2038
		p.Clock = 24*365*(r.Intn(30)-16) + r.Intn(24*365)
	}
	p.Zone = []int{0, 0, -11, 14}[r.Intn(4)]
	return p
}

// drawFaults adds storage faults to a policy.
func drawFaults(r *vsim.Rand, p *PolSpec, kinds []string) {
	p.Rate = []float64{0.004, 0.015, 0.05, 0.2}[r.Intn(4)]
	p.MaxFault = 1 + r.Intn(6)
	if r.Chance(0.12) {
		p.Rate, p.MaxFault = 0.6, 40
	}
	for _, k := range kinds {
		if r.Chance(0.5) {
			p.Kinds = append(p.Kinds, k)
		}
	}
	if len(p.Kinds) == 0 {
		p.Kinds = kinds[r.Intn(len(kinds)):][:1]
	}
}

var reqKinds = []string{"cat", "cat", "net", "net", "net", "doc", "fact", "fact", "nofact", "badhash", "xnet", "xfact", "xdoc"}

func drawOps(r *vsim.Rand, nFil, maxClients, maxOps int, kinds []string) []Op {
	nc := 1 + r.Intn(maxClients)
	n := 1 + r.Intn(maxOps)
	var out []Op
	for i := 0; i < n; i++ {
		o := Op{C: r.Intn(nc), Kind: kinds[r.Intn(len(kinds))], F: r.Intn(nFil), N: r.Intn(40)}
		if i > 0 && r.Chance(0.3) { // the same request again, perhaps by someone else
			o = out[r.Intn(len(out))]
			o.C = r.Intn(nc)
		}
		if r.Chance(0.15) {
			o.Wait = int64(r.Intn(2000))
		}
		out = append(out, o)
		if o.Kind[0] == 'x' && r.Chance(0.5) { // and of the filing that has it
			out = append(out, Op{C: r.Intn(nc), Kind: o.Kind[1:], F: (o.F + 1) % nFil, N: o.N})
		}
	}
	return out
}

// drawRaw draws a request that was not made for any filing.
func drawRaw(r *vsim.Rand, ids []string) string {
	id := ids[r.Intn(len(ids))]
	weird := []string{"names.json", "http://www.xbrl.org/lrr/role/2003-07-31.xsd", "http://www.xbrl.org/2003/xbrl-role-2003-07-31.xsd", "http://www.xbrl.org/utr/utr.xml",
		globalLoc(r.Intn(nGlobals)), id + "/", id + "/report.htm", "..", ".", "_", "nosuch", "a:b", " ", "%", "\x00", "names", "facts", "folders",
		"0000000000000000000000000000000000000000000000000000000000000000", "ünï", string(make([]byte, 0)), "x y", "-1", id + "x", id[:len(id)-1], "%2e%2e", "%2e%2e%2fwd", "..%2fbait", "..\\bait", id + "%2f..%2fbait"}
	w := func() string { return weird[r.Intn(len(weird))] }
	esc := url.PathEscape
	q := func(n, c string) string {
		return "/facts?name=" + url.QueryEscape(n) + "&contextref=" + url.QueryEscape(c)
	}
	names := []string{"p0:Con0", "p0:Con1", "p0:Con0:ctx0", "p0", ":", "", "Con0", "p9:Con0", "p0:Nope", "p0:", ":Con0", "p0:Con0/", "%zz"}
	ctxs := []string{"ctx0", "ctx1", "", "Con0:ctx0", ":ctx0", "nope", "ctx0 ", "ctx0/"}
	switch r.Intn(12) {
	case 0, 1:
		return "/folders/" + esc(w())
	case 2:
		return "/folders/" + esc(w()) + "/" + esc(w())
	case 3, 4:
		return "/folders/" + esc(id) + "/" + esc(w())
	case 5, 6, 7:
		return "/folders/" + esc(id) + q(names[r.Intn(len(names))], ctxs[r.Intn(len(ctxs))])
	case 8:
		return "/folders/" + esc(w()) + q(names[r.Intn(len(names))], ctxs[r.Intn(len(ctxs))])
	case 9:
		return "/folders/" + esc(id) + "/" + []string{"facts?name=%zz&contextref=%", "facts", "facts?contextref=ctx0", "facts?name=p0%3ACon0", "facts?;=;", "facts?name=%25zz&contextref=ctx0", "facts/"}[r.Intn(7)]
	case 10:
		return []string{"/", "/index.html", "/folders", "/folders/", "/folders//", "/nosuch.js", "/../wd/names.json", "/%2e%2e/wd/names.json", "/folders/" + id + "//", "/folders/" + id + "/"}[r.Intn(10)]
	}
	return "/folders/" + esc(id) + "/" + []string{"report.htm", "report.xhtml", "report.xml", "x.htm", ".htm", "s0.xsd", "report.htm.xml", "pre0.xml"}[r.Intn(8)]
}

func drawRawOps(r *vsim.Rand, ops []Op, ids []string, n int) []Op {
	nc := 1
	for _, o := range ops {
		if o.C >= nc {
			nc = o.C + 1
		}
	}
	for ; n > 0; n-- {
		o := Op{C: r.Intn(nc), Kind: "raw", Path: drawRaw(r, ids)}
		if r.Chance(0.1) {
			o.Path = []string{"POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"}[r.Intn(6)] + " " + o.Path
		}
		at := r.Intn(len(ops) + 1)
		ops = append(ops[:at:at], append([]Op{o}, ops[at:]...)...)
	}
	return ops
}

func fileIDs(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("fil%d", i))
	}
	return out
}

// relate makes some filings those of one filer, or editions of one filing.
func relate(c *Case, fr *vsim.Rand, n int) {
	for i := 1; i < n; i++ {
		a := &c.Filings[i]
		switch fr.Intn(5) {
		case 0:
			a.Brand, a.Ent = c.Filings[0].brand(), c.Filings[0].ent()
		case 1, 2:
			b := c.Filings[0]
			b.ID, b.Brand, b.Ent, b.Alt = a.ID, b.brand(), b.ent(), i
			b.Feats = append([]string(nil), b.Feats...)
			*a = b
		}
	}
}

// drawFilings draws n filings named fil0, fil1 and so on.
func drawFilings(c *Case, fr *vsim.Rand, max int, feats []string) int {
	n := 1 + fr.Intn(max)
	for _, id := range fileIDs(n) {
		c.Filings = append(c.Filings, drawSpec(fr, id, feats, []float64{0.15, 0.35, 0.6}[fr.Intn(3)]))
	}
	relate(c, fr, n)
	return n
}

// world prepares the reference side of a case: the disk and the requests each filing answers.
func (x *Exec) world() (disk map[string][]byte, dk string, tg []map[string][]string) {
	disk = x.disk()
	dk = diskKey(disk)
	for _, f := range x.filings() {
		tg = append(tg, x.targets(disk, dk, f))
	}
	return disk, dk, tg
}

// up runs the machine until the server listens.
func (s *Sim) up() bool {
	ok := false
	s.w.Spawn("client", true, func() { ok = waitUp() })
	end := s.run()
	return end == vsim.EndDone && ok
}

// phase lets the clients of ops do their requests.
func (s *Sim) phase(ops []Op, tg []map[string][]string) ([]Rec, vsim.EndReason) {
	byClient := s.clients(ops, tg, false)
	end := s.run()
	s.x.M.Requests += len(ops)
	var out []Rec
	for _, rs := range byClient {
		out = append(out, rs...)
	}
	for i := range out {
		if o := &out[i].Out; ops[out[i].Op].Net != "" && o.Accepted && (o.Slow || o.Lost || o.Gone) {
			s.x.netFault(ops[out[i].Op].Net + " client")
		}
	}
	return out, end
}

func (x *Exec) netFault(kind string) {
	if x.M.Faults == nil {
		x.M.Faults = map[string]int{}
	}
	x.M.Faults[kind]++
}

// drawLines makes some requests those of clients that are slow, stop reading or go away.
func drawLines(r *vsim.Rand, ops []Op, p float64) {
	for i := range ops {
		if !r.Chance(p) {
			continue
		}
		o := &ops[i]
		switch o.Net = []string{"slow", "stuck", "gone", "gone"}[r.Intn(4)]; o.Net {
		case "slow":
			o.Lag = []int64{5, 50, 500, 5000}[r.Intn(4)]
		case "stuck":
			o.Lag = []int64{0, 500, 5000, 60000}[r.Intn(4)]
		case "gone":
			o.Lag = []int64{0, -1, -5, -30, -150, 1, 300, 3000}[r.Intn(8)]
		}
		o.C += 10
	}
}

// serve runs the requests of the case in one explored process and has every answer judged.
func (x *Exec) serve(judge func(r *Rec, a Answer)) {
	disk, dk, tg := x.world()
	s := x.explore(disk)
	s.boot()
	recs, end := s.phase(x.c.Ops, tg)
	story := s.story(end)
	s.close(true)
	if end != vsim.EndDone {
		x.fail("process", "%s", story)
	}
	for i := range recs {
		judge(&recs[i], x.cold(disk, dk, recs[i].URL))
	}
	x.Nontrivial = x.Nontrivial || len(x.c.Ops) > 1 && x.M.Choices > 0
}

// exact is the judgement that an answer is the one of a fresh server.
func (x *Exec) exact(r *Rec, a Answer) bool {
	x.M.Checks++
	if a.Bad != "" {
		x.fail("nocold", "%s: a fresh server does not answer: %s", r.URL, a.Bad)
		return false
	}
	if !r.answered() {
		x.fail("noanswer", "%s: %s; a fresh server answers %s", r.URL, r, a)
		return false
	}
	if !same(a, r) {
		x.fail("answer", "%s: %s; a fresh server answers %s; %s", r.URL, r, a, diff(a.Body, r.Body))
		return false
	}
	return true
}

const ruleServe = "a run counts when at least two requests were made and the scheduler had a choice; distinct by filings, requests and interleaving"

var readFaults = []string{"eio", "eacces", "emfile", "eioread", "short", "stall"}

func init() {
	register(&Prop{ID: "C01", Level: "exploration", Quick: 2500, Thorough: 25000, Rule: ruleServe,
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 3, allFeats)
			c.Scn = "mix"
			c.Ops = drawOps(r, n, 4, 14, reqKinds)
			if r.Chance(0.5) {
				c.Scn = "mix and unknown names"
				c.Ops = drawRawOps(r, c.Ops, fileIDs(n), 1+r.Intn(6))
			}
			c.Pol = drawPol(r)
		},
		Run: func(x *Exec) {
			x.serve(func(r *Rec, a Answer) { x.exact(r, a) })
		}})

	register(&Prop{ID: "C02", Level: "exploration", Quick: 2500, Thorough: 25000, Rule: ruleServe,
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, append([]string{"twicecon"}, allFeats...))
			c.Scn = "map orders and schedules"
			c.Ops = drawOps(r, n, 3, 8, []string{"cat", "net", "net", "net", "fact", "doc"})
			c.Pol = drawPol(r)
			c.Pol.Maps = true
			if r.Chance(0.3) {
				c.Scn = "map orders, schedules and slow storage"
				c.Pol.Rate, c.Pol.MaxFault, c.Pol.Kinds = 0.02, 10, []string{"short", "stall"}
			}
		},
		Run: func(x *Exec) {
			x.serve(func(r *Rec, a Answer) {
				if r.Out.Late || r.Sent && r.Out.Refused {
					return
				}
				x.exact(r, a)
			})
		}})

	register(&Prop{ID: "C05", Level: "exploration", Quick: 3000, Thorough: 30000,
		Rule: "a run counts when at least one storage fault other than a delay hit an operation of a request; distinct by filings, requests, faults and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			c.Ops = drawOps(r, n, 3, 8, []string{"cat", "cat", "net", "net", "doc", "fact", "badhash"})
			c.Pol = drawPol(r)
			c.Scn = "read faults"
			drawFaults(r, &c.Pol, readFaults)
			if r.Chance(0.2) {
				c.Scn = "faults on reference files"
				c.Pol.On = "gts/|names.json"
				c.Pol.Rate = 0.5
				for i := range c.Filings {
					c.Filings[i] = with(c.Filings[i], "global", "units")
				}
				if r.Chance(0.6) {
					c.Scn = "faults on reference files since the start"
					c.Knob["boot"] = 1
				}
			}
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			s := x.explore(disk)
			if x.c.knob("boot") == 0 {
				s.w.FaultsOff()
			}
			s.boot()
			if !s.up() {
				x.fail("noserver", "the server does not start: %s", s.story(s.w.End))
				s.close(true)
				return
			}
			s.w.FaultsOn()
			recs, end := s.phase(x.c.Ops, tg)
			story := s.story(end)
			names, hard := false, 0
			for _, f := range s.w.FaultedPaths {
				names = names || f.Path == "/app/wd/names.json"
				if f.Kind != "stall" && f.Kind != "short" {
					hard++
				}
			}
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
			}
			for i := range recs {
				r := &recs[i]
				a := x.cold(disk, dk, r.URL)
				x.M.Checks++
				switch {
				case a.Bad != "":
					x.fail("nocold", "%s: a fresh server does not answer: %s", r.URL, a.Bad)
				case r.Out.Late:
				case !r.answered():
					x.fail("noanswer", "%s: %s", r.URL, r)
				case r.Code >= 400:
					if hard == 0 && a.Code < 400 {
						x.fail("error", "%s: %s although no operation failed", r.URL, r)
					}
					x.probe("error answer", 1)
				case same(a, r):
					x.probe("exact answer", 1)
				case names && r.Code == a.Code && string(rawNames(a.Body)) == string(rawNames(r.Body)):
					x.probe("raw name answer", 1)
				default:
					x.fail("partial", "%s: %s; without the failure %s; %s", r.URL, r, a, diff(a.Body, r.Body))
				}
			}
			x.Nontrivial = hard > 0
		}})

	register(&Prop{ID: "C06", Level: "exploration", Quick: 2000, Thorough: 20000,
		Rule: "a run counts when a fault hit or a file was missing before the recovery; distinct by filings, requests, faults and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			for i := range c.Filings {
				c.Filings[i] = with(c.Filings[i], "global")
			}
			c.Ops = drawOps(r, n, 3, 8, []string{"cat", "cat", "net", "net", "doc", "fact", "nofact", "badhash"})
			c.Pol = drawPol(r)
			c.Knob["again"] = r.Intn(1 << 20)
			switch r.Intn(6) {
			case 0:
				c.Scn = "missing files"
				c.Knob["missing"] = 1 + r.Intn(4)
				if r.Chance(0.2) {
					c.Ops = drawOps(r, n, 4, 50, []string{"cat", "net", "doc", "fact"})
				}
			case 2:
				c.Scn = "long outage"
				c.Ops = drawOps(r, n, 4, 50, []string{"cat", "cat", "net", "net", "doc", "fact"})
				c.Pol.Rate, c.Pol.MaxFault, c.Pol.Kinds = []float64{0.3, 0.9, 1}[r.Intn(3)], 2000, readFaults[r.Intn(len(readFaults)):][:1]
			case 1:
				c.Scn = "faults while starting"
				c.Knob["boot"] = 1
				drawFaults(r, &c.Pol, readFaults)
				c.Pol.Rate, c.Pol.On = 0.4, "gts/|names.json"
			default:
				c.Scn = "read faults"
				drawFaults(r, &c.Pol, readFaults)
				if r.Chance(0.3) {
					c.Pol.On = "gts/|names.json"
					c.Pol.Rate = 0.5
				}
			}
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			away := map[string][]byte{}
			start := map[string][]byte{}
			for k, v := range disk {
				start[k] = v
				f := x.filings()[0]
				gone := false
				switch x.c.knob("missing") {
				case 1:
					gone = strings.HasPrefix(k, "/app/wd/folders/"+f.Spec.ID+"/")
				case 2:
					gone = k == "/app/wd/folders/"+f.Spec.ID+"/_"
				case 3:
					gone = k == "/app/wd/folders/"+f.Spec.ID+"/"+f.Entry
				case 4:
					gone = strings.HasPrefix(k, "/app/gts/") && strings.HasSuffix(k, "/utr.xml")
				}
				if gone {
					away[k] = v
					delete(start, k)
				}
			}
			s := x.explore(start)
			if x.c.knob("boot") == 0 {
				s.w.FaultsOff()
			}
			s.boot()
			if !s.up() {
				x.probe("did not start", 1)
				if x.c.knob("boot") == 0 {
					x.fail("noserver", "the server does not start: %s", s.story(s.w.End))
				}
				s.close(true)
				return
			}
			s.w.FaultsOn()
			first := append([]Op(nil), x.c.Ops...)
			recs, end := s.phase(first, tg)
			if end != vsim.EndDone {
				x.fail("process", "%s", s.story(end))
				s.close(true)
				return
			}
			for i := range recs {
				if recs[i].answered() && recs[i].Code >= 400 {
					x.probe("error before recovery", 1)
				}
			}
			hits := len(s.w.FaultedPaths) + len(away)
			s.w.FaultsOff()
			for _, k := range sortedKeys(away) {
				s.w.FS.Put(k, away[k])
			}
			// everything that failed, and more, once more
			again := append([]Op(nil), x.c.Ops...)
			r := vsim.NewRand(uint64(x.c.knob("again")))
			r.U64()
			for i, f := range x.filings() {
				again = append(again, Op{C: r.Intn(3), Kind: "cat", F: i}, Op{C: r.Intn(3), Kind: "net", F: i, N: r.Intn(20)}, Op{C: r.Intn(3), Kind: "fact", F: i, N: r.Intn(20)})
				if f.Inline {
					again = append(again, Op{C: r.Intn(3), Kind: "doc", F: i})
				}
			}
			recs, end = s.phase(again, tg)
			story := s.story(end)
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
			}
			for i := range recs {
				x.exact(&recs[i], x.cold(disk, dk, recs[i].URL))
			}
			x.Nontrivial = hits > 0
		}})

	register(&Prop{ID: "C07", Level: "exploration", Quick: 4000, Thorough: 40000,
		Rule: "a run counts when a damaged filing or an unknown name was requested; distinct by filings, damage, requests and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := 1 + fr.Intn(2)
			c.Scn = "damaged filings"
			for i := 0; i < n; i++ {
				c.Filings = append(c.Filings, drawSpec(fr, fmt.Sprintf("fil%d", i), allFeats, 0.3))
			}
			// the last filing is healthy
			c.Filings = append(c.Filings, drawSpec(fr, fmt.Sprintf("fil%d", n), allFeats, 0.2))
			for i := 0; i < n; i++ {
				for k := 1 + r.Intn(3); k > 0; k-- {
					c.Filings[i].Mut = append(c.Filings[i].Mut, Mut{Kind: mutKinds[r.Intn(len(mutKinds))], A: r.U64() >> 20, B: r.U64() >> 20})
				}
			}
			c.Ops = drawOps(r, n+1, 3, 12, reqKinds)
			if r.Chance(0.5) {
				c.Scn = "damaged filings and hostile requests"
				c.Ops = drawRawOps(r, c.Ops, fileIDs(n+1), 1+r.Intn(5))
			}
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.3)
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			fil := x.filings()
			last := fil[len(fil)-1]
			s := x.explore(disk)
			s.boot()
			recs, end := s.phase(x.c.Ops, tg)
			story := s.story(end)
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
			}
			for i := range recs {
				r := &recs[i]
				x.M.Checks++
				x.Nontrivial = true
				if !r.answered() {
					x.fail("noanswer", "%s: %s", r.URL, r)
					continue
				}
				if o := x.c.Ops[r.Op]; o.Kind != "raw" && fil[o.F%len(fil)] == last && !x.c.Pol.Maps && len(last.Spec.Mut) == 0 {
					a := x.cold(disk, dk, r.URL)
					if a.Bad != "" || !same(a, r) {
						x.fail("healthy", "%s of a healthy filing: %s; a fresh server answers %s; %s", r.URL, r, a, diff(a.Body, r.Body))
					}
				}
			}
		}})

	register(&Prop{ID: "C08", Level: "exploration", Quick: 2500, Thorough: 25000, Rule: ruleServe,
		Assume: []string{"the race detector of the Go toolchain reports only real races; it keeps a bounded number of accesses per memory word"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			c.Scn = "mix"
			c.Ops = drawOps(r, n, 5, 12, reqKinds)
			if r.Chance(0.4) {
				c.Scn = "everyone at once"
				for i := range c.Ops {
					c.Ops[i].C, c.Ops[i].Wait = i, 0
				}
			}
			if r.Chance(0.2) {
				c.Scn = "mix and unknown names"
				c.Ops = drawRawOps(r, c.Ops, fileIDs(n), 1+r.Intn(4))
			}
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.3)
			if r.Chance(0.3) {
				c.Scn += " with faults"
				drawFaults(r, &c.Pol, readFaults)
			}
		},
		Run: func(x *Exec) {
			disk, _, tg := x.world()
			s := x.explore(disk)
			s.boot()
			_, end := s.phase(x.c.Ops, tg)
			n := s.races
			s.close(true)
			x.M.Checks++
			if end == vsim.EndPanic || end == vsim.EndSteps || end == vsim.EndDeadlock {
				x.probe("process ended early", 1)
			}
			if n > 0 {
				n = programRaces(n)
			}
			if n > 0 {
				x.fail("race", "%d data races reported", n)
			}
			x.Nontrivial = len(x.c.Ops) > 1 && x.M.Choices > 0
		}})
}
