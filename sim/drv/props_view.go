package main

import (
	"encoding/json"
	"net/url"
	"strings"

	"ecksbee.com/telefacts/vsim"
)

// what tells which filing a request is for and which kind of answer it has.
func (x *Exec) what(r *Rec, tg []map[string][]string) (f *Filing, kind string) {
	o := x.c.Ops[r.Op]
	if o.Kind == "raw" {
		return nil, "raw"
	}
	fil := x.filings()
	f = fil[o.F%len(fil)]
	if len(tg[o.F%len(fil)][o.Kind]) == 0 {
		return f, "cat"
	}
	return f, o.Kind
}

// view runs the requests of the case and has the content of each answer judged. A well-formed
// filing must give an answer to everything it lists.
func (x *Exec) view(judge func(r *Rec, f *Filing, kind string, disk map[string][]byte, dk string)) {
	disk, dk, tg := x.world()
	s := x.explore(disk)
	s.boot()
	recs, end := s.phase(x.c.Ops, tg)
	story := s.story(end)
	s.close(true)
	if end != vsim.EndDone {
		x.fail("process", "%s", story)
		return
	}
	for i := range recs {
		r := &recs[i]
		f, kind := x.what(r, tg)
		if f == nil || r.Out.Late {
			continue
		}
		x.M.Checks++
		judge(r, f, kind, disk, dk)
	}
}

func query(target string) (name, ctx string) {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return "", ""
	}
	return u.Query().Get("name"), u.Query().Get("contextref")
}

// names collects the display names in a body with the entities they stand for.
func subjectsOf(body []byte) []subjectJSON {
	var v struct {
		Subject  *subjectJSON
		Subjects []subjectJSON
	}
	if json.Unmarshal(body, &v) != nil {
		return nil
	}
	if v.Subject != nil {
		v.Subjects = append(v.Subjects, *v.Subject)
	}
	return v.Subjects
}

func lastPart(target string) string { return target[strings.LastIndexByte(target, '/')+1:] }

func init() {
	register(&Prop{ID: "C10", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule: "a run counts when a grid with at least one column was compared cell by cell with the filing; distinct by filings, requests, map orders and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			c.Scn = "grids"
			c.Ops = drawOps(r, n, 3, 8, []string{"net", "net", "net", "net", "net", "cat", "fact"})
			c.Pol = drawPol(r)
			if c.Pol.Maps = r.Chance(0.6); c.Pol.Maps {
				c.Scn = "grids under map orders"
			}
		},
		Run: func(x *Exec) {
			x.view(func(r *Rec, f *Filing, kind string, disk map[string][]byte, dk string) {
				if kind != "net" {
					return
				}
				if !r.answered() || r.Code != 200 {
					x.fail("noanswer", "%s: %s", r.URL, r)
					return
				}
				n, class, bad := f.checkNetwork(r.Body, x.probe)
				x.M.Checks += n
				if bad == "" {
					class, bad = f.checkRows(r.Body)
				}
				if bad != "" {
					x.fail(class, "%s: %s", r.URL, bad)
				}
			})
			x.Nontrivial = x.M.Probes["column"] > 0
		}})

	register(&Prop{ID: "C11", Level: "exploration", Quick: 2500, Thorough: 25000, Rule: ruleServe,
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 3, allFeats)
			if fr.Chance(0.03) {
				c.Filings[0] = with(c.Filings[0], "twinroles")
			}
			c.Scn = "catalogs, networks and unlisted hashes"
			c.Ops = drawOps(r, n, 4, 14, []string{"cat", "cat", "net", "net", "net", "badhash", "fact"})
			if n > 1 && r.Chance(0.5) {
				// the hashes one filing lists, asked of another one
				c.Scn = "hashes of other filings"
				c.Knob["other"] = 1 + r.Intn(3)
			}
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.4)
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			fil := x.filings()
			ops := append([]Op(nil), x.c.Ops...)
			for k := 0; k < x.c.knob("other"); k++ {
				a, b := k%len(fil), (k+1)%len(fil)
				if l := tg[b]["net"]; len(l) > 0 {
					h := lastPart(l[int(x.c.Seed>>8)%len(l)])
					ops = append(ops, Op{C: k, Kind: "raw", F: a, Path: "/folders/" + url.PathEscape(fil[a].Spec.ID) + "/" + h})
				}
			}
			s := x.explore(disk)
			s.boot()
			recs, end := s.phase(ops, tg)
			story := s.story(end)
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
				return
			}
			listed := make([]map[string][2]string, len(fil)) // hash -> entity, role
			shared := map[string]bool{}
			for i, f := range fil {
				listed[i] = map[string][2]string{}
				a := x.cold(disk, dk, tg[i]["cat"][0])
				if !a.ok() {
					x.fail("nocold", "%s: a fresh server does not list its networks: %s", tg[i]["cat"][0], a)
					return
				}
				class, bad, cat := f.checkCatalog(a.Body, true)
				if bad != "" {
					x.fail(class, "%s: %s", tg[i]["cat"][0], bad)
					if class != "concat" {
						return
					}
				}
				for e, m := range cat.Networks {
					for ro, h := range m {
						if _, twice := listed[i][h]; twice {
							shared[h] = true
						}
						listed[i][h] = [2]string{e, ro}
					}
				}
			}
			for i := range recs {
				r := &recs[i]
				x.M.Checks++
				if r.Out.Late {
					continue
				}
				o := ops[r.Op]
				fi := o.F % len(fil)
				f := fil[fi]
				kind := o.Kind
				if kind != "raw" && len(tg[fi][kind]) == 0 {
					kind = "cat"
				}
				if !r.answered() {
					x.fail("noanswer", "%s: %s", r.URL, r)
					continue
				}
				switch kind {
				case "cat":
					if r.Code != 200 {
						x.fail("noanswer", "%s: %s", r.URL, r)
						continue
					}
					if class, bad, _ := f.checkCatalog(r.Body, true); bad != "" {
						x.fail(class, "%s: %s", r.URL, bad)
					}
					x.probe("catalog", 1)
				case "net", "badhash", "raw":
					h := lastPart(r.URL)
					if h == f.Entry {
						continue
					}
					want, ok := listed[fi][h]
					if !ok {
						if r.Code < 400 {
							x.fail("unlisted", "%s: %s for a hash that is not listed", r.URL, r)
						}
						x.probe("unlisted hash", 1)
						continue
					}
					if r.Code != 200 {
						x.fail("noanswer", "%s: %s", r.URL, r)
						continue
					}
					var n networkJSON
					if err := json.Unmarshal(r.Body, &n); err != nil {
						x.fail("json", "%s: %v", r.URL, err)
						continue
					}
					e, ro := n.Subject.Entity.Scheme+"/"+n.Subject.Entity.CharData, n.RelationshipSet.RoleURI
					if (e != want[0] || ro != want[1]) && !shared[h] {
						x.fail("network", "%s is listed as %s %s but describes %s %s", r.URL, want[0], want[1], e, ro)
					}
					for _, d := range f.Roles {
						if d.URI == ro && d.Def != n.RelationshipSet.Title {
							x.fail("title", "%s: title %q instead of %q", r.URL, n.RelationshipSet.Title, d.Def)
						}
					}
					x.probe("network", 1)
				}
			}
			x.Nontrivial = len(ops) > 1 && x.M.Choices > 0
		}})

	register(&Prop{ID: "C12", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule: "a run counts when at least one tagged fact was looked up; distinct by filings, requests, map orders and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			for i := range c.Filings {
				c.Filings[i] = with(c.Filings[i], "inline")
			}
			c.Scn = "fact lookups"
			c.Ops = drawOps(r, n, 4, 16, []string{"fact", "fact", "fact", "fact", "fact", "nofact", "nofact", "net", "doc"})
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.4)
		},
		Run: func(x *Exec) {
			x.view(func(r *Rec, f *Filing, kind string, disk map[string][]byte, dk string) {
				if kind != "fact" && kind != "nofact" {
					return
				}
				name, ctx := query(r.URL)
				if !r.answered() || kind == "fact" && r.Code != 200 {
					x.fail("noanswer", "%s: %s", r.URL, r)
					return
				}
				if r.Code != 200 {
					return
				}
				x.probe(kind, 1)
				if class, bad := f.checkFact(name, ctx, r.Body); bad != "" {
					x.fail(class, "%s: %s", r.URL, bad)
				}
			})
			x.Nontrivial = x.M.Probes["fact"] > 0
		}})

	register(&Prop{ID: "C13", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule: "a run counts when at least one document was compared with the stored one; distinct by filings, requests, faults and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 3, allFeats)
			for i := range c.Filings {
				c.Filings[i] = with(c.Filings[i], "inline")
				if fr.Chance(0.7) {
					c.Filings[i] = with(c.Filings[i], "images")
				}
				if fr.Chance(0.08) {
					c.Filings[i] = with(c.Filings[i], "imgbig")
				}
			}
			c.Scn = "documents"
			c.Ops = drawOps(r, n, 4, 12, []string{"doc", "doc", "doc", "doc", "cat", "net", "fact"})
			c.Pol = drawPol(r)
			if r.Chance(0.4) {
				c.Scn = "documents and read faults"
				drawFaults(r, &c.Pol, readFaults)
			}
		},
		Run: func(x *Exec) {
			disk, _, tg := x.world()
			s := x.explore(disk)
			s.w.FaultsOff()
			s.boot()
			if !s.up() {
				x.fail("noserver", "the server does not start: %s", s.story(s.w.End))
				s.close(true)
				return
			}
			s.w.FaultsOn()
			recs, end := s.phase(x.c.Ops, tg)
			story := s.story(end)
			hard := 0
			for _, f := range s.w.FaultedPaths {
				if f.Kind != "stall" && f.Kind != "short" {
					hard++
				}
			}
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
				return
			}
			for i := range recs {
				r := &recs[i]
				f, kind := x.what(r, tg)
				if kind != "doc" || r.Out.Late || !f.Inline {
					continue
				}
				x.M.Checks++
				if !r.answered() || r.Code != 200 && hard == 0 {
					x.fail("noanswer", "%s: %s", r.URL, r)
					continue
				}
				if r.Code != 200 {
					x.probe("error answer", 1)
					continue
				}
				class, bad, images := f.checkDoc(r.Body)
				if bad != "" {
					x.fail(class, "%s: %s", r.URL, bad)
				}
				x.probe("document", 1)
				x.probe("image in place", images)
			}
			x.Nontrivial = x.M.Probes["document"] > 0
		}})

	register(&Prop{ID: "C15", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule: "a run counts when an answer with a display name was judged; distinct by filings, requests, state of the name list, faults and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			n := drawFilings(c, fr, 2, allFeats)
			c.Names = []string{"ok", "absent", "garbage", "empty", "wrongtype", "wrongtype2", "null", "emptymap", "dir", "partly"}[fr.Intn(10)]
			c.Scn = "name list " + c.Names
			c.Ops = drawOps(r, n, 3, 8, []string{"cat", "cat", "net", "net", "fact"})
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.2)
			if r.Chance(0.4) {
				c.Names, c.Scn = "ok", "name list unreadable at times"
				drawFaults(r, &c.Pol, []string{"eio", "eacces", "emfile", "eioread", "short"})
				c.Pol.On, c.Pol.Rate = "names.json", []float64{0.3, 0.6, 0.95}[r.Intn(3)]
				c.Knob["later"] = 1
			}
		},
		Run: func(x *Exec) {
			disk, _, tg := x.world()
			mode := x.c.Names
			good := map[string][]byte{}
			for k, v := range disk {
				good[k] = v
			}
			good["/app/wd/names.json"] = namesFile("ok", x.filings())
			gk := diskKey(good)
			if mode == "dir" {
				delete(disk, "/app/wd/names.json")
				disk["/app/wd/names.json/x"] = []byte("{}")
			}
			s := x.explore(disk)
			s.boot()
			recs, end := s.phase(x.c.Ops, tg)
			hits := len(s.w.FaultedPaths)
			after := 0
			if end == vsim.EndDone && x.c.knob("later") == 1 {
				s.w.FaultsOff()
				after = len(recs)
				var more []Rec
				more, end = s.phase(x.c.Ops, tg)
				recs = append(recs, more...)
			}
			story := s.story(end)
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
				return
			}
			for i := range recs {
				r := &recs[i]
				x.M.Checks++
				a := x.cold(good, gk, r.URL)
				if a.Bad != "" {
					x.fail("nocold", "%s: a fresh server does not answer: %s", r.URL, a.Bad)
					continue
				}
				if !r.answered() || r.Code != a.Code {
					x.fail("noanswer", "%s: %s; with the name list %s", r.URL, r, a)
					continue
				}
				if r.Code != 200 {
					continue
				}
				if w, g := rawNames(a.Body), rawNames(r.Body); string(w) != string(g) {
					x.fail("answer", "%s: differs from the answer with the name list %s", r.URL, diff(w, g))
					continue
				}
				for _, sj := range subjectsOf(r.Body) {
					e := [2]string{sj.Entity.Scheme, sj.Entity.CharData}
					listed := sj.Name == displayName(e)
					raw := strings.Contains(sj.Name, e[1]) && !listed
					switch {
					case mode != "ok" || x.c.Names != "ok":
						if !raw {
							x.fail("name", "%s: %s is shown as %q although the list is %s", r.URL, e[1], sj.Name, mode)
						}
						x.probe("raw name", 1)
					case hits == 0 || i >= after && after > 0:
						if !listed {
							x.fail("name", "%s: %s is shown as %q although the list can be read", r.URL, e[1], sj.Name)
						}
						x.probe("listed name", 1)
					default:
						if !listed && !raw {
							x.fail("name", "%s: %s is shown as %q", r.URL, e[1], sj.Name)
						}
						x.probe("name while unreadable", 1)
					}
					x.Nontrivial = true
				}
			}
		}})
}
