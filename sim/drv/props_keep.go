package main

import (
	"bytes"
	"fmt"
	"net/url"
	"runtime"
	"sort"
	"strings"

	"ecksbee.com/telefacts/vsim"
)

// requested lists the folder names that requests name.
func requested(recs []Rec) map[string]bool {
	out := map[string]bool{}
	for i := range recs {
		t := recs[i].URL
		if _, rest, ok := strings.Cut(t, " "); ok {
			t = rest
		}
		u, err := url.ParseRequestURI(t)
		if err != nil {
			continue
		}
		if rest, ok := strings.CutPrefix(u.Path, "/folders/"); ok {
			id, _, _ := strings.Cut(rest, "/")
			if id != "" && id != "." && id != ".." {
				out[id] = true
			}
		}
	}
	return out
}

func below(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// layout moves the files of a case to where the environment of the process says they are.
func (x *Exec) layout(disk map[string][]byte) (wd, gts string, out map[string][]byte) {
	wd, gts = "/app/wd", "/app/gts"
	x.env = map[string]string{}
	if x.c.knob("env")&1 != 0 {
		x.env["WD"], wd = "/data/w", "/data/w/wd"
	}
	if x.c.knob("env")&2 != 0 {
		x.env["GTS"], gts = "/data/g", "/data/g/gts"
	}
	out = map[string][]byte{}
	for k, v := range disk {
		switch {
		case below(k, "/app/wd"):
			out[wd+strings.TrimPrefix(k, "/app/wd")] = v
		case below(k, "/app/gts"):
			out[gts+strings.TrimPrefix(k, "/app/gts")] = v
		default:
			out[k] = v
		}
	}
	return wd, gts, out
}

func init() {
	register(&Prop{ID: "C16", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule:   "a run counts when a filing with a reference that leads outside was requested; distinct by filings, references, requests, faults and interleaving",
		Assume: []string{"paths are compared after removing dot segments; the simulated disk has no symbolic links"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			c.Scn = "references that lead outside"
			for i := range c.Filings {
				if r.Chance(0.8) {
					if r.Chance(0.3) {
						c.Filings[i].Mut = append(c.Filings[i].Mut, Mut{Kind: mutKinds[r.Intn(len(mutKinds))], A: r.U64() >> 20, B: r.U64() >> 20})
					}
					for k := 1 + r.Intn(4); k > 0; k-- {
						c.Filings[i].Mut = append(c.Filings[i].Mut, Mut{Kind: "escape", A: r.U64() >> 20, B: r.U64() >> 20})
					}
				}
			}
			c.Ops = drawOps(r, n, 3, 10, reqKinds)
			if r.Chance(0.5) {
				c.Ops = drawRawOps(r, c.Ops, append(fileIDs(n), "..", "../bait", "fil0/../bait"), 1+r.Intn(5))
			}
			// nobody asks for the last filing
			c.Filings = append(c.Filings, with(drawSpec(fr, "bait", allFeats, 0.3), "labels", "images"))
			c.Knob["env"] = []int{0, 0, 1, 2, 3}[r.Intn(5)]
			c.Pol = drawPol(r)
			if r.Chance(0.2) {
				c.Scn += ", and read faults"
				drawFaults(r, &c.Pol, readFaults)
				c.Knob["faults"] = 1
			}
		},
		Run: func(x *Exec) {
			wd, gts, disk := x.layout(x.disk())
			fil := x.filings()
			bait := fil[len(fil)-1]
			disk["/top.xsd"] = bait.Files["s0.xsd"]
			disk["/app/top.xsd"] = bait.Files["s0.xsd"]
			disk["/app/wd/folders/bait/s0.xsd"] = bait.Files["s0.xsd"]
			if wd != "/app/wd" {
				// the same filing elsewhere is not the one that is served
				for n, b := range bait.Files {
					disk["/app/wd/folders/"+fil[0].Spec.ID+"/"+n] = b
				}
			}
			dk := diskKey(disk)
			var tg []map[string][]string
			for _, f := range fil[:len(fil)-1] {
				tg = append(tg, x.targets(disk, dk, f))
			}
			s := x.explore(disk)
			s.w.FS.Touched = map[[2]string]int{}
			s.boot()
			recs, end := s.phase(x.c.Ops, tg)
			story := s.story(end)
			touched := s.w.FS.Touched
			changed := ""
			seen := 0
			s.w.FS.Walk(func(p string, data []byte) {
				seen++
				if was, ok := disk[p]; !ok || !bytes.Equal(was, data) {
					changed = p
				}
			})
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
			}
			allowed := func(p string, ids map[string]bool) bool {
				if below(p, gts) || p == wd+"/names.json" || below(p, "/app/goldlord-midas") {
					return true
				}
				for id := range ids {
					if below(p, wd+"/folders/"+id) {
						return true
					}
				}
				return false
			}
			ids := requested(recs)
			var keys [][2]string
			for k := range touched {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i][1]+keys[i][0] < keys[j][1]+keys[j][0] })
			for _, k := range keys {
				x.M.Checks++
				switch k[0] {
				case "open", "stat", "readdir":
					if !allowed(k[1], ids) {
						x.fail("outside", "serving %s: %s of %s", strings.Join(sortedKeys(ids), ", "), k[0], k[1])
					}
				case "chdir":
				default:
					x.fail("changed", "serving %s: %s of %s", strings.Join(sortedKeys(ids), ", "), k[0], k[1])
				}
			}
			x.M.Checks++
			if changed != "" || seen != len(disk) {
				x.fail("changed", "serving changed the stored files: %d instead of %d, %s", seen, len(disk), changed)
			}
			// what is outside makes no difference
			if x.c.knob("faults") == 0 && len(x.Viol) == 0 {
				inside := map[string][]byte{}
				for k, v := range disk {
					if allowed(k, ids) {
						inside[k] = v
					}
				}
				ik := diskKey(inside)
				for i := range recs {
					r := &recs[i]
					if r.Out.Late {
						continue
					}
					a := x.cold(inside, ik, r.URL)
					x.M.Checks++
					if a.Bad == "" && r.answered() && !same(a, r) {
						x.fail("influence", "%s: %s; without the files outside %s; %s", r.URL, r, a, diff(a.Body, r.Body))
					}
				}
			}
			for _, f := range fil[:len(fil)-1] {
				x.Nontrivial = x.Nontrivial || len(f.Spec.Mut) > 0 && ids[f.Spec.ID]
			}
		}})

	register(&Prop{ID: "C17", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule: "a run counts when a filing that had been answered was asked again after its files had become unreadable, changed or gone; distinct by filings, requests, what happened to storage and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			c.Ops = drawOps(r, n, 3, 6, []string{"cat", "net", "doc", "fact"})
			if fr.Chance(0.1) {
				// many small filings, all of them asked for
				c.Filings = nil
				n = 6 + fr.Intn(18)
				for i := 0; i < n; i++ {
					sp := drawSpec(fr, fmt.Sprintf("fil%d", i), allFeats, 0.05)
					sp.NCon, sp.NCtx, sp.NSch = 3, 1+fr.Intn(2), 0
					c.Filings = append(c.Filings, sp)
					c.Ops = append(c.Ops, Op{C: r.Intn(3), Kind: "cat", F: i}, Op{C: r.Intn(3), Kind: "net", F: i, N: r.Intn(8)})
				}
			}
			c.Knob["again"] = r.Intn(1 << 20)
			c.Knob["how"] = r.Intn(4)
			c.Scn = []string{"storage fails", "files are gone", "files changed", "files are damaged"}[c.Knob["how"]]
			if r.Chance(0.5) {
				c.Knob["idle"] = []int{1, 60, 3600, 40 * 3600}[r.Intn(4)]
				c.Scn += " after a while"
			}
			c.Pol = drawPol(r)
			if c.Knob["how"] == 0 {
				c.Pol.Rate, c.Pol.MaxFault, c.Pol.Kinds = 1, 400, []string{"eio", "eacces", "emfile"}[r.Intn(3):][:1]
			}
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			s := x.explore(disk)
			s.w.FaultsOff()
			s.boot()
			recs, end := s.phase(x.c.Ops, tg)
			if end != vsim.EndDone {
				x.fail("process", "%s", s.story(end))
				s.close(true)
				return
			}
			fil := x.filings()
			held := make([]bool, len(fil))
			for i := range recs {
				if recs[i].answered() && recs[i].Code == 200 {
					held[x.c.Ops[recs[i].Op].F%len(fil)] = true
				}
			}
			if d := x.c.knob("idle"); d > 0 {
				s.w.Spawn("client", true, func() { vsim.Sleep(int64(d) * 1e9) })
				s.run()
			}
			for i, f := range fil {
				dir := "/app/wd/folders/" + f.Spec.ID
				for _, n := range sortedKeys(f.Files) {
					switch x.c.knob("how") {
					case 1:
						s.w.FS.Delete(dir + "/" + n)
					case 2:
						o := fil[(i+1)%len(fil)].Files[n]
						s.w.FS.Put(dir+"/"+n, bytes.ReplaceAll(o, []byte("word"), []byte("ward")))
					case 3:
						s.w.FS.Put(dir+"/"+n, f.Files[n][:len(f.Files[n])/2])
					}
				}
				if x.c.knob("how") == 1 {
					s.w.FS.Delete(dir)
				}
			}
			// so has the shared taxonomy
			for _, n := range sortedKeys(disk) {
				if !below(n, "/app/gts") {
					continue
				}
				switch x.c.knob("how") {
				case 1:
					s.w.FS.Delete(n)
				case 2:
					s.w.FS.Put(n, bytes.ReplaceAll(disk[n], []byte("type=\"xbrli:"), []byte("type=\"other:")))
				case 3:
					s.w.FS.Put(n, disk[n][:len(disk[n])/2])
				}
			}
			s.w.FaultsOn()
			r := vsim.NewRand(uint64(x.c.knob("again")))
			r.U64()
			var again []Op
			for i := range fil {
				if !held[i] {
					continue
				}
				k := 2 + r.Intn(6)
				if len(fil) > 2 {
					k = 2
				}
				for ; k > 0; k-- {
					again = append(again, Op{C: r.Intn(3), Kind: []string{"cat", "net", "net", "doc", "fact", "nofact"}[r.Intn(6)], F: i, N: r.Intn(40)})
				}
			}
			if len(again) == 0 {
				s.close(true)
				return
			}
			recs, end = s.phase(again, tg)
			story := s.story(end)
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
			}
			for i := range recs {
				x.exact(&recs[i], x.cold(disk, dk, recs[i].URL))
			}
			x.Nontrivial = true
		}})

	register(&Prop{ID: "C18", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule: "a run counts when the scheduler had a choice and at least one request was refused, failed or hit by a fault; distinct by filings, damage, requests, faults and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			if r.Chance(0.3) {
				c.Names = []string{"absent", "garbage", "wrongtype"}[r.Intn(3)]
			}
			n := drawFilings(c, fr, 2, allFeats)
			c.Scn = "healthy filings"
			if r.Chance(0.4) {
				c.Scn = "damaged filings"
				for i := range c.Filings {
					for k := 1 + r.Intn(3); k > 0; k-- {
						c.Filings[i].Mut = append(c.Filings[i].Mut, Mut{Kind: mutKinds[r.Intn(len(mutKinds))], A: r.U64() >> 20, B: r.U64() >> 20})
					}
				}
			}
			c.Ops = drawOps(r, n, 4, 10, reqKinds)
			c.Ops = drawRawOps(r, c.Ops, fileIDs(n), r.Intn(4))
			if r.Chance(0.4) {
				c.Scn += ", some clients slow or gone,"
				drawLines(r, c.Ops, 0.4)
			}
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.2)
			if r.Chance(0.5) {
				c.Scn += " with read faults"
				drawFaults(r, &c.Pol, readFaults)
			}
		},
		Run: func(x *Exec) {
			disk, _, tg := x.world()
			s := x.explore(disk)
			s.w.FaultsOff()
			rest := func() (map[string]int, int, vsim.EndReason) {
				s.w.Spawn("client", true, func() { vsim.Sleep(600e9) })
				end := s.run()
				return s.w.Alive(), s.w.FS.Handles, end
			}
			s.boot()
			if !s.up() {
				x.fail("noserver", "the server does not start: %s", s.story(s.w.End))
				s.close(true)
				return
			}
			before, files, _ := rest()
			s.w.FaultsOn()
			recs, end := s.phase(x.c.Ops, tg)
			for i := range recs {
				if !recs[i].answered() || recs[i].Code >= 400 {
					x.Nontrivial = s.w.NChoice > 0
				}
			}
			x.Nontrivial = x.Nontrivial || len(s.w.FaultedPaths) > 0
			if end != vsim.EndDone {
				x.fail("process", "%s", s.story(end))
				s.close(true)
				return
			}
			s.w.FaultsOff()
			after, open, end := rest()
			blocked := strings.Join(s.w.Blocked(), "; ")
			s.close(true)
			x.M.Checks += 2
			if end != vsim.EndDone {
				x.fail("process", "%s", s.story(end))
				return
			}
			for _, site := range sortedKeys(after) {
				if n := after[site] - before[site]; n > 0 {
					x.fail("goroutine", "%d goroutines of %s are left after all requests were answered: %s", n, site, blocked)
				}
			}
			if open > files {
				x.fail("file", "%d files are still open after all requests were answered", open-files)
			}
			x.probe("resting goroutines", len(after))
		}})

	register(&Prop{ID: "C19", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule:   "a run counts when a request for another filing was made while storage was slow for the first one; distinct by filings, requests, stalls and interleaving",
		Assume: []string{"a request counts as held up when it takes a simulated second or more; computing takes no simulated time"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := 2 + fr.Intn(2)
			for i := 0; i < n; i++ {
				c.Filings = append(c.Filings, drawSpec(fr, fmt.Sprintf("fil%d", i), allFeats, 0.4))
			}
			c.Knob["warm"] = r.Intn(1 << n)
			c.Scn = "the first filing is slow to read"
			if c.Knob["warm"]&1 != 0 {
				c.Scn = "all filings are slow to read, some are open already"
			} else {
				c.Pol.On = "/fil0/"
			}
			on := c.Pol.On
			c.Ops = drawOps(r, n, 4, 14, reqKinds)
			// the slow one is asked for first
			c.Ops = append([]Op{{C: r.Intn(2), Kind: "cat"}, {C: r.Intn(2), Kind: "net"}}, c.Ops...)
			c.Pol = drawPol(r)
			c.Pol.On = on
			c.Pol.Kinds, c.Pol.Rate, c.Pol.MaxFault = []string{"stall"}, []float64{0.05, 0.3, 1}[r.Intn(3)], 1+r.Intn(20)
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			s := x.explore(disk)
			s.w.FaultsOff()
			s.boot()
			var warm []Op
			for i := range x.c.Filings {
				if x.c.knob("warm")>>i&1 == 1 {
					warm = append(warm, Op{C: i, Kind: "cat", F: i}, Op{C: i, Kind: "net", F: i})
				}
			}
			held := map[int]bool{}
			if len(warm) > 0 {
				recs, end := s.phase(warm, tg)
				if end != vsim.EndDone {
					x.fail("process", "%s", s.story(end))
					s.close(true)
					return
				}
				for i := range recs {
					if recs[i].answered() && recs[i].Code == 200 {
						held[warm[recs[i].Op].F] = true
					}
				}
			}
			s.w.FaultsOn()
			recs, end := s.phase(x.c.Ops, tg)
			story := s.story(end)
			stalls := s.w.FaultsHit["stall"]
			var slow []string
			for _, f := range s.w.FaultedPaths {
				slow = append(slow, f.Path)
			}
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
			}
			for i := range recs {
				r := &recs[i]
				f := x.c.Ops[r.Op].F % len(x.c.Filings)
				if !held[f] && (f == 0 || x.c.Pol.On == "") {
					continue
				}
				if stalls > 0 {
					x.Nontrivial = true
				}
				x.M.Checks++
				if r.Sent && r.Took >= 1e9 {
					x.fail("heldup", "%s was answered after %.1f s while only other filings were slow to read (delayed: %s)", r.URL, float64(r.Took)/1e9, strings.Join(slow, ", "))
					continue
				}
				x.exact(r, x.cold(disk, dk, r.URL))
			}
		}})

	register(&Prop{ID: "C21", Level: "exploration", Quick: 2500, Thorough: 25000,
		Rule:   "a run counts when a client was slow, stopped reading or went away while another request was made; distinct by filings, requests, what the clients do, delays and interleaving",
		Assume: []string{"the first 2048 bytes of an answer fit into buffers, the rest waits for the client", "a request counts as held up when it takes a simulated second or more; computing takes no simulated time", "the handler of a client that disconnects sees its request cancelled, and its writes fail"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			for i := range c.Filings {
				if fr.Chance(0.5) {
					c.Filings[i] = with(c.Filings[i], "ixbrl", "images")
				}
				if fr.Chance(0.3) { // for a long catalog
					c.Filings[i].NRole = 8 + fr.Intn(8)
				}
			}
			c.Ops = drawOps(r, n, 4, 14, reqKinds)
			if len(c.Ops) < 3 {
				c.Ops = append(c.Ops, drawOps(r, n, 4, 6, reqKinds)...)
			}
			drawLines(r, c.Ops, []float64{0.2, 0.5, 0.7}[r.Intn(3)])
			c.Scn = "clients that are slow or go away"
			c.Pol = drawPol(r)
			if r.Chance(0.3) {
				c.Scn += ", with slow storage"
				c.Knob["stall"] = 1
				c.Pol.Kinds, c.Pol.Rate, c.Pol.MaxFault = []string{"stall"}, []float64{0.01, 0.05, 0.3}[r.Intn(3)], 1+r.Intn(6)
			}
		},
		Run: func(x *Exec) {
			disk, dk, tg := x.world()
			s := x.explore(disk)
			s.w.FaultsOff()
			s.boot()
			if !s.up() {
				x.fail("noserver", "the server does not start: %s", s.story(s.w.End))
				s.close(true)
				return
			}
			s.w.FaultsOn()
			recs, end := s.phase(x.c.Ops, tg)
			if end != vsim.EndDone {
				x.fail("process", "%s", s.story(end))
				s.close(true)
				return
			}
			s.w.FaultsOff()
			again := append([]Op(nil), x.c.Ops...)
			for i := range again {
				again[i].Net, again[i].Wait = "", 0
			}
			more, end := s.phase(again, tg)
			story := s.story(end)
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
				return
			}
			bad := false
			for i := range recs {
				o := &recs[i].Out
				bad = bad || o.Slow || o.Lost || o.Gone
			}
			x.Nontrivial = bad && len(recs) > 1
			for i := range recs {
				r := &recs[i]
				if x.c.knob("stall") == 1 && (r.Out.Late || r.Took >= 1e9 && r.Code >= 500) {
					continue // storage was slow, and the server may give up on that
				}
				if x.c.Ops[r.Op].Net != "" {
					if !r.answered() {
						continue
					}
				} else {
					x.M.Checks++
					if r.Took >= 1e9 && x.c.knob("stall") == 0 {
						x.fail("heldup", "%s was answered after %.1f s while other clients were slow", r.URL, float64(r.Took)/1e9)
						continue
					}
				}
				x.exact(r, x.cold(disk, dk, r.URL))
			}
			for i := range more {
				r := &more[i]
				if r.Took >= 1e9 {
					x.fail("heldup", "%s was answered after %.1f s when no other client was left", r.URL, float64(r.Took)/1e9)
					continue
				}
				x.exact(r, x.cold(disk, dk, r.URL))
			}
		}})

	register(&Prop{ID: "C20", Level: "exploration", Quick: 250, Thorough: 2500,
		Rule:   "a run counts when nonsense was answered with and without the filing being open; distinct by filings, requests and interleaving",
		Assume: []string{"memory is what the garbage collector keeps; a request keeps something when a quarter of its size or more remains"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			c.Filings = []FSpec{drawSpec(fr, "fil0", allFeats, 0.3)}
			if fr.Chance(0.8) {
				c.Filings[0] = with(c.Filings[0], "ixbrl")
			}
			c.Scn = "nonsense"
			c.Ops = drawOps(r, 1, 1, 6, reqKinds)
			c.Knob["n"] = 30 + r.Intn(20)
			c.Knob["kind"] = r.Intn(9)
			c.Knob["size"] = []int{8000, 16000}[r.Intn(2)]
			c.Pol = drawPol(r)
			c.Pol.Pre = 0
		},
		Run: func(x *Exec) {
			disk, _, tg := x.world()
			s := x.explore(disk)
			s.boot()
			_, end := s.phase(x.c.Ops, tg)
			if end != vsim.EndDone {
				x.fail("process", "%s", s.story(end))
				s.close(true)
				return
			}
			pick := func(k string) string {
				if l := tg[0][k]; len(l) > 0 {
					return l[len(l)/2]
				}
				return "/folders/fil0/facts?name=a&contextref=b"
			}
			fact := pick("fact")
			n, size := x.c.knob("n"), x.c.knob("size")
			kind := x.c.knob("kind")
			if kind == 8 {
				n, size = 2*n, 1 // these are correct requests
			}
			turn := 0
			ask := func(what int, i int) string {
				junk := fmt.Sprintf("%d.%d.", turn, i) + strings.Repeat("abcdefgh", size/8)
				switch what {
				case 0:
					return "/folders/fil0/facts?name=" + junk + "&contextref=" + junk
				case 1:
					return strings.Split(fact, "&contextref=")[0] + "&contextref=" + junk
				case 2:
					if _, c, ok := strings.Cut(fact, "&contextref="); ok {
						return "/folders/fil0/facts?name=" + junk + "&contextref=" + c
					}
					return "/folders/fil0/facts?contextref=" + junk
				case 3:
					return "/folders/fil0/" + junk
				case 4:
					return "/folders/" + junk
				case 5:
					return "/folders/" + junk + "/facts?name=a&contextref=b"
				case 6:
					return "/" + junk
				case 7:
					return "/folders/fil0/" + junk + ".htm?" + junk
				}
				l := x.c.Ops[i%len(x.c.Ops)]
				return pick(l.Kind)
			}
			round := func() (uint64, bool) {
				turn++
				lost := 0
				for c := 0; c < 2; c++ {
					s.w.Spawn("client", true, func() {
						for i := 0; i < n; i++ {
							var rec Rec
							get(&rec, ask(kind, i*2+c))
							if !rec.answered() {
								lost++
							}
						}
					})
				}
				end = s.run()
				x.M.Requests += 2 * n
				var m runtime.MemStats
				runtime.GC()
				runtime.GC()
				runtime.ReadMemStats(&m)
				return m.HeapAlloc, end == vsim.EndDone
			}
			_, ok := round()
			least := int64(1) << 60
			before := uint64(0)
			for k := 0; k < 4 && ok; k++ {
				var now uint64
				now, ok = round()
				if k > 0 {
					least = min(least, int64(now)-int64(before))
				}
				before = now
			}
			if !ok {
				x.fail("process", "%s", s.story(end))
				s.close(true)
				return
			}
			s.close(true)
			x.M.Checks++
			if kind < 8 && least > int64(2*n*size)/4 {
				x.fail("kept", "every %d requests like %.60s... keep %d bytes in memory", 2*n, ask(kind, 0), least)
			}
			if kind == 8 && least > int64(2*n)*1000 {
				x.fail("kept", "every %d repetitions of requests like %.60s keep %d bytes in memory", 2*n, ask(kind, 0), least)
			}
			if least > int64(2*n)*200 {
				x.probe(fmt.Sprintf("more than 200 bytes kept per request of kind %d", kind), 1)
			}
			x.Nontrivial = true
		}})
}
