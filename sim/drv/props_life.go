package main

import (
	"errors"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/google/uuid"

	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/vsim"
)

// fewIDs is a source of random bytes that repeats itself, so that new identifiers collide.
type fewIDs struct{ r *vsim.Rand }

func (f *fewIDs) Read(b []byte) (int, error) {
	f.fill(b)
	return len(b), nil
}

//go:norace
func (f *fewIDs) fill(b []byte) {
	if f.r.Chance(0.6) {
		k := byte(1 + f.r.Intn(3))
		for i := range b {
			b[i] = k
		}
		return
	}
	for i := range b {
		b[i] = byte(f.r.U64())
	}
}

// made is one attempt to create a folder.
type made struct {
	key, entry, note string
	id               string
	err              error
	done             bool
}

func (m *made) String() string {
	if !m.done {
		return fmt.Sprintf("creating %q (%q): did not return", m.key, m.entry)
	}
	return fmt.Sprintf("creating %q (%q): %q, %v", m.key, m.entry, m.id, m.err)
}

func (m *made) exists() bool { return m.done && m.err != nil && errors.Is(m.err, os.ErrExist) }

var folderKeys = []string{"", "k0", "k1", "k0 ", "../k0", "ключ", "k/0", "\x00", "K0",
	"k//0", "./k/0", "k/0/", " k0", "k0\x00", "k%2F0", "k\\0", longKey + "a", longKey + "b", "ключ ", "КЛЮЧ", "k0\n"}

var longKey = strings.Repeat("k", 300)

// keys that are easily taken for each other
var nearKeys = [][]int{{1, 3, 8, 12, 13, 20}, {6, 9, 10, 11, 14, 15}, {16, 17}, {5, 18, 19}}

var folderEntries = []string{"report.htm", "a.xml", "x y.xhtml", `q"uote.xml`, "b\\s.xml", "ünï.htm", "<&>.xml", "./dot.xml", "a//b.xml", "up/../c.htm", "tail/", " pad.xml ", "", strings.Repeat("long", 300) + ".xml"}

func foldersLife() *Prop {
	return &Prop{ID: "C09", Level: "exploration", Quick: 20000, Thorough: 200000,
		Rule:   "a run counts when two creators overlapped, a storage fault hit or the process was killed during a creation; distinct by keys, faults, crash point and interleaving",
		Assume: []string{"a crash is the death of the process: completed disk operations survive it, a write in progress may be cut short", "a directory cannot be renamed over another directory that is not empty"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			nk := 1 + r.Intn(3)
			keys := make([]int, nk)
			for i := range keys {
				keys[i] = r.Intn(len(folderKeys))
				if r.Chance(0.5) {
					keys[i] = r.Intn(3)
				}
			}
			if r.Chance(0.4) {
				near := nearKeys[r.Intn(len(nearKeys))]
				for i := range keys {
					keys[i] = near[r.Intn(len(near))]
				}
			}
			n := 1 + r.Intn(5)
			for cl := 0; cl < n; cl++ {
				for k := 1 + r.Intn(3); k > 0; k-- {
					c.Ops = append(c.Ops, Op{C: cl, Kind: "new", F: keys[r.Intn(nk)], N: r.Intn(len(folderEntries))})
					if r.Chance(0.2) {
						c.Ops[len(c.Ops)-1].Wait = int64(r.Intn(300))
					}
				}
			}
			c.Knob["ids"] = r.Intn(1 << 20)
			c.Knob["few"] = r.Intn(2)
			c.Knob["reader"] = r.Intn(2)
			c.Knob["before"] = r.Intn(3) / 2 // one key in three is taken by an earlier process
			c.Pol = drawPol(r)
			c.Scn = "creators"
			switch r.Intn(4) {
			case 0, 1:
				c.Scn = "creators and storage faults"
				drawFaults(r, &c.Pol, []string{"enospc", "torn", "eiowrite", "closeerr", "eio", "eacces", "emfile", "stall"})
				c.Pol.Rate = []float64{0.03, 0.1, 0.3, 0.6}[r.Intn(4)]
			case 2:
				c.Scn = "creators and a crash"
				c.Pol.CrashAt = 1 + r.Intn(12*len(c.Ops)+12)
			}
			if r.Chance(0.1) {
				c.Scn += ", no folder yet"
				c.Knob["bare"] = 1
			}
		},
		Run: func(x *Exec) { x.create() }}
}

// create has several tasks create folders and then looks at what is left on the disk.
func (x *Exec) create() {
	c := x.c
	s := x.explore(nil)
	if c.knob("bare") == 1 {
		s.w.FS.Delete("/app/wd/folders")
	}
	s.library()
	setIDs := func(salt uint64) {
		if c.knob("few") == 1 {
			uuid.SetRand(&fewIDs{vsim.NewRand(uint64(c.knob("ids")) ^ salt)})
		}
	}
	setIDs(0)
	var old *made
	if c.knob("before") == 1 && c.knob("bare") == 0 {
		s.w.FaultsOff()
		old = &made{key: folderKeys[1], entry: "old.xml", note: "before"}
		s.w.Spawn("client", true, func() { create(old) })
		s.run()
		s.w.FaultsOn()
	}
	byC := map[int][]*made{}
	var all []*made
	for i, o := range c.Ops {
		m := &made{key: folderKeys[o.F%len(folderKeys)], entry: fmt.Sprintf("%d-%s", i, folderEntries[o.N%len(folderEntries)]), note: "note"}
		byC[o.C] = append(byC[o.C], m)
		all = append(all, m)
	}
	for cl := 0; cl < 16; cl++ {
		mine := byC[cl]
		if len(mine) == 0 {
			continue
		}
		var waits []int64
		for _, o := range c.Ops {
			if o.C == cl {
				waits = append(waits, o.Wait)
			}
		}
		s.w.Spawn("client", true, func() {
			for i, m := range mine {
				if waits[i] > 0 {
					vsim.Sleep(waits[i] * 1e6)
				}
				create(m)
			}
		})
	}
	var seen []string // what a reader found meanwhile
	if c.knob("reader") == 1 {
		s.w.Spawn("client", true, func() {
			for i := 0; i < 12; i++ {
				l, err := folderList()
				if err == nil {
					for _, id := range l {
						if e, err := serializables.GetEntryFileName(id); err == nil {
							seen = append(seen, id+"\x00"+e)
						}
					}
				}
				vsim.Yield()
			}
		})
	}
	end := s.run()
	story := s.story(end)
	x.M.Requests += len(all)
	hard := 0
	for _, f := range s.w.FaultedPaths {
		if f.Kind != "stall" {
			hard++
		}
	}
	nsw := s.w.NSwitch
	after := x.quiet(nil)
	after.w.FS.CopyFrom(s.w.FS)
	s.close(true)
	crashed := end == vsim.EndCrash
	if crashed {
		x.M.Crashes++
	}
	if end != vsim.EndDone && !crashed {
		x.fail("process", "%s", story)
		after.close(false)
		return
	}
	x.Nontrivial = hard > 0 || crashed || len(byC) > 1 && nsw > 0
	if old != nil {
		all = append(all, old)
	}
	// what the next process finds
	after.library()
	setIDs(99)
	entries := map[string]string{} // folder -> entry, where it opens
	var list []string
	var retry []*made
	keys := map[string][]*made{}
	var order []string
	for _, m := range all {
		if keys[m.key] == nil {
			order = append(order, m.key)
		}
		keys[m.key] = append(keys[m.key], m)
	}
	look := func() {
		l, err := folderList()
		if err != nil {
			return
		}
		list = l
		for _, id := range l {
			if e, err := serializables.GetEntryFileName(id); err == nil {
				entries[id] = e
			}
		}
	}
	after.w.Spawn("client", true, func() {
		look()
	})
	if e := after.run(); e != vsim.EndDone {
		x.fail("process", "the next process: %s", after.story(e))
		after.close(false)
		return
	}
	attempted := map[string]bool{}
	for _, m := range all {
		attempted[m.entry] = true
	}
	for _, id := range list {
		x.M.Checks++
		if e, ok := entries[id]; ok && !attempted[e] {
			x.fail("metadata", "folder %s opens with entry %.80q, which nobody asked for", id, e)
		}
	}
	for _, sn := range seen {
		x.M.Checks++
		id, e, _ := strings.Cut(sn, "\x00")
		if !attempted[e] {
			x.fail("metadata", "a reader found folder %s with entry %.80q, which nobody asked for", id, e)
		}
	}
	fresh := map[string]*made{}
	for _, m := range all {
		x.M.Checks++
		switch {
		case !m.done:
			if !crashed {
				x.fail("stuck", "%s", m)
			}
		case m.err == nil:
			x.probe("created", 1)
			if e, ok := entries[m.id]; !ok || e != m.entry {
				x.fail("lost", "%s, but the folder opens with %.80q (%v)", m, e, ok)
			}
			if o := fresh[m.id]; o != nil {
				x.fail("twice", "%s and %s", o, m)
			}
			fresh[m.id] = m
		case m.exists():
			x.probe("exists already", 1)
			if m.key == "" {
				x.fail("exists", "%s", m)
			} else if _, ok := entries[m.id]; !ok {
				x.fail("incomplete", "%s, but there is no such folder", m)
			}
		default:
			x.probe("failed", 1)
			if hard == 0 && c.knob("bare") == 0 {
				x.fail("error", "%s although no operation failed", m)
			}
		}
	}
	for _, k := range order {
		if k == "" {
			continue
		}
		id, won := "", 0
		for _, m := range keys[k] {
			if m.done && (m.err == nil || m.exists()) {
				if id != "" && m.id != id {
					x.fail("identifier", "key %q has the identifiers %s and %s", k, id, m.id)
				}
				id = m.id
				if m.err == nil {
					won++
				}
			}
		}
		if won > 1 {
			x.fail("twice", "%d creations with the key %q succeeded", won, k)
		}
		if won == 0 && hard == 0 && !crashed && c.knob("bare") == 0 {
			x.fail("none", "no creation with the key %q succeeded: %s", k, keys[k][0])
		}
	}
	if c.knob("bare") == 1 {
		after.w.FS.PutDir("/app/wd/folders")
	}
	// once more with every key
	for i, k := range order {
		m := &made{key: k, entry: fmt.Sprintf("again-%d.xml", i)}
		retry = append(retry, m)
	}
	after.w.Spawn("client", true, func() {
		for _, m := range retry {
			create(m)
		}
		look()
	})
	if e := after.run(); e != vsim.EndDone {
		x.fail("process", "the next process: %s", after.story(e))
		after.close(false)
		return
	}
	after.close(false)
	for _, m := range retry {
		x.M.Checks++
		switch e, ok := entries[m.id]; {
		case !m.done:
			x.fail("stuck", "%s", m)
		case m.err == nil:
			x.probe("created by the next process", 1)
			if !ok || e != m.entry {
				x.fail("lost", "%s, but the folder opens with %.80q (%v)", m, e, ok)
			}
			if o := fresh[m.id]; o != nil {
				x.fail("twice", "%s and %s", o, m)
			}
		case m.exists() && m.key != "":
			x.probe("found by the next process", 1)
			want := false
			for _, a := range keys[m.key] {
				want = want || a.entry == e
			}
			if !ok || !want {
				x.fail("incomplete", "%s, but the folder opens with %.80q (%v)", m, e, ok)
			}
		default:
			x.fail("retry", "%s although no operation failed", m)
		}
	}
	for _, m := range fresh {
		if e, ok := entries[m.id]; !ok || e != m.entry {
			x.fail("lost", "%s, but after later creations the folder opens with %.80q (%v)", m, e, ok)
		}
	}
}

func create(m *made) {
	id, err := serializables.NewFolder(m.key, serializables.Underscore{Entry: m.entry, Note: m.note})
	m.id, m.err, m.done = cloneString(id), err, true
}

func cloneString(s string) string { return string(append([]byte(nil), s...)) }

func folderList() ([]string, error) {
	l, err := vsim.FSReadDir(path.Join(serializables.WorkingDirectoryPath, "folders"))
	if err != nil {
		return nil, err
	}
	var out []string
	for _, i := range l {
		if i.IsDir() {
			out = append(out, i.Name())
		}
	}
	return out, nil
}

func init() {
	register(foldersLife())

	register(&Prop{ID: "C14", Level: "exploration", Quick: 3000, Thorough: 30000,
		Rule:   "a run counts when the interrupt came while a request was in progress, while starting, or between requests; distinct by filings, requests, moment of the interrupt, delays and interleaving",
		Assume: []string{"the simulated listener refuses connections from the moment shutdown begins, and shutdown polls for idle connections as the real one does"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			n := drawFilings(c, fr, 2, allFeats)
			c.Ops = drawOps(r, n, 5, 10, []string{"cat", "cat", "net", "net", "fact", "doc"})
			for i := range c.Ops {
				c.Ops[i].Wait = int64(r.Intn(4000))
			}
			c.Pol = drawPol(r)
			c.Scn = "interrupt"
			c.Knob["grace"] = []int{-1, 0, 400, 1000, 2400, 5000, 15000, 40000}[r.Intn(8)]
			c.Knob["at"] = r.Intn(12000)
			if r.Chance(0.6) {
				c.Scn = "interrupt with slow storage"
				c.Pol.Kinds, c.Pol.Rate, c.Pol.MaxFault = []string{"stall"}, []float64{0.01, 0.05}[r.Intn(2)], 1+r.Intn(5)
			}
			if r.Chance(0.3) {
				c.Scn += ", some clients slow or gone"
				drawLines(r, c.Ops, 0.4)
			}
			switch r.Intn(8) {
			case 0:
				c.Scn = "no interrupt"
				c.Knob["at"] = -1
			case 1:
				c.Scn = "interrupt while starting"
				c.Knob["boot"] = 1
				c.Knob["at"] = r.Intn(20)
				if r.Chance(0.6) {
					c.Pol.Kinds, c.Pol.Rate, c.Pol.MaxFault = []string{"stall"}, 0.2, 3
					c.Knob["at"] = r.Intn(30000)
				}
			case 2, 3:
				c.Scn += ", all at one moment"
				for i := range c.Ops {
					c.Ops[i].Wait = 0
				}
				c.Knob["at"] = r.Intn(3)
			}
		},
		Run: func(x *Exec) { x.interrupt() }})
}

// interrupt runs the requests and interrupts the process at some moment.
func (x *Exec) interrupt() {
	c := x.c
	disk, dk, tg := x.world()
	s := x.explore(disk)
	grace := int64(15e9)
	var args []string
	if g := c.knob("grace"); g >= 0 {
		grace = int64(g) * 1e6
		args = []string{fmt.Sprintf("-graceful-timeout=%dms", g)}
	}
	if c.knob("boot") == 0 {
		s.w.FaultsOff()
	}
	s.boot(args...)
	var raised, up int64
	var last Rec
	env := func() {
		if at := c.knob("at"); at >= 0 {
			vsim.Sleep(int64(at) * 1e6)
			raised = vsim.NowNanos()
			vsim.Raise(os.Interrupt)
			vsim.Sleep(grace + 120e9)
			return
		}
		vsim.Sleep(150e9)
		get(&last, tg[0]["cat"][0])
	}
	if c.knob("boot") == 1 {
		s.w.Spawn("client", true, env)
		s.w.Spawn("client", true, func() {
			if waitUp() {
				up = vsim.NowNanos()
			}
		})
	} else {
		if !s.up() {
			x.fail("noserver", "the server does not start: %s", s.story(s.w.End))
			s.close(true)
			return
		}
		s.w.FaultsOn()
		s.w.Spawn("client", true, env)
	}
	recs, end := s.phase(c.Ops, tg)
	story := s.story(end)
	exit := s.w.Now
	s.close(true)
	if c.knob("at") < 0 {
		x.M.Checks++
		if end != vsim.EndDone {
			x.fail("exit", "without an interrupt %s", story)
			return
		}
		if !last.Out.Late && (!last.answered() || last.Code != 200) {
			x.fail("noanswer", "after a while without an interrupt: %s: %s", last.URL, &last)
		}
		x.Nontrivial = true
	} else {
		if end == vsim.EndDone {
			x.fail("noexit", "the process is still there %d s after the grace period of %d ms", 120, grace/1e6)
			return
		}
		if end != vsim.EndExit {
			x.fail("process", "%s", story)
			return
		}
	}
	from := raised // when the program could know
	if up > from {
		from = up
	}
	rel := func(t int64) float64 { return float64(t-from) / 1e9 }
	if raised > 0 {
		x.M.Checks++
		if c.knob("boot") == 1 && up == 0 {
			// it went before it ever listened; it may have been starting up for as long as its disk took
			x.probe("interrupted before listening", 1)
			x.Nontrivial = true
		} else if exit > from+grace+1e9 {
			x.fail("late", "the process exited %.3f s after the interrupt; the grace period is %d ms", rel(exit), grace/1e6)
		}
	}
	for i := range recs {
		r := &recs[i]
		x.M.Checks++
		if raised > 0 && r.Out.Accepted && r.Out.Start > from {
			x.fail("accepted", "%s was accepted %.3f s after the interrupt", r.URL, rel(r.Out.Start))
			continue
		}
		if !r.Out.Accepted {
			if raised == 0 {
				x.fail("refused", "%s: %s without an interrupt", r.URL, r)
			}
			continue
		}
		if raised > 0 && r.Out.Start <= from && (r.Out.End == 0 || r.Out.End > from) {
			x.probe("in progress at the interrupt", 1)
		}
		if raised > 0 {
			x.Nontrivial = true
		}
		if r.Out.Late || c.Ops[r.Op].Net != "" && !r.answered() {
			continue
		}
		if !r.Sent { // cut by the exit
			if exit < from+grace {
				x.fail("cut", "%s was in progress when the process exited %.3f s after the interrupt; the grace period is %d s", r.URL, rel(exit), grace/1e9)
			} else {
				x.probe("cut at the end of the grace period", 1)
			}
			continue
		}
		if r.Out.Aborted {
			if raised > 0 && r.Out.End >= from+grace {
				continue
			}
			x.fail("cut", "%s: %s", r.URL, r)
			continue
		}
		if r.Out.End > from && raised > 0 {
			x.probe("finished within the grace period", 1)
		}
		a := x.cold(disk, dk, r.URL)
		if a.Bad != "" || !same(a, r) {
			x.fail("answer", "%s: %s; a fresh server answers %s; %s", r.URL, r, a, diff(a.Body, r.Body))
		}
	}
}
