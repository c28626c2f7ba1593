package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"path"
	"reflect"
	"sort"
	"strings"

	"ecksbee.com/telefacts/pkg/serializables"
	"ecksbee.com/telefacts/vsim"
)

// reach is what the entry document of a folder reaches, found by a plain sequential walk over
// the files as they are on disk.
type reach struct {
	held  map[string]map[string]bool // kind -> locations
	ns    map[string]map[string]bool // namespace -> locations it was declared with
	refs  int                        // references written in the files
	files int
	fail  bool // the entry document itself cannot be read
}

const (
	nsLink  = "http://www.xbrl.org/2003/linkbase"
	nsXsd   = "http://www.w3.org/2001/XMLSchema"
	nsXlink = "http://www.w3.org/1999/xlink"
)

// scan reads a whole XML file and calls f for each element with the names of its ancestors.
func scan(b []byte, f func(up []string, e xml.StartElement)) (root string, err error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var up []string
	for {
		t, err := d.Token()
		if err == io.EOF {
			if root == "" || len(up) > 0 {
				return root, io.ErrUnexpectedEOF
			}
			return root, nil
		}
		if err != nil {
			return root, err
		}
		switch e := t.(type) {
		case xml.StartElement:
			if root == "" {
				root = e.Name.Local
			} else if len(up) == 0 {
				return root, nil
			}
			if f != nil {
				f(up, e)
			}
			up = append(up, e.Name.Space+" "+e.Name.Local)
		case xml.EndElement:
			up = up[:len(up)-1]
			if len(up) == 0 {
				return root, nil
			}
		}
	}
}

func at(e xml.StartElement, space, local string) string {
	for _, a := range e.Attr {
		if a.Name.Local == local && a.Name.Space == space {
			return a.Value
		}
	}
	return ""
}

func remote(loc string) bool {
	return strings.HasPrefix(loc, "http://") || strings.HasPrefix(loc, "https://")
}

func closure(files map[string][]byte, entry string) *reach {
	r := &reach{held: map[string]map[string]bool{}, ns: map[string]map[string]bool{}, files: len(files)}
	for _, k := range []string{"sch", "pre", "def", "cal", "lab"} {
		r.held[k] = map[string]bool{}
	}
	inst := entry
	if strings.HasSuffix(entry, ".htm") || strings.HasSuffix(entry, ".xhtml") {
		if _, ok := files[entry]; !ok {
			r.fail = true
			return r
		}
		if _, err := scan(files[entry], nil); err != nil {
			r.fail = true
			return r
		}
		inst = entry + ".xml"
	}
	decl := func(ns, loc string) {
		if r.ns[ns] == nil {
			r.ns[ns] = map[string]bool{}
		}
		r.ns[ns][path.Clean(loc)] = true
	}
	var visit func(loc string)
	visit = func(loc string) {
		if r.held["sch"][loc] {
			return
		}
		b, ok := files[path.Clean(loc)]
		if !ok {
			return
		}
		type ref struct{ kind, loc string }
		var todo []ref
		ok = true
		root, err := scan(b, func(up []string, e xml.StartElement) {
			switch {
			case len(up) == 1 && e.Name.Space == nsXsd && e.Name.Local == "include":
				r.refs++
				todo = append(todo, ref{"sch", at(e, "", "schemaLocation")})
			case len(up) == 1 && e.Name.Space == nsXsd && e.Name.Local == "import":
				r.refs++
				todo = append(todo, ref{"imp " + at(e, "", "namespace"), at(e, "", "schemaLocation")})
			case len(up) == 3 && e.Name.Space == nsLink && e.Name.Local == "linkbaseRef":
				r.refs++
				role := at(e, nsXlink, "role")
				for k, v := range map[string]string{"pre": "presentation", "def": "definition", "cal": "calculation", "lab": "label"} {
					if role == "http://www.xbrl.org/2003/role/"+v+"LinkbaseRef" {
						todo = append(todo, ref{k, at(e, nsXlink, "href")})
					}
				}
			}
		})
		if err != nil || root != "schema" {
			return
		}
		r.held["sch"][loc] = true
		for _, t := range todo {
			if ns, ok := strings.CutPrefix(t.kind, "imp "); ok {
				decl(ns, t.loc)
				if !remote(t.loc) {
					visit(t.loc)
				}
				continue
			}
			if t.loc == "" || remote(t.loc) {
				continue
			}
			if t.kind == "sch" {
				if ns := targetNS(files[path.Clean(t.loc)]); ns != "" {
					decl(ns, t.loc)
				}
				visit(t.loc)
				continue
			}
			if root, err := scan(files[path.Clean(t.loc)], nil); err == nil && root == "linkbase" {
				r.held[t.kind][t.loc] = true
			}
		}
	}
	var first []string
	if _, err := scan(files[inst], func(up []string, e xml.StartElement) {
		if len(up) == 1 && e.Name.Space == nsLink && e.Name.Local == "schemaRef" {
			first = append(first, at(e, nsXlink, "href"))
			r.refs++
		}
	}); err != nil {
		r.fail = true
		return r
	}
	for _, loc := range first {
		if ns := targetNS(files[path.Clean(loc)]); ns != "" {
			decl(ns, loc)
		}
		visit(loc)
	}
	return r
}

func targetNS(b []byte) string {
	ns := ""
	if _, err := scan(b, func(up []string, e xml.StartElement) {
		if len(up) == 0 {
			ns = at(e, "", "targetNamespace")
		}
	}); err != nil {
		return ""
	}
	return ns
}

// written counts the references of all files, reachable or not.
func written(files map[string][]byte) int {
	n := 0
	for _, b := range files {
		n += bytes.Count(b, []byte("schemaLocation=")) + bytes.Count(b, []byte("linkbaseRef ")) + bytes.Count(b, []byte("schemaRef "))
	}
	return n
}

// snapshot turns the parts of an opened folder into text.
func snapshot(f *serializables.Folder) map[string]map[string]string {
	out := map[string]map[string]string{}
	take := func(kind string, m any) {
		part := map[string]string{}
		v := reflect.ValueOf(m)
		it := v.MapRange()
		for it.Next() {
			b, err := json.Marshal(it.Value().Interface())
			if err != nil {
				b = []byte(err.Error())
			}
			part[it.Key().String()] = string(b)
		}
		out[kind] = part
	}
	take("sch", f.Schemas)
	take("pre", f.PresentationLinkbases)
	take("def", f.DefinitionLinkbases)
	take("cal", f.CalculationLinkbases)
	take("lab", f.LabelLinkbases)
	take("img", f.Images)
	if v := reflect.ValueOf(f).Elem().FieldByName("Namespaces"); v.IsValid() && v.Kind() == reflect.Map && v.Type().Elem().Kind() == reflect.String {
		take("ns", v.Interface())
	}
	return out
}

var kindNames = map[string]string{"sch": "schema", "pre": "presentation linkbase", "def": "definition linkbase", "cal": "calculation linkbase", "lab": "label linkbase", "img": "image"}

// checkHeld compares an opened folder with what its entry document reaches.
func (x *Exec) checkHeld(f *Filing, snap map[string]map[string]string) {
	r := closure(f.Files, f.Entry)
	for _, k := range []string{"sch", "pre", "def", "cal", "lab"} {
		// how a place is spelled does not matter
		want, got := map[string]bool{}, map[string]bool{}
		for loc := range r.held[k] {
			want[path.Clean(loc)] = true
		}
		for loc := range snap[k] {
			got[path.Clean(loc)] = true
		}
		x.M.Checks++
		if d := setDiff(want, got); d != "" {
			x.fail("held", "%s: %s: %s", f.Spec.ID, kindNames[k], d)
		}
		x.probe(kindNames[k], len(got))
		for _, loc := range sortedKeys(snap[k]) {
			x.M.Checks++
			if bad := sameContent(k, f.Files[path.Clean(loc)], snap[k][loc]); bad != "" {
				x.fail("content", "%s: %s %s: %s", f.Spec.ID, kindNames[k], loc, bad)
			}
		}
	}
	want := map[string]bool{}
	got := map[string]bool{}
	for n, b := range f.Files {
		mime := http.DetectContentType(b)
		if !strings.Contains(n, "/") && (mime == "image/jpeg" || mime == "image/png") {
			want[n] = true
		}
	}
	for n := range snap["img"] {
		got[n] = true
	}
	x.M.Checks++
	if d := setDiff(want, got); d != "" {
		x.fail("held", "%s: image: %s", f.Spec.ID, d)
	}
	for _, n := range sortedKeys(snap["img"]) {
		if !strings.Contains(snap["img"][n], base64.StdEncoding.EncodeToString(f.Files[n])) {
			x.fail("content", "%s: image %s does not hold the data of the file", f.Spec.ID, n)
		}
	}
	x.probe("image", len(got))
	if ns, ok := snap["ns"]; ok {
		have := map[string]bool{}
		wantNS := map[string]bool{}
		for n := range r.ns {
			wantNS[n] = true
		}
		for _, n := range sortedKeys(ns) {
			have[n] = true
			var loc string
			json.Unmarshal([]byte(ns[n]), &loc)
			if r.ns[n] != nil && !r.ns[n][path.Clean(loc)] {
				x.fail("namespace", "%s: namespace %s leads to %s, which it was not declared with", f.Spec.ID, n, loc)
			}
		}
		x.M.Checks++
		if d := setDiff(wantNS, have); d != "" {
			x.fail("namespace", "%s: namespaces: %s", f.Spec.ID, d)
		}
	}
}

// sameContent looks for everything the file names in what was loaded from it.
func sameContent(kind string, file []byte, loaded string) string {
	want := map[string]int{}
	own := map[string]string{"pre": "presentationLink", "def": "definitionLink", "cal": "calculationLink", "lab": "labelLink"}[kind]
	scan(file, func(up []string, e xml.StartElement) {
		if len(up) > 1 && strings.HasSuffix(up[1], "Link") && !strings.HasSuffix(up[1], " "+own) {
			return // a link of another kind in the same file
		}
		if len(up) > 0 && (strings.HasSuffix(up[len(up)-1], " complexType") || e.Name.Local == "complexType") {
			return
		}
		for _, a := range e.Attr {
			switch a.Name.Local {
			case "href", "id", "from", "to", "schemaLocation", "roleURI", "targetNamespace":
				v, _ := json.Marshal(a.Value)
				want[`"Local":"`+a.Name.Local+`"},"Value":`+string(v)]++
			}
		}
	})
	for _, v := range sortedKeys(want) {
		if n := strings.Count(loaded, v); n != want[v] {
			return fmt.Sprintf("%s is in the file %d times, and %d times in what was loaded", v, want[v], n)
		}
	}
	return ""
}

var openFeats = []string{"inline", "xhtml", "labels", "labsplit", "global", "import", "include", "diamond", "cycle", "calc", "def", "presplit", "calsplit", "defsplit", "images", "imgodd", "roledup", "appinfo2", "nested", "globalref", "alias", "sharedlink", "hollow", "mixlb", "refs2", "locnum", "lbdirs", "lbsub", "lbnames", "star", "prelinks", "callinks", "deflinks", "imgbig"}

type opened struct {
	folder *serializables.Folder
	err    error
	snap   map[string]map[string]string
	done   bool
	pan    string
}

func (x *Exec) openAll(s *Sim, ids []string) []*opened {
	var out []*opened
	for _, id := range ids {
		o := &opened{}
		out = append(out, o)
		s.w.Spawn("client", true, func() {
			o.folder, o.err = serializables.Discover(id)
			if o.err == nil && o.folder != nil {
				o.snap = snapshot(o.folder)
			}
			o.done = true
		})
	}
	return out
}

var graphKinds = []string{"self", "ring", "mutual", "ladder", "dense", "tower", "ringtail", "clique", "twin", "chain"}

func init() {
	register(&Prop{ID: "C03", Level: "exploration", Quick: 3000, Thorough: 30000,
		Rule:   "a run counts when the scheduler had a choice while a folder with at least two schemas or linkbases was opened; distinct by files and interleaving",
		Assume: []string{"files are read without failure (failures are covered by C05 and C06)"},
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			c.Scn = "open"
			sp := drawSpec(fr, "fil0", openFeats, 0.4)
			sp.NSch = fr.Intn(8)
			if fr.Chance(0.7) {
				sp = with(sp, []string{"import", "include"}[fr.Intn(2)])
			}
			if r.Chance(0.4) {
				c.Scn = "open with missing and malformed files"
				for k := 1 + r.Intn(3); k > 0; k-- {
					sp.Mut = append(sp.Mut, Mut{Kind: []string{"drop", "cut", "garbage", "empty"}[r.Intn(4)], A: r.U64() >> 20, B: r.U64() >> 20})
				}
			}
			c.Filings = []FSpec{sp}
			c.Knob["openers"] = 1 + r.Intn(3)
			c.Pol = drawPol(r)
			c.Pol.Maps = r.Chance(0.3)
			if r.Chance(0.3) {
				c.Pol.Rate, c.Pol.MaxFault, c.Pol.Kinds = 0.05, 20, []string{"short", "stall"}
			}
		},
		Run: func(x *Exec) {
			f := x.filings()[0]
			s := x.explore(x.disk())
			s.library()
			var ids []string
			for i := 0; i < x.c.knob("openers"); i++ {
				ids = append(ids, f.Spec.ID)
			}
			os := x.openAll(s, ids)
			end := s.run()
			story := s.story(end)
			x.Nontrivial = s.w.NChoice > 0 && len(f.Files) > 4
			s.close(true)
			if end != vsim.EndDone {
				x.fail("process", "%s", story)
				return
			}
			r := closure(f.Files, f.Entry)
			entry := true
			if b, ok := f.Files["_"]; !ok || !json.Valid(b) {
				entry = false
			}
			for _, o := range os {
				if !o.done {
					x.fail("process", "opening did not return")
					return
				}
				if o.err != nil {
					x.probe("not opened", 1)
					if !r.fail && entry {
						x.fail("notopened", "%s: %v", f.Spec.ID, o.err)
					}
					continue
				}
				if r.fail || !entry {
					x.probe("opened without an entry document", 1)
					continue
				}
				x.probe("opened", 1)
				x.checkHeld(f, o.snap)
				x.M.Checks++
				after := snapshot(o.folder)
				if !reflect.DeepEqual(o.snap, after) {
					x.fail("late", "%s: what the folder holds changed after it was opened", f.Spec.ID)
				}
			}
		}})

	register(&Prop{ID: "C04", Level: "exploration", Quick: 1200, Thorough: 12000,
		Rule: "a run counts when the references between the schemas of the folder form a cycle or reach a schema in two ways; distinct by files and interleaving",
		Gen: func(c *Case, fr, r *vsim.Rand, tier string) {
			c.Names = "ok"
			g := graphKinds[fr.Intn(len(graphKinds))]
			c.Scn = g
			max := 14
			if tier == "thorough" {
				max = 24
			}
			sp := drawSpec(fr, "fil0", []string{"inline", "labels", "global", "calc", "def", "nested", "appinfo2"}, 0.3)
			sp.NSch = 1 + fr.Intn(max)
			sp.NCon = 3
			sp = with(sp, []string{"import", "include"}[fr.Intn(2)], "g:"+g)
			if fr.Chance(0.4) {
				sp = with(sp, "import", "include")
			}
			c.Filings = []FSpec{sp}
			c.Pol = drawPol(r)
			if r.Chance(0.3) { // one reference after the other, each to its end
				c.Pol.Prio, c.Pol.Order, c.Pol.Switch = true, 2, 0.001
			}
			c.Knob["openers"] = 1
			if r.Chance(0.2) {
				c.Knob["openers"] = 2
			}
		},
		Run: func(x *Exec) {
			f := x.filings()[0]
			pol := x.policy()
			pol.MaxDecide = 10_000 // some hundred are usual
			s := x.exploreAs(pol, x.disk())
			s.library()
			n := x.c.knob("openers")
			var ids []string
			for i := 0; i < n; i++ {
				ids = append(ids, f.Spec.ID)
			}
			size := len(f.Files) + written(f.Files)
			// facts of an inline document are part of what is opened
			size2 := size + len(f.Tagged)
			os := x.openAll(s, ids)
			end := s.run()
			story := s.story(end)
			opens := 0
			for _, k := range s.w.FS.Reads {
				opens += k
			}
			tasks := s.w.NSpawn
			s.close(true)
			x.M.Checks += 2
			x.Nontrivial = true
			if end != vsim.EndDone {
				x.fail("unfinished", "opening %d files with %d references: %s", len(f.Files), written(f.Files), story)
				return
			}
			for _, o := range os {
				if !o.done || o.err != nil {
					x.fail("notopened", "%s: %v", f.Spec.ID, o.err)
				}
			}
			if max := n * (3*size + 20); opens > max {
				x.fail("reads", "opening %d files with %d references read files %d times (limit %d)", len(f.Files), written(f.Files), opens, max)
			}
			if max := n * (8*size2 + 60); tasks > max {
				x.fail("goroutines", "opening %d files with %d references used %d goroutines (limit %d)", len(f.Files), written(f.Files), tasks, max)
			}
			x.probe("file reads", opens)
		}})
}

// graph lays out the references between n schemas in one of several awkward ways.
func graph(kind string, n int, r *vsim.Rand) [][]int {
	out := make([][]int, n)
	add := func(a, b int) { out[a] = append(out[a], b) }
	for i := 1; i < n; i++ { // everything stays reachable
		switch kind {
		case "ladder", "tower", "dense", "clique", "twin":
		default:
			add(i-1, i)
		}
	}
	switch kind {
	case "self":
		for i := 0; i < n; i++ {
			if i == 0 || r.Chance(0.5) {
				add(i, i)
			}
		}
	case "ring":
		add(n-1, 0)
	case "mutual":
		for i := 1; i < n; i++ {
			add(i, i-1)
		}
	case "ringtail":
		add(n-1, r.Intn(n))
	case "ladder": // layers of two, each naming both of the next
		for i := 0; i < n; i++ {
			next := (i+1)/2*2 + 1
			for j := next; j < next+2 && j < n; j++ {
				add(i, j)
			}
		}
	case "tower": // each names the next two
		for i := 0; i < n; i++ {
			for j := i + 1; j <= i+2 && j < n; j++ {
				add(i, j)
			}
		}
	case "dense": // each names all later ones
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				add(i, j)
			}
		}
	case "clique":
		for i := 0; i < n && i < 8; i++ {
			for j := 0; j < n && j < 8; j++ {
				add(i, j)
			}
		}
		for i := 8; i < n; i++ {
			add(i-1, i)
		}
	case "twin": // two chains that keep crossing
		for i := 0; i < n; i++ {
			if i+2 < n {
				add(i, i+2)
			}
			if i+1 < n && (i == 0 || i%2 == 1) {
				add(i, i+1)
			}
			if i+3 < n && i%2 == 0 {
				add(i, i+3)
			}
		}
	}
	for i := range out {
		out[i] = uniqInts(out[i])
		sort.Ints(out[i])
	}
	return out
}
