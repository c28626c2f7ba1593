package main

import (
	"encoding/xml"
	"fmt"
	"slices"
	"sort"
	"strings"

	"ecksbee.com/telefacts/vsim"
)

// FSpec says how a filing is built. Everything in the filing follows from it.
type FSpec struct {
	ID    string   `json:"id"`
	Seed  uint64   `json:"seed"`
	Feats []string `json:"feats,omitempty"`
	NCon  int      `json:"ncon"`
	NCtx  int      `json:"nctx"`
	NRole int      `json:"nrole"`
	NSch  int      `json:"nsch"`
	Fill  int      `json:"fill"` // chance in percent that a concept is reported in a context
	Mut   []Mut    `json:"mut,omitempty"`
	// filings of one filer have namespaces, roles and the entity in common
	Brand string `json:"brand,omitempty"`
	Ent   uint64 `json:"ent,omitempty"`
	// another edition of the same filing: all is alike but the texts and numbers
	Alt int `json:"alt,omitempty"`
}

func (s *FSpec) brand() string {
	if s.Brand != "" {
		return s.Brand
	}
	return s.ID
}

func (s *FSpec) ent() uint64 {
	if s.Ent != 0 {
		return s.Ent
	}
	return s.Seed % 100000
}

// Mut damages one file of a filing.
type Mut struct {
	Kind string `json:"kind"`
	A    uint64 `json:"a"`
	B    uint64 `json:"b"`
}

func (s *FSpec) has(f string) bool {
	for _, x := range s.Feats {
		if x == f {
			return true
		}
	}
	return false
}

type Concept struct {
	ID, Name string
	Sch      int // index of the schema, or -1-k for global schema k
	Kind     string
	Abstract bool
	TypedDom int // index of the typed domain element, or -1
}

type Member struct {
	Dim, Mem int // concepts
	Typed    string
	Scenario bool
	// structured typed member: second element and its text
	Dom2  int
	Text2 string
}

type Ctx struct {
	ID, Scheme, Entity  string
	Start, End, Instant string
	Mem                 []Member
}

type Fact struct {
	ID     string
	Con    int
	Ctx    int
	Unit   string
	Dec    string
	Nil    bool
	Inner  string // as written in the instance
	Token  string // text every rendering of the value must contain
	Number string // digits every rendering of the value must start with
	Foot   []int
}

type Role struct {
	URI, ID, Def string
	Sch          int
	Pres         []Node
	Calc         []Sum
	Def_         *Cube
	PreFile      int
}

type Node struct {
	Con, Parent int // Parent indexes Nodes of the role, -1 is a root
}

type Sum struct {
	From int
	To   []int
	W    []string
}

type Cube struct {
	Prim  []Node
	Cube  int
	Dims  []int
	Doms  []int
	Mems  [][]int
	Defs  bool
	Excl  bool
	Scen  bool
	Roots int
}

type Filing struct {
	Spec     *FSpec
	Entry    string
	Inline   bool
	Con      []Concept
	Ctx      []Ctx
	Facts    []Fact
	Notes    []string
	Roles    []Role
	SchLoc   []string
	SchNS    []string
	SchInc   [][]int // included or imported schemas
	Globals  []int
	Images   map[string][]byte
	Files    map[string][]byte // relative to the folder
	Links    map[string]string // linkbase file -> pre def cal lab
	LinkOf   map[string]int    // linkbase file -> schema that names it
	ImgRefs  []string
	Entities [][2]string
	Tagged   [][2]string // name, contextref
	Doc      []byte
	locs_    map[int]int // numbers of the locators of the current link
}

func (f *Filing) href(c int) string {
	k := f.Con[c]
	if k.Sch < 0 {
		return globalLoc(-1-k.Sch) + "#" + k.ID
	}
	return f.SchLoc[k.Sch] + "#" + k.ID
}

func (f *Filing) qname(c int) string {
	k := f.Con[c]
	if k.Sch < 0 {
		return fmt.Sprintf("g%d:%s", -1-k.Sch, k.Name)
	}
	return fmt.Sprintf("p%d:%s", f.nsIdx(k.Sch), k.Name)
}

// docname is the name by which the document tags a concept. Its prefixes are its own.
func (f *Filing) docname(c int) string {
	q := f.qname(c)
	if !f.Spec.has("docprefix") {
		return q
	}
	k := f.Con[c]
	if k.Sch < 0 {
		return "q" + q
	}
	return fmt.Sprintf("p%d:%s", f.docIdx(f.nsIdx(k.Sch)), k.Name)
}

// docIdx turns the prefixes around by one, or uses a new one if there is only one.
func (f *Filing) docIdx(j int) int {
	var own []int
	for i := range f.SchNS {
		if f.nsIdx(i) == i {
			own = append(own, i)
		}
	}
	for i, x := range own {
		if x == j && len(own) > 1 {
			return own[(i+1)%len(own)]
		}
	}
	return j + 7
}

func (f *Filing) docDecls() string {
	if !f.Spec.has("docprefix") {
		return f.nsDecls()
	}
	var b strings.Builder
	for j := range f.SchNS {
		if f.nsIdx(j) == j {
			fmt.Fprintf(&b, ` xmlns:p%d="%s"`, f.docIdx(j), f.SchNS[j])
		}
	}
	for _, g := range f.Globals {
		fmt.Fprintf(&b, ` xmlns:qg%d="%s"`, g, globalNS(g))
	}
	return b.String()
}

func (f *Filing) nsIdx(s int) int {
	for i := range f.SchNS {
		if f.SchNS[i] == f.SchNS[s] {
			return i
		}
	}
	return s
}

const nGlobals = 4

// two and two have the same file name
func globalLoc(k int) string {
	return fmt.Sprintf("http://taxonomy.example/%d/core%d.xsd", 2020+k, k%2)
}

func globalNS(k int) string { return fmt.Sprintf("http://taxonomy.example/ns/core%d", k) }
func globalPath(k int) string {
	return fmt.Sprintf("gts/concepts/http/taxonomy.example/%d/core%d.xsd", 2020+k, k%2)
}

const nGlobalCon = 6

func globalConcept(k, i int) Concept {
	kind := []string{"str", "num", "str", "mon", "txt", "num"}[(i+k)%6]
	return Concept{ID: fmt.Sprintf("core%d_Item%d", k%2, i), Name: fmt.Sprintf("Item%d", i), Sch: -1 - k, Kind: kind, TypedDom: -1}
}

const xmlHead = `<?xml version="1.0" encoding="UTF-8"?>` + "\n"

const schNS = `xmlns:xsd="http://www.w3.org/2001/XMLSchema" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:num="http://www.xbrl.org/dtr/type/numeric" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric"`

func element(c Concept, extra string) string {
	typ, sub := "xbrli:stringItemType", "xbrli:item"
	switch c.Kind {
	case "num":
		typ = "xbrli:decimalItemType"
	case "mon":
		typ = "xbrli:monetaryItemType"
	case "pct":
		typ = "num:percentItemType"
	case "txt":
		typ = "nonnum:textBlockItemType"
	case "dim":
		sub = "xbrldt:dimensionItem"
	case "cube":
		sub = "xbrldt:hypercubeItem"
	case "mem":
		typ = "nonnum:domainItemType"
	case "dom":
		typ, sub = "xsd:string", ""
	}
	s := fmt.Sprintf(`  <xsd:element id="%s" name="%s" type="%s"`, c.ID, c.Name, typ)
	if sub != "" {
		s += fmt.Sprintf(` substitutionGroup="%s" xbrli:periodType="duration"`, sub)
	}
	if c.Abstract {
		s += ` abstract="true"`
	}
	if c.Kind == "mon" {
		s += ` xbrli:balance="debit"`
	}
	return s + ` nillable="true"` + extra + "/>\n"
}

// globalFiles are the shared taxonomy files below the root of the disk.
func globalFiles() map[string][]byte {
	out := map[string][]byte{}
	for k := 0; k < nGlobals; k++ {
		var b strings.Builder
		b.WriteString(xmlHead + `<xsd:schema targetNamespace="` + globalNS(k) + `" ` + schNS + ">\n")
		// the shared schemas refer to each other in circles
		for _, j := range []int{(k + 1) % nGlobals, (k + 3) % nGlobals} {
			fmt.Fprintf(&b, `  <xsd:import namespace="%s" schemaLocation="%s"/>`+"\n", globalNS(j), globalLoc(j))
		}
		for i := 0; i < nGlobalCon; i++ {
			b.WriteString(element(globalConcept(k, i), ""))
		}
		b.WriteString("</xsd:schema>\n")
		out[globalPath(k)] = []byte(b.String())
	}
	out["gts/concepts/http/www.xbrl.org/2003/xbrl-role-2003-07-31.xsd"] = []byte(xmlHead + `<xsd:schema targetNamespace="http://www.xbrl.org/2003/role" ` + schNS + `><xsd:annotation><xsd:appinfo><link:roleType id="lrr" roleURI="http://www.xbrl.org/2003/role/lrr"><link:definition>registry</link:definition></link:roleType></xsd:appinfo></xsd:annotation></xsd:schema>`)
	out["gts/concepts/http/www.xbrl.org/utr/utr.xml"] = []byte(xmlHead + `<utr xmlns="http://www.xbrl.org/2009/utr"><units>
<unit id="u1"><unitId>USD</unitId><unitName>US Dollar</unitName><nsUnit>http://www.xbrl.org/2003/iso4217</nsUnit><itemType>monetaryItemType</itemType><symbol>$</symbol><status>REC</status></unit>
<unit id="u2"><unitId>EUR</unitId><unitName>Euro</unitName><nsUnit>http://www.xbrl.org/2003/iso4217</nsUnit><itemType>monetaryItemType</itemType><status>REC</status></unit>
<unit id="u3"><unitId>shares</unitId><unitName>Share</unitName><nsUnit>http://www.xbrl.org/2003/instance</nsUnit><itemType>sharesItemType</itemType><status>REC</status></unit>
<unit id="u4"><unitId>pure</unitId><unitName>Pure</unitName><nsUnit>http://www.xbrl.org/2003/instance</nsUnit><itemType>pureItemType</itemType><status>REC</status></unit>
</units></utr>`)
	return out
}

var allFeats = []string{"inline", "xhtml", "labels", "spanish", "labsplit", "labconflict", "terse", "explicit", "typed", "typed2", "typedtree", "scenario",
	"sameperiod", "entity2", "foot", "footlinks", "nil", "global", "import", "include", "diamond", "cycle", "calc", "def", "presplit", "calsplit", "defsplit",
	"images", "imgodd", "units", "percent", "textblock", "manyfacts", "roledup", "instant", "dupfact", "deep", "appinfo2", "nested", "globalref",
	"titledup", "scheme2", "nearctx", "nearname", "idodd", "imgnear", "refs2", "docprefix", "samelocal", "table", "unitid", "locnum", "hollow", "mixlb", "stray", "docctx", "docunit", "docfoot", "footid", "footlocal", "footshare", "footrev", "nearid", "imgsub", "lbdirs", "lbsub", "lbnames", "star", "imgwrap", "untitled", "unused", "prelinks", "callinks", "deflinks"}

// sub gives independent random streams per part, so that dropping one feature leaves the rest as
// it was.
func (s *FSpec) sub(part string) *vsim.Rand {
	h := uint64(14695981039346656037)
	for i := 0; i < len(part); i++ {
		h = (h ^ uint64(part[i])) * 1099511628211
	}
	r := vsim.NewRand(s.Seed ^ h)
	r.U64()
	return r
}

func date(n int) string { return fmt.Sprintf("20%02d-%02d-%02d", 10+n/300%80, 1+n/25%12, 1+n%25) }

// Build makes the filing.
func Build(sp *FSpec) *Filing {
	f := &Filing{Spec: sp, Images: map[string][]byte{}, Files: map[string][]byte{}, Links: map[string]string{}, LinkOf: map[string]int{}}
	f.Inline = sp.has("inline")
	f.Entry = "report.xml"
	r := sp.sub("entry")
	if r.Chance(0.3) {
		f.Entry = "report.xbrl"
	}
	if f.Inline {
		f.Entry = "report.htm"
		if sp.has("xhtml") {
			f.Entry = "report.xhtml"
		}
	}
	f.schemas()
	f.concepts()
	f.contexts()
	f.facts()
	f.roles()
	f.emitSchemas()
	f.emitLinkbases()
	f.emitInstance()
	if f.Inline {
		f.emitDoc()
	}
	f.Files["_"] = []byte(fmt.Sprintf(`{"Entry":"%s","Note":"n"}`, f.Entry))
	for k, v := range f.Images {
		f.Files[k] = v
	}
	for _, m := range sp.Mut {
		f.mutate(m)
	}
	return f
}

func (f *Filing) schemas() {
	sp := f.Spec
	r := sp.sub("schemas")
	n := 1
	if sp.has("import") || sp.has("include") {
		n = 2 + sp.NSch
		if n < 3 {
			n = 3
		}
	}
	for i := 0; i < n; i++ {
		loc := fmt.Sprintf("s%d.xsd", i)
		if i > 0 && sp.has("nested") && r.Chance(0.5) {
			loc = fmt.Sprintf("tax/s%d.xsd", i)
		}
		f.SchLoc = append(f.SchLoc, loc)
		f.SchNS = append(f.SchNS, fmt.Sprintf("http://%s.example/s%d", sp.brand(), i))
		f.SchInc = append(f.SchInc, nil)
	}
	for i := 1; i < n; i++ {
		p := r.Intn(i)
		if sp.has("star") {
			p = 0
		}
		f.SchInc[p] = append(f.SchInc[p], i)
		if sp.has("include") && (!sp.has("import") || r.Chance(0.6)) {
			f.SchNS[i] = f.SchNS[p]
		}
	}
	if sp.has("diamond") && n > 2 {
		for k := 0; k < 1+n/2; k++ {
			a, b := r.Intn(n), r.Intn(n)
			if a > b {
				a, b = b, a
			}
			if a != b {
				f.SchInc[a] = append(f.SchInc[a], b)
			}
		}
	}
	if sp.has("cycle") && n > 1 {
		a, b := r.Intn(n), r.Intn(n)
		if a < b {
			a, b = b, a
		}
		f.SchInc[a] = append(f.SchInc[a], b)
	}
	for _, ft := range sp.Feats {
		if k, ok := strings.CutPrefix(ft, "g:"); ok {
			f.SchInc = graph(k, n, sp.sub("graph"))
		}
	}
	for i := range f.SchInc {
		f.SchInc[i] = uniqInts(f.SchInc[i])
	}
	if sp.has("global") {
		f.Globals = []int{r.Intn(nGlobals)}
		if r.Chance(0.5) {
			f.Globals = uniqInts(append(f.Globals, r.Intn(nGlobals)))
		}
	}
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func uniqInts(in []int) []int {
	seen := map[int]bool{}
	var out []int
	for _, x := range in {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func (f *Filing) add(c Concept) int {
	f.Con = append(f.Con, c)
	return len(f.Con) - 1
}

func (f *Filing) byKind(kinds ...string) []int {
	var out []int
	for i, c := range f.Con {
		for _, k := range kinds {
			if c.Kind == k {
				out = append(out, i)
			}
		}
	}
	return out
}

// names that are easily taken for each other
var nearNames = []string{"Con0", "con0", "Con00", "CON0", "Con0-x", "Con0.x", "Con", "Con0_x", "xCon0", "Con0x"}
var nearCtx = []string{"ctx0", "CTX0", "ctx00", "ctx", "Ctx0", "ctx0-", "xctx0", "ctx0.0"}

func (f *Filing) concepts() {
	sp := f.Spec
	r := sp.sub("concepts")
	kinds := []string{"str", "num", "str", "mon"}
	if sp.has("percent") {
		kinds = append(kinds, "pct")
	}
	if sp.has("textblock") {
		kinds = append(kinds, "txt")
	}
	home := 0
	if sp.has("hollow") {
		home = len(f.SchLoc) - 1 // the other schemas hold nothing but references
	}
	n := sp.NCon
	if n < 2 {
		n = 2
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("Con%d", i)
		if sp.has("nearname") {
			name = nearNames[i%len(nearNames)] + strings.Repeat("q", i/len(nearNames))
		}
		id := "c_" + name
		if sp.has("idodd") {
			id = fmt.Sprintf("el%d", n-i)
		}
		sch := r.Intn(len(f.SchLoc))
		if sp.has("hollow") {
			sch = home
		}
		c := Concept{ID: id, Name: name, Sch: sch, Kind: kinds[r.Intn(len(kinds))], TypedDom: -1}
		if sp.has("samelocal") && i%2 == 1 && f.SchNS[f.Con[i-1].Sch] != f.SchNS[c.Sch] {
			c.Name, c.ID = f.Con[i-1].Name, f.Con[i-1].ID
		}
		f.add(c)
	}
	for i := 0; i < 2; i++ {
		f.add(Concept{ID: fmt.Sprintf("c_Abs%d", i), Name: fmt.Sprintf("Abs%d", i), Sch: home, Kind: "abs", Abstract: true, TypedDom: -1})
	}
	if sp.has("explicit") || sp.has("def") {
		for d := 0; d < 2+r.Intn(2); d++ {
			f.add(Concept{ID: fmt.Sprintf("c_Dim%d", d), Name: fmt.Sprintf("Dim%d", d), Sch: home, Kind: "dim", Abstract: true, TypedDom: -1})
			for m := 0; m < 3; m++ {
				f.add(Concept{ID: fmt.Sprintf("c_Dim%dMem%d", d, m), Name: fmt.Sprintf("Dim%dMem%d", d, m), Sch: home, Kind: "mem", Abstract: true, TypedDom: -1})
			}
		}
	}
	if sp.has("typed") {
		nt := 1
		if sp.has("typed2") {
			nt = 2 + r.Intn(2)
		}
		for d := 0; d < nt; d++ {
			dom := f.add(Concept{ID: fmt.Sprintf("c_TDom%d", d), Name: fmt.Sprintf("TDom%d", d), Sch: home, Kind: "dom", TypedDom: -1})
			f.add(Concept{ID: fmt.Sprintf("c_TSub%d", d), Name: fmt.Sprintf("TSub%d", d), Sch: home, Kind: "sub", TypedDom: -1})
			f.add(Concept{ID: fmt.Sprintf("c_TDim%d", d), Name: fmt.Sprintf("TDim%d", d), Sch: home, Kind: "tdim", Abstract: true, TypedDom: dom})
		}
	}
	if sp.has("def") {
		f.add(Concept{ID: "c_Cube", Name: "Cube", Sch: home, Kind: "cube", Abstract: true, TypedDom: -1})
	}
	for _, g := range f.Globals {
		for i := 0; i < nGlobalCon; i++ {
			f.add(globalConcept(g, i))
		}
	}
	if sp.has("stray") {
		// a shared concept that a linkbase names although no schema brings it in
		k := 0
		for i := 0; i < nGlobals; i++ {
			if !contains(f.Globals, i) {
				k = i
			}
		}
		c := globalConcept(k, int(sp.Seed%nGlobalCon))
		c.Kind = "stray"
		f.add(c)
	}
}

func (f *Filing) contexts() {
	sp := f.Spec
	r := sp.sub("contexts")
	rm := sp.sub("members")
	ents := [][2]string{{"http://www.sec.gov/CIK", fmt.Sprintf("%010d", sp.ent())}}
	if sp.has("entity2") {
		ents = append(ents, [2]string{"http://www.sec.gov/CIK", fmt.Sprintf("%010d", sp.ent()+1)})
		if r.Chance(0.3) {
			ents = append(ents, [2]string{"http://lei.example/", "5493"})
		}
	}
	if sp.has("scheme2") {
		for i := range ents {
			ents = append(ents, [2]string{"http://lei.example/x", ents[i][1]}, [2]string{"HTTP://www.sec.gov/CIK", ents[i][1]})
		}
	}
	n := sp.NCtx
	if n < 1 {
		n = 1
	}
	dims := f.byKind("dim")
	tdims := f.byKind("tdim")
	used := map[string]bool{}
	var used2 [][2]string
	for i := 0; i < n; i++ {
		e := ents[i%len(ents)]
		if r.Chance(0.3) {
			e = ents[r.Intn(len(ents))]
		}
		c := Ctx{ID: fmt.Sprintf("ctx%d", i), Scheme: e[0], Entity: e[1]}
		if sp.has("nearctx") && i < len(nearCtx) {
			c.ID = nearCtx[i]
		}
		base := i * 31
		if sp.has("sameperiod") {
			base = (i / 3) * 31
		}
		// a long span of periods in no particular order of context ids
		base = (base*7 + 3) % 2000
		if sp.has("instant") && r.Chance(0.4) {
			c.Instant = date(base)
		} else {
			c.Start, c.End = date(base), date(base+250)
		}
		if sp.has("explicit") {
			for _, d := range dims {
				if rm.Chance(0.5) {
					c.Mem = append(c.Mem, Member{Dim: d, Mem: d + 1 + rm.Intn(3), Dom2: -1, Scenario: sp.has("scenario") && d%2 == 0})
				}
			}
		}
		for _, d := range tdims {
			if rm.Chance(0.6) {
				m := Member{Dim: d, Mem: -1, Typed: fmt.Sprintf("tv%d", rm.Intn(4)), Dom2: -1, Scenario: sp.has("scenario") && d%2 == 1}
				if sp.has("typedtree") && rm.Chance(0.7) {
					m.Dom2, m.Text2 = d-1, fmt.Sprintf("tw%d", rm.Intn(4))
				}
				c.Mem = append(c.Mem, m)
			}
		}
		k := c.key(f)
		if used[k] && !sp.has("dupfact") {
			continue // two contexts that mean the same are left out
		}
		used[k] = true
		used2 = append(used2, e)
		f.Ctx = append(f.Ctx, c)
	}
	seen := map[[2]string]bool{}
	for _, e := range used2 {
		if !seen[e] {
			seen[e] = true
			f.Entities = append(f.Entities, e)
		}
	}
}

func (c *Ctx) period() string {
	if c.Instant != "" {
		return c.Instant
	}
	return c.Start + "/" + c.End
}

// members lists what the column of a context has to show: dimension href, and member.
func (c *Ctx) members(f *Filing) []string {
	var out []string
	for _, m := range c.Mem {
		if m.Mem >= 0 {
			out = append(out, f.href(m.Dim)+"|"+f.href(m.Mem))
			continue
		}
		dom := f.href(f.Con[m.Dim].TypedDom)
		out = append(out, f.href(m.Dim)+"|"+dom+"="+m.Typed)
		if m.Dom2 >= 0 {
			out = append(out, f.href(m.Dim)+"|"+f.href(m.Dom2)+"="+m.Text2)
		}
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) key(f *Filing) string {
	return c.Scheme + "/" + c.Entity + " " + c.period() + " " + strings.Join(c.members(f), ",")
}

func (f *Filing) facts() {
	sp := f.Spec
	r := sp.sub("facts")
	rf := sp.sub("foot")
	cons := f.byKind("str", "num", "mon", "pct", "txt")
	id := 0
	fill := sp.Fill
	if fill == 0 {
		fill = 50
	}
	nNotes := 0
	if sp.has("foot") {
		nNotes = 2 + rf.Intn(4)
		for i := 0; i < nNotes; i++ {
			f.Notes = append(f.Notes, fmt.Sprintf("note%d-%d", i, rf.Intn(1000)+sp.Alt))
		}
	}
	for ci, c := range cons {
		for x := range f.Ctx {
			if r.Intn(100) >= fill {
				continue
			}
			n := 1
			if sp.has("dupfact") && r.Chance(0.1) {
				n = 2
			}
			for ; n > 0; n-- {
				id++
				ft := Fact{ID: fmt.Sprintf("f%d", id), Con: c, Ctx: x}
				if sp.has("nearid") {
					ft.ID = []string{"f", "F", "f-", "ff", "f.", "F-"}[id%6] + fmt.Sprint(id/6)
				}
				uniq := fmt.Sprintf("%d", 100000+int(sp.Seed%89)*1000+sp.Alt*7+ci*97+x*13+id*1000003%900000)
				switch f.Con[c].Kind {
				case "str":
					ft.Inner = "word" + uniq + "x"
					ft.Token = ft.Inner
				case "txt":
					ft.Inner = "&lt;div&gt;block" + uniq + "x&lt;/div&gt;"
					ft.Token = "block" + uniq + "x"
					if sp.has("table") {
						ft.Inner = "&lt;table&gt;&lt;tr&gt;&lt;th colspan=\"" + fmt.Sprint(1+id%4) + "\"&gt;head&lt;/th&gt;&lt;td&gt;" + ft.Inner + "&lt;/td&gt;&lt;/tr&gt;&lt;tr&gt;&lt;td colspan=\"3\"&gt;1&lt;/td&gt;&lt;td&gt;2&lt;/td&gt;&lt;/tr&gt;&lt;/table&gt;"
					}
				case "num", "mon":
					ft.Inner, ft.Number = uniq, uniq
					ft.Dec = []string{"0", "INF", "2"}[r.Intn(3)]
					if f.Con[c].Kind == "mon" && r.Chance(0.3) {
						ft.Inner, ft.Number, ft.Dec = uniq+"000", uniq+"000", "-3"
					}
					if sp.has("units") {
						ft.Unit = f.unit([]string{"USD", "EUR", "Shares", "PS", "None"}[r.Intn(5)])
					}
				case "pct":
					ft.Inner = "0." + uniq
					ft.Dec = "4"
					ft.Unit = f.unit("Pure")
				}
				if sp.has("nil") && r.Chance(0.12) {
					ft.Nil, ft.Inner, ft.Token, ft.Number, ft.Dec = true, "", "nil", "", ""
				}
				if nNotes > 0 {
					for k := 0; k < nNotes; k++ {
						if rf.Chance(0.25) {
							ft.Foot = append(ft.Foot, k)
						}
					}
				}
				f.Facts = append(f.Facts, ft)
			}
		}
	}
}

// unit is the id this filing gives to a unit.
func (f *Filing) unit(n string) string {
	if f.Spec.has("unitid") {
		return []string{"U_", "unit-", "u", "x"}[f.Spec.Seed%4] + n + fmt.Sprint(f.Spec.Alt)
	}
	return "u" + n
}

func (f *Filing) tree(r *vsim.Rand, cons []int, deep bool) []Node {
	var out []Node
	abs := f.byKind("abs")
	out = append(out, Node{Con: abs[r.Intn(len(abs))], Parent: -1})
	for _, c := range cons {
		p := 0
		if deep && len(out) > 1 && r.Chance(0.6) {
			p = r.Intn(len(out))
		}
		out = append(out, Node{Con: c, Parent: p})
	}
	return out
}

func (f *Filing) pick(r *vsim.Rand, from []int, max int) []int {
	var out []int
	perm := append([]int(nil), from...)
	for i := len(perm) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	n := 1 + r.Intn(max)
	for i := 0; i < n && i < len(perm); i++ {
		out = append(out, perm[i])
	}
	return out
}

func (f *Filing) roles() {
	sp := f.Spec
	r := sp.sub("roles")
	rc := sp.sub("calc")
	rd := sp.sub("def")
	n := sp.NRole
	if n < 1 {
		n = 1
	}
	items := f.byKind("str", "num", "mon", "pct", "txt")
	nums := f.byKind("num", "mon")
	for i := 0; i < n; i++ {
		ro := Role{URI: fmt.Sprintf("http://%s.example/role/R%d", sp.brand(), i), ID: fmt.Sprintf("R%d", i), Def: fmt.Sprintf("%04d - Statement - Part %d", (i*37+5)%50, i)}
		if i > 0 && sp.has("titledup") && sp.sub(fmt.Sprint("titledup", i)).Chance(0.7) {
			ro.Def = f.Roles[0].Def
		}
		if sp.has("twinroles") && i < 2 {
			// role and title written one after the other give the same text
			ro.URI = fmt.Sprintf("http://%s.example/role/R", sp.brand()) + "5"[:i]
			ro.Def = "50 - Statement"[i:]
		}
		if i > 0 && sp.has("untitled") && i%2 == 1 {
			ro.Def = ""
		}
		ro.Sch = r.Intn(len(f.SchLoc))
		ro.PreFile = r.Intn(2)
		ro.Pres = f.tree(r, f.pick(r, items, max(8, 2*(sp.NCon-10))), sp.has("deep"))
		for _, c := range f.byKind("stray") {
			ro.Pres = append(ro.Pres, Node{Con: c, Parent: 0})
		}
		if sp.has("calc") && len(nums) > 2 {
			for k := 0; k < 1+rc.Intn(3); k++ {
				p := f.pick(rc, nums, 4)
				if len(p) < 2 {
					continue
				}
				s := Sum{From: p[0], To: p[1:]}
				for range s.To {
					s.W = append(s.W, []string{"1", "-1", "1.0", "0.5"}[rc.Intn(4)])
				}
				dup := false
				for _, o := range ro.Calc {
					if o.From == s.From {
						dup = true
					}
				}
				if !dup {
					ro.Calc = append(ro.Calc, s)
				}
			}
			for _, c := range f.byKind("stray") {
				if len(ro.Calc) > 0 {
					ro.Calc[0].To, ro.Calc[0].W = append(ro.Calc[0].To[:len(ro.Calc[0].To):len(ro.Calc[0].To)], c), append(ro.Calc[0].W, "1")
				}
			}
		}
		if cubes := f.byKind("cube"); sp.has("def") && len(cubes) > 0 {
			c := &Cube{Cube: cubes[0], Defs: rd.Chance(0.5), Excl: rd.Chance(0.2), Scen: sp.has("scenario")}
			c.Prim = f.tree(rd, f.pick(rd, items, 6), sp.has("deep"))
			for _, d := range f.byKind("dim") {
				if rd.Chance(0.7) || len(c.Dims) == 0 {
					c.Dims = append(c.Dims, d)
				}
			}
			ro.Def_ = c
		}
		f.Roles = append(f.Roles, ro)
	}
}

type link struct {
	file, kind string
	sch        int
	body       strings.Builder
	refs       map[string]string
}

func (f *Filing) emitSchemas() {
	sp := f.Spec
	// linkbase files are decided here so that the schemas can name them
	r := sp.sub("links")
	addLink := func(file, kind string) {
		f.Links[file] = kind
		f.LinkOf[file] = r.Intn(len(f.SchLoc))
	}
	addLink("pre0.xml", "pre")
	if sp.has("presplit") {
		addLink("pre1.xml", "pre")
	}
	if sp.has("labels") {
		if !sp.has("mixlb") {
			addLink("lab0.xml", "lab")
		}
		if sp.has("labsplit") || sp.has("labconflict") {
			addLink("lab1.xml", "lab")
		}
	}
	if sp.has("calc") {
		addLink("cal0.xml", "cal")
		if sp.has("calsplit") {
			addLink("cal1.xml", "cal")
		}
	}
	if sp.has("def") {
		addLink("def0.xml", "def")
		if sp.has("defsplit") {
			addLink("def1.xml", "def")
		}
	}
	names := sortedKeys(f.Links)
	roleName := map[string]string{"pre": "presentation", "lab": "label", "cal": "calculation", "def": "definition"}
	for i := range f.SchLoc {
		var b strings.Builder
		b.WriteString(xmlHead + `<xsd:schema targetNamespace="` + f.SchNS[i] + `" id="` + sp.ID + "-" + f.SchLoc[i] + `" ` + schNS)
		for j := range f.SchNS {
			if f.nsIdx(j) == j {
				fmt.Fprintf(&b, ` xmlns:p%d="%s"`, j, f.SchNS[j])
			}
		}
		b.WriteString(">\n")
		var roles, refs strings.Builder
		for _, ro := range f.Roles {
			if ro.Sch == i || sp.has("roledup") && ro.Sch == (i+1)%len(f.SchLoc) {
				used := "<link:usedOn>link:presentationLink</link:usedOn>"
				if sp.has("unused") {
					used = ""
				}
				fmt.Fprintf(&roles, `<link:roleType id="%s" roleURI="%s"><link:definition>%s</link:definition>%s</link:roleType>`+"\n", ro.ID, ro.URI, ro.Def, used)
			}
		}
		for _, n := range names {
			if f.LinkOf[n] == i || sp.has("sharedlink") && f.LinkOf[n] == (i+1)%len(f.SchLoc) {
				fmt.Fprintf(&refs, `<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/%sLinkbaseRef" xlink:href="%s"/>`+"\n", roleName[f.Links[n]], f.lb(n))
				if sp.has("mixlb") && sp.has("labels") && n == "pre0.xml" {
					fmt.Fprintf(&refs, `<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef" xlink:href="%s"/>`+"\n", f.lb(n))
				}
			}
		}
		if sp.has("globalref") && i == 0 {
			refs.WriteString(`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef" xlink:href="http://taxonomy.example/2020/lab.xml"/>` + "\n")
		}
		if sp.has("appinfo2") {
			b.WriteString("<xsd:annotation><xsd:appinfo>\n" + roles.String() + "</xsd:appinfo><xsd:appinfo>\n" + refs.String() + "</xsd:appinfo></xsd:annotation>\n")
		} else if roles.Len()+refs.Len() > 0 {
			b.WriteString("<xsd:annotation><xsd:appinfo>\n" + roles.String() + refs.String() + "</xsd:appinfo></xsd:annotation>\n")
		}
		for _, j := range f.SchInc[i] {
			loc := f.SchLoc[j]
			if sp.has("alias") && (i+j)%3 == 0 {
				loc = "./" + loc
			}
			if f.SchNS[j] == f.SchNS[i] {
				fmt.Fprintf(&b, `  <xsd:include schemaLocation="%s"/>`+"\n", loc)
			} else {
				fmt.Fprintf(&b, `  <xsd:import namespace="%s" schemaLocation="%s"/>`+"\n", f.SchNS[j], loc)
			}
		}
		for _, g := range f.Globals {
			if i == 0 || (g+i)%2 == 0 {
				fmt.Fprintf(&b, `  <xsd:import namespace="%s" schemaLocation="%s"/>`+"\n", globalNS(g), globalLoc(g))
			}
		}
		for _, c := range f.Con {
			if c.Sch != i {
				continue
			}
			extra := ""
			if c.TypedDom >= 0 {
				extra = ` xbrldt:typedDomainRef="#` + f.Con[c.TypedDom].ID + `"`
			}
			k := c
			switch c.Kind {
			case "tdim":
				k.Kind = "dim"
			case "sub":
				k.Kind = "dom"
			}
			b.WriteString(element(k, extra))
		}
		if sp.has("twicecon") && f.Con[0].Sch != i && f.SchNS[i] == f.SchNS[f.Con[0].Sch] {
			c := f.Con[0]
			c.ID, c.Kind = fmt.Sprintf("%s_again%d", c.ID, i), []string{"str", "num", "mon"}[i%3]
			b.WriteString(element(c, ""))
		}
		b.WriteString("</xsd:schema>\n")
		f.Files[f.SchLoc[i]] = []byte(b.String())
	}
}

const linkNS = `xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"`

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (f *Filing) locs(b *strings.Builder, cons []int) {
	seen := map[int]bool{}
	for _, c := range cons {
		if seen[c] {
			continue
		}
		seen[c] = true
		fmt.Fprintf(b, `<link:loc xlink:type="locator" xlink:href="%s" xlink:label="loc_%s"/>`+"\n", f.href(c), f.lab(c))
	}
}

func (f *Filing) lab(c int) string {
	if f.Spec.has("locnum") {
		// every link has numbers of its own
		n, ok := f.locs_[c]
		if !ok {
			n = len(f.locs_)
			f.locs_[c] = n
		}
		return fmt.Sprint(n)
	}
	if k := f.Con[c]; f.Spec.has("samelocal") || k.Sch < 0 {
		return fmt.Sprintf("%s_s%d", k.ID, k.Sch)
	}
	return f.Con[c].ID
}

func (f *Filing) emitLinkbases() {
	sp := f.Spec
	bodies := map[string]*strings.Builder{}
	refs := map[string]map[string]bool{}
	for n := range f.Links {
		bodies[n] = &strings.Builder{}
		refs[n] = map[string]bool{}
	}
	file := func(kind string, i int) string {
		n := fmt.Sprintf("%s%d.xml", kind, i)
		if _, ok := f.Links[n]; ok {
			return n
		}
		return kind + "0.xml"
	}
	arc := func(b *strings.Builder, el, role string, from, to int, order float64, extra string) {
		fmt.Fprintf(b, `<link:%s xlink:type="arc" xlink:arcrole="%s" xlink:from="loc_%s" xlink:to="loc_%s" order="%g"%s/>`+"\n", el, role, f.lab(from), f.lab(to), order, extra)
	}
	roleRef := func(n string, ro *Role) { refs[n][ro.URI+"\x00"+f.SchLoc[ro.Sch]+"#"+ro.ID] = true }
	for i := range f.Roles {
		ro := &f.Roles[i]
		// presentation: with presplit the same role may be described in both files
		files := []string{file("pre", 0)}
		if sp.has("presplit") || sp.has("prelinks") {
			files = []string{file("pre", 0), file("pre", 1)}
			if sp.has("presplit") && sp.sub(fmt.Sprint("presplit", i)).Chance(0.4) {
				files = files[ro.PreFile : ro.PreFile+1]
			}
		}
		f.locs_ = map[int]int{}
		for k, n := range files {
			nodes := ro.Pres
			if len(files) > 1 {
				nodes = nil
				for j, nd := range ro.Pres {
					if j == 0 {
						nodes = append(nodes, nd)
					} else if j%2 == k {
						nodes = append(nodes, Node{Con: nd.Con, Parent: 0})
					}
				}
				if len(nodes) < 2 {
					continue
				}
			}
			roleRef(n, ro)
			if k > 0 && files[k-1] != n {
				f.locs_ = map[int]int{}
			}
			b := bodies[n]
			fmt.Fprintf(b, `<link:presentationLink xlink:type="extended" xlink:role="%s">`+"\n", ro.URI)
			var cs []int
			for _, nd := range nodes {
				cs = append(cs, nd.Con)
			}
			f.locs(b, cs)
			for j, nd := range nodes {
				if nd.Parent >= 0 {
					arc(b, "presentationArc", "http://www.xbrl.org/2003/arcrole/parent-child", nodes[nd.Parent].Con, nd.Con, float64(j), "")
				}
			}
			b.WriteString("</link:presentationLink>\n")
		}
		if len(ro.Calc) > 0 {
			groups := map[string][]Sum{}
			for k, s := range ro.Calc {
				n := file("cal", k%2)
				if !sp.has("calsplit") {
					n = file("cal", 0)
				}
				if sp.has("callinks") {
					n += []string{"", " "}[k%2] // another link of the same file
				}
				groups[n] = append(groups[n], s)
			}
			f.locs_ = map[int]int{}
			for _, g := range sortedKeys(groups) {
				n := strings.TrimSpace(g)
				roleRef(n, ro)
				if n == g {
					f.locs_ = map[int]int{}
				}
				b := bodies[n]
				fmt.Fprintf(b, `<link:calculationLink xlink:type="extended" xlink:role="%s">`+"\n", ro.URI)
				var cs []int
				for _, s := range groups[g] {
					cs = append(append(cs, s.From), s.To...)
				}
				f.locs(b, cs)
				for _, s := range groups[g] {
					for k, t := range s.To {
						arc(b, "calculationArc", "http://www.xbrl.org/2003/arcrole/summation-item", s.From, t, float64(k+1), ` weight="`+s.W[k]+`"`)
					}
				}
				b.WriteString("</link:calculationLink>\n")
			}
		}
		if c := ro.Def_; c != nil {
			files := []string{file("def", 0)}
			if sp.has("defsplit") || sp.has("deflinks") {
				files = append(files, file("def", 1))
			}
			f.locs_ = map[int]int{}
			for k, n := range files {
				prim := c.Prim
				if len(files) > 1 {
					prim = nil
					for j, nd := range c.Prim {
						if j == 0 || j%2 == k {
							prim = append(prim, Node{Con: nd.Con, Parent: 0})
						}
					}
					prim[0].Parent = -1
					if len(prim) < 2 && k > 0 {
						continue
					}
				}
				roleRef(n, ro)
				if k > 0 && files[k-1] != n {
					f.locs_ = map[int]int{}
				}
				b := bodies[n]
				fmt.Fprintf(b, `<link:definitionLink xlink:type="extended" xlink:role="%s">`+"\n", ro.URI)
				cs := []int{c.Cube}
				for _, nd := range prim {
					cs = append(cs, nd.Con)
				}
				for _, d := range c.Dims {
					cs = append(cs, d, d+1, d+2, d+3)
				}
				f.locs(b, cs)
				for j, nd := range prim {
					if nd.Parent >= 0 {
						arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/domain-member", prim[nd.Parent].Con, nd.Con, float64(j), "")
					}
				}
				ce := "segment"
				if c.Scen {
					ce = "scenario"
				}
				kind := "all"
				if c.Excl {
					kind = "notAll"
				}
				arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/"+kind, prim[0].Con, c.Cube, 1, ` xbrldt:closed="true" xbrldt:contextElement="`+ce+`"`)
				for j, d := range c.Dims {
					arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/hypercube-dimension", c.Cube, d, float64(j+1), "")
					arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/dimension-domain", d, d+1, 1, ` xbrldt:usable="true"`)
					arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/domain-member", d+1, d+2, 1, "")
					arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/domain-member", d+1, d+3, 2, "")
					if c.Defs {
						arc(b, "definitionArc", "http://xbrl.org/int/dim/arcrole/dimension-default", d, d+1, 2, "")
					}
				}
				b.WriteString("</link:definitionLink>\n")
			}
		}
	}
	if sp.has("labels") {
		f.emitLabels(bodies)
	}
	for _, n := range sortedKeys(f.Links) {
		var b strings.Builder
		b.WriteString(xmlHead + `<link:linkbase id="` + sp.ID + "-" + n + `" ` + linkNS + ">\n")
		for _, rr := range sortedKeys(refs[n]) {
			p := strings.SplitN(rr, "\x00", 2)
			fmt.Fprintf(&b, `<link:roleRef roleURI="%s" xlink:type="simple" xlink:href="%s"/>`+"\n", p[0], p[1])
		}
		b.WriteString(bodies[n].String() + "</link:linkbase>\n")
		f.Files[f.lb(n)] = []byte(b.String())
	}
}

// lb says where a linkbase is stored.
func (f *Filing) lb(n string) string {
	switch {
	case f.Spec.has("lbdirs"): // the same name in several places
		return n[:4] + "/lb.xml"
	case f.Spec.has("lbsub") && n[3] == '1':
		return "more/" + n[:3] + "0.xml"
	case f.Spec.has("lbnames"):
		return map[byte]string{'p': "http-", 'l': "https.", 'd': "LB ", 'c': "_"}[n[0]] + n
	}
	return n
}

func (f *Filing) emitLabels(bodies map[string]*strings.Builder) {
	sp := f.Spec
	r := sp.sub("labels")
	for k := 0; k < 2; k++ {
		n := fmt.Sprintf("lab%d.xml", k)
		if k == 0 && sp.has("mixlb") {
			n = "pre0.xml" // one file for both kinds
		}
		b, ok := bodies[n]
		if !ok {
			continue
		}
		f.locs_ = map[int]int{}
		b.WriteString(`<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">` + "\n")
		for c := range f.Con {
			if r.Chance(0.15) {
				continue
			}
			if k == 1 && !sp.has("labconflict") && r.Chance(0.4) {
				continue
			}
			f.locs(b, []int{c})
			out := func(role, lang, text string) {
				fmt.Fprintf(b, `<link:label xlink:type="resource" xlink:label="lab_%s" xlink:role="%s" xml:lang="%s">%s</link:label>`+"\n", f.lab(c), role, lang, text)
			}
			langs := []string{"en-US"}
			if sp.has("spanish") {
				if r.Chance(0.6) {
					langs = append(langs, "es")
				} else if r.Chance(0.3) {
					langs = []string{"es"}
				}
			}
			if k == 1 && sp.has("labsplit") && !sp.has("labconflict") {
				langs = []string{"es"}
			}
			for _, l := range langs {
				suffix := ""
				if k == 1 && sp.has("labconflict") {
					suffix = " (second)"
				}
				if sp.Alt > 0 {
					suffix += fmt.Sprintf(" (edition %d)", sp.Alt)
				}
				out("http://www.xbrl.org/2003/role/label", l, f.Con[c].Name+" "+l+suffix)
				if sp.has("terse") && r.Chance(0.5) {
					out("http://www.xbrl.org/2003/role/terseLabel", l, f.Con[c].Name+" t "+l+suffix)
				}
				if sp.has("terse") && r.Chance(0.3) {
					out("http://www.xbrl.org/2003/role/verboseLabel", l, f.Con[c].Name+" v "+l+suffix)
				}
			}
			fmt.Fprintf(b, `<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="loc_%s" xlink:to="lab_%s" order="1"/>`+"\n", f.lab(c), f.lab(c))
		}
		b.WriteString("</link:labelLink>\n")
	}
}

const insNS = `xmlns="http://www.xbrl.org/2003/instance" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:iso4217="http://www.xbrl.org/2003/iso4217"`

func (f *Filing) nsDecls() string {
	var b strings.Builder
	for j := range f.SchNS {
		if f.nsIdx(j) == j {
			fmt.Fprintf(&b, ` xmlns:p%d="%s"`, j, f.SchNS[j])
		}
	}
	for _, g := range f.Globals {
		fmt.Fprintf(&b, ` xmlns:g%d="%s"`, g, globalNS(g))
	}
	return b.String()
}

func (f *Filing) emitContexts(b *strings.Builder, qname func(int) string) {
	for i := range f.Ctx {
		c := &f.Ctx[i]
		part := func(scen bool, tag string) string {
			var p strings.Builder
			for _, m := range c.Mem {
				if m.Scenario != scen {
					continue
				}
				if m.Mem >= 0 {
					fmt.Fprintf(&p, `<xbrldi:explicitMember dimension="%s">%s</xbrldi:explicitMember>`, qname(m.Dim), qname(m.Mem))
				} else {
					dom := qname(f.Con[m.Dim].TypedDom)
					inner := m.Typed
					if m.Dom2 >= 0 {
						inner += "<" + qname(m.Dom2) + ">" + m.Text2 + "</" + qname(m.Dom2) + ">"
					}
					fmt.Fprintf(&p, `<xbrldi:typedMember dimension="%s"><%s>%s</%s></xbrldi:typedMember>`, qname(m.Dim), dom, inner, dom)
				}
			}
			if p.Len() == 0 {
				return ""
			}
			return "<xbrli:" + tag + ">" + p.String() + "</xbrli:" + tag + ">"
		}
		fmt.Fprintf(b, `<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s</xbrli:identifier>%s</xbrli:entity><xbrli:period>`, c.ID, c.Scheme, c.Entity, part(false, "segment"))
		if c.Instant != "" {
			fmt.Fprintf(b, `<xbrli:instant>%s</xbrli:instant>`, c.Instant)
		} else {
			fmt.Fprintf(b, `<xbrli:startDate>%s</xbrli:startDate><xbrli:endDate>%s</xbrli:endDate>`, c.Start, c.End)
		}
		b.WriteString(`</xbrli:period>` + part(true, "scenario") + `</xbrli:context>` + "\n")
	}
}

func (f *Filing) emitUnits(b *strings.Builder) {
	b.WriteString(`<xbrli:unit id="` + f.unit("USD") + `"><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit>
<xbrli:unit id="` + f.unit("EUR") + `"><xbrli:measure>iso4217:EUR</xbrli:measure></xbrli:unit>
<xbrli:unit id="` + f.unit("Shares") + `"><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:unit>
<xbrli:unit id="` + f.unit("Pure") + `"><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unit>
<xbrli:unit id="` + f.unit("PS") + `"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unitNumerator><xbrli:unitDenominator><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:unitDenominator></xbrli:divide></xbrli:unit>
`)
}

func (f *Filing) emitInstance() {
	sp := f.Spec
	var b strings.Builder
	b.WriteString(xmlHead + "<xbrli:xbrl " + insNS + f.nsDecls() + ">\n")
	b.WriteString(`<link:schemaRef xlink:type="simple" xlink:href="` + f.SchLoc[0] + `"/>` + "\n")
	if sp.has("refs2") && len(f.SchLoc) > 1 {
		b.WriteString(`<link:schemaRef xlink:type="simple" xlink:href="` + f.SchLoc[len(f.SchLoc)-1] + `"/>` + "\n")
	}
	f.emitContexts(&b, f.qname)
	f.emitUnits(&b)
	for _, ft := range f.Facts {
		q := f.qname(ft.Con)
		fmt.Fprintf(&b, `<%s contextRef="%s" id="%s"`, q, f.Ctx[ft.Ctx].ID, ft.ID)
		if ft.Unit != "" {
			fmt.Fprintf(&b, ` unitRef="%s"`, ft.Unit)
		}
		if ft.Dec != "" {
			fmt.Fprintf(&b, ` decimals="%s"`, ft.Dec)
		}
		if ft.Nil {
			b.WriteString(` xsi:nil="true"`)
		}
		fmt.Fprintf(&b, ">%s</%s>\n", ft.Inner, q)
	}
	if len(f.Notes) > 0 {
		nl := 1
		if sp.has("footlinks") {
			nl = 2
		}
		for k := 0; k < nl; k++ {
			fmt.Fprintf(&b, `<link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link" xlink:title="%d">`+"\n", nl-k)
			label := func(ft Fact) string { return "l_" + ft.ID }
			note := func(n int) string { return fmt.Sprintf("fn%d", n) }
			mine := func(ft Fact) (out []int) {
				for _, n := range ft.Foot {
					if n%nl == k {
						out = append(out, n)
					}
				}
				return out
			}
			if sp.has("footshare") {
				// facts with the same footnotes share one locator label
				label = func(ft Fact) string {
					return "g" + strings.NewReplacer("[", "", "]", "", " ", "_").Replace(fmt.Sprint(mine(ft)))
				}
			}
			if sp.has("footlocal") {
				note = func(n int) string { return fmt.Sprintf("note%d", n/nl) }
			}
			order := append([]Fact(nil), f.Facts...)
			if sp.has("footrev") {
				slices.Reverse(order)
			}
			for _, ft := range order {
				if len(mine(ft)) > 0 {
					fmt.Fprintf(&b, `<link:loc xlink:type="locator" xlink:href="#%s" xlink:label="%s"/>`+"\n", ft.ID, label(ft))
				}
			}
			for n, t := range f.Notes {
				if n%nl == k {
					id := fmt.Sprintf("fn%d", n)
					if sp.has("footid") {
						id = fmt.Sprintf("fn%d", len(f.Notes)-1-n)
					} else if sp.has("footlocal") {
						id = fmt.Sprintf("id%d", n)
					}
					fmt.Fprintf(&b, `<link:footnote xlink:type="resource" id="%s" xlink:label="%s" xlink:role="http://www.xbrl.org/2003/role/footnote" xml:lang="en-US">%s</link:footnote>`+"\n", id, note(n), t)
				}
			}
			done := map[string]bool{}
			for _, ft := range order {
				if l := label(ft); !done[l] {
					done[l] = true
					for _, n := range mine(ft) {
						fmt.Fprintf(&b, `<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="%s" xlink:to="%s" order="1"/>`+"\n", l, note(n))
					}
				}
			}
			b.WriteString("</link:footnoteLink>\n")
		}
	}
	b.WriteString("</xbrli:xbrl>\n")
	name := f.Entry
	if f.Inline {
		name += ".xml"
	}
	f.Files[name] = []byte(b.String())
}

func (f *Filing) emitDoc() {
	sp := f.Spec
	r := sp.sub("doc")
	rn := sp.sub("imgnear")
	if sp.has("images") {
		for i := 0; i < 1+r.Intn(3); i++ {
			n := fmt.Sprintf("pic%d.png", i)
			sig := "\x89PNG\x0D\x0A\x1A\x0A"
			if r.Chance(0.5) {
				n, sig = fmt.Sprintf("pic%d.jpg", i), "\xFF\xD8\xFF\xE0"
			}
			body := []byte(sig)
			for k := 0; k < 5+r.Intn(60); k++ {
				body = append(body, byte(r.U64()))
			}
			body = append(body, byte(sp.Alt))
			f.Images[n] = body
		}
	}
	if sp.has("imgodd") {
		// a name is no proof: the data decides
		f.Images["photo.dat"] = []byte("\x89PNG\x0D\x0A\x1A\x0Aodd")
		f.Images["scan"] = []byte("\x89PNG\x0D\x0A\x1A\x0Anoext")
		f.Images["fake.png"] = []byte("just text")
		f.Images["anim.gif"] = []byte("GIF89a.......")
		f.Images["Pic0.png"] = []byte("\x89PNG\x0D\x0A\x1A\x0Aupper")
	}
	if sp.has("imgbig") {
		body := []byte("\x89PNG\x0D\x0A\x1A\x0A")
		rb := sp.sub("imgbig")
		for n := 17000 + rb.Intn(60000); len(body) < n; {
			body = append(body, byte(rb.U64()))
		}
		f.Images["big.png"] = body
	}
	if sp.has("imgsub") {
		// images below the folder have the names of images in it
		for _, n := range sortedKeys(f.Images) {
			f.Files["img/"+n] = []byte("\x89PNG\x0D\x0A\x1A\x0Abelow")
		}
	}
	var b strings.Builder
	b.WriteString(xmlHead + `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:iso4217="http://www.xbrl.org/2003/iso4217"` + f.docDecls() + ">\n")
	b.WriteString("<head><title>Report " + sp.ID + "</title></head>\n<body>\n")
	b.WriteString(`<div style="display:none"><ix:header><ix:references><link:schemaRef xlink:type="simple" xlink:href="` + f.SchLoc[0] + `"></link:schemaRef></ix:references><ix:resources>`)
	if sp.has("docctx") {
		f.emitContexts(&b, f.docname)
	}
	if sp.has("docunit") {
		f.emitUnits(&b)
	}
	if sp.has("docfoot") {
		for i, ft := range f.Facts {
			for _, n := range ft.Foot {
				fmt.Fprintf(&b, `<ix:relationship fromRefs="%s" toRefs="dfn%d" order="%d"></ix:relationship>`+"\n", ft.ID, n, i)
			}
		}
	}
	b.WriteString(`</ix:resources></ix:header></div>` + "\n")
	if sp.has("docfoot") {
		for n, t := range f.Notes {
			fmt.Fprintf(&b, `<p><ix:footnote id="dfn%d" xml:lang="en-US">%s</ix:footnote></p>`+"\n", n, t)
		}
	}
	imgs := sortedKeys(f.Images)
	for i, ft := range f.Facts {
		if r.Chance(0.1) {
			continue // reported but not tagged in the document
		}
		n, c := f.docname(ft.Con), f.Ctx[ft.Ctx].ID
		f.Tagged = append(f.Tagged, [2]string{n, c})
		el := "nonNumeric"
		if k := f.Con[ft.Con].Kind; k == "num" || k == "mon" || k == "pct" {
			el = "nonFraction"
		}
		fmt.Fprintf(&b, `<p>line %d <ix:%s name="%s" contextRef="%s" id="%s">%s</ix:%s></p>`+"\n", i, el, n, c, ft.ID, ft.Inner, el)
		if len(imgs) > 0 && r.Chance(0.3) {
			src := imgs[r.Intn(len(imgs))]
			switch r.Intn(5) {
			case 0:
				if !sp.has("imgsub") {
					src = "img/" + src
				}
			case 1:
				src = "missing.png"
			case 2:
				src = "./" + src
			}
			if sp.has("imgnear") && rn.Chance(0.6) {
				src = nearImage(rn, imgs[rn.Intn(len(imgs))])
			}
			f.ImgRefs = append(f.ImgRefs, src)
			wrap, alt := [2]string{"<p>", "</p>"}, "a"
			if sp.has("imgwrap") {
				// where the image stands does not matter, and only its source is replaced
				wrap = [][2]string{{"<table><tr><td>", "</td></tr></table>"}, {`<p><a href="` + src + `">`, "</a></p>"}, {"<ul><li><b><i>", "</i></b></li></ul>"},
					{`<p><input type="image" src="` + src + `"></input>`, "</p>"}, {"<center><div><div>", "</div></div></center>"}, {`<div style="x:url(` + src + `)">`, "</div>"}}[rn.Intn(6)]
				alt = src
			}
			fmt.Fprintf(&b, `%s<img alt="%s" src="%s"></img> &amp; caption%s`+"\n", wrap[0], alt, src, wrap[1])
		}
	}
	b.WriteString("</body></html>\n")
	f.Doc = []byte(b.String())
	f.Files[f.Entry] = f.Doc
}

// nearImage makes a reference that is not quite the name of a stored image.
func nearImage(r *vsim.Rand, n string) string {
	dot := strings.LastIndexByte(n, '.')
	if dot < 0 {
		dot = len(n)
	}
	switch r.Intn(9) {
	case 0:
		return "old-" + n
	case 1:
		return strings.ToUpper(n)
	case 2:
		return n + "x"
	case 3:
		return n[1:]
	case 4:
		return n[:dot]
	case 5:
		return n[:dot] + ".bmp"
	case 6:
		return n + ".png"
	case 7:
		return n + "/x.png"
	}
	return "a/b/" + n
}

// refact gives a fact of one of the kinds another value and other decimals.
func (f *Filing) refact(r *vsim.Rand, kinds []string, inner, dec string) {
	var of []Fact
	for _, ft := range f.Facts {
		for _, k := range kinds {
			if f.Con[ft.Con].Kind == k && !ft.Nil {
				of = append(of, ft)
			}
		}
	}
	if len(of) == 0 {
		return
	}
	ft := of[r.Intn(len(of))]
	name := f.Entry
	if f.Inline {
		name += ".xml"
	}
	lines := strings.Split(string(f.Files[name]), "\n")
	for i, l := range lines {
		if !strings.Contains(l, ` id="`+ft.ID+`"`) {
			continue
		}
		a, b := strings.IndexByte(l, '>'), strings.LastIndex(l, "</")
		if a < 0 || b < a {
			continue
		}
		head := l[:a]
		if dec != "" {
			head = strings.Replace(head, `decimals="`+ft.Dec+`"`, `decimals="`+dec+`"`, 1)
		}
		lines[i] = head + ">" + inner + l[b:]
	}
	f.Files[name] = []byte(strings.Join(lines, "\n"))
}

// mutate damages the files the way a broken or hostile filing would.
func (f *Filing) mutate(m Mut) {
	names := sortedKeys(f.Files)
	if len(names) == 0 {
		return
	}
	n := names[int(m.A%uint64(len(names)))]
	d := string(f.Files[n])
	r := vsim.NewRand(m.B)
	r.U64()
	attrs := findAttrs(d)
	switch m.Kind {
	case "escape":
		// a reference that leads out of the folder or out of the shared taxonomy
		if m.A%7 == 0 {
			f.Files["_"] = []byte(fmt.Sprintf(`{"Entry":"%s","Note":"n"}`, outside[r.Intn(len(outside))]))
			return
		}
		var spots [][2]string
		for _, n := range names {
			for _, a := range findAttrs(string(f.Files[n])) {
				switch local := string(f.Files[n][a[0]:a[1]]); local {
				case "xlink:href", "schemaLocation", "src":
					if v := string(f.Files[n][a[2]:a[3]]); v != "" && (n != f.Entry || local == "src") {
						spots = append(spots, [2]string{n, fmt.Sprint(a[2], ":", a[3])})
					}
				}
			}
		}
		if len(spots) == 0 {
			return
		}
		sp := spots[r.Intn(len(spots))]
		var lo, hi int
		fmt.Sscanf(sp[1], "%d:%d", &lo, &hi)
		d := string(f.Files[sp[0]])
		o := outside[r.Intn(len(outside))]
		if r.Chance(0.3) {
			o += "#c_Con0"
		}
		f.Files[sp[0]] = []byte(d[:lo] + o + d[hi:])
	case "drop":
		delete(f.Files, n)
	case "cut":
		if len(d) > 0 {
			f.Files[n] = []byte(d[:r.Intn(len(d))])
		}
	case "garbage":
		f.Files[n] = []byte{0xff, 0x00, '<', 'x'}
	case "empty":
		f.Files[n] = nil
	case "delattr", "blankattr", "swapattr", "textattr":
		if len(attrs) == 0 {
			return
		}
		a := attrs[r.Intn(len(attrs))]
		switch m.Kind {
		case "delattr":
			d = d[:a[0]] + d[a[3]+1:]
		case "blankattr":
			d = d[:a[2]] + d[a[3]:]
		case "swapattr":
			o := attrs[r.Intn(len(attrs))]
			d = d[:a[2]] + d[o[2]:o[3]] + d[a[3]:]
		case "textattr":
			d = d[:a[2]] + []string{"x", "nope:thing", "#", ":", "a:", "..", "s0.xsd", "-1", "999999999999", "http://"}[r.Intn(10)] + d[a[3]:]
		}
		f.Files[n] = []byte(d)
	case "deltag":
		// remove the text between two tags, or one whole element on a line
		lines := strings.Split(d, "\n")
		if len(lines) > 3 {
			i := 1 + r.Intn(len(lines)-2)
			lines = append(lines[:i:i], lines[i+1:]...)
		}
		f.Files[n] = []byte(strings.Join(lines, "\n"))
	case "emptytext":
		// drop the text content of one element
		var spots [][2]int
		for i := 0; i < len(d); i++ {
			if d[i] == '>' {
				if j := strings.IndexByte(d[i:], '<'); j > 1 {
					spots = append(spots, [2]int{i + 1, i + j})
				}
			}
		}
		if len(spots) > 0 {
			s := spots[r.Intn(len(spots))]
			f.Files[n] = []byte(d[:s[0]] + []string{"", "NaN", "INF", "-", "1e999", "<b/>", "\n"}[r.Intn(7)] + d[s[1]:])
		}
	case "date":
		// a date that is none
		n = f.Entry
		if f.Inline && !f.Spec.has("docctx") || f.Inline && r.Chance(0.5) {
			n += ".xml"
		}
		d = string(f.Files[n])
		var spots [][2]int
		for _, n := range []string{"startDate>", "endDate>", "instant>"} {
			for i := 0; i < len(d); {
				j := strings.Index(d[i:], n)
				if j < 0 {
					break
				}
				i += j + len(n)
				if k := strings.IndexByte(d[i:], '<'); k > 0 && i < len(d) && d[i] >= '0' && d[i] <= '9' {
					spots = append(spots, [2]int{i, i + k})
				}
			}
		}
		if len(spots) == 0 {
			return
		}
		bad := []string{"", "2010", "2010-02-30", "2010-13-45", "10-1-1", "2011-01-01T00:00:00", "soon", " ", "0000-00-00", "99999-01-01", "2010-01-0"}[r.Intn(11)]
		all := r.Chance(0.5)
		for i := len(spots) - 1; i >= 0; i-- {
			if s := spots[i]; all || i == int(m.B%uint64(len(spots))) {
				d = d[:s[0]] + bad + d[s[1]:]
			}
		}
		f.Files[n] = []byte(d)
	case "delel", "twiceel", "hollowel", "moveel":
		// a whole element, wherever it stands in the file
		spans := elements(d)
		if len(spans) < 2 {
			return
		}
		e := spans[1+r.Intn(len(spans)-1)]
		el := d[e[0]:e[3]]
		switch m.Kind {
		case "delel":
			d = d[:e[0]] + d[e[3]:]
		case "twiceel":
			d = d[:e[3]] + el + d[e[3]:]
		case "hollowel":
			d = d[:e[1]] + d[e[2]:]
		case "moveel":
			o := spans[1+r.Intn(len(spans)-1)]
			if o[0] >= e[3] {
				d = d[:e[0]] + d[e[3]:o[0]] + el + d[o[0]:]
			} else if o[3] <= e[0] {
				d = d[:o[0]] + el + d[o[0]:e[0]] + d[e[3]:]
			}
		}
		f.Files[n] = []byte(d)
	case "span":
		// a table cell that claims to be very wide
		wide := []string{"2000000000", "99999999999999999999", "-5", "0", "x", "700", "30000000"}[r.Intn(7)]
		f.refact(r, []string{"txt"}, "&lt;table&gt;&lt;tr&gt;&lt;"+[]string{"td", "th"}[r.Intn(2)]+" colspan=\""+wide+"\"&gt;a&lt;/td&gt;&lt;td&gt;b&lt;/td&gt;&lt;/tr&gt;", "")
	case "bignum":
		v := []string{"1e999999", "1e-999999", strings.Repeat("9", 5000), "0." + strings.Repeat("0", 3000) + "1", "-0", "+5", "1_000", "0x1F", "1e", ".", "Infinity"}[r.Intn(11)]
		f.refact(r, []string{"num", "mon", "pct"}, v, []string{"", "2147483647", "-2147483648", "9223372036854775807", "100000", "-100000", "1.5"}[r.Intn(7)])
	case "nest":
		// elements inside elements inside elements
		k := 200 + r.Intn(3000)
		tag := []string{"div", "b", "xbrli:segment", "p0:Con0"}[r.Intn(4)]
		if i := strings.LastIndex(d, "</"); i > 0 {
			f.Files[n] = []byte(d[:i] + strings.Repeat("<"+tag+">", k) + "x" + strings.Repeat("</"+tag+">", k) + d[i:])
		}
	case "deleted-element":
		// drop the whole of one empty-bodied inner element such as an entity or a period
		for _, tag := range [][2]string{{"<xbrli:entity>", "</xbrli:entity>"}, {"<xbrli:period>", "</xbrli:period>"}, {"<xbrli:identifier", "</xbrli:identifier>"}} {
			if r.Chance(0.5) {
				continue
			}
			if i := strings.Index(d, tag[0]); i >= 0 {
				if j := strings.Index(d[i:], tag[1]); j >= 0 {
					f.Files[n] = []byte(d[:i] + d[i+j+len(tag[1]):])
					return
				}
			}
		}
	}
}

// elements lists the elements of a file: where each starts, its content starts, its content ends
// and it ends.
func elements(d string) [][4]int {
	dec := xml.NewDecoder(strings.NewReader(d))
	var out [][4]int
	var open []int
	for {
		at := int(dec.InputOffset())
		t, err := dec.RawToken()
		if err != nil {
			return out
		}
		switch t.(type) {
		case xml.StartElement:
			open = append(open, len(out))
			out = append(out, [4]int{at, int(dec.InputOffset()), at, at})
		case xml.EndElement:
			if len(open) == 0 {
				return out
			}
			e := &out[open[len(open)-1]]
			open = open[:len(open)-1]
			e[2], e[3] = at, int(dec.InputOffset())
			if e[2] < e[1] {
				e[2] = e[1]
			}
		}
	}
}

// outside lists references that lead to files a filing has no business with.
var outside = []string{"../bait/s0.xsd", "../bait/pre0.xml", "../bait/lab0.xml", "../bait/report.xml", "../bait/report.htm", "../../../top.xsd", "../../../../top.xsd", "../../names.json",
	"tax/../../bait/s0.xsd", "./../bait/s0.xsd", "../../../gts/concepts/http/taxonomy.example/2020/core0.xsd", "/../bait/s0.xsd", "../bait/pic0.png", "../bait/_", "..", "../bait",
	"http://taxonomy.example/../../../../top.xsd", "http://taxonomy.example/../../../../wd/folders/bait/s0.xsd", "http://../../../../top.xsd", "http://x/%2e%2e/%2e%2e/%2e%2e/%2e%2e/top.xsd",
	"http://taxonomy.example/2020/../../../../../../app/wd/folders/bait/s0.xsd", "http://x/../../../../../top.xsd", "file:///top.xsd", "%2e%2e/bait/s0.xsd", "%2e%2e/bait/pre0.xml", "..%2fbait%2flab0.xml", "%2e%2e%2fbait%2freport.xml", "..\\bait\\s0.xsd", "..\\bait\\pre0.xml", "..\\bait\\lab0.xml", "tax\\..\\..\\bait\\s0.xsd",
	"http://x/..%2f..%2f..%2f..%2ftop.xsd"}

// findAttrs lists attributes as [start of name, '=', start of value, closing quote].
func findAttrs(d string) [][4]int {
	var out [][4]int
	for i := 0; i+1 < len(d); i++ {
		if d[i] == '=' && d[i+1] == '"' {
			j := strings.IndexByte(d[i+2:], '"')
			if j < 0 {
				break
			}
			s := i
			for s > 0 && d[s-1] != ' ' && d[s-1] != '<' {
				s--
			}
			out = append(out, [4]int{s, i, i + 2, i + 2 + j})
			i += 2 + j
		}
	}
	return out
}

var mutKinds = []string{"drop", "cut", "garbage", "empty", "delattr", "blankattr", "swapattr", "textattr", "deltag", "emptytext", "deleted-element", "span", "bignum", "nest", "delel", "twiceel", "hollowel", "moveel", "date"}
