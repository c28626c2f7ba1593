package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"path"
	"sort"
	"strings"

	"golang.org/x/net/html"
)

type entityJSON struct{ Scheme, CharData string }

type subjectJSON struct {
	Name   string
	Entity entityJSON
}

type rsetJSON struct{ Title, RoleURI string }

type catalogJSON struct {
	Subjects         []subjectJSON
	RelationshipSets []rsetJSON
	Networks         map[string]map[string]string
	DocumentName     string
}

type exprJSON struct{ Head, Core, Tail, InnerHtml string }

type cellJSON map[string]exprJSON

type memberJSON struct {
	ExplicitMember *struct{ Href string }
	TypedMember    string
}

type voidJSON struct {
	Dimension   struct{ Href string }
	TypedDomain *struct{ Href string }
}

type hrefJSON struct{ Href string }

type gridJSON struct {
	PeriodHeaders        []map[string]string
	ContextualMemberGrid [][]memberJSON
	VoidQuadrant         []voidJSON
	FactualQuadrant      [][]cellJSON
	FootnoteGrid         [][][]int
	Footnotes            []string
}

type networkJSON struct {
	RelationshipSet rsetJSON
	Subject         subjectJSON
	PGrid           struct {
		gridJSON
		IndentedLabels []hrefJSON
	}
	DGrid struct {
		RootDomains []struct {
			gridJSON
			Href         string
			PrimaryItems []hrefJSON
		}
	}
	CGrid struct {
		SummationItems []struct {
			gridJSON
			Href                 string
			ContributingConcepts []hrefJSON
		}
	}
}

type expressJSON struct {
	Href    string
	Context struct {
		Period               map[string]string
		VoidQuadrant         []voidJSON
		ContextualMemberGrid [][]memberJSON
	}
	Expression cellJSON
	Footnotes  []string
}

func networkHashes(body []byte) []string {
	var c catalogJSON
	if json.Unmarshal(body, &c) != nil {
		return nil
	}
	seen := map[string]bool{}
	var out []string
	for _, e := range sortedKeys(c.Networks) {
		for _, r := range sortedKeys(c.Networks[e]) {
			h := c.Networks[e][r]
			if !seen[h] {
				seen[h] = true
				out = append(out, h)
			}
		}
	}
	sort.Strings(out)
	return out
}

const pure = "Unlabelled"

func digitsOf(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// shows tells whether a cell shows a fact, in every language it has a text for.
func shows(c cellJSON, ft *Fact) bool {
	if len(c) == 0 {
		return false
	}
	if _, ok := c[pure]; !ok {
		return false
	}
	for _, e := range c {
		all := e.Head + e.Core + e.Tail + e.InnerHtml
		switch {
		case ft.Nil:
			if all != "nil" {
				return false
			}
		case ft.Number != "" && otherUnit(all, ft.Unit):
			return false
		case ft.Number != "":
			if !strings.HasPrefix(digitsOf(e.Head+e.Core+e.Tail), ft.Number) {
				return false
			}
		case ft.Token != "":
			if !strings.Contains(all, ft.Token) {
				return false
			}
		default:
			if all == "" {
				return false
			}
		}
	}
	return true
}

// otherUnit tells whether a text names a unit the fact does not have.
func otherUnit(text, unit string) bool {
	for _, u := range [][]string{{"$", "USD", "PS"}, {"US Dollar", "USD", "PS"}, {"Euro", "EUR"}, {"Share", "Shares", "PS"}} {
		if !strings.Contains(text, u[0]) {
			continue
		}
		has := false
		for _, k := range u[1:] {
			has = has || strings.Contains(unit, k)
		}
		if !has {
			return true
		}
	}
	return false
}

func blank(c cellJSON) bool {
	for _, e := range c {
		if e.Head+e.Core+e.Tail+e.InnerHtml != "" {
			return false
		}
	}
	return true
}

func briefCell(c cellJSON) string {
	e := c[pure]
	return e.Head + e.Core + e.Tail + e.InnerHtml
}

func memberSig(void []voidJSON, grid [][]memberJSON, col int) []string {
	var out []string
	for i, v := range void {
		if i >= len(grid) || col >= len(grid[i]) {
			continue
		}
		m := grid[i][col]
		switch {
		case m.ExplicitMember != nil:
			out = append(out, v.Dimension.Href+"|"+m.ExplicitMember.Href)
		case m.TypedMember != "":
			d := ""
			if v.TypedDomain != nil {
				d = v.TypedDomain.Href
			}
			out = append(out, v.Dimension.Href+"|"+d+"="+m.TypedMember)
		}
	}
	sort.Strings(out)
	return out
}

func (f *Filing) factsOf(href string, ctx int) []*Fact {
	var out []*Fact
	for i := range f.Facts {
		if f.Facts[i].Ctx == ctx && f.href(f.Facts[i].Con) == href {
			out = append(out, &f.Facts[i])
		}
	}
	return out
}

func (f *Filing) noteTexts(ft *Fact) []string {
	var out []string
	for _, n := range ft.Foot {
		out = append(out, f.Notes[n])
	}
	sort.Strings(out)
	return out
}

// sameNotes compares footnote texts: each expected one is found in exactly one shown one.
func sameNotes(want, got []string) bool {
	if len(want) != len(got) {
		return false
	}
	used := make([]bool, len(got))
	for _, w := range want {
		ok := false
		for i, g := range got {
			if !used[i] && strings.Contains(g, w) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// checkGrid compares one grid with what the filing reports for the entity and the rows shown.
func (f *Filing) checkGrid(name string, e entityJSON, rows []string, g *gridJSON, probe func(string, int)) (int, string, string) {
	checks := 0
	var want []int
	for x := range f.Ctx {
		c := &f.Ctx[x]
		if c.Scheme != e.Scheme || c.Entity != e.CharData {
			continue
		}
		for _, h := range rows {
			if len(f.factsOf(h, x)) > 0 {
				want = append(want, x)
				break
			}
		}
	}
	if len(want) != len(g.PeriodHeaders) {
		return 1, "columns", fmt.Sprintf("%s: %d columns shown, %d contexts report a row", name, len(g.PeriodHeaders), len(want))
	}
	if len(want) > 0 {
		if len(g.FactualQuadrant) != len(rows) || len(g.FootnoteGrid) != len(rows) {
			return 1, "rows", fmt.Sprintf("%s: %d rows of cells and %d of footnotes for %d labels", name, len(g.FactualQuadrant), len(g.FootnoteGrid), len(rows))
		}
	}
	taken := map[int]bool{}
	for col, ph := range g.PeriodHeaders {
		sig := strings.Join(memberSig(g.VoidQuadrant, g.ContextualMemberGrid, col), ",")
		head := ph[pure]
		var last, lastClass string
		match := -1
		candidates := 0
		for _, x := range want {
			c := &f.Ctx[x]
			if taken[x] || c.period() != head || strings.Join(c.members(f), ",") != sig {
				continue
			}
			candidates++
			cls, bad, n := f.checkColumn(rows, g, col, x)
			checks += n
			if bad == "" {
				match = x
				break
			}
			last, lastClass = bad, cls
		}
		if match < 0 {
			if candidates == 0 {
				return checks, "members", fmt.Sprintf("%s: column %d is labelled %s [%s], which is no context that reports a row", name, col, head, sig)
			}
			return checks, lastClass, fmt.Sprintf("%s: column %d, %s [%s]: %s", name, col, head, sig, last)
		}
		taken[match] = true
		if sig != "" {
			probe("column with members", 1)
		}
	}
	probe("column", len(want))
	return checks + 1, "", ""
}

func (f *Filing) checkColumn(rows []string, g *gridJSON, col, x int) (class, bad string, n int) {
	for r, h := range rows {
		if col >= len(g.FactualQuadrant[r]) || col >= len(g.FootnoteGrid[r]) {
			return "rows", fmt.Sprintf("row %d has no cell", r), n
		}
		cell := g.FactualQuadrant[r][col]
		var notes []string
		for _, k := range g.FootnoteGrid[r][col] {
			if k < 1 || k > len(g.Footnotes) {
				return "footnote", fmt.Sprintf("row %s: footnote number %d of %d", h, k, len(g.Footnotes)), n
			}
			notes = append(notes, g.Footnotes[k-1])
		}
		facts := f.factsOf(h, x)
		n++
		if len(facts) == 0 {
			if !blank(cell) {
				return "cell", fmt.Sprintf("row %s shows %q where nothing is reported", h, briefCell(cell)), n
			}
			if len(notes) > 0 {
				return "footnote", fmt.Sprintf("row %s has footnotes %q where nothing is reported", h, notes), n
			}
			continue
		}
		shown, noted := false, false
		for _, ft := range facts {
			if shows(cell, ft) {
				shown = true
				if sameNotes(f.noteTexts(ft), notes) {
					noted = true
				}
			}
		}
		if !shown {
			return "cell", fmt.Sprintf("row %s shows %q instead of %s", h, briefCell(cell), facts[0].Inner), n
		}
		if !noted {
			return "footnote", fmt.Sprintf("row %s (%s) has footnotes %q instead of %q", h, facts[0].ID, notes, f.noteTexts(facts[0])), n
		}
	}
	return "", "", n
}

// checkNetwork judges all grids of a rendered network.
func (f *Filing) checkNetwork(body []byte, probe func(string, int)) (checks int, class, bad string) {
	var n networkJSON
	if err := json.Unmarshal(body, &n); err != nil {
		return 1, "json", err.Error()
	}
	e := n.Subject.Entity
	var rows []string
	for _, l := range n.PGrid.IndentedLabels {
		rows = append(rows, l.Href)
	}
	k, class, bad := f.checkGrid("presentation "+n.RelationshipSet.RoleURI, e, rows, &n.PGrid.gridJSON, probe)
	checks += k
	if bad != "" {
		return checks, class, bad
	}
	if len(rows) > 0 {
		probe("presentation grid", 1)
	}
	for i := range n.DGrid.RootDomains {
		d := &n.DGrid.RootDomains[i]
		rows := []string{d.Href}
		for _, p := range d.PrimaryItems {
			rows = append(rows, p.Href)
		}
		k, class, bad := f.checkGrid("definition "+n.RelationshipSet.RoleURI+" "+d.Href, e, rows, &d.gridJSON, probe)
		checks += k
		if bad != "" {
			return checks, class, bad
		}
		probe("definition grid", 1)
	}
	for i := range n.CGrid.SummationItems {
		d := &n.CGrid.SummationItems[i]
		var rows []string
		for _, p := range d.ContributingConcepts {
			rows = append(rows, p.Href)
		}
		rows = append(rows, d.Href)
		k, class, bad := f.checkGrid("calculation "+n.RelationshipSet.RoleURI+" "+d.Href, e, rows, &d.gridJSON, probe)
		checks += k
		if bad != "" {
			return checks, class, bad
		}
		probe("calculation grid", 1)
	}
	return checks, "", ""
}

// checkRows compares the rows of the grids with the linkbases, for networks described by one
// linkbase file of a kind.
func (f *Filing) checkRows(body []byte) (class, bad string) {
	var n networkJSON
	if err := json.Unmarshal(body, &n); err != nil {
		return "json", err.Error()
	}
	for i := range f.Roles {
		ro := &f.Roles[i]
		if ro.URI != n.RelationshipSet.RoleURI {
			continue
		}
		if !f.Spec.has("presplit") {
			want := map[string]bool{}
			for _, nd := range ro.Pres {
				want[f.href(nd.Con)] = true
			}
			got := map[string]bool{}
			for _, l := range n.PGrid.IndentedLabels {
				got[l.Href] = true
			}
			if d := setDiff(want, got); d != "" {
				return "rowset", "presentation " + ro.URI + ": " + d
			}
		}
		if !f.Spec.has("calsplit") {
			want := map[string]bool{}
			for _, s := range ro.Calc {
				want[f.href(s.From)] = true
			}
			got := map[string]bool{}
			for _, s := range n.CGrid.SummationItems {
				got[s.Href] = true
			}
			if d := setDiff(want, got); d != "" {
				return "rowset", "calculation " + ro.URI + ": " + d
			}
		}
	}
	return "", ""
}

func setDiff(want, got map[string]bool) string {
	var out []string
	for _, k := range sortedKeys(want) {
		if !got[k] {
			out = append(out, "missing "+k)
		}
	}
	for _, k := range sortedKeys(got) {
		if !want[k] {
			out = append(out, "unexpected "+k)
		}
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, ", ")
}

// checkFact judges the answer to a fact lookup.
func (f *Filing) checkFact(name, ctxref string, body []byte) (class, bad string) {
	var facts []*Fact
	tagged := false
	for _, t := range f.Tagged {
		if t[0] == name && t[1] == ctxref {
			tagged = true
		}
	}
	for i := range f.Facts {
		ft := &f.Facts[i]
		if f.docname(ft.Con) == name && f.Ctx[ft.Ctx].ID == ctxref {
			facts = append(facts, ft)
		}
	}
	if !tagged {
		// what the extracted instance reports may be answered even if the document lacks it
		if len(bytes.TrimSpace(body)) == 0 {
			return "", ""
		}
		if len(facts) == 0 {
			return "untagged", fmt.Sprintf("%s in %s is not reported, but answered with %.200s", name, ctxref, body)
		}
	}
	var e expressJSON
	if err := json.Unmarshal(body, &e); err != nil {
		return "json", fmt.Sprintf("%s in %s: %v (%d bytes)", name, ctxref, err, len(body))
	}
	c := &f.Ctx[facts[0].Ctx]
	if e.Href != f.href(facts[0].Con) {
		return "concept", fmt.Sprintf("%s in %s: concept %s instead of %s", name, ctxref, e.Href, f.href(facts[0].Con))
	}
	if e.Context.Period[pure] != c.period() {
		return "period", fmt.Sprintf("%s in %s: period %s instead of %s", name, ctxref, e.Context.Period[pure], c.period())
	}
	want := strings.Join(c.members(f), ",")
	got := strings.Join(memberSig(e.Context.VoidQuadrant, e.Context.ContextualMemberGrid, 0), ",")
	if want != got {
		return "members", fmt.Sprintf("%s in %s: members [%s] instead of [%s]", name, ctxref, got, want)
	}
	shown, noted := false, false
	for _, ft := range facts {
		if shows(e.Expression, ft) {
			shown = true
			if sameNotes(f.noteTexts(ft), e.Footnotes) {
				noted = true
			}
		}
	}
	if !shown {
		return "value", fmt.Sprintf("%s in %s: shows %q instead of %s", name, ctxref, briefCell(e.Expression), facts[0].Inner)
	}
	if !noted {
		return "footnote", fmt.Sprintf("%s in %s (%s): footnotes %q instead of %q", name, ctxref, facts[0].ID, e.Footnotes, f.noteTexts(facts[0]))
	}
	return "", ""
}

// written gives the entity, role and title of a listed network one after the other.
func (f *Filing) written(k string) string {
	e, uri, _ := strings.Cut(k, " ")
	for _, r := range f.Roles {
		if r.URI == uri {
			return e + uri + r.Def
		}
	}
	return k
}

// checkCatalog judges a catalog against the filing.
func (f *Filing) checkCatalog(body []byte, names bool) (class, bad string, c catalogJSON) {
	if err := json.Unmarshal(body, &c); err != nil {
		return "json", err.Error(), c
	}
	want, got := map[string]bool{}, map[string]bool{}
	for _, e := range f.Entities {
		want[e[0]+" "+e[1]] = true
	}
	for _, s := range c.Subjects {
		k := s.Entity.Scheme + " " + s.Entity.CharData
		if got[k] {
			return "subjects", "listed twice: " + k, c
		}
		got[k] = true
		if names {
			if n := displayName([2]string{s.Entity.Scheme, s.Entity.CharData}); s.Name != n {
				return "name", fmt.Sprintf("%s is shown as %q instead of %q", k, s.Name, n), c
			}
		}
	}
	if d := setDiff(want, got); d != "" {
		return "subjects", d, c
	}
	want, got = map[string]bool{}, map[string]bool{}
	for _, r := range f.Roles {
		want[r.URI+" "+r.Def] = true
	}
	for _, r := range c.RelationshipSets {
		k := r.RoleURI + " " + r.Title
		if got[k] {
			return "relationshipsets", "listed twice: " + k, c
		}
		got[k] = true
	}
	if d := setDiff(want, got); d != "" {
		return "relationshipsets", d, c
	}
	want, got = map[string]bool{}, map[string]bool{}
	for _, e := range f.Entities {
		for _, r := range f.Roles {
			want[e[0]+"/"+e[1]+" "+r.URI] = true
		}
	}
	hashes := map[string]string{}
	alike := ""
	for _, e := range sortedKeys(c.Networks) {
		for _, r := range sortedKeys(c.Networks[e]) {
			k := e + " " + r
			got[k] = true
			h := c.Networks[e][r]
			if o, dup := hashes[h]; dup {
				if f.written(o) == f.written(k) {
					alike = fmt.Sprintf("%s and %s share the hash %s; entity, role and title written one after the other are equal", o, k, h)
					continue
				}
				return "hash", fmt.Sprintf("%s and %s share the hash %s", o, k, h), c
			}
			hashes[h] = k
		}
	}
	if d := setDiff(want, got); d != "" {
		return "networks", d, c
	}
	doc := ""
	if f.Inline {
		doc = f.Entry
	}
	if c.DocumentName != doc {
		return "document", fmt.Sprintf("document %q instead of %q", c.DocumentName, doc), c
	}
	if alike != "" {
		return "concat", alike, c
	}
	return "", "", c
}

// checkDoc compares the served document with the stored one.
func (f *Filing) checkDoc(body []byte) (class, bad string, images int) {
	if !bytes.Equal(body, f.Doc) {
		a, err := html.Parse(bytes.NewReader(f.Doc))
		b, err2 := html.Parse(bytes.NewReader(body))
		if err != nil || err2 != nil {
			return "parse", fmt.Sprint(err, err2), 0
		}
		if bad, n := f.sameNode(a, b); bad != "" {
			return "document", bad, n
		} else {
			images = n
		}
		return "", "", images
	}
	// served as stored: then there must be no image to put in place
	for _, s := range f.ImgRefs {
		if _, ok := f.imageData(s); ok {
			return "image", "image " + s + " was left as a name", 0
		}
	}
	return "", "", 0
}

func (f *Filing) imageData(src string) (string, bool) {
	b, ok := f.Files[path.Base(src)]
	if !ok {
		return "", false
	}
	mime := http.DetectContentType(b)
	if mime != "image/jpeg" && mime != "image/png" {
		return "", false
	}
	return "data:" + mime + ";base64," + base64.StdEncoding.EncodeToString(b), true
}

func (f *Filing) sameNode(a, b *html.Node) (string, int) {
	if a.Type != b.Type || a.Data != b.Data || a.Namespace != b.Namespace {
		return fmt.Sprintf("node %.80q became %.80q", a.Data, b.Data), 0
	}
	if len(a.Attr) != len(b.Attr) {
		return fmt.Sprintf("attributes of %s changed: %v became %v", a.Data, a.Attr, b.Attr), 0
	}
	n := 0
	for i := range a.Attr {
		x, y := a.Attr[i], b.Attr[i]
		if x.Key != y.Key || x.Namespace != y.Namespace {
			return fmt.Sprintf("attribute %s of %s became %s", x.Key, a.Data, y.Key), n
		}
		want := x.Val
		if a.Data == "img" && x.Key == "src" {
			if d, ok := f.imageData(x.Val); ok {
				want = d
				n++
			}
		}
		if y.Val != want {
			return fmt.Sprintf("%s of %s is %.80q instead of %.80q", x.Key, a.Data, y.Val, want), n
		}
	}
	ca, cb := a.FirstChild, b.FirstChild
	for ca != nil && cb != nil {
		bad, k := f.sameNode(ca, cb)
		n += k
		if bad != "" {
			return bad, n
		}
		ca, cb = ca.NextSibling, cb.NextSibling
	}
	if ca != nil {
		return fmt.Sprintf("%.80q is missing below %s", ca.Data, a.Data), n
	}
	if cb != nil {
		return fmt.Sprintf("%.80q was added below %s", cb.Data, a.Data), n
	}
	return "", n
}

// rawNames replaces the display name of every subject by its raw identifier.
func rawNames(body []byte) []byte {
	var v any
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return body
	}
	fix := func(s any) {
		m, ok := s.(map[string]any)
		if !ok {
			return
		}
		e, ok := m["Entity"].(map[string]any)
		if !ok {
			return
		}
		if _, ok := m["Name"]; ok {
			m["Name"] = fmt.Sprint(e["Scheme"]) + "/" + fmt.Sprint(e["CharData"])
		}
	}
	if m, ok := v.(map[string]any); ok {
		fix(m["Subject"])
		if l, ok := m["Subjects"].([]any); ok {
			for _, s := range l {
				fix(s)
			}
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		return body
	}
	return b
}

func canon(body []byte) []byte {
	var v any
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return body
	}
	b, err := json.Marshal(v)
	if err != nil {
		return body
	}
	return b
}
