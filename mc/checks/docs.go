package checks

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/core"
	"xpdfmc/lab"
)

// C21: every document tree is loaded as written. C22: broken documents are rejected. C23: the
// description lists the document.

// dnode is an element of a document, as written and as loaded.
type dnode struct {
	kind    string // element name, or "#" for text
	text    string
	vals    string // values other than styles, e.g. spans
	classes []string
	styles  string // declaration list as written
	kids    []*dnode
}

func (n *dnode) attrs() string {
	s := ""
	if len(n.classes) > 0 {
		s += fmt.Sprintf(` class="%s"`, strings.Join(n.classes, " "))
	}
	if n.styles != "" {
		s += fmt.Sprintf(` style="%s"`, lab.Esc(n.styles))
	}
	return s
}

// serialisation variants
type serial struct {
	indent   bool
	comments bool
	quotes   string
	entities bool
	cdata    bool
	longTags bool
	procinst bool
	crlf     bool
}

var serials = []serial{
	{quotes: `"`},
	{quotes: `'`, indent: true},
	{quotes: `"`, comments: true},
	{quotes: `"`, entities: true, longTags: true},
	{quotes: `"`, cdata: true, procinst: true},
	{quotes: `'`, indent: true, comments: true, longTags: true, crlf: true},
}

// head1 is the first character.
func head1(s string) string {
	for i := range s {
		if i > 0 {
			return s[:i]
		}
	}
	return s
}

func (sr serial) esc(s string) string {
	if sr.entities {
		var b strings.Builder
		for i, c := range s {
			if i%2 == 0 {
				fmt.Fprintf(&b, "&#%d;", c)
			} else if c > 127 {
				fmt.Fprintf(&b, "&#x%X;", c)
			} else {
				b.WriteString(lab.Esc(string(c)))
			}
		}
		return b.String()
	}
	if sr.cdata && !strings.Contains(s, "]]>") && len(s) > 1 {
		return lab.Esc(head1(s)) + "<![CDATA[" + s[len(head1(s)):] + "]]>"
	}
	return lab.Esc(s)
}

// valAttrs gives the attributes of vals in the XML.
func (n *dnode) valAttrs() string {
	switch n.kind {
	case "lf":
		return ` lines="` + n.vals + `"`
	case "setx":
		return ` x="` + n.vals + `"`
	case "sety":
		return ` y="` + n.vals + `"`
	case "table":
		if n.vals != "0" {
			return ` repeatheader="` + n.vals + `"`
		}
	case "td":
		var c, r int
		fmt.Sscanf(n.vals, "%d,%d", &c, &r)
		s := ""
		if r != 0 {
			s += fmt.Sprintf(` rowspan="%d"`, r)
		}
		if c != 0 {
			s += fmt.Sprintf(` colspan="%d"`, c)
		}
		return s
	case "part":
		return ` area="` + n.vals + `"`
	}
	return ""
}

func (n *dnode) write(b *strings.Builder, sr serial, depth int, inText bool) {
	if n.kind == "#" {
		t := sr.esc(n.text)
		if sr.comments && len(n.text) > 1 && !sr.entities && !sr.cdata {
			t = lab.Esc(head1(n.text)) + "<!-- <p>x</p> -->" + lab.Esc(n.text[len(head1(n.text)):])
		}
		b.WriteString(t)
		return
	}
	nl := func(d int) {
		if sr.indent && !inText {
			e := "\n"
			if sr.crlf {
				e = "\r\n"
			}
			b.WriteString(e + strings.Repeat("  ", d))
		}
	}
	nl(depth)
	if sr.comments && !inText {
		b.WriteString("<!-- a comment with <tags> & such -->")
	}
	if sr.procinst {
		b.WriteString("<?proc inst?>")
	}
	at := n.attrs()
	if sr.longTags && len(n.classes) > 0 {
		// class names separated in other ways
		cl := strings.Join(n.classes, " ")
		seps := []string{"\n\t", "\t", "  ", " \n"}
		for k := range n.classes[1:] {
			cl = strings.Replace(cl, " ", "\x01"+fmt.Sprint(k%4)+"\x02", 1)
		}
		for k, s := range seps {
			cl = strings.ReplaceAll(cl, "\x01"+fmt.Sprint(k)+"\x02", s)
		}
		at = strings.Replace(at, ` class="`+strings.Join(n.classes, " ")+`"`, ` class="`+[]string{"", " ", "\t"}[depth%3]+cl+[]string{"\n", ""}[depth%2]+`"`, 1)
	}
	a := at + n.valAttrs()
	if depth%2 == 1 {
		a = n.valAttrs() + at
	}
	a = strings.ReplaceAll(a, `"`, sr.quotes)
	if sr.longTags {
		a = strings.ReplaceAll(a, "="+sr.quotes, " = "+sr.quotes)
		a += "\n "
	}
	b.WriteString("<" + n.kind + a)
	body := ""
	switch n.kind {
	case "p", "image":
		body = sr.esc(n.text)
		if sr.comments && len(n.text) > 1 {
			body = lab.Esc(head1(n.text)) + "<!-- c -->" + lab.Esc(n.text[len(head1(n.text)):])
		}
	case "gr":
		body = n.vals
	}
	if body == "" && len(n.kids) == 0 && !sr.longTags {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	b.WriteString(body)
	if n.kind == "grid" {
		b.WriteString("<rows>")
		for _, k := range n.kids {
			if k.kind == "gr" {
				k.write(b, sr, depth+2, false)
			}
		}
		b.WriteString("</rows><parts>")
		for _, k := range n.kids {
			if k.kind == "part" {
				k.write(b, sr, depth+2, false)
			}
		}
		b.WriteString("</parts>")
	} else {
		hasText := false
		for _, k := range n.kids {
			if k.kind == "#" {
				hasText = true
			}
		}
		for _, k := range n.kids {
			k.write(b, sr, depth+1, hasText || inText)
		}
		if hasText || n.kind == "gr" {
			b.WriteString("</" + n.kind + ">")
			return
		}
	}
	nl(depth)
	if sr.longTags {
		b.WriteString("</" + n.kind + "  >")
	} else {
		b.WriteString("</" + n.kind + ">")
	}
}

// docTree is a document as written.
type docTree struct {
	meta                 [3]string
	orient, format       string
	margins              [4]string
	sheet                string
	header, footer, body []*dnode
	noSections           int // bit 0: no header, 1: no footer, 2: no meta, 3: no page
}

func (t *docTree) xml(sr serial) string {
	var b strings.Builder
	if sr.procinst {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if sr.comments {
		b.WriteString("<!-- before -->\n")
	}
	b.WriteString("<document>")
	el := func(name, v string) {
		if sr.indent {
			b.WriteString("\n    ")
		}
		b.WriteString("<" + name + ">" + sr.esc(v) + "</" + name + ">")
	}
	if t.noSections&4 == 0 {
		b.WriteString("<meta>")
		el("author", t.meta[0])
		el("creator", t.meta[1])
		el("subject", t.meta[2])
		b.WriteString("</meta>")
	}
	if t.noSections&8 == 0 {
		b.WriteString("<page>")
		el("orientation", t.orient)
		el("format", t.format)
		b.WriteString("<margins>")
		for i, n := range []string{"left", "top", "right", "bottom"} {
			el(n, t.margins[i])
		}
		b.WriteString("</margins></page>")
	}
	if t.sheet != "" {
		b.WriteString("<style>" + sr.esc(t.sheet) + "</style>")
	}
	sec := func(name string, ns []*dnode) {
		b.WriteString("<" + name + ">")
		for _, n := range ns {
			n.write(&b, sr, 2, false)
		}
		b.WriteString("</" + name + ">")
	}
	if t.noSections&1 == 0 {
		sec("header", t.header)
	}
	if t.noSections&2 == 0 {
		sec("footer", t.footer)
	}
	sec("body", t.body)
	b.WriteString("</document>")
	return b.String()
}

// mergeText merges neighbouring texts and drops blank text between elements.
func mergeText(ns []*dnode) []*dnode {
	var out []*dnode
	for _, n := range ns {
		if n.kind == "#" && len(out) > 0 && out[len(out)-1].kind == "#" {
			out[len(out)-1].text += n.text
			continue
		}
		c := *n
		out = append(out, &c)
	}
	var res []*dnode
	for _, n := range out {
		if n.kind == "#" && strings.TrimSpace(n.text) == "" {
			continue
		}
		res = append(res, n)
	}
	return res
}

// loaded turns what was loaded into dnodes; styles hold the effect on two records.
func loadedNodes(iss []xdoc.Instruction) []*dnode {
	var out []*dnode
	for _, is := range iss {
		var n *dnode
		switch is := is.(type) {
		case *xdoc.TextBlock:
			n = &dnode{kind: "#", text: is.Text}
		case *xdoc.Font:
			n = &dnode{kind: "font"}
			n.styled(is.Styled)
		case *xdoc.LineFeed:
			n = &dnode{kind: "lf", vals: fmt.Sprint(is.Lines)}
		case *xdoc.SetX:
			n = &dnode{kind: "setx", vals: fmt.Sprint(is.X)}
		case *xdoc.SetY:
			n = &dnode{kind: "sety", vals: fmt.Sprint(is.Y)}
		case *xdoc.Box:
			n = &dnode{kind: "box", kids: loadedNodes(is.ISS)}
			n.styled(is.Styled)
		case *xdoc.Text:
			n = &dnode{kind: "text", kids: loadedNodes(is.ISS)}
			n.styled(is.Styled)
		case *xdoc.Paragraph:
			n = &dnode{kind: "p", text: is.Text}
			n.styled(is.Styled)
		case *xdoc.Image:
			n = &dnode{kind: "image", text: is.Source}
			n.styled(is.Styled)
		case *xdoc.LineBreak:
			n = &dnode{kind: "br"}
		case *xdoc.PageBreak:
			n = &dnode{kind: "newpage"}
		case *xdoc.Table:
			n = &dnode{kind: "table", vals: fmt.Sprint(is.RepeatHeader)}
			n.styled(is.Styled)
			for _, tr := range is.Rows {
				rn := &dnode{kind: "tr"}
				rn.styled(tr.Styled)
				for _, td := range tr.Cells {
					cn := &dnode{kind: "td", vals: fmt.Sprintf("%d,%d", td.ColSpan, td.RowSpan), kids: loadedNodes(td.ISS)}
					cn.styled(td.Styled)
					rn.kids = append(rn.kids, cn)
				}
				n.kids = append(n.kids, rn)
			}
		case *xdoc.Grid:
			n = &dnode{kind: "grid"}
			n.styled(is.Styled)
			for _, gr := range is.Rows {
				k := &dnode{kind: "gr", vals: strings.Join(gr.Areas, " ")}
				k.styled(gr.Styled)
				n.kids = append(n.kids, k)
			}
			for _, p := range is.Parts {
				k := &dnode{kind: "part", vals: p.Area, kids: loadedNodes(p.ISS)}
				k.styled(p.Styled)
				n.kids = append(n.kids, k)
			}
		default:
			n = &dnode{kind: fmt.Sprintf("?%T", is)}
		}
		out = append(out, n)
	}
	return mergeText(out)
}

func (n *dnode) styled(s xdoc.Styled) {
	n.classes = s.Classes
	var eff []string
	for _, b := range recordsBefore() {
		for _, m := range s.Mutators {
			m.Mutate(&b)
		}
		eff = append(eff, fmt.Sprintf("%+v", b))
	}
	n.styles = strings.Join(eff, "\n")
}

func styleEffect(decl string) string {
	var eff []string
	kvs, _, _ := refDecl(decl)
	for _, b := range recordsBefore() {
		for _, d := range kvs {
			applyRef(&b, d.k, d.v)
		}
		eff = append(eff, fmt.Sprintf("%+v", b))
	}
	return strings.Join(eff, "\n")
}

// wsEq compares texts; with indentation only up to white space.
func (a *dnode) diff(b *dnode, path string, exact bool) string {
	if a.kind != b.kind {
		return fmt.Sprintf("%s: loaded %q, written %q", path, a.kind, b.kind)
	}
	path += "/" + b.kind
	ta, tb := a.text, b.text
	if !exact {
		ta, tb = strings.Join(strings.Fields(ta), " "), strings.Join(strings.Fields(tb), " ")
	}
	if ta != tb {
		return fmt.Sprintf("%s: text loaded %q, written %q", path, a.text, b.text)
	}
	if a.vals != b.vals {
		return fmt.Sprintf("%s: values loaded %q, written %q", path, a.vals, b.vals)
	}
	if fmt.Sprint(a.classes) != fmt.Sprint(b.classes) {
		return fmt.Sprintf("%s: classes loaded %q, written %q", path, a.classes, b.classes)
	}
	if hasStyle(b.kind) && a.styles != styleEffect(b.styles) {
		return fmt.Sprintf("%s: styles %q are loaded with the effect\n%s", path, b.styles, a.styles)
	}
	return diffList(a.kids, b.kids, path, exact)
}

func hasStyle(kind string) bool {
	switch kind {
	case "#", "lf", "setx", "sety", "br", "newpage":
		return false
	}
	return true
}

func diffList(a, b []*dnode, path string, exact bool) string {
	b = mergeText(b)
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%s: %s loaded behind the last element written", path, a[i].kind)
		}
		if d := a[i].diff(b[i], fmt.Sprintf("%s[%d]", path, i), exact); d != "" {
			return d
		}
	}
	if len(a) < len(b) {
		return fmt.Sprintf("%s: %d elements loaded, %d written", path, len(a), len(b))
	}
	return ""
}

func (t *docTree) judge(r *core.Rec, x string, rd io.Reader, exact bool) *xdoc.Document {
	doc, err := xdoc.Load(rd)
	r.Impl(1)
	r.Trans(len(x))
	if err != nil {
		r.Fail("rejected", "the document is rejected: %v\n%s", err, x)
		return nil
	}
	m := doc.Meta
	if t.noSections&4 == 0 && (m.Author != t.meta[0] || m.Creator != t.meta[1] || m.Subject != t.meta[2]) {
		r.Fail("meta", "meta data loaded: %+v, written %q\n%s", m, t.meta, x)
	}
	if t.noSections&8 == 0 {
		if string(doc.Page.Orientation) != t.orient || string(doc.Page.Format) != t.format {
			r.Fail("page", "page set-up loaded: %+v, written %q %q\n%s", doc.Page, t.orient, t.format, x)
		}
		g := doc.Page.Margins
		for i, v := range []float64{g.Left, g.Top, g.Right, g.Bottom} {
			if v != num(strings.TrimSpace(t.margins[i])) {
				r.Fail("margins", "margins loaded: %+v, written %q\n%s", g, t.margins, x)
			}
		}
	}
	for _, s := range []struct {
		name   string
		loaded xdoc.Instructions
		ns     []*dnode
		no     bool
	}{{"header", doc.Header, t.header, t.noSections&1 != 0}, {"footer", doc.Footer, t.footer, t.noSections&2 != 0}, {"body", doc.Body, t.body, false}} {
		ns := s.ns
		if s.no {
			ns = nil
		}
		if d := diffList(loadedNodes(s.loaded.ISS), ns, s.name, exact); d != "" {
			r.Fail("tree", "%s\n%s", d, x)
			return doc
		}
	}
	// the style sheet
	rules, _, _ := refSheet(t.sheet)
	judgeClasses(r, t.sheet, doc.StyleClasses(), rules, "")
	var js []byte
	js, _ = json.Marshal(doc)
	r.Obs(hashStr(string(js)))
	return doc
}

// ---- the documents

func tn(s string) *dnode { return &dnode{kind: "#", text: s} }

func dn(kind, vals string, kids ...*dnode) *dnode { return &dnode{kind: kind, vals: vals, kids: kids} }

func (n *dnode) sty(decl string, classes ...string) *dnode {
	n.styles, n.classes = decl, classes
	return n
}

func (n *dnode) tx(s string) *dnode { n.text = s; return n }

// inline content of text, box and cell
func inlines() []*dnode {
	return []*dnode{
		tn("aa"),
		tn(" b & <c> \"d\" 'e' \u00e4\u5b57 "),
		dn("p", "").tx("pp"),
		dn("p", "").tx(" q  <r> ").sty("font-weight:bold", "A"),
		dn("br", ""),
		dn("p", "").sty("color:#010203;width:5", "A", "B"),
		tn("\u00a0\u2028z"),
	}
}

// elements with one content node each for a list of inline nodes
func elements(kids []*dnode) []*dnode {
	cp := func() []*dnode { return append([]*dnode{}, kids...) }
	return []*dnode{
		{kind: "text", kids: cp()},
		{kind: "text", kids: cp(), styles: "h-align:block; width: 40", classes: []string{"A"}},
		{kind: "box", kids: cp()},
		{kind: "box", kids: cp(), styles: "border:1,1,0,1", classes: []string{"B", "A"}},
		dn("table", "0", dn("tr", "", &dnode{kind: "td", vals: "0,0", kids: cp()})),
		dn("table", "3", dn("tr", "", &dnode{kind: "td", vals: "2,3", kids: cp(), styles: "padding:1,2,3,4", classes: []string{"A"}}, dn("td", "0,1")).sty("height:9", "B"), dn("tr", "", dn("td", "1,0", tn("x")))).sty("width:50", "A", "B"),
	}
}

var simpleElems = []*dnode{
	dn("lf", "1.5"), dn("lf", "0"), dn("setx", "12.25"), dn("setx", "-3"), dn("sety", "100"), dn("sety", "7.125"),
	dn("newpage", ""), dn("image", "").tx("a b/c.png"), dn("image", "").tx("x.jpg").sty("width:5;height:6", "A"),
	dn("font", ""), dn("font", "").sty("font-family:Times", "A"), dn("font", "").sty("", "B"),
	dn("text", ""), dn("box", ""), dn("table", "0"), dn("table", "10"), dn("table", "0", dn("tr", "")), dn("table", "1", dn("tr", "", dn("td", "0,0"))),
	dn("grid", "", dn("gr", "a b c"), dn("gr", "a d d"), dn("part", "a", dn("text", "", tn("x"))), dn("part", "d")),
	dn("grid", "", dn("gr", "a a"), dn("gr", "b a"), dn("part", "a", dn("text", "", tn("1"))), dn("part", "b"), dn("part", "a", dn("box", "", tn("y"))), dn("part", "a", dn("text", "", tn("1")))),
	dn("grid", "", dn("gr", "a"), dn("part", "a", dn("box", "", tn("y")), dn("lf", "2"), dn("table", "0", dn("tr", "", dn("td", "0,0", tn("z"))))).sty("color:#010101", "A")).sty("width:6", "B"),
	dn("text", "", tn("deep"), dn("p", "").tx("er")),
	dn("table", "0", dn("tr", "", dn("td", "0,0", dn("box", "", tn("in")), dn("image", "").tx("i.png"), dn("text", "", tn("nested"), dn("br", ""))), dn("td", "0,2", dn("table", "2", dn("tr", "", dn("td", "3,0", tn("inner"))))))),
	dn("box", "", dn("text", "", dn("box", "", tn("3 deep")))),
	dn("table", "2", dn("tr", "", dn("td", "0,0", tn("1")), dn("td", "0,0", tn("2")), dn("td", "0,0", tn("3"))), dn("tr", "", dn("td", "3,0", tn("4"))), dn("tr", ""), dn("tr", "", dn("td", "0,0"), dn("td", "0,0", tn("5")))),
}

var baseTree = docTree{meta: [3]string{"Me & you", "cr\u00e9", ""}, orient: "portrait", format: "a5", margins: [4]string{"10", "20.5", "30", "40.25"}, sheet: "A{width:5} A:first-row{width:6}\nB { color:#010203; }"}

// trees enumerates documents.
type treeSpace struct {
	name string
	n    int64
	get  func(i int64) *docTree
}

func treeSpaces(tier string, desc bool) []treeSpace {
	var out []treeSpace
	in := inlines()
	l := 3
	if tier == "thorough" {
		l = 4
	}
	if desc {
		l--
	}
	el0 := len(elements(nil))
	place := func(t *docTree, sec int, ns ...*dnode) *docTree {
		switch sec {
		case 0:
			t.body = ns
		case 1:
			t.header = ns
		case 2:
			t.footer = ns
		}
		return t
	}
	// content sequences in every element in every section
	out = append(out, treeSpace{"content", core.Prod(el0, 3) * core.Seqs(len(in), 0, l), func(i int64) *docTree {
		g := core.Digits(i, el0, 3)
		var kids []*dnode
		for _, k := range core.Seq(i/core.Prod(el0, 3), len(in), 0, l) {
			kids = append(kids, in[k])
		}
		t := baseTree
		return place(&t, g[1], elements(kids)[g[0]])
	}})
	// sequences of elements
	var els []*dnode
	els = append(els, simpleElems...)
	els = append(els, elements([]*dnode{in[0], in[3]})...)
	out = append(out, treeSpace{"elements", 3 * core.Seqs(len(els), 0, l), func(i int64) *docTree {
		var ns []*dnode
		for _, k := range core.Seq(i/3, len(els), 0, l) {
			ns = append(ns, els[k])
		}
		t := baseTree
		return place(&t, int(i%3), ns...)
	}})
	// all sections at once
	sel := els
	if desc && tier != "thorough" {
		sel = append(append([]*dnode{}, els[8:12]...), els[14], els[18], els[len(els)-1], els[len(els)-3])
	}
	ne := len(sel)
	out = append(out, treeSpace{"sections", core.Prod(ne, ne, ne, 8), func(i int64) *docTree {
		g := core.Digits(i, ne, ne, ne, 8)
		t := baseTree
		t.header, t.footer, t.body = []*dnode{sel[g[0]]}, []*dnode{sel[g[1]]}, []*dnode{sel[g[2]]}
		t.noSections = g[3] & 3
		if g[3]&4 != 0 {
			t.noSections |= 12
		}
		return &t
	}})
	// tables: shapes x spans
	spans := []string{"0,0", "2,0", "0,2", "3,2", "1,1"}
	if desc && tier != "thorough" {
		spans = []string{"0,0", "2,0", "1,3"}
	}
	rows := core.Seqs(len(spans), 0, 2)
	out = append(out, treeSpace{"tables", rows * rows * rows * 3, func(i int64) *docTree {
		t := baseTree
		tab := dn("table", fmt.Sprint((i%3)*(i%3)))
		j := i / 3
		for k := 0; k < 3; k++ {
			tr := dn("tr", "")
			for c, s := range core.Seq(j%rows, len(spans), 0, 2) {
				tr.kids = append(tr.kids, dn("td", spans[s], tn(fmt.Sprintf("%d.%d", k, c))))
			}
			j /= rows
			tab.kids = append(tab.kids, tr)
		}
		return place(&t, 0, tab)
	}})
	// every element within every chain of containers
	var leaves []*dnode
	leaves = append(leaves, simpleElems...)
	leaves = append(leaves, dn("p", "").tx("pp").sty("width:3", "A"), dn("br", ""))
	nd := 2
	if tier == "thorough" || !desc {
		nd = 3
	}
	out = append(out, treeSpace{"nesting", core.Prod(len(leaves), 2, 3) * core.Seqs(4, 1, nd), func(i int64) *docTree {
		g := core.Digits(i, len(leaves), 2, 3)
		n := leaves[g[0]]
		for _, c := range core.Seq(i/core.Prod(len(leaves), 2, 3), 4, 1, nd) {
			kids := []*dnode{n}
			if g[1] == 1 && c != 3 {
				kids = []*dnode{tn("u"), n, tn("v")}
			} else if g[1] == 1 {
				kids = []*dnode{dn("text", "", tn("u")), n, dn("lf", "1")}
			}
			switch c {
			case 0:
				n = dn("text", "", kids...)
			case 1:
				n = dn("box", "", kids...)
			case 2:
				n = dn("table", "0", dn("tr", "", dn("td", "0,0", kids...), dn("td", "0,0", tn("w"))))
			case 3:
				n = dn("grid", "", dn("gr", "a b"), dn("part", "b", kids...), dn("part", "a"))
			}
		}
		t := baseTree
		return place(&t, g[2], n)
	}})
	// every attribute in the style of every kind of element
	out = append(out, treeSpace{"styles", core.Prod(len(sattrs), 11, 4), func(i int64) *docTree {
		g := core.Digits(i, len(sattrs), 11, 4)
		a := sattrs[g[0]]
		st := a.key + ":" + a.vals[0]
		if g[2]&1 != 0 {
			st += " ; " + sattrs[(g[0]+1)%len(sattrs)].key + " : " + sattrs[(g[0]+1)%len(sattrs)].vals[1]
		}
		var cl []string
		if g[2]&2 != 0 {
			cl = []string{"B", "nosuch", "A"}
		}
		t := baseTree
		var n *dnode
		switch g[1] {
		case 0:
			n = dn("text", "", tn("x")).sty(st, cl...)
		case 1:
			n = dn("box", "", tn("x")).sty(st, cl...)
		case 2:
			n = dn("text", "", dn("p", "").tx("x").sty(st, cl...))
		case 3:
			n = dn("font", "").sty(st, cl...)
		case 4:
			n = dn("image", "").tx("i.png").sty(st, cl...)
		case 5:
			n = dn("table", "0", dn("tr", "", dn("td", "0,0"))).sty(st, cl...)
		case 6:
			n = dn("table", "0", dn("tr", "", dn("td", "0,0")).sty(st, cl...))
		case 7:
			n = dn("table", "0", dn("tr", "", dn("td", "0,0", tn("x")).sty(st, cl...)))
		case 8:
			n = dn("table", "0", dn("tr", "", dn("td", "0,0", dn("p", "").tx("x").sty(st, cl...), dn("box", "", dn("p", "").sty(st)).sty(st, cl...))))
		case 9:
			n = dn("grid", "", dn("gr", "a"), dn("part", "a").sty(st, cl...)).sty(st, cl...)
		case 10:
			n = dn("box", "", dn("text", "", tn("x")).sty(st, cl...))
		}
		return place(&t, int(i)%3, n)
	}})
	// values that differ by little: of a class and of the style of an element of it
	near := []string{"0", "0.2", "0.21", "0.25", "1", "1.5", "1.51", "1.55", "12", "12.25", "12.5", "100", "100.5", "101", "1000000", "1000001", "0.001", "-0.001", "0.000001"}
	near1 := near
	if desc && tier != "thorough" {
		near, near1 = []string{"0", "0.001", "-0.004", "0.21", "1000001"}, []string{"0", "0.000001", "12.25"}
	}
	nearOf := func(kind byte, v string) string {
		switch kind {
		case 'q':
			return "1," + v + ",2,3"
		case 'i':
			return fmt.Sprintf("1,2,%d,3", int(num(v)))
		case 'c':
			return fmt.Sprintf("#0102%02x", len(v)*20+int(num(v))%20)
		case 'f':
			return v
		}
		return ""
	}
	var nearAttrs []sattr
	for _, a := range sattrs {
		if nearOf(a.kind, "0") != "" {
			nearAttrs = append(nearAttrs, a)
		}
	}
	nn, nn1 := len(near), len(near1)
	out = append(out, treeSpace{"near-values", core.Prod(nn1, nn, len(nearAttrs)), func(i int64) *docTree {
		g := core.Digits(i, nn1, nn, len(nearAttrs))
		a := nearAttrs[g[2]]
		t := baseTree
		t.sheet = "A{" + a.key + ":" + nearOf(a.kind, near1[g[0]]) + "} B{width:3}"
		st := a.key + ":" + nearOf(a.kind, near[g[1]])
		switch g[0] % 3 {
		case 0:
			return place(&t, 0, dn("text", "", tn("x"), dn("p", "").tx("y").sty(st, "A")), dn("box", "", tn("z")).sty(st, "A"))
		case 1:
			return place(&t, 0, dn("table", "0", dn("tr", "", dn("td", "0,0", tn("x")).sty(st, "B")).sty("", "A")).sty(st))
		}
		return place(&t, 0, dn("font", "").sty("", "A"), dn("box", "", tn("z"), dn("p", "").tx("q").sty(st)).sty("", "A"), dn("image", "").tx("i.png").sty(st, "A"))
	}})
	// meta data and page set-up
	metas := []string{"", "x", "A & B <c>", " lead", "\u00e4\u5b57", "two  blanks"}
	ors := []string{"portrait", "landscape", "", "Portrait", "x y"}
	fms := []string{"a3", "a4", "a5", "letter", "legal", "", "A4", "b5"}
	mgs := []string{"0", "10", "20.5", "-3", " 7 ", "100.125"}
	out = append(out, treeSpace{"setup", core.Prod(len(metas), len(metas), len(metas), len(ors), len(fms)), func(i int64) *docTree {
		g := core.Digits(i, len(metas), len(metas), len(metas), len(ors), len(fms))
		t := baseTree
		t.meta = [3]string{metas[g[0]], metas[g[1]], metas[g[2]]}
		t.orient, t.format = ors[g[3]], fms[g[4]]
		return &t
	}})
	nm := len(mgs)
	out = append(out, treeSpace{"margins", core.Prod(nm, nm, nm, nm), func(i int64) *docTree {
		g := core.Digits(i, nm, nm, nm, nm)
		t := baseTree
		t.margins = [4]string{mgs[g[0]], mgs[g[1]], mgs[g[2]], mgs[g[3]]}
		return &t
	}})
	// numbers of attributes
	nums := []string{"0", "1", "-1", "0.5", "12.25", "100", "1e2", "-0.125", "1000000"}
	kinds := []string{"lf", "setx", "sety"}
	out = append(out, treeSpace{"numbers", core.Prod(len(nums), len(kinds), 3), func(i int64) *docTree {
		g := core.Digits(i, len(nums), len(kinds), 3)
		t := baseTree
		return place(&t, g[2], dn(kinds[g[1]], nums[g[0]]))
	}})
	spanVals := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 32767, 32768, 65535, 65536, 65537, 100000, 1000000}
	if desc && tier != "thorough" {
		spanVals = []int{0, 1, 2, 10, 12, 100, 128, 256, 65536}
	}
	nsv := len(spanVals)
	out = append(out, treeSpace{"spans", core.Prod(nsv, nsv, 11), func(i int64) *docTree {
		g := core.Digits(i, nsv, nsv, 11)
		t := baseTree
		return place(&t, 0, dn("table", fmt.Sprint(g[2]), dn("tr", "", dn("td", fmt.Sprintf("%d,%d", spanVals[g[0]], spanVals[g[1]]), tn("x")))))
	}})
	return out
}

func (n *dnode) normNum() {
	switch n.kind {
	case "lf", "setx", "sety":
		n.vals = fmt.Sprint(num(n.vals))
	}
}

func loadSpaces(tier string) []core.Space {
	var out []core.Space
	for _, ts := range treeSpaces(tier, false) {
		ts := ts
		ns := len(serials)
		full := ts.n <= 20000 || tier == "thorough"
		n := ts.n
		if full {
			n *= int64(ns)
		}
		pick := func(i int64) (*docTree, serial) {
			if full {
				return ts.get(i / int64(ns)), serials[i%int64(ns)]
			}
			return ts.get(i), serials[i%int64(ns)]
		}
		out = append(out, core.Space{Name: ts.name, N: n,
			Run: func(i int64, r *core.Rec) {
				t, sr := pick(i)
				x := t.xml(sr)
				t.normalised().judge(r, x, strings.NewReader(x), !sr.indent)
			},
			Desc: func(i int64) string { t, sr := pick(i); return t.xml(sr) }})
	}
	// readers
	rich := richTree()
	out = append(out, core.Space{Name: "readers", N: int64(len(serials) * 400),
		Run: func(i int64, r *core.Rec) {
			sr := serials[i%int64(len(serials))]
			x := rich.xml(sr)
			k := int(i / int64(len(serials)))
			var rd io.Reader
			switch {
			case k < 200:
				rd = &pieceReader{s: x, n: k + 1}
			case k < 300:
				rd = io.MultiReader(strings.NewReader(x[:(k-200)*len(x)/100]), &pieceReader{s: x[(k-200)*len(x)/100:], n: 1})
			default:
				rd = &chunkReader{data: []byte(x), fixed: 3, fail: len(x), joined: true, empty: k - 298, err: io.EOF}
			}
			rich.normalised().judge(r, x, rd, !sr.indent)
		},
		Desc: func(i int64) string { return fmt.Sprintf("reader %d", i) }})
	return out
}

func (t *docTree) normalised() *docTree {
	c := *t
	var walk func(ns []*dnode) []*dnode
	walk = func(ns []*dnode) []*dnode {
		var out []*dnode
		for _, n := range ns {
			m := *n
			m.normNum()
			m.kids = walk(n.kids)
			out = append(out, &m)
		}
		return out
	}
	c.header, c.footer, c.body = walk(t.header), walk(t.footer), walk(t.body)
	return &c
}

func richTree() *docTree {
	t := baseTree
	t.header = append([]*dnode{}, simpleElems[10], dn("text", "", tn("page {cp}")))
	t.footer = []*dnode{dn("table", "1", dn("tr", "", dn("td", "2,1", tn("of {np}")).sty("color:#aabbcc", "A")))}
	t.body = append(append([]*dnode{}, simpleElems...), elements(inlines())...)
	return &t
}

// ---- C22

func wellFormedRoot(x string) bool {
	d := xml.NewDecoder(strings.NewReader(x))
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return true
			}
		}
	}
}

func mustReject(r *core.Rec, sig, x, why string) {
	r.Impl(1)
	r.Trans(1)
	doc, err := xdoc.Load(strings.NewReader(x))
	if err == nil {
		r.Fail(sig, "%s, but the document is loaded without error\n%s", why, x)
	}
	if err != nil && doc != nil {
		r.Fail("half-loaded", "%s: both a document and an error are returned\n%s", why, x)
	}
	if err != nil {
		r.Obs(hashStr(err.Error()))
	}
}

// defect documents: every place of a rich document where something can be wrong
func brokenSpaces(tier string) []core.Space {
	var out []core.Space
	rich := richTree()
	docs := []string{rich.xml(serials[0]), rich.xml(serials[5]), rich.xml(serials[4])}
	small := baseTree
	small.header = []*dnode{dn("text", "", tn("h"))}
	small.body = elements([]*dnode{tn("x"), dn("p", "").tx("y")})
	smalls := []string{small.xml(serials[0]), small.xml(serials[3])}
	for di, x := range docs {
		x := x
		end := strings.LastIndex(x, "</document") + len("</document")
		out = append(out, core.Space{Name: fmt.Sprintf("cut-%d", di), N: int64(end + 1),
			Run:  func(i int64, r *core.Rec) { mustReject(r, "cut-accepted", x[:i], "the document is cut off") },
			Desc: func(i int64) string { return fmt.Sprintf("cut after %d of %d bytes", i, len(x)) }})
		out = append(out, core.Space{Name: fmt.Sprintf("read-failure-%d", di), N: int64(end+1) * 3,
			Run: func(i int64, r *core.Rec) {
				r.Impl(1)
				r.Trans(1)
				k := int(i / 3)
				c := &chunkReader{data: []byte(x), fixed: []int{1, 7, 100000}[i%3], fail: k, err: errRead}
				if i%3 == 1 {
					c.joined = true
				}
				_, err := xdoc.Load(c)
				if err == nil {
					r.Fail("read-error-ignored", "the reader fails after %d of %d bytes, but loading reports success", k, len(x))
				}
			},
			Desc: func(i int64) string { return fmt.Sprintf("failure after %d bytes", i/3) }})
	}
	// tag mutations
	type tag struct{ a, b int }
	tagsOf := func(x string) []tag {
		var ts []tag
		for i := 0; i < len(x); i++ {
			if x[i] == '<' && i+1 < len(x) && x[i+1] != '!' && x[i+1] != '?' {
				j := strings.IndexByte(x[i:], '>')
				ts = append(ts, tag{i, i + j + 1})
				i += j
			}
		}
		return ts
	}
	muts := []string{"delete", "double", "rename", "close", "open", "swap", "upper"}
	for di, x := range append(append([]string{}, docs[0]), smalls...) {
		x := x
		ts := tagsOf(x)
		mk := func(i int64) (string, string) {
			g := core.Digits(i, len(ts), len(muts))
			t := ts[g[0]]
			tg := x[t.a:t.b]
			var n string
			switch muts[g[1]] {
			case "delete":
			case "double":
				n = tg + tg
			case "rename":
				k := 1
				if tg[1] == '/' {
					k = 2
				}
				n = tg[:k] + "z" + tg[k:]
			case "close":
				if tg[1] == '/' {
					n = "<" + tg[2:]
				} else {
					n = "</" + strings.FieldsFunc(tg[1:], func(r rune) bool { return r == ' ' || r == '>' || r == '/' })[0] + ">"
				}
			case "open":
				n = strings.Replace(tg, "/>", ">", 1)
			case "swap":
				if g[0]+1 >= len(ts) {
					n = tg
				} else {
					u := ts[g[0]+1]
					return x[:t.a] + x[u.a:u.b] + x[t.b:u.a] + tg + x[u.b:], muts[g[1]]
				}
			case "upper":
				n = strings.ToUpper(tg)
			}
			return x[:t.a] + n + x[t.b:], muts[g[1]] + " " + tg
		}
		out = append(out, core.Space{Name: fmt.Sprintf("tags-%d", di), N: core.Prod(len(ts), len(muts)),
			Run: func(i int64, r *core.Rec) {
				y, what := mk(i)
				if wellFormedRoot(y) {
					r.Skip()
					_, _ = xdoc.Load(strings.NewReader(y)) // must end
					r.Impl(1)
					return
				}
				mustReject(r, "mismatched-accepted", y, what)
			},
			Desc: func(i int64) string { _, w := mk(i); return w }})
	}
	// every byte replaced
	bytesIn := []string{"<", ">", "/", "\"", "'", "&", " ", "x", "\x00", "\xff", "=", "", "]]>", "<z>", "\u0007"}
	for di, x := range smalls {
		x := x
		if tier == "thorough" && di == 0 {
			x = docs[0]
		}
		mk := func(i int64) string {
			g := core.Digits(i, len(x), len(bytesIn), 2)
			if g[2] == 0 {
				return x[:g[0]] + bytesIn[g[1]] + x[g[0]+1:]
			}
			return x[:g[0]] + bytesIn[g[1]] + x[g[0]:]
		}
		out = append(out, core.Space{Name: fmt.Sprintf("bytes-%d", di), N: core.Prod(len(x), len(bytesIn), 2),
			Run: func(i int64, r *core.Rec) {
				y := mk(i)
				if !wellFormedRoot(y) {
					mustReject(r, "malformed-accepted", y, "the document is not well-formed")
					return
				}
				r.Impl(1)
				_, _ = xdoc.Load(strings.NewReader(y))
			},
			Desc: func(i int64) string { return mk(i) }})
	}
	// one bad element, number or style at every depth
	type bad struct{ xml, why string }
	var bads []bad
	styledTags := []string{"text", "box", "font", "table", "image"}
	badStyles := []string{"width", "width:x", "width:", "color:red", "border:1,2,3", "padding:1,2,3,x", ":5", "width:1:2", "a:b:c", "width:5;height:x", "height:5mm;width:5", "border:1,2,3,4,5", "x"}
	for _, t := range styledTags {
		for _, s := range badStyles {
			bads = append(bads, bad{fmt.Sprintf(`<%s style="%s"></%s>`, t, s, t), "malformed style " + s})
		}
	}
	for _, s := range badStyles {
		for _, f := range []string{
			`<text>a <p style="%s">b</p></text>`, `<box>a <p style="%s">b</p></box>`,
			`<table><tr style="%s"><td>a</td></tr></table>`, `<table><tr><td style="%s">a</td></tr></table>`, `<table><tr><td>x</td><td>y</td></tr><tr><td>z</td><td style="%s"/></tr></table>`,
			`<table><tr><td>a <p style="%s">b</p></td></tr></table>`, `<table><tr><td><box style="%s">b</box></td></tr></table>`, `<table><tr><td><image style="%s">b</image></td></tr></table>`,
			`<table><tr><td><text style="%s">b</text></td></tr></table>`, `<table><tr><td><table style="%s"><tr/></table></td></tr></table>`, `<table><tr><td><table><tr><td><p style="%s">x</p></td></tr></table></td></tr></table>`,
			`<grid style="%s"><rows><gr>a</gr></rows><parts/></grid>`, `<grid><rows><gr>a</gr></rows><parts><part area="a" style="%s"/></parts></grid>`,
			`<grid><rows><gr>a</gr></rows><parts><part area="a"><text style="%s"/></part></parts></grid>`, `<grid><rows><gr style="%s">a</gr></rows><parts/></grid>`,
			`<grid><rows><gr>a</gr></rows><parts><part area="a"><box><p style="%s">x</p></box></part></parts></grid>`,
			`<text><text><p style="%s">x</p></text></text>`, `<box><box style="%s"/></box>`,
		} {
			bads = append(bads, bad{fmt.Sprintf(f, s), "malformed style " + s})
		}
	}
	badNums := []string{"x", "5mm", "1,5", "--1", "0x", "1.2.3", "five", "1 2"}
	for _, n := range badNums {
		for _, f := range []string{
			`<lf lines="%s"/>`, `<setx x="%s"/>`, `<sety y="%s"/>`, `<table repeatheader="%s"><tr/></table>`,
			`<table><tr><td colspan="%s">x</td></tr></table>`, `<table><tr><td rowspan="%s">x</td></tr></table>`, `<table><tr><td>a</td></tr><tr><td>b</td><td rowspan="%s"/></tr></table>`,
			`<table><tr><td><table repeatheader="%s"/></td></tr></table>`, `<table><tr><td><table><tr><td colspan="%s"/></tr></table></td></tr></table>`,
			`<grid><rows><gr>a</gr></rows><parts><part area="a"><lf lines="%s"/></part></parts></grid>`, `<grid><rows><gr>a</gr></rows><parts><part area="a"><table repeatheader="%s"/></part></parts></grid>`,
			`<text><setx x="%s"/></text>`, `<box><lf lines="%s"/></box>`, `<table><tr><td><sety y="%s"/></td></tr></table>`,
		} {
			bads = append(bads, bad{fmt.Sprintf(f, n), "non-numeric " + n})
		}
	}
	for _, n := range []string{"1.5", "99999999999999999999999"} {
		for _, f := range []string{`<table repeatheader="%s"><tr/></table>`, `<table><tr><td colspan="%s">x</td></tr></table>`, `<table><tr><td rowspan="%s">x</td></tr></table>`} {
			bads = append(bads, bad{fmt.Sprintf(f, n), "not an integer " + n})
		}
	}
	for _, n := range []string{"-1", "11", "100", "-10", "12", "4294967296", "18446744073709551617", "2147483648", "256", "65536"} {
		for _, f := range []string{`<table repeatheader="%s"/>`, `<table class="A" repeatheader="%s" style="width:5"><tr><td>x</td></tr></table>`, `<table><tr><td><table repeatheader="%s"><tr/></table></td></tr></table>`} {
			bads = append(bads, bad{fmt.Sprintf(f, n), "repeatheader out of range " + n})
		}
	}
	for _, n := range []string{"zzz", "foo", "Text", "TEXT", "paragraph", "cell", "body2", "div", "html", "rows", "parts", "areas"} {
		for _, f := range []string{`<%s/>`, `<%s>x</%s>`, `<text><%s/></text>`, `<text>a <%s>b</%s> c</text>`, `<box><%s/></box>`, `<box>a<%s>x</%s></box>`, `<table><%s/></table>`, `<table><tr><td>x</td></tr><%s><tr/></%s></table>`,
			`<text><text><%s/></text></text>`, `<table><tr><td><text><%s/></text></td></tr></table>`, `<table><tr><td><box>a<%s/></box></td></tr></table>`, `<table><tr><td><table><%s/></table></td></tr></table>`,
			`<table><tr><%s/></tr></table>`, `<table><tr><td>x</td><%s>y</%s></tr></table>`, `<table><tr><td>x</td></tr><tr>z<%s/><td/></tr></table>`, `<table><tr><td><table><tr><%s/></tr></table></td></tr></table>`} {
			bads = append(bads, bad{strings.ReplaceAll(f, "%s", n), "element <" + n + "> is not known"})
		}
	}
	for _, g := range []struct{ rows, parts, why string }{
		{"", "", "a grid without rows"}, {"", `<part area="a"/>`, "a grid without rows"},
		{"a|b", `<part area="c"/>`, "a part for an unknown area"}, {"a b", `<part area="a"/><part area="b"/><part area="c">x</part>`, "a part for an unknown area"},
		{"a b", `<part area="a b"/>`, "a part for an unknown area"}, {"a", `<part area="A"/>`, "a part for an unknown area"}, {"ab", `<part area="a"/>`, "a part for an unknown area"}, {"a", `<part area="ab"/>`, "a part for an unknown area"},
		{"a", `<part/>`, "a part for an unknown area"}, {"a", `<part area="b"/><part area="a"/>`, "a part for an unknown area"},
		{"a b|a", "", "rows of different lengths"}, {"a|a b", "", "rows of different lengths"}, {"a a|a a a", `<part area="a"/>`, "rows of different lengths"}, {"a a a|a a", `<part area="a"/>`, "rows of different lengths"},
		{"a b|a b|a", "", "rows of different lengths"}, {"a b|a b|a b c", `<part area="b"/>`, "rows of different lengths"}, {"a b|a|a b", "", "rows of different lengths"}, {"a b|a b c|a b", "", "rows of different lengths"}, {"a|b|c|d e", `<part area="d"/>`, "rows of different lengths"},
	} {
		rs := ""
		if g.rows != "" {
			rs = "<gr>" + strings.ReplaceAll(g.rows, "|", "</gr><gr>") + "</gr>"
		}
		for _, f := range []string{"<grid>%s</grid>", `<grid class="A" style="width:5">%s</grid>`, "<text>a</text><table><tr><td>x</td></tr></table><grid>%s</grid>"} {
			bads = append(bads, bad{fmt.Sprintf(f, "<rows>"+rs+"</rows><parts>"+g.parts+"</parts>"), g.why})
		}
	}
	// well-formed counterparts must load: the same places with good values (no vacuous rejection)
	type good struct{ xml string }
	pos := []int{0, 1, 2} // header, footer, body
	surround := [][2]string{{"", ""}, {`<text>before</text>`, `<text>behind</text>`}, {`<table><tr><td>x</td></tr></table><newpage/>`, `<lf lines="1"/>`}}
	mkBad := func(i int64) (string, string) {
		g := core.Digits(i, len(bads), len(pos), len(surround))
		s := surround[g[2]][0] + bads[g[0]].xml + surround[g[2]][1]
		d := lab.A5(10, 10, 10, 10)
		d.Style = "A{width:5}"
		switch g[1] {
		case 0:
			d.Header = s
		case 1:
			d.Footer = s
		}
		if g[1] == 2 {
			d.Body = s
		} else {
			d.Body = "<text>body</text>"
		}
		return d.XML(), bads[g[0]].why
	}
	out = append(out, core.Space{Name: "defects", N: core.Prod(len(bads), len(pos), len(surround)),
		Run:  func(i int64, r *core.Rec) { x, why := mkBad(i); mustReject(r, "defect-accepted", x, why) },
		Desc: func(i int64) string { x, why := mkBad(i); return why + "\n" + x }})
	// a second defect, and defects in front of anything else do not hide: pairs with valid documents in between
	// page set-up and sheets
	var frames []bad
	for _, n := range badNums {
		for _, m := range []string{"left", "top", "right", "bottom"} {
			frames = append(frames, bad{fmt.Sprintf(`<document><page><margins><%s>%s</%s></margins></page><body><text>x</text></body></document>`, m, n, m), "non-numeric margin " + n})
		}
	}
	for _, s := range []string{"A", "A{", "A{width:x}", "A{width}", "{width:5}", "A:x{width:5}", "A{width:5} B:x{width:5}", "A{width:5} B{", "A{color:red} B{width:5}", "A{width:5} A:x{width:y}", "A{width:5;height}", "A{a:b:c}", " { } ", "A{border:1,2}"} {
		if s == "A" {
			continue
		}
		for _, f := range []string{`<document><style>%s</style><body><text>x</text></body></document>`, `<document><body><text>x</text></body><style>%s</style></document>`, `<document><meta/><page/><style><![CDATA[%s]]></style><header/><body/></document>`} {
			frames = append(frames, bad{fmt.Sprintf(f, s), "malformed sheet " + s})
		}
	}
	for _, s := range badStyles {
		for _, e := range []string{"header", "footer", "body"} {
			frames = append(frames, bad{fmt.Sprintf(`<document><%s style="%s"><text>x</text></%s></document>`, e, s, e), "malformed style " + s + " of " + e})
		}
	}
	for _, s := range []string{"", " ", "x", "<", "<document", "<document>", "</document>", "<doc><body/></doc>", "<html/>", "<body/>", "<document></doc>", "<document><body></document>", "<document><body></document></body>", "<document>&x;</document>", "<document a=1/>", "<document a/>", "\xef\xbb", "<?xml?>", "<!-- -->", "<document><body><text>&nosuch;</text></body></document>", "<document><body><text>\x01</text></body></document>", "<document><body><text>\xff</text></body></document>"} {
		frames = append(frames, bad{s, "no document"})
	}
	out = append(out, core.Space{Name: "frames", N: int64(len(frames)),
		Run:  func(i int64, r *core.Rec) { mustReject(r, "defect-accepted", frames[i].xml, frames[i].why) },
		Desc: func(i int64) string { return frames[i].why + "\n" + frames[i].xml }})
	_ = good{}
	return out
}

// ---- C23

type ditem struct {
	name, value string
	diffs       []string
	items       []ditem
}

func wsFree(s string) string { return strings.Join(strings.Fields(s), "") }

// sameValue: whitespace of values counts if it is single blanks between words; a description may
// leave out line breaks, indentation and the like.
func sameValue(got, want string) bool {
	if strings.ContainsAny(want, "\r\n\t") || strings.Contains(want, "  ") {
		return wsFree(got) == wsFree(want)
	}
	return strings.Trim(got, " ") == strings.Trim(want, " ")
}

func (t *docTree) describe() []ditem {
	rules, _, _ := refSheet(t.sheet)
	sh := sheet{}
	for _, rl := range rules {
		if rl.sel == "" {
			sh[rl.class] = &refClass{decl: rl.decl}
		}
	}
	var walk func(ns []*dnode) []ditem
	walk = func(ns []*dnode) []ditem {
		var out []ditem
		for _, n := range mergeText(ns) {
			d := ditem{}
			if hasStyle(n.kind) {
				kvs, _, _ := refDecl(n.styles)
				d.diffs = recordDiff(style.Styles{}, sh.resolve(style.Styles{}, level{classes: n.classes, own: kvs}, ""))
			}
			switch n.kind {
			case "#":
				d.name, d.value = "text-block", n.text
			case "lf":
				d.name, d.value = "line-feed", n.vals
			case "p":
				d.name, d.value = "paragraph", n.text
			case "image":
				d.name, d.value = "image", n.text
			case "br":
				d.name = "line-break"
			case "newpage":
				d.name = "page-break"
			case "tr":
				d.name = "table-row"
			case "td":
				var c, rs int
				fmt.Sscanf(n.vals, "%d,%d", &c, &rs)
				d.name = fmt.Sprintf("table-cell colspan=%d rowspan=%d", c, rs)
			case "gr":
				d.name, d.value = "grid-row", n.vals
			case "part":
				d.name, d.value = "grid-part", n.vals
			case "setx", "sety":
				d.name, d.value = n.kind, n.vals
			default:
				d.name = n.kind
			}
			d.items = walk(n.kids)
			out = append(out, d)
		}
		return out
	}
	v := func(n, v string) ditem { return ditem{name: n, value: v} }
	page := t
	if t.noSections&8 != 0 {
		page = &docTree{}
	}
	meta := t.meta
	if t.noSections&4 != 0 {
		meta = [3]string{}
	}
	nf := func(s string) string { return fmt.Sprint(num(strings.TrimSpace(s))) }
	hd, ft := t.header, t.footer
	if t.noSections&1 != 0 {
		hd = nil
	}
	if t.noSections&2 != 0 {
		ft = nil
	}
	return []ditem{
		{name: "meta", items: []ditem{v("author", meta[0]), v("creator", meta[1]), v("subject", meta[2])}},
		{name: "page", items: []ditem{v("orientation", page.orient), v("format", page.format), {name: "margins", items: []ditem{
			v("left", nf(page.margins[0])), v("top", nf(page.margins[1])), v("right", nf(page.margins[2])), v("bottom", nf(page.margins[3]))}}}},
		{name: "header", items: walk(hd)},
		{name: "footer", items: walk(ft)},
		{name: "body", items: walk(t.body)},
	}
}

// recordDiff lists the attributes that differ, by path in the record's JSON form.
func recordDiff(a, b style.Styles) []string {
	flat := func(s style.Styles) map[string]string {
		js, _ := json.Marshal(s)
		var v interface{}
		_ = json.Unmarshal(js, &v)
		out := map[string]string{}
		var walk func(p string, v interface{})
		walk = func(p string, v interface{}) {
			if m, ok := v.(map[string]interface{}); ok {
				for k, w := range m {
					walk(p+":"+k, w)
				}
				return
			}
			out[p] = fmt.Sprint(v)
		}
		walk("styles", v)
		return out
	}
	fa, fb := flat(a), flat(b)
	var out []string
	for k, v := range fa {
		if fb[k] != v {
			out = append(out, k+" "+v+" -> "+fb[k])
		}
	}
	sort.Strings(out)
	return out
}

func diffItems(a, b []ditem, path string) string {
	for i := range b {
		if i >= len(a) {
			return fmt.Sprintf("%s: %q is missing", path, b[i].name)
		}
		p := fmt.Sprintf("%s/%s[%d]", path, b[i].name, i)
		if a[i].name != b[i].name {
			return fmt.Sprintf("%s: described as %q", p, a[i].name)
		}
		if !sameValue(a[i].value, b[i].value) {
			return fmt.Sprintf("%s: value %q, expected %q", p, a[i].value, b[i].value)
		}
		x := append([]string{}, a[i].diffs...)
		sort.Strings(x)
		if strings.Join(x, "\n") != strings.Join(b[i].diffs, "\n") {
			return fmt.Sprintf("%s: style differences\n%s\nexpected\n%s", p, strings.Join(x, "\n"), strings.Join(b[i].diffs, "\n"))
		}
		if d := diffItems(a[i].items, b[i].items, p); d != "" {
			return d
		}
	}
	if len(a) > len(b) {
		return fmt.Sprintf("%s: %q is described although it is not there", path, a[len(b)].name)
	}
	return ""
}

func jsonItems(s string) ([]ditem, error) {
	type jd struct {
		Path     string
		Org, Mod interface{}
	}
	type ji struct {
		Name       string
		Value      interface{}
		StyleDiffs []jd
		Items      []json.RawMessage
	}
	var conv func(raw []json.RawMessage) ([]ditem, error)
	conv = func(raw []json.RawMessage) ([]ditem, error) {
		var out []ditem
		for _, r := range raw {
			var j ji
			if err := json.Unmarshal(r, &j); err != nil {
				return nil, err
			}
			d := ditem{name: j.Name}
			if j.Value != nil {
				d.value = fmt.Sprint(j.Value)
			}
			for _, x := range j.StyleDiffs {
				d.diffs = append(d.diffs, fmt.Sprintf("%s %v -> %v", x.Path, x.Org, x.Mod))
			}
			var err error
			d.items, err = conv(j.Items)
			if err != nil {
				return nil, err
			}
			out = append(out, d)
		}
		return out, nil
	}
	var top struct{ Items []json.RawMessage }
	if err := json.Unmarshal([]byte(s), &top); err != nil {
		return nil, err
	}
	return conv(top.Items)
}

func xmlItems(s string) ([]ditem, error) {
	type xd struct{ Path, Org, Mod string }
	type xi struct {
		Name       string
		Value      string
		StyleDiffs []xd
		Items      []xi
	}
	var top struct{ Items []xi }
	if err := xml.Unmarshal([]byte(s), &top); err != nil {
		return nil, err
	}
	var conv func(l []xi) []ditem
	conv = func(l []xi) []ditem {
		var out []ditem
		for _, x := range l {
			d := ditem{name: x.Name, value: x.Value, items: conv(x.Items)}
			for _, y := range x.StyleDiffs {
				d.diffs = append(d.diffs, fmt.Sprintf("%s %v -> %v", y.Path, y.Org, y.Mod))
			}
			out = append(out, d)
		}
		return out
	}
	return conv(top.Items), nil
}

func judgeDescription(r *core.Rec, t *docTree) {
	x := t.xml(serials[0])
	want := t.normalised().describe()
	doc := lab.Load(x)
	before := fmt.Sprintf("%+v", loadedDump(doc))
	first := map[xdoc.DescribeFormat]string{}
	orders(r, func(ord string) bool {
		for _, f := range []xdoc.DescribeFormat{xdoc.DescribeJSON, xdoc.DescribeXML} {
			s := xdoc.Describe(doc).Dump(f)
			r.Impl(1)
			r.Trans(1)
			if o, ok := first[f]; ok {
				if o != s {
					r.Fail("not-reproducible", "the description in %s differs (%s):\n%s\nfirst:\n%s\n%s", f, ord, s, o, x)
					return false
				}
				continue
			}
			first[f] = s
			var items []ditem
			var err error
			if f == xdoc.DescribeJSON {
				items, err = jsonItems(s)
			} else {
				items, err = xmlItems(s)
			}
			if err != nil {
				r.Fail("unreadable", "the description in %s is not readable: %v\n%s\n%s", f, err, s, x)
				return false
			}
			if d := diffItems(items, want, "description"); d != "" {
				r.Fail("description", "%s: %s\n%s\n%s", f, d, x, s)
				return false
			}
			r.Obs(hashStr(s))
		}
		return true
	})
	for _, f := range []xdoc.DescribeFormat{xdoc.DescribeJSON, xdoc.DescribeXML} {
		if s := xdoc.Describe(doc).Dump(f); first[f] != s && !r.Failed() {
			r.Fail("not-reproducible", "the description in %s differs:\n%s\nfirst:\n%s\n%s", f, s, first[f], x)
		}
	}
	if after := fmt.Sprintf("%+v", loadedDump(doc)); after != before {
		r.Fail("document-altered", "describing alters the document\n%s", x)
	}
}

func loadedDump(doc *xdoc.Document) string {
	var b strings.Builder
	var walk func(ns []*dnode)
	walk = func(ns []*dnode) {
		for _, n := range ns {
			fmt.Fprintf(&b, "(%s %q %q %q %q", n.kind, n.text, n.vals, n.classes, n.styles)
			walk(n.kids)
			b.WriteString(")")
		}
	}
	fmt.Fprintf(&b, "%+v %+v", doc.Meta, doc.Page)
	walk(loadedNodes(doc.Header.ISS))
	walk(loadedNodes(doc.Footer.ISS))
	walk(loadedNodes(doc.Body.ISS))
	return b.String()
}

func describeSpaces(tier string) []core.Space {
	var out []core.Space
	for _, ts := range treeSpaces(tier, true) {
		ts := ts
		out = append(out, core.Space{Name: ts.name, N: ts.n,
			Run:  func(i int64, r *core.Rec) { judgeDescription(r, ts.get(i)) },
			Desc: func(i int64) string { return ts.get(i).xml(serials[0]) }})
	}
	out = append(out, core.Space{Name: "rich", N: 3, Run: func(i int64, r *core.Rec) { judgeDescription(r, richTree()) }, Desc: func(i int64) string { return richTree().xml(serials[0]) }})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C21", Rule: "every document tree up to a size over the whole vocabulary x ways of writing it (quotes, indentation, comments, entities, CDATA, long tags) x readers: the loaded structure is compared with the tree written",
		Spaces: loadSpaces})
	core.Register(&core.Check{ID: "C22", Rule: "every cut, every read failure, every mutation of a tag, every replaced or inserted byte, every malformed style, number and unknown element at every place: loading must fail",
		Spaces: brokenSpaces})
	core.Register(&core.Check{ID: "C23", Rule: "every document tree up to a size: description in JSON and XML compared with the tree, under every iteration order of maps, repeated",
		Spaces: describeSpaces, Instr: true})
}
