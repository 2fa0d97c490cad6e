package checks

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/veng"
)

// C17: a document with classes, variants and nested styles is drawn like the document in which every
// element has all its attributes, resolved by the reference, in its own style. C20: an element is
// drawn the same whatever precedes it.

// styleText writes a record as a declaration list.
func styleText(s style.Styles) string {
	c := func(c style.RGB) string { return fmt.Sprintf("#%02x%02x%02x", c.R, c.G, c.B) }
	return fmt.Sprintf("font-family:%s;font-point-size:%g;font-style:%s;font-weight:%s;font-decoration:%s;border:%d,%d,%d,%d;padding:%g,%g,%g,%g;margin:%g,%g,%g,%g;width:%g;height:%g;line-spacing:%g;offset-x:%g;offset-y:%g;column-width:%g;h-align:%s;v-align:%s;color:%s;text-color:%s;background-color:%s;line-width:%g",
		s.Font.Family, s.Font.PointSize, s.Font.Style, s.Font.Weight, s.Font.Decoration,
		s.Border.Left, s.Border.Top, s.Border.Right, s.Border.Bottom,
		s.Padding.Left, s.Padding.Top, s.Padding.Right, s.Padding.Bottom,
		s.Margin.Left, s.Margin.Top, s.Margin.Right, s.Margin.Bottom,
		s.Width, s.Dimension.Height, s.LineSpacing, s.OffsetX, s.OffsetY, s.ColumnWidth, s.HAlign, s.VAlign,
		c(s.Foreground), c(s.Text), c(s.Background), s.LineWidth)
}

func fontOf(s style.Styles) dl.Font {
	f := dl.Font{Family: strings.ToLower(s.Font.Family), Size: s.Font.PointSize, Bold: s.Weight == style.FontWeightBold, Italic: s.Font.Style == style.FontStyleItalic, Underline: s.Decoration == style.FontDecorationUnderline}
	if f.Family == "arial" {
		f.Family = "helvetica"
	}
	return f
}

func rgb(c style.RGB) dl.RGB { return dl.RGB{R: c.R, G: c.G, B: c.B} }

// level is the styling of one element.
type level struct {
	classes []string
	own     []kv
}

func (l level) attr() string {
	s := ""
	if len(l.classes) > 0 {
		s += ` class="` + strings.Join(l.classes, " ") + `"`
	}
	if len(l.own) > 0 {
		var p []string
		for _, d := range l.own {
			p = append(p, d.k+":"+d.v)
		}
		s += ` style="` + strings.Join(p, "; ") + `"`
	}
	return s
}

type sheet map[string]*refClass // with variants

func (sh sheet) xml() string {
	var b strings.Builder
	names := map[string]bool{}
	for n := range sh {
		names[n] = true
	}
	ds := func(d []kv) string {
		s := ""
		for _, e := range d {
			s += e.k + ":" + e.v + ";"
		}
		return s
	}
	for _, n := range sortedKeys(names) {
		fmt.Fprintf(&b, "%s { %s }\n", n, ds(sh[n].decl))
		ss := map[string]bool{}
		for s := range sh[n].sel {
			ss[s] = true
		}
		for _, s := range sortedKeys(ss) {
			fmt.Fprintf(&b, "%s:%s { %s }\n", n, s, ds(sh[n].sel[s]))
		}
	}
	return b.String()
}

// resolve applies a level to its parent's record.
func (sh sheet) resolve(parent style.Styles, l level, variant string) style.Styles {
	s := parent
	for _, c := range l.classes {
		rc := sh[c]
		if rc == nil {
			continue
		}
		d := rc.decl
		if v, ok := rc.sel[variant]; ok && variant != "" {
			d = v
		}
		for _, e := range d {
			applyRef(&s, e.k, e.v)
		}
	}
	for _, e := range l.own {
		applyRef(&s, e.k, e.v)
	}
	return s
}

// node is an element of a document for the cascade.
type cnode struct {
	tag  string
	lv   level
	text string // plain text (tag "")
	kids []*cnode
}

func (n *cnode) xml(b *strings.Builder) {
	if n.tag == "" {
		b.WriteString(n.text)
		return
	}
	b.WriteString("<" + n.tag + n.lv.attr())
	if len(n.kids) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range n.kids {
		k.xml(b)
	}
	b.WriteString("</" + n.tag + ">")
}

type leaf struct {
	s     string
	font  dl.Font
	color dl.RGB
}

// flat writes the tree with resolved own styles only, and collects the text with its styles.
func (n *cnode) flat(b *strings.Builder, sh sheet, parent style.Styles, variant string, cur *style.Styles, leaves *[]leaf, rects *[]style.Styles) {
	switch n.tag {
	case "":
		b.WriteString(n.text)
		for _, w := range strings.Fields(n.text) {
			*leaves = append(*leaves, leaf{w, fontOf(parent), rgb(parent.Text)})
		}
		return
	case "font":
		s := sh.resolve(parent, n.lv, "")
		cur.Font = s.Font
		b.WriteString(`<font style="` + styleText(s) + `"/>`)
		return
	case "br", "newpage":
		b.WriteString("<" + n.tag + "/>")
		return
	}
	s := sh.resolve(parent, n.lv, variant)
	if n.tag == "box" || n.tag == "td" {
		*rects = append(*rects, s)
	}
	b.WriteString("<" + n.tag + ` style="` + styleText(s) + `">`)
	for i, k := range n.kids {
		v := ""
		switch k.tag {
		case "tr":
			if i == 0 {
				v = "first-row"
			} else if i == len(n.kids)-1 {
				v = "last-row"
			}
		case "td":
			if i == 0 {
				v = "first-cell"
			} else if i == len(n.kids)-1 {
				v = "last-cell"
			}
		}
		k.flat(b, sh, s, v, cur, leaves, rects)
	}
	b.WriteString("</" + n.tag + ">")
}

var cascadePage = lab.D{Format: "a4", Orient: "portrait", L: 20, T: 15, R: 30, B: 20}

type cascadeCase struct {
	sh   sheet
	body []*cnode
}

func (c *cascadeCase) xmls() (styled, flat string, leaves []leaf, rects []style.Styles) {
	d := cascadePage
	var b strings.Builder
	for _, n := range c.body {
		n.xml(&b)
	}
	d.Body = b.String()
	d.Style = c.sh.xml()
	styled = d.XML()
	b.Reset()
	cur := xpdf.DefaultStyle()
	for _, n := range c.body {
		n.flat(&b, c.sh, cur, "", &cur, &leaves, &rects)
	}
	d.Body = b.String()
	d.Style = ""
	return styled, d.XML(), leaves, rects
}

func (c *cascadeCase) run(r *core.Rec) {
	x, f, leaves, rects := c.xmls()
	m := veng.Dyadic{}
	a, ops := lab.Virt(x, m, getBlockHyph())
	w, ops2 := lab.Virt(f, m, getBlockHyph())
	r.Impl(2)
	r.Trans(ops + ops2)
	r.Obs(a.Hash())
	fail := func(sig, s string, v ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, v...), x, a.Dump()) }
	if k, ok := eqItems(a.Items, w.Items); !ok {
		fail("cascade", "item %d is\n  %s\nbut with all styles resolved and given directly\n  %s\nresolved document:\n%s\n", k, itemAt(a.Items, k), itemAt(w.Items, k), f)
		return
	}
	// texts in the resolved font and colour, whatever the way of giving them
	words := a.Words(m)
	if len(words) != len(leaves) {
		fail("text", "%d words are drawn instead of %d", len(words), len(leaves))
		return
	}
	for i, l := range leaves {
		if words[i].S != l.s || words[i].Font != l.font || words[i].Color != l.color {
			fail("text-style", "word %d is drawn as %v, expected %q in %+v, colour %v", i, words[i], l.s, l.font, l.color)
			return
		}
	}
	ri := -1
	for _, it := range a.Items {
		switch it.Kind {
		case dl.Rect:
			ri++
			if ri >= len(rects) {
				fail("boxes", "more than %d boxes and cells", len(rects))
				return
			}
			if it.Color != rgb(rects[ri].Background) {
				fail("background", "box or cell %d is filled in %v instead of %v", ri, it.Color, rects[ri].Background)
				return
			}
		case dl.Line:
			if ri >= 0 && (it.Color != rgb(rects[ri].Foreground) || it.LW != rects[ri].LineWidth) {
				fail("border", "the border of box or cell %d is drawn as %v instead of in %v, %g wide", ri, it, rects[ri].Foreground, rects[ri].LineWidth)
				return
			}
		}
	}
	if ri != len(rects)-1 {
		fail("boxes", "%d boxes and cells instead of %d", ri+1, len(rects))
	}
}

func txt(s string) *cnode { return &cnode{text: s} }

func el(tag string, lv level, kids ...*cnode) *cnode { return &cnode{tag: tag, lv: lv, kids: kids} }

// chain builds the elements for the levels of a path.
var paths = []struct {
	name string
	n    int
	mk   func(l []level) []*cnode
}{
	{"text", 2, func(l []level) []*cnode {
		return []*cnode{el("text", l[0], txt("aa "), el("p", l[1], txt("bb")), txt(" cc "), el("br", level{}), txt("dd"), el("p", level{}, txt("ee")))}
	}},
	{"box", 2, func(l []level) []*cnode {
		return []*cnode{el("box", l[0], txt("aa "), el("p", l[1], txt("bb")), txt(" cc "), el("br", level{}), txt("dd")), el("box", level{}, txt("zz"))}
	}},
	{"font-text", 3, func(l []level) []*cnode {
		return []*cnode{el("font", l[0]), el("text", l[1], txt("aa "), el("p", l[2], txt("bb")), txt(" cc")), el("text", level{}, txt("dd"))}
	}},
	{"fonts-box", 3, func(l []level) []*cnode {
		return []*cnode{el("font", l[0]), el("font", l[1]), el("box", l[2], txt("aa "), txt(" cc")), el("text", level{}, txt("dd"))}
	}},
	{"table", 4, func(l []level) []*cnode {
		return []*cnode{el("table", l[0],
			el("tr", l[1], el("td", level{}, txt("ff")), el("td", l[2], txt("aa "), el("p", l[3], txt("bb")), txt(" cc "), el("br", level{}), txt("dd")), el("td", level{}, txt("gg"))),
			el("tr", level{}, el("td", level{}, txt("hh")), el("td", level{}, el("p", level{}, txt("ii"))))),
			el("text", level{}, txt("jj"))}
	}},
	{"font-table", 4, func(l []level) []*cnode {
		return []*cnode{el("font", l[0]), el("table", l[1],
			el("tr", l[2], el("td", l[3], txt("aa"))),
			el("tr", level{}, el("td", level{}, txt("hh")), el("td", level{}, txt("ii")))),
			el("text", level{}, txt("jj"))}
	}},
}

func cascadeSpaces(tier string) []core.Space {
	var out []core.Space
	// one attribute, every level in every way
	base := []kv{{"border", "1,1,1,1"}}
	mkLevel := func(k int, a *sattr, opt int, sh sheet) level {
		v := func(j int) string { return a.vals[(k*3+j)%len(a.vals)] }
		na, nb := fmt.Sprintf("c%da", k), fmt.Sprintf("c%db", k)
		sh[na] = &refClass{decl: []kv{{a.key, v(1)}}}
		sh[nb] = &refClass{decl: []kv{{a.key, v(2)}}}
		switch opt {
		case 1:
			return level{own: []kv{{a.key, v(0)}}}
		case 2:
			return level{classes: []string{na}}
		case 3:
			return level{classes: []string{na, nb}}
		case 4:
			return level{classes: []string{nb, na}}
		case 5:
			return level{classes: []string{na}, own: []kv{{a.key, v(0)}}}
		case 6:
			return level{classes: []string{"nosuch", na, "C0A"}}
		}
		return level{}
	}
	for pi := range paths {
		p := paths[pi]
		rad := []int{len(sattrs), 2}
		for k := 0; k < p.n; k++ {
			rad = append(rad, 7)
		}
		get := func(i int64) *cascadeCase {
			g := core.Digits(i, rad...)
			c := &cascadeCase{sh: sheet{}}
			var ls []level
			for k := 0; k < p.n; k++ {
				ls = append(ls, mkLevel(k, &sattrs[g[0]], g[2+k], c.sh))
			}
			if g[1] == 1 && sattrs[g[0]].key != "border" {
				// with a border, so that its colour and width show
				l := &ls[0]
				if p.name[0] == 'f' {
					l = &ls[1]
				}
				if p.name == "fonts-box" {
					l = &ls[2]
				}
				l.own = append(append([]kv{}, base...), l.own...)
			}
			c.body = p.mk(ls)
			return c
		}
		out = append(out, core.Space{Name: "one-attribute-" + p.name, N: core.Prod(rad...),
			Run:  func(i int64, r *core.Rec) { get(i).run(r) },
			Desc: func(i int64) string { x, _, _, _ := get(i).xmls(); return x }})
	}
	// two attributes, set separately and together
	pairOpts := func(k int, a, b *sattr, opt int, sh sheet) level {
		va := func(j int) string { return a.vals[(k*3+j)%len(a.vals)] }
		vb := func(j int) string { return b.vals[(k*3+j+1)%len(b.vals)] }
		n := func(s string) string { return fmt.Sprintf("c%d%s", k, s) }
		sh[n("a")] = &refClass{decl: []kv{{a.key, va(0)}}}
		sh[n("b")] = &refClass{decl: []kv{{b.key, vb(0)}}}
		sh[n("ab")] = &refClass{decl: []kv{{b.key, vb(1)}, {a.key, va(1)}}}
		oa, ob := kv{a.key, va(2)}, kv{b.key, vb(2)}
		switch opt {
		case 1:
			return level{own: []kv{oa, ob}}
		case 2:
			return level{classes: []string{n("a")}, own: []kv{ob}}
		case 3:
			return level{classes: []string{n("ab")}, own: []kv{oa}}
		case 4:
			return level{classes: []string{n("ab"), n("a")}}
		case 5:
			return level{classes: []string{n("a"), n("b")}}
		case 6:
			return level{classes: []string{n("b"), n("ab")}}
		case 7:
			return level{own: []kv{ob}}
		}
		return level{}
	}
	for _, pi := range []int{0, 1, 4} {
		p := paths[pi]
		no := 8
		if p.n > 2 && tier != "thorough" {
			no = 4
		}
		rad := []int{len(sattrs), len(sattrs)}
		for k := 0; k < p.n; k++ {
			rad = append(rad, no)
		}
		get := func(i int64) *cascadeCase {
			g := core.Digits(i, rad...)
			c := &cascadeCase{sh: sheet{}}
			var ls []level
			for k := 0; k < p.n; k++ {
				ls = append(ls, pairOpts(k, &sattrs[g[0]], &sattrs[g[1]], g[2+k], c.sh))
			}
			c.body = p.mk(ls)
			return c
		}
		out = append(out, core.Space{Name: "two-attributes-" + p.name, N: core.Prod(rad...),
			Run: func(i int64, r *core.Rec) {
				if g := core.Digits(i, rad...); g[0] == g[1] {
					return
				}
				get(i).run(r)
			},
			Desc: func(i int64) string { x, _, _, _ := get(i).xmls(); return x }})
	}
	out = append(append(out, variantSpace(tier), selfSpace(), wrappedSpace(tier)), classListSpace(tier)...)
	return out
}

// variantSpace: tables of every shape with row and cell variants.
func variantSpace(tier string) core.Space {
	maxRows, maxCells := 3, 3
	if tier == "thorough" {
		maxRows, maxCells = 4, 4
	}
	shapes := core.Seqs(maxCells, 1, maxRows)
	rad := []int{16, 2, 5, 4} // variants defined, what the base declares, who has which class, attributes
	attrs := [][4]string{
		{"text-color", "#111111", "#222222", "#333333"},
		{"font-point-size", "9", "10", "14"},
		{"background-color", "#aa0000", "#00aa00", "#0000aa"},
		{"height", "15", "20", "25"},
	}
	get := func(i int64) *cascadeCase {
		g := core.Digits(i, rad...)
		shape := core.Seq(i/core.Prod(rad...), maxCells, 1, maxRows)
		ra := attrs[g[3]]
		ca := attrs[(g[3]+1)%len(attrs)]
		c := &cascadeCase{sh: sheet{}}
		mk := func(a [4]string, base bool) *refClass {
			rc := &refClass{sel: map[string][]kv{}}
			if base {
				rc.decl = []kv{{a[0], a[1]}}
			}
			return rc
		}
		rc := mk(ra, g[1] == 0)
		cc := mk(ca, true)
		if g[1] == 1 {
			// variants that do not set what the base sets
			rc.decl = []kv{{"font-weight", "bold"}}
			cc.decl = append(cc.decl, kv{"font-style", "italic"})
		}
		if g[0]&1 != 0 {
			rc.sel["first-row"] = []kv{{ra[0], ra[2]}}
		}
		if g[0]&2 != 0 {
			rc.sel["last-row"] = []kv{{ra[0], ra[3]}}
		}
		if g[0]&4 != 0 {
			cc.sel["first-cell"] = []kv{{ca[0], ca[2]}}
		}
		if g[0]&8 != 0 {
			cc.sel["last-cell"] = []kv{{ca[0], ca[3]}}
		}
		c.sh["r"], c.sh["c"] = rc, cc
		c.sh["s"] = &refClass{decl: []kv{{"font-decoration", "underline"}}, sel: map[string][]kv{"last-row": {{ra[0], "77"}}, "first-cell": {{ca[0], "88"}}, "nosuch": {{"color", "#123456"}}}}
		for _, v := range []string{"last-row", "first-cell"} {
			d := c.sh["s"].sel[v]
			if attrOf(d[0].k).kind == 'c' {
				d[0].v = "#778899"
			}
		}
		t := el("table", level{})
		for ri, n := range shape {
			var rl level
			switch g[2] {
			case 0:
				rl.classes = []string{"r"}
			case 1:
				rl.classes = []string{"r", "s"}
			case 2:
				rl.classes = []string{"s", "r"}
			case 3:
				rl = level{classes: []string{"r"}, own: []kv{{ra[0], ra[1]}}}
			case 4:
				if ri%2 == 0 {
					rl.classes = []string{"r"}
				}
			}
			row := el("tr", rl)
			for ci := 0; ci <= n; ci++ {
				var l level
				switch g[2] {
				case 0, 3:
					l.classes = []string{"c"}
				case 1:
					l.classes = []string{"s", "c"}
				case 2:
					l = level{classes: []string{"c", "s"}, own: []kv{{"color", "#445566"}}}
				case 4:
					if ci%2 == 1 {
						l.classes = []string{"c"}
					}
				}
				row.kids = append(row.kids, el("td", l, txt(fmt.Sprintf("x%d", ci))))
			}
			t.kids = append(t.kids, row)
		}
		c.body = []*cnode{t, el("text", level{classes: []string{"r", "c"}}, txt("end"))}
		return c
	}
	return core.Space{Name: "variants", N: shapes * core.Prod(rad...),
		Run: func(i int64, r *core.Rec) {
			c := get(i)
			t := c.body[0]
			if len(t.kids) == 1 {
				// a single row is both the first and the last one: which variant counts is open
				if _, ok := c.sh["r"].sel["last-row"]; ok {
					r.Skip()
					return
				}
			}
			c.run(r)
		},
		Desc: func(i int64) string { x, _, _, _ := get(i).xmls(); return x }}
}

// selfSpace: the resolved document itself - every attribute of an element given in its own style is
// what MutatedStyles tells, for every kind of element.
func selfSpace() core.Space {
	type mk struct {
		name string
		i    func(s xdoc.Styled) xdoc.Instruction
	}
	kinds := []mk{
		{"font", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.Font{Styled: s} }},
		{"text", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.Text{Styled: s} }},
		{"box", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.Box{Styled: s} }},
		{"p", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.Paragraph{Styled: s} }},
		{"image", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.Image{Styled: s} }},
		{"table", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.Table{Styled: s} }},
		{"tr", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.TableRow{Styled: s} }},
		{"td", func(s xdoc.Styled) xdoc.Instruction { return &xdoc.TableCell{Styled: s} }},
	}
	rad := []int{len(kinds), len(sattrs), 4, 3}
	return core.Space{Name: "mutated-styles", N: core.Prod(rad...),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, rad...)
			a := sattrs[g[1]]
			cs, err := style.DecodeClasses(strings.NewReader("A{" + a.key + ":" + a.vals[0] + "} A:v{" + a.key + ":" + a.vals[1] + "} B{" + a.key + ":" + a.vals[len(a.vals)-1] + "}"))
			if err != nil {
				r.Fail("sheet", "%v", err)
				return
			}
			st := xdoc.Styled{Classes: [][]string{nil, {"A"}, {"A", "B"}, {"B", "A"}}[g[2]]}
			own := g[3] > 0
			if own {
				m, err := style.DecodeMutator(strings.NewReader(a.key + ":" + a.vals[1]))
				if err != nil {
					r.Fail("style", "%v", err)
					return
				}
				st.Mutators = append(st.Mutators, m)
			}
			r.Impl(1)
			for _, base := range recordsBefore() {
				for _, sel := range []string{"", "v", "w"} {
					inst := kinds[g[0]].i(st)
					before := base
					var got style.Styles
					if sel == "" {
						got = inst.MutatedStyles(cs, base)
					} else {
						got = inst.MutatedStylesWithSelector(sel, cs, base)
					}
					r.Trans(1)
					exp := base
					for _, c := range st.Classes {
						switch {
						case c == "A" && sel == "v":
							applyRef(&exp, a.key, a.vals[1])
						case c == "A":
							applyRef(&exp, a.key, a.vals[0])
						default:
							applyRef(&exp, a.key, a.vals[len(a.vals)-1])
						}
					}
					if own {
						applyRef(&exp, a.key, a.vals[1])
					}
					if got != exp || before != base {
						r.Fail("mutated-styles", "%s, classes %v, own %v, variant %q, attribute %s:\n%+v\nexpected\n%+v", kinds[g[0]].name, st.Classes, own, sel, a.key, got, exp)
						return
					}
				}
			}
		},
		Desc: func(i int64) string { return fmt.Sprint(core.Digits(i, rad...)) }}
}

// classListSpace: every list of class names up to a length, repeated and unknown ones included, with
// every set of variants, on texts, rows and cells.
func classListSpace(tier string) []core.Space {
	names := []string{"A", "B", "C", "nosuch"}
	max := 4
	if tier == "thorough" {
		max = 5
	}
	places := []string{"text", "p", "box", "table", "tr", "td", "font"}
	rad := []int{len(places), 8}
	get := func(i int64, list func(int64) []string) *cascadeCase {
		g := core.Digits(i, rad...)
		c := &cascadeCase{sh: sheet{
			"A": &refClass{decl: []kv{{"text-color", "#110000"}, {"font-point-size", "9"}, {"background-color", "#aa0000"}}, sel: map[string][]kv{}},
			"B": &refClass{decl: []kv{{"text-color", "#002200"}, {"font-weight", "bold"}, {"background-color", "#00bb00"}}, sel: map[string][]kv{}},
			"C": &refClass{decl: []kv{{"font-point-size", "14"}, {"font-weight", "normal"}, {"background-color", "#0000cc"}}, sel: map[string][]kv{}},
		}}
		for k, n := range names[:3] {
			if g[1]>>uint(k)&1 != 0 {
				c.sh[n].sel["first-row"] = []kv{{"text-color", fmt.Sprintf("#0000%d%d", k+1, k+1)}, {"font-style", "italic"}}
				c.sh[n].sel["last-cell"] = []kv{{"font-point-size", fmt.Sprint(20 + k)}, {"background-color", fmt.Sprintf("#0%d0%d0%d", k, k, k)}}
			}
		}
		l := level{classes: list(i / core.Prod(rad...))}
		lv := map[string]level{places[g[0]]: l}
		c.body = []*cnode{
			el("font", lv["font"]),
			el("text", lv["text"], txt("aa "), el("p", lv["p"], txt("bb"))),
			el("box", lv["box"], txt("cc")),
			el("table", lv["table"],
				el("tr", lv["tr"], el("td", lv["td"], txt("d1")), el("td", level{}, txt("d2")), el("td", lv["td"], txt("d3"))),
				el("tr", lv["tr"], el("td", level{}, txt("e1")), el("td", lv["td"], txt("e2"))),
				el("tr", lv["tr"], el("td", lv["td"], txt("f1")))),
			el("text", level{}, txt("end")),
		}
		return c
	}
	mk := func(name string, n int64, list func(int64) []string) core.Space {
		return core.Space{Name: name, N: core.Prod(rad...) * n,
			Run:  func(i int64, r *core.Rec) { get(i, list).run(r) },
			Desc: func(i int64) string { x, _, _, _ := get(i, list).xmls(); return x }}
	}
	// long lists: one name that differs, in every place
	var long [][]string
	for _, n := range []int{6, 9, 16, 17, 33} {
		for p := 0; p < n; p++ {
			for k := 0; k < 9; k++ {
				l := make([]string, n)
				for q := range l {
					l[q] = []string{"A", "nosuch", "C"}[k%3]
				}
				l[p] = []string{"B", "C", "A"}[k/3]
				long = append(long, l)
			}
		}
	}
	return []core.Space{mk("class-lists", core.Seqs(len(names), 1, max), func(i int64) []string {
		var l []string
		for _, k := range core.Seq(i, len(names), 1, max) {
			l = append(l, names[k])
		}
		return l
	}), mk("long-class-lists", int64(len(long)), func(i int64) []string { return long[i] })}
}

// ---- C20

const tinyPNG = "iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg=="

var cascadeDir string

func cascadeSetup(dir string) {
	cascadeDir = dir
	b, _ := base64.StdEncoding.DecodeString(tinyPNG)
	_ = os.WriteFile(filepath.Join(dir, "i.png"), b, 0o666)
}

const c20Sheet = "K{font-family:Times;font-point-size:15;color:#aa1100;text-color:#11aa00;background-color:#0011aa;line-width:2.5;border:1,1,1,1;padding:1,2,1,2;line-spacing:2;h-align:center}\nV{text-color:#998877;border:0,1,0,1}\nV:first-row{font-weight:bold;line-width:3}\nV:last-cell{background-color:#123123;font-style:italic}"

var pre20 = []string{
	`<text class="K">kk <p style="font-style:italic;text-color:#ff0000">pp</p></text>`,
	`<text style="font-family:Courier;font-point-size:20;font-weight:bold;font-decoration:underline;text-color:#00ff00;color:#0000ff;background-color:#ff00ff;line-width:4;line-spacing:3;h-align:right;width:50">tt</text>`,
	`<text style="h-align:block;width:40">ab abcdef <p class="K">xyxyxyxy</p> a</text>`,
	`<text>uu <p style="font-point-size:20;text-color:#ff0000;font-weight:bold">pp</p></text>`,
	`<text style="text-color:#ff0000"/>`,
	`<text style="text-color:#ff0000;font-weight:bold"> <br/> </text>`,
	`<box class="K">bb</box>`,
	`<box style="font-family:Courier;font-point-size:7;text-color:#00ff00;color:#0000ff;background-color:#ff00ff;line-width:4;border:1,0,1,0;padding:3,3,3,3;offset-x:7;offset-y:1;width:30;height:15">bb <p class="V">qq</p></box>`,
	`<box style="font-point-size:20;background-color:#00ff00;line-width:0.1"/>`,
	`<box style="h-align:block;width:44" class="V">abcd <p style="font-weight:bold;font-point-size:18">xyxyxyxy</p> abef</box>`,
	`<table class="K"><tr class="V"><td class="V">c1</td><td class="V" style="font-point-size:6;text-color:#0f0f0f">c2</td></tr><tr class="V"><td>c3</td><td class="V">c4</td></tr></table>`,
	`<table style="font-weight:bold;text-color:#ff0000;width:60"><tr style="font-style:italic;background-color:#eeeeee"><td style="border:1,1,1,1;color:#00ff00;line-width:2">d1<br/>d2 <p style="font-family:Courier">d3</p></td></tr></table>`,
	`<table repeatheader="1"><tr><td rowspan="2" style="h-align:block;v-align:middle;font-point-size:18">abef xyxyxyxy</td><td style="v-align:bottom;font-weight:bold">x</td></tr><tr><td colspan="1" style="text-color:#ff0000"/></tr></table>`,
	`<table class="V"/>`,
	`<table style="text-color:#ff0000"><tr><td><box style="font-point-size:18;background-color:#ff0000">n</box></td><td><image style="width:3;height:3">i.png</image></td></tr></table>`,
	`<image style="width:5;height:5;offset-x:3" class="K">i.png</image>`,
	`<image style="font-weight:bold;text-color:#ff0000">missing.png</image>`,
	`<lf lines="1"/>`,
	`<setx x="40"/>`,
	`<grid style="text-color:#ff0000;font-weight:bold"><rows><gr>a b</gr></rows><parts><part area="a" style="font-point-size:30"><text style="text-color:#00ff00">g</text></part></parts></grid>`,
	`<font style="font-weight:bold;text-color:#ff0000;line-width:3;border:1,1,1,1;background-color:#00ffff;width:30;height:20;h-align:center;v-align:middle;padding:1,1,1,1;line-spacing:3;offset-x:2;column-width:9"/>`,
	`<font class="K"/>`,
	`<font style="font-family:Courier;font-point-size:10"/>`,
}

// fonts20: the fonts that the last ones set, and nothing else.
var fonts20 = []string{
	`<font style="font-weight:bold"/>`,
	`<font style="font-family:Times;font-point-size:15"/>`,
	`<font style="font-family:Courier;font-point-size:10"/>`,
}

var elem20 = []string{
	`<text>ee <p>ff</p></text>`,
	`<text style="font-point-size:14">ee <p style="font-weight:bold">ff</p> gg</text>`,
	`<text style="h-align:block;width:40">abcd <p>xyxyxyxy</p> abef</text>`,
	`<box>ee</box>`,
	`<box style="border:1,1,1,1;height:12;text-color:#0a0a0a">ee <p style="font-style:italic">ff</p></box>`,
	`<box/>`,
	`<box style="border:1,1,0,0;line-width:0">ee</box>`,
	`<table style="line-width:0;border:1,0,0,1"><tr><td>e1</td><td style="line-width:1.5">e2</td></tr></table>`,
	`<table><tr><td>e1</td><td style="border:1,1,1,1;v-align:bottom">e2</td></tr><tr><td colspan="2">e3<p style="text-color:#112233">e4</p></td></tr></table>`,
	`<table class="V"><tr class="V"><td class="K">e1</td><td>e2 e3</td></tr></table>`,
	`<image style="width:4;height:4">i.png</image>`,
	`<lf lines="2"/><text>after</text>`,
	`<table><tr><td><box style="border:1,1,1,1">n</box></td></tr></table>`,
	`<box style="background-color:#000000;border:1,1,1,1">ee</box>`,
	`<box style="background-color:#0000ff;color:#0000ff;text-color:#0000ff;border:1,1,1,1">ee</box>`,
	`<table><tr><td style="color:#ffffff;border:1,1,1,1;line-width:4">e1</td><td style="background-color:#000000">e2</td></tr></table>`,
}

// what precedes also follows
func init() { elem20 = append(elem20, pre20[:len(pre20)-len(fonts20)]...) }

func isolationSpaces(tier string) []core.Space {
	var out []core.Space
	np, ne := len(pre20), len(elem20)
	lmax := 2
	if tier == "thorough" {
		lmax = 3
	}
	modes := []string{"<newpage/>", `<setx x="20"/><sety y="250"/>`}
	xmls := func(i int64) (string, string, int) {
		g := core.Digits(i, ne, len(modes))
		pre := core.Seq(i/core.Prod(ne, len(modes)), np, 1, lmax)
		d := cascadePage
		d.Format = "a3"
		d.Style = c20Sheet
		with, fonts := "", ""
		for _, k := range pre {
			with += pre20[k]
			if f := k - (np - len(fonts20)); f >= 0 {
				fonts += fonts20[f]
			}
		}
		d.Body = with + modes[g[1]] + elem20[g[0]]
		a := d.XML()
		d.Body = fonts + modes[g[1]] + elem20[g[0]]
		return a, d.XML(), g[1]
	}
	mk := func(name string, n int64, real bool) {
		out = append(out, core.Space{Name: name, N: n,
			Run: func(i int64, r *core.Rec) {
				x, y, mode := xmls(i)
				var a, b []dl.Item
				var full *dl.Doc
				if real {
					full = lab.Real(x, getBlockHyph())
					a, b = full.Items, lab.Real(y, getBlockHyph()).Items
					r.Trans(len(a) + len(b))
				} else {
					doc := lab.Load(x)
					before := xdoc.Describe(doc).Dump(xdoc.DescribeJSON)
					d1, ops := lab.VirtDoc(doc, veng.Dyadic{}, getBlockHyph(), cascadeDir)
					full = d1
					a = d1.Items
					r.Trans(ops)
					if after := xdoc.Describe(doc).Dump(xdoc.DescribeJSON); after != before {
						r.Fail("document-altered", "rendering alters the document:\n%s\nbefore:\n%s\nafter:\n%s", x, before, after)
						return
					}
					d2, _ := lab.VirtDoc(doc, veng.Dyadic{}, getBlockHyph(), cascadeDir)
					if k, ok := eqItems(d2.Items, a); !ok || d2.Pages != d1.Pages {
						r.Fail("document-altered", "rendering the document a second time gives another result: item %d is %s, was %s\n%s", k, itemAt(d2.Items, k), itemAt(a, k), x)
						return
					}
					d3, ops3 := lab.VirtDoc(lab.Load(y), veng.Dyadic{}, getBlockHyph(), cascadeDir)
					b = d3.Items
					r.Trans(ops3)
				}
				r.Impl(2)
				r.Obs(full.Hash())
				if mode == 0 {
					keep := func(its []dl.Item) (out []dl.Item) {
						for _, it := range its {
							if it.Page == 2 {
								out = append(out, it)
							}
						}
						return
					}
					a, b = keep(a), keep(b)
				} else if len(a) >= len(b) {
					if full.Pages != 1 {
						r.Skip()
						return
					}
					a = a[len(a)-len(b):]
				}
				for k := range b {
					if k >= len(a) || !eqItem(a[k], b[k], 0.011) {
						r.Fail("influenced", "%s\ndraws\n  %s\ninstead of\n  %s\nas without the preceding elements (but with the fonts)\n%s", x, itemAt(a, k), itemAt(b, k), full.Dump())
						return
					}
				}
				if len(a) != len(b) {
					r.Fail("influenced", "%s\ndraws %d items instead of %d", x, len(a), len(b))
				}
			},
			Desc: func(i int64) string { x, _, _ := xmls(i); return x }})
	}
	n := core.Prod(ne, len(modes))
	mk("preceding", n*core.Seqs(np, 1, lmax), false)
	mk("preceding-real", n*core.Seqs(np, 1, lmax-1), true)

	// fonts carry over within their section only
	fonts := []string{`<font style="font-weight:bold"/>`, `<font class="K"/>`, `<font style="font-point-size:10"/>`}
	apply := []func(f *dl.Font){
		func(f *dl.Font) { f.Bold = true },
		func(f *dl.Font) { f.Family = "times"; f.Size = 15 },
		func(f *dl.Font) { f.Size = 10 },
	}
	words := []string{`<text>w</text>`, `<box>w</box>`, `<table><tr><td>w</td></tr></table>`, `<newpage/>`, `<text style="font-style:italic">w</text>`}
	// header and footer: up to 2 of fonts and words, body: up to 4
	hfn := len(fonts) + 3
	sec := func(ks []int, n int) (x string, fs []dl.Font, pages int) {
		cur := lab.DefFont()
		for _, k := range ks {
			if k < len(fonts) {
				x += fonts[k]
				apply[k](&cur)
				continue
			}
			k -= len(fonts)
			x += words[k]
			switch k {
			case 3:
				pages++
			case 4:
				c := cur
				c.Italic = true
				fs = append(fs, c)
			default:
				fs = append(fs, cur)
			}
		}
		return
	}
	bl := 3
	if tier == "thorough" {
		bl = 4
	}
	nh := core.Seqs(hfn, 0, 2)
	nb := core.Seqs(len(fonts)+len(words), 1, bl)
	secs := func(i int64) (h, f, b []int) {
		return core.Seq(i%nh, hfn, 0, 2), core.Seq(i/nh%nh, hfn, 0, 2), core.Seq(i/nh/nh, len(fonts)+len(words), 1, bl)
	}
	doc := func(i int64) string {
		h, f, b := secs(i)
		d := cascadePage
		d.Style = c20Sheet
		d.Header, _, _ = sec(h, 0)
		d.Footer, _, _ = sec(f, 0)
		d.Body, _, _ = sec(b, 0)
		d.Body += `<newpage/><text>end</text>`
		return d.XML()
	}
	out = append(out, core.Space{Name: "sections", N: nh * nh * nb,
		Run: func(i int64, r *core.Rec) {
			h, f, b := secs(i)
			_, hf, _ := sec(h, 0)
			_, ff, _ := sec(f, 0)
			b = append(append([]int{}, b...), len(fonts)+3, len(fonts))
			_, bf, pages := sec(b, 0)
			x := doc(i)
			d, ops := lab.Virt(x, veng.Dyadic{}, nil)
			r.Trans(ops)
			r.Impl(1)
			r.Obs(d.Hash())
			var gh, gf, gb []dl.Font
			for _, it := range d.Kind(dl.Text) {
				switch it.Phase {
				case 'h':
					gh = append(gh, it.Font)
				case 'f':
					gf = append(gf, it.Font)
				default:
					gb = append(gb, it.Font)
				}
			}
			rep := func(fs []dl.Font) (out []dl.Font) {
				for k := 0; k <= pages; k++ {
					out = append(out, fs...)
				}
				return
			}
			if a, b := fmt.Sprint(gh), fmt.Sprint(rep(hf)); a != b {
				r.Fail("header-fonts", "the header is drawn in %s instead of %s\n%s", a, b, x)
			}
			if a, b := fmt.Sprint(gf), fmt.Sprint(rep(ff)); a != b {
				r.Fail("footer-fonts", "the footer is drawn in %s instead of %s\n%s", a, b, x)
			}
			if a, b := fmt.Sprint(gb), fmt.Sprint(bf); a != b {
				r.Fail("body-fonts", "the body is drawn in %s instead of %s\n%s", a, b, x)
			}
		},
		Desc: doc})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C17", Rule: "every attribute x every way of setting it (own, classes, orders, both, unknown class) on every level of every nesting, pairs of attributes, all row and cell variants on small tables: drawn like the document with all attributes resolved by the reference and given directly; fonts, colours, fills, borders compared with the reference",
		Spaces: cascadeSpaces})
	core.Register(&core.Check{ID: "C20", Rule: "every sequence of preceding elements x following element: drawn as without them; rendering twice, description before and after; all distributions of font elements over header, footer and body",
		Spaces: isolationSpaces, Setup: cascadeSetup})
}

// wrappedSpace: texts over several lines, words of several styles in every order; every part of a word keeps the style of the word,
// in whatever line it comes. The letters tell which word a part is of.
func wrappedSpace(tier string) core.Space {
	type piece struct {
		xml, letters string
		f            func(f dl.Font) dl.Font
		c            *dl.RGB
	}
	pieces := []piece{
		{" abcdef ", "abcdef", nil, nil},
		{`<p style="text-color:#ff0000">xyxyxyxy</p>`, "xy", nil, &dl.RGB{255, 0, 0}},
		{`<p class="G">mnmnmn m</p>`, "mn", func(f dl.Font) dl.Font { f.Bold = true; return f }, &dl.RGB{0, 128, 1}},
		{`<p style="font-point-size:18;text-color:#0000fe">uv</p>`, "uv", sized(18), &dl.RGB{0, 0, 254}},
		{`<p style="font-style:italic">i ij</p>`, "ij", func(f dl.Font) dl.Font { f.Italic = true; return f }, nil},
		{`<br/>`, "", nil, nil},
		{`<p style="text-color:#00ff01"> </p>`, "", nil, nil},
	}
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	aligns := []string{"left", "right", "center", "block"}
	conts := []string{
		`<text style="h-align:%s;width:%g%s">%s</text>`,
		`<box style="h-align:%s;width:%g;line-width:0%s">%s</box>`,
		`<table style="width:60"><tr><td style="h-align:%s;column-width:%g%s">%s</td><td><p style="text-color:#123456">z</p></td></tr></table>`,
	}
	own := []string{"", ";text-color:#080706;font-family:courier"}
	widths := []float64{21, 46}
	rad := []int{len(aligns), len(conts), len(own), len(widths)}
	get := func(i int64) (string, []int) {
		g := core.Digits(i, rad...)
		var b strings.Builder
		for _, k := range core.Seq(i/core.Prod(rad...), len(pieces), 1, depth) {
			b.WriteString(pieces[k].xml)
		}
		d := cascadePage
		d.Style = "G{font-weight:bold;text-color:#008001}"
		d.Body = fmt.Sprintf(conts[g[1]], aligns[g[0]], widths[g[3]], own[g[2]], b.String()) + "<text>z</text>"
		return d.XML(), g
	}
	hy := lab.Hyph("b1c", "d1e", "y1x", "n1m")
	return core.Space{Name: "wrapped", N: core.Prod(rad...) * core.Seqs(len(pieces), 1, depth),
		Run: func(i int64, r *core.Rec) {
			x, g := get(i)
			d, ops := lab.Virt(x, veng.Dyadic{}, hy)
			r.Trans(ops)
			r.Impl(1)
			r.Obs(d.Hash())
			base, col := lab.DefFont(), dl.RGB{}
			if g[2] == 1 {
				base.Family, col = "courier", dl.RGB{8, 7, 6}
			}
			ok := map[string]bool{}
			for _, w := range d.Words(veng.Dyadic{}) {
				if w.S == "z" {
					continue
				}
				for _, p := range pieces {
					if p.letters == "" || !strings.ContainsAny(w.S, p.letters) {
						continue
					}
					f, c := base, col
					if p.f != nil {
						f = p.f(f)
					}
					if p.c != nil {
						c = *p.c
					}
					ok[p.letters] = true
					if w.Font != f || w.Color != c {
						r.Fail("text-style", "%q is drawn as %v, expected in %+v, colour %v\n%s\n%s", w.S, w, f, c, x, d.Dump())
						return
					}
				}
			}
			for _, k := range core.Seq(i/core.Prod(rad...), len(pieces), 1, depth) {
				if p := pieces[k]; p.letters != "" && !ok[p.letters] {
					r.Fail("text-lost", "%q is not drawn\n%s\n%s", p.letters, x, d.Dump())
					return
				}
			}
		},
		Desc: func(i int64) string { x, _ := get(i); return x }}
}
