package checks

import (
	"fmt"
	"strconv"
	"strings"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

// ---- C11: header and footer on every page, without influence on the body

type hfElem struct {
	xml   string
	words string // what is drawn once per page
}

func repeatWords(p string, n int, sep string) (string, string) {
	var s []string
	for k := 0; k < n; k++ {
		s = append(s, fmt.Sprintf("%s%d", p, k))
	}
	return strings.Join(s, sep), strings.Join(s, " ")
}

// hfElems: elements of a header or footer; all words start with p, all rectangles and lines are in the colour #010203.
func hfElems(p string) []hfElem {
	longX, longW := repeatWords(p+"n", 45, "<br/>")
	wrapX, wrapW := repeatWords(p+"k", 25, " ")
	col := ";color:#010203;background-color:#010203"
	return []hfElem{
		{`<text style="font-weight:bold;text-color:#ff0000;font-point-size:9">` + p + `a</text>`, p + "a"},
		{`<box style="border:1,1,1,1;line-width:0.5` + col + `">` + p + `b</box>`, p + "b"},
		{`<font style="font-family:Times;font-point-size:20;font-style:italic;text-color:#00ff00"/><text>` + p + `c</text>`, p + "c"},
		{`<table repeatheader="1" style="border:1,1,1,1` + col + `"><tr><td>` + p + `d</td><td style="h-align:right;font-weight:bold">` + p + `e</td></tr><tr><td colspan="2">` + p + `f</td></tr></table>`, p + "d " + p + "e " + p + "f"},
		{`<newpage/>` + `<text>` + p + `g</text>`, p + "g"},
		{`<sety y="140"/><setx x="80"/><text><p style="font-point-size:7;text-color:#0000ff">` + p + `h</p></text>`, p + "h"},
		{`<text style="h-align:block">` + longX + `</text>`, longW},
		{`<box style="height:400;line-width:3` + col + `">` + p + `i</box>`, p + "i"},
		{`<lf lines="30"/><box style="h-align:center` + col + `"><p style="font-decoration:underline">` + p + `j</p></box>`, p + "j"},
		{`<setx x="-20"/><sety y="-8"/><text style="width:20">` + wrapX + `</text>`, wrapW},
		{`<table style="width:30` + col + `"><tr style="height:80"><td>` + p + `l</td></tr><tr style="height:150"><td>` + p + `m</td></tr></table>`, p + "l " + p + "m"},
		{`<image>no-such-image.png</image>`, ""},
		{`<text>` + p + `o</text><setx x="37"/>`, p + "o"},
		{`<text>` + p + `p</text><setx x="-12"/><sety y="100"/>`, p + "p"},
		{`<text>` + p + `q</text><lf lines="-2"/><font style="font-weight:bold;text-color:#ff0000;line-width:4"/>`, p + "q"},
		{`<setx x="33"/><sety y="143"/><lf lines="2"/><text>` + p + `r</text>`, p + "r"},
	}
}

var bodyElems = []string{
	`<text>plain text</text>`,
	`<newpage/>`,
	`<text style="font-weight:bold;text-color:#123456;font-point-size:10">b1<br/>b2<br/>b3<br/>b4<br/>b5<br/>b6</text>`,
	`<box style="border:1,0,1,0;padding:1,1,1,1;height:20;color:#aa0000;line-width:0.3">box <p style="font-style:italic">run</p></box>`,
	`<table repeatheader="1" style="border:0,1,0,1"><tr style="font-weight:bold"><td>h1</td><td>h2</td></tr><tr><td style="height:20;text-color:#00aa00">c1</td><td>c2</td></tr><tr><td style="height:20">c3</td><td style="v-align:bottom">c4</td></tr></table>`,
	`<font style="font-family:Courier;font-point-size:8"/>`,
	`<lf lines="3"/>`,
	`<text style="h-align:block;width:25">w0 w1 w2 w3 <p style="font-point-size:15;text-color:#ff00ff">w4 w5 w6 w7</p> w8 w9</text>`,
	`<sety y="45"/>`,
	`<setx x="70"/><text style="width:20">q1 <p style="font-weight:bold">q2<br/></p> q3 q4 q5 q6 q7 q8</text>`,
	`<box>overflow{np}</box>`,
	`<font style="font-family:Times;text-color:#777777"/>`,
}

func eqItems(a, b []dl.Item) (int, bool) {
	for k := range a {
		if k >= len(b) || !eqItem(a[k], b[k], 1e-9) {
			return k, false
		}
	}
	return len(a), len(a) == len(b)
}

func eqItem(a, b dl.Item, tol float64) bool {
	return a.Kind == b.Kind && a.Page == b.Page && a.S == b.S && a.Font == b.Font && a.Color == b.Color && a.LW == b.LW &&
		lab.Near(a.X, b.X, tol) && lab.Near(a.Y, b.Y, tol) && lab.Near(a.W, b.W, tol) && lab.Near(a.H, b.H, tol)
}

func itemAt(a []dl.Item, k int) string {
	if k < len(a) {
		return a[k].String()
	}
	return "(nothing)"
}

func headerSpaces(tier string) []core.Space {
	hs, fs := hfElems("H"), hfElems("F")
	var out []core.Space
	type hfCase struct {
		head, foot, body []int
	}
	xml := func(c hfCase, with bool) string {
		d := flowPage
		if with {
			for _, k := range c.head {
				d.Header += hs[k].xml
			}
			for _, k := range c.foot {
				d.Footer += fs[k].xml
			}
		}
		for _, k := range c.body {
			d.Body += bodyElems[k]
		}
		return d.XML()
	}
	isHF := func(it dl.Item) byte {
		switch it.Kind {
		case dl.Text:
			s := strings.TrimSpace(it.S)
			if strings.HasPrefix(s, "H") {
				return 'h'
			}
			if strings.HasPrefix(s, "F") {
				return 'f'
			}
		case dl.Rect, dl.Line:
			if it.Color == (dl.RGB{1, 2, 3}) {
				return '?'
			}
		}
		return 'b'
	}
	run := func(c hfCase, real bool, r *core.Rec) {
		x, x0 := xml(c, true), xml(c, false)
		var d, d0 *dl.Doc
		if real {
			d, d0 = lab.Real(x, nil), lab.Real(x0, nil)
			r.Trans(len(d.Items) + len(d0.Items))
		} else {
			var o1, o2 int
			d, o1 = lab.Virt(x, veng.Dyadic{}, nil)
			d0, o2 = lab.Virt(x0, veng.Dyadic{}, nil)
			r.Trans(o1 + o2)
		}
		r.Impl(2)
		r.Obs(d.Hash())
		fail := func(sig, s string, a ...interface{}) {
			r.Fail(sig, "%s\n%s\n%s\nwithout header and footer:\n%s", fmt.Sprintf(s, a...), x, d.Dump(), d0.Dump())
		}
		if d.Pages != d0.Pages {
			fail("page-count", "%d pages, without header and footer %d", d.Pages, d0.Pages)
			return
		}
		body := func(d *dl.Doc) []dl.Item {
			return d.Filter(func(it dl.Item) bool { return isHF(it) == 'b' })
		}
		b1, b0 := body(d), body(d0)
		if k, ok := eqItems(b1, b0); !ok {
			fail("body-changed", "the body draws %s, without header and footer %s", itemAt(b1, k), itemAt(b0, k))
			return
		}
		// once per page
		for _, w := range []struct {
			p  byte
			is []int
			es []hfElem
			n  string
		}{{'h', c.head, hs, "header"}, {'f', c.foot, fs, "footer"}} {
			var want []string
			for _, k := range w.is {
				if w.es[k].words != "" {
					want = append(want, w.es[k].words)
				}
			}
			ws := strings.Join(want, " ")
			var ref []dl.Item
			var refLook []string
			for p := 1; p <= d.Pages; p++ {
				var got []string
				var its []dl.Item
				var look []string // every word's font and colour
				for _, it := range d.Items {
					if it.Page == p && it.Kind == dl.Text && isHF(it) == w.p {
						got = append(got, strings.Fields(it.S)...)
						for range strings.Fields(it.S) {
							look = append(look, fmt.Sprint(it.Font, it.Color))
						}
						it.Page = 0
						its = append(its, it)
					}
				}
				if gs := strings.Join(got, " "); gs != ws {
					sig := w.n + "-content"
					fail(sig, "page %d shows %q as %s instead of %q", p, gs, w.n, ws)
					return
				}
				if p == 1 {
					ref, refLook = its, look
				} else if ls, rs := strings.Join(look, "|"), strings.Join(refLook, "|"); ls != rs {
					fail(w.n+"-look", "the %s of page %d is drawn in %s, that of page 1 in %s", w.n, p, ls, rs)
					return
				} else if w.p == 'h' || positioned(c.foot, fs) {
					if k, ok := eqItems(its, ref); !ok {
						fail(w.n+"-differs", "the %s of page %d draws %s, that of page 1 %s", w.n, p, itemAt(its, k), itemAt(ref, k))
						return
					}
				}
			}
		}
		// frames of header and footer: same number on every page
		n1 := 0
		for p := 1; p <= d.Pages; p++ {
			n := 0
			for _, it := range d.Items {
				if it.Page == p && isHF(it) == '?' {
					n++
				}
			}
			if p == 1 {
				n1 = n
			} else if n != n1 {
				fail("frames", "page %d has %d painted items of header and footer, page 1 %d", p, n, n1)
				return
			}
		}
	}
	mk := func(name string, bd, hd, fd int, real bool) {
		nb, nh, nf := core.Seqs(len(bodyElems), 0, bd), core.Seqs(len(hs), 0, hd), core.Seqs(len(fs), 0, fd)
		get := func(i int64) hfCase {
			return hfCase{body: core.Seq(i/(nh*nf), len(bodyElems), 0, bd), head: core.Seq(i%nh, len(hs), 0, hd), foot: core.Seq(i/nh%nf, len(fs), 0, fd)}
		}
		out = append(out, core.Space{Name: name, N: nb * nh * nf,
			Run:  func(i int64, r *core.Rec) { run(get(i), real, r) },
			Desc: func(i int64) string { return xml(get(i), true) },
		})
	}
	if tier == "thorough" {
		mk("body2-header2-footer1", 2, 2, 1, false)
		mk("body4-header1", 4, 1, 0, false)
		mk("body3-footer2", 3, 0, 2, false)
		mk("body3-header1-footer1", 3, 1, 1, false)
		mk("real", 2, 1, 1, true)
	} else {
		mk("body1-header2-footer1", 1, 2, 1, false)
		mk("body1-header1-footer2", 1, 1, 2, false)
		mk("body3-header1", 3, 1, 0, false)
		mk("body3-footer1", 3, 0, 1, false)
		mk("body2-header1-footer1", 2, 1, 1, false)
		mk("real", 2, 1, 0, true)
		mk("real-footer", 2, 0, 1, true)
	}
	return out
}

// positioned: the place of a footer depends on the end of the body unless it begins with a position of its own.
func positioned(foot []int, fs []hfElem) bool {
	return len(foot) > 0 && (strings.HasPrefix(fs[foot[0]].xml, "<sety") || strings.HasPrefix(fs[foot[0]].xml, `<setx x="33"/>`))
}

// ---- C12: page numbers

func pageNumberSpaces(tier string) []core.Space {
	// strings: sequences of pieces, alone and together
	pieces := []string{"{cp}", "{np}", "a", "{", "}", "cp", "{cp", "np}", "1", "{CP}", "{ cp }", "{np }"}
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	var out []core.Space
	// containers in header, footer and body, alignments, ways of writing the text
	conts := []string{"h<text%s>%s</text>", "h<box%s>%s</box>", "f<box%s>%s</box>", "f<table><tr><td%s>%s</td></tr></table>", "b<box%s>%s</box>", "b<table><tr><td%s>%s</td></tr></table>", "b<text%s>%s</text>"}
	runs := []string{"%s", "<p>%s</p>", `<p style="font-weight:bold">%s</p>`}
	aligns := []string{"left", "right", "center", "block"}
	places := len(conts) * len(runs) * len(aligns)
	// every piece sequence in every place on page 1..3 of 3
	get := func(i int64, depth int) (s string, place int) {
		g := core.Digits(i, places)
		for _, k := range core.Seq(i/int64(places), len(pieces), 1, depth) {
			s += pieces[k]
		}
		return s, g[0]
	}
	subst := func(s string, cp, np int) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "{cp}", fmt.Sprint(cp)), "{np}", fmt.Sprint(np))
	}
	doc := func(s string, place int) (string, int) {
		d := narrowPage
		g := core.Digits(int64(place), len(conts), len(runs), len(aligns))
		c := conts[g[0]]
		e := fmt.Sprintf(c[1:], ` style="h-align:`+aligns[g[2]]+`"`, fmt.Sprintf(runs[g[1]], s))
		switch c[0] {
		case 'h':
			d.Header = e
			d.Body = "<newpage/><newpage/>"
		case 'f':
			d.Footer = `<sety y="190"/>` + e
			d.Body = "<newpage/><newpage/>"
		default:
			d.Body = e + "<newpage/>" + e + "<newpage/>" + e
		}
		return d.XML(), 3
	}
	judge := func(x string, d *dl.Doc, pages int, want func(p int) []string, r *core.Rec, m dl.Metrics) {
		if d.Pages != pages {
			r.Fail("page-count", "%d pages instead of %d\n%s", d.Pages, pages, x)
			return
		}
		for p := 1; p <= pages; p++ {
			var got []string
			for _, it := range d.Items {
				if it.Kind == dl.Text && it.Page == p {
					got = append(got, strings.Fields(it.S)...)
				}
			}
			w := want(p)
			if strings.Join(got, " ") != strings.Join(w, " ") {
				r.Fail("page-number", "page %d of %d shows %q instead of %q\n%s", p, pages, got, w, x)
				return
			}
		}
	}
	strs := func(name string, real bool, depth int) core.Space {
		n := core.Seqs(len(pieces), 1, depth)
		return core.Space{Name: name, N: n * int64(places),
			Run: func(i int64, r *core.Rec) {
				s, pl := get(i, depth)
				x, pages := doc(s, pl)
				var d *dl.Doc
				if real {
					d = lab.Real(x, nil)
					r.Trans(len(d.Items))
				} else {
					var ops int
					d, ops = lab.Virt(x, veng.Dyadic{}, nil)
					r.Trans(ops)
				}
				r.Impl(1)
				r.Obs(d.Hash())
				judge(x, d, pages, func(p int) []string { return strings.Fields(subst(s, p, pages)) }, r, nil)
			},
			Desc: func(i int64) string { s, pl := get(i, depth); x, _ := doc(s, pl); return x },
		}
	}
	out = append(out, strs("pieces", false, depth), strs("pieces-real", true, depth-1))
	// any number of aliases in one text
	units := []string{"{cp}", "{np}", "{cp}-{np}", "{cp}{cp}", "a{np}{cp}"}
	getMany := func(i int64) (string, int) {
		g := core.Digits(i, places, 18, len(units), 2)
		var ss []string
		for k := 0; k <= g[1]; k++ {
			ss = append(ss, units[(g[2]+k*g[3])%len(units)])
		}
		return strings.Join(ss, " "), g[0]
	}
	out = append(out, core.Space{Name: "repeated", N: core.Prod(places, 18, len(units), 2),
		Run: func(i int64, r *core.Rec) {
			s, pl := getMany(i)
			x, pages := doc(s, pl)
			d, ops := lab.Virt(x, veng.Dyadic{}, nil)
			r.Trans(ops)
			r.Impl(1)
			r.Obs(d.Hash())
			judge(x, d, pages, func(p int) []string { return strings.Fields(subst(s, p, pages)) }, r, nil)
		},
		Desc: func(i int64) string { s, pl := getMany(i); x, _ := doc(s, pl); return x },
	})
	// every number of pages, however they come about
	upTo := func(n int, more ...int) (out []int) {
		for k := 1; k <= n; k++ {
			out = append(out, k)
		}
		return append(out, more...)
	}
	counts, realCounts := upTo(130, 199, 200, 255, 256, 257, 301), upTo(24, 99, 100, 101, 128)
	if tier == "thorough" {
		counts, realCounts = upTo(400, 511, 512, 513, 999, 1000, 1001), upTo(130, 255, 256, 257)
	}
	causes := []string{"newpage", "box", "text", "table", "mixed"}
	many := func(i int64, per int, counts []int) (string, int, func(p int) []string) {
		g := core.Digits(i, len(counts), len(causes))
		pages := counts[g[0]]
		d := flowPage // 50 mm
		d.Header = "<text>H{cp}/{np}</text>"
		d.Footer = `<sety y="150"/><setx x="60"/><table><tr><td>F{cp}</td><td style="h-align:right">{np}F</td></tr></table>`
		var b strings.Builder
		var exp [][]string
		for p := 0; p < pages; p++ {
			c := g[1]
			if c == 4 {
				c = p % 4
			}
			exp = append(exp, nil)
			switch {
			case c == 0 || c == 2:
				if p > 0 {
					b.WriteString("<newpage/>")
				}
				fmt.Fprintf(&b, `<box style="height:30">n%d,{cp},{np}</box>`, p)
				exp[p] = append(exp[p], fmt.Sprintf("n%d,%d,%d", p, p+1, pages))
			case c == 1:
				if p > 0 && g[1] == 4 {
					b.WriteString("<newpage/>")
				}
				fmt.Fprintf(&b, `<box style="height:45">b{cp}<p>,{np}</p></box>`)
				exp[p] = append(exp[p], fmt.Sprintf("b%d", p+1), fmt.Sprintf(",%d", pages))
			case c == 3:
				if p > 0 && g[1] == 4 {
					b.WriteString("<newpage/>")
				}
				fmt.Fprintf(&b, `<table style="height:40"><tr><td>t{np}</td><td>x</td></tr></table>`)
				exp[p] = append(exp[p], fmt.Sprintf("t%d", pages), "x")
			}
		}
		d.Body = b.String()
		if g[1] == 2 {
			// one text over all pages
			d.Body = ""
			var s []string
			exp = make([][]string, pages)
			for k := 0; k < pages*per; k++ {
				s = append(s, fmt.Sprintf("l%d,{cp},{np}", k))
				exp[k/per] = append(exp[k/per], fmt.Sprintf("l%d,1,%d", k, pages))
			}
			d.Body = "<text>" + strings.Join(s, "<br/>") + "</text>"
		}
		return d.XML(), pages, func(p int) []string {
			out := []string{fmt.Sprintf("H%d/%d", p, pages)}
			out = append(out, exp[p-1]...)
			return append(out, fmt.Sprintf("F%d", p), fmt.Sprintf("%dF", pages))
		}
	}
	mk := func(name string, real bool) core.Space {
		per := 5 // lines per page
		counts := counts
		if real {
			per = 8
			counts = realCounts
		}
		return core.Space{Name: name, N: core.Prod(len(counts), len(causes)),
			Run: func(i int64, r *core.Rec) {
				x, pages, want := many(i, per, counts)
				var d *dl.Doc
				if real {
					d = lab.Real(x, nil)
					r.Trans(len(d.Items))
				} else {
					var ops int
					d, ops = lab.Virt(x, veng.Dyadic{}, nil)
					r.Trans(ops)
				}
				r.Impl(1)
				r.Obs(d.Hash())
				judge(x, d, pages, want, r, nil)
			},
			Desc: func(i int64) string { x, _, _ := many(i, per, counts); return x },
		}
	}
	return append(out, mk("page-counts", false), mk("page-counts-real", true), registeredNumbers(tier), pageEndSpace(tier))
}

// registeredNumbers: page numbers in fonts with a file, of which the PDF contains the characters used only.
func registeredNumbers(tier string) core.Space {
	counts := 24
	if tier == "thorough" {
		counts = 120
	}
	texts := []string{"{np}", "of {np}", "{cp}/{np}", "{cp}"}
	places := []string{"header", "footer", "body", "last"}
	styles := []string{"", "font-weight:bold", "font-style:italic", "font-weight:bold;font-style:italic"}
	rad := []int{counts, len(texts), len(places), len(styles), 2}
	get := func(i int64) (x, want string, pages int) {
		g := core.Digits(i, rad...)
		pages = g[0] + 1
		d := lab.A5(10, 20, 10, 20)
		d.Style = "k{font-family:sans;" + styles[g[3]] + "}"
		el := `<text class="k">` + texts[g[1]] + `</text>`
		if g[4] == 1 {
			el = `<table><tr><td><p class="k">` + texts[g[1]] + `</p></td></tr></table>`
		}
		body := strings.Repeat("<newpage/>", pages-1)
		switch places[g[2]] {
		case "header":
			d.Header = el
		case "footer":
			d.Footer = `<sety y="195"/>` + el
		case "body":
			body = el + body
		case "last":
			body += el
		}
		d.Body = body
		return d.XML(), texts[g[1]], pages
	}
	return core.Space{Name: "registered-fonts", N: core.Prod(rad...),
		Run: func(i int64, r *core.Rec) {
			x, want, pages := get(i)
			b, err := lab.PDF(lab.Load(x), regCase{mask: 15, name: "sans"}.registry(), nil, ".")
			r.Impl(1)
			if err != nil {
				r.Fail("error", "%v\n%s", err, x)
				return
			}
			f, err := pdfread.Parse(b)
			if err != nil {
				r.Fail("malformed", "%v\n%s", err, x)
				return
			}
			r.Trans(len(f.Doc.Items))
			r.Obs(f.Doc.Hash())
			if f.Doc.Pages != pages {
				r.Fail("page-count", "%d pages instead of %d\n%s", f.Doc.Pages, pages, x)
				return
			}
			got := map[int]string{}
			for _, it := range f.Doc.Kind(dl.Text) {
				got[it.Page] += it.S
			}
			g := core.Digits(i, rad...)
			for p := 1; p <= pages; p++ {
				w := strings.ReplaceAll(strings.ReplaceAll(want, "{cp}", fmt.Sprint(p)), "{np}", fmt.Sprint(pages))
				if places[g[2]] == "body" && p > 1 || places[g[2]] == "last" && p < pages {
					w = ""
				}
				if strings.TrimSpace(got[p]) != w {
					r.Fail("page-number", "page %d of %d shows %q instead of %q\n%s", p, pages, got[p], w, x)
					return
				}
			}
			if len(f.NoGlyph) > 0 {
				r.Fail("no-glyph", "%q is shown in a font embedded without the characters %q\n%s", want, string(f.NoGlyph), x)
			}
		},
		Desc: func(i int64) string { x, _, _ := get(i); return x }}
}

// pageEndSpace: elements with page numbers at the end of a page: in boxes and cells each number is that of the page it is
// on, in a text that of the page with the first word. (A text beginning with line breaks starts where these are.)
func pageEndSpace(tier string) core.Space {
	pieces := []string{" {cp} ", " ab ", `<p style="font-point-size:18">{cp}</p>`, `<p style="font-weight:bold">c{cp} {cp}</p>`, "<br/>", "<p> </p>"}
	elems := []string{
		`<text style="h-align:@;width:%g">%s</text>`,
		`<box style="h-align:@;width:%g;padding:0,1,0,1">%s</box>`,
		`<table style="width:%g"><tr><td style="h-align:@">%s</td></tr></table>`,
		`<table style="width:%g"><tr><td>ab</td><td></td></tr><tr><td style="h-align:@">%s</td><td>ab {cp}</td></tr></table>`,
		`<table style="width:%g" repeatheader="1"><tr><td style="h-align:@">%s</td></tr><tr><td style="height:9">ab</td></tr><tr><td>{cp}</td></tr><tr><td rowspan="2">{cp} {cp}</td></tr><tr/></table>`,
	}
	aligns := []string{"left", "center", "block"}
	widths := []float64{66, 21}
	before := []int{0, 9}
	ys, step, depth := 8, 2.6, 3
	if tier == "thorough" {
		before = []int{0, 8, 9, 98}
		ys, step, depth = 40, 0.53, 4
	}
	rad := []int{len(elems), len(aligns), len(widths), len(before), ys, 2}
	get := func(i int64) (string, []int, string) {
		g := core.Digits(i, rad...)
		c := ""
		for _, k := range core.Seq(i/core.Prod(rad...), len(pieces), 1, depth) {
			c += pieces[k]
		}
		d := narrowPage
		d.Body = strings.Repeat("<newpage/>", before[g[3]]) + fmt.Sprintf(`<sety y="%g"/>`, 181+step*float64(g[4])) + fmt.Sprintf(strings.Replace(elems[g[0]], "@", aligns[g[1]], 1), widths[g[2]], c)
		if g[5] == 1 {
			d.Header, d.Footer = `<text style="font-point-size:16">head</text>`, `<sety y="203"/><text style="h-align:block">foot</text>`
		}
		return d.XML(), g, c
	}
	return core.Space{Name: "page-ends", N: core.Prod(rad...) * core.Seqs(len(pieces), 1, depth),
		Run: func(i int64, r *core.Rec) {
			x, g, c := get(i)
			d, ops := lab.Virt(x, veng.Dyadic{}, nil)
			r.Trans(ops)
			r.Impl(1)
			r.Obs(d.Hash())
			lo, hi := 0, 0
			for _, w := range d.Words(veng.Dyadic{}) {
				if w.S == "head" || w.S == "foot" {
					continue
				}
				if hi == 0 {
					lo, hi = w.Page, w.Page
					if t := strings.ReplaceAll(c, "<p> </p>", ""); strings.HasPrefix(t, "<br/>") {
						lo = before[g[3]] + 1
					}
				}
				if g[0] > 0 {
					lo, hi = w.Page, w.Page
				}
				s := strings.TrimPrefix(w.S, "c")
				if s == "" || s[0] < '0' || s[0] > '9' {
					continue
				}
				if n, err := strconv.Atoi(s); err != nil || n < lo || n > hi {
					r.Fail("page-number", "%v is shown where the page is %d\n%s\n%s", w, hi, x, d.Dump())
					return
				}
			}
		},
		Desc: func(i int64) string { x, _, _ := get(i); return x }}
}

func init() {
	core.Register(&core.Check{ID: "C11", Rule: "every sequence of body elements x header elements x footer elements up to a length; body and page count are compared with the same document without header and footer, and header and footer must be on every page once",
		Spaces: headerSpaces})
	core.Register(&core.Check{ID: "C12", Rule: "every sequence of page number aliases, parts of them and other text in header, footer, box, cell and text; every number of pages for every cause of page changes",
		Spaces: pageNumberSpaces, Setup: fontSetup})
}
