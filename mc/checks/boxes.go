package checks

import (
	"fmt"
	"math"
	"strings"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/veng"
)

const (
	pgL, pgT, pgR, pgB = 60.0, 10.0, 20.0, 10.0
)

// printW is the printable width of a document.
func printW(d lab.D) float64 { return pageSize(d)[0] - d.L - d.R - 2 }

// pageSize in millimetres as the virtual engine has it.
func pageSize(d lab.D) [2]float64 {
	s := map[string][2]float64{"a3": {297, 420}, "a4": {210, 297}, "a5": {148, 210}, "letter": {216, 280}, "legal": {216, 356}}[d.Format]
	if d.Orient == "landscape" {
		return [2]float64{s[1], s[0]}
	}
	return s
}

type boxCase struct {
	align      string
	width      float64 // <0: not given
	height     float64 // <0: not given
	pad        [4]float64
	spacing    float64
	offX, offY float64
	x          float64 // >0: setx before the box
	syms       []sym
	where      int // 0 body, 1 header, 2 footer
	follow     int // 0 box, 1 text, 2 table
	size       float64
	real       bool
}

func (c *boxCase) style() string {
	s := fmt.Sprintf("line-width:0;h-align:%s;padding:%g,%g,%g,%g", c.align, c.pad[0], c.pad[1], c.pad[2], c.pad[3])
	if c.width >= 0 {
		s += fmt.Sprintf(";width:%g", c.width)
	}
	if c.height >= 0 {
		s += fmt.Sprintf(";height:%g", c.height)
	}
	if c.spacing != 0 {
		s += fmt.Sprintf(";line-spacing:%g", c.spacing)
	}
	if c.offX != 0 || c.offY != 0 {
		s += fmt.Sprintf(";offset-x:%g;offset-y:%g", c.offX, c.offY)
	}
	if c.size != 0 {
		s += fmt.Sprintf(";font-point-size:%g", c.size)
	}
	return s
}

func (c *boxCase) xml() string {
	d := narrowPage
	var b strings.Builder
	if c.real {
		b.WriteString(`<font style="font-family:courier"/>`)
	}
	y := 10.0
	switch c.where {
	case 1:
		y = 10
	case 2:
		y = 150
	}
	x := d.L
	if c.x > 0 {
		x = c.x
	}
	fmt.Fprintf(&b, `<setx x="%g"/><sety y="%g"/>`, x, y)
	fmt.Fprintf(&b, `<box style="%s">%s</box>`, c.style(), symXML(c.syms))
	switch c.follow {
	case 0:
		b.WriteString(`<box style="line-width:0">END</box>`)
	case 1:
		b.WriteString(`<text>END</text>`)
	case 2:
		b.WriteString(`<table><tr><td style="line-width:0">END</td></tr></table>`)
	}
	switch c.where {
	case 0:
		d.Body = b.String()
	case 1:
		d.Header = b.String()
		d.Body = "<text>body</text>"
	case 2:
		d.Footer = b.String()
		d.Body = "<text>body</text>"
	}
	return d.XML()
}

func (c *boxCase) run(r *core.Rec) {
	x := c.xml()
	var d *dl.Doc
	var m dl.Metrics = veng.Dyadic{}
	base := lab.DefFont()
	tol := 1e-6
	pw := printW(narrowPage)
	if c.real {
		d = lab.Real(x, getBlockHyph())
		r.Trans(len(d.Items))
		m = veng.Courier{}
		base.Family = "courier"
		tol = 0.03
		pw = 420.94/veng.K - pgL - pgR - 2
	} else {
		var ops int
		d, ops = lab.Virt(x, m, getBlockHyph())
		r.Trans(ops)
	}
	r.Impl(1)
	r.Obs(d.Hash())
	if c.size != 0 {
		base.Size = c.size
	}
	fail := func(sig, f string, a ...interface{}) {
		r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(f, a...), x, d.Dump())
	}
	if d.Pages != 1 {
		fail("pages", "%d pages", d.Pages)
		return
	}
	ph := []byte{'b', 'h', 'f'}[c.where]
	var rects, words []dl.Item
	for _, it := range d.Items {
		if it.Kind == dl.Rect && (it.Phase == ph || it.Phase == 0) {
			rects = append(rects, it)
		}
	}
	var end *dl.Item
	for _, w := range d.Words(m) {
		if w.Phase != 0 && w.Phase != ph || w.S == "body" {
			continue
		}
		if w.S == "END" {
			w := w
			end = &w
			continue
		}
		words = append(words, w)
	}
	if len(rects) == 0 {
		fail("no-frame", "the box is not painted")
		return
	}
	if end == nil {
		fail("end-lost", "what follows the box is not drawn")
		return
	}
	fr := rects[0]
	x0, y0 := pgL, 10.0
	if c.x > 0 {
		x0 = c.x
	}
	if c.where == 2 {
		y0 = 150
	}
	x0 += c.offX
	y0 += c.offY
	w := pw
	if c.width >= 0 && c.width < pw {
		w = c.width
	}
	if x0+w > pgL+pw+tol {
		r.Skip() // the box does not fit where it is positioned
		return
	}
	if !lab.Near(fr.X, x0, tol) || !lab.Near(fr.Y, y0, tol) {
		fail("frame-position", "the frame is at (%.4g,%.4g) instead of (%.4g,%.4g)", fr.X, fr.Y, x0, y0)
		return
	}
	if !lab.Near(fr.W, w, tol) {
		fail("frame-width", "the frame is %.4g wide instead of %.4g", fr.W, w)
		return
	}
	// height
	toks := symToks(c.syms, base)
	for _, t := range toks {
		tw := dl.Width(m, t.F, t.W)
		if (c.align == "right" || c.align == "center") && x0+w-c.pad[2]-tw-2*m.CharWidth(t.F, ' ') < 0 {
			r.Skip() // it would begin left of the sheet
			return
		}
		if tw > pw-math.Max(0, x0+c.pad[0]-pgL) {
			r.Skip() // continued on the next line by the engine
			return
		}
	}
	lead, trail, nwords := 0, 0, 0
	for _, t := range toks {
		if !t.BR {
			nwords++
			trail = 0
		} else if nwords == 0 {
			lead++
		} else {
			trail++
		}
	}
	sp := c.spacing
	if sp == 0 {
		sp = 1.5
	}
	inH := fr.H - c.pad[1] - c.pad[3]
	top := y0 + c.pad[1]
	hb := m.Height(base)
	wantH := -1.0
	lines := dl.Lines(words, tol)
	lineH := func(l dl.TextLine) float64 {
		h := 0.0
		for _, wd := range l.Words {
			h = math.Max(h, m.Height(wd.Font))
		}
		return h
	}
	switch {
	case c.height > 0:
		wantH = c.height
	case len(c.syms) == 0:
		wantH = hb
	case nwords == 0 && lead > 0:
		wantH = float64(lead-1)*hb*sp + hb
	case nwords > 0 && len(lines) > 0:
		last := lines[len(lines)-1]
		h := lineH(last)
		wantH = last.Y - top + h
		if trail >= 2 {
			if h == hb {
				wantH = last.Y - top + float64(trail-1)*hb*sp + hb
			} else {
				wantH = -1
			}
		}
	}
	if wantH >= 0 && !lab.Near(inH, wantH, tol*4) {
		fail("frame-height", "the frame is %.4g high instead of %.4g", fr.H, wantH+c.pad[1]+c.pad[3])
		return
	}
	if len(lines) > 0 {
		if want := top + float64(lead)*hb*sp; !lab.Near(lines[0].Y, want, tol*4) {
			fail("text-top", "the first line is at y=%.4g instead of %.4g", lines[0].Y, want)
			return
		}
	}
	area := w - c.pad[0] - c.pad[2]
	for _, l := range lines {
		slack := tol
		if c.align == "right" || c.align == "center" {
			slack += m.CharWidth(l.Words[0].Font, ' ') // a blank of width is kept free
		}
		if l.Words[0].X < x0+c.pad[0]-slack && l.Right()-l.Left() <= area+tol {
			fail("text-left-of-frame", "line %q starts at x=%.4g, left of the frame's inside (%.4g)", l, l.Left(), x0+c.pad[0])
			return
		}
		if len(l.Words) > 1 && l.Right() > x0+w-c.pad[2]+tol || l.Right()-l.Left() <= area+tol && l.Right() > x0+w-c.pad[2]+tol {
			fail("text-right-of-frame", "line %q ends at x=%.4g, right of the frame's inside (%.4g)", l, l.Right(), x0+w-c.pad[2])
			return
		}
		if c.height <= 0 && (l.Y < top-tol || l.Y+lineH(l) > fr.Y+fr.H-c.pad[3]+tol*4) {
			fail("text-outside-frame", "line %q at y=%.4g..%.4g is not inside the frame (%.4g..%.4g)", l, l.Y, l.Y+lineH(l), top, fr.Y+fr.H-c.pad[3])
			return
		}
	}
	// what follows
	ex, ey := end.X, end.Y
	if c.follow != 1 {
		if len(rects) < 2 {
			fail("end-lost", "the element behind the box is not painted")
			return
		}
		ex, ey = rects[1].X, rects[1].Y
	}
	if !lab.Near(ex, pgL, tol) || !lab.Near(ey, fr.Y+fr.H, tol*2) {
		fail("follower", "what follows is at (%.4g,%.4g) instead of (%.4g,%.4g)", ex, ey, pgL, fr.Y+fr.H)
	}
}

func boxSpaces(tier string) []core.Space {
	depth := 2
	if tier == "thorough" {
		depth = 4
	}
	aligns := []string{"left", "right", "center", "block"}
	widths := []float64{-1, 0, 0.5, 14, 30.5, 66, 100}
	heights := []float64{-1, 0.75, 33.25}
	pads := [][4]float64{{0, 0, 0, 0}, {1, 2, 3, 4}, {2.5, 0, 0, 0.5}}
	spacings := []float64{0, 1, 2.25}
	offs := [][2]float64{{0, 0}, {3, 2.5}, {-4, 0}}
	var out []core.Space
	syms := blockSyms
	mk := func(name string, depth int, real bool, wheres []int, sizes []float64, xs []float64) {
		syms, widths, heights, pads, spacings, offs := syms, widths, heights, pads, spacings, offs
		n := core.Seqs(len(syms), 0, depth)
		rad := []int{len(aligns), len(widths), len(heights), len(pads), len(spacings), len(offs), len(wheres), 3, len(sizes), len(xs)}
		get := func(i int64) *boxCase {
			g := core.Digits(i, rad...)
			c := &boxCase{align: aligns[g[0]], width: widths[g[1]], height: heights[g[2]], pad: pads[g[3]], spacing: spacings[g[4]], offX: offs[g[5]][0], offY: offs[g[5]][1], where: wheres[g[6]], follow: g[7], size: sizes[g[8]], x: xs[g[9]], real: real}
			for _, k := range core.Seq(i/core.Prod(rad...), len(syms), 0, depth) {
				c.syms = append(c.syms, syms[k])
			}
			return c
		}
		out = append(out, core.Space{Name: name, N: n * core.Prod(rad...),
			Run:  func(i int64, r *core.Rec) { get(i).run(r) },
			Desc: func(i int64) string { return get(i).xml() },
		})
	}
	mk("boxes", depth, false, []int{0}, []float64{0}, []float64{0})
	mk("boxes-everywhere", 1, false, []int{0, 1, 2}, []float64{0, 20}, []float64{0, 62.5})
	heights = heights[:2]
	widths = []float64{-1, 30}
	spacings = spacings[:2]
	offs = offs[:2]
	pads = pads[:2]
	mk("boxes-deep", depth+1, false, []int{0}, []float64{0}, []float64{0})
	syms = alikeSyms
	mk("boxes-alike", depth+1, false, []int{0}, []float64{0}, []float64{0})
	syms = blockSyms
	if tier == "thorough" {
		mk("boxes-real", 2, true, []int{0, 1}, []float64{0, 20}, []float64{0, 62})
	} else {
		mk("boxes-real", 1, true, []int{0, 1}, []float64{0, 20}, []float64{0})
	}
	return append(out, boxPageSpace(tier))
}

// boxPageSpace: boxes with the page number, moved to a page with a longer number: as with that number
// written out.
func boxPageSpace(tier string) core.Space {
	pieces := []string{"{cp}", " ", "ab", "<p style=\"font-weight:bold\">{cp}</p>", "<br/>"}
	depth, pages := 4, []int{8, 9}
	if tier == "thorough" {
		depth, pages = 5, []int{8, 9, 10, 98, 99}
	}
	aligns := []string{"left", "right", "center", "block"}
	widths := 12
	ys := []float64{20, 185, 193, 199}
	rad := []int{len(pages), len(aligns), widths, len(ys)}
	get := func(i int64) (string, func(p int) string) {
		g := core.Digits(i, rad...)
		d := narrowPage
		s := ""
		for _, k := range core.Seq(i/core.Prod(rad...), len(pieces), 1, depth) {
			s += pieces[k]
		}
		mk := func(s string) string {
			d.Body = strings.Repeat("<newpage/>", pages[g[0]]) + fmt.Sprintf(`<sety y="%g"/><box style="line-width:0;padding:1,1,0.5,1;h-align:%s;width:%d">%s</box><box style="line-width:0">END</box>`, ys[g[3]], aligns[g[1]], 6+2*g[2], s)
			return d.XML()
		}
		return mk(s), func(p int) string { return mk(strings.ReplaceAll(s, "{cp}", fmt.Sprint(p))) }
	}
	return core.Space{Name: "page-numbers", N: core.Prod(rad...) * core.Seqs(len(pieces), 1, depth),
		Run: func(i int64, r *core.Rec) {
			x, lit := get(i)
			a, ops := lab.Virt(x, veng.Dyadic{}, nil)
			ra := a.Kind(dl.Rect)
			if len(ra) != 2 {
				r.Fail("no-frame", "%d frames\n%s\n%s", len(ra), x, a.Dump())
				return
			}
			y := lit(ra[0].Page)
			b, ops2 := lab.Virt(y, veng.Dyadic{}, nil)
			r.Impl(2)
			r.Trans(ops + ops2)
			r.Obs(a.Hash())
			if rb := b.Kind(dl.Rect); len(rb) == 0 || rb[0].Page != ra[0].Page {
				r.Skip() // measured with the longer number it goes to another page
				return
			}
			for _, it := range a.Kind(dl.Text) {
				if it.Page != ra[0].Page && it.S != "END" {
					r.Skip() // higher than what is left of the page
					return
				}
			}
			if k, ok := eqItems(a.Items, b.Items); !ok {
				r.Fail("frame-height", "drawn is %s, with the page number written out %s\n%s\n%s\nwritten out:\n%s", itemAt(a.Items, k), itemAt(b.Items, k), x, a.Dump(), b.Dump())
			}
		},
		Desc: func(i int64) string { x, _ := get(i); return x },
	}
}

// ---- C10

type flowElem struct {
	name  string
	xml   func(id int) string
	apply func(f *flowRef, id int)
}

// flowRef is the reference for the vertical flow.
type flowRef struct {
	page   int
	y      float64
	top    float64
	bottom float64
	h      float64 // line height
	h20    float64 // of a font of 20 points
	exp    []flowExp
	unsure bool // not judged
	// whether what fits exactly goes to the next page is not prescribed: ties holds the answers for the first of such,
	// further ones are answered as calculated; asked holds all answers given
	ties, asked []bool
}

type flowExp struct {
	rect bool
	word string
	page int
	y, h float64
}

func (f *flowRef) beyond(v float64) bool {
	is := v > f.bottom
	if math.Abs(v-f.bottom) < 0.05 {
		if len(f.asked) < len(f.ties) {
			is = f.ties[len(f.asked)]
		}
		f.asked = append(f.asked, is)
	}
	return is
}

func (f *flowRef) line(word string, sp float64) {
	if f.beyond(f.y + f.h) {
		f.page++
		f.y = f.top
	}
	f.exp = append(f.exp, flowExp{word: word, page: f.page, y: f.y})
	f.y += f.h * sp
}

func (f *flowRef) box(words []string, height, padT, padB, offY, sp float64) {
	full := height + padT + padB
	if f.beyond(f.y + full + offY) {
		f.page++
		f.y = f.top
	}
	y := f.y + offY
	f.exp = append(f.exp, flowExp{rect: true, page: f.page, y: y, h: full})
	for k, w := range words {
		f.exp = append(f.exp, flowExp{word: w, page: f.page, y: y + padT + float64(k)*f.h*sp})
		if y+padT+float64(k)*f.h*sp+f.h > f.bottom {
			f.unsure = true // higher than the height given for the box
		}
	}
	f.y = y + full
}

func (f *flowRef) row(word string, h float64) {
	if f.beyond(f.y + h) {
		f.page++
		f.y = f.top
	}
	if f.y+f.h > f.bottom {
		f.unsure = true
	}
	f.exp = append(f.exp, flowExp{rect: true, page: f.page, y: f.y, h: h}, flowExp{word: word, page: f.page, y: f.y})
	f.y += h
}

func flowElems() []flowElem {
	w := func(id, l int) string { return fmt.Sprintf("e%dl%d", id, l) }
	ln := func(id, n int) string {
		var s []string
		for k := 0; k < n; k++ {
			s = append(s, w(id, k))
		}
		return strings.Join(s, "<br/>")
	}
	ws := func(id, n int) (s []string) {
		for k := 0; k < n; k++ {
			s = append(s, w(id, k))
		}
		return
	}
	text := func(n int, style string, sp float64) flowElem {
		return flowElem{name: fmt.Sprintf("text-%d-lines", n),
			xml: func(id int) string { return `<text style="` + style + `">` + ln(id, n) + "</text>" },
			apply: func(f *flowRef, id int) {
				for _, s := range ws(id, n) {
					f.line(s, sp)
				}
			}}
	}
	box := func(style string, n int, height, padT, padB, offY, sp float64) flowElem {
		return flowElem{name: "box",
			xml: func(id int) string { return `<box style="line-width:0;` + style + `">` + ln(id, n) + "</box>" },
			apply: func(f *flowRef, id int) {
				h := height
				if h < 0 {
					h = f.h*sp*float64(n-1) + f.h
				}
				f.box(ws(id, n), h, padT, padB, offY, sp)
			}}
	}
	return []flowElem{
		box("height:7.25", 1, 7.25, 0, 0, 0, 1.5),
		text(1, "", 1.5),
		text(3, "line-spacing:1.25", 1.25),
		{name: "newpage", xml: func(int) string { return "<newpage/>" }, apply: func(f *flowRef, id int) { f.page++; f.y = f.top }},
		box("padding:1,2,3,4;h-align:center", 2, -1, 2, 4, 0, 1.5),
		box("height:23.5;offset-y:2.25;padding:0,0.5,0,0", 1, 23.5, 0.5, 0, 2.25, 1.5),
		{name: "lf", xml: func(int) string { return `<lf lines="1.5"/>` }, apply: func(f *flowRef, id int) { f.y += 1.5 * f.h }},
		{name: "sety", xml: func(int) string { return `<sety y="51.125"/>` }, apply: func(f *flowRef, id int) { f.y = 51.125 }},
		box("height:49.5;padding:0,0.125,0,0.125", 1, 49.5, 0.125, 0.125, 0, 1.5),
		text(8, "h-align:block", 1.5),
		box("padding:0.5,5,0.5,0;line-spacing:1;h-align:block", 3, -1, 5, 0, 0, 1),
		{name: "wrapped", xml: func(id int) string {
			return fmt.Sprintf(`<text style="width:9;h-align:right">%s <p style="font-weight:bold">%s</p> %s</text>`, w(id, 0), w(id, 1), w(id, 2))
		}, apply: func(f *flowRef, id int) {
			for _, s := range ws(id, 3) {
				f.line(s, 1.5)
			}
		}},
		{name: "mixed", xml: func(id int) string {
			return fmt.Sprintf(`<text style="h-align:%s">%s <p style="font-point-size:20">%s</p><br/>%s</text>`, []string{"left", "block"}[id%2], w(id, 0), w(id, 1), w(id, 2))
		}, apply: func(f *flowRef, id int) {
			if f.beyond(f.y + f.h20) {
				f.page++
				f.y = f.top
			}
			for _, s := range ws(id, 2) {
				f.exp = append(f.exp, flowExp{word: s, page: f.page, y: f.y})
			}
			f.y += f.h20 * 1.5
			f.line(w(id, 2), 1.5)
		}},
		{name: "table", xml: func(id int) string {
			return fmt.Sprintf(`<table style="line-width:0"><tr><td style="height:9.25">%s</td></tr><tr><td style="height:11.5">%s</td></tr></table>`, w(id, 0), w(id, 1))
		}, apply: func(f *flowRef, id int) {
			f.row(w(id, 0), 9.25)
			f.row(w(id, 1), 11.5)
		}},
		{name: "font", xml: func(int) string { return `<font style="font-point-size:20"/>` }, apply: func(f *flowRef, id int) { f.h = f.h20 }},
	}
}

var flowPage = lab.D{Format: "a5", Orient: "portrait", L: 60, T: 10, R: 20, B: 150}

// judgeFlow compares what is drawn with what ref expects, for some answers to the ties.
func judgeFlow(r *core.Rec, x string, d *dl.Doc, ref func(ties []bool) *flowRef, m dl.Metrics, tol float64) {
	fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), x, d.Dump()) }
	var got []dl.Item
	for _, it := range d.Items {
		if it.Phase == 'h' || it.Phase == 'f' {
			continue
		}
		if it.Kind == dl.Rect {
			got = append(got, it)
		} else if it.Kind == dl.Text {
			one := dl.Doc{Items: []dl.Item{it}}
			got = append(got, one.Words(m)...)
		}
	}
	bad := func(sig, s string, a ...interface{}) (string, string) { return sig, fmt.Sprintf(s, a...) }
	judge := func(f *flowRef) (sig, msg string) {
		for k, e := range f.exp {
			if k >= len(got) {
				return bad("lost", "%+v is not drawn", e)
			}
			g := got[k]
			if e.rect != (g.Kind == dl.Rect) || !e.rect && g.S != e.word {
				return bad("order", "%v is drawn where %+v is due", g, e)
			}
			if g.Page != e.page {
				return bad("wrong-page", "%v is on page %d, expected on page %d", g, g.Page, e.page)
			}
			if !lab.Near(g.Y, e.y, tol) {
				return bad("wrong-height", "%v is at y=%.4g instead of %.4g", g, g.Y, e.y)
			}
			if e.rect && !lab.Near(g.H, e.h, tol) {
				return bad("frame-height", "%v is %.4g high instead of %.4g", g, g.H, e.h)
			}
			if g.Y+g.H > f.bottom+tol {
				return bad("in-bottom-margin", "%v reaches into the bottom margin (%.4g)", g, f.bottom)
			}
		}
		if len(got) > len(f.exp) {
			return bad("too-much", "%v is drawn although nothing more is due", got[len(f.exp)])
		}
		if d.Pages != f.page {
			return bad("page-count", "%d pages instead of %d", d.Pages, f.page)
		}
		return "", ""
	}
	var sig0, msg0 string
	n, ok := 0, false
	var walk func(ties []bool)
	walk = func(ties []bool) {
		f := ref(ties)
		if f.unsure || n >= 64 {
			ok = true // not judged
			r.Skip()
			return
		}
		sig, msg := judge(f)
		if sig == "" {
			ok = true
			return
		}
		if n++; n == 1 {
			sig0, msg0 = sig, msg
		}
		for k := len(ties); k < len(f.asked) && !ok; k++ {
			walk(append(append([]bool(nil), f.asked[:k]...), !f.asked[k]))
		}
	}
	walk(nil)
	if !ok {
		fail(sig0, "%s", msg0)
	}
}

func flowSpaces(tier string) []core.Space {
	es := flowElems()
	depth, rdepth := 5, 3
	if tier == "thorough" {
		depth, rdepth = 6, 4
	}
	var out []core.Space
	hf := false
	mk := func(name string, depth int, real bool) {
		hf := hf
		build := func(i int64, ties []bool) (string, *flowRef) {
			d := flowPage
			if hf {
				// any header and footer, higher than the page or not
				d.Header = `<sety y="3"/><text>Ha<br/>Hb</text><box style="height:40">Hc</box><font style="font-point-size:30"/>`
				d.Footer = `<font style="font-point-size:9"/><sety y="5"/><table><tr><td style="height:30">Fa</td></tr></table><sety y="200"/><text>Fb<br/>Fc</text>`
			}
			f := &flowRef{page: 1, y: d.T, top: d.T, bottom: pageSize(d)[1] - d.B, h: 6, h20: 10, ties: ties}
			var b strings.Builder
			if real {
				b.WriteString(`<font style="font-family:courier"/>`)
				f.h = 12 / veng.K
				f.h20 = 20 / veng.K
				f.bottom = 595.28/veng.K - d.B
			}
			for k, s := range core.Seq(i, len(es), 1, depth) {
				b.WriteString(es[s].xml(k))
				es[s].apply(f, k)
			}
			d.Body = b.String()
			return d.XML(), f
		}
		out = append(out, core.Space{Name: name, N: core.Seqs(len(es), 1, depth),
			Run: func(i int64, r *core.Rec) {
				x, _ := build(i, nil)
				ref := func(ties []bool) *flowRef { _, f := build(i, ties); return f }
				r.Impl(1)
				if real {
					d := lab.Real(x, nil)
					r.Trans(len(d.Items))
					r.Obs(d.Hash())
					judgeFlow(r, x, d, ref, veng.Courier{}, 0.03)
					return
				}
				d, ops := lab.Virt(x, veng.Dyadic{}, nil)
				r.Trans(ops)
				r.Obs(d.Hash())
				judgeFlow(r, x, d, ref, veng.Dyadic{}, 1e-6)
			},
			Desc: func(i int64) string { x, _ := build(i, nil); return x },
		})
	}
	mk("flow", depth, false)
	mk("flow-real", rdepth, true)
	hf = true
	mk("flow-header-footer", depth-1, false)
	// every start height for every element
	steps, fine := 110, 0.5
	if tier == "thorough" {
		steps, fine = 880, 0.0625
	}
	build := func(i int64, ties []bool) (string, *flowRef) {
		g := core.Digits(i, steps, len(es), len(es))
		d := flowPage
		y := 10 + float64(g[0])*fine
		f := &flowRef{page: 1, y: y, top: d.T, bottom: pageSize(d)[1] - d.B, h: 6, h20: 10, ties: ties}
		d.Body = fmt.Sprintf(`<sety y="%g"/>`, y) + es[g[1]].xml(0) + es[g[2]].xml(1)
		es[g[1]].apply(f, 0)
		es[g[2]].apply(f, 1)
		return d.XML(), f
	}
	out = append(out, core.Space{Name: "flow-every-height", N: core.Prod(steps, len(es), len(es)),
		Run: func(i int64, r *core.Rec) {
			x, _ := build(i, nil)
			ref := func(ties []bool) *flowRef { _, f := build(i, ties); return f }
			d, ops := lab.Virt(x, veng.Dyadic{}, nil)
			r.Impl(1)
			r.Trans(ops)
			r.Obs(d.Hash())
			judgeFlow(r, x, d, ref, veng.Dyadic{}, 1e-6)
		},
		Desc: func(i int64) string { x, _ := build(i, nil); return x },
	})
	// long texts
	nl := 120
	long := func(i int64, ties []bool) (string, *flowRef) {
		g := core.Digits(i, 4, 8, nl, 3)
		d := flowPage
		d.B = []float64{150, 120, 30}[g[3]]
		al := []string{"left", "right", "center", "block"}[g[0]]
		y := 10 + float64(g[1])*1.3
		f := &flowRef{page: 1, y: y, top: d.T, bottom: pageSize(d)[1] - d.B, h: 6, h20: 10, ties: ties}
		var s []string
		for k := 0; k <= g[2]; k++ {
			s = append(s, fmt.Sprintf("w%d", k))
			f.line(s[k], 1.5)
		}
		d.Body = fmt.Sprintf(`<sety y="%g"/><text style="h-align:%s">%s</text><box style="line-width:0;height:7">z</box>`, y, al, strings.Join(s, "<br/>"))
		f.box([]string{"z"}, 7, 0, 0, 0, 1.5)
		return d.XML(), f
	}
	out = append(out, core.Space{Name: "long-texts", N: core.Prod(4, 8, nl, 3),
		Run: func(i int64, r *core.Rec) {
			x, _ := long(i, nil)
			ref := func(ties []bool) *flowRef { _, f := long(i, ties); return f }
			d, ops := lab.Virt(x, veng.Dyadic{}, nil)
			r.Impl(1)
			r.Trans(ops)
			r.Obs(d.Hash())
			judgeFlow(r, x, d, ref, veng.Dyadic{}, 1e-6)
		},
		Desc: func(i int64) string { x, _ := long(i, nil); return x },
	})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C09", Rule: "every box (alignment x width x height x padding x spacing x offset x content sequence x place x follower); the frame, the text in it and the place of what follows are compared with the reference geometry",
		Spaces: boxSpaces})
	core.Register(&core.Check{ID: "C10", Rule: "every sequence of boxes, texts, line feeds, positionings and page breaks up to a length on a short page, every start height for every pair of elements, long texts; page and height of every frame and line are compared with a reference of the vertical flow (exact fits may go either way)",
		Spaces: flowSpaces})
}
