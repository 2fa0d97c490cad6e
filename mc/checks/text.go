package checks

import (
	"fmt"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/veng"
)

// Small-scope exploration of text layout: every token sequence up to a length over a small alphabet,
// for every alignment, available width and container, on the virtual engine; a slice of it and long
// one-dimensional sweeps on the real engine.

type sym struct {
	w     string // word; "" for markup only
	style string // style of a <p> around it
	whole bool   // w is one word, whatever is in it
	br    bool
	blank bool // whitespace-only run
	xml   string
	f     func(dl.Font) dl.Font
}

var plainSyms = []sym{
	{w: "a"},
	{w: "bbbb"},
	{w: "cccccccc"},
	{br: true},
	{w: "dd", style: "font-weight:bold", f: func(f dl.Font) dl.Font { f.Bold = true; return f }},
	{w: "wwwwwwwwwwww"},
	{w: "ee", style: "font-point-size:18", f: func(f dl.Font) dl.Font { f.Size = 18; return f }},
	{blank: true},
}

// the same words in several fonts, and text in several pieces
func sized(z float64) func(f dl.Font) dl.Font {
	return func(f dl.Font) dl.Font { f.Size = z; return f }
}

var alikeSyms = []sym{
	{w: "abcd"},
	{w: "abcd", style: "font-point-size:20", f: sized(20)},
	{w: "abcd", style: "font-weight:bold", f: func(f dl.Font) dl.Font { f.Bold = true; return f }},
	{w: "abcd", style: "font-point-size:12.5", f: sized(12.5)},
	{br: true},
	{xml: "<!-- abcd -->"},
	{w: "abcdabcdabcd"},
	{w: "abcdabcdabcd", style: "font-point-size:6", f: sized(6)},
	{w: "a", xml: " <![CDATA[a]]> "},
	{w: "abcd", style: "font-style:italic", f: func(f dl.Font) dl.Font { f.Italic = true; return f }},
}

// abcdef is divided ab-cd-ef, xyxyxyxy after every y
var blockPatterns = []string{"b1c", "d1e", "y1x"}
var blockSyms = []sym{
	{w: "a"},
	{w: "abcdef"},
	{w: "xyxyxyxy"},
	{br: true},
	{w: "abcd", style: "font-weight:bold", f: func(f dl.Font) dl.Font { f.Bold = true; return f }},
	{w: "wwwwwwwwwwww"},
	{w: "abef", style: "font-point-size:18", f: func(f dl.Font) dl.Font { f.Size = 18; return f }},
	{blank: true},
}

var blockHyph *hyphenation.Hyphenator

func getBlockHyph() *hyphenation.Hyphenator {
	if blockHyph == nil {
		blockHyph = lab.Hyph(blockPatterns...)
	}
	return blockHyph
}

type textCase struct {
	syms      []sym
	base      dl.Font
	align     string
	width     float64
	container int // 0 text, 1 box, 2 cell, 3 second cell, 4 text at x, y
	x, y      float64
	spacing   float64
	page      lab.D
	font      bool // set the base family by a font element
	hyph      *hyphenation.Hyphenator
	m         dl.Metrics
}

func symXML(ss []sym) string {
	var b strings.Builder
	for _, s := range ss {
		switch {
		case s.xml != "":
			b.WriteString(s.xml)
		case s.br:
			b.WriteString("<br/>")
		case s.blank:
			b.WriteString("<p> \n </p>")
		case s.style != "":
			b.WriteString(`<p style="` + s.style + `">` + lab.Esc(s.w) + "</p>")
		default:
			b.WriteString(" " + lab.Esc(s.w) + "\n ")
		}
	}
	return b.String()
}

func symToks(ss []sym, base dl.Font) []lab.Tok {
	var out []lab.Tok
	for _, s := range ss {
		switch {
		case s.br:
			out = append(out, lab.Tok{BR: true})
		case s.blank, s.w == "":
		default:
			f := base
			if s.f != nil {
				f = s.f(base)
			}
			ws := strings.Fields(s.w)
			if s.whole {
				ws = []string{s.w}
			}
			for _, w := range ws {
				out = append(out, lab.Tok{W: w, F: f})
			}
		}
	}
	return out
}

// xml returns the document and the left edge of the area of the text.
func (c *textCase) xml() (string, float64) {
	d := c.page
	x0 := d.L
	inner := symXML(c.syms)
	sp := ""
	if c.spacing != 0 && c.spacing != 1.5 {
		sp = fmt.Sprintf(";line-spacing:%g", c.spacing)
	}
	var b strings.Builder
	if c.font {
		b.WriteString(`<font style="font-family:` + c.base.Family + `"/>`)
	}
	switch c.container {
	case 0:
		fmt.Fprintf(&b, `<text style="h-align:%s;width:%g%s">%s</text>`, c.align, c.width, sp, inner)
	case 1:
		fmt.Fprintf(&b, `<box style="h-align:%s;width:%g;padding:1,2,3,4%s">%s</box>`, c.align, c.width+4, sp, inner)
		x0 += 1
	case 4:
		fmt.Fprintf(&b, `<sety y="%g"/><setx x="%g"/><text style="h-align:%s;width:%g%s">%s</text>`, c.y, c.x, c.align, c.width, sp, inner)
		x0 = c.x
	case 2:
		fmt.Fprintf(&b, `<table style="width:%g"><tr><td style="h-align:%s;padding:2,1,1,1%s">%s</td></tr></table>`, c.width+3, c.align, sp, inner)
		x0 += 2
	case 3:
		fmt.Fprintf(&b, `<table style="width:%g"><tr><td style="column-width:5"></td><td style="h-align:%s;padding:0.5,1,1.5,1%s">%s</td></tr></table>`, c.width+2+5, c.align, sp, inner)
		x0 += 5.5
	}
	d.Body = b.String()
	return d.XML(), x0
}

func (c *textCase) spec(x0 float64) lab.TextSpec {
	sp := c.spacing
	if sp == 0 {
		sp = 1.5
	}
	var hy func(string) []string
	if c.hyph != nil {
		hy = c.hyph.Hyphenate
	}
	return lab.TextSpec{Toks: symToks(c.syms, c.base), X0: x0, W: c.width, HAlign: c.align, Spacing: sp, Hyph: hy, M: c.m}
}

func (c *textCase) run(r *core.Rec, j lab.Judge, real bool) {
	x, x0 := c.xml()
	var d *dl.Doc
	if real {
		d = lab.Real(x, c.hyph)
		r.Trans(len(d.Items))
	} else {
		var ops int
		d, ops = lab.Virt(x, c.m, c.hyph)
		r.Trans(ops)
	}
	r.Impl(1)
	r.Obs(d.Hash())
	words := d.Words(c.m)
	if sig, msg := lab.Text(c.spec(x0), words, j); sig != "" {
		r.Fail(sig, "%s\n%s\n%s", msg, x, d.Dump())
	}
}

var narrowPage = lab.D{Format: "a5", Orient: "portrait", L: 60, T: 10, R: 20, B: 10}

// textSpaces: the enumeration shared by C05..C08.
func textSpaces(tier string, aligns []string, j lab.Judge) []core.Space {
	depth := 4
	if tier == "thorough" {
		depth = 6
	}
	var out []core.Space
	mk := func(name string, syms []sym, al []string, widths []float64, conts []int, depth int, m dl.Metrics, base dl.Font, fontEl bool, real bool) {
		hy := lab.NoHyph()
		n := core.Seqs(len(syms), 1, depth)
		get := func(i int64) *textCase {
			g := core.Digits(i, len(al), len(widths), len(conts))
			rest := i / core.Prod(len(al), len(widths), len(conts))
			c := &textCase{align: al[g[0]], width: widths[g[1]], container: conts[g[2]], page: narrowPage, m: m, base: base, font: fontEl, hyph: hy}
			if c.align == "block" {
				c.hyph = getBlockHyph()
			}
			for _, k := range core.Seq(rest, len(syms), 1, depth) {
				c.syms = append(c.syms, syms[k])
			}
			return c
		}
		out = append(out, core.Space{Name: name, N: n * core.Prod(len(al), len(widths), len(conts)),
			Run:  func(i int64, r *core.Rec) { get(i).run(r, j, real) },
			Desc: func(i int64) string { x, _ := get(i).xml(); return x },
		})
	}
	cour := dl.Font{Family: "courier", Size: 12}
	for _, blk := range []bool{false, true} {
		var al []string
		for _, a := range aligns {
			if (a == "block") == blk {
				al = append(al, a)
			}
		}
		if len(al) == 0 {
			continue
		}
		syms, nm := plainSyms, "ragged"
		if blk {
			syms, nm = blockSyms, "block"
		}
		mk("sequences-"+nm, syms, al, []float64{10.5, 21.5, 34.25, 52}, []int{0, 1, 2, 3}, depth, veng.Dyadic{}, lab.DefFont(), false, false)
		mk("sequences-deep-"+nm, syms[:6], al, []float64{21.5, 40}, []int{0}, depth+2, veng.Dyadic{}, lab.DefFont(), false, false)
		mk("slim-"+nm, syms, al, []float64{0, 0.5, 2.25}, []int{0, 1, 2}, depth-1, veng.Dyadic{}, lab.DefFont(), false, false)
		mk("alike-"+nm, alikeSyms, al, []float64{12, 30.5, 60}, []int{0, 1, 2}, depth, veng.Dyadic{}, lab.DefFont(), false, false)
		mk("real-"+nm, syms, al, []float64{12, 25, 50}, []int{0, 1, 2}, depth-1, veng.Courier{}, cour, true, true)
	}
	// words of every kind of character
	var chars []rune
	for c := rune('!'); c < 127; c++ {
		if c != '\\' {
			chars = append(chars, c)
		}
	}
	ascii := len(chars)
	chars = append(chars, 0xa0, 0xa7, 0xbf, 0xdf, 0xe9, 0x152, 0x3b1, 0x416, 0x2003, 0x2009, 0x2014, 0x2026, 0x20ac, 0x3000, 0x65e5, 0xfffd)
	others := []rune{'x', '{', '}', '-', '.', 'c', 'p', 0xe9}
	getChars := func(i int64) *textCase {
		g := core.Digits(i, len(aligns), 4, len(chars), len(chars)+len(others)*2)
		c := &textCase{align: aligns[g[0]], width: 21.5, container: g[1], page: narrowPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: lab.NoHyph()}
		if c.align == "block" {
			c.hyph = getBlockHyph()
		}
		w := string(chars[g[2]])
		switch o := g[3]; {
		case o < len(chars):
			if o >= ascii && g[2] >= ascii {
				o = g[2]
			}
			w += string(chars[o])
		case o < len(chars)+len(others):
			w = string(others[o-len(chars)]) + w + w
		default:
			w = "a" + w + string(others[o-len(chars)-len(others)])
		}
		c.syms = []sym{{w: w, whole: true}, {w: "abcdef"}, {w: w, whole: true}, {w: w, whole: true, style: "font-weight:bold", f: plainSyms[4].f}, {br: true}, {w: w, whole: true}}
		return c
	}
	out = append(out, core.Space{Name: "characters", N: core.Prod(len(aligns), 4, len(chars), len(chars)+len(others)*2),
		Run:  func(i int64, r *core.Rec) { getChars(i).run(r, j, false) },
		Desc: func(i int64) string { x, _ := getChars(i).xml(); return x },
	})
	// one-dimensional sweeps: long texts over page ends, every length, every width
	ns, ws := 90, 24
	if tier == "thorough" {
		ns, ws = 200, 60
	}
	sweep := func(name string, m dl.Metrics, base dl.Font, fontEl, real bool, ns, ws int) {
		get := func(i int64) *textCase {
			g := core.Digits(i, len(aligns), ws, ns, 2)
			c := &textCase{align: aligns[g[0]], width: 6 + float64(g[1])*2.4, page: narrowPage, m: m, base: base, font: fontEl, hyph: lab.NoHyph(), spacing: 1.25}
			if c.align == "block" {
				c.hyph = getBlockHyph()
			}
			if g[3] == 1 {
				c.spacing = 1
			}
			for k := 0; k <= g[2]; k++ {
				w := sweepWords[(k*7+k*k/5)%len(sweepWords)]
				c.syms = append(c.syms, sym{w: fmt.Sprintf("%s%d", w, k%10)})
				if k%23 == 22 {
					c.syms = append(c.syms, sym{br: true})
				}
			}
			return c
		}
		out = append(out, core.Space{Name: name, N: core.Prod(len(aligns), ws, ns, 2),
			Run:  func(i int64, r *core.Rec) { get(i).run(r, j, real) },
			Desc: func(i int64) string { x, _ := get(i).xml(); return x },
		})
	}
	sweep("sweep-words", veng.Dyadic{}, lab.DefFont(), false, false, ns, ws)
	if tier == "thorough" {
		sweep("sweep-words-real", veng.Courier{}, cour, true, true, 60, 20)
	} else {
		sweep("sweep-words-real", veng.Courier{}, cour, true, true, 24, 8)
	}
	// very long texts, in one run and in as many runs as words
	lens := []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 512, 513, 777, 1000, 1024, 1025}
	if tier == "thorough" {
		lens = append(lens, 2000, 2049, 4096, 4100, 8200)
	}
	getLong := func(i int64) *textCase {
		g := core.Digits(i, len(aligns), 3, len(lens), 2)
		c := &textCase{align: aligns[g[0]], width: []float64{20.5, 44, 66}[g[1]], page: narrowPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: lab.NoHyph()}
		if c.align == "block" {
			c.hyph = getBlockHyph()
		}
		for k := 0; k < lens[g[2]]; k++ {
			s := sym{w: fmt.Sprintf("%s%d", sweepWords[(k*7+k*k/5)%len(sweepWords)], k%100)}
			if g[3] == 1 && k%2 == 0 {
				s.style, s.f = "font-weight:bold", plainSyms[4].f
			}
			c.syms = append(c.syms, s)
		}
		return c
	}
	out = append(out, core.Space{Name: "very-long", N: core.Prod(len(aligns), 3, len(lens), 2),
		Run:  func(i int64, r *core.Rec) { getLong(i).run(r, j, false) },
		Desc: func(i int64) string { x, _ := getLong(i).xml(); return x },
	})
	// texts beginning anywhere, down to the end of the page
	ys, xs := 44, 6
	getAt := func(i int64) *textCase {
		g := core.Digits(i, len(aligns), ys, xs, 12, 3)
		c := &textCase{align: aligns[g[0]], width: 26.5, container: 4, y: 104.5 + float64(g[1])*2.25, x: 60 + float64(g[2])*7.25, page: narrowPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: lab.NoHyph()}
		if c.align == "block" {
			c.hyph = getBlockHyph()
		}
		for k := 0; k <= g[3]; k++ {
			s := sym{w: fmt.Sprintf("%s%d", []string{"it", "abcd", "xyxy"}[k%3], k)}
			if k%3 == g[4] {
				s.style, s.f = "font-point-size:18", sized(18)
			}
			c.syms = append(c.syms, s)
		}
		return c
	}
	out = append(out, core.Space{Name: "anywhere", N: core.Prod(len(aligns), ys, xs, 12, 3),
		Run:  func(i int64, r *core.Rec) { getAt(i).run(r, j, false) },
		Desc: func(i int64) string { x, _ := getAt(i).xml(); return x },
	})
	// words of many parts, at the start of a line and after other words
	if aligns[len(aligns)-1] == "block" {
		nw := 35 // always wide enough for one part
		getParts := func(i int64) *textCase {
			g := core.Digits(i, 49, 5, nw, 2, 3)
			c := &textCase{align: "block", width: 25.25 + float64(g[2]), container: g[3], page: narrowPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: getBlockHyph()}
			if g[4] > 0 {
				c.width = 10.25 + float64(g[2])*1.35
			}
			word := func(w string) sym {
				if z := []float64{12, 5, 3}[g[4]]; z != 12 {
					return sym{w: w, style: fmt.Sprintf("font-point-size:%g", z), f: sized(z)}
				}
				return sym{w: w}
			}
			for k := 0; k < []int{0, 1, 2, 5, 14}[g[1]]; k++ {
				c.syms = append(c.syms, word("a"))
			}
			c.syms = append(c.syms, word(strings.Repeat("xy", g[0]+1)), word("abcdef"))
			return c
		}
		out = append(out, core.Space{Name: "many-parts", N: core.Prod(49, 5, nw, 2, 3),
			Run:  func(i int64, r *core.Rec) { getParts(i).run(r, j, false) },
			Desc: func(i int64) string { x, _ := getParts(i).xml(); return x },
		})
	}
	return out
}

var sweepWords = []string{"a", "abcdef", "it", "xyxyxyxy", "the", "abcdefabcdef", "Zm", "qu", "w", "éßü", "xyxy", "{x}", "1.5", "cdcdcd", "ab-cd", "don't"}

func init() {
	all := []string{"left", "right", "center", "block"}
	core.Register(&core.Check{ID: "C05", Rule: "every token sequence (words of several widths, styled runs, line breaks, blank runs) up to a length x left/right/centre x width x container, plus sweeps over the number of words; every word must be drawn once, in order, one blank or a line change apart",
		Spaces: func(t string) []core.Space {
			return append(textSpaces(t, []string{"left", "right", "center"}, lab.Judge{Conserve: true}), wideSpaces(t)...)
		}})
	core.Register(&core.Check{ID: "C06", Rule: "as C05 for block-aligned text with a small pattern set: words must be drawn whole or divided at hyphenation points at line ends only, with one hyphen",
		Spaces: func(t string) []core.Space {
			return append(textSpaces(t, []string{"block"}, lab.Judge{Conserve: true}), englishSpaces(t, lab.Judge{Conserve: true})...)
		}})
	core.Register(&core.Check{ID: "C07", Rule: "the documents of C05 and C06; lines must fit, end only when the next word (or its shortest part) does not fit, and be one line feed apart",
		Spaces: func(t string) []core.Space {
			return append(textSpaces(t, all, lab.Judge{Fit: true, Lines: true}), englishSpaces(t, lab.Judge{Fit: true, Lines: true})...)
		}})
	core.Register(&core.Check{ID: "C08", Rule: "the documents of C05 and C06; every line must lie in the area as its alignment says",
		Spaces: func(t string) []core.Space {
			return append(textSpaces(t, all, lab.Judge{Align: true}), englishSpaces(t, lab.Judge{Align: true})...)
		}})
}

// wideSpaces: words wider than the page, which the engine continues; nothing may get lost.
func wideSpaces(tier string) []core.Space {
	n, depth := 60, 2
	if tier == "thorough" {
		n, depth = 120, 3
	}
	syms := []sym{{w: "a"}, {w: "bbbb"}, {br: true}}
	get := func(i int64) *textCase {
		g := core.Digits(i, n, 3)
		rest := i / core.Prod(n, 3)
		ns := core.Seqs(len(syms), 0, depth)
		c := &textCase{align: "left", width: []float64{66, 66, 61}[g[1]], container: g[1], page: narrowPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: lab.NoHyph()}
		for _, k := range core.Seq(rest%ns, len(syms), 0, depth) {
			c.syms = append(c.syms, syms[k])
		}
		c.syms = append(c.syms, sym{w: strings.Repeat("abcdefghk", n)[:g[0]+1]})
		for _, k := range core.Seq(rest/ns, len(syms), 0, depth) {
			c.syms = append(c.syms, syms[k])
		}
		return c
	}
	ns := core.Seqs(len(syms), 0, depth)
	return []core.Space{{Name: "words-wider-than-the-page", N: core.Prod(n, 3) * ns * ns,
		Run: func(i int64, r *core.Rec) {
			c := get(i)
			x, _ := c.xml()
			d, ops := lab.Virt(x, c.m, c.hyph)
			r.Trans(ops)
			r.Impl(1)
			r.Obs(d.Hash())
			var want, got []string
			for _, t := range symToks(c.syms, c.base) {
				if !t.BR {
					want = append(want, t.W)
				}
			}
			for _, w := range d.Words(c.m) {
				got = append(got, w.S)
			}
			if strings.Join(want, "") != strings.Join(got, "") {
				r.Fail("text-changed", "drawn %q instead of %q\n%s\n%s", got, want, x, d.Dump())
			}
		},
		Desc: func(i int64) string { x, _ := get(i).xml(); return x },
	}}
}

// remainderSpaces: words whose parts, taken as words, would be divided otherwise.
func remainderSpaces(tier string, j lab.Judge) []core.Space {
	hyph := lab.Hyph("q1r", ".rs1t", "s1u", ".tu2v", "u1v", ".vw1x", "k1l", "m1n", ".lm2n")
	syms := []sym{{w: "pqrstuvw"}, {w: "pqrrsttuv"}, {w: "jklmnopqrstu"}, {w: "a"}, {w: "pqrst", style: "font-weight:bold", f: blockSyms[4].f}, {br: true}}
	depth, nw := 4, 24
	if tier == "thorough" {
		depth, nw = 5, 48
	}
	get := func(i int64) *textCase {
		g := core.Digits(i, nw, 3)
		c := &textCase{align: "block", width: 10.25 + float64(g[0])*2.1*24/float64(nw), container: g[1], page: narrowPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: hyph}
		for _, k := range core.Seq(i/core.Prod(nw, 3), len(syms), 1, depth) {
			c.syms = append(c.syms, syms[k])
		}
		return c
	}
	return []core.Space{{Name: "remainders", N: core.Prod(nw, 3) * core.Seqs(len(syms), 1, depth),
		Run:  func(i int64, r *core.Rec) { get(i).run(r, j, false) },
		Desc: func(i int64) string { x, _ := get(i).xml(); return x },
	}}
}

var englishHyph *hyphenation.Hyphenator

func enUs() *hyphenation.Hyphenator {
	if englishHyph == nil {
		englishHyph = hyphenation.NewEnUs()
	}
	return englishHyph
}

const english = `The hyphenation of unbelievably complicated representations necessarily involves considerable
administrative responsibilities; international organizations consequently acknowledge extraordinary
circumstances. Media, aria, safari and algebra are words ending in one letter behind a division point. Well-known
compounds (e.g. self-explanatory) and numbers like 1234567890 stay. Developers of supercalifragilisticexpialidocious
typesetting systems concatenate philosophical paragraphs, straightforwardly, again.`

// englishSpaces: English text with the built-in patterns at every width.
func englishSpaces(tier string, j lab.Judge) []core.Space {
	words := strings.Fields(english)
	nw, starts := 100, 12
	if tier == "thorough" {
		nw, starts = 240, len(words)
	}
	aligns := []string{"block"}
	wordPage := narrowPage
	wordPage.L, wordPage.R = 30, 8
	get := func(i int64) *textCase {
		g := core.Digits(i, nw, starts, 3)
		step := 60.0 / float64(nw)
		c := &textCase{align: aligns[0], width: 6 + float64(g[0])*step, container: g[2], page: wordPage, m: veng.Dyadic{}, base: lab.DefFont(), hyph: enUs()}
		if c.container == 2 && c.width > 62 {
			c.width = 62
		}
		if c.container == 1 && c.width > 60 {
			c.width = 60
		}
		st := g[1] * len(words) / starts
		for k := 0; k < len(words); k++ {
			c.syms = append(c.syms, sym{w: words[(st+k)%len(words)]})
		}
		return c
	}
	return append(remainderSpaces(tier, j), core.Space{Name: "english-all-widths", N: core.Prod(nw, starts, 3),
		Run:  func(i int64, r *core.Rec) { get(i).run(r, j, false) },
		Desc: func(i int64) string { x, _ := get(i).xml(); return x },
	})
}
