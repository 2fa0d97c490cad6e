package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

// C31: the real engine and the virtual one, operation by operation.

var engDir string

// testImages: name -> pixel size; every file has its own size, so that it can be told in the PDF.
var testImages = map[string][2]int{
	"a.png": {30, 20}, "b.jpg": {40, 25}, "c.gif": {16, 48}, "d.jpeg": {7, 90}, "e.PNG": {300, 10}, "f.png": {2000, 3000}, "g.png": {3000, 500}, "h.png": {1, 1}, "k.jpg": {121, 333}, "m.gif": {33, 33},
}

func writeImages(dir string) {
	for n, s := range testImages {
		im := image.NewPaletted(image.Rect(0, 0, s[0], s[1]), color.Palette{color.RGBA{255, 0, 0, 255}, color.RGBA{0, 0, 255, 255}})
		for i := range im.Pix {
			im.Pix[i] = byte(i / 7 % 2)
		}
		var b bytes.Buffer
		switch strings.ToLower(filepath.Ext(n)) {
		case ".png":
			_ = png.Encode(&b, im)
		case ".gif":
			_ = gif.Encode(&b, im, nil)
		default:
			_ = jpeg.Encode(&b, im, nil)
		}
		_ = os.WriteFile(filepath.Join(dir, n), b.Bytes(), 0o666)
	}
}

func engSetup(dir string) {
	engDir = dir
	writeImages(dir)
	writeFonts(dir)
}

func sfont(fam string, size float64, flags string) style.Font {
	f := style.Font{Family: fam, PointSize: size, Style: style.FontStyleNormal, Weight: style.FontWeightNormal, Decoration: style.FontDecorationNormal}
	if strings.Contains(flags, "B") {
		f.Weight = style.FontWeightBold
	}
	if strings.Contains(flags, "I") {
		f.Style = style.FontStyleItalic
	}
	if strings.Contains(flags, "U") {
		f.Decoration = style.FontDecorationUnderline
	}
	return f
}

type engOp struct {
	name string
	do   func(e engine.Engine)
}

const longText = "lorem ipsum dolor sit amet consectetur adipisci velit sed do eiusmod tempor"

func engOps(fam string, uni bool) []engOp {
	ops := []engOp{
		{"SetX(30)", func(e engine.Engine) { e.SetX(30) }},
		{"SetX(-25)", func(e engine.Engine) { e.SetX(-25) }},
		{"SetY(100)", func(e engine.Engine) { e.SetY(100) }},
		{"SetY(-22)", func(e engine.Engine) { e.SetY(-22) }},
		{"LineFeed(1)", func(e engine.Engine) { e.LineFeed(1) }},
		{"LineFeed(2.5)", func(e engine.Engine) { e.LineFeed(2.5) }},
		{"LineFeed(0)", func(e engine.Engine) { e.LineFeed(0) }},
		{"ChangeFont(20)", func(e engine.Engine) { e.ChangeFont(sfont(fam, 20, "")) }},
		{"ChangeFont(9,BI)", func(e engine.Engine) { e.ChangeFont(sfont(fam, 9, "BI")) }},
		{"ChangeFont(12,U)", func(e engine.Engine) { e.ChangeFont(sfont(fam, 12, "U")) }},
		{"ChangeFont(12,B)", func(e engine.Engine) { e.ChangeFont(sfont(fam, 12, "B")) }},
		{"ChangeFont(15,I)", func(e engine.Engine) { e.ChangeFont(sfont(fam, 15, "I")) }},
		{"ChangeFont(8.5,BIU)", func(e engine.Engine) { e.ChangeFont(sfont(fam, 8.5, "BIU")) }},
		{"WriteText(ab)", func(e engine.Engine) { e.WriteText("ab") }},
		{"WriteText( (c) \\)", func(e engine.Engine) { e.WriteText(" (c) \\") }},
		{"WriteText({np})", func(e engine.Engine) { e.WriteText("{np}x") }},
		{"WriteText(long)", func(e engine.Engine) { e.WriteText(longText) }},
		{"WriteText(word)", func(e engine.Engine) { e.WriteText(strings.Repeat("w", 70)) }},
		{"SetTextColor", func(e engine.Engine) { e.SetTextColor(10, 120, 250) }},
		{"SetDrawColor", func(e engine.Engine) { e.SetDrawColor(200, 0, 30) }},
		{"SetFillColor", func(e engine.Engine) { e.SetFillColor(0, 255, 7) }},
		{"SetLineWidth(1.5)", func(e engine.Engine) { e.SetLineWidth(1.5) }},
		{"FillRect", func(e engine.Engine) { e.FillRect(11, 22, 33, 44) }},
		{"MoveTo", func(e engine.Engine) { e.MoveTo(50, 60) }},
		{"path", func(e engine.Engine) { e.MoveTo(15, 25); e.LineTo(70, 35); e.DrawPath() }},
		{"path2", func(e engine.Engine) { e.MoveTo(20, 30); e.LineTo(20, 80); e.LineTo(90, 80); e.DrawPath() }},
		{"PutImage(a)", func(e engine.Engine) { e.PutImage(filepath.Join(engDir, "a.png"), 40, 50, 12, 8) }},
		{"PutImage(b)", func(e engine.Engine) { x, y := e.GetXY(); e.PutImage(filepath.Join(engDir, "b.jpg"), x, y, 5, 15) }},
		{"AddPage", func(e engine.Engine) { e.AddPage() }},
	}
	if uni {
		ops = append(ops, engOp{"WriteText(uni)", func(e engine.Engine) { e.WriteText("\u00e4\u0416\u03a9 \u20ac\u2013") }},
			engOp{"WriteText(longuni)", func(e engine.Engine) { e.WriteText(strings.Repeat("\u00e4\u0416\u03a9 \u1e9e", 30)) }},
			engOp{"WriteText(astral)", func(e engine.Engine) { e.WriteText("a\U0001F600b") }})
	} else {
		ops = append(ops, engOp{"WriteText(latin)", func(e engine.Engine) { e.WriteText("\u00e4\u00df") }})
	}
	return ops
}

type engConf struct {
	name           string
	format, orient string
	l, t, r, b     float64
	hf             bool
	fam            string
	uni            bool
}

var engConfs = []engConf{
	{"a5", "a5", "portrait", 20, 15, 10, 30, false, "Courier", false},
	{"a4-landscape-hf", "a4", "landscape", 5, 30, 40, 12, true, "courier", false},
	{"letter-hf", "letter", "portrait", 0, 0, 0, 0, true, "Courier", false},
	{"sans-a5-hf", "a5", "portrait", 20, 15, 10, 30, true, "sans", true},
}

// observe compares all queries.
func observe(v, e engine.Engine, uni bool) string {
	var d []string
	cmp := func(n string, a, b float64) {
		if math.Abs(a-b) > 1e-6 || math.IsNaN(a) != math.IsNaN(b) {
			d = append(d, fmt.Sprintf("%s: engine %.9g, expected %.9g", n, b, a))
		}
	}
	x, y := v.GetXY()
	x2, y2 := e.GetXY()
	cmp("x", x, x2)
	cmp("y", y, y2)
	cmp("current page", float64(v.CurrentPage()), float64(e.CurrentPage()))
	cmp("font height", v.FontHeight(), e.FontHeight())
	texts := []string{"", "a", "ab c-d", longText}
	if uni {
		texts = append(texts, "\u00e4\u0416\u03a9 \u20ac", "a\U0001F600b", "\U0001F600\U0001F600")
	}
	for _, s := range texts {
		cmp(fmt.Sprintf("width of %q", s), v.TextWidth(s), e.TextWidth(s))
	}
	a0, a1, a2, a3 := v.PrintableArea()
	b0, b1, b2, b3 := e.PrintableArea()
	cmp("printable area x0", a0, b0)
	cmp("printable area y0", a1, b1)
	cmp("printable area x1", a2, b2)
	cmp("printable area y1", a3, b3)
	a0, a1, a2, a3 = v.Margins()
	b0, b1, b2, b3 = e.Margins()
	cmp("margin left", a0, b0)
	cmp("margin top", a1, b1)
	cmp("margin right", a2, b2)
	cmp("margin bottom", a3, b3)
	cmp("page width", v.PageWidth(), e.PageWidth())
	cmp("page height", v.PageHeight(), e.PageHeight())
	if err := e.Error(); err != nil {
		d = append(d, "engine error: "+err.Error())
	}
	if len(d) == 0 {
		return ""
	}
	return strings.Join(d, "; ")
}

// sameDoc compares the draw list of the PDF with the one expected (positions within the precision of
// the PDF's numbers).
func sameDoc(got *pdfread.File, want *dl.Doc, dirImg map[string][2]int) string {
	g := &got.Doc
	if g.Pages != want.Pages {
		return fmt.Sprintf("%d pages, expected %d", g.Pages, want.Pages)
	}
	for i := range want.PageSizes {
		if math.Abs(g.PageSizes[i][0]-want.PageSizes[i][0]) > 0.01 || math.Abs(g.PageSizes[i][1]-want.PageSizes[i][1]) > 0.01 {
			return fmt.Sprintf("page %d is %v, expected %v", i+1, g.PageSizes[i], want.PageSizes[i])
		}
	}
	for i, w := range want.Items {
		if i >= len(g.Items) {
			return fmt.Sprintf("missing: %s", w)
		}
		it := g.Items[i]
		bad := it.Kind != w.Kind || it.Page != w.Page
		const tol = 0.012
		near := func(a, b float64) bool { return math.Abs(a-b) <= tol }
		bad = bad || !near(it.X, w.X) || !near(it.Y, w.Y)
		switch w.Kind {
		case dl.Text:
			bad = bad || it.S != w.S || !near(it.H, w.H) || it.Color != w.Color || it.Font != w.Font
		case dl.Rect:
			bad = bad || !near(it.W, w.W) || !near(it.H, w.H) || it.Color != w.Color
		case dl.Line:
			bad = bad || !near(it.W, w.W) || !near(it.H, w.H) || it.Color != w.Color || !near(it.LW, w.LW)
		case dl.Image:
			bad = bad || !near(it.W, w.W) || !near(it.H, w.H) || got.Images[it.S] != dirImg[filepath.Base(w.S)]
		}
		if bad {
			return fmt.Sprintf("item %d on the PDF: %s\nexpected: %s", i, it, w)
		}
	}
	if len(g.Items) > len(want.Items) {
		return fmt.Sprintf("not expected: %s", g.Items[len(want.Items)])
	}
	return ""
}

func (c engConf) doc() *lab.D {
	return &lab.D{Format: c.format, Orient: c.orient, L: c.l, T: c.t, R: c.r, B: c.b, Body: "<text>x</text>"}
}

func judgeEngine(r *core.Rec, c engConf, ops []engOp, seq []int) {
	doc := lab.Load(c.doc().XML())
	reg := font.NewRegistry()
	if c.fam == "sans" {
		reg = sansRegistry(engDir)
	}
	e, err := engine.NewFPDF(reg, doc)
	if err != nil {
		r.Fail("error", "no engine: %v", err)
		return
	}
	v := veng.New(doc, RealMet{})
	start := func(e engine.Engine) {
		e.SetPageCountAlias("{np}")
		if c.hf {
			e.OnHeader(func() {
				x, y := e.GetXY()
				e.ChangeFont(sfont(c.fam, 7, "B"))
				e.SetTextColor(99, 98, 97)
				e.SetX(44)
				e.WriteText("head {np}")
				e.LineFeed(1)
				e.SetLineWidth(0.7)
				e.SetDrawColor(1, 2, 3)
				e.SetFillColor(4, 5, 6)
				e.FillRect(1, 2, 3, 4)
				e.MoveTo(2, 3)
				e.LineTo(100, 3)
				e.DrawPath()
				e.SetX(x)
				e.SetY(y)
			})
			e.OnFooter(func() {
				x, y := e.GetXY()
				e.SetY(-9)
				e.SetX(13)
				e.ChangeFont(sfont(c.fam, 30, "I"))
				e.WriteText("foot")
				e.SetTextColor(1, 1, 200)
				e.SetX(x)
				e.SetY(y)
			})
		}
		e.ChangeFont(sfont(c.fam, 12, ""))
		e.AddPage()
	}
	start(e)
	start(v)
	names := []string{"start"}
	check := func() bool {
		r.Trans(1)
		if d := observe(v, e, c.uni); d != "" {
			r.Fail("query", "after %s: %s", strings.Join(names, ", "), d)
			return false
		}
		r.Obs(hashStr(fmt.Sprintf("%.4f %.4f %d %v", v.X, v.Y, v.Page, v.FontNow())))
		return true
	}
	if !check() {
		return
	}
	for _, k := range seq {
		names = append(names, ops[k].name)
		ops[k].do(e)
		ops[k].do(v)
		if !check() {
			return
		}
	}
	var pdf, vb bytes.Buffer
	if err := e.WritePDF(&pdf); err != nil {
		r.Fail("error", "after %s: WritePDF: %v", strings.Join(names, ", "), err)
		return
	}
	_ = v.WritePDF(&vb)
	r.Impl(1)
	f, err := pdfread.Parse(pdf.Bytes())
	if err != nil {
		r.Fail("malformed", "after %s: %v", strings.Join(names, ", "), err)
		return
	}
	for i := range v.Doc.Items {
		v.Doc.Items[i].S = strings.ReplaceAll(v.Doc.Items[i].S, "\U0001F600", "\uFFFD")
	}
	if d := sameDoc(f, &v.Doc, testImages); d != "" {
		r.Fail("pdf", "after %s: %s", strings.Join(names, ", "), d)
	}
}

// valueOps are single operations with many values of their arguments.
func valueOps(fam string, thorough bool) []engOp {
	var out []engOp
	add := func(name string, do func(e engine.Engine)) { out = append(out, engOp{name, do}) }
	for k := -24; k <= 80; k++ {
		v := float64(k) / 8
		add(fmt.Sprintf("LineFeed(%g)", v), func(e engine.Engine) { e.LineFeed(v) })
	}
	for _, v := range []float64{0.1, 0.01, 0.3, 1.1, 1.33, 2.7182, 17.9, 30} {
		v := v
		add(fmt.Sprintf("LineFeed(%g)", v), func(e engine.Engine) { e.LineFeed(v) })
		add(fmt.Sprintf("LineFeed twice(%g)", v), func(e engine.Engine) { e.LineFeed(v); e.LineFeed(v) })
	}
	for k := -160; k <= 640; k += 3 {
		v := float64(k) / 4
		add(fmt.Sprintf("SetX(%g)", v), func(e engine.Engine) { e.SetX(v) })
		add(fmt.Sprintf("SetY(%g)", v), func(e engine.Engine) { e.SetY(v) })
		add(fmt.Sprintf("SetX(%g),SetY(%g)", v, 99.1-v/3), func(e engine.Engine) { e.SetX(v); e.SetY(99.1 - v/3) })
		add(fmt.Sprintf("MoveTo(%g)", v), func(e engine.Engine) { e.MoveTo(v, 60-v); e.LineTo(60-v, v/2); e.LineTo(v+1, v+2); e.DrawPath() })
		if k >= 0 {
			add(fmt.Sprintf("FillRect(%g)", v), func(e engine.Engine) { e.FillRect(v/2, v/3, v+0.25, v/5+0.5) })
			add(fmt.Sprintf("PutImage(%g)", v), func(e engine.Engine) { e.PutImage(filepath.Join(engDir, "a.png"), v/2, v/3, v+0.25, v/5+0.5) })
		}
	}
	for k := 0; k <= 60; k++ {
		v := float64(k) / 10
		add(fmt.Sprintf("SetLineWidth(%g)", v), func(e engine.Engine) { e.SetLineWidth(v) })
	}
	for k := 2; k <= 144; k++ {
		v := float64(k) / 2
		for _, fl := range []string{"", "B", "I", "BI", "U"} {
			fl := fl
			add(fmt.Sprintf("ChangeFont(%g %s)", v, fl), func(e engine.Engine) { e.ChangeFont(sfont(fam, v, fl)) })
		}
	}
	step := 5
	if thorough {
		step = 1
	}
	for v := 0; v < 256; v += step {
		v := v
		for c := 0; c < 4; c++ {
			rgb := [3]int{7, 77, 177}
			if c < 3 {
				rgb[c] = v
			} else {
				rgb = [3]int{v, v, v}
			}
			add(fmt.Sprintf("SetTextColor%v", rgb), func(e engine.Engine) { e.SetTextColor(rgb[0], rgb[1], rgb[2]) })
			add(fmt.Sprintf("SetDrawColor%v", rgb), func(e engine.Engine) { e.SetDrawColor(rgb[0], rgb[1], rgb[2]) })
			add(fmt.Sprintf("SetFillColor%v", rgb), func(e engine.Engine) { e.SetFillColor(rgb[0], rgb[1], rgb[2]) })
		}
	}
	return out
}

func engineSpaces(tier string) []core.Space {
	var out []core.Space
	// one operation with many values, between others that show its effect
	for _, c := range engConfs[:2] {
		c := c
		vals := valueOps(c.fam, tier == "thorough")
		fixed := []engOp{
			{"WriteText(ab)", func(e engine.Engine) { e.WriteText("ab") }},
			{"path", func(e engine.Engine) { e.MoveTo(15, 25); e.LineTo(70, 35); e.DrawPath() }},
			{"FillRect", func(e engine.Engine) { e.FillRect(11, 22, 33, 44) }},
			{"LineFeed(1)", func(e engine.Engine) { e.LineFeed(1) }},
			{"SetY(40)", func(e engine.Engine) { e.SetX(35); e.SetY(40) }},
		}
		all := append(append([]engOp{}, fixed...), vals...)
		befores := [][]int{{}, {4}, {0}, {4, 0, 2}}
		seq := func(i int64) []int {
			g := core.Digits(i, len(vals), len(befores))
			s := append([]int{}, befores[g[1]]...)
			return append(s, len(fixed)+g[0], 0, 1, 2, 3, 0)
		}
		out = append(out, core.Space{Name: "values-" + c.name, N: core.Prod(len(vals), len(befores)),
			Run: func(i int64, r *core.Rec) { judgeEngine(r, c, all, seq(i)) },
			Desc: func(i int64) string {
				s := c.name
				for _, k := range seq(i) {
					s += ", " + all[k].name
				}
				return s
			}})
	}
	add := func(name string, c engConf, ops []engOp, lo, hi int) {
		out = append(out, core.Space{Name: name, N: core.Seqs(len(ops), lo, hi),
			Run: func(i int64, r *core.Rec) { judgeEngine(r, c, ops, core.Seq(i, len(ops), lo, hi)) },
			Desc: func(i int64) string {
				s := c.name
				for _, k := range core.Seq(i, len(ops), lo, hi) {
					s += ", " + ops[k].name
				}
				return s
			}})
	}
	for _, c := range engConfs {
		ops := engOps(c.fam, c.uni)
		d := 3
		if c.uni || c.name == "letter-hf" {
			d = 2
		}
		if tier == "thorough" {
			d++
		}
		if c.uni {
			d = 2
		}
		add(c.name, c, ops, 0, d)
	}
	// deeper over the operations that influence each other most
	var few []engOp
	for _, o := range engOps("Courier", false) {
		switch o.name {
		case "SetX(-25)", "SetY(-22)", "LineFeed(1)", "ChangeFont(20)", "WriteText(ab)", "WriteText(long)", "AddPage", "path", "SetTextColor", "FillRect", "WriteText( (c) \\)":
			few = append(few, o)
		}
	}
	d := 4
	if tier == "thorough" {
		d = 5
	}
	add("deep", engConfs[1], few, d, d)
	return out
}

// ---- measured width = drawn width, for all standard fonts

func measureSpaces(tier string) []core.Space {
	fams := []string{"Courier", "Helvetica", "Arial", "Times", "sans"}
	flags := []string{"", "B", "I", "BI", "U", "BIU"}
	sizes := []float64{6, 8.5, 12, 20}
	var texts []string
	for c := rune(33); c < 127; c++ {
		texts = append(texts, string(c), "a"+string(c)+" "+string(c))
	}
	n := core.Prod(len(fams), len(flags), len(sizes))
	return []core.Space{{Name: "measure", N: n,
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(fams), len(flags), len(sizes))
			fam := fams[g[0]]
			reg := font.NewRegistry()
			if fam == "sans" {
				reg = sansRegistry(engDir)
			}
			doc := lab.Load(engConfs[0].doc().XML())
			e, err := engine.NewFPDF(reg, doc)
			if err != nil {
				r.Fail("error", "%v", err)
				return
			}
			e.ChangeFont(sfont(fam, sizes[g[2]], flags[g[1]]))
			e.AddPage()
			fl := flags[g[1]]
			for _, t := range texts {
				e.SetX(30)
				e.SetY(40)
				w := e.TextWidth(t)
				e.WriteText(t)
				x, y := e.GetXY()
				r.Trans(1)
				if math.Abs(x-30-w) > 1e-6 || math.Abs(y-40) > 1e-6 || w <= 0 {
					r.Fail("measure", "%s %g %s: %q is measured %g wide, writing it moves the cursor from (30,40) to (%g,%g)", fam, sizes[g[2]], fl, t, w, x, y)
					return
				}
			}
			var b bytes.Buffer
			if err := e.WritePDF(&b); err != nil {
				r.Fail("error", "%v", err)
				return
			}
			r.Impl(1)
			f, err := pdfread.Parse(b.Bytes())
			if err != nil {
				r.Fail("malformed", "%v", err)
				return
			}
			want := strings.ToLower(fam)
			if want == "arial" {
				want = "helvetica"
			}
			for k, it := range f.Doc.Items {
				if k >= len(texts) || it.S != texts[k] {
					r.Fail("pdf", "item %d is %s", k, it)
					return
				}
				if it.Font.Family != want || math.Abs(it.Font.Size-sizes[g[2]]) > 0.01 || it.Font.Bold != strings.Contains(fl, "B") || it.Font.Italic != strings.Contains(fl, "I") || it.Font.Underline != strings.Contains(fl, "U") {
					r.Fail("font", "asked for %s %g %s, the PDF has %s", fam, sizes[g[2]], fl, it)
					return
				}
			}
			if len(f.Doc.Items) != len(texts) {
				r.Fail("pdf", "%d texts in the PDF, %d written", len(f.Doc.Items), len(texts))
			}
			r.Obs(uint64(i))
		},
		Desc: func(i int64) string {
			g := core.Digits(i, len(fams), len(flags), len(sizes))
			return fmt.Sprintf("%s %q %g: all printable ASCII characters", fams[g[0]], flags[g[1]], sizes[g[2]])
		}}}
}

func init() {
	core.Register(&core.Check{ID: "C31", Rule: "every sequence of drawing operations up to a depth on the real and on the virtual engine: all queries compared after every operation, the PDF read back compared with the draw list; measured and drawn widths for all fonts and printable characters",
		Spaces: func(tier string) []core.Space { return append(engineSpaces(tier), measureSpaces(tier)...) }, Setup: engSetup})
}
