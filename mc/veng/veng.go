// Package veng is a model of the drawing engine: it implements engine.Engine with exact metrics,
// following gofpdf's rules for the cursor, automatic wrapping and automatic page breaks, and
// records a draw list. It is bound to the real engine by the conformance check of property C31.
package veng

import (
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/dl"
)

// Dyadic metrics: all widths and heights are multiples of 1/64 for half-integral font sizes.
type Dyadic struct{}

func (Dyadic) CharWidth(f dl.Font, c rune) float64 {
	w := f.Size * 0.25
	switch c {
	case 'i', 'l', '.', 'j':
		w *= 0.5
	case 'm', 'w', 'M', 'W':
		w *= 1.5
	}
	if f.Bold {
		w *= 1.25
	}
	if f.Italic {
		w *= 1.125
	}
	if f.Family == "wide" {
		w *= 1.5
	}
	return w
}
func (Dyadic) Height(f dl.Font) float64 { return f.Size * 0.5 }
func (Dyadic) Tol() float64             { return 1e-6 }

// Courier has the metrics of the PDF standard font Courier in millimetres.
type Courier struct{}

const K = 72.0 / 25.4

// CharWidth: standard fonts are byte fonts, a character has one width per byte.
func (Courier) CharWidth(f dl.Font, c rune) float64 {
	return 600 * (f.Size / K) / 1000 * float64(utf8.RuneLen(c))
}
func (Courier) Height(f dl.Font) float64 { return f.Size / K }
func (Courier) Tol() float64             { return 0.02 }

// Real marks the metrics of the real engine.
func (Courier) Real() {}

type state struct {
	font dl.Font
	text dl.RGB
	draw dl.RGB
	fill dl.RGB
	lw   float64
}

type Engine struct {
	engine.Engine // nil: methods added to the interface later would panic when used
	M             dl.Metrics
	PW, PH        float64
	L, T, R, B    float64
	CMargin       float64

	X, Y    float64
	st      state
	Page    int
	lasth   float64
	header  func()
	footer  func()
	inH     bool
	inF     bool
	phase   byte
	alias   string
	px, py  float64
	segs    []dl.Item
	Doc     dl.Doc
	Ops     int
	depth   int
	err     error
	closed  bool
	unknown func(family string) bool

	OnOp func(op string) // called before every operation if set (scheduling point / monitor)
}

const maxOps = 2000000

// New makes an engine with the page set-up of the document.
func New(doc *xdoc.Document, m dl.Metrics) *Engine {
	e := &Engine{M: m, CMargin: 1, phase: 'b'}
	sizes := map[xdoc.PaperFormat][2]float64{
		xdoc.FormatA3: {297, 420}, xdoc.FormatA4: {210, 297}, xdoc.FormatA5: {148, 210},
		xdoc.FormatLetter: {216, 280}, xdoc.FormatLegal: {216, 356},
	}
	if _, real := m.(interface{ Real() }); real {
		sizes = map[xdoc.PaperFormat][2]float64{
			xdoc.FormatA3: {841.89 / K, 1190.55 / K}, xdoc.FormatA4: {595.28 / K, 841.89 / K}, xdoc.FormatA5: {420.94 / K, 595.28 / K},
			xdoc.FormatLetter: {612 / K, 792 / K}, xdoc.FormatLegal: {612 / K, 1008 / K},
		}
		e.CMargin = 28.35 / K / 10
	}
	s, ok := sizes[doc.Page.Format]
	if !ok {
		s = sizes[xdoc.FormatA4]
	}
	e.PW, e.PH = s[0], s[1]
	if doc.Page.Orientation == xdoc.OrientationLandscape {
		e.PW, e.PH = e.PH, e.PW
	}
	mg := doc.Page.Margins
	e.L, e.T, e.R, e.B = mg.Left, mg.Top, mg.Right, mg.Bottom
	e.st.lw = 0.2
	e.st.font = dl.Font{Size: 12}
	return e
}

// SetUnknownFont installs a predicate for font families the engine does not have.
func (e *Engine) SetUnknownFont(f func(family string) bool) { e.unknown = f }

func (e *Engine) op(name string) {
	e.Ops++
	if e.Ops > maxOps {
		panic("runaway: more than 2000000 engine operations")
	}
	if e.OnOp != nil {
		e.OnOp(name)
	}
}

func (e *Engine) add(it dl.Item) {
	it.Page = e.Page
	it.Phase = e.phase
	e.Doc.Items = append(e.Doc.Items, it)
}

func (e *Engine) Error() error { e.op("Error"); return e.err }

func (e *Engine) WritePDF(w io.Writer) error {
	e.op("WritePDF")
	if e.err != nil {
		return e.err
	}
	if !e.closed {
		if e.Page == 0 {
			e.addPage()
		}
		e.runFooter()
		e.closed = true
	}
	e.Doc.Pages = e.Page
	e.Doc.PageW, e.Doc.PageH = e.PW, e.PH
	if e.alias != "" {
		for i := range e.Doc.Items {
			it := &e.Doc.Items[i]
			if it.Kind == dl.Text {
				it.S = strings.ReplaceAll(it.S, e.alias, fmt.Sprint(e.Page))
			}
		}
	}
	_, err := io.WriteString(w, "%VPDF\n%%EOF\n")
	if err != nil && e.err == nil {
		e.err = err
	}
	return e.err
}

func (e *Engine) SetPageCountAlias(a string) { e.op("SetPageCountAlias"); e.alias = a }
func (e *Engine) CurrentPage() int           { e.op("CurrentPage"); return e.Page }
func (e *Engine) OnHeader(f func())          { e.op("OnHeader"); e.header = f }
func (e *Engine) OnFooter(f func())          { e.op("OnFooter"); e.footer = f }

func (e *Engine) runFooter() {
	if e.footer == nil {
		return
	}
	e.depth++
	if e.depth > 60 {
		panic("runaway: header/footer recursion")
	}
	op := e.phase
	e.phase = 'f'
	e.inF = true
	e.footer()
	e.inF = false
	e.phase = op
	e.depth--
}

func (e *Engine) AddPage() { e.op("AddPage"); e.addPage() }

func (e *Engine) addPage() {
	if e.err != nil {
		return
	}
	e.depth++
	if e.depth > 60 {
		panic("runaway: page break recursion")
	}
	defer func() { e.depth-- }()
	saved := e.st
	if e.Page > 0 {
		e.runFooter()
	}
	e.Page++
	e.Doc.PageSizes = append(e.Doc.PageSizes, [2]float64{e.PW, e.PH})
	e.X, e.Y = e.L, e.T
	e.st = saved
	if e.header != nil {
		op := e.phase
		e.phase = 'h'
		e.inH = true
		e.header()
		e.inH = false
		e.phase = op
	}
	if e.err == nil {
		e.st = saved
	}
}

func (e *Engine) setX(x float64) {
	if x >= 0 {
		e.X = x
	} else {
		e.X = e.PW + x
	}
}
func (e *Engine) setY(y float64) {
	if y >= 0 {
		e.Y = y
	} else {
		e.Y = e.PH + y
	}
}
func (e *Engine) SetX(x float64)            { e.op("SetX"); e.setX(x) }
func (e *Engine) SetY(y float64)            { e.op("SetY"); e.setX(e.X); e.setY(y) }
func (e *Engine) GetXY() (float64, float64) { e.op("GetXY"); return e.X, e.Y }

func (e *Engine) LineFeed(lines float64) {
	e.op("LineFeed")
	e.X = e.L
	h := e.M.Height(e.st.font) * lines
	if h < 0 {
		e.Y += e.lasth
	} else {
		e.Y += h
	}
}

func (e *Engine) ChangeFont(f style.Font) {
	e.op("ChangeFont")
	if e.err != nil {
		return
	}
	n := dl.Font{
		Family:    strings.ToLower(f.Family),
		Size:      f.PointSize,
		Bold:      f.Weight == style.FontWeightBold,
		Italic:    f.Style == style.FontStyleItalic,
		Underline: f.Decoration == style.FontDecorationUnderline,
	}
	if n.Family == "" {
		n.Family = e.st.font.Family
	}
	if n.Size == 0 {
		n.Size = e.st.font.Size
	}
	if e.unknown != nil && e.unknown(n.Family) {
		e.err = fmt.Errorf("undefined font: %s", n.Family)
		return
	}
	if n.Family == "arial" {
		n.Family = "helvetica"
	}
	e.st.font = n
}

func (e *Engine) PrintableArea() (x0, y0, x1, y1 float64) {
	e.op("PrintableArea")
	return e.L, e.T, e.PW - e.R - 2, e.PH - e.B
}
func (e *Engine) PageWidth() float64  { e.op("PageWidth"); return e.PW }
func (e *Engine) PageHeight() float64 { e.op("PageHeight"); return e.PH }
func (e *Engine) Margins() (l, t, r, b float64) {
	e.op("Margins")
	return e.L, e.T, e.R, e.B
}
func (e *Engine) MonoFont() string { e.op("MonoFont"); return "courier" }

func (e *Engine) PutImage(src string, x, y, width, height float64) {
	e.op("PutImage")
	if e.err != nil {
		return
	}
	if x < 0 {
		x = e.X
	}
	e.add(dl.Item{Kind: dl.Image, X: x, Y: y, W: width, H: height, S: src})
}

func (e *Engine) SetTextColor(r, g, b int) { e.op("SetTextColor"); e.st.text = dl.RGB{r, g, b} }
func (e *Engine) FontHeight() float64      { e.op("FontHeight"); return e.M.Height(e.st.font) }
func (e *Engine) TextWidth(s string) float64 {
	e.op("TextWidth")
	if e.err != nil {
		return 0
	}
	return dl.Width(e.M, e.st.font, s)
}

func (e *Engine) cell(w, h float64, s string, ln bool) {
	if e.err != nil {
		return
	}
	if e.Y+h > e.PH-e.B && !e.inH && !e.inF {
		x := e.X
		e.addPage()
		if e.err != nil {
			return
		}
		e.X = x
	}
	if w == 0 {
		w = e.PW - e.R - e.X
	}
	if s != "" {
		e.add(dl.Item{Kind: dl.Text, X: e.X, Y: e.Y, W: dl.Width(e.M, e.st.font, s), H: e.M.Height(e.st.font), S: s, Font: e.st.font, Color: e.st.text})
	}
	e.lasth = h
	if ln {
		e.Y += h
	} else {
		e.X += w
	}
}

// WriteText follows gofpdf's Fpdf.write.
func (e *Engine) WriteText(txt string) {
	e.op("WriteText")
	h := e.M.Height(e.st.font)
	w := e.PW - e.R - e.X
	wmax := w - 2*e.CMargin
	s := []rune(strings.ReplaceAll(txt, "\r", ""))
	nb := len(s)
	sep, i, j, nl := -1, 0, 0, 1
	var l float64
	for i < nb {
		c := s[i]
		if c == '\n' {
			e.cell(w, h, string(s[j:i]), true)
			i++
			sep = -1
			j = i
			l = 0
			if nl == 1 {
				e.X = e.L
				w = e.PW - e.R - e.X
				wmax = w - 2*e.CMargin
			}
			nl++
			continue
		}
		if c == ' ' {
			sep = i
		}
		l += e.M.CharWidth(e.st.font, c)
		if l > wmax {
			if sep == -1 {
				if e.X > e.L {
					e.X = e.L
					e.Y += h
					w = e.PW - e.R - e.X
					wmax = w - 2*e.CMargin
					i++
					nl++
					continue
				}
				if i == j {
					i++
				}
				e.cell(w, h, string(s[j:i]), true)
			} else {
				e.cell(w, h, string(s[j:sep]), true)
				i = sep + 1
			}
			sep = -1
			j = i
			l = 0
			if nl == 1 {
				e.X = e.L
				w = e.PW - e.R - e.X
				wmax = w - 2*e.CMargin
			}
			nl++
		} else {
			i++
		}
	}
	if i != j {
		e.cell(l, h, string(s[j:]), false)
	}
}

func (e *Engine) SetLineWidth(w float64)   { e.op("SetLineWidth"); e.st.lw = w }
func (e *Engine) SetDrawColor(r, g, b int) { e.op("SetDrawColor"); e.st.draw = dl.RGB{r, g, b} }
func (e *Engine) SetFillColor(r, g, b int) { e.op("SetFillColor"); e.st.fill = dl.RGB{r, g, b} }

func (e *Engine) FillRect(x, y, width, height float64) {
	e.op("FillRect")
	e.add(dl.Item{Kind: dl.Rect, X: x, Y: y, W: width, H: height, Color: e.st.fill})
}

func (e *Engine) MoveTo(x, y float64) {
	e.op("MoveTo")
	e.px, e.py = x, y
	e.X, e.Y = x, y
}

func (e *Engine) LineTo(x, y float64) {
	e.op("LineTo")
	e.segs = append(e.segs, dl.Item{Kind: dl.Line, X: e.px, Y: e.py, W: x, H: y})
	e.px, e.py = x, y
	e.X, e.Y = x, y
}

func (e *Engine) DrawPath() {
	e.op("DrawPath")
	for _, s := range e.segs {
		s.Color = e.st.draw
		s.LW = e.st.lw
		e.add(s)
	}
	e.segs = nil
}

// FontNow and ColorNow expose the current text state.
func (e *Engine) FontNow() dl.Font { return e.st.font }

var _ engine.Engine = (*Engine)(nil)
