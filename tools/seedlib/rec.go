package main

// A recording engine with simple metrics, for demonstrations.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

// Op is something drawn.
type Op struct {
	Kind       string // text, rect, line, image
	Page       int
	X, Y, W, H float64
	S          string
	Font       style.Font
	Color      string
}

func (o Op) String() string {
	return fmt.Sprintf("%s p%d (%.2f,%.2f %.2fx%.2f) %q %v %s", o.Kind, o.Page, o.X, o.Y, o.W, o.H, o.S, o.Font, o.Color)
}

type Rec struct {
	pw, ph, l, t, r, b float64
	x, y               float64
	px, py             float64
	page               int
	font               style.Font
	text, draw, fill   string
	header, footer     func()
	Ops                []Op
}

func NewRec(doc *xdoc.Document) *Rec {
	m := doc.Page.Margins
	return &Rec{pw: 100, ph: 120, l: m.Left, t: m.Top, r: m.Right, b: m.Bottom}
}

func (e *Rec) Error() error             { return nil }
func (e *Rec) SetPageCountAlias(string) {}
func (e *Rec) CurrentPage() int         { return e.page }
func (e *Rec) OnHeader(f func())        { e.header = f }
func (e *Rec) OnFooter(f func())        { e.footer = f }
func (e *Rec) WritePDF(w io.Writer) error {
	if e.footer != nil {
		e.footer()
	}
	return nil
}
func (e *Rec) AddPage() {
	f, t, d, fl := e.font, e.text, e.draw, e.fill
	if e.page > 0 && e.footer != nil {
		e.footer()
	}
	e.page++
	e.x, e.y = e.l, e.t
	e.font, e.text, e.draw, e.fill = f, t, d, fl
	if e.header != nil {
		e.header()
	}
	e.font, e.text, e.draw, e.fill = f, t, d, fl
	if e.page > 500 {
		panic("too many pages")
	}
}
func (e *Rec) SetX(x float64)            { e.x = x }
func (e *Rec) SetY(y float64)            { e.y = y }
func (e *Rec) GetXY() (float64, float64) { return e.x, e.y }
func (e *Rec) LineFeed(n float64)        { e.x = e.l; e.y += n * e.FontHeight() }
func (e *Rec) ChangeFont(f style.Font)   { e.font = f }
func (e *Rec) PageWidth() float64        { return e.pw }
func (e *Rec) PageHeight() float64       { return e.ph }
func (e *Rec) FontHeight() float64       { return float64(e.font.PointSize) * 0.5 }
func (e *Rec) MonoFont() string          { return "Courier" }
func (e *Rec) TextWidth(s string) float64 {
	return float64(len([]rune(s))) * float64(e.font.PointSize) * 0.25
}
func (e *Rec) SetLineWidth(float64)     {}
func (e *Rec) SetTextColor(r, g, b int) { e.text = fmt.Sprintf("%02x%02x%02x", r, g, b) }
func (e *Rec) SetDrawColor(r, g, b int) { e.draw = fmt.Sprintf("%02x%02x%02x", r, g, b) }
func (e *Rec) SetFillColor(r, g, b int) { e.fill = fmt.Sprintf("%02x%02x%02x", r, g, b) }
func (e *Rec) MoveTo(x, y float64)      { e.x, e.y, e.px, e.py = x, y, x, y }
func (e *Rec) DrawPath()                {}
func (e *Rec) Margins() (float64, float64, float64, float64) {
	return e.l, e.t, e.r, e.b
}
func (e *Rec) PrintableArea() (float64, float64, float64, float64) {
	return e.l, e.t, e.pw - e.r - 2, e.ph - e.b
}
func (e *Rec) PutImage(src string, x, y, w, h float64) {
	e.Ops = append(e.Ops, Op{Kind: "image", Page: e.page, X: x, Y: y, W: w, H: h, S: src})
}
func (e *Rec) WriteText(s string) {
	h := e.FontHeight()
	if e.y+h > e.ph-e.b {
		x := e.x
		e.AddPage()
		e.x = x
	}
	w := e.TextWidth(s)
	e.Ops = append(e.Ops, Op{Kind: "text", Page: e.page, X: e.x, Y: e.y, W: w, H: h, S: s, Font: e.font, Color: e.text})
	e.x += w
}
func (e *Rec) FillRect(x, y, w, h float64) {
	e.Ops = append(e.Ops, Op{Kind: "rect", Page: e.page, X: x, Y: y, W: w, H: h, Color: e.fill})
}
func (e *Rec) LineTo(x, y float64) {
	e.Ops = append(e.Ops, Op{Kind: "line", Page: e.page, X: e.px, Y: e.py, W: x - e.px, H: y - e.py, Color: e.draw})
	e.x, e.y, e.px, e.py = x, y, x, y
}

var _ engine.Engine = (*Rec)(nil)

// Render processes a document with the recording engine.
func Render(xml string, patterns string) *Rec {
	doc, err := xdoc.Load(strings.NewReader(xml))
	Must(err)
	e := NewRec(doc)
	h, err := hyphenation.Load(strings.NewReader(patterns))
	Must(err)
	Must(xpdf.NewProcessor(e, h, doc, ".").Process(io.Discard))
	return e
}

// Texts are the drawn texts that are not blank.
func (e *Rec) Texts() []Op {
	var out []Op
	for _, o := range e.Ops {
		if o.Kind == "text" && strings.TrimSpace(o.S) != "" {
			out = append(out, o)
		}
	}
	return out
}

func (e *Rec) Of(kind string) []Op {
	var out []Op
	for _, o := range e.Ops {
		if o.Kind == kind {
			out = append(out, o)
		}
	}
	return out
}

// Find gives the first text containing s.
func (e *Rec) Find(s string) Op {
	for _, o := range e.Ops {
		if o.Kind == "text" && strings.Contains(o.S, s) {
			return o
		}
	}
	Fail("text %q is not drawn", s)
	return Op{}
}

// Doc makes a document around a body; the page is 100 x 120 on the recording engine.
func Doc(margins, sty, header, footer, body string) string {
	var l, t, r, b string
	fmt.Sscan(margins, &l, &t, &r, &b)
	return `<document><page><orientation>portrait</orientation><format>a5</format><margins><left>` + l + `</left><top>` + t + `</top><right>` + r + `</right><bottom>` + b + `</bottom></margins></page><style>` + sty + `</style><header>` + header + `</header><footer>` + footer + `</footer><body>` + body + `</body></document>`
}

// PDF renders with the real engine and yields the file and its inflated streams.
func PDF(xml string, reg *font.Registry) (string, string) {
	doc, err := xdoc.Load(strings.NewReader(xml))
	Must(err)
	if reg == nil {
		reg = font.NewRegistry()
	}
	e, err := engine.NewFPDF(reg, doc)
	Must(err)
	var buf bytes.Buffer
	Must(xpdf.NewProcessor(e, hyphenation.NewEnUs(), doc, ".").Process(&buf))
	return buf.String(), Inflate(buf.Bytes())
}

var reStream = regexp.MustCompile(`(?s)stream\r?\n(.*?)\r?\nendstream`)

func Inflate(pdf []byte) string {
	var sb strings.Builder
	for _, m := range reStream.FindAllSubmatch(pdf, -1) {
		zr, err := zlib.NewReader(bytes.NewReader(m[1]))
		if err != nil {
			continue
		}
		b, _ := io.ReadAll(zr)
		sb.Write(b)
		sb.WriteString("\n")
	}
	return sb.String()
}

func Near(a, b float64) bool { return a-b < 0.05 && b-a < 0.05 }

func Must(err error) {
	if err != nil {
		Fail("unexpected error: %v", err)
	}
}

func Fail(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

func Check(ok bool, f string, a ...interface{}) {
	if !ok {
		Fail(f, a...)
	}
}
