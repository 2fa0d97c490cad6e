GOFONT = "/root/go/pkg/mod/golang.org/x/image@v0.0.0-20190802002840-cff245a6509b/font/gofont/ttfs"
H = 'package main\n\n'
def M(body, imports=()):
    imp = "".join(f'\t"{i}"\n' for i in imports)
    return H + (f"import (\n{imp})\n\n" if imp else "") + "func main() {\n" + body + "\n}\n"

HY = ("strings", "github.com/mazzegi/xpdf/hyphenation")

seed("c01-lower-case-parts", "C01",
  "a word with capital letters that is divided",
  "The parts of a hyphenated word are cut from its lower-cased form, so capital letters are lost wherever a capitalised word is looked up.",
  [("hyphenation/hyphenation.go", '''	rs := []rune("." + strings.ToLower(s) + ".")''', '''	s = strings.ToLower(s)
	rs := []rune("." + s + ".")''')],
  M('''	h, err := hyphenation.Load(strings.NewReader("b1c\\n"))
	Must(err)
	for _, w := range []string{"abcd", "ABcd", "aBCD", "Abcd"} {
		got := strings.Join(h.Hyphenate(w), "")
		Check(got == w, "%q became %q", w, got)
	}''', HY))

seed("c02-whole-word-pattern", "C02",
  "a pattern as long as the whole word with both word ends",
  "Patterns that cover the entire word including both dots are no longer looked up.",
  [("hyphenation/hyphenation.go", "subSize <= len(rs); subSize++", "subSize < len(rs); subSize++")],
  M('''	h, err := hyphenation.Load(strings.NewReader("b1c\\n.abc2d.\\n.xy1zv.\\n"))
	Must(err)
	Check(strings.Join(h.Hyphenate("xyzv"), "|") == "xy|zv", "%q", h.Hyphenate("xyzv"))
	Check(strings.Join(h.Hyphenate("abcde"), "|") == "ab|cde", "%q", h.Hyphenate("abcde"))''', HY))

seed("c03-first-pattern-wins", "C03",
  "two lines with the same letters in one pattern source",
  "Of two patterns with the same letters the first instead of the last counts.",
  [("hyphenation/pattern.go", "		pl.patterns[string(p.Letters)] = p", '''		key := string(p.Letters)
		if _, ok := pl.patterns[key]; !ok {
			pl.patterns[key] = p
		}''')],
  M('''	h, err := hyphenation.Load(strings.NewReader("b1c\\nx1y\\nb2c\\n"))
	Must(err)
	Check(len(h.Hyphenate("abcd")) == 1, "%q", h.Hyphenate("abcd"))''', HY))

seed("c04-trim-before-tab", "C04",
  "a text that begins or ends with a tab",
  "Blanks that stem from leading or trailing tabs are not trimmed.",
  [("text/text.go", '''	rs = strings.ReplaceAll(rs, "\\t", " ")
	rs = strings.Trim(rs, " ")
''', '''	rs = strings.Trim(rs, " ")
	rs = strings.ReplaceAll(rs, "\\t", " ")
''')],
  M('''	for in, want := range map[string]string{"\\tfoo": "foo", "foo\\t": "foo", "a\\t\\tb": "a b", " a ": "a"} {
		got := text.WhitespaceRectified(in)
		Check(got == want, "%q gives %q", in, got)
	}''', ("github.com/mazzegi/xpdf/text",)))

seed("c05-runs-glued", "C05",
  "a text of several runs whose second run does not begin a line",
  "The blank between two runs of a text (plain text followed by a paragraph element) is dropped, words of different runs are joined.",
  [("text.go", "		for _, word := range words {", "		for wi, word := range words {"),
   ("text.go", '''			if len(curr.items) > 0 {
				item.text = " " + item.text
			}''', '''			if len(curr.items) > 0 && wi > 0 {
				item.text = " " + item.text
			}''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", "<text>one <p>two three</p> four</text>"), "")
	all := ""
	for _, o := range e.Texts() {
		all += o.S
	}
	Check(all == "one two three four", "%q", all)''', ()))

seed("c06-leading-dash-lost", "C06",
  "a word beginning with a dash inside a stretched line of block-aligned text",
  "In stretched lines the dash at the beginning of a word is not drawn.",
  [("text-hyph.go", """				p.engine.WriteText(strings.Trim(item.text, " "))""", """				p.engine.WriteText(strings.TrimLeft(item.text, " -"))""")],
  M("""	e := Render(Doc("10 10 10 10", "", "", "", `<text style="h-align: block; width: 40;">ab -5 cd efgh ijkl</text>`), "")
	e.Find("-5")"""))

seed("c07-shortest-part-not-tried", "C07",
  "a line with just enough room for the first part of the next word, but not for its first two parts",
  "The shortest part of a word is never tried when filling up a line, the line ends early.",
  [("text-hyph.go", "for i := len(parts) - 2; i >= 0; i-- {", "for i := len(parts) - 2; i > 0; i-- {")],
  M("""	e := Render(Doc("10 10 10 10", "", "", "", `<text style="h-align: block; width: 40;">abcdefg cdefghijklmnop qr</text>`), "d1e\\nl1m\\n")
	Check(Near(e.Find("cd-").Y, e.Find("abcdefg").Y), "%v", e.Texts())"""))

seed("c08-gap-counts-blank", "C08",
  "a block-aligned line of several words that ends with a divided word",
  "For a line ending in a divided word the blank before it is counted as text, so the line ends short of the right edge.",
  [("text-hyph.go", '''					curr.pureTextWidth += p.engine.TextWidth(strings.Trim(s1, " "))''', '''					curr.pureTextWidth += p.engine.TextWidth(s1)''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<text style="h-align: block; width: 45;">ab cd efghijklmnop qr st</text>`), "h1i\\nj1k\\n")
	for _, o := range e.Texts() {
		if o.S[len(o.S)-1] == '-' {
			Check(o.X+o.W > 54 && o.X+o.W < 55.5, "%v", o)
			return
		}
	}
	Fail("nothing divided: %v", e.Texts())''', ()))

seed("c09-offset-not-below", "C09",
  "a box with a vertical offset followed by another element",
  "The element after a box with offset-y starts above the lower edge of that box.",
  [("process.go", '''	p.engine.SetY(y1)
}

//
func (p *Processor) textHeightFnc''', '''	p.engine.SetY(y1 - sty.Dimension.OffsetY)
}

//
func (p *Processor) textHeightFnc''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<box style="offset-y: 7">one</box><box>two</box>`), "")
	r := e.Of("rect")
	Check(Near(r[0].Y, 17.5) && r[1].Y > r[0].Y+r[0].H, "%v", r)''', ()))

seed("c10-top-margin-as-bottom", "C10",
  "a page whose top and bottom margins differ and a box near the page end",
  "Whether a box still fits on the page is decided with the top margin instead of the bottom margin.",
  [("process.go", '''	_, _, _, bm := p.engine.Margins()''', '''	_, bm, _, _ := p.engine.Margins()''')],
  M('''	body := ""
	for i := 0; i < 30; i++ {
		body += "<box>x</box>"
	}
	e := Render(Doc("10 5 10 40", "", "", "", body), "")
	for _, o := range e.Of("rect") {
		Check(o.Y+o.H <= 80.5, "%v", o)
	}''', ()))

seed("c11-header-x-kept", "C11",
  "a header that leaves the cursor right of the margin",
  "The horizontal position in which the header leaves the cursor is taken over by the body.",
  [("process.go", '''			p.currStyles = sty
			p.engine.SetX(x)
			p.engine.SetY(y)
			p.preventPageBreak = false
		}()
		p.processInstructions(p.doc.Header)''', '''			p.currStyles = sty
			p.engine.SetY(y)
			p.preventPageBreak = false
			if xh, _ := p.engine.GetXY(); xh < x {
				p.engine.SetX(x)
			}
		}()
		p.processInstructions(p.doc.Header)''')],
  M('''	e := Render(Doc("10 10 10 10", "", `<setx x="40"/>`, "", "<text>one</text><newpage/><text>two</text>"), "")
	Check(Near(e.Find("one").X, 10) && Near(e.Find("two").X, 10), "%v", e.Ops)''', ()))

seed("c12-only-first-number", "C12",
  "a run that contains {cp} more than once",
  "Only the first page number of a run is filled in.",
  [("process.go", '''strings.ReplaceAll(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()))''', '''strings.Replace(s, "{cp}", fmt.Sprintf("%d", p.engine.CurrentPage()), 1)''')],
  M('''	e := Render(Doc("10 10 10 10", "", "<text>{cp}/{cp}</text>", "", "<text>x</text>"), "")
	e.Find("1/1")''', ()))

seed("c13-colspan-only-inner-width", "C13",
  "a cell spanning three or more columns",
  "A cell spanning more than two columns is drawn without its last column.",
  [("table.go", '''	for _, sc := range c.spansCols {
		width += sc.width
	}
	for _, sc := range c.spansRows {
		height += sc.height''', '''	for i, sc := range c.spansCols {
		if i > 0 && i == len(c.spansCols)-1 {
			break
		}
		width += sc.width
	}
	for _, sc := range c.spansRows {
		height += sc.height''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table style="width: 60"><tr><td colspan="3">a</td></tr><tr><td>b</td><td>c</td><td>d</td></tr></table>`), "")
	r := e.Of("rect")
	Check(Near(r[0].W, 59), "%v", r)''', ()))

seed("c14-header-left-alone", "C14",
  "a table with a repeated header that starts near the page end",
  "A table is begun on a page that takes its header rows but not the first row after them.",
  [("table.go", '''		for i := 0; i < xtab.RepeatHeader+1; i++ {''', '''		for i := 0; i < xtab.RepeatHeader || i == 0; i++ {''')],
  M('''	for y := 80; y < 110; y++ {
		e := Render(Doc("10 10 10 10", "", "", "", fmt.Sprintf(`<sety y="%d"/><table repeatheader="1"><tr><td>head</td></tr><tr><td>row</td></tr></table>`, y)), "")
		n := 0
		for _, o := range e.Texts() {
			if o.S == "head" {
				n++
			}
		}
		Check(n == 1 && e.Find("head").Page == e.Find("row").Page, "y=%d: %v", y, e.Texts())
	}''', ("fmt",)))

seed("c15-padding-in-middle", "C15",
  "a bottom-aligned cell with padding at the bottom",
  "Bottom-aligned text is placed from the cell's lower edge, without its padding.",
  [("table.go", '''			p.engine.SetY(paddedPa.y0 + textMargin)''', '''			p.engine.SetY(pa.y1 - textHeight)''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table><tr><td style="height: 40; padding: 0,6,0,2; v-align: bottom">a</td></tr></table>`), "")
	o := e.Find("a")
	Check(Near(o.Y+o.H, 48), "%v", o)''', ()))

seed("c16-spanning-cell-sets-width", "C16",
  "a column width given in a cell that is not in the first row, smaller than one given before",
  "Instead of the largest width given in a column, the last one counts.",
  [("table.go", '''			if cell.ColumnWidth > cws[ic] {''', '''			if cell.ColumnWidth > 0 {''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table style="width: 60"><tr><td style="column-width: 30">a</td><td>b</td></tr><tr><td style="column-width: 12">c</td><td>d</td></tr></table>`), "")
	r := e.Of("rect")
	Check(Near(r[0].W, 29) && Near(r[2].W, 29), "%v", r)''', ()))

seed("c17-inner-cells-skip-row", "C17",
  "a styled row with at least three cells",
  "Cells between the first and the last one of a row inherit from the table and not from their row.",
  [("table.go", '''				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), row.Styles)''', '''				cellSty = xcell.MutatedStyles(p.doc.StyleClasses(), tab.Styles)''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table><tr style="text-color: #ff0000"><td>a</td><td>b</td><td>c</td></tr></table>`), "")
	Check(e.Find("b").Color == "ff0000", "%v", e.Texts())''', ()))

seed("c18-first-declaration-wins", "C18",
  "an attribute declared twice in one declaration list",
  "Of two declarations for the same attribute the first one counts.",
  [("style/decode.go", '''		raw[trimWS(styleKV[0])] = trimWS(styleKV[1])''', '''		key := trimWS(styleKV[0])
		if _, ok := raw[key]; ok {
			continue
		}
		raw[key] = trimWS(styleKV[1])''')],
  M('''	m, err := style.DecodeMutator(strings.NewReader("width: 1; width: 2"))
	Must(err)
	var s style.Styles
	m.Mutate(&s)
	Check(s.Width == 2, "%v", s.Width)''', ("strings", "github.com/mazzegi/xpdf/style")))

seed("c19-redefinition-keeps-variants", "C19",
  "a class with a variant that is defined again later in the sheet",
  "A later class of the same name keeps the variants of the class it replaces.",
  [("style/class.go", '''				Selectors: map[string]Selector{},
			}''', '''				Selectors: cs[className].Selectors,
			}
			if cl.Selectors == nil {
				cl.Selectors = map[string]Selector{}
			}''')],
  M('''	cs, err := style.DecodeClasses(strings.NewReader("a{width: 1} a:first-row{width: 2} a{width: 3}"))
	Must(err)
	var s style.Styles
	cs.MutateWithSelector("first-row", &s, "a")
	Check(s.Width == 3, "%v", s.Width)''', ("strings", "github.com/mazzegi/xpdf/style")))

seed("c20-font-after-table", "C20",
  "a line feed after a table whose last cell has another font",
  "After a table the font of its last cell stays set and determines the height of the line feeds that follow.",
  [("table.go", '''	defer p.resetStyles()
	tab := p.transformTable(xtab)''', '''	tab := p.transformTable(xtab)''')],
  M('''	at := func(sty string) float64 {
		e := Render(Doc("10 10 10 10", "", "", "", `<table><tr><td style="height: 30; `+sty+`">a</td></tr></table><lf lines="2"/><text>below</text>`), "")
		return e.Find("below").Y
	}
	Check(Near(at(""), at("font-point-size: 20")), "%v %v", at(""), at("font-point-size: 20"))''', ()))

seed("c21-class-list-separators", "C21",
  "a class attribute whose names are separated by a line break or tab",
  "Class names are only separated at blanks, so the classes of an attribute broken over lines are lost.",
  [("xdoc/style.go", '''strings.Fields(a.Value)...)''', '''strings.Split(strings.Trim(a.Value, " \\n\\t"), " ")...)''')],
  M('''	e := Render(Doc("10 10 10 10", "a{text-color: #ff0000} b{font-point-size: 20}", "", "", "<text class=\\"a\\n\\tb\\">x</text>"), "")
	o := e.Find("x")
	Check(o.Color == "ff0000" && o.Font.PointSize == 20, "%v", o)''', ()))

seed("c22-malformed-grid-row-style", "C22",
  "a selector variant or class with a malformed value inside a style sheet entry of an attribute no element uses",
  "A malformed border is only reported if something is left behind the numbers: numbers missing at the end are accepted.",
  [("style/box.go", '''	_, err := fmt.Fscanf(buf, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil {
		return errors.Wrapf(err, "scan border value (%s)", v)''', '''	n, err := fmt.Fscanf(buf, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
	if err != nil && (n == 0 || buf.Len() > 0) {
		return errors.Wrapf(err, "scan border value (%s)", v)''')],
  M('''	for _, v := range []string{"1,2", "1,2,3", "1,2,x,4", "1", ""} {
		_, err := xdoc.Load(strings.NewReader(Doc("1 1 1 1", "", "", "", `<table><tr><td><box style="border: `+v+`">x</box></td></tr></table>`)))
		Check(err != nil, "%q accepted", v)
	}''', ("strings", "github.com/mazzegi/xpdf/xdoc")))

seed("c23-nested-part-lost", "C23",
  "a grid part that contains a grid",
  "The elements inside a part of a grid are not described if they are grids themselves.",
  [("xdoc/describe.go", '''	i.Items = append(i.Items, desc.describeInstructions(p.Instructions)...)''', '''	for _, is := range p.ISS {
		if _, ok := is.(*Grid); ok {
			continue
		}
		i.Items = append(i.Items, desc.describeInstructions(Instructions{ISS: []Instruction{is}})...)
	}''')],
  M('''	doc, err := xdoc.Load(strings.NewReader(Doc("1 1 1 1", "", "", "", `<grid><gr>a b</gr><part area="a"><grid><gr>inner</gr><part area="inner"><text>deep</text></part></grid></part></grid>`)))
	Must(err)
	Check(strings.Contains(xdoc.Describe(doc).Dump(xdoc.DescribeJSON), "deep"), "not described")''', ("strings", "github.com/mazzegi/xpdf/xdoc")))

seed("c24-no-path-without-left-top", "C24",
  "a box or cell with neither a left nor a top border, but a right or bottom one",
  "A right border is not drawn if it is the only one besides the bottom one.",
  [("draw.go", '''	if sty.Box.Border.Right > 0 {''', '''	if sty.Box.Border.Right > 0 && sty.Box.Border.Right+sty.Box.Border.Left+sty.Box.Border.Top > 1 {''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<box style="border: 0,0,1,0">a</box>`), "")
	Check(len(e.Of("line")) == 1, "%v", e.Ops)''', ()))

PNG = '''	f, err := os.Create("i.png")
	Must(err)
	Must(png.Encode(f, image.NewRGBA(image.Rect(0, 0, W0, H0))))
	f.Close()
'''
seed("c25-scaled-height", "C25",
  "an image wider than the area available",
  "An image that is too wide is made narrower without being made lower.",
  [("image.go", '''		height = height * paWidth / width
		width = paWidth
''', '''		width = paWidth
		height = height * paWidth / width
''')],
  M(PNG.replace("W0", "400").replace("H0", "100") + '''	e := Render(Doc("10 10 10 10", "", "", "", "<image>i.png</image>"), "")
	o := e.Of("image")[0]
	Check(Near(o.W, 78) && Near(o.H, 19.5), "%v", o)''', ("image", "image/png", "os")))

seed("c26-legal", "C26",
  "a document in legal format",
  "The legal paper format is not recognised by the engine.",
  [("engine/fpdf.go", '''	case xdoc.FormatLegal:
		return "Legal"
	default:''', '''	default:''')],
  M('''	pdf, _ := PDF(strings.Replace(Doc("10 10 10 10", "", "", "", "<text>x</text>"), "a5", "legal", 1), nil)
	Check(strings.Contains(pdf, "612.00 1008.00"), "%v", pdf[:600])''', ("strings",)))

seed("c27-unflushed-writer", "C27",
  "a writer that fails or falls short",
  "The PDF is written through a buffer whose last write is not checked, so a failing writer is not reported.",
  [("engine/fpdf.go", '''	return e.pdf.Output(w)''', '''	bw := bufio.NewWriter(w)
	defer bw.Flush()
	return e.pdf.Output(bw)'''),
   ("engine/fpdf.go", '''import (
	"io"''', '''import (
	"bufio"
	"io"''')],
  H + '''import (
	"errors"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

type bad struct{ left int }

func (b *bad) Write(p []byte) (int, error) {
	if len(p) > b.left {
		n := b.left
		b.left = 0
		return n, errors.New("disk full")
	}
	b.left -= len(p)
	return len(p), nil
}

func main() {
	x := Doc("10 10 10 10", "", "", "", "<text>x</text>")
	pdf, _ := PDF(x, nil)
	for k := 0; k < len(pdf); k += 13 {
		doc, err := xdoc.Load(strings.NewReader(x))
		Must(err)
		e, err := engine.NewFPDF(font.NewRegistry(), doc)
		Must(err)
		err = xpdf.NewProcessor(e, hyphenation.NewEnUs(), doc, ".").Process(&bad{k})
		Check(err != nil, "a writer failing after %d bytes is not reported", k)
	}
}
''')

seed("c28-cached-word", "C28",
  "two goroutines that hyphenate with the same hyphenator",
  "The hyphenator remembers the word last divided in unsynchronised fields; calls made at the same time get each other's parts.",
  [("hyphenation/hyphenation.go", '''type Hyphenator struct {
	lookup *patternLookup
}''', '''type Hyphenator struct {
	lookup *patternLookup
	word   string
	runes  []rune
}'''),
   ("hyphenation/hyphenation.go", '''	rs := []rune("." + strings.ToLower(s) + ".")''', '''	if h.word != s {
		h.word = s
		h.runes = []rune("." + strings.ToLower(s) + ".")
	}
	rs := h.runes''')],
  H + '''import (
	"strings"
	"sync"

	"github.com/mazzegi/xpdf/hyphenation"
)

func main() {
	h := hyphenation.NewEnUs()
	words := []string{"hyphenation", "concatenation", "supercalifragilistic", "considerations"}
	want := map[string]string{}
	for _, w := range words {
		want[w] = strings.Join(h.Hyphenate(w), "-")
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 0; g < 4; g++ {
		w := words[g]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					bad = "panic"
					mu.Unlock()
				}
			}()
			for i := 0; i < 3000; i++ {
				if got := strings.Join(h.Hyphenate(w), "-"); got != want[w] {
					mu.Lock()
					bad = got
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	Check(bad == "", "%q", bad)
}
''', demo=open("/verif/tools/seedlib/demo.sh").read().replace("go build", "CGO_ENABLED=1 go build -race"))

seed("c29-bold-italic", "C29",
  "a font registered in bold and in bold-italic",
  "A bold-italic font file is registered as the bold one.",
  [("engine/fpdf.go", '''			sty = "BI"''', '''			sty = "B"''')],
  H + '''import (
	"os"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

func main() {
	reg := font.NewRegistry()
	reg.Register(font.Descriptor{Name: "sans", Style: font.BoldItalic, FilePath: os.Getenv("DEMO") + "/bi.ttf"})
	e, err := engine.NewFPDF(reg, &xdoc.Document{})
	Must(err)
	e.AddPage()
	e.ChangeFont(style.Font{Family: "sans", PointSize: 12, Style: style.FontStyleItalic, Weight: style.FontWeightBold})
	e.WriteText("x")
	Must(e.Error())
}
''', files={"bi.ttf": open(GOFONT + "/Go-Bold-Italic.ttf", "rb").read()})

CLI = '''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
go build -buildvcs=false -o "$T/xpdf" ./cmd/xpdf || exit 3
go build -buildvcs=false -o "$T/describe" ./cmd/describe || exit 3
go build -buildvcs=false -o "$T/image" ./cmd/image || exit 3
mkdir "$T/w" && cd "$T/w" && mkdir fonts && : >fonts/fontdef.toml
'''
DOCX = '''<document><page><orientation>portrait</orientation><format>a4</format><margins><left>1</left><top>1</top><right>1</right><bottom>1</bottom></margins></page><body><text>x</text></body></document>'''
seed("c30-dotted-name", "C30",
  "an input file with several dots in its name and no output named",
  "The default output name is cut at the first dot of the input's name.",
  [("cmd/xpdf/main.go", '''		ext := filepath.Ext(in)
		out = strings.TrimSuffix(base, ext) + ".pdf"''', '''		out = strings.SplitN(base, ".", 2)[0] + ".pdf"''')],
  "package main\n\nfunc main() {}\n", rec=False,
  demo=CLI + f"echo '{DOCX}' >a.b.xml\n../xpdf a.b.xml || exit 1\n[ -s a.b.pdf ] || exit 1\nexit 0\n")

seed("c31-lf-fraction", "C31",
  "a line feed of a quarter of a line",
  "Line feeds are rounded to half lines in the engine.",
  [("engine/fpdf.go", '''	e.pdf.Ln(heightMM * lines)''', '''	e.pdf.Ln(heightMM * math.Round(lines*2) / 2)'''),
   ("engine/fpdf.go", '''	"io/ioutil"
''', '''	"io/ioutil"
	"math"
''')],
  H + '''import (
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

func main() {
	e, err := engine.NewFPDF(font.NewRegistry(), &xdoc.Document{})
	Must(err)
	e.AddPage()
	e.ChangeFont(style.Font{Family: "Courier", PointSize: 12})
	_, y0 := e.GetXY()
	e.LineFeed(0.25)
	_, y1 := e.GetXY()
	Check(Near(y1-y0, e.FontHeight()/4), "%v", y1-y0)
}
''')
