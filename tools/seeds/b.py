H = 'package main\n\n'
def M(body, imports=()):
    imp = "".join(f'\t"{i}"\n' for i in imports)
    return H + (f"import (\n{imp})\n\n" if imp else "") + "func main() {\n" + body + "\n}\n"

seed("c04-few-twins", "C04",
  "a run of more than thirty-two blanks",
  "Runs of blanks are collapsed in a fixed number of rounds, long ones leave doubled blanks.",
  [("text/text.go", '''	for {
		rs = strings''', '''	for i := 0; i < 4; i++ {
		rs = strings'''), ("text/text.go", '''		s = rs
	}
''', '''		s = rs
	}
	return rs
''')],
  M('''	for n := 1; n < 200; n++ {
		got := text.WhitespaceRectified("a" + strings.Repeat(" ", n) + "b")
		Check(got == "a b", "%d blanks: %q", n, got)
	}''', ("strings", "github.com/mazzegi/xpdf/text")))

seed("c02-weight-nine", "C02",
  "a pattern with the weight 8 or 9",
  "Weights are read as octal digits, so pattern sources with an 8 or 9 are rejected.",
  [("hyphenation/pattern.go", "strconv.ParseInt(string(r), 10, 8)", "strconv.ParseInt(string(r), 8, 8)")],
  M('''	h, err := hyphenation.Load(strings.NewReader("b9c\\nc8d\\nbc7d\\n"))
	Must(err)
	Check(strings.Join(h.Hyphenate("abcde"), "|") == "ab|cde", "%q", h.Hyphenate("abcde"))''', ("strings", "github.com/mazzegi/xpdf/hyphenation")))

seed("c09-height-without-hyphens", "C09",
  "a block-aligned box in which dividing a word saves a line",
  "The height of a block-aligned box is that of its lines if no word were divided.",
  [("process.go", """		if len(box.ISS) > 0 {
			height = p.textHeightFnc(sty)(box.ISS, width, sty)""", """		if len(box.ISS) > 0 {
			height = p.textHeight(box.ISS, width, sty)""")],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<box style="h-align: block; width: 40;">abcd abcd abcdefgh abcd ab abcdefgh abcd</box>`), "b1c\\nd1e\\nf1g\\n")
	ts := e.Texts()
	r, t := e.Of("rect")[0], ts[len(ts)-1]
	Check(r.Y+r.H-t.Y-t.H < 1, "%v %v", r, ts)'''))

seed("c10-offset-ignored", "C10",
  "a box with an offset downwards near the page end",
  "The vertical offset of a box is not considered when deciding whether it fits on the page.",
  [("process.go", "if !p.preventPageBreak && y0+height >= effHeight {", "if !p.preventPageBreak && y0+height >= effHeight+sty.OffsetY {")],
  M('''	for y := 40; y < 108; y++ {
		e := Render(Doc("10 10 10 10", "", "", "", fmt.Sprintf(`<sety y="%d"/><box style="offset-y: 5">a</box>`, y)), "")
		for _, r := range e.Of("rect") {
			Check(r.Y+r.H < 110.1, "y=%d: %v", y, r)
		}
	}''', ("fmt",)))

seed("c12-alias-in-block-text", "C12",
  "a page number in block-aligned text",
  "In block-aligned text outside of paragraph elements page numbers are not filled in.",
  [("text-hyph.go", '''			isitem = &textItem{
				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: norm(is.Text),''', '''			isitem = &textItem{
				sty:  is.MutatedStyles(p.doc.StyleClasses(), sty),
				text: text.WhitespaceRectified(is.Text),''')],
  M('''	for _, al := range []string{"left", "block"} {
		e := Render(Doc("10 10 10 10", "", "", "", `<box style="h-align: `+al+`">page <p>no {cp}</p></box>`), "")
		e.Find("1")
	}'''))

seed("c13-long-row-span", "C13",
  "a cell that spans five or more rows",
  "A cell spanning more than four rows is drawn over the first four of them only.",
  [("table.go", """	for _, sc := range c.spansRows {
		height += sc.height""", """	for i, sc := range c.spansRows {
		if i >= 3 {
			break
		}
		height += sc.height""")],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table style="width: 60"><tr><td rowspan="6">a</td><td>1</td></tr><tr><td>2</td></tr><tr><td>3</td></tr><tr><td>4</td></tr><tr><td>5</td></tr><tr><td>6</td></tr></table>`), "")
	r := e.Of("rect")
	Check(Near(r[0].Y+r[0].H, r[6].Y+r[6].H), "%v", r)'''))

seed("c14-last-header-row", "C14",
  "a table with three or more repeated header rows continued on another page",
  "Of three or more header rows the last one is not repeated.",
  [("table.go", '''				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {''', '''				for rhr := 0; rhr < xtab.RepeatHeader && rhr < 2; rhr++ {''')],
  M('''	rows := ""
	for i := 0; i < 40; i++ {
		rows += "<tr><td>row</td></tr>"
	}
	e := Render(Doc("10 10 10 10", "", "", "", `<table repeatheader="3"><tr><td>h1</td></tr><tr><td>h2</td></tr><tr><td>h3</td></tr>`+rows+`</table>`), "")
	n := 0
	for _, o := range e.Texts() {
		if o.S == "h3" {
			n++
		}
	}
	Check(n == e.page, "%d of %d", n, e.page)'''))

seed("c15-three-rows", "C15",
  "a high cell that spans three or more rows",
  "The room for a row-spanning cell is only distributed to the first rows it spans.",
  [("table.go", '''	for _, sc := range cell.spansRows {
		sc.minHeight = heightPerCell''', '''	for i, sc := range cell.spansRows {
		if i > 1 {
			break
		}
		sc.minHeight = heightPerCell''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table style="width: 60"><tr><td rowspan="4" style="padding: 0,20,0,20">a<br/>b<br/>c<br/>d</td><td>1</td></tr><tr><td>2</td></tr><tr><td>3</td></tr><tr><td>4</td></tr></table>`), "")
	r, d := e.Of("rect")[0], e.Find("d")
	Check(d.Y+d.H+20 < r.Y+r.H+0.6, "%v %v", r, d)'''))

seed("c16-five-columns", "C16",
  "a table of at least five columns without a given width in the fifth one",
  "Columns without a given width beyond the fourth get no share of the table width.",
  [("table.go", "			if cws[i] == 0 {", "			if cws[i] == 0 && i < 4 {")],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table style="width: 60"><tr><td>a</td><td>b</td><td>c</td><td>d</td><td>e</td></tr></table>`), "")
	r := e.Of("rect")
	for _, c := range r {
		Check(Near(c.W, r[0].W), "%v", r)
	}'''))

seed("c17-repeated-class", "C17",
  "a class that is named twice with another one in between",
  "A class that is named repeatedly counts only at its first place.",
  [("xdoc/style.go", '''			i.Classes = append(i.Classes, strings.Fields(a.Value)...)''', '''			seen := map[string]bool{}
			for _, c := range strings.Fields(a.Value) {
				if !seen[c] {
					i.Classes = append(i.Classes, c)
				}
				seen[c] = true
			}''')],
  M('''	e := Render(Doc("10 10 10 10", "a{text-color: #ff0000} b{text-color: #00ff00}", "", "", `<text class="a b a">x</text>`), "")
	Check(e.Find("x").Color == "ff0000", "%v", e.Find("x"))'''))

seed("c18-single-precision", "C18",
  "a number that single precision cannot represent",
  "Numbers of style attributes are rounded to single precision.",
  [("style/decode.go", "strconv.ParseFloat(styleValue, 64)", "strconv.ParseFloat(styleValue, 32)")],
  M('''	m, err := style.DecodeMutator(strings.NewReader("width: 16777217.5; height: 0.1"))
	Must(err)
	var s style.Styles
	m.Mutate(&s)
	Check(s.Width == 16777217.5 && s.Height == 0.1, "%v %v", s.Width, s.Height)''', ("strings", "github.com/mazzegi/xpdf/style")))

seed("c20-line-width-kept", "C20",
  "a box or cell with the line width zero after one with another line width",
  "A line width of zero is not set, such lines get the width of whatever was drawn before.",
  [("draw.go", "	p.engine.SetLineWidth(sty.Draw.LineWidth)", '''	if sty.Draw.LineWidth > 0 {
		p.engine.SetLineWidth(sty.Draw.LineWidth)
	}''')],
  H + '''import "strings"

func main() {
	for _, before := range []string{"<box style=\\"border: 1,1,1,1; line-width: 0\\">a</box>", "<box style=\\"border: 1,1,1,1; line-width: 3\\">a</box>"} {
		_, s := PDF(Doc("10 10 10 10", "", "", "", before+`<box style="border: 1,1,1,1; line-width: 0">b</box>`), nil)
		ls := strings.Split(s, "\\n")
		w := ""
		last := ""
		for _, l := range ls {
			if strings.HasSuffix(l, " w") {
				w = l
			}
			if strings.HasSuffix(l, " l") {
				last = w
			}
		}
		Check(last == "0.00 w", "%q after %s", last, before)
	}
}
''')

seed("c25-zero-height", "C25",
  "an image with a given width and the height zero",
  "An image with a width and an explicit height of zero is drawn without a height.",
  [("image.go", "	case sty.Width > 0 && sty.Height <= 0:", "	case sty.Width > 0 && sty.Height < 0:")],
  M('''	f, err := os.Create("i.png")
	Must(err)
	Must(png.Encode(f, image.NewRGBA(image.Rect(0, 0, 40, 20))))
	f.Close()
	e := Render(Doc("10 10 10 10", "", "", "", `<image style="width: 20; height: 0">i.png</image>`), "")
	o := e.Of("image")[0]
	Check(Near(o.W, 20) && Near(o.H, 10), "%v", o)''', ("image", "image/png", "os")))

seed("c28-cache-ignores-case", "C28",
  "the same word in different letter case in one program",
  "Parts of hyphenated words are remembered by the lower-cased word, so a later document gets the letters of an earlier one.",
  [("hyphenation/hyphenation.go", '''type Hyphenator struct {
	lookup *patternLookup
''', '''type Hyphenator struct {
	lookup  *patternLookup
	mu      sync.Mutex
	divided map[string][]string
'''), ("hyphenation/hyphenation.go", '''	"strings"
''', '''	"strings"
	"sync"
'''), ("hyphenation/hyphenation.go", '''func (h *Hyphenator) Hyphenate(s string) []string {
''', '''func (h *Hyphenator) Hyphenate(s string) []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	key := strings.ToLower(s)
	if c, ok := h.divided[key]; ok {
		return c
	}
	sl := h.hyphenate(s)
	if h.divided == nil {
		h.divided = map[string][]string{}
	}
	h.divided[key] = sl
	return sl
}

func (h *Hyphenator) hyphenate(s string) []string {
''')],
  M('''	h := hyphenation.NewEnUs()
	for _, w := range []string{"hyphenation", "Hyphenation", "HYPHENATION"} {
		Check(strings.Join(h.Hyphenate(w), "") == w, "%q: %q", w, h.Hyphenate(w))
	}''', ("strings", "github.com/mazzegi/xpdf/hyphenation")))

seed("c28-image-cache", "C28",
  "two documents in one program that name different images of different directories alike",
  "Descriptions of images are remembered by the name in the document, another document's image of that name gets its size.",
  [("image.go", '''	imgSrc := p.resolveFile(img.Source)

	iDesc, err := DescribeImage(imgSrc)''', '''	imgSrc := p.resolveFile(img.Source)

	iDesc, err := cachedImage(img.Source, imgSrc)'''), ("image.go", '''func (p *Processor) renderImage''', '''var (
	imagesMu sync.Mutex
	images   = map[string]ImageDescriptor{}
)

func cachedImage(name, src string) (ImageDescriptor, error) {
	imagesMu.Lock()
	defer imagesMu.Unlock()
	if d, ok := images[name]; ok {
		return d, nil
	}
	d, err := DescribeImage(src)
	if err == nil {
		images[name] = d
	}
	return d, err
}

func (p *Processor) renderImage'''), ("image.go", '''	"os"
''', '''	"os"
	"sync"
''')],
  M('''	for k, dir := range []string{"a", "b"} {
		Must(os.Mkdir(dir, 0o755))
		f, err := os.Create(dir + "/i.png")
		Must(err)
		Must(png.Encode(f, image.NewRGBA(image.Rect(0, 0, 40+40*k, 20))))
		f.Close()
	}
	var ws []float64
	for _, dir := range []string{"a", "b"} {
		doc, err := xdoc.Load(strings.NewReader(Doc("10 10 10 10", "", "", "", "<image>i.png</image>")))
		Must(err)
		e := NewRec(doc)
		Must(xpdf.NewProcessor(e, hyphenation.NewEnUs(), doc, dir).Process(io.Discard))
		ws = append(ws, e.Of("image")[0].W)
	}
	Check(Near(ws[1], 2*ws[0]), "%v", ws)''', ("image", "image/png", "io", "os", "strings", "github.com/mazzegi/xpdf", "github.com/mazzegi/xpdf/hyphenation", "github.com/mazzegi/xpdf/xdoc")))

seed("c30-longer-output-kept", "C30",
  "an output file that exists and is longer than the PDF to be written",
  "The command does not truncate an existing output file, so the rest of a longer one stays behind the PDF.",
  [("cmd/xpdf/main.go", "os.Create(out)", "os.OpenFile(out, os.O_RDWR|os.O_CREATE, 0666)")],
  H + '''import (
	"bytes"
	"os"
	"os/exec"
)

func main() {
	b := exec.Command("go", "build", "-buildvcs=false", "-o", os.Getenv("PWD")+"/xpdfcmd", "./cmd/xpdf")
	b.Dir = os.Getenv("REPO")
	wd, err := os.Getwd()
	Must(err)
	b.Args[4] = wd + "/xpdfcmd"
	if out, err := b.CombinedOutput(); err != nil {
		Fail("%s", out)
	}
	Must(os.WriteFile("in.xml", []byte(Doc("10 10 10 10", "", "", "", "<text>x</text>")), 0o644))
	Must(os.MkdirAll("fonts", 0o755))
	Must(os.WriteFile("fonts/fontdef.toml", nil, 0o644))
	Must(os.WriteFile("out.pdf", bytes.Repeat([]byte("old "), 100000), 0o644))
	if out, err := exec.Command("./xpdfcmd", "in.xml", "out.pdf").CombinedOutput(); err != nil {
		Fail("%v: %s", err, out)
	}
	c, err := os.ReadFile("out.pdf")
	Must(err)
	Check(bytes.HasSuffix(bytes.TrimSpace(c), []byte("%%EOF")), "rest: %q", c[len(c)-20:])
}
''')
