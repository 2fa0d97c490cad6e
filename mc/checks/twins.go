package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/core"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

// C28, near twins: operations that agree in all but one respect. What the code under test keeps of
// an operation for later ones (caches, registries, defaults, the documents themselves) must not
// be taken for something of its twin. Each history is executed in a process of its own, so that the
// first operation finds the initial state, and what is expected of an operation is what it gives
// alone in a process of its own.

type twinEnv struct {
	dir  string
	kept map[string]interface{}
}

// keep makes a thing once per process: it is shared by the operations of a history.
func (e *twinEnv) keep(key string, mk func() interface{}) interface{} {
	if v, ok := e.kept[key]; ok {
		return v
	}
	v := mk()
	e.kept[key] = v
	return v
}

func (e *twinEnv) file(name string, data []byte) string {
	p := filepath.Join(e.dir, name)
	_ = os.MkdirAll(filepath.Dir(p), 0o777)
	_ = os.Remove(p)
	_ = os.WriteFile(p, data, 0o666)
	return p
}

func picture(ext string, w, h int) []byte {
	im := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.RGBA{255, 0, 0, 255}, color.RGBA{0, 0, 255, 255}})
	for i := range im.Pix {
		im.Pix[i] = byte(i / (w + h) % 2)
	}
	var b bytes.Buffer
	switch ext {
	case "png":
		_ = png.Encode(&b, im)
	case "gif":
		_ = gif.Encode(&b, im, nil)
	default:
		_ = jpeg.Encode(&b, im, nil)
	}
	return b.Bytes()
}

type twinOp struct {
	name string
	run  func(e *twinEnv) string
}

type twinFamily struct {
	name string
	ops  []twinOp
}

// virtDump renders on the virtual engine.
func virtDump(e *twinEnv, doc *xdoc.Document, h *hyphenation.Hyphenator, wd string) string {
	en := veng.New(doc, veng.Dyadic{})
	if h == nil {
		h = lab.Hyph()
	}
	if err := xpdf.NewProcessor(en, h, doc, wd).Process(io.Discard); err != nil {
		return "error: " + err.Error()
	}
	return en.Doc.Dump()
}

// pdfDump renders on the real engine; fonts and images are identified by their content.
func pdfDump(e *twinEnv, doc *xdoc.Document, reg *font.Registry, h *hyphenation.Hyphenator, wd string) string {
	b, err := lab.PDF(doc, reg, h, wd)
	if err != nil {
		return "error: " + err.Error()
	}
	f, err := pdfread.Parse(b)
	if err != nil {
		return "malformed: " + err.Error()
	}
	var fs, is []string
	for n, file := range embedded(f) {
		fs = append(fs, n+"="+file)
	}
	for _, o := range f.Objs {
		if bytes.Contains(o[:min(len(o), 300)], []byte("/Subtype /Image")) {
			if k := bytes.Index(o, []byte("stream")); k >= 0 {
				is = append(is, fmt.Sprintf("image %x", sha256.Sum256(o[k:])))
			}
		}
	}
	sort.Strings(fs)
	sort.Strings(is)
	for k := range f.Doc.Items {
		if f.Doc.Items[k].Kind == 'I' {
			f.Doc.Items[k].S = ""
		}
	}
	return f.Doc.Dump() + strings.Join(fs, "\n") + "\n" + strings.Join(is, "\n")
}

func dumps(doc *xdoc.Document) string {
	d := xdoc.Describe(doc)
	return d.Dump(xdoc.DescribeJSON) + "\n" + d.Dump(xdoc.DescribeXML)
}

func loaded(x string) (*xdoc.Document, string) {
	doc, err := xdoc.Load(strings.NewReader(x))
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return doc, ""
}

// renderOp loads a document, describes and renders it.
func renderOp(name, x string, pats ...string) twinOp {
	return twinOp{name, func(e *twinEnv) string {
		doc, bad := loaded(x)
		if bad != "" {
			return bad
		}
		return dumps(doc) + virtDump(e, doc, lab.Hyph(pats...), e.dir)
	}}
}

func pdfOp(name, x string, reg func(e *twinEnv) *font.Registry, pats ...string) twinOp {
	return twinOp{name, func(e *twinEnv) string {
		doc, bad := loaded(x)
		if bad != "" {
			return bad
		}
		var rg *font.Registry
		if reg != nil {
			rg = reg(e)
		}
		return pdfDump(e, doc, rg, lab.Hyph(pats...), e.dir)
	}}
}

var twinFamilies = sync.OnceValue(makeTwinFamilies)

func makeTwinFamilies() []twinFamily {
	var out []twinFamily
	fam := func(name string, ops ...twinOp) { out = append(out, twinFamily{name, ops}) }

	// words on one hyphenator
	var ops []twinOp
	for _, w := range []string{"abcdef", "ABCDEF", "aBcdef", "Abcdef", "abcdeF", "abcdefabcdef", "bcdef", "abcde", "abc", "äbcdef", "abcdef."} {
		w := w
		ops = append(ops, twinOp{"hyphenate " + w, func(e *twinEnv) string {
			h := e.keep("h", func() interface{} { return lab.Hyph("b1c", "d1e", "y1x", "e1f") }).(*hyphenation.Hyphenator)
			return strings.Join(h.Hyphenate(w), "|")
		}})
	}
	fam("words", ops...)

	// one word, several hyphenators
	ops = nil
	for _, ps := range [][]string{{"b1c"}, {"d1e"}, {"b1c", "d1e"}, {"b1c", "d2e", "d1e"}, {"b2c", "b1c"}, {".a1b"}, {"e1f."}, {}} {
		ps := ps
		ops = append(ops, twinOp{fmt.Sprintf("hyphenate with %v", ps), func(e *twinEnv) string {
			return strings.Join(lab.Hyph(ps...).Hyphenate("abcdef"), "|")
		}}, twinOp{fmt.Sprintf("hyphenate with the kept %v", ps), func(e *twinEnv) string {
			h := e.keep(fmt.Sprint(ps), func() interface{} { return lab.Hyph(ps...) }).(*hyphenation.Hyphenator)
			return strings.Join(h.Hyphenate("abcdef"), "|")
		}})
	}
	for n, mk := range map[string]func() *hyphenation.Hyphenator{"english": hyphenation.NewEnUs, "latin": hyphenation.NewLatin} {
		mk := mk
		ops = append(ops, twinOp{n, func(e *twinEnv) string {
			return strings.Join(mk().Hyphenate("circumstances"), "|") + strings.Join(mk().Hyphenate("abcdef"), "|")
		}})
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].name < ops[j].name })
	fam("hyphenators", ops...)

	// pattern files with the same name
	ops = nil
	for k, text := range []string{"b1c\n", "d1e\n", "b1c\nd1e\n", ""} {
		text := text
		ops = append(ops, twinOp{fmt.Sprintf("pattern file %d", k), func(e *twinEnv) string {
			h, err := hyphenation.LoadFromFile(e.file("patterns.txt", []byte(text)))
			if err != nil {
				return "error: " + err.Error()
			}
			return strings.Join(h.Hyphenate("abcdef"), "|")
		}})
	}
	ops = append(ops, twinOp{"no pattern file", func(e *twinEnv) string {
		_ = os.Remove(filepath.Join(e.dir, "patterns.txt"))
		_, err := hyphenation.LoadFromFile(filepath.Join(e.dir, "patterns.txt"))
		return fmt.Sprint(err)
	}})
	fam("pattern-files", ops...)

	// style sheets and styles
	ops = nil
	for _, sh := range []string{"k{width:5}", "k{width:6}", "k{width:5;height:3}", "k{height:3}", "j{width:5}", "k{width:5} k:first-row{height:9}", "k{width:5} k:last-row{height:9}", "k{width:5} j{height:1}", "kj{height:1}", "k j{height:1}", "k{wid th:5}", "k{width:5 }", "k{width:1 5}", "k{width:15}", "k:first-row{height:9} k{width:5}", "k{font-family:a b}", "k{font-family:ab}"} {
		sh := sh
		ops = append(ops, twinOp{"sheet " + sh, func(e *twinEnv) string {
			cs, err := style.DecodeClasses(strings.NewReader(sh))
			if err != nil {
				return err.Error()
			}
			var a, b, c style.Styles
			cs.Mutate(&a, "k", "j")
			cs.MutateWithSelector("first-row", &b, "k")
			cs.MutateWithSelector("last-row", &c, "k")
			return fmt.Sprintf("%+v\n%+v\n%+v", a, b, c)
		}})
	}
	for _, d := range []string{"width:5", "width:6", "height:5", "width:5;height:6", "width: 5", "text-color:#010203", "text-color:#010204", "padding:1,2,3,4", "margin:1,2,3,4", "border:1,2,3,4", "font-family:sans", "font-family:Sans",
		"width:56", "width:5 6", "wi dth:56", "font-family:Times New", "font-family:TimesNew", "font-family:Times  New", "padding:1,2,3,4,", "padding:1,2,34", "padding:12,3,4", "padding:1,23,4", "padding:1, 2,3,4", "text-color:#0102 03", "width:5;", "width:5,6", "width:5.6"} {
		d := d
		ops = append(ops, twinOp{"style " + d, func(e *twinEnv) string {
			m, err := style.DecodeMutator(strings.NewReader(d))
			if err != nil {
				return err.Error()
			}
			var a style.Styles
			m.Mutate(&a)
			return fmt.Sprintf("%+v", a)
		}})
	}
	fam("styles", ops...)

	// documents that differ in their style sheet, in attributes, in the page
	content := `<text class="k">aa abcdef <p class="k j" style="font-style:italic">xyxyxy</p> abcdef</text><box class="j k" style="padding:1,1,1,1">b</box>` +
		`<table class="k"><tr class="k"><td class="j">a</td><td style="h-align:block" class="k j">xyxyxyxy</td></tr><tr class="j"><td colspan="2" style="text-color:#010101">c</td></tr></table>` +
		`<text style="h-align:block;width:20" class="j">abcdef aa xyxyxy</text>`
	ops = nil
	for _, sh := range []string{"", "k{width:40} j{text-color:#ff0000}", "k{width:30} j{text-color:#ff0000}", "k{width:40} j{text-color:#ff00ff}", "j{width:40} k{text-color:#ff0000}",
		"k{width:40} k:first-row{background-color:#123456} j{text-color:#ff0000}", "k{width:40;font-point-size:6} j{font-weight:bold}", "k{h-align:right} j{border:1,1,1,1}"} {
		d := lab.A5(10, 10, 10, 10)
		d.Style, d.Body = sh, content
		ops = append(ops, renderOp("sheet "+sh, d.XML(), blockPatterns...))
	}
	d := lab.A5(10, 10, 10, 10)
	d.Style, d.Body = "k{width:40} j{text-color:#ff0000}", content
	ops = append(ops, renderOp("other patterns", d.XML(), "a1b"), renderOp("no patterns", d.XML()))
	d2 := d
	d2.Orient = "landscape"
	ops = append(ops, renderOp("landscape", d2.XML(), blockPatterns...))
	d2 = d
	d2.L = 60
	ops = append(ops, renderOp("other margin", d2.XML(), blockPatterns...))
	d2 = d
	d2.Format = "a4"
	ops = append(ops, renderOp("a4", d2.XML(), blockPatterns...))
	d2 = d
	d2.Header = "<text>{cp} of {np}</text>"
	ops = append(ops, renderOp("with header", d2.XML(), blockPatterns...))
	d2.Header = "<text>page {cp}</text>"
	ops = append(ops, renderOp("with another header", d2.XML(), blockPatterns...))
	d2.Header = ""
	d2.Footer = "<text>{cp} of {np}</text>"
	ops = append(ops, renderOp("with footer", d2.XML(), blockPatterns...))
	d2 = d
	d2.Style = "k{width:x}"
	ops = append(ops, renderOp("malformed sheet", d2.XML(), blockPatterns...))
	d2 = d
	d2.Body = content + "<td>"
	ops = append(ops, renderOp("malformed body", d2.XML(), blockPatterns...))
	d2.Body = content + `<text width="3" style="width:x">a</text>`
	ops = append(ops, renderOp("malformed style", d2.XML(), blockPatterns...))
	d2.Body = `<font style="font-family:Times;font-point-size:20;font-weight:bold"/>` + content
	ops = append(ops, renderOp("other font", d2.XML(), blockPatterns...))
	d2.Body = content + "<newpage/><newpage/>" + content
	ops = append(ops, renderOp("three pages", d2.XML(), blockPatterns...))
	fam("documents", ops...)

	// the same classes and attributes at elements of other kinds
	ops = nil
	for _, body := range []string{`<text class="k" style="width:30">abcdef xyxyxy</text>`, `<box class="k" style="width:30">abcdef xyxyxy</box>`, `<text class="k" style="width:31">abcdef xyxyxy</text>`,
		`<text class="k"><p class="k" style="width:30">abcdef</p> xyxyxy</text>`, `<text class="j" style="width:30">abcdef xyxyxy</text>`, `<text class="k j" style="width:30">abcdef xyxyxy</text>`, `<text class="j k" style="width:30">abcdef xyxyxy</text>`,
		`<table class="k" style="width:30"><tr><td>abcdef xyxyxy</td></tr></table>`, `<table class="k" style="width:30"><tr><td>abcdef xyxyxy</td></tr><tr><td>abcdef xyxyxy</td></tr></table>`,
		`<table><tr class="k" style="width:30"><td>abcdef xyxyxy</td></tr></table>`, `<table><tr><td class="k" style="width:30">abcdef xyxyxy</td></tr></table>`, `<text style="width:30">abcdef xyxyxy</text>`, `<text class="k">abcdef xyxyxy</text>`, `<text>abcdef xyxyxy</text>`} {
		d := lab.A5(10, 10, 10, 10)
		d.Style = "k{text-color:#ff0000;padding:1,2,3,4} k:first-row{background-color:#00ff00} k:last-row{font-weight:bold} j{text-color:#0000ff;h-align:right}"
		d.Body = body
		ops = append(ops, renderOp(body, d.XML(), blockPatterns...))
	}
	fam("elements", ops...)

	// tables
	ops = nil
	for _, t := range []string{`<table><tr><td>aa</td><td>bb</td></tr><tr><td>cc</td><td>dd</td></tr></table>`, `<table><tr><td colspan="2">aa</td></tr><tr><td>cc</td><td>dd</td></tr></table>`,
		`<table><tr><td rowspan="2">aa</td><td>bb</td></tr><tr><td>dd</td></tr></table>`, `<table repeatheader="1"><tr><td>aa</td><td>bb</td></tr><tr><td>cc</td><td>dd</td></tr></table>`,
		`<table style="width:50"><tr><td>aa</td><td>bb</td></tr><tr><td>cc</td><td>dd</td></tr></table>`, `<table><tr><td style="column-width:9">aa</td><td>bb</td></tr><tr><td>cc</td><td>dd</td></tr></table>`,
		`<table><tr><td style="height:9">aa</td><td>bb</td></tr><tr><td>cc</td><td>dd</td></tr></table>`, `<table><tr><td>aa</td><td>bb</td><td>bb</td></tr><tr><td>cc</td><td>dd</td></tr></table>`} {
		for _, before := range []string{"", `<sety>180</sety>`} {
			d := lab.A5(10, 10, 10, 10)
			d.Body = before + strings.ReplaceAll(t, "</tr></table>", "</tr>"+strings.Repeat("<tr><td>ee</td><td>ff</td></tr>", 4)+"</table>")
			ops = append(ops, renderOp(before+t, d.XML()))
		}
	}
	fam("tables", ops...)

	// images: the same names in other directories, other content under the same name
	ops = nil
	type pic struct {
		dir, ext string
		w, h     int
	}
	for _, p := range []pic{{"d1", "png", 40, 20}, {"d2", "png", 20, 40}, {"d1", "png", 20, 40}, {"d2", "png", 40, 20}, {"d1", "gif", 20, 40}, {"d1", "jpeg", 10, 10}} {
		for _, how := range []string{"virtual", "pdf", "absolute", "describe"} {
			p, how := p, how
			if how == "describe" && p.dir == "d2" {
				continue
			}
			ops = append(ops, twinOp{fmt.Sprintf("%s: %s/p.img is a %s of %dx%d", how, p.dir, p.ext, p.w, p.h), func(e *twinEnv) string {
				ext := p.ext
				name := p.dir + "/p." + ext
				if how == "virtual" { // the name does not tell the format
					name = p.dir + "/p.img"
				}
				f := e.file(name, picture(ext, p.w, p.h))
				if how == "describe" {
					id, err := xpdf.DescribeImage(f)
					return fmt.Sprint(id, err)
				}
				src := filepath.Base(f)
				if how == "absolute" {
					src = f
				}
				d := lab.A5(10, 10, 10, 10)
				d.Body = "<image>" + src + `</image><image style="width:9">` + src + "</image>"
				doc := lab.Load(d.XML())
				if how == "pdf" {
					return pdfDump(e, doc, nil, nil, filepath.Join(e.dir, p.dir))
				}
				return virtDump(e, doc, nil, filepath.Join(e.dir, p.dir))
			}})
		}
	}
	ops = append(ops, twinOp{"virtual: d1/p.img is missing", func(e *twinEnv) string {
		_ = os.Remove(filepath.Join(e.dir, "d1/p.img"))
		d := lab.A5(10, 10, 10, 10)
		d.Body = "<image>p.img</image>"
		return virtDump(e, lab.Load(d.XML()), nil, filepath.Join(e.dir, "d1"))
	}})
	fam("images", ops...)

	// fonts: the same family with other files, other styles, registered or not
	ops = nil
	type regd struct {
		fam  string
		sty  font.Style
		file string
	}
	ask := func(fams ...string) string {
		d := lab.A5(10, 10, 10, 10)
		for _, f := range fams {
			for _, w := range []string{"", ";font-weight:bold"} {
				d.Body += `<text style="font-family:` + f + w + `">aa xyz aa</text>`
			}
		}
		return d.XML()
	}
	regOf := func(rs ...regd) func(e *twinEnv) *font.Registry {
		return func(e *twinEnv) *font.Registry {
			reg := font.NewRegistry()
			for _, r := range rs {
				reg.Register(font.Descriptor{Name: r.fam, Style: r.sty, FilePath: e.file("fonts/"+r.file, ttfFiles()[r.file])})
			}
			return reg
		}
	}
	for _, rs := range [][]regd{
		{{"sans", font.Regular, "sans.ttf"}, {"sans", font.Bold, "sansb.ttf"}},
		{{"sans", font.Regular, "sansi.ttf"}, {"sans", font.Bold, "sansb.ttf"}},
		{{"sans", font.Regular, "sans.ttf"}, {"sans", font.Bold, "sansbi.ttf"}},
		{{"sans", font.Regular, "sansb.ttf"}, {"sans", font.Bold, "sans.ttf"}},
		{{"other", font.Regular, "sans.ttf"}, {"other", font.Bold, "sansb.ttf"}, {"sans", font.Regular, "sansi.ttf"}, {"sans", font.Bold, "sansbi.ttf"}},
	} {
		ops = append(ops, pdfOp(fmt.Sprintf("fonts %v", rs), ask("sans"), regOf(rs...)))
	}
	ops = append(ops, pdfOp("no fonts registered", ask("sans"), nil),
		pdfOp("helvetica, registered", ask("helvetica"), regOf(regd{"helvetica", font.Regular, "sans.ttf"}, regd{"helvetica", font.Bold, "sansb.ttf"})),
		pdfOp("helvetica", ask("helvetica"), nil), pdfOp("times", ask("times"), nil), pdfOp("helvetica and times", ask("helvetica", "times"), nil))
	ops = append(ops, twinOp{"a file of fonts exchanged", func(e *twinEnv) string {
		e.file("fonts/sans.ttf", ttfFiles()["sansi.ttf"])
		reg := font.NewRegistry()
		reg.Register(font.Descriptor{Name: "sans", Style: font.Regular, FilePath: filepath.Join(e.dir, "fonts/sans.ttf")})
		reg.Register(font.Descriptor{Name: "sans", Style: font.Bold, FilePath: e.file("fonts/sansb.ttf", ttfFiles()["sansb.ttf"])})
		return pdfDump(e, lab.Load(ask("sans")), reg, nil, e.dir)
	}})
	fam("fonts", ops...)

	// files with definitions of fonts
	ops = nil
	def := func(mono, file string) string {
		return "MonoFont = \"" + mono + "\"\n[[Fonts]]\nName = \"sans\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"" + file + "\"\n"
	}
	for _, dir := range []string{"d1", "d2"} {
		for k, text := range []string{def("sans", "a.ttf"), def("sans", "b.ttf"), def("mono", "a.ttf"), def("sans", "sub/a.ttf"), "MonoFont = 3"} {
			dir, text := dir, text
			ops = append(ops, twinOp{fmt.Sprintf("definitions %d in %s", k, dir), func(e *twinEnv) string {
				reg, err := font.LoadRegistryFromFile(e.file(dir+"/fontdef.toml", []byte(text)))
				if err != nil {
					return "error"
				}
				s := reg.MonoFont()
				_ = reg.Each(func(fd font.Descriptor) error { s += fmt.Sprintf(" %+v", fd); return nil })
				return s
			}})
		}
	}
	fam("font-definitions", ops...)

	// documents in files
	ops = nil
	for k := 0; k < 3; k++ {
		d := lab.A5(10, 10, 10, 10)
		d.Body = fmt.Sprintf("<text>%s</text>", strings.Repeat("a", k+1))
		x := d.XML()
		if k == 2 {
			x = x[:len(x)-3]
		}
		for _, name := range []string{"doc.xml", "other/doc.xml"} {
			name := name
			ops = append(ops, twinOp{fmt.Sprintf("content %d in %s", k, name), func(e *twinEnv) string {
				doc, err := xdoc.LoadFromFile(e.file(name, []byte(x)))
				if err != nil {
					return "error"
				}
				return dumps(doc)
			}})
		}
	}
	ops = append(ops, twinOp{"no document", func(e *twinEnv) string {
		_ = os.Remove(filepath.Join(e.dir, "doc.xml"))
		_, err := xdoc.LoadFromFile(filepath.Join(e.dir, "doc.xml"))
		return fmt.Sprint(err != nil)
	}})
	fam("files", ops...)

	// one document, used repeatedly
	d = lab.A5(10, 10, 10, 150)
	d.Style = "k{width:40;padding:1,2,3,4} k:first-row{height:9;border:1,1,1,1} j{text-color:#ff0000} k:last-row{font-style:italic}"
	d.Header, d.Footer = `<text class="k j" style="h-align:right">{cp} of {np}</text>`, `<box class="j" style="border:1,1,1,1">{cp}</box>`
	d.Body = content + `<image>p.png</image><font class="j" style="font-family:courier"/>` + strings.ReplaceAll(content, "<table", `<table repeatheader="1"`) +
		`<table style="width:60" class="j"><tr class="k" style="height:6"><td rowspan="2" class="k j" style="v-align:middle">abcdef</td><td>b</td></tr><tr style="padding:1,1,1,1" class="j"><td colspan="2" class="k j"><image>p.png</image></td></tr><tr><td>x</td></tr></table>`
	x := d.XML()
	one := func(name string, f func(e *twinEnv, doc *xdoc.Document) string) {
		ops = append(ops, twinOp{name, func(e *twinEnv) string {
			for _, dir := range []string{"d1", "d2"} {
				w := 40
				if dir == "d2" {
					w = 30
				}
				e.file(dir+"/p.png", picture("png", w, 20))
			}
			return f(e, e.keep("doc", func() interface{} { return lab.Load(x) }).(*xdoc.Document))
		}})
	}
	ops = nil
	hyph := func(e *twinEnv) *hyphenation.Hyphenator {
		return e.keep("h", func() interface{} { return lab.Hyph(blockPatterns...) }).(*hyphenation.Hyphenator)
	}
	one("render it", func(e *twinEnv, doc *xdoc.Document) string { return virtDump(e, doc, hyph(e), e.dir+"/d1") })
	one("render it in another directory", func(e *twinEnv, doc *xdoc.Document) string { return virtDump(e, doc, hyph(e), e.dir+"/d2") })
	one("render it with other patterns", func(e *twinEnv, doc *xdoc.Document) string { return virtDump(e, doc, lab.Hyph("a1b"), e.dir+"/d1") })
	one("make a PDF of it", func(e *twinEnv, doc *xdoc.Document) string { return pdfDump(e, doc, nil, hyph(e), e.dir+"/d1") })
	one("make a PDF in another directory", func(e *twinEnv, doc *xdoc.Document) string {
		return pdfDump(e, doc, nil, hyph(e), e.dir+"/d2")
	})
	one("describe it", func(e *twinEnv, doc *xdoc.Document) string { return dumps(doc) })
	one("begin to render it", func(e *twinEnv, doc *xdoc.Document) string {
		// given up in the middle of the body
		en := veng.New(doc, veng.Dyadic{})
		en.OnOp = func(string) {
			if en.Ops == 60 {
				panic("given up")
			}
		}
		defer func() { _ = recover() }()
		_ = xpdf.NewProcessor(en, hyph(e), doc, e.dir+"/d1").Process(io.Discard)
		return ""
	})
	one("render it into a failing writer", func(e *twinEnv, doc *xdoc.Document) string {
		en, err := engine.NewFPDF(font.NewRegistry(), doc)
		if err != nil {
			return "error"
		}
		return fmt.Sprint(xpdf.NewProcessor(en, hyph(e), doc, e.dir+"/d1").Process(failNow{}) != nil)
	})
	one("two at once", func(e *twinEnv, doc *xdoc.Document) string {
		// both processors made before either is used
		e1, e2 := veng.New(doc, veng.Dyadic{}), veng.New(doc, veng.Dyadic{})
		p1, p2 := xpdf.NewProcessor(e1, hyph(e), doc, e.dir+"/d1"), xpdf.NewProcessor(e2, hyph(e), doc, e.dir+"/d2")
		_ = p2.Process(io.Discard)
		_ = p1.Process(io.Discard)
		return e1.Doc.Dump() + "\n" + e2.Doc.Dump()
	})
	one("load it again and render it", func(e *twinEnv, doc *xdoc.Document) string {
		return virtDump(e, lab.Load(x), hyph(e), e.dir+"/d1")
	})
	fam("one-document", ops...)
	return out
}

type failNow struct{}

func (failNow) Write([]byte) (int, error) { return 0, fmt.Errorf("no space") }

// twinExec executes a history of one family and returns the results.
func twinExec(req, dir string) string {
	var seq []int
	if err := json.Unmarshal([]byte(req), &seq); err != nil {
		panic(err)
	}
	f := twinFamilies()[seq[0]]
	e := &twinEnv{dir: dir, kept: map[string]interface{}{}}
	var res []string
	for _, k := range seq[1:] {
		func() {
			defer func() {
				if p := recover(); p != nil {
					res = append(res, fmt.Sprintf("panic: %v", p))
				}
			}()
			res = append(res, strings.ReplaceAll(f.ops[k].run(e), dir, "$"))
		}()
	}
	b, _ := json.Marshal(res)
	return string(b)
}

var twinAlone = map[[2]int]string{}

func twinRun(r *core.Rec, fi int, seq []int) ([]string, bool) {
	req, _ := json.Marshal(append([]int{fi}, seq...))
	out, printed, ok := core.ExecSelf("C28", string(req), 100*time.Second)
	var res []string
	if !ok || json.Unmarshal([]byte(out), &res) != nil || len(res) != len(seq) {
		r.Fail("crashed", "the process executing %s ends early: %s", twinName(fi, seq), printed)
		return nil, false
	}
	return res, true
}

func twinName(fi int, seq []int) string {
	f := twinFamilies()[fi]
	var ns []string
	for _, k := range seq {
		ns = append(ns, f.ops[k].name)
	}
	return f.name + ": " + strings.Join(ns, " / ")
}

// twinJudge executes a history, and each of its operations alone.
func twinJudge(r *core.Rec, fi int, seq []int) {
	got, ok := twinRun(r, fi, seq)
	if !ok {
		return
	}
	r.Impl(1)
	r.Trans(len(seq))
	r.Obs(hashStr(fmt.Sprint(fi, seq)))
	for j, k := range seq {
		want, ok := twinAlone[[2]int{fi, k}]
		if !ok {
			a, ok := twinRun(r, fi, []int{k})
			if !ok {
				return
			}
			want = a[0]
			twinAlone[[2]int{fi, k}] = want
		}
		if got[j] != want {
			r.Fail("history", "%s\nthe result of the %d. operation is\n%s\nalone it is\n%s", twinName(fi, seq), j+1, got[j], want)
			return
		}
	}
}

// twinSpace: for every pair of operations of a family: one, the other, and the one again; in
// thorough all triples.
func twinSpace(thorough bool) core.Space {
	type h struct {
		fi  int
		seq []int
	}
	var hs []h
	for fi, f := range twinFamilies() {
		n := len(f.ops)
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if thorough && n <= 12 {
					for c := 0; c < n; c++ {
						hs = append(hs, h{fi, []int{a, b, c, a}})
					}
				} else {
					hs = append(hs, h{fi, []int{a, b, a}})
				}
			}
		}
	}
	return core.Space{Name: "twins", N: int64(len(hs)),
		Run:  func(i int64, r *core.Rec) { twinJudge(r, hs[i].fi, hs[i].seq) },
		Desc: func(i int64) string { return twinName(hs[i].fi, hs[i].seq) }}
}
