package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"

	"xpdfmc/core"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
)

// C27: a successful run is a complete PDF, anything else is an error.

// faultWriter takes k bytes and then fails in one of several ways.
type faultWriter struct {
	k    int
	how  int
	got  bytes.Buffer
	fell bool // did not take everything it was given
}

var errDisk = errors.New("disk full")

const faultKinds = 4

func (w *faultWriter) Write(p []byte) (int, error) {
	left := w.k - w.got.Len()
	if len(p) <= left {
		w.got.Write(p)
		return len(p), nil
	}
	w.fell = true
	switch w.how {
	case 0: // takes what fits and reports it
		w.got.Write(p[:left])
		return left, errDisk
	case 1: // takes nothing of it
		return 0, errDisk
	case 2: // falls short without an error
		w.got.Write(p[:left])
		return left, nil
	default: // takes everything but reports an error
		w.got.Write(p)
		w.k += len(p)
		return len(p), errDisk
	}
}

func faultDocs() []string {
	mk := func(h, f, b string) string {
		d := lab.A5(10, 10, 10, 10)
		d.Header, d.Footer, d.Body = h, f, b
		return d.XML()
	}
	return []string{
		mk("", "", ""),
		mk("", "", "<text>x</text>"),
		mk("<text>{cp} of {np}</text>", "<box>{np}</box>", "<text>a</text><newpage/><text>b</text><newpage/><table><tr><td>c</td><td>d</td></tr></table>"),
		mk("", "", "<image>"+imgFile("a.png")+"</image><text>x</text><image>"+imgFile("b.jpg")+"</image>"),
		mk("", "", `<text style="h-align:block;font-family:Times;font-weight:bold">some words to be set in block</text><box style="border:1,1,1,1;font-style:italic">x</box>`),
		mk("", "", `<text style="font-family:sans">some sans</text>`),
	}
}

func imgFile(n string) string { return "imgs/" + n }

// process renders x into w with the real engine.
func process(x string, reg *font.Registry, wd string, w interface{ Write([]byte) (int, error) }) error {
	doc := lab.Load(x)
	if reg == nil {
		reg = font.NewRegistry()
	}
	e, err := engine.NewFPDF(reg, doc)
	if err != nil {
		return err
	}
	return xpdf.NewProcessor(e, getBlockHyph(), doc, wd).Process(w)
}

var procDir string

func sansReg() *font.Registry { return regCase{mask: 1, name: "sans"}.registry() }

// judgeSuccess renders and expects a complete PDF.
func judgeSuccess(r *core.Rec, x string, reg *font.Registry) *pdfread.File {
	var w bytes.Buffer
	err := process(x, reg, procDir, &w)
	r.Impl(1)
	r.Trans(1)
	if err != nil {
		r.Fail("error", "processing fails: %v\n%s", err, x)
		return nil
	}
	return judgePDF(r, x, w.Bytes())
}

func judgePDF(r *core.Rec, x string, b []byte) *pdfread.File {
	f, err := pdfread.Parse(b)
	if err != nil {
		r.Fail("malformed", "no error, but the PDF (%d bytes) is not well formed: %v\n%s", len(b), err, x)
		return nil
	}
	if f.Doc.Pages < 1 {
		r.Fail("malformed", "no page\n%s", x)
		return nil
	}
	r.Obs(f.Doc.Hash())
	return f
}

// judgeAny renders and accepts an error, but no broken output.
func judgeAny(r *core.Rec, x string, reg *font.Registry) {
	var w bytes.Buffer
	err := process(x, reg, procDir, &w)
	r.Impl(1)
	r.Trans(1)
	if err != nil {
		r.Count("reported_as_error", 1)
		r.Obs(hashStr(err.Error()))
		return
	}
	judgePDF(r, x, w.Bytes())
}

func processSpaces(tier string) []core.Space {
	thorough := tier == "thorough"
	var out []core.Space
	docs := faultDocs()
	for di := range docs {
		di := di
		sans := strings.Contains(docs[di], "sans")
		var reg *font.Registry
		if sans {
			reg = sansReg()
		}
		var b bytes.Buffer
		if err := process(docs[di], reg, procDir, &b); err != nil {
			// reported by every case
			b.WriteString("x")
		}
		step := int64(1)
		if sans {
			step = 701
			if thorough {
				step = 31
			}
		} else if b.Len() > 2600 && !thorough {
			step = 3
		}
		points := (int64(b.Len())/64*64 + 128) / step
		out = append(out, core.Space{Name: fmt.Sprintf("faults%d", di), N: points * faultKinds,
			Run: func(i int64, r *core.Rec) {
				w := &faultWriter{k: int(i / faultKinds * step), how: int(i % faultKinds)}
				err := process(docs[di], reg, procDir, w)
				r.Impl(1)
				r.Trans(1)
				if w.fell {
					r.Obs(uint64(i))
					if err == nil {
						r.Fail("unreported", "the writer fails (in way %d) after %d bytes, but processing reports success\n%s", w.how, w.k, docs[di])
					}
					return
				}
				if err != nil {
					r.Fail("error", "the writer takes everything, but: %v\n%s", err, docs[di])
					return
				}
				judgePDF(r, docs[di], w.got.Bytes())
			},
			Desc: func(i int64) string {
				return fmt.Sprintf("writer failing in way %d after %d bytes\n%s", i%faultKinds, i/faultKinds*step, docs[di])
			}})
	}
	out = append(out, pageCountSpaces(thorough)...)
	out = append(out, bodySpaces(thorough)...)
	out = append(out, badFontSpaces(thorough)...)
	out = append(out, extremeSpaces(thorough)...)
	out = append(out, charSpaces(thorough)...)
	return out
}

// pageCountSpaces: documents of up to so many pages, whose writer fails somewhere, or that ask for an unavailable font
// on one of the pages
func pageCountSpaces(thorough bool) []core.Space {
	most := 24
	if thorough {
		most = 60
	}
	doc := func(n, bad int) string {
		d := lab.A5(10, 10, 10, 10)
		d.Footer = "<text>{cp} of {np}</text>"
		for k := 1; k <= n; k++ {
			if k > 1 {
				d.Body += "<newpage/>"
			}
			if k == bad {
				d.Body += `<text>a <p style="font-family:nosuch">b</p></text>`
			}
			d.Body += fmt.Sprintf("<text>page %d</text>", k)
		}
		return d.XML()
	}
	const at = 8 // eighths of the output
	type cs struct{ n, bad, at, how int }
	var all []cs
	for n := 1; n <= most; n++ {
		for b := 0; b <= n; b++ {
			all = append(all, cs{n, b, -1, 0})
		}
		for a := 0; a <= at; a++ {
			for h := 0; h < faultKinds; h++ {
				all = append(all, cs{n, 0, a, h})
			}
		}
	}
	return []core.Space{{Name: "page-counts", N: int64(len(all)),
		Run: func(i int64, r *core.Rec) {
			c := all[i]
			x := doc(c.n, c.bad)
			var b bytes.Buffer
			err := process(x, nil, procDir, &b)
			r.Impl(1)
			r.Trans(c.n)
			r.Obs(uint64(i))
			if c.bad > 0 {
				if err == nil {
					r.Fail("unavailable", "page %d of %d asks for a font that is not available, but processing reports success\n%s", c.bad, c.n, x)
				}
				return
			}
			if err != nil {
				r.Fail("error", "%d pages: %v\n%s", c.n, err, x)
				return
			}
			if f := judgePDF(r, x, b.Bytes()); f == nil || f.Doc.Pages != c.n {
				if f != nil {
					r.Fail("pages", "%d pages instead of %d\n%s", f.Doc.Pages, c.n, x)
				}
				return
			}
			if c.at < 0 {
				return
			}
			w := &faultWriter{k: (b.Len() - 16) * c.at / at, how: c.how}
			if err := process(x, nil, procDir, w); w.fell && err == nil {
				r.Fail("unreported", "the writer fails (in way %d) after %d bytes, but processing reports success\n%s", w.how, w.k, x)
			}
		},
		Desc: func(i int64) string { return fmt.Sprintf("%+v", all[i]) }}}
}

// ---- bodies

func bodyVocab() []string {
	img := "<image>" + imgFile("a.png") + "</image>"
	v := []string{
		"", "text", "<text/>", "<text></text>", "<text>one two</text>", "<text><br/></text>", "<text>a<br/><br/>b</text>", `<text style="h-align:block">aa bbbb cc</text>`,
		`<text style="h-align:block;width:1">aabbccdd eeff</text>`, `<text style="width:0">one two</text>`, `<text style="h-align:center"><p>x</p> y</text>`, `<text style="font-decoration:underline">under line</text>`,
		"<box/>", "<box>x</box>", `<box style="height:30;border:1,1,1,1;padding:2,2,2,2">y</box>`, `<box style="width:1;h-align:block">some words</box>`, "<box><p>q</p><br/>r</box>", `<box style="height:500">tall</box>`,
		"<table/>", "<table><tr/></table>", "<table><tr><td/></tr></table>", "<table><tr><td>a</td><td>b</td></tr><tr><td>c</td></tr></table>", `<table><tr><td colspan="2">a</td></tr><tr><td rowspan="3">c</td><td>d</td></tr></table>`,
		`<table repeatheader="1"><tr><td>h</td></tr><tr><td style="height:150">a</td></tr><tr><td style="height:150">b</td></tr></table>`, `<table><tr><td><box>x</box>` + img + `</td></tr></table>`, `<table style="width:1"><tr><td>wide words</td><td/></tr></table>`,
		img, `<image style="height:1000">` + imgFile("b.jpg") + `</image>`, "<image>nosuch.png</image>", "<image/>", `<image style="offset-x:200">` + imgFile("a.png") + `</image>`,
		"<newpage/>", `<lf lines="2"/>`, `<lf lines="-3"/>`, `<lf lines="500"/>`, `<setx x="-5"/>`, `<setx x="1000"/>`, `<sety y="-5"/>`, `<sety y="1000"/>`, `<font style="font-point-size:40"/>`, `<font style="font-family:Courier;font-weight:bold"/>`,
		"<grid><gr>a</gr><part area=\"a\"><text>x</text></part></grid>", "<p>loose</p>", "<br/>", "<td>x</td>", "<tr/>",
	}
	return v
}

func bodySpaces(thorough bool) []core.Space {
	v := bodyVocab()
	hf := [][2]string{{"", ""}, {"<text>{cp}/{np} head</text>", "<box>foot</box>"}, {"<newpage/>" + v[23], `<sety y="200"/><text>f</text><newpage/><table><tr><td>{np}</td></tr></table>`}}
	depth, hfs := 2, 3
	if thorough {
		depth = 3
	}
	n := core.Seqs(len(v), 0, depth)
	mk := func(i int64) string {
		d := lab.A5(10, 10, 10, 10)
		h := hf[i%int64(hfs)]
		d.Header, d.Footer = h[0], h[1]
		for _, s := range core.Seq(i/int64(hfs), len(v), 0, depth) {
			d.Body += v[s]
		}
		return d.XML()
	}
	out := []core.Space{{Name: "bodies", N: n * int64(hfs),
		Run: func(i int64, r *core.Rec) { judgeSuccess(r, mk(i), nil) }, Desc: mk}}
	// every pair of elements as header and footer
	out = append(out, core.Space{Name: "headfoot", N: core.Prod(len(v), len(v)),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(v), len(v))
			d := lab.A5(10, 10, 10, 10)
			d.Header, d.Footer, d.Body = v[g[0]], v[g[1]], "<text>b</text><newpage/><text>c</text>"
			if f := judgeSuccess(r, d.XML(), nil); f != nil && f.Doc.Pages != 2 {
				r.Fail("pages", "%d pages instead of 2\n%s", f.Doc.Pages, d.XML())
			}
		},
		Desc: func(i int64) string {
			return fmt.Sprintf("header %q footer %q", v[i%int64(len(v))], v[i/int64(len(v))])
		}})
	return out
}

// ---- fonts that are not available

// fontPlaces are documents with a place for a style declaration; the text drawn in that style is "zz".
func fontPlaces() []lab.D {
	var out []lab.D
	add := func(f func(d *lab.D)) {
		d := lab.A5(10, 10, 10, 10)
		d.Body = "<text>before</text>"
		f(&d)
		d.Body += "<text>after</text>"
		out = append(out, d)
	}
	elems := []string{
		`<text style="@">zz</text>`, `<text>a <p style="@">zz</p> b</text>`, `<text><p style="@">zz</p></text>`, `<text style="h-align:block;@">zz</text>`, `<text style="h-align:block">a <p style="@">zz</p> b</text>`,
		`<box style="@">zz</box>`, `<box style="h-align:block;@">zz</box>`, `<box>a <p style="@">zz</p></box>`, `<box style="height:20">a <p style="@">zz</p></box>`,
		`<table style="@"><tr><td>zz</td></tr></table>`, `<table><tr style="@"><td>zz</td></tr></table>`, `<table><tr><td style="@">zz</td></tr></table>`, `<table><tr><td>a <p style="@">zz</p></td></tr></table>`,
		`<table><tr><td>a</td><td style="height:20;@">zz</td></tr></table>`, `<table><tr><td style="height:20">a <p style="@">zz</p></td></tr></table>`, `<table><tr><td><box style="@">zz</box></td></tr></table>`, `<table><tr><td><box style="height:5">a <p style="@">zz</p></box></td></tr></table>`,
		`<table><tr><td>a</td><td>b</td></tr><tr><td rowspan="2">c</td><td colspan="2" style="@">zz</td></tr><tr><td>e</td></tr></table>`,
		`<table repeatheader="1"><tr><td style="@">zz</td></tr><tr><td>b</td></tr></table>`,
		`<font style="@"/><text>zz</text>`, `<font style="@"/><box>zz</box>`, `<font style="@"/><table><tr><td>zz</td></tr></table>`, `<font style="@"/><lf lines="1"/>`, `<text><br/><p style="@">zz</p></text>`, `<newpage/><text style="@">zz</text>`, `<lf lines="300"/><text style="@">zz</text>`,
	}
	for _, e := range elems {
		e := e
		add(func(d *lab.D) { d.Body += e })
		add(func(d *lab.D) { d.Header = e })
		add(func(d *lab.D) { d.Footer = e })
		// asked for by a class
		cl := strings.ReplaceAll(strings.ReplaceAll(e, `style="@"`, `class="k"`), ";@\"", `" class="k"`)
		add(func(d *lab.D) { d.Style, d.Body = "k{@}", d.Body+cl })
		add(func(d *lab.D) { d.Style, d.Body = "j{width:50} k{@}", d.Body+strings.ReplaceAll(cl, `"k"`, `"j k"`) })
	}
	for _, s := range []string{"first-row", "last-row"} {
		s := s
		add(func(d *lab.D) {
			d.Style = "k{width:50} k:" + s + "{@}"
			d.Body += `<table><tr class="k"><td>zz</td></tr><tr><td>q</td></tr><tr class="k"><td>zz</td></tr></table>`
		})
	}
	for _, s := range []string{"first-cell", "last-cell"} {
		s := s
		add(func(d *lab.D) {
			d.Style = "k{width:50} k:" + s + "{@}"
			d.Body += `<table><tr><td class="k">zz</td><td>q</td><td class="k">zz</td></tr></table>`
		})
	}
	return out
}

type badFont struct {
	decl string
	ok   bool
}

func badFontSpaces(thorough bool) []core.Space {
	places := fontPlaces()
	// registered: sans regular only
	fonts := []badFont{
		{"font-family:nosuch", false}, {"font-family:Nosuch;font-weight:bold", false}, {"font-family:sans;font-weight:bold", false}, {"font-family:sans;font-style:italic", false}, {"font-family:sans;font-weight:bold;font-style:italic", false},
		{"font-family:", false}, {"font-family:arial black", false},
		{"font-family:sans", true}, {"font-family:sans;font-decoration:underline", true}, {"font-family:Courier;font-weight:bold;font-style:italic", true}, {"font-family:SANS", true}, {"font-weight:bold", true},
	}
	mk := func(i int64) (string, badFont) {
		g := core.Digits(i, len(fonts), len(places))
		d := places[g[1]]
		f := fonts[g[0]]
		for _, s := range []*string{&d.Body, &d.Header, &d.Footer, &d.Style} {
			*s = strings.ReplaceAll(*s, "@", f.decl)
		}
		return d.XML(), f
	}
	return []core.Space{{Name: "fonts", N: core.Prod(len(fonts), len(places)),
		Run: func(i int64, r *core.Rec) {
			x, f := mk(i)
			if f.decl == "font-family:" {
				// gofpdf takes the current family then
				judgeAny(r, x, sansReg())
				return
			}
			if f.ok {
				judgeSuccess(r, x, sansReg())
				return
			}
			var w bytes.Buffer
			err := process(x, sansReg(), procDir, &w)
			r.Impl(1)
			r.Trans(1)
			r.Obs(uint64(i))
			if err == nil {
				r.Fail("unavailable", "a font that is not available is asked for, but processing reports success\n%s", x)
			}
		},
		Desc: func(i int64) string { x, _ := mk(i); return x }}}
}

// ---- values

func extremeSpaces(thorough bool) []core.Space {
	nums := []string{"0", "-1", "-0.5", "0.001", "1", "7.25", "-40", "150", "211", "5000", "-5000", "1000000", "-1000000", "1e-9"}
	ints := []string{"0", "-1", "1", "3", "-40", "150", "5000", "-5000", "1000000"}
	quads := []string{"0,0,0,0", "1,1,1,1", "-1,-1,-1,-1", "50,0,50,0", "0,200,0,200", "-30,-30,-30,-30", "1000,1000,1000,1000", "1000000,0,0,0"}
	iquads := []string{"0,0,0,0", "1,0,1,0", "-1,-1,-1,-1", "1000000,2,3,4"}
	strs := []string{"x", "", "bold italic", "ä€𝄞", "(", "\\"}
	colors := []string{"#000000", "#ffffff", "#FF00fe"}
	attrs := []struct {
		name string
		vals []string
	}{
		{"width", nums}, {"height", nums}, {"line-spacing", nums}, {"offset-x", nums}, {"offset-y", nums}, {"line-width", nums}, {"column-width", nums}, {"font-point-size", ints},
		{"padding", quads}, {"margin", quads}, {"border", iquads}, {"h-align", append(append([]string{}, strs...), "left", "right", "center", "block")}, {"v-align", append(append([]string{}, strs...), "top", "middle", "bottom")},
		{"font-style", strs}, {"font-weight", strs}, {"font-decoration", strs}, {"color", colors}, {"background-color", colors}, {"text-color", colors},
	}
	type av struct{ a, v string }
	var avs []av
	for _, a := range attrs {
		for _, v := range a.vals {
			avs = append(avs, av{a.name, v})
		}
	}
	words := "some words and hyphenation of words"
	elems := []string{
		`<text style="@">` + words + `</text>`, `<text style="h-align:block;@">` + words + `<br/>x <p>y</p></text>`, `<text>a <p style="@">` + words + `</p> b</text>`, `<text style="h-align:right;@">` + words + `</text>`, `<text style="h-align:center;@">` + words + `</text>`,
		`<box style="@">` + words + `</box>`, `<box style="@"/>`, `<box style="h-align:block;border:1,1,1,1;@">` + words + `</box>`,
		`<table style="@"><tr><td>` + words + `</td><td>b</td></tr><tr><td>c</td></tr></table>`, `<table><tr style="@"><td>` + words + `</td><td>b</td></tr></table>`, `<table><tr><td>a</td><td style="@">` + words + `</td></tr></table>`,
		`<table><tr><td style="h-align:block;v-align:middle;@">` + words + `</td><td rowspan="2"/></tr><tr><td/></tr></table>`, `<table><tr><td style="@"><box>` + words + `</box><image>` + imgFile("a.png") + `</image></td></tr></table>`, `<table><tr><td><box style="@">` + words + `</box></td></tr></table>`,
		`<image style="@">` + imgFile("a.png") + `</image>`, `<image style="width:20;@">` + imgFile("b.jpg") + `</image>`, `<table><tr><td style="height:20"><image style="@">` + imgFile("c.gif") + `</image></td></tr></table>`,
		`<font style="@"/><text>` + words + `</text>`,
	}
	one := func(elem int, a av) string { return strings.ReplaceAll(elems[elem], "@", a.a+":"+lab.Esc(a.v)) }
	mk := func(i int64) string {
		g := core.Digits(i, len(avs), len(elems), 3)
		d := lab.A5(10, 10, 10, 10)
		e := one(g[1], avs[g[0]])
		switch g[2] {
		case 0:
			d.Body = e + "<text>after</text>"
		case 1:
			d.Body = `<sety y="195"/>` + e + "<box>after</box>"
		case 2:
			d.Header, d.Body, d.Footer = e, "<text>b</text>", e
		}
		return d.XML()
	}
	out := []core.Space{{Name: "values", N: core.Prod(len(avs), len(elems), 3),
		Run: func(i int64, r *core.Rec) { judgeAny(r, mk(i), nil) }, Desc: mk}}
	// two attributes at once
	small := []av{{"width", "0"}, {"width", "-3"}, {"width", "40"}, {"width", "1000"}, {"height", "0"}, {"height", "30"}, {"height", "900"}, {"font-point-size", "0"}, {"font-point-size", "90"}, {"font-point-size", "-4"}, {"padding", "30,30,30,30"}, {"padding", "-9,-9,-9,-9"}, {"padding", "90,0,90,0"},
		{"h-align", "block"}, {"h-align", "right"}, {"v-align", "bottom"}, {"line-spacing", "0"}, {"line-spacing", "-2"}, {"line-spacing", "60"}, {"offset-x", "-50"}, {"offset-x", "180"}, {"offset-y", "-50"}, {"offset-y", "300"}, {"column-width", "300"}, {"column-width", "0"}, {"border", "1,1,1,1"}, {"line-width", "-3"}, {"line-width", "90"}}
	mk2 := func(i int64) string {
		g := core.Digits(i, len(small), len(small), len(elems))
		d := lab.A5(10, 10, 10, 10)
		a, b := small[g[0]], small[g[1]]
		d.Body = strings.ReplaceAll(elems[g[2]], "@", a.a+":"+a.v+";"+b.a+":"+b.v) + "<text>after</text>"
		return d.XML()
	}
	out = append(out, core.Space{Name: "values2", N: core.Prod(len(small), len(small), len(elems)),
		Run: func(i int64, r *core.Rec) { judgeAny(r, mk2(i), nil) }, Desc: mk2})
	// values of elements
	ex := []string{}
	for _, n := range nums {
		ex = append(ex, `<setx x="`+n+`"/>`, `<sety y="`+n+`"/>`, `<lf lines="`+n+`"/>`)
	}
	spans := []string{"-1", "0", "1", "2", "7", "100"}
	for _, a := range spans {
		for _, b := range spans {
			ex = append(ex, `<table><tr><td colspan="`+a+`" rowspan="`+b+`">x</td><td rowspan="`+a+`">y</td></tr><tr><td colspan="`+b+`">z</td></tr></table>`)
		}
	}
	for n := 0; n <= 10; n++ {
		ex = append(ex, fmt.Sprintf(`<table repeatheader="%d"><tr><td style="height:60">a</td></tr><tr><td style="height:60">b</td></tr><tr><td style="height:60">c</td></tr><tr><td style="height:60">d</td></tr></table>`, n))
	}
	then := []string{"<text>one two</text>", "<box>x</box>", `<text style="h-align:block">one two three</text>`, "<table><tr><td>x</td></tr></table>", "<image>" + imgFile("a.png") + "</image>", `<lf lines="1"/><newpage/>`}
	mk3 := func(i int64) string {
		g := core.Digits(i, len(ex), len(then), 2)
		d := lab.A5(10, 10, 10, 10)
		d.Body = ex[g[0]] + then[g[1]]
		if g[2] == 1 {
			d.Header, d.Footer, d.Body = d.Body, d.Body, "<text>b</text>"
		}
		return d.XML()
	}
	out = append(out, core.Space{Name: "positions", N: core.Prod(len(ex), len(then), 2),
		Run: func(i int64, r *core.Rec) { judgeAny(r, mk3(i), nil) }, Desc: mk3})
	// margins
	mgs := []float64{0, 10, 75, 147, 160, 220, -5, 1000}
	bodies := []string{"<text>one two three</text>", "<box>x</box>", `<text style="h-align:block">one two three hyphenation</text>`, "<table><tr><td>x</td><td>y</td></tr></table>", "<image>" + imgFile("a.png") + "</image>"}
	mk4 := func(i int64) string {
		g := core.Digits(i, len(mgs), len(mgs), len(mgs), len(mgs), len(bodies))
		d := lab.A5(mgs[g[0]], mgs[g[1]], mgs[g[2]], mgs[g[3]])
		d.Body = bodies[g[4]]
		return d.XML()
	}
	n4 := core.Prod(len(mgs), len(mgs), len(mgs), len(mgs), len(bodies))
	out = append(out, core.Space{Name: "margins", N: n4,
		Run: func(i int64, r *core.Rec) { judgeAny(r, mk4(i), nil) }, Desc: mk4})
	return out
}

// ---- characters

func charOK(c rune) bool {
	return (c == 9 || c == 10 || c == 13 || c >= 0x20) && !(c >= 0xD800 && c <= 0xDFFF) && c != 0xFFFE && c != 0xFFFF
}

func charSpaces(thorough bool) []core.Space {
	const per = 64
	var out []core.Space
	places := []string{`<text style="@">%s</text>`, `<text style="h-align:block;width:60;@">%s</text>`, `<box style="h-align:right;@">%s</box>`, `<table><tr><td style="@">%s</td><td style="h-align:block;@">%s</td></tr></table>`}
	blocks := int64(0x10000 / per)
	extra := []rune{0x10000, 0x1D11E, 0x1F600, 0x20000, 0x2F800, 0xE0001, 0xF0000, 0x10FFFD}
	mk := func(i int64, fam string) string {
		g := core.Digits(i, int(blocks)+1, len(places))
		var words []string
		var all strings.Builder
		add := func(c rune) {
			if charOK(c) {
				words = append(words, lab.Esc("a"+string(c)), lab.Esc(string(c)+"b"+string(c)))
				all.WriteString(lab.Esc(string(c)))
			}
		}
		if int64(g[0]) == blocks {
			for _, c := range extra {
				add(c)
			}
		} else {
			for k := 0; k < per; k++ {
				add(rune(g[0]*per + k))
			}
		}
		d := lab.A5(10, 10, 10, 10)
		t := strings.Join(words, " ") + " " + all.String()
		p := strings.ReplaceAll(places[g[1]], "@", "font-family:"+fam)
		d.Body = strings.ReplaceAll(p, "%s", t)
		return d.XML()
	}
	for _, fam := range []string{"Helvetica", "sans"} {
		fam := fam
		n := (blocks + 1) * int64(len(places))
		f := func(i int64) int64 { return i }
		if fam == "sans" && !thorough {
			n = blocks + 1
			// the place goes with the block
			f = func(i int64) int64 { return i + (i%int64(len(places)))*(blocks+1) }
		}
		out = append(out, core.Space{Name: "characters-" + fam, N: n,
			Run: func(i int64, r *core.Rec) {
				var reg *font.Registry
				if fam == "sans" {
					reg = sansReg()
				}
				judgeSuccess(r, mk(f(i), fam), reg)
			},
			Desc: func(i int64) string { return mk(f(i), fam) }})
	}
	// short strings over characters that mean something to PDF, XML or the layout
	cs := []string{"a", " ", "(", ")", "\\", "{", "}", "{cp}", "{np}", "\u00a0", "\u00ad", "\u200b", "\u0301", "\u05d0", "\ufffd", "\U0001F600", "é", "-", "<br/>", "%", "\r", "\t"}
	depth := 2
	if thorough {
		depth = 3
	}
	n := core.Seqs(len(cs), 1, depth)
	mk2 := func(i int64) string {
		g := core.Digits(i, len(places))
		var b strings.Builder
		for _, s := range core.Seq(i/int64(len(places)), len(cs), 1, depth) {
			if cs[s] == "<br/>" {
				b.WriteString(cs[s])
			} else {
				b.WriteString(lab.Esc(cs[s]))
			}
		}
		d := lab.A5(10, 10, 10, 10)
		d.Body = strings.ReplaceAll(strings.ReplaceAll(places[g[0]], "@", "width:8"), "%s", b.String())
		d.Header = "<text>" + b.String() + "</text>"
		return d.XML()
	}
	out = append(out, core.Space{Name: "strings", N: n * int64(len(places)),
		Run: func(i int64, r *core.Rec) { judgeSuccess(r, mk2(i), nil) }, Desc: mk2})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C27", Rule: "every write fault (position x kind) of several documents; every sequence of elements over a vocabulary; an unavailable font at every place; every attribute value and pair of values of a list at every kind of element; every character: an error is returned, or the PDF is complete and well-formed",
		Spaces: processSpaces, Setup: func(dir string) {
			procDir = dir
			fontDir = dir
			writeFonts(dir)
			_ = os.MkdirAll(dir+"/imgs", 0o777)
			writeImages(dir + "/imgs")
		}})
}
