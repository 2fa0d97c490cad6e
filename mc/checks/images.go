package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

// C25: images.

func imgNames() []string {
	var out []string
	for n := range testImages {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// fitImage gives the size expected: natural at 96 dpi or as asked for, scaled down to the area.
func fitImage(px [2]int, w, h, aw, ah float64) (float64, float64) {
	nw, nh := float64(px[0])*25.4/96, float64(px[1])*25.4/96
	switch {
	case w > 0 && h > 0:
	case w > 0:
		h = nh * (w / nw)
	case h > 0:
		w = nw * (h / nh)
	default:
		w, h = nw, nh
	}
	s := math.Min(1, math.Min(aw/w, ah/h))
	return w * s, h * s
}

type imgCase struct {
	name           string
	w, h, ox, oy   float64
	src            string
	place          int
	setw, seth     bool
	classy, negDim bool
}

func (c imgCase) xml() string {
	var st []string
	if c.setw {
		st = append(st, fmt.Sprintf("width:%g", c.w))
	}
	if c.seth {
		st = append(st, fmt.Sprintf("height:%g", c.h))
	}
	if c.ox != 0 {
		st = append(st, fmt.Sprintf("offset-x:%g", c.ox))
	}
	if c.oy != 0 {
		st = append(st, fmt.Sprintf("offset-y:%g", c.oy))
	}
	if c.classy {
		return fmt.Sprintf(`<image class="I">%s</image>`, c.src)
	}
	a := ""
	if len(st) > 0 {
		a = ` style="` + strings.Join(st, "; ") + `"`
	}
	return "<image" + a + ">" + c.src + "</image>"
}

func (c imgCase) styleSheet() string {
	if !c.classy {
		return ""
	}
	s := "I{"
	if c.setw {
		s += fmt.Sprintf("width:%g;", c.w)
	}
	if c.seth {
		s += fmt.Sprintf("height:%g;", c.h)
	}
	return s + fmt.Sprintf("offset-x:%g;offset-y:%g}", c.ox, c.oy)
}

// places: where the image element stands; gives the document body and area/position expected.
type imgPlace struct {
	name string
	doc  func(img, sheet string) lab.D
	// cursor and area, given page metrics (left, top, printable width/height)
	x, y, aw, ah func(pg imgPage) float64
}

type imgPage struct{ l, t, w, h float64 }

var imgPlaces = func() []imgPlace {
	base := func(sheet string) lab.D {
		d := lab.A5(17, 20, 13, 30)
		d.Style = sheet
		return d
	}
	body := func(b string) func(img, sheet string) lab.D {
		return func(img, sheet string) lab.D {
			d := base(sheet)
			d.Body = strings.ReplaceAll(b, "@", img)
			return d
		}
	}
	k := func(v float64) func(imgPage) float64 { return func(imgPage) float64 { return v } }
	left := func(p imgPage) float64 { return p.l }
	top := func(p imgPage) float64 { return p.t }
	pw := func(p imgPage) float64 { return p.w }
	phh := func(p imgPage) float64 { return p.h }
	out := []imgPlace{
		{"body", body("@<text>behind</text>"), left, top, pw, phh},
		{"body-sety", body(`<sety y="60"/>@<text>behind</text>`), left, k(60), pw, phh},
		{"second-page", body(`<text>a</text><newpage/>@<text>behind</text>`), left, top, pw, phh},
		{"header", func(img, sheet string) lab.D {
			d := base(sheet)
			d.Header = img
			d.Body = "<text>body</text>"
			return d
		}, left, top, pw, phh},
		{"footer", func(img, sheet string) lab.D {
			d := base(sheet)
			d.Footer = `<sety y="100"/>` + img
			d.Body = "<text>body</text>"
			return d
		}, nil, k(100), pw, phh},
		{"cell", body(`<table style="width:80"><tr><td style="column-width:30;height:24;padding:1,2,3,4">@</td><td>x</td></tr></table><text>behind</text>`),
			func(p imgPage) float64 { return p.l + 1 }, func(p imgPage) float64 { return p.t + 2 }, k(26), k(18)},
		{"cell2", body(`<table style="width:80"><tr><td style="column-width:30;height:10">x</td><td style="padding:2,2,2,2">@</td></tr></table><text>behind</text>`),
			func(p imgPage) float64 { return p.l + 32 }, func(p imgPage) float64 { return p.t + 2 }, k(46), k(6)},
		{"cell-valign", body(`<table style="width:80"><tr><td style="column-width:30;height:24;v-align:middle">@</td><td>x</td></tr></table><text>behind</text>`),
			left, top, k(30), k(24)},
		{"cell-row2", body(`<table style="width:80"><tr><td style="column-width:30;height:16">a</td><td>b</td></tr><tr><td style="height:50">c</td><td style="padding:0,0,0,10">@</td></tr></table><text>behind</text>`),
			func(p imgPage) float64 { return p.l + 30 }, func(p imgPage) float64 { return p.t + 16 }, k(50), k(40)},
	}
	return out
}()

func judgeImage(r *core.Rec, c imgCase, pl imgPlace, file string, real bool) {
	d := pl.doc(c.xml(), c.styleSheet())
	x := d.XML()
	doc := lab.Load(x)
	pg := imgPage{17, 20, 148 - 17 - 13 - 2, 210 - 20 - 30}
	tol := 1e-6
	var got *dl.Doc
	var f *pdfread.File
	if real {
		b, err := lab.PDF(doc, nil, nil, engDir)
		r.Impl(1)
		if err != nil {
			r.Fail("error", "%v\n%s", err, x)
			return
		}
		f, err = pdfread.Parse(b)
		if err != nil {
			r.Fail("malformed", "%v\n%s", err, x)
			return
		}
		got = &f.Doc
		pg.w, pg.h = 420.94/veng.K-17-13-2, 595.28/veng.K-50
		tol = 0.012
	} else {
		var ops int
		got, ops = lab.VirtDoc(doc, veng.Dyadic{}, nil, engDir)
		r.Impl(1)
		r.Trans(ops)
	}
	r.Obs(got.Hash())
	ims := got.Kind(dl.Image)
	if len(ims) != 1 {
		r.Fail("count", "%d images drawn\n%s\n%s", len(ims), x, got.Dump())
		return
	}
	im := ims[0]
	px := testImages[file]
	if real {
		if f.Images[im.S] != px {
			r.Fail("image", "the image drawn is %v pixels, the file %s is %v\n%s", f.Images[im.S], file, px, x)
		}
	} else if im.S != filepath.Join(engDir, file) {
		r.Fail("image", "the image drawn is %s, expected %s\n%s", im.S, filepath.Join(engDir, file), x)
	}
	aw := pl.aw(pg)
	ah := pl.ah(pg)
	ww, hh := fitImage(px, c.w, c.h, aw-c.ox, ah-c.oy)
	if !lab.Near(im.W, ww, tol) || !lab.Near(im.H, hh, tol) {
		r.Fail("size", "drawn %gx%g mm, expected %gx%g\n%s", im.W, im.H, ww, hh, x)
	}
	if pl.x != nil && !lab.Near(im.X, pl.x(pg)+c.ox, tol) || !lab.Near(im.Y, pl.y(pg)+c.oy, tol) {
		r.Fail("place", "drawn at (%g,%g), expected y %g\n%s\n%s", im.X, im.Y, pl.y(pg)+c.oy, x, got.Dump())
	}
}

func imageSpaces(tier string) []core.Space {
	names := imgNames()
	dims := []float64{-1, 0, 0.5, 5, 14.5, 500} // -1: not given, 0: given, but no size
	offs := []float64{0, 3.5, -2.5}
	srcs := 4
	radix := []int{len(names), len(dims), len(dims), len(offs), len(offs), len(imgPlaces), srcs, 2}
	mk := func(i int64) (imgCase, imgPlace, string) {
		g := core.Digits(i, radix...)
		c := imgCase{w: dims[g[1]], h: dims[g[2]], ox: offs[g[3]], oy: offs[g[4]], classy: g[7] == 1}
		c.setw, c.seth = c.w >= 0, c.h >= 0
		f := names[g[0]]
		switch g[6] {
		case 0:
			c.src = f
		case 1:
			c.src = "./sub/../" + f
		case 2:
			c.src = filepath.Join(engDir, f)
		case 3:
			c.src = "../" + filepath.Base(engDir) + "/" + f
		}
		return c, imgPlaces[g[5]], f
	}
	out := []core.Space{{Name: "virtual", N: core.Prod(radix...),
		Run:  func(i int64, r *core.Rec) { c, p, f := mk(i); judgeImage(r, c, p, f, false) },
		Desc: func(i int64) string { c, p, _ := mk(i); return p.name + " " + c.styleSheet() + " " + c.xml() }}}
	// the real engine: every image, every place, fewer sizes
	rdims := []float64{0, 14.5}
	rr := []int{len(names), len(rdims), len(rdims), len(offs), len(imgPlaces)}
	mkr := func(i int64) (imgCase, imgPlace, string) {
		g := core.Digits(i, rr...)
		c := imgCase{w: rdims[g[1]], h: rdims[g[2]], ox: offs[g[3]], src: names[g[0]]}
		c.setw, c.seth = c.w > 0, c.h > 0
		return c, imgPlaces[g[4]], names[g[0]]
	}
	out = append(out, core.Space{Name: "pdf", N: core.Prod(rr...),
		Run:  func(i int64, r *core.Rec) { c, p, f := mkr(i); judgeImage(r, c, p, f, true) },
		Desc: func(i int64) string { c, p, _ := mkr(i); return p.name + " " + c.xml() }})
	// several images in one document
	few := []string{"a.png", "b.jpg", "c.gif", "missing.png", "notimage.png"}
	out = append(out, core.Space{Name: "several", N: core.Seqs(len(few), 2, 4) * 2,
		Run: func(i int64, r *core.Rec) { judgeSeveral(r, few, core.Seq(i/2, len(few), 2, 4), i%2 == 1) },
		Desc: func(i int64) string {
			s := ""
			for _, k := range core.Seq(i/2, len(few), 2, 4) {
				s += " " + few[k]
			}
			return s
		}})
	// no image at all
	bads := []string{"missing.png", "notimage.png", "empty.png", "dir.png", "dir.png/x.png", "textfile", "", ".", "nothing/a.png", "notimage.jpg", "notimage.gif", "cut3.png", "cut9.gif", "cut2.jpg"}
	out = append(out, core.Space{Name: "bad", N: core.Prod(len(bads), len(imgPlaces), 4),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(bads), len(imgPlaces), 4)
			judgeBad(r, bads[g[0]], imgPlaces[g[1]], g[2])
		},
		Desc: func(i int64) string {
			g := core.Digits(i, len(bads), len(imgPlaces), 4)
			return fmt.Sprintf("%q in %s variant %d", bads[g[0]], imgPlaces[g[1]].name, g[2])
		}})
	// every prefix of an image file
	cut := []string{"h.png", "a.png", "c.gif", "m.gif", "b.jpg"}
	var sizes []int64
	var cuts [][]byte
	for _, n := range cut {
		b, _ := os.ReadFile(filepath.Join(engDir, n))
		if len(b) > 700 && tier != "thorough" {
			b = b[:700]
		}
		cuts = append(cuts, b)
		sizes = append(sizes, int64(len(b)))
	}
	var tot int64
	for _, s := range sizes {
		tot += s
	}
	mkc := func(i int64) (int, int) {
		for k, s := range sizes {
			if i < s {
				return k, int(i)
			}
			i -= s
		}
		return 0, 0
	}
	out = append(out, core.Space{Name: "prefixes", N: tot,
		Run: func(i int64, r *core.Rec) {
			k, n := mkc(i)
			judgePrefix(r, cut[k], cuts[k][:n])
		},
		Desc: func(i int64) string { k, n := mkc(i); return fmt.Sprintf("the first %d bytes of %s", n, cut[k]) }})
	out = append(out, core.Space{Name: "describe", N: int64(len(names)), Run: func(i int64, r *core.Rec) {
		d, err := xpdf.DescribeImage(filepath.Join(engDir, names[i]))
		r.Impl(1)
		r.Trans(1)
		r.Obs(uint64(i))
		px := testImages[names[i]]
		ext := strings.ToLower(strings.TrimPrefix(filepath.Ext(names[i]), "."))
		if ext == "jpg" {
			ext = "jpeg"
		}
		if err != nil || d.WidthPx != px[0] || d.HeightPx != px[1] || d.Format != ext || !lab.Near(d.WidthMm(96), float64(px[0])*25.4/96, 1e-9) || !lab.Near(d.HeightMm(96), float64(px[1])*25.4/96, 1e-9) || !lab.Near(d.HeightMm(254), float64(px[1])/10, 1e-9) {
			r.Fail("describe", "%s: %+v, %v", names[i], d, err)
		}
	}, Desc: func(i int64) string { return names[i] }})
	return out
}

func judgeSeveral(r *core.Rec, few []string, seq []int, cells bool) {
	var b strings.Builder
	type exp struct {
		file string
		y    float64
		x    float64
	}
	var want []exp
	if cells {
		b.WriteString(`<table style="width:100">`)
	}
	for j, k := range seq {
		f := few[k]
		_, ok := testImages[f]
		if cells {
			fmt.Fprintf(&b, `<tr><td style="column-width:40;height:20">t%d</td><td><image style="height:10">%s</image></td></tr>`, j, f)
			if ok {
				want = append(want, exp{f, 20 + 20*float64(j), 17 + 40})
			}
		} else {
			fmt.Fprintf(&b, `<sety y="%d"/><image style="height:10">%s</image><text>t%d</text>`, 30+20*j, f, j)
			if ok {
				want = append(want, exp{f, 30 + 20*float64(j), 17})
			}
		}
	}
	if cells {
		b.WriteString(`</table>`)
	}
	d := lab.A5(17, 20, 13, 30)
	d.Body = b.String()
	pdf, err := lab.PDF(lab.Load(d.XML()), nil, nil, engDir)
	r.Impl(1)
	r.Trans(len(seq))
	if err != nil {
		r.Fail("error", "%v\n%s", err, d.XML())
		return
	}
	f, err := pdfread.Parse(pdf)
	if err != nil {
		r.Fail("malformed", "%v\n%s", err, d.XML())
		return
	}
	r.Obs(f.Doc.Hash())
	ims := f.Doc.Kind(dl.Image)
	if len(ims) != len(want) {
		r.Fail("count", "%d images drawn, expected %d\n%s", len(ims), len(want), d.XML())
		return
	}
	for j, w := range want {
		px := testImages[w.file]
		if f.Images[ims[j].S] != px || !lab.Near(ims[j].Y, w.y, 0.02) || !lab.Near(ims[j].X, w.x, 0.02) || !lab.Near(ims[j].H, 10, 0.02) || !lab.Near(ims[j].W, 10*float64(px[0])/float64(px[1]), 0.02) {
			r.Fail("place", "image %d (%v): %s, expected %s at (%g,%g)\n%s", j, f.Images[ims[j].S], ims[j], w.file, w.x, w.y, d.XML())
			return
		}
	}
	n := 0
	for _, it := range f.Doc.Kind(dl.Text) {
		if strings.HasPrefix(it.S, "t") {
			n++
		}
	}
	if n != len(seq) {
		r.Fail("rest", "%d texts drawn, expected %d\n%s\n%s", n, len(seq), d.XML(), f.Doc.Dump())
	}
}

func judgeBad(r *core.Rec, src string, pl imgPlace, variant int) {
	st := []string{"", "width:5;height:6;offset-x:3", "font-weight:bold;text-color:#ff0000;font-point-size:20", "offset-y:4"}[variant]
	img := fmt.Sprintf(`<image style="%s">%s</image>`, st, src)
	if st == "" {
		img = "<image>" + src + "</image>"
	}
	with := pl.doc(img, "")
	without := pl.doc("", "")
	for _, real := range []bool{false, true} {
		var a, b string
		if real {
			for k, x := range []string{with.XML(), without.XML()} {
				pdf, err := lab.PDF(lab.Load(x), nil, nil, engDir)
				r.Impl(1)
				if err != nil {
					r.Fail("error", "%v\n%s", err, x)
					return
				}
				f, err := pdfread.Parse(pdf)
				if err != nil {
					r.Fail("malformed", "%v\n%s", err, x)
					return
				}
				if k == 0 {
					a = f.Doc.Dump()
				} else {
					b = f.Doc.Dump()
				}
			}
		} else {
			d1, n1 := lab.VirtDoc(lab.Load(with.XML()), veng.Dyadic{}, nil, engDir)
			d2, _ := lab.VirtDoc(lab.Load(without.XML()), veng.Dyadic{}, nil, engDir)
			a, b = d1.Dump(), d2.Dump()
			r.Trans(n1)
			r.Impl(2)
			r.Obs(d1.Hash())
		}
		if a != b {
			r.Fail("rest", "with the bad image:\n%s\nwithout it:\n%s\n%s", a, b, with.XML())
			return
		}
	}
}

// judgePrefix: a truncated image is left out, drawn, or reported; never a crash, never a damaged PDF.
func judgePrefix(r *core.Rec, name string, data []byte) {
	ext := filepath.Ext(name)
	p := filepath.Join(engDir, fmt.Sprintf("cut%d%s", len(data), ext))
	_ = os.WriteFile(p, data, 0o666)
	defer os.Remove(p)
	d := lab.A5(17, 20, 13, 30)
	d.Body = "<text>one</text><image>" + p + "</image><text>two</text>"
	r.Impl(1)
	r.Trans(1)
	_, derr := xpdf.DescribeImage(p)
	e, err := engine.NewFPDF(font.NewRegistry(), lab.Load(d.XML()))
	if err != nil {
		r.Fail("error", "%v", err)
		return
	}
	var b bytes.Buffer
	err = xpdf.NewProcessor(e, lab.NoHyph(), lab.Load(d.XML()), engDir).Process(io.Writer(&b))
	if err != nil {
		if derr != nil {
			r.Fail("rest", "the image is unreadable (%v) and the document fails: %v", derr, err)
		}
		r.Obs(1)
		return
	}
	f, err := pdfread.Parse(b.Bytes())
	if err != nil {
		r.Fail("malformed", "%v", err)
		return
	}
	n := len(f.Doc.Kind(dl.Text))
	k := len(f.Doc.Kind(dl.Image))
	r.Obs(uint64(10 + k))
	if n != 2 || k > 1 || (derr != nil && k != 0) {
		r.Fail("rest", "%d texts and %d images drawn (%v)", n, k, derr)
	}
}

func imgSetup(dir string) {
	engSetup(dir)
	w := func(n, s string) { _ = os.WriteFile(filepath.Join(dir, n), []byte(s), 0o666) }
	_ = os.MkdirAll(filepath.Join(dir, "dir.png"), 0o777)
	_ = os.MkdirAll(filepath.Join(dir, "sub"), 0o777)
	for _, e := range []string{".png", ".jpg", ".gif"} {
		w("notimage"+e, "this is no image, but a text")
	}
	w("textfile", "no image")
	// the command's own directory has other images of the same names, and those that are missing
	own := filepath.Join(dir, "own")
	_ = os.MkdirAll(own, 0o777)
	for n := range testImages {
		_ = os.WriteFile(filepath.Join(own, n), picture(strings.TrimPrefix(filepath.Ext(n), "."), 9, 5), 0o666)
	}
	for _, n := range []string{"missing.png", "notimage.png", "empty.png", "textfile", "notimage.jpg", "notimage.gif", "cut3.png", "cut9.gif", "cut2.jpg"} {
		_ = os.WriteFile(filepath.Join(own, n), picture(strings.TrimPrefix(filepath.Ext(n), "."), 9, 5), 0o666)
	}
	_ = os.Chdir(own)
	w("empty.png", "")
	for n, s := range map[string]int{"cut3.png": 3, "cut9.gif": 9, "cut2.jpg": 2} {
		src := map[string]string{".png": "a.png", ".gif": "c.gif", ".jpg": "b.jpg"}[filepath.Ext(n)]
		b, _ := os.ReadFile(filepath.Join(dir, src))
		w(n, string(b[:s]))
	}
}

func init() {
	core.Register(&core.Check{ID: "C25", Rule: "every image x size asked for x offset x place (virtual engine; and PDF read back), several images per document, every kind of bad image and every prefix of image files",
		Spaces: imageSpaces, Setup: imgSetup})
}
