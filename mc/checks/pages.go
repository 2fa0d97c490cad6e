package checks

import (
	"fmt"
	"math"
	"strings"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

// C26: page set-up.

var (
	pgFormats = []string{"a3", "a4", "a5", "letter", "legal", "", "b5", "A9", "a 4"}
	pgOrients = []string{"portrait", "landscape", "", "upright"}
	pgSizes   = map[string][2]float64{"a3": {841.89, 1190.55}, "a4": {595.28, 841.89}, "a5": {420.94, 595.28}, "letter": {612, 792}, "legal": {612, 1008}}
	pgSizesMM = map[string][2]float64{"a3": {297, 420}, "a4": {210, 297}, "a5": {148.5, 210}, "letter": {215.9, 279.4}, "legal": {215.9, 355.6}}
	pgMargins = []float64{0, 8, 25.5, 47.25}
)

func pageBodies() []string {
	w := strings.Repeat("abc de fghi jk lmnop ", 12)
	long := strings.Repeat("abc de fghi jk lmnop ", 420)
	c := `style="font-family:Courier"`
	return []string{
		`<text ` + c + `>` + w + `</text><box style="border:1,1,1,1;line-width:0.2;font-family:Courier">box</box><table style="line-width:0.2;border:1,1,1,1"><tr><td style="border:1,1,1,1">a</td><td style="border:1,1,1,1">b</td></tr></table><newpage/><text ` + c + `>x</text>`,
		`<text ` + c + `>` + long + `</text>`,
		`<text style="font-family:Courier;h-align:right">` + w + `</text><text style="font-family:Courier;h-align:center">` + w + `</text>`,
		`<text style="font-family:Courier;h-align:block">` + w + `</text><newpage/><newpage/><box style="border:1,1,1,1;line-width:0.2;font-family:Courier;h-align:right">` + w + `</box>`,
	}
}

func judgePage(r *core.Rec, format, orient string, mg [4]float64, body int) {
	d := lab.D{Format: format, Orient: orient, L: mg[0], T: mg[1], R: mg[2], B: mg[3], Body: pageBodies()[body]}
	x := d.XML()
	b, err := lab.PDF(lab.Load(x), nil, getBlockHyph(), ".")
	r.Impl(1)
	if err != nil {
		r.Fail("error", "%v\n%s", err, x)
		return
	}
	f, err := pdfread.Parse(b)
	if err != nil {
		r.Fail("malformed", "%v\n%s", err, x)
		return
	}
	r.Trans(len(f.Doc.Items))
	r.Obs(f.Doc.Hash())
	s, ok := pgSizes[format]
	sm := pgSizesMM[format]
	if !ok {
		s, sm = pgSizes["a4"], pgSizesMM["a4"]
	}
	if orient == "landscape" {
		s[0], s[1] = s[1], s[0]
		sm[0], sm[1] = sm[1], sm[0]
	}
	pw, ph := s[0]/veng.K, s[1]/veng.K
	if f.Doc.Pages < 1 {
		r.Fail("pages", "no page")
		return
	}
	for i, p := range f.Doc.PageSizes {
		if math.Abs(p[0]-sm[0]) > 0.6 || math.Abs(p[1]-sm[1]) > 0.6 {
			r.Fail("paper", "page %d is %.1f x %.1f mm, asked for %s %s\n%s", i+1, p[0], p[1], format, orient, x)
			return
		}
	}
	l, t, rt, bt := mg[0], mg[1], pw-mg[2], ph-mg[3]
	const tol = 0.05
	ext := map[int]*[4]float64{}
	for _, it := range f.Doc.Items {
		x0, y0, x1, y1 := it.X, it.Y, it.X+it.W, it.Y+it.H
		if it.Kind == dl.Line {
			x0, x1 = math.Min(it.X, it.W), math.Max(it.X, it.W)
			y0, y1 = math.Min(it.Y, it.H), math.Max(it.Y, it.H)
		}
		if it.Kind == dl.Text && it.Font.Family != "courier" {
			x1 = x0
		}
		if it.Kind == dl.Text && strings.TrimSpace(it.S) == "" {
			continue
		}
		if it.Kind == dl.Text {
			x1 -= 4.233 * 0.6 * float64(len(it.S)-len(strings.TrimRight(it.S, " ")))
		}
		tol := tol
		if it.Kind == dl.Line { // the pen stands on the frame's edge
			tol = 0.15
		}
		if x0 < l-tol || x1 > rt+tol || y0 < t-tol || y1 > bt+tol {
			r.Fail("margins", "outside the margins (%.1f,%.1f)-(%.1f,%.1f): %s\n%s", l, t, rt, bt, it, x)
			return
		}
		e := ext[it.Page]
		if e == nil {
			e = &[4]float64{1e9, 1e9, -1e9, -1e9}
			ext[it.Page] = e
		}
		e[0], e[1], e[2], e[3] = math.Min(e[0], x0), math.Min(e[1], y0), math.Max(e[2], x1), math.Max(e[3], y1)
	}
	// the area is used up to its margins
	line := 4.2334
	for p, e := range ext {
		if body != 2 && math.Abs(e[0]-l) > 0.7 {
			r.Fail("left", "content of page %d begins at x=%.2f, left margin %.2f\n%s\n%s", p, e[0], l, x, f.Doc.Dump())
			return
		}
		if math.Abs(e[1]-t) > 0.7 {
			r.Fail("top", "content of page %d begins at y=%.2f, top margin %.2f\n%s", p, e[1], t, x)
			return
		}
		full := body == 0 && p == 1 || body == 1 && p < f.Doc.Pages-1 || body == 3 && p == 3 || body == 2 && p == 1
		if full && body != 1 && e[2] < rt-2.8 && body != 2 || full && body == 1 && e[2] < rt-2-8*2.55 {
			r.Fail("right", "content of page %d ends at x=%.2f, right margin %.2f\n%s", p, e[2], rt, x)
			return
		}
		if body == 2 && p == 1 && e[2] < rt-2.8-2.55 {
			r.Fail("right", "right-aligned text of page %d ends at x=%.2f, right margin %.2f\n%s", p, e[2], rt, x)
			return
		}
		if body == 1 && p < f.Doc.Pages-1 && e[3] < bt-1.5*line-0.1 {
			r.Fail("bottom", "text of page %d ends at y=%.2f, bottom margin %.2f\n%s", p, e[3], bt, x)
			return
		}
	}
	n := []int{2, 0, 1, 3}[body]
	if n > 0 && f.Doc.Pages != n && !(body == 2 && f.Doc.Pages > 1) {
		r.Fail("pages", "%d pages, expected %d\n%s", f.Doc.Pages, n, x)
	}
	if body == 1 && f.Doc.Pages < 2 && ph*pw < 220*300 {
		r.Fail("pages", "all text on one page\n%s", x)
	}
}

func pageSpaces(tier string) []core.Space {
	nm := len(pgMargins)
	nb := len(pageBodies())
	mgs := pgMargins
	radix := []int{len(pgFormats), len(pgOrients), nm, nm, nm, nm, nb}
	mk := func(i int64) (string, string, [4]float64, int) {
		g := core.Digits(i, radix...)
		return pgFormats[g[0]], pgOrients[g[1]], [4]float64{mgs[g[2]], mgs[g[3]], mgs[g[4]], mgs[g[5]]}, g[6]
	}
	return []core.Space{{Name: "setup", N: core.Prod(radix...),
		Run: func(i int64, r *core.Rec) {
			f, o, m, b := mk(i)
			judgePage(r, f, o, m, b)
		},
		Desc: func(i int64) string {
			f, o, m, b := mk(i)
			return fmt.Sprintf("format %q orientation %q margins l,t,r,b=%v body %d", f, o, m, b)
		}}}
}

func init() {
	core.Register(&core.Check{ID: "C26", Rule: "every paper format x orientation (valid, missing, invalid) x combination of margins x kind of content on the real engine, PDF read back: page sizes, content within the margins and up to them",
		Spaces: pageSpaces})
}
