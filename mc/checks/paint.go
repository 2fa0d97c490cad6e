package checks

import (
	"fmt"
	"math"
	"strings"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/veng"
)

// painted is an element that has a frame.
type painted struct {
	x, y, w, h float64
	page       int
	border     [4]bool // left, top, right, bottom
	fg, bg     dl.RGB
	lw         float64
	text       string
}

func hexRGB(c dl.RGB) string { return fmt.Sprintf("#%02x%02x%02X", c.R, c.G, c.B) }

func borderStyle(b [4]bool) string {
	n := func(i int) int {
		if b[i] {
			return 1
		}
		return 0
	}
	return fmt.Sprintf("%d,%d,%d,%d", n(0), n(1), n(2), n(3))
}

func borderOf(n int) [4]bool { return [4]bool{n&1 > 0, n&2 > 0, n&4 > 0, n&8 > 0} }

// judgePaint: items is what is drawn for these elements, in order.
func judgePaint(r *core.Rec, x string, d *dl.Doc, items []dl.Item, ps []painted, tol float64) {
	fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), x, d.Dump()) }
	type group struct {
		rect  dl.Item
		lines []dl.Item
		texts []dl.Item
	}
	var gs []group
	for _, it := range items {
		switch it.Kind {
		case dl.Rect:
			gs = append(gs, group{rect: it})
		case dl.Line:
			if len(gs) == 0 {
				fail("line-before-background", "%v is drawn before any background", it)
				return
			}
			g := &gs[len(gs)-1]
			if len(g.texts) > 0 {
				fail("line-behind-text", "%v is drawn behind the text", it)
				return
			}
			g.lines = append(g.lines, it)
		case dl.Text:
			if len(gs) > 0 {
				g := &gs[len(gs)-1]
				g.texts = append(g.texts, it)
			}
		}
	}
	if len(gs) != len(ps) {
		fail("backgrounds", "%d backgrounds are filled for %d elements", len(gs), len(ps))
		return
	}
	for k, p := range ps {
		g := gs[k]
		rc := g.rect
		name := fmt.Sprintf("element %d (%q)", k+1, p.text)
		slack := p.lw + tol
		if rc.Page != p.page {
			fail("wrong-page", "%s is on page %d instead of %d", name, rc.Page, p.page)
			return
		}
		if rc.Color != p.bg {
			fail("background-color", "%s: background %v instead of %v", name, rc.Color, p.bg)
			return
		}
		if math.Abs(rc.X-p.x) > slack || math.Abs(rc.Y-p.y) > slack || math.Abs(rc.X+rc.W-p.x-p.w) > slack || math.Abs(rc.Y+rc.H-p.y-p.h) > slack {
			fail("background-area", "%s: background is (%.4g,%.4g %.4gx%.4g), the element (%.4g,%.4g %.4gx%.4g)", name, rc.X, rc.Y, rc.W, rc.H, p.x, p.y, p.w, p.h)
			return
		}
		sides := [4][2]float64{{p.x, -1}, {p.y, -1}, {p.x + p.w, -1}, {p.y + p.h, -1}}
		var cover [4][][2]float64
		for _, l := range g.lines {
			if l.Page != p.page {
				fail("line-page", "%s: %v is on another page", name, l)
				return
			}
			side := -1
			if math.Abs(l.X-l.W) <= tol { // vertical
				if math.Abs(l.X-sides[0][0]) <= p.lw/2+tol {
					side = 0
				} else if math.Abs(l.X-sides[2][0]) <= p.lw/2+tol {
					side = 2
				}
				if side >= 0 {
					a, b := math.Min(l.Y, l.H), math.Max(l.Y, l.H)
					if a < p.y-slack || b > p.y+p.h+slack {
						side = -1
					}
					if side >= 0 {
						cover[side] = append(cover[side], [2]float64{a, b})
					}
				}
			} else if math.Abs(l.Y-l.H) <= tol {
				if math.Abs(l.Y-sides[1][0]) <= p.lw/2+tol {
					side = 1
				} else if math.Abs(l.Y-sides[3][0]) <= p.lw/2+tol {
					side = 3
				}
				if side >= 0 {
					a, b := math.Min(l.X, l.W), math.Max(l.X, l.W)
					if a < p.x-slack || b > p.x+p.w+slack {
						side = -1
					}
					if side >= 0 {
						cover[side] = append(cover[side], [2]float64{a, b})
					}
				}
			}
			if side < 0 {
				fail("stray-line", "%s: %v is on no side of (%.4g,%.4g %.4gx%.4g)", name, l, p.x, p.y, p.w, p.h)
				return
			}
			if !p.border[side] {
				fail("unasked-line", "%s: %v is drawn, but the border is %v (left, top, right, bottom)", name, l, p.border)
				return
			}
			if l.Color != p.fg {
				fail("line-color", "%s: %v instead of %v", name, l, p.fg)
				return
			}
			if !lab.Near(l.LW, p.lw, tol) {
				fail("line-width", "%s: %v instead of width %g", name, l, p.lw)
				return
			}
		}
		for s := 0; s < 4; s++ {
			if !p.border[s] {
				continue
			}
			a, b := p.y, p.y+p.h
			if s%2 == 1 {
				a, b = p.x, p.x+p.w
			}
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, c := range cover[s] {
				lo, hi = math.Min(lo, c[0]), math.Max(hi, c[1])
			}
			if lo > a+slack || hi < b-slack {
				fail("line-missing", "%s: side %d (left, top, right, bottom) is not drawn from %.4g to %.4g: %v", name, s, a, b, cover[s])
				return
			}
		}
		var words []string
		for _, t := range g.texts {
			words = append(words, strings.TrimSpace(t.S))
		}
		if strings.Join(words, " ") != p.text {
			fail("text", "%s: %q is drawn", name, words)
			return
		}
	}
	// nothing is painted over text
	for k, t := range d.Items {
		if t.Kind != dl.Text || t.W == 0 {
			continue
		}
		for _, q := range d.Items[k+1:] {
			if q.Kind == dl.Rect && q.Page == t.Page && q.X+tol < t.X+t.W && q.X+q.W > t.X+tol && q.Y+tol < t.Y+t.H && q.Y+q.H > t.Y+tol {
				fail("text-hidden", "%v is painted over by %v", t, q)
				return
			}
		}
	}
}

var paintColors = []dl.RGB{{0, 0, 0}, {255, 255, 255}, {18, 0, 255}, {254, 1, 16}}

func paintStyle(p painted) string {
	if p.border == ([4]bool{}) && p.lw < 1 { // no border unless asked for
		return fmt.Sprintf("color:%s;background-color:%s;line-width:%g", hexRGB(p.fg), hexRGB(p.bg), p.lw)
	}
	return fmt.Sprintf("border:%s;color:%s;background-color:%s;line-width:%g", borderStyle(p.border), hexRGB(p.fg), hexRGB(p.bg), p.lw)
}

func paintSpaces(tier string) []core.Space {
	lws := []float64{0.2, 1, 2}
	var out []core.Space
	do := func(x string, real bool, r *core.Rec, ps []painted, ph byte) {
		var d *dl.Doc
		tol := 1e-6
		if real {
			d = lab.Real(x, nil)
			r.Trans(len(d.Items))
			tol = 0.02
		} else {
			var ops int
			d, ops = lab.Virt(x, veng.Dyadic{}, nil)
			r.Trans(ops)
		}
		r.Impl(1)
		r.Obs(d.Hash())
		items := d.Items
		if !real {
			items = d.Filter(func(it dl.Item) bool { return it.Phase == ph })
		}
		judgePaint(r, x, d, items, ps, tol)
	}
	// two boxes one below the other, the second possibly on the next page
	boxes := func(real bool, places, colors int) core.Space {
		rad := []int{16, 16, len(lws), len(lws), colors, colors, places, 2, 2}
		get := func(i int64) (string, []painted, byte) {
			g := core.Digits(i, rad...)
			d := narrowPage
			a := painted{x: pgL, y: 20, w: 30, h: 12, page: 1, border: borderOf(g[0]), lw: lws[g[2]], fg: paintColors[g[4]], bg: paintColors[(g[4]+1)%4], text: "A"}
			b := painted{x: pgL, y: 32, w: 66, h: 14, page: 1, border: borderOf(g[1]), lw: lws[g[3]], fg: paintColors[g[5]], bg: paintColors[(g[5]+2)%4], text: "B"}
			if real {
				b.w = 420.94/veng.K - pgL - pgR - 2
			}
			if g[7] == 1 && g[6] == 0 {
				a.y = 185
				b.y = d.T
				b.page = 2
			}
			pos := ""
			bodyFill := ""
			if g[8] == 1 {
				a.x += 3
				a.y += 1.5
				pos = ";offset-x:3;offset-y:1.5"
				if b.page == 1 {
					b.y += 1.5
				}
			}
			content := fmt.Sprintf(`<setx x="60"/><sety y="%g"/><box style="width:%g;height:%g;%s%s">A</box><box style="height:%g;%s;h-align:block"> B </box>`, a.y-map[int]float64{0: 0, 1: 1.5}[g[8]], a.w, a.h, paintStyle(a), pos, b.h, paintStyle(b))
			ph := byte('b')
			switch g[6] {
			case 0:
				d.Body = content
			case 1:
				d.Header = content
				ph = 'h'
				d.Body = bodyFill
			case 2:
				d.Footer = content
				ph = 'f'
				d.Body = bodyFill
			}
			return d.XML(), []painted{a, b}, ph
		}
		name := "boxes"
		if real {
			name = "boxes-real"
		}
		return core.Space{Name: name, N: core.Prod(rad...), Run: func(i int64, r *core.Rec) {
			x, ps, ph := get(i)
			do(x, real, r, ps, ph)
		}, Desc: func(i int64) string { x, _, _ := get(i); return x }}
	}
	if tier == "thorough" {
		out = append(out, boxes(false, 3, 4), boxes(true, 2, 2))
	} else {
		out = append(out, boxes(false, 3, 2), boxes(true, 1, 1))
	}
	// any number but 0 sets a side
	nums := []int{0, 1, 2, 3, 12}
	nrad := []int{len(nums), len(nums), len(nums), len(nums), 2, 16, 2}
	numbers := func(i int64) (string, []painted) {
		g := core.Digits(i, nrad...)
		d := narrowPage
		p := painted{x: pgL, y: 20, w: 30, h: 12, page: 1, lw: lws[g[4]*2], fg: paintColors[g[5]%4], bg: paintColors[g[5]/4], text: "A"}
		p0 := painted{x: pgL, y: 12, w: 30, h: 8, page: 1, border: borderOf(5), lw: 1.25, fg: dl.RGB{R: 1, G: 2, B: 3}, bg: dl.RGB{R: 100, G: 200, B: 50}, text: "B"}
		before := fmt.Sprintf(`<sety y="12"/><box style="%s;width:30;height:8">B</box>`, paintStyle(p0))
		var b []string
		for k := 0; k < 4; k++ {
			p.border[k] = nums[g[k]] > 0
			b = append(b, fmt.Sprint(nums[g[k]]))
		}
		sty := fmt.Sprintf("border:%s;color:%s;background-color:%s;line-width:%g;width:30;column-width:30;height:12", strings.Join(b, ","), hexRGB(p.fg), hexRGB(p.bg), p.lw)
		if g[6] == 0 {
			d.Body = before + fmt.Sprintf(`<box style="%s">A</box>`, sty)
		} else {
			d.Body = before + fmt.Sprintf(`<table style="width:30"><tr><td style="%s">A</td></tr></table>`, sty)
		}
		return d.XML(), []painted{p0, p}
	}
	out = append(out, core.Space{Name: "numbers", N: core.Prod(nrad...), Run: func(i int64, r *core.Rec) {
		x, ps := numbers(i)
		do(x, i%7 == 0, r, ps, 'b')
	}, Desc: func(i int64) string { x, _ := numbers(i); return x }})
	// tables: cells with any border, beside and below each other, spanning or not
	shapes := []struct {
		xml   func(st []string) string
		cells [][4]float64
	}{
		{func(st []string) string {
			return fmt.Sprintf(`<tr><td style="%s">C1</td><td style="%s">C2</td></tr><tr><td style="%s">C3</td><td style="%s">C4</td></tr>`, st[0], st[1], st[2], st[3])
		}, [][4]float64{{0, 0, 20, 10}, {20, 0, 26, 10}, {0, 10, 20, 10}, {20, 10, 26, 10}}},
		{func(st []string) string {
			return fmt.Sprintf(`<tr><td rowspan="2" style="%s">C1</td><td style="%s">C2</td></tr><tr><td style="%s">C3</td></tr><tr><td colspan="2" style="%s">C4</td></tr>`, st[0], st[1], st[2], st[3])
		}, [][4]float64{{0, 0, 20, 20}, {20, 0, 26, 10}, {20, 10, 26, 10}, {0, 20, 46, 10}}},
		{func(st []string) string {
			return fmt.Sprintf(`<tr><td colspan="2" style="%s">C1</td></tr><tr><td style="%s">C2</td><td rowspan="2" style="%s">C3</td></tr><tr><td style="%s">C4</td></tr>`, st[0], st[1], st[2], st[3])
		}, [][4]float64{{0, 0, 46, 10}, {0, 10, 20, 10}, {20, 10, 26, 20}, {0, 20, 20, 10}}},
	}
	tables := func(real bool, b3 int) core.Space {
		rad := []int{16, 16, b3, len(lws), len(shapes), 2, 2}
		get := func(i int64) (string, []painted) {
			g := core.Digits(i, rad...)
			d := narrowPage
			sh := shapes[g[4]]
			ox, oy := pgL, d.T
			page := 1
			body := ""
			if g[5] == 1 {
				page = 2
				body = `<sety y="195"/>`
			}
			if g[6] == 1 {
				ox += 5
				body += `<setx x="65"/>`
			}
			var ps []painted
			var st []string
			for k, c := range sh.cells {
				p := painted{x: ox + c[0], y: oy + c[1], w: c[2], h: c[3], page: page, lw: lws[(g[3]+k)%len(lws)], fg: paintColors[(k+g[0])%4], bg: paintColors[(k+g[1]+1)%4], text: fmt.Sprintf("C%d", k+1)}
				p.border = borderOf([]int{g[0], g[1], g[2], 15 - g[0]}[k])
				ps = append(ps, p)
				s := paintStyle(p) + ";height:10"
				if c[2] < 40 {
					s += fmt.Sprintf(";column-width:%g", c[2])
				}
				st = append(st, s)
			}
			tab := `<table style="width:46">`
			if g[5] == 1 {
				tab = `<table style="width:46" repeatheader="2">`
			}
			d.Body = body + tab + sh.xml(st) + "</table>"
			return d.XML(), ps
		}
		name := "tables"
		if real {
			name = "tables-real"
		}
		return core.Space{Name: name, N: core.Prod(rad...), Run: func(i int64, r *core.Rec) {
			x, ps := get(i)
			do(x, real, r, ps, 'b')
		}, Desc: func(i int64) string { x, _ := get(i); return x }}
	}
	// a box in a cell
	inner := func(real bool, n int) core.Space {
		rad := []int{16, 16, n, len(lws), 3, 2, 2}
		get := func(i int64) (string, []painted) {
			g := core.Digits(i, rad...)
			d := narrowPage
			c := painted{x: pgL, y: 50, w: 40, h: 30, page: 1, border: borderOf(g[0]), lw: lws[g[2]], fg: paintColors[g[5]], bg: paintColors[g[5]+1]}
			b := painted{x: pgL + 2, y: 50 + 1, w: 20, h: 12, page: 1, border: borderOf(g[1]), lw: lws[g[3]], fg: paintColors[3-g[5]], bg: paintColors[2*g[5]], text: "B"}
			o := painted{x: pgL + 40, y: 50, w: 20, h: 30, page: 1, border: borderOf(15 - g[0]), lw: lws[g[3]], fg: paintColors[2], bg: paintColors[3], text: "C"}
			va := []string{"top", "middle", "bottom"}[g[4]]
			b.y += []float64{0, 7, 14}[g[4]] // inside of the cell: 1 to 27
			ps := []painted{c, b, o}
			bx := fmt.Sprintf(`<box style="width:20;height:12;%s">B</box>`, paintStyle(b))
			if g[6] == 1 {
				bx += fmt.Sprintf(`<box style="offset-x:20;width:8;height:12;%s">D</box>`, paintStyle(o))
				e := o
				e.x, e.y, e.w, e.h, e.text = b.x+20, b.y, 8, 12, "D"
				ps = []painted{c, b, e, o}
			}
			d.Body = fmt.Sprintf(`<sety y="50"/><table style="width:60"><tr><td style="v-align:%s;column-width:40;height:30;padding:2,1,0,3;%s">%s</td><td style="%s">C</td></tr></table>`, va, paintStyle(c), bx, paintStyle(o))
			return d.XML(), ps
		}
		name := "boxes-in-cells"
		if real {
			name += "-real"
		}
		return core.Space{Name: name, N: core.Prod(rad...), Run: func(i int64, r *core.Rec) {
			x, ps := get(i)
			do(x, real, r, ps, 'b')
		}, Desc: func(i int64) string { x, _ := get(i); return x }}
	}
	out = append(out, inner(false, len(lws)), inner(true, 1))
	if tier == "thorough" {
		out = append(out, tables(false, 16), tables(true, 4))
	} else {
		out = append(out, tables(false, 4), tables(true, 1))
	}
	return out
}

func init() {
	core.Register(&core.Check{ID: "C24", Rule: "every pair of borders x line widths x colours for boxes (body, header, footer, page change, offset) and for cells beside, below and across each other; fillings, lines and their order are compared with the frame asked for",
		Spaces: paintSpaces})
}
