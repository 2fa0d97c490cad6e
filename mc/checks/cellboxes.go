package checks

import (
	"fmt"
	"math"
	"strings"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
)

// Boxes in table cells (part of C14 and C15).

var (
	boxRed   = dl.RGB{170, 0, 0}
	boxGreen = dl.RGB{0, 170, 0}
)

type cellBox struct {
	height  float64 // 0: not given
	content int     // nothing, a word, two lines, words that wrap
	pad     [4]float64
	off     [2]float64
	width   float64 // <0: not given
	align   string
	size    float64
	real    bool
}

func (b cellBox) xml(w string, bg string) string {
	s := fmt.Sprintf("line-width:0;background-color:%s;padding:%g,%g,%g,%g;h-align:%s", bg, b.pad[0], b.pad[1], b.pad[2], b.pad[3], b.align)
	if b.height > 0 {
		s += fmt.Sprintf(";height:%g", b.height)
	}
	if b.width >= 0 {
		s += fmt.Sprintf(";width:%g", b.width)
	}
	if b.off[0] != 0 || b.off[1] != 0 {
		s += fmt.Sprintf(";offset-x:%g;offset-y:%g", b.off[0], b.off[1])
	}
	if b.real {
		s += ";font-family:courier"
	}
	if b.size > 0 {
		s += fmt.Sprintf(";font-point-size:%g", b.size)
	}
	t := ""
	switch b.content {
	case 1:
		t = w + "a"
	case 2:
		t = w + "a<br/>" + w + "b"
	case 3:
		t = strings.TrimSpace(strings.Repeat(w+"c ", 9))
	}
	return `<box style="` + s + `">` + t + "</box>"
}

// judge compares frame and text of the box with the inside of its cell; false: it does not fit there.
func (b cellBox) judge(d *dl.Doc, m dl.Metrics, tol float64, w string, bg dl.RGB, in dl.Item, valign string, fail func(sig, s string, a ...interface{})) bool {
	var fr *dl.Item
	for k := range d.Items {
		if it := d.Items[k]; it.Kind == dl.Rect && it.Color == bg {
			if fr != nil {
				fail("box-count", "the box %q is painted twice", w)
				return true
			}
			fr = &d.Items[k]
		}
	}
	if fr == nil {
		fail("box-count", "the box %q is not painted", w)
		return true
	}
	var words []dl.Item
	for _, it := range d.Words(m) {
		if strings.HasPrefix(it.S, w) {
			words = append(words, it)
		}
	}
	f := dl.Font{Size: 12}
	if b.size > 0 {
		f.Size = b.size
	}
	lh := m.Height(f)
	lines := dl.Lines(words, tol)
	n := map[int]int{0: 0, 1: 1, 2: 2, 3: 9}[b.content]
	if len(words) != n {
		fail("box-text", "the box %q shows %d words instead of %d", w, len(words), n)
		return true
	}
	h := b.height
	if h <= 0 {
		h = lh
		if len(lines) > 0 {
			h = lines[len(lines)-1].Y + lh - lines[0].Y
		}
	}
	h += b.pad[1] + b.pad[3]
	wd := in.W
	if b.width >= 0 && b.width < wd {
		wd = b.width
	}
	x, y := in.X+b.off[0], in.Y+b.off[1]
	switch valign {
	case "middle":
		y += math.Max(0, in.H-h) / 2
	case "bottom":
		y += math.Max(0, in.H-h)
	}
	if x+wd > d.PageW-20+tol {
		return false
	}
	if !lab.Near(fr.W, wd, tol*2) || !lab.Near(fr.H, h, tol*6) {
		fail("box-size", "the box %q is %.4g x %.4g instead of %.4g x %.4g", w, fr.W, fr.H, wd, h)
		return true
	}
	if !lab.Near(fr.X, x, tol*2) || !lab.Near(fr.Y, y, tol*6) {
		fail("box-place", "the box %q is at (%.4g,%.4g) instead of (%.4g,%.4g): %s, inside of the cell from (%.4g,%.4g), %.4g x %.4g", w, fr.X, fr.Y, x, y, valign, in.X, in.Y, in.W, in.H)
		return true
	}
	if len(lines) == 0 {
		return true
	}
	if !lab.Near(lines[0].Y, y+b.pad[1], tol*6) {
		fail("box-text", "the text of box %q begins at y=%.4g instead of %.4g", w, lines[0].Y, y+b.pad[1])
		return true
	}
	bl := m.CharWidth(f, ' ')
	l, r := x+b.pad[0], x+wd-b.pad[2]
	for _, ln := range lines {
		if ln.Right()-ln.Left() > r-l-2*bl {
			continue
		}
		if ln.Left() < l-bl-tol || ln.Right() > r+tol {
			fail("box-text", "line %q of box %q reaches from %.4g to %.4g, the inside of the box from %.4g to %.4g", ln, w, ln.Left(), ln.Right(), l, r)
			return true
		}
		ok := true
		switch b.align {
		case "left", "block":
			ok = lab.Near(ln.Left(), l, tol*4)
		case "right":
			ok = ln.Right() > r-bl-tol*4
		case "center":
			ok = math.Abs((ln.Left()-l)-(r-ln.Right())) <= bl+tol*6
		}
		if !ok {
			fail("box-text", "line %q of box %q reaches from %.4g to %.4g, the inside of the box from %.4g to %.4g: not %s-aligned", ln, w, ln.Left(), ln.Right(), l, r, b.align)
			return true
		}
	}
	return true
}

func cellBoxSpaces(tier string) []core.Space {
	vals := []string{"top", "middle", "bottom"}
	pads := [][4]float64{{0, 0, 0, 0}, {1, 2.5, 3, 4}}
	heights := []float64{24.5, 46}
	shapes := []string{
		`<tr><td style="@S">@C</td></tr>`,
		`<tr><td style="@S">@C</td><td>t</td></tr>`,
		`<tr><td>t</td><td style="@S">@C</td></tr><tr><td>t</td><td>t</td></tr>`,
		`<tr><td style="@S" rowspan="2">@C</td><td>t</td></tr><tr><td style="height:12">t</td></tr>`,
		`<tr><td>t</td><td>t</td></tr><tr><td style="@S" colspan="2">@C</td></tr>`,
	}
	index := []int{0, 0, 1, 0, 2} // the cell with the box among all cells
	cells := []int{1, 2, 4, 3, 3}
	bh := []float64{0, 5, 11}
	offs := [][2]float64{{0, 0}, {3, 1.5}}
	widths := []float64{-1, 24, 200}
	aligns := []string{"left", "right", "center", "block"}
	sizes := []float64{0, 17}
	seconds := 3
	type cs struct {
		x      string
		b, c   cellBox
		va     string
		pad    [4]float64
		shape  int
		second int
	}
	mk := func(name string, real bool) core.Space {
		rad := []int{len(vals), len(pads), len(heights), len(shapes), len(bh), 4, len(pads), len(offs), len(widths), len(aligns), len(sizes), seconds, 2}
		if real {
			rad[2], rad[7], rad[8], rad[9], rad[12] = 1, 1, 2, 2, 1
		} else if tier != "thorough" {
			rad[10] = 1
		}
		get := func(i int64) cs {
			g := core.Digits(i, rad...)
			q := cs{va: vals[g[0]], pad: pads[g[1]], shape: g[3], second: g[11]}
			q.b = cellBox{height: bh[g[4]], content: g[5], pad: pads[g[6]], off: offs[g[7]], width: widths[g[8]], align: aligns[g[9]], size: sizes[g[10]], real: real}
			q.c = cellBox{height: 7, content: 1, align: "left", width: 13, size: 10, real: real}
			if q.second == 2 {
				q.c = cellBox{content: 2, pad: [4]float64{1, 1, 1, 1}, off: [2]float64{2, 0}, width: -1, align: "right", real: real}
			}
			t := ""
			if g[12] == 1 {
				t = "w w"
			}
			t += q.b.xml("B", "#aa0000")
			if q.second > 0 {
				t += q.c.xml("C", "#00aa00")
			}
			st := fmt.Sprintf("v-align:%s;padding:%g,%g,%g,%g;height:%g", q.va, q.pad[0], q.pad[1], q.pad[2], q.pad[3], heights[g[2]])
			d := lab.A5(20, 10, 20, 10)
			d.Body = `<table style="line-width:0;width:90">` + strings.Replace(strings.Replace(shapes[q.shape], "@S", st, 1), "@C", t, 1) + "</table>" + endBox
			q.x = d.XML()
			return q
		}
		return core.Space{Name: name, N: core.Prod(rad...),
			Run: func(i int64, r *core.Rec) {
				q := get(i)
				d, m, tol := render(r, q.x, real)
				fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), q.x, d.Dump()) }
				var cs []dl.Item
				for _, it := range d.Items {
					if it.Kind == dl.Rect && it.Color != boxRed && it.Color != boxGreen {
						cs = append(cs, it)
					}
				}
				if len(cs) != cells[q.shape]+1 || d.Pages != 1 {
					fail("cells", "%d cells are painted instead of %d, on %d pages", len(cs)-1, cells[q.shape], d.Pages)
					return
				}
				in := cs[index[q.shape]]
				in.X += q.pad[0]
				in.Y += q.pad[1]
				in.W -= q.pad[0] + q.pad[2]
				in.H -= q.pad[1] + q.pad[3]
				ok := q.b.judge(d, m, tol, "B", boxRed, in, q.va, fail)
				if q.second > 0 {
					ok = q.c.judge(d, m, tol, "C", boxGreen, in, q.va, fail) || ok
				}
				if !ok {
					r.Skip()
				}
			},
			Desc: func(i int64) string { return get(i).x },
		}
	}
	return []core.Space{mk("boxes-in-cells", false), mk("boxes-in-cells-real", true)}
}

// rowBoxSpace: rows with boxes as high as the row or lower, down to the end of the page and beyond: row and
// boxes stay together, whether or not the row fits exactly.
func rowBoxSpace(tier string) core.Space {
	type cs struct {
		x    string
		rows int
		h    float64
	}
	hs := []float64{14, 12.5, 20, 16}
	bhs := []float64{0, 1, 0.5} // part of the row's height; 0: as high as its text
	vals := []string{"top", "middle", "bottom"}
	starts := 20
	if tier == "thorough" {
		starts = 80
	}
	rad := []int{len(hs), len(bhs), len(vals), 3, starts, 2, 9}
	get := func(i int64) cs {
		g := core.Digits(i, rad...)
		q := cs{h: hs[g[0]], rows: g[6] + 2}
		b := ""
		if bhs[g[1]] > 0 {
			b = fmt.Sprintf(";height:%g", q.h*bhs[g[1]])
		}
		d := lab.A5(20, 10, 20, 120) // 80 mm
		var s strings.Builder
		fmt.Fprintf(&s, `<sety y="%g"/><table style="line-width:0;v-align:%s" repeatheader="%d">`, 10+float64(g[4])*80/float64(starts), vals[g[2]], g[5])
		for k := 0; k < q.rows; k++ {
			t := fmt.Sprintf(`<box style="background-color:#aa0000%s">B%d</box>`, b, k)
			c := [3]string{"a", "b", "c"}
			c[g[3]] = t
			fmt.Fprintf(&s, `<tr><td style="height:%g">%s</td><td>%s</td><td>%s</td></tr>`, q.h, c[0], c[1], c[2])
		}
		d.Body = s.String() + "</table>"
		q.x = d.XML()
		return q
	}
	return core.Space{Name: "rows-with-boxes", N: core.Prod(rad...),
		Run: func(i int64, r *core.Rec) {
			q := get(i)
			d, m, tol := render(r, q.x, false)
			fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), q.x, d.Dump()) }
			var rowCells []dl.Item
			boxes := 0
			// rows come as three cells and, within one of them, a box
			flush := func() bool {
				if len(rowCells) == 0 {
					return true
				}
				for _, c := range rowCells[1:] {
					if c.Page != rowCells[0].Page || !lab.Near(c.Y, rowCells[0].Y, tol) {
						fail("row-torn", "cells of a row are painted on page %d at y=%.4g and page %d at y=%.4g", rowCells[0].Page, rowCells[0].Y, c.Page, c.Y)
						return false
					}
				}
				if boxes != 1 {
					fail("box-count", "%d boxes are painted in a row", boxes)
					return false
				}
				rowCells, boxes = nil, 0
				return true
			}
			ended := 0
			for _, it := range d.Items {
				if it.Kind != dl.Rect {
					continue
				}
				if it.Color == boxRed {
					boxes++
					c := rowCells[len(rowCells)-1]
					if it.Page != c.Page || it.Y < c.Y-tol || it.Y+it.H > c.Y+c.H+tol {
						fail("row-torn", "a box is painted on page %d from y=%.4g to %.4g, its cell on page %d from %.4g to %.4g", it.Page, it.Y, it.Y+it.H, c.Page, c.Y, c.Y+c.H)
						return
					}
					continue
				}
				if len(rowCells) == 3 {
					if !flush() {
						return
					}
				}
				if len(rowCells) == 0 {
					ended++
				}
				rowCells = append(rowCells, it)
				if it.Y+it.H > 90+tol {
					fail("row-in-margin", "a cell reaches down to %.4g, the page ends at 90", it.Y+it.H)
					return
				}
			}
			if len(rowCells) != 3 || !flush() {
				fail("cells", "the last row has %d cells", len(rowCells))
				return
			}
			if ended < q.rows {
				fail("rows", "%d rows are drawn instead of %d", ended, q.rows)
				return
			}
			k := 0
			for _, w := range d.Words(m) {
				if w.S == fmt.Sprintf("B%d", k) {
					k++
				} else if strings.HasPrefix(w.S, "B") && w.S != "B0" {
					fail("rows", "the text %s is drawn where B%d is due", w.S, k)
					return
				}
			}
			if k != q.rows {
				fail("rows", "the text of %d rows is drawn instead of %d", k, q.rows)
			}
		},
		Desc: func(i int64) string { return get(i).x },
	}
}
