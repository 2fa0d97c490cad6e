package checks

import (
	"fmt"
	"math"
	"strings"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/veng"
)

// tile is a cell of a tiling.
type tile struct{ r, c, rs, cs int }

// tilings enumerates all tilings of a rows x cols grid by rectangles, cells in document order.
func tilings(rows, cols int) [][]tile {
	var out [][]tile
	grid := make([][]bool, rows)
	for i := range grid {
		grid[i] = make([]bool, cols)
	}
	var cur []tile
	var rec func()
	rec = func() {
		for r := 0; r < rows; r++ {
			for c := 0; c < cols; c++ {
				if grid[r][c] {
					continue
				}
				for cs := 1; c+cs <= cols && !grid[r][c+cs-1]; cs++ {
					for rs := 1; r+rs <= rows; rs++ {
						for a := r; a < r+rs; a++ {
							for b := c; b < c+cs; b++ {
								grid[a][b] = true
							}
						}
						cur = append(cur, tile{r, c, rs, cs})
						rec()
						cur = cur[:len(cur)-1]
						for a := r; a < r+rs; a++ {
							for b := c; b < c+cs; b++ {
								grid[a][b] = false
							}
						}
					}
				}
				return
			}
		}
		out = append(out, append([]tile{}, cur...))
	}
	rec()
	return out
}

// rowsXML writes the cells of a tiling; attr and content give what is in cell k.
func rowsXML(ts []tile, rows int, attr, content func(k int) string, always bool) string {
	var b strings.Builder
	k := 0
	for r := 0; r < rows; r++ {
		b.WriteString("<tr>")
		for k < len(ts) && ts[k].r == r {
			b.WriteString("<td")
			if ts[k].cs > 1 || always {
				fmt.Fprintf(&b, ` colspan="%d"`, ts[k].cs)
			}
			if ts[k].rs > 1 || always {
				fmt.Fprintf(&b, ` rowspan="%d"`, ts[k].rs)
			}
			if a := attr(k); a != "" {
				fmt.Fprintf(&b, ` style="%s"`, a)
			}
			b.WriteString(">" + content(k) + "</td>")
			k++
		}
		b.WriteString("</tr>")
	}
	return b.String()
}

type drawnCell struct {
	rect  dl.Item
	words []dl.Item
}

// cellsOf groups the draw list into filled rectangles and the words behind them.
func cellsOf(d *dl.Doc, m dl.Metrics) []drawnCell {
	var out []drawnCell
	for _, it := range d.Items {
		switch it.Kind {
		case dl.Rect:
			out = append(out, drawnCell{rect: it})
		case dl.Text:
			if n := len(out); n > 0 {
				one := dl.Doc{Items: []dl.Item{it}}
				out[n-1].words = append(out[n-1].words, one.Words(m)...)
			}
		}
	}
	return out
}

func (c drawnCell) text() string {
	var s []string
	for _, w := range c.words {
		s = append(s, w.S)
	}
	return strings.Join(s, " ")
}

func render(r *core.Rec, x string, real bool) (*dl.Doc, dl.Metrics, float64) {
	r.Impl(1)
	if real {
		d := lab.Real(x, getBlockHyph())
		r.Trans(len(d.Items))
		r.Obs(d.Hash())
		return d, veng.Courier{}, 0.03
	}
	d, ops := lab.Virt(x, veng.Dyadic{}, getBlockHyph())
	r.Trans(ops)
	r.Obs(d.Hash())
	return d, veng.Dyadic{}, 1e-6
}

// ---- C13

func judgeTiling(r *core.Rec, x string, d *dl.Doc, m dl.Metrics, tol float64, ts []tile, rows, cols int, left, width float64) {
	fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), x, d.Dump()) }
	cs := cellsOf(d, m)
	byName := map[string]drawnCell{}
	for _, c := range cs {
		n := c.text()
		if _, dup := byName[n]; dup {
			fail("cell-twice", "cell %q is drawn twice", n)
			return
		}
		byName[n] = c
	}
	xe, ye := make([]float64, cols+1), make([]float64, rows+1)
	for k := range xe {
		xe[k] = math.NaN()
	}
	for k := range ye {
		ye[k] = math.NaN()
	}
	set := func(e []float64, k int, v float64, what, name string) bool {
		if math.IsNaN(e[k]) {
			e[k] = v
			return true
		}
		if !lab.Near(e[k], v, tol*3) {
			fail("edges", "%s %d of cell %s is at %.4g, of other cells at %.4g", what, k, name, v, e[k])
			return false
		}
		return true
	}
	for k, t := range ts {
		n := fmt.Sprintf("c%d", k)
		c, ok := byName[n]
		if !ok {
			fail("cell-lost", "cell %s (row %d, column %d, %d rows, %d columns) is not drawn", n, t.r, t.c, t.rs, t.cs)
			return
		}
		q := c.rect
		if !set(xe, t.c, q.X, "left edge", n) || !set(xe, t.c+t.cs, q.X+q.W, "right edge", n) || !set(ye, t.r, q.Y, "top edge", n) || !set(ye, t.r+t.rs, q.Y+q.H, "bottom edge", n) {
			return
		}
		for _, w := range c.words {
			if w.X < q.X-tol || w.Y < q.Y-tol {
				fail("text-outside", "the text of cell %s is at (%.4g,%.4g), the cell at (%.4g,%.4g)", n, w.X, w.Y, q.X, q.Y)
				return
			}
		}
	}
	if len(cs) != len(ts)+1 { // the follower
		fail("cells", "%d cells are painted instead of %d", len(cs)-1, len(ts))
		return
	}
	for _, e := range [][]float64{xe, ye} {
		last := math.Inf(-1)
		for k, v := range e {
			if math.IsNaN(v) {
				continue
			}
			if v <= last+tol {
				fail("edges-order", "edge %d is at %.4g, an edge before at %.4g", k, v, last)
				return
			}
			last = v
		}
	}
	if !lab.Near(xe[0], left, tol) || !lab.Near(xe[cols], left+width, tol*4) {
		fail("table-width", "the cells reach from %.4g to %.4g instead of %.4g to %.4g", xe[0], xe[cols], left, left+width)
		return
	}
	if f := byName["end"].rect; !lab.Near(f.Y, ye[rows], tol*4) {
		fail("follower", "what follows is at y=%.4g, the table ends at y=%.4g", f.Y, ye[rows])
	}
}

const endBox = `<box style="line-width:0">end</box>`

func tilingSpaces(tier string) []core.Space {
	type shape struct {
		ts         []tile
		rows, cols int
	}
	var shapes []shape
	maxR, maxC := 4, 4
	if tier == "thorough" {
		maxR, maxC = 5, 4
	}
	for r := 1; r <= maxR; r++ {
		for c := 1; c <= maxC; c++ {
			for _, t := range tilings(r, c) {
				shapes = append(shapes, shape{t, r, c})
			}
		}
	}
	if tier == "thorough" {
		for _, rc := range [][2]int{{3, 5}, {2, 6}, {2, 5}, {6, 2}, {1, 8}, {8, 1}, {7, 2}} {
			for _, t := range tilings(rc[0], rc[1]) {
				shapes = append(shapes, shape{t, rc[0], rc[1]})
			}
		}
	}
	variants := 4
	get := func(i int64, real bool) (string, shape, float64) {
		g := core.Digits(i, variants)
		s := shapes[i/int64(variants)]
		d := narrowPage
		w := printW(d)
		if real {
			w = 420.94/veng.K - pgL - pgR - 2
		}
		tab := `<table style="line-width:0">`
		attr := func(k int) string { return "" }
		content := func(k int) string { return fmt.Sprintf("c%d", k) }
		switch g[0] {
		case 1:
			w = 50
			tab = `<table style="line-width:0;width:50;border:1,1,1,1">`
			attr = func(k int) string {
				if s.ts[k].cs == 1 && s.ts[k].c == 1 && s.cols > 1 {
					return "column-width:14"
				}
				return ""
			}
		case 2:
			tab = `<table style="line-width:0;padding:0.5,1,0.5,1" repeatheader="1">`
			attr = func(k int) string {
				return []string{"", "height:11;v-align:middle", "h-align:right", "v-align:bottom"}[(k*3+s.ts[k].c)%4]
			}
		case 3:
			tab = `<table style="line-width:0;line-spacing:1">`
			content = func(k int) string {
				return strings.Repeat("<br/>", k%3) + fmt.Sprintf("c%d", k) + strings.Repeat("<br/>", k%2)
			}
		}
		f := ""
		if real {
			f = `<font style="font-family:courier;font-point-size:9"/>`
		}
		d.Body = f + tab + rowsXML(s.ts, s.rows, attr, content, g[0] == 2) + "</table>" + endBox
		return d.XML(), s, w
	}
	mk := func(name string, real bool, n int) core.Space {
		return core.Space{Name: name, N: int64(n) * int64(variants),
			Run: func(i int64, r *core.Rec) {
				x, s, w := get(i, real)
				d, m, tol := render(r, x, real)
				judgeTiling(r, x, d, m, tol, s.ts, s.rows, s.cols, pgL, w)
			},
			Desc: func(i int64) string { x, _, _ := get(i, real); return x },
		}
	}
	nreal := 0
	for _, s := range shapes {
		if s.rows > 3 {
			break
		}
		nreal++
	}
	out := []core.Space{mk("tilings", false, len(shapes)), mk("tilings-real", true, nreal), oneSpanSpace(tier)}
	// anything else: every cell once, no failure
	type cellSpan struct{ cs, rs int }
	odd := func(name string, spans []cellSpan, rows, perRow int) core.Space {
		per := core.Seqs(len(spans), 0, perRow)
		n := int64(1)
		for k := 0; k < rows; k++ {
			n *= per
		}
		get := func(i int64) (string, []string) {
			d := narrowPage
			d.B = 5
			var b strings.Builder
			var names []string
			for r := 0; r < rows; r++ {
				b.WriteString("<tr>")
				for c, k := range core.Seq(i%per, len(spans), 0, perRow) {
					n := fmt.Sprintf("r%dc%d", r, c)
					names = append(names, n)
					fmt.Fprintf(&b, `<td colspan="%d" rowspan="%d">%s</td>`, spans[k].cs, spans[k].rs, n)
				}
				b.WriteString("</tr>")
				i /= per
			}
			d.Body = `<table style="line-width:0;font-point-size:4">` + b.String() + "</table>" + endBox
			return d.XML(), names
		}
		return core.Space{Name: name, N: n,
			Run: func(i int64, r *core.Rec) {
				x, names := get(i)
				d, m, _ := render(r, x, false)
				seen := map[string]int{}
				rects := 0
				for _, c := range cellsOf(d, m) {
					rects++
					for _, w := range c.words {
						seen[w.S]++
					}
				}
				for _, n := range append(names, "end") {
					if seen[n] != 1 {
						r.Fail("cell-not-once", "cell %s is drawn %d times\n%s\n%s", n, seen[n], x, d.Dump())
						return
					}
				}
				if rects != len(names)+1 {
					r.Fail("cell-not-once", "%d cells are painted instead of %d\n%s\n%s", rects-1, len(names), x, d.Dump())
				}
			},
			Desc: func(i int64) string { x, _ := get(i); return x },
		}
	}
	nine := []cellSpan{}
	for cs := 1; cs <= 3; cs++ {
		for rs := 1; rs <= 3; rs++ {
			nine = append(nine, cellSpan{cs, rs})
		}
	}
	four := []cellSpan{{1, 1}, {2, 1}, {1, 2}, {2, 2}}
	big := []cellSpan{{1, 1}, {0, 0}, {7, 1}, {1, 6}, {5, 5}, {-1, -3}, {2, 1}}
	out = append(out, odd("any-spans-3x2", nine, 3, 2), odd("any-spans-2x3", nine, 2, 3), odd("any-spans-4x2", four, 4, 2), odd("big-spans", big, 3, 2))
	if tier == "thorough" {
		out = append(out, odd("any-spans-3x3", four, 3, 3), odd("any-spans-5x2", four, 5, 2), odd("any-spans-3x2-five", append(nine, cellSpan{4, 1}, cellSpan{1, 4}, cellSpan{4, 4}), 3, 2))
	}
	return out
}

// oneSpanSpace: larger tables with one spanning cell of every size in every place.
func oneSpanSpace(tier string) core.Space {
	type one struct {
		rows, cols int
		t          tile
	}
	var all []one
	dims := [][2]int{{6, 9}, {9, 5}, {12, 2}, {2, 12}, {4, 20}, {24, 2}}
	if tier == "thorough" {
		dims = append(dims, [][2]int{{9, 9}, {5, 12}, {14, 4}, {2, 20}, {3, 16}, {5, 30}}...)
	}
	for _, rc := range dims {
		for r := 0; r < rc[0]; r++ {
			for c := 0; c < rc[1]; c++ {
				for rs := 1; r+rs <= rc[0]; rs++ {
					for cs := 1; c+cs <= rc[1]; cs++ {
						if rs*cs > 1 {
							all = append(all, one{rc[0], rc[1], tile{r, c, rs, cs}})
						}
					}
				}
			}
		}
	}
	get := func(i int64) (string, one, []tile) {
		o := all[i/2]
		var ts []tile
		for r := 0; r < o.rows; r++ {
			for c := 0; c < o.cols; c++ {
				switch {
				case r == o.t.r && c == o.t.c:
					ts = append(ts, o.t)
				case r >= o.t.r && r < o.t.r+o.t.rs && c >= o.t.c && c < o.t.c+o.t.cs:
				default:
					ts = append(ts, tile{r, c, 1, 1})
				}
			}
		}
		d := lab.D{Format: "a4", Orient: "portrait", L: pgL, T: 10, R: 20, B: 10}
		st := `<table style="line-width:0;font-point-size:4">`
		if i%2 == 1 {
			st = `<table style="line-width:0;font-point-size:4;padding:0.5,0.25,0.25,0.5" repeatheader="1">`
		}
		d.Body = st + rowsXML(ts, o.rows, func(k int) string {
			if i%2 == 1 && ts[k].r == o.t.r+o.t.rs-1 && ts[k].rs == 1 {
				return "height:9.5"
			}
			return ""
		}, func(k int) string { return fmt.Sprintf("c%d", k) }, false) + "</table>" + endBox
		return d.XML(), o, ts
	}
	return core.Space{Name: "one-span", N: 2 * int64(len(all)),
		Run: func(i int64, r *core.Rec) {
			x, o, ts := get(i)
			d, m, tol := render(r, x, false)
			judgeTiling(r, x, d, m, tol, ts, o.rows, o.cols, pgL, printW(lab.D{Format: "a4", L: pgL, R: 20}))
		},
		Desc: func(i int64) string { x, _, _ := get(i); return x },
	}
}

// ---- C16

func columnSpaces(tier string) []core.Space {
	type shape struct {
		ts         []tile
		rows, cols int
		n          int64
	}
	opts := []float64{0, 7.5, 16, 25}
	if tier != "thorough" {
		opts = opts[:3]
	}
	var out []core.Space
	type family struct {
		name  string
		rc    [][2]int
		opts  []float64
		wides []float64
		limit int // at most so many cells
	}
	fams := []family{
		{"tilings-widths", [][2]int{{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}}, opts, []float64{-1, 12, 40, 100}, 8},
		{"one-row", [][2]int{{1, 4}, {1, 5}, {1, 6}}, []float64{0, 3.25, 9}, []float64{-1, 33, 60, 66, 200}, 99},
		{"two-rows", [][2]int{{2, 4}}, []float64{0, 4, 10.5}, []float64{-1, 45}, 7},
	}
	for _, f := range fams {
		f := f
		var shapes []shape
		var total int64
		for _, rc := range f.rc {
			for _, t := range tilings(rc[0], rc[1]) {
				if len(t) > f.limit {
					continue
				}
				n := int64(1)
				for range t {
					n *= int64(len(f.opts))
				}
				shapes = append(shapes, shape{t, rc[0], rc[1], n})
				total += n
			}
		}
		get := func(i int64, real bool) (string, *shape, []float64, float64) {
			wi := int(i % int64(len(f.wides)))
			i /= int64(len(f.wides))
			var s *shape
			for k := range shapes {
				if i < shapes[k].n {
					s = &shapes[k]
					break
				}
				i -= shapes[k].n
			}
			given := make([]float64, s.cols)
			per := make([]float64, len(s.ts))
			for k := range s.ts {
				per[k] = f.opts[i%int64(len(f.opts))]
				i /= int64(len(f.opts))
				if per[k] > given[s.ts[k].c] {
					given[s.ts[k].c] = per[k]
				}
			}
			d := narrowPage
			w := printW(d)
			if real {
				w = 420.94/veng.K - pgL - pgR - 2
			}
			st := "line-width:0"
			if f.wides[wi] >= 0 {
				st += fmt.Sprintf(";width:%g", f.wides[wi])
				w = math.Min(w, f.wides[wi])
			}
			attr := func(k int) string {
				if per[k] == 0 {
					return ""
				}
				return fmt.Sprintf("column-width:%g", per[k])
			}
			content := func(k int) string { return fmt.Sprintf("c%d", k) }
			fe := ""
			if real {
				fe = `<font style="font-family:courier;font-point-size:8"/>`
			}
			d.Body = fe + `<table style="` + st + `">` + rowsXML(s.ts, s.rows, attr, content, false) + "</table>" + endBox
			return d.XML(), s, given, w
		}
		mk := func(real bool) core.Space {
			name := f.name
			if real {
				name += "-real"
			}
			return core.Space{Name: name, N: total * int64(len(f.wides)),
				Run: func(i int64, r *core.Rec) {
					x, s, given, w := get(i, real)
					judgeColumns(r, x, s.ts, given, w, real)
				},
				Desc: func(i int64) string { x, _, _, _ := get(i, real); return x },
			}
		}
		out = append(out, mk(false))
		if f.name == "one-row" {
			out = append(out, mk(true))
		}
	}
	return append(out, manyColumns(tier), manyRows(tier))
}

// manyColumns: one row of up to 40 cells, two of them (or all but two, or all but one) with a given width; a row
// below of one cell per column, of one cell across all, or of two cells that meet at the first of the two columns
func manyColumns(tier string) core.Space {
	most := 24
	if tier == "thorough" {
		most = 40
	}
	type cs struct{ n, p, q, mode, below int }
	var all []cs
	for n := 1; n <= most; n++ {
		for p := 0; p < n; p++ {
			for q := p; q < n; q++ {
				for mode := 0; mode < 3; mode++ {
					for below := 0; below < 4; below++ {
						if below == 3 && p == 0 {
							continue
						}
						all = append(all, cs{n, p, q, mode, below})
					}
				}
			}
		}
	}
	get := func(i int64) (string, []tile, []float64, float64) {
		c := all[i]
		given := make([]float64, c.n)
		for k := range given {
			switch {
			case c.mode == 0 && (k == c.p || k == c.q):
				given[k] = 3.5 + float64(k%3)
			case c.mode == 1 && k != c.p && k != c.q:
				given[k] = 3.5 + float64(k%3)
			case c.mode == 2:
				given[k] = 4 + float64((k+c.p+c.q)%4)*0.5
			}
		}
		var ts []tile
		for k := 0; k < c.n; k++ {
			ts = append(ts, tile{0, k, 1, 1})
		}
		rows := 2
		switch c.below {
		case 0:
			rows = 1
		case 1:
			for k := 0; k < c.n; k++ {
				ts = append(ts, tile{1, k, 1, 1})
			}
		case 2:
			ts = append(ts, tile{1, 0, 1, c.n})
		case 3:
			ts = append(ts, tile{1, 0, 1, c.p}, tile{1, c.p, 1, c.n - c.p})
		}
		d := narrowPage
		d.Format = "a3"
		attr := func(k int) string {
			if k >= c.n || given[k] == 0 {
				return ""
			}
			return fmt.Sprintf("column-width:%g", given[k])
		}
		content := func(k int) string { return fmt.Sprintf("c%d", k) }
		d.Body = `<font style="font-point-size:1"/><table style="line-width:0;width:200">` + rowsXML(ts, rows, attr, content, false) + "</table>" + endBox
		return d.XML(), ts, given, 200
	}
	return core.Space{Name: "many-columns", N: int64(len(all)),
		Run: func(i int64, r *core.Rec) {
			x, ts, given, w := get(i)
			judgeColumns(r, x, ts, given, w, false)
		},
		Desc: func(i int64) string { x, _, _, _ := get(i); return x }}
}

// manyRows: the widths of columns are given in any two of many rows
func manyRows(tier string) core.Space {
	ns := []int{6, 13, 33, 52, 70}
	if tier == "thorough" {
		ns = append(ns, 100, 129, 150)
	}
	type cs struct{ n, r, r2, c, mode int }
	var all []cs
	for _, n := range ns {
		for r := 0; r < n; r++ {
			for _, r2 := range []int{0, n / 2, n - 1} {
				for c := 0; c < 3; c++ {
					for mode := 0; mode < 3; mode++ {
						all = append(all, cs{n, r, r2, c, mode})
					}
				}
			}
		}
	}
	get := func(i int64) (string, []tile, []float64) {
		c := all[i]
		given := make([]float64, 3)
		var ts []tile
		attrs := map[int]float64{}
		for r := 0; r < c.n; r++ {
			for k := 0; k < 3; k++ {
				w := 0.0
				switch {
				case r == c.r && k == c.c:
					w = 31.5
				case r == c.r2 && k == c.c && c.mode == 1:
					w = 22.25
				case r == c.r2 && k == (c.c+1)%3 && c.mode == 2:
					w = 12.25
				}
				if w > 0 {
					attrs[len(ts)] = w
				}
				if w > given[k] {
					given[k] = w
				}
				ts = append(ts, tile{r, k, 1, 1})
			}
		}
		d := narrowPage
		d.Format = "a3"
		d.Body = `<font style="font-point-size:1"/><table style="line-width:0;width:120">` + rowsXML(ts, c.n, func(k int) string {
			if w := attrs[k]; w > 0 {
				return fmt.Sprintf("column-width:%g", w)
			}
			return ""
		}, func(k int) string { return fmt.Sprintf("c%d", k) }, false) + "</table>" + endBox
		return d.XML(), ts, given
	}
	return core.Space{Name: "many-rows", N: int64(len(all)),
		Run: func(i int64, r *core.Rec) {
			x, ts, given := get(i)
			judgeColumns(r, x, ts, given, 120, false)
		},
		Desc: func(i int64) string { x, _, _ := get(i); return x }}
}

// judgeColumns compares the edges of all cells with the widths due: a column is as wide as asked for, the others share
// what the table leaves
func judgeColumns(r *core.Rec, x string, ts []tile, given []float64, w float64, real bool) {
	sum, autos := 0.0, 0
	for _, g := range given {
		sum += g
		if g == 0 {
			autos++
		}
	}
	full := autos > 0 && sum >= w-0.5 // no room for the columns without a width
	if full && real {
		r.Skip()
		return
	}
	xs := []float64{pgL}
	for k := range given {
		g := given[k]
		if g == 0 {
			g = (w - sum) / float64(autos)
		}
		xs = append(xs, xs[k]+g)
	}
	d, m, tol := render(r, x, real)
	seen := map[int]bool{}
	for _, c := range cellsOf(d, m) {
		n := c.text()
		k := -1
		fmt.Sscanf(n, "c%d", &k)
		if k < 0 || k >= len(ts) {
			continue
		}
		seen[k] = true
		t := ts[k]
		if full {
			if g := given[t.c]; t.cs == 1 && g > 0 && !lab.Near(c.rect.W, g, tol*3) {
				r.Fail("column-width", "cell %s is %.5g wide instead of %.5g (widths asked for: %v of %.4g)\n%s\n%s", n, c.rect.W, g, given, w, x, d.Dump())
				return
			}
			continue
		}
		if !lab.Near(c.rect.X, xs[t.c], tol*3) || !lab.Near(c.rect.X+c.rect.W, xs[t.c+t.cs], tol*3) {
			r.Fail("column-width", "cell %s reaches from %.5g to %.5g instead of %.5g to %.5g (widths asked for: %v of %.4g)\n%s\n%s", n, c.rect.X, c.rect.X+c.rect.W, xs[t.c], xs[t.c+t.cs], given, w, x, d.Dump())
			return
		}
	}
	if !full && len(seen) != len(ts) {
		r.Fail("cells", "%d cells with their text instead of %d\n%s\n%s", len(seen), len(ts), x, d.Dump())
	}
}

// ---- C15

func cellTextSpaces(tier string) []core.Space {
	type opt struct {
		syms   []sym
		height float64
		pad    [4]float64
		size   float64
	}
	type shape struct {
		ts         []tile
		rows, cols int
	}
	shapes := []shape{
		{[]tile{{0, 0, 1, 1}}, 1, 1},
		{[]tile{{0, 0, 1, 1}, {0, 1, 1, 1}}, 1, 2},
		{[]tile{{0, 0, 1, 1}, {1, 0, 1, 1}}, 2, 1},
		{[]tile{{0, 0, 2, 1}, {0, 1, 1, 1}, {1, 1, 1, 1}}, 2, 2},
		{[]tile{{0, 0, 1, 2}, {1, 0, 1, 1}, {1, 1, 1, 1}}, 2, 2},
		{[]tile{{0, 0, 1, 1}, {0, 1, 3, 1}, {1, 0, 2, 1}}, 3, 2},
	}
	small := shapes
	tall := []shape{
		{[]tile{{0, 0, 4, 1}, {0, 1, 1, 1}, {1, 1, 1, 1}, {2, 1, 1, 1}, {3, 1, 1, 1}}, 4, 2},
		{[]tile{{0, 0, 1, 1}, {0, 1, 4, 1}, {1, 0, 1, 1}, {2, 0, 2, 1}}, 4, 2},
		{[]tile{{0, 0, 1, 1}, {0, 1, 5, 2}, {1, 0, 2, 1}, {3, 0, 2, 1}}, 5, 3},
		{[]tile{{0, 0, 1, 2}, {1, 0, 5, 1}, {1, 1, 1, 1}, {2, 1, 3, 1}, {5, 1, 1, 1}}, 6, 2},
	}
	wide := []shape{
		{[]tile{{0, 0, 1, 3}, {1, 0, 1, 1}, {1, 1, 1, 2}}, 2, 3},
		{[]tile{{0, 0, 1, 1}, {0, 1, 1, 2}, {1, 0, 1, 2}, {1, 2, 1, 1}}, 2, 3},
		{[]tile{{0, 0, 1, 4}, {1, 0, 1, 2}, {1, 2, 1, 2}}, 2, 4},
	}
	var out []core.Space
	sy := blockSyms
	mk := func(name string, opts []opt, hal, val []string, maxCells int, real bool) {
		shapes := shapes
		page := narrowPage
		if len(shapes[0].ts) > 3 {
			page.Format, page.R = "a3", 297-148+narrowPage.R // as wide, but higher
		}
		var sizes []int64
		var total int64
		for _, s := range shapes {
			n := int64(0)
			if len(s.ts) <= maxCells {
				n = int64(len(hal) * len(val) * len(val))
				for range s.ts {
					n *= int64(len(opts))
				}
			}
			sizes = append(sizes, n)
			total += n
		}
		type cs struct {
			x    string
			ts   []tile
			os   []opt
			va   []string
			rows int
		}
		get := func(i int64) cs {
			si := 0
			for i >= sizes[si] {
				i -= sizes[si]
				si++
			}
			s := shapes[si]
			g := core.Digits(i, len(hal), len(val), len(val))
			i /= core.Prod(len(hal), len(val), len(val))
			c := cs{ts: s.ts, rows: s.rows}
			for range s.ts {
				c.os = append(c.os, opts[i%int64(len(opts))])
				i /= int64(len(opts))
			}
			for k := range s.ts {
				c.va = append(c.va, val[g[1+k%2]])
			}
			attr := func(k int) string {
				o := c.os[k]
				a := fmt.Sprintf("v-align:%s;padding:%g,%g,%g,%g", c.va[k], o.pad[0], o.pad[1], o.pad[2], o.pad[3])
				if o.height > 0 {
					a += fmt.Sprintf(";height:%g", o.height)
				}
				if o.size > 0 {
					a += fmt.Sprintf(";font-point-size:%g", o.size)
				}
				return a
			}
			d := page
			f := ""
			if real {
				f = `<font style="font-family:courier;font-point-size:8"/>`
			}
			d.Body = f + fmt.Sprintf(`<table style="line-width:0;h-align:%s">`, hal[g[0]]) + rowsXML(s.ts, s.rows, attr, func(k int) string { return symXML(c.os[k].syms) }, false) + "</table>" + endBox
			c.x = d.XML()
			return c
		}
		out = append(out, core.Space{Name: name, N: total,
			Run: func(i int64, r *core.Rec) {
				c := get(i)
				d, m, tol := render(r, c.x, real)
				fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), c.x, d.Dump()) }
				cells := cellsOf(d, m)
				if len(cells) != len(c.ts)+1 {
					fail("cells", "%d cells are painted instead of %d", len(cells)-1, len(c.ts))
					return
				}
				for k := range c.ts {
					o, q := c.os[k], cells[k].rect
					f := dl.Font{Size: 12}
					if real {
						f.Size = 8
					}
					if o.size > 0 {
						f.Size = o.size
					}
					for _, t := range symToks(o.syms, f) {
						if !t.BR && dl.Width(m, t.F, t.W) > d.PageW-page.R-2-q.X-o.pad[0]-tol {
							r.Skip() // continued by the engine
							return
						}
					}
				}
				for k := range c.ts {
					dc, o := cells[k], c.os[k]
					q := dc.rect
					if o.height > 0 && q.H < o.height-tol {
						fail("row-too-low", "cell %d is %.4g high, asked for are %.4g", k, q.H, o.height)
						return
					}
					lines := dl.Lines(dc.words, tol)
					if len(lines) == 0 {
						continue
					}
					lead, trail := 0, 0
					seen := false
					for _, s := range o.syms {
						if s.br {
							trail++
							if !seen {
								lead++
							}
						} else if !s.blank {
							seen = true
							trail = 0
						}
					}
					first, last := lines[0], lines[len(lines)-1]
					lh := 0.0
					for _, w := range last.Words {
						lh = math.Max(lh, m.Height(w.Font))
					}
					if lead > 0 || trail > 1 {
						continue // judged without empty lines
					}
					top, bottom := q.Y+o.pad[1], q.Y+q.H-o.pad[3]
					t0, t1 := first.Y, last.Y+lh
					if t1-t0 > bottom-top+tol {
						if o.height > 0 { // asked for less than the text needs
							if !lab.Near(t0, top, tol*6) {
								fail("v-align", "the text of cell %d reaches from %.4g to %.4g, higher than the inside of the cell from %.4g to %.4g, but does not begin at its top", k, t0, t1, top, bottom)
								return
							}
							continue
						}
						fail("row-too-low", "the text of cell %d is %.4g high, there is room for %.4g", k, t1-t0, bottom-top)
						return
					}
					if t0 < top-tol*3 || t1 > bottom+tol*3 {
						fail("text-outside", "the text of cell %d reaches from %.4g to %.4g, the inside of the cell from %.4g to %.4g", k, t0, t1, top, bottom)
						return
					}
					for _, l := range lines {
						in := q.W - o.pad[0] - o.pad[2]
						bl := m.CharWidth(l.Words[0].Font, ' ')
						if l.Right()-l.Left() <= in+tol && (l.Left() < q.X+o.pad[0]-bl-tol || l.Right() > q.X+q.W-o.pad[2]+tol) {
							fail("text-outside", "line %q of cell %d reaches from %.4g to %.4g, the inside of the cell from %.4g to %.4g", l, k, l.Left(), l.Right(), q.X+o.pad[0], q.X+q.W-o.pad[2])
							return
						}
					}
					ok := true
					want := ""
					switch c.va[k] {
					case "middle":
						ok = lab.Near(t0-top, bottom-t1, tol*6)
						want = "in the middle"
					case "bottom":
						ok = lab.Near(t1, bottom, tol*6)
						want = "at the bottom"
					default:
						ok = lab.Near(t0, top, tol*6)
						want = "at the top"
					}
					if !ok {
						fail("v-align", "the text of cell %d reaches from %.4g to %.4g, the inside of the cell from %.4g to %.4g: not %s", k, t0, t1, top, bottom, want)
						return
					}
				}
				// without row spans a row is as high as its highest cell needs
				need, exact := make([]float64, c.rows), make([]bool, c.rows)
				for k := range exact {
					exact[k] = true
				}
				for k, t := range c.ts {
					o := c.os[k]
					h := o.pad[1] + o.pad[3]
					ls := dl.Lines(cells[k].words, tol)
					switch {
					case t.rs > 1:
						for q := t.r; q < t.r+t.rs; q++ {
							exact[q] = false
						}
					case o.height > 0:
						h = o.height
					case len(ls) == 0:
						exact[t.r] = exact[t.r] && len(c.ts) > 1 && len(o.syms) == 0
					default:
						if o.syms[0].br || o.syms[0].blank || o.syms[len(o.syms)-1].br || o.syms[len(o.syms)-1].blank {
							exact[t.r] = false
							break
						}
						l := ls[len(ls)-1]
						lh := 0.0
						for _, w := range l.Words {
							lh = math.Max(lh, m.Height(w.Font))
						}
						h += l.Y + lh - ls[0].Y
					}
					need[t.r] = math.Max(need[t.r], h)
				}
				for k, t := range c.ts {
					if exact[t.r] && need[t.r] > 8 && !lab.Near(cells[k].rect.H, need[t.r], tol*6) {
						fail("row-height", "cell %d is %.4g high, the highest cell of row %d needs %.4g", k, cells[k].rect.H, t.r, need[t.r])
						return
					}
				}
				// cells of a row have the same height
				ye := map[int]float64{}
				for k, t := range c.ts {
					for _, e := range []struct {
						k int
						v float64
					}{{t.r, cells[k].rect.Y}, {t.r + t.rs, cells[k].rect.Y + cells[k].rect.H}} {
						if v, ok := ye[e.k]; ok && !lab.Near(v, e.v, tol*3) {
							fail("row-edges", "edge %d of cell %d is at y=%.4g, of another cell at y=%.4g", e.k, k, e.v, v)
							return
						}
						ye[e.k] = e.v
					}
				}
			},
			Desc: func(i int64) string { return get(i).x },
		})
	}
	seqs := func(lo, hi int) [][]sym {
		var l [][]sym
		for i := int64(0); i < core.Seqs(len(sy), lo, hi); i++ {
			var ss []sym
			for _, k := range core.Seq(i, len(sy), lo, hi) {
				ss = append(ss, sy[k])
			}
			l = append(l, ss)
		}
		return l
	}
	hal, val := []string{"left", "right", "center", "block"}, []string{"top", "middle", "bottom"}
	p0, p1 := [4]float64{0, 0, 0, 0}, [4]float64{1, 2.5, 0.5, 4}
	var deep []opt
	hi := 3
	if tier == "thorough" {
		hi = 4
	}
	for _, s := range seqs(0, hi) {
		for _, h := range []float64{0, 28} {
			deep = append(deep, opt{s, h, p1, 0})
		}
	}
	mk("contents", deep, hal, val, 1, false)
	var mid []opt
	for _, s := range seqs(1, 1) {
		mid = append(mid, opt{s, 0, p0, 0}, opt{s, 30, p1, 0}, opt{s, 0, p1, 20})
	}
	mid = append(mid, opt{nil, 0, p1, 0}, opt{nil, 9.5, p0, 0}, opt{[]sym{sy[0], sy[3], sy[1], sy[3], sy[2]}, 0, p1, 0}, opt{[]sym{sy[1], sy[5], sy[4]}, 4, p0, 0})
	mk("neighbours", mid, hal[:], val, 2, false)
	few := []opt{mid[0], mid[1], mid[5], {nil, 0, p1, 0}, mid[len(mid)-2], mid[len(mid)-1], {[]sym{sy[2], sy[1]}, 0, p1, 0}, {[]sym{sy[6]}, 17, p0, 0}}
	mk("spans", few, hal, val, 3, false)
	shapes = tall
	tl := []opt{{[]sym{sy[0]}, 0, p0, 0}, {[]sym{sy[0], sy[3], sy[1], sy[3], sy[2], sy[3], sy[0], sy[3], sy[1], sy[3], sy[0], sy[3], sy[0]}, 0, p1, 0}, {nil, 0, p0, 0}}
	if tier == "thorough" {
		tl = append(tl, opt{[]sym{sy[2], sy[1]}, 0, p1, 16})
	}
	mk("tall-spans", tl, hal, val, 9, false)
	shapes = wide
	mk("wide-spans", few, hal, val[:2], 4, false)
	shapes = small
	few2 := few
	if tier != "thorough" {
		few2 = few[:5]
	}
	mk("spans-real", few2, hal, val, 3, true)
	return append(append(out, tablePageSpace(tier)), cellBoxSpaces(tier)...)
}

// tablePageSpace: tables with page numbers in their cells, continued on a page with a longer number: texts stay in their
// cells, and without repeated headers everything is as with the numbers written out.
func tablePageSpace(tier string) core.Space {
	contents := []string{"ab", "{cp}", "{cp} {cp}", "<p style=\"font-weight:bold\">{cp}{cp}</p> {cp} a", "{cp}<br/>{cp} {cp} {cp}"}
	pages := []int{8, 9}
	n := 3
	if tier == "thorough" {
		n = 4
		pages = []int{8, 9, 10, 98, 99}
	}
	aligns := []string{"left", "right", "block"}
	widths := []float64{11, 14, 17, 20}
	ys := []float64{170, 181, 190, 196}
	// shapes: one column; a second one, with one cell spanning all rows, or the first two
	rad := []int{len(pages), len(aligns), len(widths), len(ys), 3, 3}
	get := func(i int64) (x func(num func(cell int) string) string, g []int, cells int) {
		g = core.Digits(i, rad...)
		rows := core.Seq(i/core.Prod(rad...), len(contents), 1, n)
		d := narrowPage
		type cell struct {
			row, span int
			s         string
		}
		var cs []cell
		for k, c := range rows {
			cs = append(cs, cell{k, 1, contents[c]})
			if g[4] == 1 && k == 0 {
				cs = append(cs, cell{k, len(rows), "{cp} {cp}<br/>{cp}"})
			}
			if g[4] == 2 && (k == 0 || k > 1) {
				sp := 1
				if k == 0 {
					sp = 2
				}
				if k+sp <= len(rows) {
					cs = append(cs, cell{k, sp, "{cp} {cp}"})
				}
			}
		}
		return func(num func(cell int) string) string {
			var b strings.Builder
			fmt.Fprintf(&b, `%s<sety y="%g"/><table style="line-width:0;h-align:%s" repeatheader="%d">`, strings.Repeat("<newpage/>", pages[g[0]]), ys[g[3]], aligns[g[1]], g[5])
			row := -1
			for k, c := range cs {
				if c.row != row {
					if row >= 0 {
						b.WriteString("</tr>")
					}
					b.WriteString("<tr>")
					row = c.row
				}
				fmt.Fprintf(&b, `<td rowspan="%d" style="column-width:%g;padding:1,0.5,1,0.75">%s</td>`, c.span, widths[g[2]], strings.ReplaceAll(c.s, "{cp}", num(k)))
			}
			b.WriteString("</tr></table>" + endBox)
			d.Body = b.String()
			return d.XML()
		}, g, len(cs)
	}
	self := func(int) string { return "{cp}" }
	return core.Space{Name: "page-numbers", N: core.Prod(rad...) * core.Seqs(len(contents), 1, n),
		Run: func(i int64, r *core.Rec) {
			mk, g, n := get(i)
			x := mk(self)
			a, ops := lab.Virt(x, veng.Dyadic{}, nil)
			r.Trans(ops)
			r.Impl(1)
			r.Obs(a.Hash())
			cs := cellsOf(a, veng.Dyadic{})
			for _, c := range cs {
				for _, w := range c.words {
					if w.Page != c.rect.Page || w.Y < c.rect.Y-1e-6 || w.Y+w.H > c.rect.Y+c.rect.H+1e-6 {
						r.Fail("text-outside", "%v is not in its cell %v\n%s\n%s", w, c.rect, x, a.Dump())
						return
					}
				}
			}
			if g[5] > 0 {
				return
			}
			if len(cs) != n+1 {
				r.Fail("cells", "%d cells are drawn, there are %d\n%s\n%s", len(cs)-1, n, x, a.Dump())
				return
			}
			y := mk(func(k int) string { return fmt.Sprint(cs[k].rect.Page) })
			b, ops2 := lab.Virt(y, veng.Dyadic{}, nil)
			r.Impl(1)
			r.Trans(ops2)
			for k, c := range cellsOf(b, veng.Dyadic{}) {
				if k < len(cs) && c.rect.Page != cs[k].rect.Page {
					r.Skip() // measured with the longer number it goes to another page
					return
				}
			}
			if k, ok := eqItems(a.Items, b.Items); !ok {
				r.Fail("row-height", "drawn is %s, with the page numbers written out %s\n%s\n%s\nwritten out:\n%s", itemAt(a.Items, k), itemAt(b.Items, k), x, a.Dump(), b.Dump())
			}
		},
		Desc: func(i int64) string { mk, _, _ := get(i); return mk(self) }}
}

// ---- C14

type tabRow struct {
	h float64
	// cells: nil means one plain cell per column
}

// pageRef: where the next row goes. Whether a row that fits within 0.05 mm (exactly, that is) goes to the next
// page is not prescribed; ties holds the answers for the first of them, further ones are answered as calculated and recorded.
type pageRef struct {
	top, bottom float64
	page        int
	y           float64
	ties        []bool
	asked       []bool
}

func (p *pageRef) fits(h float64) bool {
	f := p.y+h <= p.bottom
	if math.Abs(p.y+h-p.bottom) < 0.05 {
		if len(p.asked) < len(p.ties) {
			f = p.ties[len(p.asked)]
		}
		p.asked = append(p.asked, f)
	}
	return f
}

func (p *pageRef) newPage() { p.page++; p.y = p.top }

// judgePagination: rows with their heights; span[i] is how many rows the row-spanning cells of row i cover at most.
type tabCase struct {
	hs    []float64
	rh    int
	y0    float64
	spans []tile // tiling with 2 columns if not nil
	pre   int    // what precedes
	hf    bool
	cols  int
	bm    float64
}

func (c *tabCase) xml(real bool) string {
	d := flowPage
	if c.bm != 0 {
		d.B = c.bm
	}
	var b strings.Builder
	if real {
		b.WriteString(`<font style="font-family:courier;font-point-size:6"/>`)
	}
	switch c.pre {
	case 1:
		b.WriteString(`<text>before</text>`)
	}
	fmt.Fprintf(&b, `<sety y="%g"/>`, c.y0)
	fmt.Fprintf(&b, `<table style="line-width:0;font-point-size:6"`)
	if c.rh >= 0 {
		fmt.Fprintf(&b, ` repeatheader="%d"`, c.rh)
	}
	b.WriteString(">")
	if c.spans != nil {
		b.WriteString(rowsXML(c.spans, len(c.hs), func(k int) string {
			t := c.spans[k]
			if t.rs == 1 {
				return fmt.Sprintf("height:%g", c.hs[t.r])
			}
			return ""
		}, func(k int) string { return fmt.Sprintf("s%d", k) }, false))
	} else {
		for i, h := range c.hs {
			if i%2 == 0 {
				fmt.Fprintf(&b, `<tr style="height:%g;font-weight:bold"><td>r%d</td><td style="v-align:bottom;h-align:right">x%d</td></tr>`, h, i, i)
			} else {
				fmt.Fprintf(&b, `<tr><td style="height:%g;text-color:#00ff00">r%d</td><td style="v-align:middle;h-align:block">x%d</td></tr>`, h, i, i)
			}
		}
	}
	b.WriteString("</table>" + endBox)
	d.Body = b.String()
	if c.hf {
		d.Header = `<text style="font-point-size:20">head</text>`
		d.Footer = `<sety y="190"/><table><tr><td>foot</td></tr></table>`
	}
	return d.XML()
}

func (c *tabCase) run(r *core.Rec, real bool) {
	x := c.xml(real)
	bottom := 210 - flowPage.B
	if c.bm != 0 {
		bottom = 210 - c.bm
	}
	if real {
		bottom -= 210 - 595.28/veng.K
	}
	n := len(c.hs)
	cover := make([]int, n) // rows covered from row i
	for i := range cover {
		cover[i] = 1
	}
	names := make([][]string, n)
	for i := range c.hs {
		if c.spans == nil {
			names[i] = []string{fmt.Sprintf("r%d", i), fmt.Sprintf("x%d", i)}
		}
	}
	for k, t := range c.spans {
		if t.rs > cover[t.r] {
			cover[t.r] = t.rs
		}
		names[t.r] = append(names[t.r], fmt.Sprintf("s%d", k))
	}
	group := func(i int) float64 {
		h := 0.0
		for k := i; k < i+cover[i] && k < n; k++ {
			h += c.hs[k]
		}
		return h
	}
	rh := c.rh
	if rh < 0 {
		rh = 0
	}
	head := 0.0
	hdrSpans := false
	for i := 0; i < rh && i < n; i++ {
		head += c.hs[i]
		if cover[i] > 1 {
			hdrSpans = true
		}
	}
	// where rows that fit on no page, and tables with row spans in their header, begin is not claimed
	weak := hdrSpans
	for i := range c.hs {
		lim := bottom - flowPage.T
		if i >= rh {
			lim -= head
		}
		if group(i) > lim-0.05 {
			weak = true
		}
	}
	if weak && real { // gofpdf breaks the page at texts in the bottom margin
		r.Skip()
		return
	}
	type place struct {
		page   int
		y      float64
		row    int
		repeat bool
	}
	type layout struct {
		want    []place
		endY    float64
		endPage int
	}
	start := 0.0
	for i := 0; i < rh && i < n; i++ {
		start += c.hs[i]
	}
	if rh < n {
		start += group(rh)
	}
	lay := func(ties []bool) (l layout, asked []bool) {
		p := &pageRef{top: flowPage.T, bottom: bottom, page: 1, y: c.y0, ties: ties}
		if !p.fits(start) {
			p.newPage()
		}
		for i := 0; i < n; i++ {
			if !p.fits(group(i)) {
				p.newPage()
				if i > 0 && i >= rh {
					for k := 0; k < rh; k++ {
						l.want = append(l.want, place{p.page, p.y, k, true})
						p.y += c.hs[k]
					}
				}
			}
			l.want = append(l.want, place{p.page, p.y, i, false})
			p.y += c.hs[i]
		}
		l.endY, l.endPage = p.y, p.page
		return l, p.asked
	}
	// all answers to the ties
	var layouts []layout
	var walk func(ties []bool)
	walk = func(ties []bool) {
		l, asked := lay(ties)
		layouts = append(layouts, l)
		for k := len(ties); k < len(asked) && len(layouts) < 64; k++ {
			walk(append(append([]bool(nil), asked[:k]...), !asked[k]))
		}
	}
	walk(nil)
	if len(layouts) >= 64 {
		r.Skip()
		return
	}
	d, m, tol := render(r, x, real)
	fail := func(sig, s string, a ...interface{}) { r.Fail(sig, "%s\n%s\n%s", fmt.Sprintf(s, a...), x, d.Dump()) }
	var cells []drawnCell
	for _, cl := range cellsOf(&dl.Doc{Items: d.Filter(func(it dl.Item) bool {
		s := strings.TrimSpace(it.S)
		return it.Phase != 'h' && it.Phase != 'f' && s != "before" && s != "head"
	})}, m) {
		if len(cl.words) == 1 && cl.words[0].S == "foot" {
			continue
		}
		cells = append(cells, cl)
	}
	if weak {
		at := map[string]int{}
		var order []string
		for i := range names {
			for _, nm := range names[i] {
				at[nm] = i
				order = append(order, nm)
			}
		}
		order = append(order, "end")
		page := 1
		for _, cl := range cells {
			nm := cl.text()
			if len(order) > 0 && nm == order[0] {
				order = order[1:]
				page = cl.rect.Page
				continue
			}
			if i, ok := at[nm]; !ok || i >= rh || cl.rect.Page <= page {
				fail("row-order", "%q is drawn where %q is due", nm, order[0])
				return
			}
		}
		if len(order) > 0 {
			fail("row-lost", "%q is not drawn", order[0])
		}
		return
	}
	judge := func(l layout) (sig, msg string) {
		bad := func(sig, s string, a ...interface{}) (string, string) { return sig, fmt.Sprintf(s, a...) }
		ci := 0
		for _, w := range l.want {
			for _, nm := range names[w.row] {
				if ci >= len(cells) {
					return bad("row-lost", "row %d is not drawn", w.row)
				}
				cl := cells[ci]
				ci++
				what := "row"
				if w.repeat {
					what = "repeated header row"
				}
				if cl.text() != nm {
					return bad("row-order", "cell %q is drawn on page %d where %s %d (%q) is due on page %d", cl.text(), cl.rect.Page, what, w.row, nm, w.page)
				}
				if cl.rect.Page != w.page {
					return bad("row-page", "%s %d is on page %d, expected on page %d", what, w.row, cl.rect.Page, w.page)
				}
				if !lab.Near(cl.rect.Y, w.y, tol*4) {
					return bad("row-height", "%s %d is at y=%.5g instead of %.5g", what, w.row, cl.rect.Y, w.y)
				}
				for _, t := range cl.words {
					if t.Page != w.page || t.Y < cl.rect.Y-tol || t.Y+t.H > cl.rect.Y+cl.rect.H+tol*3 {
						return bad("text-outside", "%v is not in its cell %v", t, cl.rect)
					}
				}
				if cl.rect.Y+cl.rect.H > bottom+tol {
					return bad("in-bottom-margin", "%s %d reaches into the bottom margin", what, w.row)
				}
			}
		}
		if ci != len(cells)-1 {
			return bad("too-much", "%d more cells are drawn than there are", len(cells)-1-ci)
		}
		end := cells[ci]
		if end.text() != "end" {
			return bad("row-order", "%q is drawn at the end", end.text())
		}
		_, endH := 0.0, m.Height(dl.Font{Size: 12})
		if real {
			endH = 6 / veng.K
		}
		next := l.endY+endH > bottom-0.05 && end.rect.Page == l.endPage+1 && lab.Near(end.rect.Y, flowPage.T, tol*4) && lab.Near(end.rect.X, pgL, tol)
		if next {
			l.endPage++
		} else if end.rect.Page != l.endPage || !lab.Near(end.rect.Y, l.endY, tol*4) || !lab.Near(end.rect.X, pgL, tol) {
			return bad("follower", "what follows is at (%.4g,%.4g) on page %d instead of (%.4g,%.4g) on page %d", end.rect.X, end.rect.Y, end.rect.Page, pgL, l.endY, l.endPage)
		}
		if d.Pages != l.endPage {
			return bad("page-count", "%d pages instead of %d", d.Pages, l.endPage)
		}
		return "", ""
	}
	sig0, msg0 := judge(layouts[0])
	for k := 1; sig0 != "" && k < len(layouts); k++ {
		if sig, _ := judge(layouts[k]); sig == "" {
			sig0 = ""
		}
	}
	if sig0 != "" {
		fail(sig0, "%s", msg0)
		return
	}
	// repeated header rows look like the first ones
	first := map[string]drawnCell{}
	for _, cl := range cells {
		nm := cl.text()
		f, ok := first[nm]
		if !ok {
			first[nm] = cl
			continue
		}
		same := lab.Near(cl.rect.X, f.rect.X, tol) && lab.Near(cl.rect.W, f.rect.W, tol) && lab.Near(cl.rect.H, f.rect.H, tol*2) && cl.rect.Color == f.rect.Color && len(cl.words) == len(f.words)
		for k := range cl.words {
			if !same {
				break
			}
			a, b := cl.words[k], f.words[k]
			same = a.Font == b.Font && a.Color == b.Color && lab.Near(a.X, b.X, tol) && lab.Near(a.Y-cl.rect.Y, b.Y-f.rect.Y, tol*2)
		}
		if !same {
			fail("repeated-header-differs", "the repeated header cell %v %v differs from %v %v", cl.rect, cl.words, f.rect, f.words)
			return
		}
	}
}

func paginationSpaces(tier string) []core.Space {
	var out []core.Space
	add := func(name string, n int64, real bool, get func(i int64) *tabCase) {
		out = append(out, core.Space{Name: name, N: n,
			Run:  func(i int64, r *core.Rec) { get(i).run(r, real) },
			Desc: func(i int64) string { return get(i).xml(real) }})
	}
	hs := []float64{5, 12.5, 20.25, 9}
	y0s := []float64{10, 33.3, 52.1}
	rows := 6
	if tier == "thorough" {
		rows = 8
	}
	mk := func(rows int, hs, y0s []float64, rhs []int, pre int) func(i int64) *tabCase {
		return func(i int64) *tabCase {
			g := core.Digits(i, len(rhs), len(y0s), 2, pre)
			c := &tabCase{rh: rhs[g[0]], y0: y0s[g[1]], hf: g[2] == 1, pre: g[3]}
			for _, k := range core.Seq(i/core.Prod(len(rhs), len(y0s), 2, pre), len(hs), 1, rows) {
				c.hs = append(c.hs, hs[k])
			}
			return c
		}
	}
	rhs := []int{-1, 0, 1, 2, 3}
	add("row-heights", core.Prod(len(rhs), len(y0s), 2, 2)*core.Seqs(len(hs), 1, rows), false, mk(rows, hs, y0s, rhs, 2))
	add("row-heights-real", core.Prod(len(rhs), len(y0s), 2, 1)*core.Seqs(3, 1, rows-2), true, mk(rows-2, hs[:3], y0s, rhs, 1))
	// rows that end exactly where the page ends
	hx := []float64{12.5, 25, 37.5, 50}
	add("exact-ends", core.Prod(len(rhs), 2, 2, 2)*core.Seqs(len(hx), 1, 5), false, mk(5, hx, []float64{10, 22.5}, rhs, 2))
	// many rows of one height
	nh, nr := 40, 40
	if tier == "thorough" {
		nh, nr = 160, 90
	}
	add("long-tables", core.Prod(nh, nr, 5, 2), false, func(i int64) *tabCase {
		g := core.Digits(i, nh, nr, 5, 2)
		c := &tabCase{rh: g[2], y0: 10 + 3.1*float64(g[3]), bm: 110}
		for k := 0; k <= g[1]; k++ {
			c.hs = append(c.hs, 3.5+float64(g[0])*10.07/float64(nh))
		}
		return c
	})
	// many rows of several heights
	rhl := []int{-1, 1, 3}
	add("long-mixed", core.Prod(140, 6, len(rhl)), false, func(i int64) *tabCase {
		g := core.Digits(i, 140, 6, len(rhl))
		c := &tabCase{rh: rhl[g[2]], y0: 10, bm: 110}
		for k := 0; k <= g[0]; k++ {
			c.hs = append(c.hs, 3.5+float64((k*(g[1]+1)+k/7*g[1])%5)*2.1)
		}
		return c
	})
	// repeat headers up to 10
	add("long-headers", core.Prod(11, 20, 30), false, func(i int64) *tabCase {
		g := core.Digits(i, 11, 20, 30)
		c := &tabCase{rh: g[0], y0: 10 + 2.3*float64(g[1]), bm: 110}
		for k := 0; k <= g[2]; k++ {
			c.hs = append(c.hs, 5.2)
		}
		return c
	})
	// row spans: all tilings of two columns
	type sh struct {
		ts   []tile
		rows int
	}
	var shapes []sh
	maxRows := 5
	if tier == "thorough" {
		maxRows = 6
	}
	for n := 2; n <= maxRows; n++ {
		for _, t := range tilings(n, 2) {
			// the heights of rows must be settled by a cell of this row alone
			own := map[int]bool{}
			for _, q := range t {
				if q.rs == 1 {
					own[q.r] = true
				}
			}
			if len(own) == n {
				shapes = append(shapes, sh{t, n})
			}
		}
	}
	hs2 := []float64{8, 17.3}
	nh2 := int64(1) << uint(maxRows)
	add("row-spans", int64(len(shapes))*nh2*core.Prod(3, 4), false, func(i int64) *tabCase {
		s := shapes[i/(nh2*core.Prod(3, 4))]
		g := core.Digits(i, 3, 4)
		m := i / core.Prod(3, 4) % nh2
		c := &tabCase{rh: g[0], y0: 10 + 12.6*float64(g[1]), spans: s.ts}
		for k := 0; k < s.rows; k++ {
			c.hs = append(c.hs, hs2[m>>uint(k)&1])
		}
		return c
	})
	return append(out, rowBoxSpace(tier))
}

func init() {
	core.Register(&core.Check{ID: "C13", Rule: "all tilings of small tables by rectangles x styles: common edges, no overlap, every cell once; all tables with any spans: every cell once",
		Spaces: tilingSpaces})
	core.Register(&core.Check{ID: "C14", Rule: "every sequence of row heights x repeated header rows x start height, long tables, all row spans in two columns: page and height of every row and header row are compared with a reference (exact fits may go either way)",
		Spaces: paginationSpaces})
	core.Register(&core.Check{ID: "C15", Rule: "every cell content sequence x given height x padding x alignment, combinations of neighbouring and spanning cells: height of rows and place of the text",
		Spaces: cellTextSpaces})
	core.Register(&core.Check{ID: "C16", Rule: "all tilings of small tables x all assignments of column widths to cells x table widths: the column edges are compared with the reference",
		Spaces: columnSpaces})
}
