// Package lab holds what the checks share: building documents, rendering them on the virtual and on
// the real engine, and the judgement of text layout.
package lab

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/dl"
	"xpdfmc/pdfread"
	"xpdfmc/veng"
)

// D describes a document to be built as XML.
type D struct {
	Format, Orient string
	L, T, R, B     float64
	Style          string
	Header, Footer string
	Body           string
	Meta           string
}

// A5 is a page with a narrow printable area: width 148-L-R-2, height 210-T-B.
func A5(l, t, r, b float64) D { return D{Format: "a5", Orient: "portrait", L: l, T: t, R: r, B: b} }

func (d D) XML() string {
	var b strings.Builder
	b.WriteString("<document>")
	b.WriteString(d.Meta)
	fmt.Fprintf(&b, "<page><orientation>%s</orientation><format>%s</format><margins><left>%g</left><top>%g</top><right>%g</right><bottom>%g</bottom></margins></page>", d.Orient, d.Format, d.L, d.T, d.R, d.B)
	if d.Style != "" {
		b.WriteString("<style>" + Esc(d.Style) + "</style>")
	}
	if d.Header != "" {
		b.WriteString("<header>" + d.Header + "</header>")
	}
	if d.Footer != "" {
		b.WriteString("<footer>" + d.Footer + "</footer>")
	}
	b.WriteString("<body>" + d.Body + "</body></document>")
	return b.String()
}

var escaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;")

func Esc(s string) string { return escaper.Replace(s) }

// Load loads a document or panics (the check's documents are valid).
func Load(x string) *xdoc.Document {
	doc, err := xdoc.Load(strings.NewReader(x))
	if err != nil {
		panic(fmt.Sprintf("document rejected: %v\n%s", err, x))
	}
	return doc
}

// Hyph makes a hyphenator from patterns.
func Hyph(patterns ...string) *hyphenation.Hyphenator {
	h, err := hyphenation.Load(strings.NewReader(strings.Join(patterns, "\n")))
	if err != nil {
		panic(fmt.Sprintf("patterns rejected: %v", err))
	}
	return h
}

var noHyph *hyphenation.Hyphenator

// NoHyph divides nothing.
func NoHyph() *hyphenation.Hyphenator {
	if noHyph == nil {
		noHyph = Hyph()
	}
	return noHyph
}

// Virt renders on the virtual engine.
func Virt(x string, m dl.Metrics, h *hyphenation.Hyphenator) (*dl.Doc, int) {
	doc := Load(x)
	return VirtDoc(doc, m, h, ".")
}

func VirtDoc(doc *xdoc.Document, m dl.Metrics, h *hyphenation.Hyphenator, wd string) (*dl.Doc, int) {
	e := veng.New(doc, m)
	return VirtEng(e, doc, h, wd)
}

func VirtEng(e *veng.Engine, doc *xdoc.Document, h *hyphenation.Hyphenator, wd string) (*dl.Doc, int) {
	if h == nil {
		h = NoHyph()
	}
	p := xpdf.NewProcessor(e, h, doc, wd)
	if err := p.Process(io.Discard); err != nil {
		panic(fmt.Sprintf("processing failed: %v", err))
	}
	return &e.Doc, e.Ops
}

// PDF renders with the real engine and returns the bytes.
func PDF(doc *xdoc.Document, fonts *font.Registry, h *hyphenation.Hyphenator, wd string) ([]byte, error) {
	if fonts == nil {
		fonts = font.NewRegistry()
	}
	if h == nil {
		h = NoHyph()
	}
	e, err := engine.NewFPDF(fonts, doc)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	p := xpdf.NewProcessor(e, h, doc, wd)
	if err := p.Process(&b); err != nil {
		return b.Bytes(), err
	}
	return b.Bytes(), nil
}

// Real renders with the real engine and reads the PDF back.
func Real(x string, h *hyphenation.Hyphenator) *dl.Doc {
	doc := Load(x)
	b, err := PDF(doc, nil, h, ".")
	if err != nil {
		panic(fmt.Sprintf("processing failed: %v", err))
	}
	f, err := pdfread.Parse(b)
	if err != nil {
		panic(fmt.Sprintf("not a well-formed PDF: %v", err))
	}
	return &f.Doc
}

// Default font of documents, in the draw list's terms.
func DefFont() dl.Font { return dl.Font{Family: "helvetica", Size: 12} }

func Near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// Tok is a word or a line-break element of the text expected.
type Tok struct {
	W  string
	F  dl.Font
	C  dl.RGB
	BR bool
}

// TextSpec describes a text that should have been laid out.
type TextSpec struct {
	Toks     []Tok
	X0, W    float64 // area available
	HAlign   string  // left, right, center, block
	Spacing  float64
	Hyph     func(string) []string // block only
	M        dl.Metrics
	Tol      float64
	BlockTol float64 // how far from the right edge justified lines may end
}

// Which judgements to make.
type Judge struct {
	Conserve, Fit, Align, Lines bool
	PageW                       float64 // words wider than the page are continued by the engine
}

type piece struct {
	tok  int
	part bool // only part of a word, with added hyphen
	item dl.Item
}

// Text judges drawn words against the specification; it returns "" or what is wrong.
func Text(sp TextSpec, drawn []dl.Item, j Judge) (sig, msg string) {
	tol := sp.Tol
	if tol == 0 {
		tol = sp.M.Tol()
	}
	// 1. match the words
	type line struct {
		pieces    []piece
		page      int
		y         float64
		brs       int // line-break elements right after the line (in the token list)
		paraEnd   bool
		nextTok   int // first token not on this line or -1
		nextParts []string
		empties   int
	}
	var lines []line
	newLine := func(it dl.Item) { lines = append(lines, line{page: it.Page, y: it.Y}) }
	ti := 0
	rest := "" // remainder of the divided word
	var restParts []string
	prev := -1
	sameLine := func(a, b dl.Item) bool {
		return a.Page == b.Page && Near(a.Y, b.Y, tol) && b.X >= a.X+a.W-tol
	}
	brsLead := 0
	for ti < len(sp.Toks) && sp.Toks[ti].BR {
		brsLead++
		ti++
	}
	for di := 0; di < len(drawn); di++ {
		it := drawn[di]
		if ti >= len(sp.Toks) {
			return "text-invented", fmt.Sprintf("%q is drawn behind the end of the text", it.S)
		}
		t := sp.Toks[ti]
		want := t.W
		if rest != "" {
			want = rest
		}
		if prev < 0 || !sameLine(drawn[prev], it) {
			if prev >= 0 && rest == "" && len(lines) > 0 {
				// an ordinary line change
			}
			newLine(it)
		} else if rest != "" {
			return "divided-not-at-line-end", fmt.Sprintf("the remainder %q of %q follows on the same line", it.S, t.W)
		} else if ti > 0 && sp.Toks[ti-1].BR {
			return "line-break-ignored", fmt.Sprintf("%q follows on the same line although there is a line break before it", it.S)
		} else {
			p := drawn[prev]
			gap := it.X - (p.X + p.W)
			bl := sp.M.CharWidth(it.Font, ' ')
			if sp.HAlign != "block" && !Near(gap, bl, tol) {
				return "gap", fmt.Sprintf("%q and %q are %.4g apart instead of one blank (%.4g)", p.S, it.S, gap, bl)
			}
			if gap < -tol {
				return "overlap", fmt.Sprintf("%q and %q overlap", p.S, it.S)
			}
		}
		if j.Conserve && it.Font != t.F {
			return "font", fmt.Sprintf("%q is drawn in %+v instead of %+v", it.S, it.Font, t.F)
		}
		cur := &lines[len(lines)-1]
		switch {
		case it.S == want:
			cur.pieces = append(cur.pieces, piece{tok: ti, item: it})
			rest = ""
			restParts = nil
			ti++
			for ti < len(sp.Toks) && sp.Toks[ti].BR {
				cur.brs++
				ti++
			}
		case j.PageW > 0 && strings.HasPrefix(want, it.S) && dl.Width(sp.M, it.Font, want) > j.PageW-tol:
			// continued by the engine: wider than the page
			cur.pieces = append(cur.pieces, piece{tok: ti, part: true, item: it})
			rest = want[len(it.S):]
		default:
			if sp.HAlign == "block" && strings.HasSuffix(it.S, "-") && strings.HasPrefix(want, strings.TrimSuffix(it.S, "-")) {
				pre := strings.TrimSuffix(it.S, "-")
				parts := restParts
				if parts == nil {
					parts = sp.Hyph(t.W)
				}
				acc := ""
				ok := false
				for pi := 0; pi < len(parts)-1; pi++ {
					acc += parts[pi]
					if acc == pre {
						ok = true
						restParts = parts[pi+1:]
						break
					}
				}
				if !ok {
					return "bad-division", fmt.Sprintf("%q of %q is not at a hyphenation point of %v", it.S, t.W, sp.Hyph(t.W))
				}
				cur.pieces = append(cur.pieces, piece{tok: ti, part: true, item: it})
				rest = want[len(pre):]
			} else {
				return "word-changed", fmt.Sprintf("%q is drawn where %q is due (word %d of the text)", it.S, want, ti)
			}
		}
		if len(cur.pieces) > 1 && cur.pieces[len(cur.pieces)-2].part {
			return "divided-not-at-line-end", "a divided word is not at the end of its line"
		}
		prev = di
	}
	if ti < len(sp.Toks) || rest != "" {
		w := ""
		if rest != "" {
			w = rest
		} else {
			for k := ti; k < len(sp.Toks); k++ {
				if !sp.Toks[k].BR {
					w = sp.Toks[k].W
					break
				}
			}
		}
		if w != "" {
			return "word-lost", fmt.Sprintf("%q (word %d of the text) and what follows is not drawn", w, ti)
		}
	}
	// a hyphenated remainder list for the next line
	width := func(l line) float64 {
		if len(l.pieces) == 0 {
			return 0
		}
		a, b := l.pieces[0].item, l.pieces[len(l.pieces)-1].item
		return b.X + b.W - a.X
	}
	// natural width: words with single blanks (independent of justification)
	natural := func(l line) float64 {
		var w float64
		for k, p := range l.pieces {
			w += p.item.W
			if k > 0 {
				w += sp.M.CharWidth(p.item.Font, ' ')
			}
		}
		return w
	}
	blank := func(p piece) float64 { return sp.M.CharWidth(p.item.Font, ' ') }
	if j.Fit {
		var partsLeft []string // parts of the word running over from the line before
		for k := range lines {
			l := lines[k]
			w := natural(l)
			if len(l.pieces) > 1 && w > sp.W+tol {
				return "line-too-wide", fmt.Sprintf("line %d %q is %.4g wide, available are %.4g", k+1, lineStr(l.pieces), w, sp.W)
			}
			// single piece too wide: only if it cannot be divided any further
			last := l.pieces[len(l.pieces)-1]
			if len(l.pieces) == 1 && sp.HAlign == "block" && !last.part && w > sp.W+tol {
				parts := partsLeft
				if parts == nil {
					parts = sp.Hyph(sp.Toks[last.tok].W)
				}
				if len(parts) > 1 {
					first := blank(last) + dl.Width(sp.M, last.item.Font, parts[0]+"-")
					if first < sp.W-tol {
						return "line-too-wide", fmt.Sprintf("line %d %q is %.4g wide, available are %.4g, and it could be divided after %q", k+1, lineStr(l.pieces), w, sp.W, parts[0])
					}
				}
			}
			// parts left after this line
			if last.part {
				base := partsLeft
				if base == nil || len(l.pieces) > 1 {
					base = sp.Hyph(sp.Toks[last.tok].W)
				}
				pre := strings.TrimSuffix(last.item.S, "-")
				acc := ""
				partsLeft = nil
				for pi := range base {
					acc += base[pi]
					if acc == pre {
						partsLeft = base[pi+1:]
						break
					}
				}
			} else {
				partsLeft = nil
			}
			// a word is divided as far behind as possible
			if last.part && len(partsLeft) > 0 {
				pre := strings.TrimSuffix(last.item.S, "-")
				longer := pre + partsLeft[0]
				if len(partsLeft) > 1 {
					longer += "-"
				}
				f := last.item.Font
				need := w - dl.Width(sp.M, f, last.item.S) + dl.Width(sp.M, f, longer)
				if need < sp.W-blank(l.pieces[0])-tol {
					return "line-ends-early", fmt.Sprintf("line %d %q ends although %q would fit there (%.4g of %.4g)", k+1, lineStr(l.pieces), longer, need, sp.W)
				}
			}
			// greedy
			if k+1 < len(lines) && l.brs == 0 {
				n := lines[k+1].pieces[0]
				if !last.part {
					next := dl.Width(sp.M, n.item.Font, sp.Toks[n.tok].W)
					if sp.HAlign == "block" {
						if parts := sp.Hyph(sp.Toks[n.tok].W); len(parts) > 1 {
							if pw := dl.Width(sp.M, n.item.Font, parts[0]+"-"); pw < next {
								next = pw
							}
						}
					}
					need := w + blank(n) + next
					reserve := blank(l.pieces[0])
					if need < sp.W-reserve-tol {
						return "line-ends-early", fmt.Sprintf("line %d %q ends although %q would fit behind it (%.4g + %.4g of %.4g)", k+1, lineStr(l.pieces), sp.Toks[n.tok].W, w, blank(n)+next, sp.W)
					}
				}
			}
		}
	}
	if j.Lines {
		for k := 0; k+1 < len(lines); k++ {
			a, b := lines[k], lines[k+1]
			if a.page != b.page {
				continue
			}
			h := 0.0
			for _, p := range a.pieces {
				h = math.Max(h, sp.M.Height(p.item.Font))
			}
			n := 1
			if a.brs > 1 {
				n = a.brs
			}
			want := h * sp.Spacing * float64(n)
			if !Near(b.y-a.y, want, tol*4) {
				sig := "line-distance"
				if b.y-a.y > want+h/2 {
					sig = "empty-line"
				}
				return sig, fmt.Sprintf("line %d %q is %.4g below %q, expected %.4g (%d line feeds of %.4g)", k+2, lineStr(b.pieces), b.y-a.y, lineStr(a.pieces), want, n, h*sp.Spacing)
			}
		}
	}
	if j.Align {
		for k := range lines {
			l := lines[k]
			w := width(l)
			if w > sp.W+tol && sp.HAlign != "left" && (sp.HAlign != "block" || len(l.pieces) > 1) {
				continue
			}
			left, right := l.pieces[0].item.X, l.pieces[0].item.X+w
			bl := 0.0
			for _, p := range l.pieces {
				bl = math.Max(bl, blank(p))
			}
			paraEnd := k == len(lines)-1 || l.brs > 0
			switch sp.HAlign {
			case "left":
				if !Near(left, sp.X0, tol) {
					return "align-left", fmt.Sprintf("line %d %q starts at x=%.4g instead of %.4g", k+1, lineStr(l.pieces), left, sp.X0)
				}
			case "right":
				if d := sp.X0 + sp.W - right; d < -tol || d > bl+tol {
					return "align-right", fmt.Sprintf("line %d %q ends at x=%.4g, the right edge is %.4g", k+1, lineStr(l.pieces), right, sp.X0+sp.W)
				}
			case "center":
				d := (left - sp.X0) - (sp.X0 + sp.W - right)
				if math.Abs(d) > bl+tol {
					return "align-center", fmt.Sprintf("line %d %q has %.4g on the left and %.4g on the right", k+1, lineStr(l.pieces), left-sp.X0, sp.X0+sp.W-right)
				}
			case "block":
				if paraEnd {
					if !Near(left, sp.X0, tol) {
						return "align-block", fmt.Sprintf("last line %q of a paragraph starts at x=%.4g instead of %.4g", lineStr(l.pieces), left, sp.X0)
					}
					for q := 1; q < len(l.pieces); q++ {
						a, b := l.pieces[q-1].item, l.pieces[q].item
						if gap := b.X - a.X - a.W; !Near(gap, sp.M.CharWidth(b.Font, ' '), tol) {
							return "paragraph-end-stretched", fmt.Sprintf("line %q ends a paragraph, but %q and %q are %.4g apart (blank: %.4g)", lineStr(l.pieces), a.S, b.S, gap, sp.M.CharWidth(b.Font, ' '))
						}
					}
					continue
				}
				if !Near(left, sp.X0, tol) {
					return "align-block", fmt.Sprintf("line %d %q starts at x=%.4g instead of %.4g", k+1, lineStr(l.pieces), left, sp.X0)
				}
				if len(l.pieces) < 2 {
					continue
				}
				bt := sp.BlockTol
				if bt == 0 {
					bt = 0.15
				}
				if d := sp.X0 + sp.W - right; d < -tol || d > bt+tol {
					return "not-justified", fmt.Sprintf("line %d %q ends at x=%.4g, the right edge is %.4g", k+1, lineStr(l.pieces), right, sp.X0+sp.W)
				}
				g0 := -1.0
				for q := 1; q < len(l.pieces); q++ {
					a, b := l.pieces[q-1].item, l.pieces[q].item
					gap := b.X - a.X - a.W
					if g0 < 0 {
						g0 = gap
					} else if !Near(gap, g0, tol*3) {
						return "unequal-gaps", fmt.Sprintf("line %d %q has gaps of %.4g and %.4g", k+1, lineStr(l.pieces), g0, gap)
					}
				}
			}
		}
	}
	_ = brsLead
	return "", ""
}

func lineStr(ps []piece) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.item.S)
	}
	return strings.Join(s, " ")
}

// Toks makes tokens of plain words.
func Toks(f dl.Font, s string) []Tok {
	var out []Tok
	for _, w := range strings.Fields(s) {
		out = append(out, Tok{W: w, F: f})
	}
	return out
}

// StripPhase returns the draw list without phases (for comparisons with what a PDF tells).
func StripPhase(d *dl.Doc) []dl.Item {
	out := append([]dl.Item{}, d.Items...)
	for i := range out {
		out[i].Phase = 0
	}
	return out
}
