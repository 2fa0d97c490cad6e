// Package dl defines the draw list: the engine-independent observation of a rendered document.
package dl

import (
	"fmt"
	"hash/fnv"
	"math"
	"strings"
)

type RGB struct{ R, G, B int }

type Font struct {
	Family    string // lower case
	Size      float64
	Bold      bool
	Italic    bool
	Underline bool
}

type Kind byte

const (
	Text  Kind = 'T'
	Rect  Kind = 'R' // filled rectangle
	Line  Kind = 'L'
	Image Kind = 'I'
)

// Item is one thing drawn. Page is 1-based. For lines W,H hold the end point.
type Item struct {
	Kind  Kind
	Page  int
	Phase byte // 'b' body, 'h' header, 'f' footer, 0 unknown
	X, Y  float64
	W, H  float64
	S     string
	Font  Font
	Color RGB
	LW    float64
}

func (it Item) String() string {
	switch it.Kind {
	case Text:
		return fmt.Sprintf("p%d%c text %q x=%.4g y=%.4g w=%.4g h=%.4g %s/%g%s%s%s rgb%v", it.Page, ph(it.Phase), it.S, it.X, it.Y, it.W, it.H, it.Font.Family, it.Font.Size, fl(it.Font.Bold, "B"), fl(it.Font.Italic, "I"), fl(it.Font.Underline, "U"), it.Color)
	case Rect:
		return fmt.Sprintf("p%d%c rect x=%.4g y=%.4g w=%.4g h=%.4g rgb%v", it.Page, ph(it.Phase), it.X, it.Y, it.W, it.H, it.Color)
	case Line:
		return fmt.Sprintf("p%d%c line (%.4g,%.4g)-(%.4g,%.4g) lw=%g rgb%v", it.Page, ph(it.Phase), it.X, it.Y, it.W, it.H, it.LW, it.Color)
	default:
		return fmt.Sprintf("p%d%c image %s x=%.4g y=%.4g w=%.4g h=%.4g", it.Page, ph(it.Phase), it.S, it.X, it.Y, it.W, it.H)
	}
}

func ph(b byte) byte {
	if b == 0 {
		return '?'
	}
	return b
}

func fl(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// Doc is a rendered document.
type Doc struct {
	PageW, PageH float64 // of the first page
	PageSizes    [][2]float64
	Pages        int
	Items        []Item
}

func (d *Doc) Dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "pages=%d (%.4g x %.4g)\n", d.Pages, d.PageW, d.PageH)
	for _, it := range d.Items {
		b.WriteString("  " + it.String() + "\n")
	}
	return b.String()
}

func (d *Doc) Hash() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|", d.Pages)
	for _, it := range d.Items {
		h.Write([]byte{byte(it.Kind), byte(it.Page), it.Phase})
		for _, f := range []float64{it.X, it.Y, it.W, it.H, it.LW, it.Font.Size} {
			v := int64(math.Round(f * 1000))
			h.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
		}
		h.Write([]byte(it.S))
		h.Write([]byte(it.Font.Family))
		h.Write([]byte{bb(it.Font.Bold), bb(it.Font.Italic), bb(it.Font.Underline), byte(it.Color.R), byte(it.Color.G), byte(it.Color.B)})
	}
	return h.Sum64()
}

func bb(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// Metrics tells how wide text is.
type Metrics interface {
	CharWidth(f Font, c rune) float64 // mm
	Height(f Font) float64
	Tol() float64
}

func Width(m Metrics, f Font, s string) float64 {
	var w float64
	for _, c := range s {
		w += m.CharWidth(f, c)
	}
	return w
}

// Words splits all text items at blanks into single words with their own positions, in drawing order.
func (d *Doc) Words(m Metrics) []Item {
	var out []Item
	for _, it := range d.Items {
		if it.Kind != Text {
			continue
		}
		x := it.X
		var cur strings.Builder
		cx := x
		flush := func() {
			if cur.Len() > 0 {
				w := it
				w.S = cur.String()
				w.X = cx
				w.W = x - cx
				out = append(out, w)
				cur.Reset()
			}
		}
		for _, c := range it.S {
			if c == ' ' {
				flush()
				x += m.CharWidth(it.Font, c)
				continue
			}
			if cur.Len() == 0 {
				cx = x
			}
			cur.WriteRune(c)
			x += m.CharWidth(it.Font, c)
		}
		flush()
	}
	return out
}

// TextLine is a run of consecutive words at the same height on the same page.
type TextLine struct {
	Page  int
	Y     float64
	Words []Item
}

func (l TextLine) Left() float64  { return l.Words[0].X }
func (l TextLine) Right() float64 { w := l.Words[len(l.Words)-1]; return w.X + w.W }
func (l TextLine) String() string {
	var s []string
	for _, w := range l.Words {
		s = append(s, w.S)
	}
	return strings.Join(s, " ")
}

// Lines groups words (in drawing order) into lines.
func Lines(words []Item, tol float64) []TextLine {
	var out []TextLine
	for _, w := range words {
		if n := len(out); n > 0 {
			last := &out[n-1]
			lw := last.Words[len(last.Words)-1]
			if last.Page == w.Page && math.Abs(last.Y-w.Y) <= tol && w.X >= lw.X+lw.W-tol {
				last.Words = append(last.Words, w)
				continue
			}
		}
		out = append(out, TextLine{Page: w.Page, Y: w.Y, Words: []Item{w}})
	}
	return out
}

// Filter returns the items satisfying f.
func (d *Doc) Filter(f func(Item) bool) []Item {
	var out []Item
	for _, it := range d.Items {
		if f(it) {
			out = append(out, it)
		}
	}
	return out
}

func (d *Doc) Kind(k Kind) []Item { return d.Filter(func(it Item) bool { return it.Kind == k }) }
