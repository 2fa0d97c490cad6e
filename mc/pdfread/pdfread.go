// Package pdfread parses the PDF files gofpdf produces back into a draw list and checks their
// structure (header, object offsets, page tree, stream lengths, trailer).
package pdfread

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"

	"xpdfmc/dl"
)

const k = 72.0 / 25.4

type FontInfo struct {
	BaseFont string
	UTF16    bool
	gid      []byte // CIDToGIDMap
}

type File struct {
	Objs  map[int][]byte
	Fonts map[string]FontInfo
	Doc   dl.Doc
	Info  string
	Raw   []byte
	// per page raw content
	Contents []string
	// image resource id -> pixel size
	Images map[string][2]int
	// embedded font files by object
	FontFiles int
	// characters shown by a font file embedded without a glyph for them
	NoGlyph []rune
}

var (
	reDescend = regexp.MustCompile(`/DescendantFonts \[(\d+) 0 R\]`)
	reCIDMap  = regexp.MustCompile(`/CIDToGIDMap (\d+) 0 R`)
	reObj     = regexp.MustCompile(`^(\d+) 0 obj\n`)
	reKids    = regexp.MustCompile(`(?s)/Kids \[(.*?)\]`)
	reCount   = regexp.MustCompile(`/Count (\d+)`)
	reMB      = regexp.MustCompile(`/MediaBox \[0 0 ([\d.]+) ([\d.]+)\]`)
	reCont    = regexp.MustCompile(`/Contents (\d+) 0 R`)
	reFontRes = regexp.MustCompile(`(?s)/Font <<(.*?)>>`)
	reFontEnt = regexp.MustCompile(`/F(\S+) (\d+) 0 R`)
	reXobj    = regexp.MustCompile(`(?s)/XObject <<(.*?)>>`)
	reXent    = regexp.MustCompile(`/I(\S+) (\d+) 0 R`)
	reBase    = regexp.MustCompile(`/BaseFont /(\S+)`)
	reLen     = regexp.MustCompile(`/Length (\d+)`)
	reWidth   = regexp.MustCompile(`/Width (\d+)`)
	reHeight  = regexp.MustCompile(`/Height (\d+)`)
	reSize    = regexp.MustCompile(`/Size (\d+)`)
	reRoot    = regexp.MustCompile(`/Root (\d+) 0 R`)
)

// Parse checks the structure of a PDF and reads its content.
func Parse(b []byte) (*File, error) {
	f := &File{Objs: map[int][]byte{}, Fonts: map[string]FontInfo{}, Raw: b, Images: map[string][2]int{}}
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		return nil, fmt.Errorf("no PDF header")
	}
	if !bytes.HasSuffix(b, []byte("%%EOF\n")) {
		return nil, fmt.Errorf("no %%%%EOF at the end")
	}
	si := bytes.LastIndex(b, []byte("startxref\n"))
	if si < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	rest := strings.Split(string(b[si:]), "\n")
	if len(rest) < 3 {
		return nil, fmt.Errorf("bad startxref")
	}
	xo, err := strconv.Atoi(rest[1])
	if err != nil || xo < 0 || xo >= len(b) || !bytes.HasPrefix(b[xo:], []byte("xref\n")) {
		return nil, fmt.Errorf("startxref does not point at xref")
	}
	lines := strings.Split(string(b[xo:si]), "\n")
	var n int
	if _, err := fmt.Sscanf(lines[1], "0 %d", &n); err != nil || n < 1 || len(lines) < n+3 {
		return nil, fmt.Errorf("bad xref section")
	}
	for i := 1; i < n; i++ {
		if len(lines[2+i]) < 18 {
			return nil, fmt.Errorf("bad xref entry %d: %q", i, lines[2+i])
		}
		off, err := strconv.Atoi(lines[2+i][:10])
		if err != nil || off >= len(b) {
			return nil, fmt.Errorf("bad xref entry %d", i)
		}
		m := reObj.FindSubmatch(b[off:min(len(b), off+32)])
		if m == nil || string(m[1]) != strconv.Itoa(i) {
			return nil, fmt.Errorf("xref entry %d does not point at object %d", i, i)
		}
		body := b[off+len(m[0]):]
		// a stream's length must lead to endstream
		e := bytes.Index(body, []byte("endobj"))
		if s := bytes.Index(body, []byte("stream\n")); s >= 0 && s < e {
			lm := reLen.FindSubmatch(body[:s])
			if lm == nil {
				return nil, fmt.Errorf("object %d: stream without length", i)
			}
			l, _ := strconv.Atoi(string(lm[1]))
			if s+7+l > len(body) || !bytes.HasPrefix(body[s+7+l:], []byte("\nendstream\nendobj")) {
				return nil, fmt.Errorf("object %d: stream length %d wrong", i, l)
			}
			body = body[:s+7+l]
		} else if e < 0 {
			return nil, fmt.Errorf("object %d not closed", i)
		} else {
			body = body[:e]
		}
		f.Objs[i] = body
	}
	trailer := b[xo:si]
	if m := reSize.FindSubmatch(trailer); m == nil || string(m[1]) != strconv.Itoa(n) {
		return nil, fmt.Errorf("trailer size differs from xref size")
	}
	rm := reRoot.FindSubmatch(trailer)
	if rm == nil {
		return nil, fmt.Errorf("no root")
	}
	root, _ := strconv.Atoi(string(rm[1]))
	if !bytes.Contains(f.Objs[root], []byte("/Type /Catalog")) {
		return nil, fmt.Errorf("root is no catalog")
	}
	pages := string(f.Objs[1])
	if !strings.Contains(pages, "/Type /Pages") {
		return nil, fmt.Errorf("object 1 is no page tree")
	}
	km := reKids.FindStringSubmatch(pages)
	cm := reCount.FindStringSubmatch(pages)
	dm := reMB.FindStringSubmatch(pages)
	if km == nil || cm == nil || dm == nil {
		return nil, fmt.Errorf("page tree incomplete")
	}
	dw, _ := strconv.ParseFloat(dm[1], 64)
	dh, _ := strconv.ParseFloat(dm[2], 64)
	kids := strings.Split(strings.TrimSpace(km[1]), " R")
	var pageObjs []int
	for _, kd := range kids {
		fs := strings.Fields(kd)
		if len(fs) == 2 {
			v, _ := strconv.Atoi(fs[0])
			pageObjs = append(pageObjs, v)
		}
	}
	if c, _ := strconv.Atoi(cm[1]); c != len(pageObjs) {
		return nil, fmt.Errorf("page count %s but %d kids", cm[1], len(pageObjs))
	}
	// resources
	res := string(f.Objs[2])
	if m := reFontRes.FindStringSubmatch(res); m != nil {
		for _, e := range reFontEnt.FindAllStringSubmatch(m[1], -1) {
			o, _ := strconv.Atoi(e[2])
			body := f.Objs[o]
			bm := reBase.FindSubmatch(body)
			if bm == nil {
				return nil, fmt.Errorf("font object %d without BaseFont", o)
			}
			fi := FontInfo{BaseFont: string(bm[1]), UTF16: bytes.Contains(body, []byte("/Type0"))}
			if fi.UTF16 {
				if fi.gid, err = f.gidMap(body); err != nil {
					return nil, fmt.Errorf("font object %d: %v", o, err)
				}
			}
			f.Fonts[e[1]] = fi
		}
	}
	if m := reXobj.FindStringSubmatch(res); m != nil {
		for _, e := range reXent.FindAllStringSubmatch(m[1], -1) {
			o, _ := strconv.Atoi(e[2])
			body := f.Objs[o]
			wm, hm := reWidth.FindSubmatch(body), reHeight.FindSubmatch(body)
			if wm == nil || hm == nil {
				return nil, fmt.Errorf("image object %d without size", o)
			}
			w, _ := strconv.Atoi(string(wm[1]))
			h, _ := strconv.Atoi(string(hm[1]))
			f.Images[e[1]] = [2]int{w, h}
		}
	}
	for _, o := range f.Objs {
		if bytes.Contains(o[:min(len(o), 400)], []byte("/Producer")) {
			f.Info = string(o)
		}
		if bytes.Contains(o[:min(len(o), 400)], []byte("/FontFile2")) {
			f.FontFiles++
		}
	}
	for pi, po := range pageObjs {
		pg := string(f.Objs[po])
		if !strings.Contains(pg, "/Type /Page") {
			return nil, fmt.Errorf("object %d is no page", po)
		}
		w, h := dw, dh
		if m := reMB.FindStringSubmatch(pg); m != nil {
			w, _ = strconv.ParseFloat(m[1], 64)
			h, _ = strconv.ParseFloat(m[2], 64)
		}
		f.Doc.PageSizes = append(f.Doc.PageSizes, [2]float64{w / k, h / k})
		c := reCont.FindStringSubmatch(pg)
		if c == nil {
			return nil, fmt.Errorf("page %d without content", pi+1)
		}
		co, _ := strconv.Atoi(c[1])
		body := f.Objs[co]
		s := bytes.Index(body, []byte("stream\n"))
		if s < 0 {
			return nil, fmt.Errorf("content of page %d is no stream", pi+1)
		}
		data := body[s+7:]
		if bytes.Contains(body[:s], []byte("/FlateDecode")) {
			zr, err := zlib.NewReader(bytes.NewReader(data))
			if err != nil {
				return nil, fmt.Errorf("content of page %d: %v", pi+1, err)
			}
			data, err = io.ReadAll(zr)
			if err != nil {
				return nil, fmt.Errorf("content of page %d: %v", pi+1, err)
			}
		}
		f.Contents = append(f.Contents, string(data))
		if err := f.content(pi+1, h/k, data); err != nil {
			return nil, fmt.Errorf("content of page %d: %v", pi+1, err)
		}
	}
	f.Doc.Pages = len(pageObjs)
	if len(f.Doc.PageSizes) > 0 {
		f.Doc.PageW, f.Doc.PageH = f.Doc.PageSizes[0][0], f.Doc.PageSizes[0][1]
	}
	return f, nil
}

// gidMap reads the map from characters to glyphs of a composite font.
func (f *File) gidMap(body []byte) ([]byte, error) {
	ref := func(re *regexp.Regexp, b []byte) []byte {
		m := re.FindSubmatch(b)
		if m == nil {
			return nil
		}
		o, _ := strconv.Atoi(string(m[1]))
		return f.Objs[o]
	}
	m := ref(reCIDMap, ref(reDescend, body))
	s := bytes.Index(m, []byte("stream\n"))
	if s < 0 {
		return nil, fmt.Errorf("no map from characters to glyphs")
	}
	zr, err := zlib.NewReader(bytes.NewReader(m[s+7:]))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

type gstate struct {
	fill, stroke dl.RGB
	lw           float64
}

// BaseToFont turns a BaseFont name into a font.
func (f *File) font(id string) (dl.Font, bool) {
	fi, ok := f.Fonts[id]
	if !ok {
		return dl.Font{}, false
	}
	fn := dl.Font{}
	b := fi.BaseFont
	if fi.UTF16 {
		b = strings.TrimPrefix(b, "utf8")
		// gofpdf names the font family+style, the family in lower case
		if t := strings.TrimSuffix(b, "I"); t != b {
			fn.Italic, b = true, t
		}
		if t := strings.TrimSuffix(b, "B"); t != b {
			fn.Bold, b = true, t
		}
		fn.Family = b
		return fn, true
	}
	lo := strings.ToLower(b)
	fn.Bold = strings.Contains(lo, "bold")
	fn.Italic = strings.Contains(lo, "oblique") || strings.Contains(lo, "italic")
	fn.Family = strings.SplitN(strings.SplitN(lo, "-", 2)[0], ",", 2)[0]
	return fn, true
}

type token struct {
	s   string // operator or number
	str []byte // string operand
	isS bool
}

func lex(b []byte) ([]token, error) {
	var out []token
	i := 0
	for i < len(b) {
		c := b[i]
		switch {
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
			if c == '\n' {
				out = append(out, token{s: "\n"})
			}
			i++
		case c == '(':
			i++
			var s []byte
			depth := 1
			for {
				if i >= len(b) {
					return nil, fmt.Errorf("unterminated string")
				}
				c := b[i]
				if c == '\\' {
					if i+1 >= len(b) {
						return nil, fmt.Errorf("unterminated escape")
					}
					switch b[i+1] {
					case 'r':
						s = append(s, '\r')
					case 'n':
						s = append(s, '\n')
					default:
						s = append(s, b[i+1])
					}
					i += 2
					continue
				}
				if c == '(' {
					depth++
				}
				if c == ')' {
					depth--
					if depth == 0 {
						i++
						break
					}
				}
				s = append(s, c)
				i++
			}
			out = append(out, token{str: s, isS: true})
		case c == '[' || c == ']':
			out = append(out, token{s: string(c)})
			i++
		default:
			j := i
			for j < len(b) && !strings.ContainsRune(" \n\r\t()[]", rune(b[j])) {
				j++
			}
			out = append(out, token{s: string(b[i:j])})
			i = j
		}
	}
	return out, nil
}

func (f *File) content(page int, ph float64, data []byte) error {
	toks, err := lex(data)
	if err != nil {
		return err
	}
	var gs gstate
	var stack []gstate
	var ops []token
	var curFont dl.Font
	var utf bool
	var gid []byte
	var tx, ty float64
	var px, py float64
	var segs []dl.Item
	var rects []dl.Item
	var cm []float64
	lastText := -1 // index of text item drawn since the last newline
	num := func(i int) float64 {
		if i < 0 || i >= len(ops) {
			return math.NaN()
		}
		v, err := strconv.ParseFloat(ops[i].s, 64)
		if err != nil {
			return math.NaN()
		}
		return v
	}
	need := func(op string, n int) error {
		if len(ops) < n {
			return fmt.Errorf("operator %s needs %d operands, has %d", op, n, len(ops))
		}
		for i := len(ops) - n; i < len(ops); i++ {
			if !ops[i].isS && !strings.HasPrefix(ops[i].s, "/") {
				if v := num(i); math.IsNaN(v) || math.IsInf(v, 0) {
					return fmt.Errorf("operator %s: operand %q is no finite number", op, ops[i].s)
				}
			}
		}
		return nil
	}
	col := func(v float64) int { return int(math.Round(v * 255)) }
	add := func(it dl.Item) {
		it.Page = page
		f.Doc.Items = append(f.Doc.Items, it)
	}
	for _, t := range toks {
		if t.isS {
			ops = append(ops, t)
			continue
		}
		if t.s == "\n" {
			lastText = -1
			continue
		}
		c := t.s[0]
		if c == '/' || c == '-' || c == '.' || c == '+' || (c >= '0' && c <= '9') || t.s == "NaN" {
			ops = append(ops, t)
			continue
		}
		b := len(ops)
		switch t.s {
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				return fmt.Errorf("Q without q")
			}
			gs = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			cm = nil
		case "BT", "ET", "J", "j", "d", "Tw":
		case "w":
			if err := need("w", 1); err != nil {
				return err
			}
			gs.lw = num(b-1) / k
		case "rg":
			if err := need("rg", 3); err != nil {
				return err
			}
			gs.fill = dl.RGB{R: col(num(b - 3)), G: col(num(b - 2)), B: col(num(b - 1))}
		case "g":
			if err := need("g", 1); err != nil {
				return err
			}
			gs.fill = dl.RGB{R: col(num(b - 1)), G: col(num(b - 1)), B: col(num(b - 1))}
		case "RG":
			if err := need("RG", 3); err != nil {
				return err
			}
			gs.stroke = dl.RGB{R: col(num(b - 3)), G: col(num(b - 2)), B: col(num(b - 1))}
		case "G":
			if err := need("G", 1); err != nil {
				return err
			}
			gs.stroke = dl.RGB{R: col(num(b - 1)), G: col(num(b - 1)), B: col(num(b - 1))}
		case "Tf":
			if len(ops) < 2 {
				return fmt.Errorf("Tf needs 2 operands")
			}
			id := strings.TrimPrefix(ops[b-2].s, "/F")
			fn, ok := f.font(id)
			if !ok {
				return fmt.Errorf("font %s not in resources", ops[b-2].s)
			}
			fn.Size = num(b - 1)
			curFont = fn
			utf = f.Fonts[id].UTF16
			gid = f.Fonts[id].gid
		case "Td":
			if err := need("Td", 2); err != nil {
				return err
			}
			tx, ty = num(b-2), num(b-1)
		case "Tj":
			if len(ops) < 1 || !ops[b-1].isS {
				return fmt.Errorf("Tj without string")
			}
			s := string(ops[b-1].str)
			if utf {
				raw := ops[b-1].str
				var u []uint16
				for i := 0; i+1 < len(raw); i += 2 {
					c := int(raw[i])<<8 | int(raw[i+1])
					u = append(u, uint16(c))
					if 2*c+1 >= len(gid) || gid[2*c] == 0 && gid[2*c+1] == 0 {
						f.NoGlyph = append(f.NoGlyph, rune(c))
					}
				}
				s = string(utf16.Decode(u))
			}
			if curFont.Family == "" {
				return fmt.Errorf("text %q without font", s)
			}
			fh := curFont.Size / k
			it := dl.Item{Kind: dl.Text, X: tx/k - 28.35/k/10, Y: ph - ty/k - 0.8*fh, H: fh, S: s, Font: curFont, Color: gs.fill}
			if curFont.Family == "courier" {
				it.W = 0.6 * fh * float64(len(s))
			}
			add(it)
			lastText = len(f.Doc.Items) - 1
		case "re":
			if err := need("re", 4); err != nil {
				return err
			}
			rects = append(rects, dl.Item{Kind: dl.Rect, X: num(b-4) / k, Y: ph - num(b-3)/k, W: num(b-2) / k, H: -num(b-1) / k})
		case "f":
			for _, r := range rects {
				if lastText >= 0 {
					f.Doc.Items[lastText].Font.Underline = true
					continue
				}
				r.Color = gs.fill
				add(r)
			}
			rects = nil
		case "m":
			if err := need("m", 2); err != nil {
				return err
			}
			px, py = num(b-2)/k, ph-num(b-1)/k
		case "l":
			if err := need("l", 2); err != nil {
				return err
			}
			x, y := num(b-2)/k, ph-num(b-1)/k
			segs = append(segs, dl.Item{Kind: dl.Line, X: px, Y: py, W: x, H: y})
			px, py = x, y
		case "S":
			for _, s := range segs {
				s.Color = gs.stroke
				s.LW = gs.lw
				add(s)
			}
			segs = nil
			for _, r := range rects {
				r.Kind = 'S'
				add(r)
			}
			rects = nil
		case "cm":
			if err := need("cm", 6); err != nil {
				return err
			}
			cm = []float64{num(b - 6), num(b - 5), num(b - 4), num(b - 3), num(b - 2), num(b - 1)}
		case "Do":
			if cm == nil || len(ops) < 1 {
				return fmt.Errorf("image without matrix")
			}
			id := strings.TrimPrefix(ops[b-1].s, "/I")
			if _, ok := f.Images[id]; !ok {
				return fmt.Errorf("image %s not in resources", id)
			}
			w, h := cm[0]/k, cm[3]/k
			add(dl.Item{Kind: dl.Image, X: cm[4] / k, Y: ph - cm[5]/k - h, W: w, H: h, S: id})
		default:
			return fmt.Errorf("unknown operator %q", t.s)
		}
		ops = ops[:0]
	}
	if len(stack) != 0 {
		return fmt.Errorf("unbalanced q/Q")
	}
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
