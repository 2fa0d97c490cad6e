package checks

import (
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/style"

	"xpdfmc/core"
)

// The reference for style declarations and style sheets, and the checks C18 and C19.

// sattr is a style attribute with values.
type sattr struct {
	key  string
	kind byte // 's' string, 'f' number, 'i' four integers, 'q' four numbers, 'c' colour
	vals []string
	set  func(s *style.Styles, v string)
}

func num(v string) float64 { f, _ := strconv.ParseFloat(v, 64); return f }

func four(v string) (q [4]float64) {
	for i, p := range strings.Split(v, ",") {
		if i < 4 {
			q[i] = num(strings.TrimSpace(p))
		}
	}
	return
}

func rgbOf(v string) style.RGB {
	v = strings.TrimPrefix(v, "#")
	h := func(i int) int { n, _ := strconv.ParseUint(v[i:i+2], 16, 16); return int(n) }
	return style.RGB{R: h(0), G: h(2), B: h(4)}
}

var sattrs = []sattr{
	{"font-family", 's', []string{"Courier", "Times", "wide", "Helvetica", "Arial"}, func(s *style.Styles, v string) { s.Font.Family = v }},
	{"font-point-size", 'f', []string{"8", "10.5", "14", "16", "9", "7"}, func(s *style.Styles, v string) { s.Font.PointSize = num(v) }},
	{"font-style", 's', []string{"italic", "normal"}, func(s *style.Styles, v string) { s.Font.Style = style.FontStyle(v) }},
	{"font-weight", 's', []string{"bold", "normal"}, func(s *style.Styles, v string) { s.Font.Weight = style.FontWeight(v) }},
	{"font-decoration", 's', []string{"underline", "normal"}, func(s *style.Styles, v string) { s.Font.Decoration = style.FontDecoration(v) }},
	{"border", 'i', []string{"1,0,0,1", "1,1,1,1", "0,1,1,0", "0,0,0,0", "2,0,3,0"}, func(s *style.Styles, v string) {
		q := four(v)
		s.Box.Border = style.Border{Left: int(q[0]), Top: int(q[1]), Right: int(q[2]), Bottom: int(q[3])}
	}},
	{"padding", 'q', []string{"1,2,3,4", "0,0,0,0", "2.5,1.25,0.5,3", "4,3,2,1"}, func(s *style.Styles, v string) {
		q := four(v)
		s.Box.Padding = style.Padding{Left: q[0], Top: q[1], Right: q[2], Bottom: q[3]}
	}},
	{"margin", 'q', []string{"1,2,3,4", "0,0,0,0", "7.5,1.25,0.5,3"}, func(s *style.Styles, v string) {
		q := four(v)
		s.Box.Margin = style.Margin{Left: q[0], Top: q[1], Right: q[2], Bottom: q[3]}
	}},
	{"width", 'f', []string{"40", "50.5", "60", "45", "55"}, func(s *style.Styles, v string) { s.Dimension.Width = num(v) }},
	{"height", 'f', []string{"20", "25.5", "30", "22", "27"}, func(s *style.Styles, v string) { s.Dimension.Height = num(v) }},
	{"line-spacing", 'f', []string{"1", "2", "1.25", "1.75", "2.5"}, func(s *style.Styles, v string) { s.Dimension.LineSpacing = num(v) }},
	{"offset-x", 'f', []string{"3", "4.5", "0", "5", "6"}, func(s *style.Styles, v string) { s.Dimension.OffsetX = num(v) }},
	{"offset-y", 'f', []string{"2", "3.5", "0", "4", "5"}, func(s *style.Styles, v string) { s.Dimension.OffsetY = num(v) }},
	{"column-width", 'f', []string{"20", "15.5", "25", "18", "22"}, func(s *style.Styles, v string) { s.Table.ColumnWidth = num(v) }},
	{"h-align", 's', []string{"right", "center", "block", "left"}, func(s *style.Styles, v string) { s.Align.HAlign = style.HAlign(v) }},
	{"v-align", 's', []string{"bottom", "middle", "top"}, func(s *style.Styles, v string) { s.Align.VAlign = style.VAlign(v) }},
	{"color", 'c', []string{"#102030", "#ff0000", "00fF7f", "#000000", "#0a0b0c"}, func(s *style.Styles, v string) { s.Color.Foreground = rgbOf(v) }},
	{"text-color", 'c', []string{"#203040", "#00ff00", "0000fF", "#000001", "#0b0c0d"}, func(s *style.Styles, v string) { s.Color.Text = rgbOf(v) }},
	{"background-color", 'c', []string{"#304050", "#ffff00", "00ffFF", "#010000", "#0c0d0e"}, func(s *style.Styles, v string) { s.Color.Background = rgbOf(v) }},
	{"line-width", 'f', []string{"0.5", "2", "0.25", "1.5", "3"}, func(s *style.Styles, v string) { s.Draw.LineWidth = num(v) }},
}

func attrOf(key string) *sattr {
	for i := range sattrs {
		if sattrs[i].key == key {
			return &sattrs[i]
		}
	}
	return nil
}

func applyRef(s *style.Styles, key, v string) { attrOf(key).set(s, v) }

// two records that differ in every attribute
func recordsBefore() []style.Styles {
	b := style.Styles{}
	for i := range sattrs {
		v := "77.25"
		switch sattrs[i].kind {
		case 's':
			v = "zz" + sattrs[i].key
		case 'i':
			v = "5,6,7,8"
		case 'q':
			v = "5.5,6.5,7.5,8.5"
		case 'c':
			v = "#717273"
		}
		sattrs[i].set(&b, v)
	}
	return []style.Styles{{}, b}
}

// refDecl parses a declaration list; ok=false: malformed; judged=false: neither demanded nor forbidden.
type kv struct{ k, v string }

func refDecl(s string) (out []kv, ok, judged bool) {
	trim := func(s string) string { return strings.Trim(s, " \r\n\t") }
	judged = true
	ok = true
	seen := map[string]int{}
	for _, d := range strings.Split(s, ";") {
		d = trim(d)
		if d == "" {
			continue
		}
		p := strings.Split(d, ":")
		if len(p) != 2 {
			return nil, false, judged
		}
		k, v := trim(p[0]), trim(p[1])
		if k == "" {
			return nil, false, judged
		}
		a := attrOf(k)
		if a == nil {
			continue
		}
		good, jd := refValue(a.kind, v)
		if !jd {
			judged = false
		}
		if i, dup := seen[k]; dup {
			// of two declarations for one attribute the last counts; whether a malformed earlier
			// one is reported is left open
			if g, _ := refValue(a.kind, out[i].v); !g {
				judged = false
			}
			out[i].v = v
		} else {
			seen[k] = len(out)
			out = append(out, kv{k, v})
		}
		if !good {
			ok = false
		}
	}
	// malformed earlier duplicates are not judged
	return out, ok, judged
}

// refValue: is v a value of the kind, and does the property say so or not.
func refValue(kind byte, v string) (ok, judged bool) {
	plainNum := func(s string, frac bool) bool {
		if s == "" {
			return false
		}
		if s[0] == '-' {
			s = s[1:]
		}
		dig, dot := 0, 0
		for _, c := range s {
			switch {
			case c >= '0' && c <= '9':
				dig++
			case c == '.' && frac:
				dot++
			default:
				return false
			}
		}
		return dig > 0 && dot <= 1
	}
	switch kind {
	case 's':
		return true, v != ""
	case 'f':
		if plainNum(v, true) {
			return true, true
		}
		_, err := strconv.ParseFloat(v, 64)
		return err == nil, err != nil // exponents, hexadecimal, infinity: not judged
	case 'i', 'q':
		ps := strings.Split(v, ",")
		if len(ps) != 4 {
			return false, true
		}
		judged = true
		ok = true
		for i, p := range ps {
			t := strings.Trim(p, " \t")
			if !plainNum(t, kind == 'q') {
				ok = false
				_, err := strconv.ParseFloat(t, 64)
				if err == nil || strings.HasPrefix(t, "+") {
					judged = false // exponents, signs, 1.5 as an integer ...
				}
				if kind == 'i' && plainNum(t, true) {
					judged = true // a fraction is no integer
				}
			} else if strings.Trim(p, " ") != p && !(i > 0 && strings.TrimLeft(p, " ") == t) {
				judged = false // blanks before a comma
			} else if strings.ContainsAny(p, "\t\r\n") {
				judged = false
			}
		}
		return ok, judged
	case 'c':
		h := strings.TrimPrefix(v, "#")
		if len(h) != 6 {
			return false, true
		}
		for _, c := range h {
			if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
				return false, true
			}
		}
		return true, true
	}
	return false, false
}

type pieceReader struct {
	s   string
	n   int
	err error
}

func (c *pieceReader) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := c.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.s) {
		n = len(c.s)
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	return n, nil
}

func judgeDecl(r *core.Rec, in string) {
	want, ok, judged := refDecl(in)
	if !judged {
		r.Skip()
	}
	orders(r, func(ord string) bool {
		m, err := style.DecodeMutator(strings.NewReader(in))
		r.Impl(1)
		r.Trans(1)
		if !judged {
			return true
		}
		if !ok {
			if err == nil {
				r.Fail("malformed-accepted", "%q is accepted although it is malformed (%s)", in, ord)
				return false
			}
			return true
		}
		if err != nil {
			r.Fail("valid-rejected", "%q is rejected: %v (%s)", in, err, ord)
			return false
		}
		judgeApplied(r, in, m, want, ord)
		return !r.Failed()
	})
}

func judgeApplied(r *core.Rec, in string, m interface{ Mutate(*style.Styles) }, want []kv, ord string) {
	for bi, base := range recordsBefore() {
		exp := base
		for _, d := range want {
			applyRef(&exp, d.k, d.v)
		}
		got := base
		m.Mutate(&got)
		r.Obs(hashStr(fmt.Sprint(got)))
		if got != exp {
			r.Fail("wrong-attributes", "%q on record %d gives\n%+v\nexpected\n%+v (%s)", in, bi, got, exp, ord)
			return
		}
		// what was set is set again, on a record that has changed in the meantime
		for i := range sattrs {
			if bi == 0 {
				applyRef(&got, sattrs[i].key, sattrs[i].vals[1])
			}
		}
		exp2 := got
		for _, d := range want {
			applyRef(&exp2, d.k, d.v)
		}
		m.Mutate(&got)
		m.Mutate(&got)
		if got != exp2 {
			r.Fail("wrong-when-repeated", "%q applied again gives\n%+v\nexpected\n%+v (%s)", in, got, exp2, ord)
			return
		}
	}
}

var badVals = map[byte][]string{
	'f': {"", "x", "5x", "5mm", "1,5", "--1", "1 2", "1.2.3", ".", "#5"},
	'i': {"", "1", "1,2,3", "1,2,3,4,5", "1,2,3,4x", "1,2,x,4", "1,,3,4", "a,b,c,d", "1.5,2,3,4", "1;", "1,2,3,", ",1,2,3", "1 2 3 4"},
	'q': {"", "1", "1,2,3", "1,2,3,4,5", "1,2,3,4x", "1,2,x,4", "1,,3,4", "a,b,c,d", "1..5,2,3,4", "1,2,3,", "1.5"},
	'c': {"", "#", "red", "#12345", "#1234567", "#12345g", "12345", "##12345", "##123456", "#123456#", "#1#2345", "#12 456", "+12345", "-12345", "0x1234", "#ééé"},
}

var goodMore = map[byte][]string{
	'f': {"0", "-1", "-12.75", "0.125", "1000000", "05", "3.0", "0.1", "-0.3", "16777217", "123456.789", "0.0000000001", "9007199254740993", "1e2", "Inf"},
	'i': {"0,0,0,1", "-1,2,-3,4", "10,20,30,40", "1, 2, 3, 4", "007,1,2,3", "2147483647,-2147483647,128,256"},
	'q': {"0,0,0,1.5", "-1,2,-3.25,4", "10,20,30,40.125", "1.5, 2, 3, 4", "0.1,0.2,0.3,0.7", "16777217,0.0000000001,123456.789,1"},
	'c': {"#FFFFFF", "#abcdef", "ABCDEF", "#010203", "#0000ff", "#ff8000", "#7f8081"},
	's': {"x y", "bold+italic", "Ünïcode 字", "a,b", "1", "#ffffff", "\"x y\"", "'Times'", "(a)", "a/b\\c", "UPPER lower", "!important", "-x-"},
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func declSpaces(tier string) []core.Space {
	var out []core.Space
	// every attribute x value x spacing
	type sg struct{ k, v string }
	var singles []sg
	for _, a := range sattrs {
		for _, v := range a.vals {
			singles = append(singles, sg{a.key, v})
		}
		for _, v := range goodMore[a.kind] {
			singles = append(singles, sg{a.key, v})
		}
		for _, v := range badVals[a.kind] {
			singles = append(singles, sg{a.key, v})
		}
	}
	for _, k := range []string{"unknown", "Width", "font", "widths", "styles", "-", "border-left", "Font"} {
		singles = append(singles, sg{k, "5"}, sg{k, ""}, sg{k, "x"})
	}
	sp := []string{"", " ", "\n", "\t ", "\r\n  "}
	tails := []string{"", ";", " ; ", ";;", " ;\n; "}
	out = append(out, core.Space{Name: "single", N: core.Prod(len(singles), len(sp), len(sp), len(sp), len(tails)),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(singles), len(sp), len(sp), len(sp), len(tails))
			s := singles[g[0]]
			judgeDecl(r, sp[g[1]]+s.k+sp[g[2]]+":"+sp[g[3]]+s.v+tails[g[4]])
		},
		Desc: func(i int64) string {
			g := core.Digits(i, len(singles), len(sp), len(sp), len(sp), len(tails))
			return fmt.Sprintf("%+v %v", singles[g[0]], g[1:])
		}})
	// all pairs of declarations
	var few []sg
	for _, a := range sattrs {
		few = append(few, sg{a.key, a.vals[0]}, sg{a.key, a.vals[1]}, sg{a.key, ""})
		if len(badVals[a.kind]) > 0 {
			few = append(few, sg{a.key, badVals[a.kind][1]})
		}
	}
	few = append(few, sg{"unknown", "1"})
	seps := []string{";", ";;", " ;\n ", ";\t;"}
	out = append(out, core.Space{Name: "pairs", N: core.Prod(len(few), len(few), len(seps)),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(few), len(few), len(seps))
			judgeDecl(r, few[g[0]].k+":"+few[g[0]].v+seps[g[2]]+few[g[1]].k+":"+few[g[1]].v)
		},
		Desc: func(i int64) string {
			g := core.Digits(i, len(few), len(few), len(seps))
			return fmt.Sprint(few[g[0]], few[g[1]], seps[g[2]])
		}})
	// all triples of valid declarations
	var ok []sg
	for _, a := range sattrs {
		ok = append(ok, sg{a.key, a.vals[0]}, sg{a.key, a.vals[1]})
	}
	n := len(ok)
	out = append(out, core.Space{Name: "triples", N: core.Prod(n, n, n),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, n, n, n)
			judgeDecl(r, ok[g[0]].k+":"+ok[g[0]].v+";"+ok[g[1]].k+": "+ok[g[1]].v+" ;"+ok[g[2]].k+":"+ok[g[2]].v)
		},
		Desc: func(i int64) string {
			g := core.Digits(i, n, n, n)
			return fmt.Sprint(ok[g[0]], ok[g[1]], ok[g[2]])
		}})
	// all attributes at once, rotated, with one left out and one repeated
	na := len(sattrs)
	all := func(i int64) string {
		g := core.Digits(i, na, na+1, na, 2)
		var p []string
		for k := 0; k < na; k++ {
			j := (k + g[0]) % na
			if g[3] == 1 {
				j = na - 1 - j
			}
			if j+1 == g[1] {
				continue
			}
			p = append(p, sattrs[j].key+":"+sattrs[j].vals[0])
		}
		p = append(p, sattrs[g[2]].key+":"+sattrs[g[2]].vals[1])
		return strings.Join(p, ";")
	}
	out = append(out, core.Space{Name: "all-attributes", N: core.Prod(na, na+1, na, 2),
		Run: func(i int64, r *core.Rec) { judgeDecl(r, all(i)) }, Desc: all})
	// colours: every channel through 0..255 and all triples of some values, in either case of letters
	chans := []int{0, 1, 9, 10, 15, 16, 31, 90, 127, 128, 160, 171, 200, 240, 250, 254, 255}
	nc := len(chans)
	colour := func(i int64) string {
		cf, i := []string{"%02x", "%02X"}[i%2], i/2
		key, i := []string{"color", "background-color", "text-color"}[i%3], i/3
		var c [3]int
		if i < 3*256 {
			c[i/256] = int(i % 256)
			c[(i/256+1)%3] = 77
		} else {
			g := core.Digits(i-3*256, nc, nc, nc)
			c = [3]int{chans[g[0]], chans[g[1]], chans[g[2]]}
		}
		return key + ":#" + fmt.Sprintf(cf+cf+cf, c[0], c[1], c[2])
	}
	out = append(out, core.Space{Name: "colours", N: 6 * (3*256 + core.Prod(nc, nc, nc)),
		Run: func(i int64, r *core.Rec) { judgeDecl(r, colour(i)) }, Desc: colour})
	// numbers: every length from 0 to 1000 in steps of a quarter, written in several ways, signed
	number := func(i int64) string {
		v := float64(i%4001) / 4
		i /= 4001
		f := []string{"%g", "-%g", "+%g", "%.3f", "0%g", "%e"}[i%6]
		i /= 6
		n := fmt.Sprintf(f, v)
		return []string{"width:" + n, "padding:1," + n + ",2," + n, "font-point-size:" + n}[i]
	}
	out = append(out, core.Space{Name: "numbers", N: 4001 * 6 * 3,
		Run: func(i int64, r *core.Rec) { judgeDecl(r, number(i)) }, Desc: number})
	// token sequences
	toks := []string{"width", "color", "padding", ":", ";", " ", "5", "#0a0b0c", "1,2,3,4", "\n", "x"}
	l := 5
	if tier == "thorough" {
		l = 7
	}
	tk := func(i int64) string {
		var b strings.Builder
		for _, k := range core.Seq(i, len(toks), 0, l) {
			b.WriteString(toks[k])
		}
		return b.String()
	}
	out = append(out, core.Space{Name: "tokens", N: core.Seqs(len(toks), 0, l),
		Run: func(i int64, r *core.Rec) { judgeDecl(r, tk(i)) }, Desc: func(i int64) string { return fmt.Sprintf("%q", tk(i)) }})
	// readers: every chunk size, a failure after every byte
	src := []string{"width:40; color:#102030 ;padding: 1,2,3,4;h-align:right", "font-family: Ünï ;\n", "", "border:1,2,3,4"}
	out = append(out, core.Space{Name: "readers", N: core.Prod(len(src), 60, 2),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(src), 60, 2)
			s := src[g[0]]
			if g[2] == 0 {
				want, _, _ := refDecl(s)
				m, err := style.DecodeMutator(&pieceReader{s: s, n: g[1] + 1})
				r.Impl(1)
				r.Trans(len(s)/(g[1]+1) + 1)
				if err != nil {
					r.Fail("valid-rejected", "%q in chunks of %d is rejected: %v", s, g[1]+1, err)
					return
				}
				judgeApplied(r, s, m, want, fmt.Sprintf("chunks of %d", g[1]+1))
				return
			}
			if g[1] > len(s) {
				r.Skip()
				return
			}
			r.Impl(1)
			r.Trans(1)
			if _, err := style.DecodeMutator(&pieceReader{s: s[:g[1]], n: 7, err: errRead}); err == nil {
				r.Fail("read-error-ignored", "the reader fails after %d bytes of %q, no error is returned", g[1], s)
			}
		},
		Desc: func(i int64) string { return fmt.Sprint(core.Digits(i, len(src), 60, 2)) }})
	return out
}

// ---- C19: style sheets

type refRule struct {
	class, sel string
	decl       []kv
}

// refSheet: rules in order; ok=false: malformed; judged.
func refSheet(s string) (rules []refRule, ok, judged bool) {
	judged = true
	s = strings.NewReplacer("\r", " ", "\n", " ", "\t", " ").Replace(s)
	defined := map[string]bool{}
	for {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			if strings.Trim(s, " ") != "" {
				judged = false // something behind the last rule
			}
			return rules, true, judged
		}
		name := strings.Trim(s[:i], " ")
		j := strings.IndexByte(s[i:], '}')
		if name == "" || j < 0 {
			return rules, false, judged
		}
		if strings.ContainsAny(name, "}; ") {
			judged = false // odd names
		}
		decl, dok, djudged := refDecl(s[i+1 : i+j])
		if strings.Contains(s[i+1:i+j], "{") {
			judged = false
		}
		if !djudged {
			judged = false
		}
		if !dok {
			return rules, false, judged
		}
		rl := refRule{class: name, decl: decl}
		if k := strings.IndexByte(name, ':'); k >= 0 {
			rl.class, rl.sel = name[:k], name[k+1:]
			if rl.class == "" || rl.sel == "" || strings.Contains(rl.sel, ":") {
				judged = false
			}
			if !defined[rl.class] {
				return rules, false, judged
			}
		} else {
			defined[name] = true
		}
		rules = append(rules, rl)
		s = s[i+j+1:]
	}
}

func judgeSheet(r *core.Rec, in string) {
	rules, ok, judged := refSheet(in)
	if !judged {
		r.Skip()
	}
	orders(r, func(ord string) bool {
		cs, err := style.DecodeClasses(strings.NewReader(in))
		r.Impl(1)
		r.Trans(len(rules) + 1)
		if !judged {
			return true
		}
		if !ok {
			if err == nil {
				r.Fail("malformed-accepted", "the sheet %q is accepted although it is malformed (%s)", in, ord)
				return false
			}
			return true
		}
		if err != nil {
			r.Fail("valid-rejected", "the sheet %q is rejected: %v (%s)", in, err, ord)
			return false
		}
		judgeClasses(r, in, cs, rules, ord)
		return !r.Failed()
	})
}

type refClass struct {
	decl []kv
	sel  map[string][]kv
}

func judgeClasses(r *core.Rec, in string, cs style.Classes, rules []refRule, ord string) {
	model := map[string]*refClass{}
	names := map[string]bool{"nosuch": true}
	sels := map[string]bool{"nosuch": true}
	for _, rl := range rules {
		names[rl.class] = true
		if rl.sel == "" {
			model[rl.class] = &refClass{decl: rl.decl, sel: map[string][]kv{}}
		} else {
			sels[rl.sel] = true
			model[rl.class].sel[rl.sel] = rl.decl
		}
	}
	if len(cs) != len(model) {
		r.Fail("classes", "the sheet %q has %d classes, expected %d (%s)", in, len(cs), len(model), ord)
		return
	}
	nl := sortedKeys(names)
	sl := append([]string{""}, sortedKeys(sels)...)
	eff := func(n, s string) []kv {
		c := model[n]
		if c == nil {
			return nil
		}
		if d, ok := c.sel[s]; ok && s != "" {
			return d
		}
		return c.decl
	}
	apply := func(st *style.Styles, ns []string, s string) {
		for _, n := range ns {
			for _, d := range eff(n, s) {
				applyRef(st, d.k, d.v)
			}
		}
	}
	uses := [][]string{nil}
	for _, a := range nl {
		uses = append(uses, []string{a})
		for _, b := range nl {
			uses = append(uses, []string{a, b})
		}
	}
	for bi, base := range recordsBefore() {
		for _, u := range uses {
			for _, s := range sl {
				got, exp := base, base
				if s == "" {
					cs.Mutate(&got, u...)
				} else {
					cs.MutateWithSelector(s, &got, u...)
				}
				apply(&exp, u, s)
				if got != exp {
					r.Fail("wrong-attributes", "the sheet %q: classes %q variant %q on record %d give\n%+v\nexpected\n%+v (%s)", in, u, s, bi, got, exp, ord)
					return
				}
				r.Obs(hashStr(fmt.Sprint(got)))
			}
		}
	}
	// selectors listed
	for n, c := range model {
		got := cs[n]
		if len(got.Selectors) != len(c.sel) {
			r.Fail("variants", "the sheet %q: class %q has %d variants, expected %d (%s)", in, n, len(got.Selectors), len(c.sel), ord)
			return
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sheetSpaces(tier string) []core.Space {
	var out []core.Space
	// token sequences
	toks := []string{"A", "B", "A:x", "A:y", "B:x", "{", "}", "width:5", ";", "color:#010203", "bad", "\n "}
	l := 5
	if tier == "thorough" {
		l = 7
	}
	tk := func(i int64) string {
		var b strings.Builder
		for _, k := range core.Seq(i, len(toks), 0, l) {
			b.WriteString(toks[k])
		}
		return b.String()
	}
	out = append(out, core.Space{Name: "tokens", N: core.Seqs(len(toks), 0, l),
		Run: func(i int64, r *core.Rec) { judgeSheet(r, tk(i)) }, Desc: func(i int64) string { return fmt.Sprintf("%q", tk(i)) }})
	// sequences of rules
	decls := []string{"", "width:5", "width:6;color:#010203", "padding:1,2,3,4;", "color:#040506; width:7", "height:1;height:2"}
	bad := []string{"width:x", "width", "color:red"}
	heads := []string{"A", "B", "A:x", "A:y", "B:x", "C", "C:x"}
	var rules []string
	for _, h := range heads {
		for _, d := range decls {
			rules = append(rules, h+"{"+d+"}")
		}
	}
	rules = append(rules, "A{"+bad[0]+"}", "A:x{"+bad[1]+"}", "B{"+bad[2]+"}", "{width:5}", "A{width:5", " {}")
	lays := []func(string) string{
		func(s string) string { return s },
		func(s string) string {
			return " " + strings.NewReplacer("{", " \n{\t", "}", "\r\n } ", ";", "\n;\n").Replace(s) + "\n"
		},
	}
	ln := 3
	if tier == "thorough" {
		ln = 4
	}
	rs := func(i int64) string {
		var b strings.Builder
		lay := lays[i%2]
		for _, k := range core.Seq(i/2, len(rules), 0, ln) {
			b.WriteString(lay(rules[k]))
		}
		return b.String()
	}
	out = append(out, core.Space{Name: "rules", N: 2 * core.Seqs(len(rules), 0, ln),
		Run: func(i int64, r *core.Rec) { judgeSheet(r, rs(i)) }, Desc: func(i int64) string { return fmt.Sprintf("%q", rs(i)) }})
	// many classes: replacing and extending
	small := []string{"A{width:5}", "A{color:#010203}", "A:x{width:6}", "A:y{height:3}", "B{width:8}", "B:x{color:#040506}"}
	lm := 6
	if tier == "thorough" {
		lm = 7
	}
	ms := func(i int64) string {
		var b strings.Builder
		for _, k := range core.Seq(i, len(small), 4, lm) {
			b.WriteString(small[k])
		}
		return b.String()
	}
	out = append(out, core.Space{Name: "histories", N: core.Seqs(len(small), 4, lm),
		Run: func(i int64, r *core.Rec) { judgeSheet(r, ms(i)) }, Desc: ms})
	// large sheets
	big := func(i int64) string {
		var b strings.Builder
		for k := int64(0); k <= i; k++ {
			fmt.Fprintf(&b, "cls%d { width: %d ; }\n", k, k)
			if k%3 == 0 {
				fmt.Fprintf(&b, "cls%d:first-row { height: %d }", k, k)
			}
		}
		switch k := i % 40; {
		case i >= 240 && k%3 == 0:
			b.WriteString("late { width: x }")
		case i >= 240 && k%3 == 1:
			b.WriteString("late:row { width: 5 }")
		case i >= 240:
			b.WriteString("late { width: 5 ")
		}
		return b.String()
	}
	out = append(out, core.Space{Name: "large", N: 280, Run: func(i int64, r *core.Rec) { judgeSheet(r, big(i)) }, Desc: func(i int64) string { return fmt.Sprintf("%d classes", i+1) }})
	// every single place of a defect or cut in a sheet
	base := "A { width: 5; color:#010203 }\nB{padding:1,2,3,4}\nA:x { height:7 }\nB:first-row{font-family:Times}"
	edits := []string{"", "{", "}", ":", ";", "x", " ", "#", "5", "\n", "\x00", "A", "{}", "B:q{"}
	ed := func(i int64) string {
		g := core.Digits(i, len(base)+1, len(edits), 3)
		p := g[0]
		switch {
		case g[2] == 0:
			return base[:p] + edits[g[1]] + base[p:] // insert
		case g[2] == 1 && p < len(base):
			return base[:p] + edits[g[1]] + base[p+1:] // replace, delete
		default:
			return base[:p] + edits[g[1]] // cut
		}
	}
	out = append(out, core.Space{Name: "edits", N: core.Prod(len(base)+1, len(edits), 3),
		Run: func(i int64, r *core.Rec) { judgeSheet(r, ed(i)) }, Desc: func(i int64) string { return fmt.Sprintf("%q", ed(i)) }})
	out = append(out, core.Space{Name: "readers", N: core.Prod(len(base)+1, 2),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(base)+1, 2)
			r.Impl(1)
			r.Trans(1)
			if g[1] == 0 {
				cs, err := style.DecodeClasses(&pieceReader{s: base, n: g[0] + 1})
				if err != nil {
					r.Fail("valid-rejected", "in chunks of %d: %v", g[0]+1, err)
					return
				}
				rules, _, _ := refSheet(base)
				judgeClasses(r, base, cs, rules, fmt.Sprintf("chunks of %d", g[0]+1))
				return
			}
			if _, err := style.DecodeClasses(&pieceReader{s: base[:g[0]], n: 5, err: errRead}); err == nil {
				r.Fail("read-error-ignored", "the reader fails after %d bytes, no error is returned", g[0])
			}
		},
		Desc: func(i int64) string { return fmt.Sprint(core.Digits(i, len(base)+1, 2)) }})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C18", Rule: "every attribute x value (good and bad) x spacing, all pairs and triples of declarations, all token sequences, all readers; under every iteration order of maps in the decoder; compared with a reference parser and applied repeatedly to two records",
		Spaces: declSpaces, Instr: true})
	core.Register(&core.Check{ID: "C19", Rule: "every token sequence, every sequence of rules, every edit and cut of a sheet: compared with a reference parser, every class and variant (and pairs of classes) applied to two records",
		Spaces: sheetSpaces, Instr: true})
}
