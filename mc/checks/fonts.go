package checks

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"

	"xpdfmc/core"
	"xpdfmc/dl"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
)

// C29: fonts.

var fontDir string

var fontStyles = []font.Style{font.Regular, font.Bold, font.Italic, font.BoldItalic}
var fontFiles = []string{"sans.ttf", "sansb.ttf", "sansi.ttf", "sansbi.ttf"}

func bboxOf(b []byte) [4]int {
	u16 := func(o int) int { return int(b[o])<<8 | int(b[o+1]) }
	s16 := func(o int) int { return int(int16(u16(o))) }
	for i := 0; i < u16(4); i++ {
		o := 12 + 16*i
		if string(b[o:o+4]) == "head" {
			h := u16(o+8)<<16 | u16(o+10)
			s := 1000.0 / float64(u16(h+18))
			return [4]int{int(float64(s16(h+36)) * s), int(float64(s16(h+38)) * s), int(float64(s16(h+40)) * s), int(float64(s16(h+42)) * s)}
		}
	}
	return [4]int{}
}

var reDesc = regexp.MustCompile(`(?s)/FontName /(\S+).*?/FontBBox \[(-?\d+) (-?\d+) (-?\d+) (-?\d+)\]`)

// embedded maps the name of an embedded font in the PDF to the file it comes from.
func embedded(f *pdfread.File) map[string]string {
	out := map[string]string{}
	for _, o := range f.Objs {
		if m := reDesc.FindSubmatch(o[:int(math.Min(float64(len(o)), 600))]); m != nil {
			var bb [4]int
			for k := range bb {
				bb[k], _ = strconv.Atoi(string(m[2+k]))
			}
			name := "unknown file"
			for n, b := range ttfFiles() {
				if bboxOf(b) == bb {
					name = n
				}
			}
			out[string(m[1])] = name
		}
	}
	return out
}

type askFont struct {
	fam     string
	size    float64
	b, i, u bool
}

func (a askFont) decl() string {
	s := fmt.Sprintf("font-family:%s;font-point-size:%g", a.fam, a.size)
	add := func(on bool, k, v, n string) {
		if on {
			s += ";" + k + ":" + v
		} else {
			s += ";" + k + ":" + n
		}
	}
	add(a.b, "font-weight", "bold", "normal")
	add(a.i, "font-style", "italic", "normal")
	add(a.u, "font-decoration", "underline", "normal")
	return s
}

func (a askFont) styleKey() string {
	s := ""
	if a.b {
		s += "B"
	}
	if a.i {
		s += "I"
	}
	return s
}

var coreFams = map[string]string{"courier": "courier", "helvetica": "helvetica", "arial": "helvetica", "times": "times"}

// ---- a registry: which of the four styles are registered, under which name, with which files

type regCase struct {
	mask int // bit k: style k registered
	rot  int // style k has file (k+rot)%4
	name string
}

func (c regCase) file(styleIdx int) string { return fontFiles[(styleIdx+c.rot)%4] }

func styleIdx(a askFont) int {
	k := 0
	if a.b {
		k |= 1
	}
	if a.i {
		k |= 2
	}
	return k
}

func (c regCase) registry() *font.Registry {
	reg := font.NewRegistry()
	for k := 0; k < 4; k++ {
		if c.mask>>k&1 == 1 {
			reg.Register(font.Descriptor{Name: c.name, Style: fontStyles[k], FilePath: filepath.Join(fontDir, c.file(k))})
		}
	}
	return reg
}

// expectFont says what the PDF must use: a font file, a standard font, or an error.
func expectFont(c regCase, a askFont) (file string, std string, ok bool) {
	k := styleIdx(a)
	if strings.EqualFold(c.name, a.fam) && c.mask>>k&1 == 1 {
		return c.file(k), "", true
	}
	if s, ok := coreFams[strings.ToLower(a.fam)]; ok {
		return "", s, true
	}
	return "", "", false
}

func judgeFontDoc(r *core.Rec, c regCase, asks []askFont, x string, texts []string) {
	b, err := lab.PDF(lab.Load(x), c.registry(), nil, ".")
	r.Impl(1)
	r.Trans(len(asks))
	good := true
	for _, a := range asks {
		if _, _, ok := expectFont(c, a); !ok {
			good = false
		}
	}
	if !good {
		if err == nil {
			r.Fail("unavailable", "a font is asked for that is not there, but processing succeeds\n%+v\n%s", c, x)
		}
		r.Obs(1)
		return
	}
	if err != nil {
		r.Fail("error", "%v\n%+v\n%s", err, c, x)
		return
	}
	f, err := pdfread.Parse(b)
	if err != nil {
		r.Fail("malformed", "%v\n%s", err, x)
		return
	}
	if len(f.NoGlyph) > 0 {
		r.Fail("no-glyph", "the font is embedded without the characters %q\n%s", string(f.NoGlyph), x)
		return
	}
	emb := embedded(f)
	for k, a := range asks {
		n := 0
		for _, it := range f.Doc.Kind(dl.Text) {
			if !strings.Contains(it.S, texts[k]) {
				continue
			}
			n++
			file, std, _ := expectFont(c, a)
			var got string
			if std == "" {
				got = emb["utf8"+strings.ReplaceAll(strings.ToLower(c.name), " ", "#20")+a.styleKey()]
			}
			fam := std
			if std == "" {
				fam = strings.ReplaceAll(strings.ToLower(c.name), " ", "#20")
			}
			r.Obs(hashStr(it.Font.Family + file + fmt.Sprint(it.Font)))
			if it.Font.Family != fam || it.Font.Bold != a.b || it.Font.Italic != a.i || it.Font.Underline != a.u || math.Abs(it.Font.Size-a.size) > 0.006 || got != file {
				r.Fail("font", "asked for %+v, the PDF shows it with %s (font file %q, expected %q)\nregistered: %+v\n%s", a, it, got, file, c, x)
				return
			}
		}
		if n != 1 {
			r.Fail("text", "%q is drawn %d times\n%s\n%s", texts[k], n, x, f.Doc.Dump())
			return
		}
	}
}

func fontSpaces(tier string) []core.Space {
	var out []core.Space
	// one font asked for, over every registry
	names := []string{"sans", "Sans Two", "Times", "COURIER", "dejavu-sans"}
	askFams := []string{"=", "swapcase", "Courier", "helvetica", "Arial", "Times", "nosuch"}
	mk := func(i int64) (regCase, askFont, int) {
		g := core.Digits(i, 16, 4, len(names), len(askFams), 8, 3)
		c := regCase{mask: g[0], rot: g[1], name: names[g[2]]}
		a := askFont{fam: askFams[g[3]], size: []float64{12, 9.5, 31, 7}[(g[0]+g[4])%4], b: g[4]&1 != 0, i: g[4]&2 != 0, u: g[4]&4 != 0}
		switch a.fam {
		case "=":
			a.fam = c.name
		case "swapcase":
			a.fam = strings.ToUpper(c.name)
			if a.fam == c.name {
				a.fam = strings.ToLower(c.name)
			}
		}
		return c, a, g[5]
	}
	docOf := func(a askFont, how int) string {
		d := lab.A5(10, 10, 10, 10)
		switch how {
		case 0:
			d.Body = fmt.Sprintf(`<text style="%s">xyz</text>`, a.decl())
		case 1:
			d.Style = "K{" + a.decl() + "}"
			d.Body = `<font class="K"/><box>xyz</box>`
		case 2:
			d.Body = fmt.Sprintf(`<table><tr><td>q</td><td><p style="%s">xyz</p></td></tr></table>`, a.decl())
		}
		return d.XML()
	}
	n := core.Prod(16, 4, len(names), len(askFams), 8)
	get := func(i int64) (regCase, askFont, int) { return mk(i) }
	if tier != "thorough" {
		// the place where the font is asked for goes with the case instead of being multiplied out
		get = func(i int64) (regCase, askFont, int) {
			c, a, _ := mk(i)
			return c, a, int((i + i/16 + i/64 + i/320 + i/2240) % 3)
		}
	} else {
		n *= 3
	}
	out = append(out, core.Space{Name: "registries", N: n,
		Run: func(i int64, r *core.Rec) {
			c, a, how := get(i)
			judgeFontDoc(r, c, []askFont{a}, docOf(a, how), []string{"xyz"})
		},
		Desc: func(i int64) string {
			c, a, how := get(i)
			return fmt.Sprintf("%+v asks for %+v\n%s", c, a, docOf(a, how))
		}})
	// two runs with different fonts
	fams := []string{"Courier", "Helvetica", "Times", "sans"}
	sizes := []float64{8, 12, 25.5}
	one := core.Prod(len(fams), len(sizes), 8)
	mkA := func(i int64) askFont {
		g := core.Digits(i, len(fams), len(sizes), 8)
		return askFont{fam: fams[g[0]], size: sizes[g[1]], b: g[2]&1 != 0, i: g[2]&2 != 0, u: g[2]&4 != 0}
	}
	pair := func(i int64) (askFont, askFont, string) {
		a, b := mkA(i%one), mkA(i/one%one)
		d := lab.A5(10, 10, 10, 10)
		d.Body = fmt.Sprintf(`<text style="%s">one <p style="%s">two</p></text><box style="%s">six</box>`, a.decl(), b.decl(), b.decl())
		return a, b, d.XML()
	}
	np := one * one
	stp := int64(1)
	if tier != "thorough" {
		stp = 5 // coprime to the digits' periods
	}
	out = append(out, core.Space{Name: "runs", N: np / stp,
		Run: func(i int64, r *core.Rec) {
			a, b, x := pair(i * stp)
			c := regCase{name: "none"}
			if a.fam == "sans" || b.fam == "sans" {
				c = regCase{mask: 15, name: "sans"}
			}
			judgeFontDoc(r, c, []askFont{a, b, b}, x, []string{"one", "two", "six"})
		},
		Desc: func(i int64) string { _, _, x := pair(i * stp); return x }})
	// texts of registered fonts beyond ASCII
	var runes []rune
	for c, w := range sansWidths() {
		if w > 0 && c >= 0x21 && c != 0xAD && !(c >= 0x2000 && c <= 0x200F) && !(c >= 0x300 && c < 0x370) && c < 0xD800 {
			runes = append(runes, c)
		}
	}
	sortRunes(runes)
	const per = 40
	out = append(out, core.Space{Name: "characters", N: int64((len(runes) + per - 1) / per),
		Run: func(i int64, r *core.Rec) {
			rs := runes[i*per : int(math.Min(float64(len(runes)), float64(i*per+per)))]
			var want []string
			var b strings.Builder
			for _, c := range rs {
				if c == '{' || c == '\\' {
					continue
				}
				w := "a" + string(c)
				want = append(want, w)
				b.WriteString(lab.Esc(w) + "<br/>")
			}
			d := lab.A5(10, 10, 10, 10)
			d.Body = `<text style="font-family:sans;line-spacing:1;font-point-size:8">` + b.String() + `</text>`
			pdf, err := lab.PDF(lab.Load(d.XML()), regCase{mask: 1, name: "sans"}.registry(), nil, ".")
			r.Impl(1)
			r.Trans(len(want))
			if err != nil {
				r.Fail("error", "%v\n%s", err, d.XML())
				return
			}
			f, err := pdfread.Parse(pdf)
			if err != nil {
				r.Fail("malformed", "%v\n%s", err, d.XML())
				return
			}
			if len(f.NoGlyph) > 0 {
				r.Fail("no-glyph", "the font is embedded without the characters %q\n%s", string(f.NoGlyph), d.XML())
				return
			}
			for k, it := range f.Doc.Kind(dl.Text) {
				if k >= len(want) || it.S != want[k] {
					r.Fail("text", "item %d: %q is drawn\n%s", k, it.S, d.XML())
					return
				}
				r.Obs(hashStr(it.S))
			}
			if len(f.Doc.Kind(dl.Text)) != len(want) {
				r.Fail("text", "%d words drawn, %d written\n%s", len(f.Doc.Kind(dl.Text)), len(want), d.XML())
			}
		},
		Desc: func(i int64) string { return fmt.Sprintf("characters %d.. of the font", i*per) }})
	// two families, whose styles come from any of the files, the same ones too
	files2 := []string{"", "sans.ttf", "sansb.ttf", "sansi.ttf"}
	type slot struct {
		fam string
		sty int
	}
	slots := []slot{{"sans", 0}, {"Corp", 0}, {"sans", 1}, {"Corp", 3}}
	shared := func(i int64) (*font.Registry, map[slot]string, string) {
		g := core.Digits(i, len(files2), len(files2), len(files2), len(files2), 2)
		reg := font.NewRegistry()
		has := map[slot]string{}
		for k := range slots {
			if g[4] == 1 {
				k = len(slots) - 1 - k
			}
			if f := files2[g[k]]; f != "" {
				has[slots[k]] = f
				reg.Register(font.Descriptor{Name: slots[k].fam, Style: fontStyles[slots[k].sty], FilePath: filepath.Join(fontDir, f)})
			}
		}
		d := lab.A5(10, 10, 10, 10)
		for k, sl := range slots {
			if has[sl] != "" {
				d.Body += fmt.Sprintf(`<text style="%s">t%d</text>`, askFont{fam: sl.fam, size: 12, b: sl.sty&1 != 0, i: sl.sty&2 != 0}.decl(), k)
			}
		}
		return reg, has, d.XML()
	}
	out = append(out, core.Space{Name: "shared-files", N: core.Prod(len(files2), len(files2), len(files2), len(files2), 2),
		Run: func(i int64, r *core.Rec) {
			reg, has, x := shared(i)
			b, err := lab.PDF(lab.Load(x), reg, nil, ".")
			r.Impl(1)
			r.Trans(len(has))
			if err != nil {
				r.Fail("error", "%v\n%v\n%s", err, has, x)
				return
			}
			f, err := pdfread.Parse(b)
			if err != nil {
				r.Fail("malformed", "%v\n%s", err, x)
				return
			}
			emb := embedded(f)
			r.Obs(hashStr(fmt.Sprint(emb)))
			for k, sl := range slots {
				n := 0
				for _, it := range f.Doc.Kind(dl.Text) {
					if it.S != fmt.Sprintf("t%d", k) {
						continue
					}
					n++
					a := askFont{fam: sl.fam, b: sl.sty&1 != 0, i: sl.sty&2 != 0}
					got := emb["utf8"+strings.ToLower(sl.fam)+a.styleKey()]
					if it.Font.Family != strings.ToLower(sl.fam) || it.Font.Bold != a.b || it.Font.Italic != a.i || got != has[sl] {
						r.Fail("font", "asked for %v, registered with %q, the PDF shows it with %s (font file %q)\n%v\n%s", sl, has[sl], it, got, has, x)
						return
					}
				}
				if n != 1 && has[sl] != "" {
					r.Fail("text", "t%d is drawn %d times\n%s", k, n, x)
					return
				}
			}
		},
		Desc: func(i int64) string { _, has, x := shared(i); return fmt.Sprintf("%v\n%s", has, x) }})
	out = append(out, defSpaces(tier)...)
	return out
}

func sortRunes(rs []rune) {
	for i := 1; i < len(rs); i++ {
		for j := i; j > 0 && rs[j] < rs[j-1]; j-- {
			rs[j], rs[j-1] = rs[j-1], rs[j]
		}
	}
}

func sansWidths() map[rune]float64 {
	t, err := pdfread.ReadTTF(ttfSans)
	if err != nil {
		panic(err)
	}
	return t.Widths
}

// ---- definition files

type defEntry struct {
	name   string
	styles []int // style index
	paths  []string
}

func defSpaces(tier string) []core.Space {
	var out []core.Space
	// where the file is, and how it is named when loaded
	places := []string{"fonts.toml", "conf/fonts.toml", "conf/deep/x y.toml"}
	calls := 4 // absolute, relative, ./relative, with ..
	mono := []string{"", "sans", "other"}
	kinds := []string{"rel", "sub", "abs", "up"}
	styleSets := [][]int{{0}, {0, 1, 2, 3}, {3, 0}, {}}
	radix := []int{len(places), calls, len(mono), len(kinds), len(styleSets), len(kinds), len(styleSets), 3}
	mk := func(i int64) (place string, call int, m string, defs []defEntry) {
		g := core.Digits(i, radix...)
		place, call, m = places[g[0]], g[1], mono[g[2]]
		n := g[7] // 0..2 fonts
		for k := 0; k < n; k++ {
			d := defEntry{name: []string{"sans", "Sans Two"}[k]}
			for j, s := range styleSets[g[4+2*k]] {
				p := fmt.Sprintf("f%d%d.ttf", k, j)
				switch kinds[g[3+2*k]] {
				case "sub":
					p = "sub/" + p
				case "abs":
					p = filepath.Join(fontDir, "elsewhere", p)
				case "up":
					p = "../" + p
				}
				d.styles = append(d.styles, s)
				d.paths = append(d.paths, p)
			}
			defs = append(defs, d)
		}
		return
	}
	text := func(m string, defs []defEntry) string {
		var b strings.Builder
		if m != "" {
			fmt.Fprintf(&b, "MonoFont = %q\n", m)
		}
		for _, d := range defs {
			fmt.Fprintf(&b, "\n[[Fonts]]\nName = %q\n", d.name)
			for k := range d.styles {
				fmt.Fprintf(&b, "  [[Fonts.StyleDefinitions]]\n  Style = %q\n  FilePath = %q\n", fontStyles[d.styles[k]], d.paths[k])
			}
		}
		return b.String()
	}
	out = append(out, core.Space{Name: "definitions", N: core.Prod(radix...),
		Run: func(i int64, r *core.Rec) {
			place, call, m, defs := mk(i)
			root := filepath.Join(fontDir, "defs")
			file := filepath.Join(root, place)
			_ = os.MkdirAll(filepath.Dir(file), 0o777)
			_ = os.WriteFile(file, []byte(text(m, defs)), 0o666)
			arg := file
			switch call {
			case 1:
				arg = "defs/" + place
			case 2:
				arg = "./defs/" + place
			case 3:
				arg = "defs/../defs/" + place
			}
			cwd, _ := os.Getwd()
			_ = os.Chdir(fontDir)
			reg, err := font.LoadRegistryFromFile(arg)
			_ = os.Chdir(cwd)
			r.Impl(1)
			r.Trans(1)
			if err != nil {
				r.Fail("error", "%v\n%s", err, text(m, defs))
				return
			}
			if reg.MonoFont() != m {
				r.Fail("mono", "mono font %q, defined %q", reg.MonoFont(), m)
			}
			var got, want []string
			_ = reg.Each(func(fd font.Descriptor) error {
				got = append(got, fmt.Sprintf("%s %s %s", fd.Name, fd.Style, filepath.Clean(fd.FilePath)))
				return nil
			})
			for _, d := range defs {
				for k := range d.styles {
					p := d.paths[k]
					if !filepath.IsAbs(p) {
						p = filepath.Join(filepath.Dir(file), p)
					}
					want = append(want, fmt.Sprintf("%s %s %s", d.name, fontStyles[d.styles[k]], filepath.Clean(p)))
				}
			}
			r.Obs(hashStr(strings.Join(want, "|")))
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				r.Fail("definitions", "loaded with %q:\n%s\ndefined:\n%s\n%s", arg, strings.Join(got, "\n"), strings.Join(want, "\n"), text(m, defs))
			}
		},
		Desc: func(i int64) string {
			p, c, m, d := mk(i)
			return fmt.Sprintf("%s, called in way %d\n%s", p, c, text(m, d))
		}})
	// families defined in several pieces, in any order
	type piece struct {
		name   string
		styles []int
	}
	pieces := []piece{{"sans", []int{0}}, {"sans", []int{1, 2}}, {"Sans", []int{3}}, {"sans", nil}, {"Sans Two", []int{0}}, {"Sans Two", []int{2, 3}}, {"times", []int{1}}}
	mkp := func(i int64) (defs []defEntry) {
		for k, s := range core.Seq(i, len(pieces), 0, 4) {
			d := defEntry{name: pieces[s].name, styles: pieces[s].styles}
			for j := range d.styles {
				d.paths = append(d.paths, fmt.Sprintf("p%d%d.ttf", k, j))
			}
			defs = append(defs, d)
		}
		return
	}
	out = append(out, core.Space{Name: "pieces", N: core.Seqs(len(pieces), 0, 4),
		Run: func(i int64, r *core.Rec) {
			defs := mkp(i)
			file := filepath.Join(fontDir, "pieces.toml")
			_ = os.WriteFile(file, []byte(text("mono", defs)), 0o666)
			reg, err := font.LoadRegistryFromFile(file)
			r.Impl(1)
			r.Trans(1)
			if err != nil {
				r.Fail("error", "%v\n%s", err, text("mono", defs))
				return
			}
			type key struct {
				name string
				sty  font.Style
			}
			var got, want []string
			seen := map[key]bool{}
			_ = reg.Each(func(fd font.Descriptor) error {
				k := key{fd.Name, fd.Style}
				if !seen[k] {
					got = append(got, fmt.Sprintf("%s %s %s", fd.Name, fd.Style, filepath.Base(fd.FilePath)))
				}
				seen[k] = true
				return nil
			})
			seen = map[key]bool{}
			twice := false
			for _, d := range defs {
				for j, st := range d.styles {
					k := key{d.name, fontStyles[st]}
					if seen[k] {
						twice = true // which of them counts is not said
						continue
					}
					seen[k] = true
					want = append(want, fmt.Sprintf("%s %s %s", d.name, fontStyles[st], d.paths[j]))
				}
			}
			if twice {
				r.Skip()
				return
			}
			sort.Strings(got)
			sort.Strings(want)
			r.Obs(hashStr(strings.Join(want, "|")))
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				r.Fail("definitions", "loaded:\n%s\ndefined:\n%s\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"), text("mono", defs))
			}
		},
		Desc: func(i int64) string { return text("mono", mkp(i)) }})
	// malformed definition files
	bad := []string{
		"Fonts = 3\n", "MonoFont = 5\n", "MonoFont = \"a\n", "[[Fonts]\nName = \"x\"\n", "[[Fonts]]\nName = 7\n", "[[Fonts]]\nName = \"a\"\n[[Fonts.StyleDefinitions]]\nStyle = 1\n",
		"[[Fonts]]\nName = \"a\"\n[[Fonts.StyleDefinitions]]\nFilePath = [1]\n", "[[Fonts]]\nName = \"a\"\nName = \"b\"\n", "<xml/>", "MonoFont\n", "= 3\n", "[[Fonts]]\nStyleDefinitions = \"x\"\n", "Fonts = \"x\"\n", "{}\n", "MonoFont = sans\n",
		"MonoFont = \"a\"\nMonoFont = \"b\"\n", "[[Fonts]]\nName = \"sans\"\n[[Fonts.StyleDefinitions]]\nStyle = \"regular\"\nFilePath = \"sans.ttf\"\n]\n",
	}
	out = append(out, core.Space{Name: "malformed", N: int64(len(bad) + 3),
		Run: func(i int64, r *core.Rec) {
			f := filepath.Join(fontDir, "bad.toml")
			what := ""
			if i < int64(len(bad)) {
				what = bad[i]
				_ = os.WriteFile(f, []byte(what), 0o666)
			} else {
				f = []string{filepath.Join(fontDir, "nosuch.toml"), fontDir, filepath.Join(fontDir, "sans.ttf")}[i-int64(len(bad))]
				what = f
			}
			_, err := font.LoadRegistryFromFile(f)
			r.Impl(1)
			r.Trans(1)
			r.Obs(uint64(i))
			if err == nil {
				r.Fail("accepted", "no error for %s", what)
			}
		},
		Desc: func(i int64) string {
			if i < int64(len(bad)) {
				return bad[i]
			}
			return fmt.Sprint(i)
		}})
	// font files that cannot be read, at every position among good ones
	unread := []string{"nosuch.ttf", "dir.ttf", "sans.ttf/x", ""}
	out = append(out, core.Space{Name: "unreadable", N: core.Prod(len(unread), 4, 4, 2),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, len(unread), 4, 4, 2)
			reg := font.NewRegistry()
			for k := 0; k < 4; k++ {
				p := filepath.Join(fontDir, fontFiles[k])
				if k == g[1] {
					p = filepath.Join(fontDir, unread[g[0]])
					if unread[g[0]] == "" {
						p = ""
					}
				}
				name := "sans"
				if g[3] == 1 && k == g[1] {
					name = "unused"
				}
				reg.Register(font.Descriptor{Name: name, Style: fontStyles[(k+g[2])%4], FilePath: p})
			}
			d := lab.A5(10, 10, 10, 10)
			d.Body = "<text>x</text>"
			_, err := engine.NewFPDF(reg, lab.Load(d.XML()))
			r.Impl(1)
			r.Trans(4)
			r.Obs(uint64(i))
			if err == nil {
				r.Fail("accepted", "no error although %q cannot be read", unread[g[0]])
			}
		},
		Desc: func(i int64) string {
			return fmt.Sprintf("unreadable file %q as number %d", unread[i%int64(len(unread))], i/int64(len(unread)))
		}})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C29", Rule: "every registry (styles registered, files, names) x font asked for, every pair of fonts in a text, every character of a font, every form of definition file, malformed and unreadable ones: fonts and font files in the PDF compared with those asked for and registered",
		Spaces: fontSpaces, Setup: fontSetup})
}

func fontSetup(dir string) {
	fontDir = dir
	writeFonts(dir)
	_ = os.MkdirAll(filepath.Join(dir, "dir.ttf"), 0o777)
}
