package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/core"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
)

// C30: the commands.

var cliDir, cliBin string

// cliSetup builds the commands once per run (the processes of a run share the scratch directory).
func cliSetup(dir string) {
	cliDir = dir
	fontDir = dir
	writeFonts(dir)
	cliBin = filepath.Join(filepath.Dir(dir), "bin")
	ok := filepath.Join(cliBin, "ok")
	lock := cliBin + ".lock"
	if f, err := os.OpenFile(lock, os.O_CREATE|os.O_EXCL, 0o666); err == nil {
		f.Close()
		_ = os.MkdirAll(cliBin, 0o777)
		for _, c := range []string{"xpdf", "describe", "image"} {
			cmd := exec.Command("go", "build", "-buildvcs=false", "-o", filepath.Join(cliBin, c), "github.com/mazzegi/xpdf/cmd/"+c)
			cmd.Dir = filepath.Join(core.Verif, "mc")
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "%s cannot be built: %v\n%s\n", c, err, out)
				os.Exit(3)
			}
		}
		_ = os.WriteFile(ok, nil, 0o666)
	}
	for t := 0; ; t++ {
		if _, err := os.Stat(ok); err == nil {
			return
		}
		if t > 1200 {
			fmt.Fprintln(os.Stderr, "the commands were not built")
			os.Exit(3)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// cliRun is one execution of a command in a fresh directory tree.
type cliRun struct {
	rc       int
	out, err string
	before   map[string]string
	after    map[string]string
}

func tree(root string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			m[rel] = string(b)
		} else {
			m[rel] = "\x00" + fi.Mode().Type().String()
		}
		return nil
	})
	return m
}

// changed lists the files that are new or different.
func (c *cliRun) changed() []string {
	var out []string
	for p, b := range c.after {
		if was, ok := c.before[p]; !ok || was != b {
			out = append(out, p)
		}
	}
	for p := range c.before {
		if _, ok := c.after[p]; !ok {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// exe runs a command in root/cwd.
func exe(root, cwd, bin string, args []string) cliRun {
	var c cliRun
	c.before = tree(root)
	cmd := exec.Command(filepath.Join(cliBin, bin), args...)
	cmd.Dir = filepath.Join(root, cwd)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	done := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	_ = cmd.Run()
	done.Stop()
	c.rc = cmd.ProcessState.ExitCode()
	c.out, c.err = o.String(), e.String()
	c.after = tree(root)
	return c
}

// judgeExit checks what goes for every execution.
func judgeExit(r *core.Rec, c *cliRun, what string) bool {
	if strings.Contains(c.err, "goroutine ") || c.rc < 0 {
		r.Fail("crash", "%s: exit %d\n%s\n%s", what, c.rc, c.out, c.err)
		return false
	}
	if c.rc != 0 && strings.TrimSpace(c.out+c.err) == "" {
		r.Fail("silent", "%s: exit %d without a message", what, c.rc)
		return false
	}
	return true
}

// ---- xpdf

type cliIn struct {
	name string
	xml  string
	bad  bool // must be refused
}

func cliInputs() []cliIn {
	mk := func(f func(d *lab.D)) string {
		d := lab.A5(10, 10, 10, 10)
		f(&d)
		return d.XML()
	}
	ok := mk(func(d *lab.D) { d.Body = "<text>one two</text>" })
	img := "<image>" + imgFile("a.png") + "</image>"
	return []cliIn{
		{"text", ok, false},
		{"empty document", mk(func(d *lab.D) {}), false},
		{"pages", mk(func(d *lab.D) {
			d.Header, d.Footer = "<text>{cp} of {np}</text>", "<box>foot {np}</box>"
			d.Body = "<text>a</text><newpage/><text>b</text><newpage/><table><tr><td>c</td></tr></table>"
		}), false},
		{"image", mk(func(d *lab.D) { d.Body = img + "<text>x</text>" }), false},
		{"font", mk(func(d *lab.D) {
			d.Body = `<text style="font-family:sans">sans</text><text style="font-family:sans;font-weight:bold">bold</text>`
		}), false},
		{"hyphenation", mk(func(d *lab.D) {
			d.Body = `<text style="h-align:block;width:30">hyphenation of extraordinarily complicated representations</text>`
		}), false},
		{"special characters", mk(func(d *lab.D) {
			d.Style = "k{font-family:arial;width:70}"
			d.Header = `<text>a "quoted" 'b' &amp; &lt;c> ]]&gt; \n {np}</text>`
			d.Body = `<text class="k" style="text-color:#010203">"x" &amp;amp; %s %d &lt;p>&#228;&#8364; &quot;</text><table><tr><td>"</td><td>'</td></tr></table><box>&#160;\</box>`
		}), false},
		{"malformed", ok[:len(ok)-4], true},
		{"no file content", "", true},
		{"no XML", "just words", true},
		{"unknown style", mk(func(d *lab.D) { d.Body = `<text style="nosuch:1">x</text>` }), false},
		{"malformed style", mk(func(d *lab.D) { d.Body = `<text style="width:abc">x</text>` }), true},
		{"malformed style sheet", mk(func(d *lab.D) { d.Style = "a{width:" }), true},
		{"unknown element", mk(func(d *lab.D) { d.Body = "<nosuch/>" }), true},
		{"unavailable font", mk(func(d *lab.D) { d.Body = `<text style="font-family:nosuch">x</text>` }), true},
		{"unavailable font on page 2", mk(func(d *lab.D) { d.Body = `<text>x</text><newpage/><text style="font-family:nosuch">x</text>` }), true},
		{"unavailable font in footer", mk(func(d *lab.D) { d.Footer = `<text style="font-family:nosuch">x</text>` }), true},
	}
}

type cliFonts struct {
	name string
	toml string // "" for no file
	good bool
}

func cliFontDefs() []cliFonts {
	def := func(style, file string) string {
		return fmt.Sprintf("  [[Fonts.StyleDefinitions]]\n  Style = %q\n  FilePath = %q\n", style, file)
	}
	return []cliFonts{
		{"good", "MonoFont = \"sans\"\n[[Fonts]]\nName = \"sans\"\n" + def("regular", "r.ttf") + def("bold", "b/b.ttf"), true},
		{"none", "", false},
		{"malformed", "[[Fonts]\nName = 3\n", false},
		{"file missing", "[[Fonts]]\nName = \"sans\"\n" + def("regular", "nosuch.ttf"), false},
		{"one file missing", "[[Fonts]]\nName = \"sans\"\n" + def("regular", "r.ttf") + def("bold", "nosuch.ttf"), false},
		{"empty", "\n", true},
	}
}

// cliPlaces are where the input is and how the arguments name it and the output. %R stands for the
// absolute path of the tree; the current directory is "work".
type cliPlace struct {
	file string   // where the input is written, relative to the tree ("" : nowhere; "/" at the end: a directory)
	args []string // arguments
	out  string   // where the output must be, relative to the tree; "" : cannot be written
}

func cliPlaces() []cliPlace {
	return []cliPlace{
		{"work/doc.xml", []string{"doc.xml"}, "work/doc.pdf"},
		{"work/doc", []string{"doc"}, "work/doc.pdf"},
		{"work/doc.v1.xml", []string{"./doc.v1.xml"}, "work/doc.v1.pdf"},
		{"work/sub/doc.xml", []string{"sub/doc.xml"}, "work/doc.pdf"},
		{"work/sub.d/doc", []string{"sub.d/doc"}, "work/doc.pdf"},
		{"else/Doc ä.XML", []string{"%R/else/Doc ä.XML"}, "work/Doc ä.pdf"},
		{"doc.xml.xml", []string{"../doc.xml.xml"}, "work/doc.xml.pdf"},
		{"work/old.xml", []string{"old.xml"}, "work/old.pdf"}, // exists already, and is longer
		{"work/pdf.xml", []string{"pdf.xml"}, "work/pdf.pdf"},
		{"work/-d.xml", []string{"-d.xml"}, "work/-d.pdf"},
		{"work/doc.xml", []string{"doc.xml", "out.pdf"}, "work/out.pdf"},
		{"work/doc.xml", []string{"doc.xml", "out"}, "work/out"},
		{"work/doc.xml", []string{"doc.xml", "sub/out.xml"}, "work/sub/out.xml"},
		{"else/doc.xml", []string{"../else/doc.xml", "../else/o.pdf"}, "else/o.pdf"},
		{"work/doc.xml", []string{"doc.xml", "%R/else/a b.pdf"}, "else/a b.pdf"},
		{"work/doc.xml", []string{"doc.xml", "old.pdf"}, "work/old.pdf"},
		{"work/doc.xml", []string{"doc.xml", "nosuch/out.pdf"}, ""},
		{"work/doc.xml", []string{"doc.xml", "sub"}, ""},
		{"work/doc.xml", []string{"doc.xml", "/dev/full"}, ""},
		{"work/doc.xml", []string{"doc.xml", "old.pdf/x"}, ""},
		{"work/isdir.xml", []string{"isdir.xml"}, ""},
		{"", []string{"nosuch.xml"}, "work/nosuch.pdf"},
		{"work/d.xml/", []string{"d.xml"}, "work/d.pdf"},
		{"work/doc.xml", []string{"doc.xml/"}, "work/doc.pdf"},
		{"examples/grid.xml", nil, "work/deep/grid.pdf"}, // run in work/deep
	}
}

func cliSpaces(tier string) []core.Space {
	ins, defs, places := cliInputs(), cliFontDefs(), cliPlaces()
	var out []core.Space
	mk := func(i int64) (cliIn, cliFonts, cliPlace) {
		g := core.Digits(i, len(ins), len(defs), len(places))
		return ins[g[0]], defs[g[1]], places[g[2]]
	}
	out = append(out, core.Space{Name: "xpdf", N: core.Prod(len(ins), len(defs), len(places)),
		Run: func(i int64, r *core.Rec) {
			in, def, pl := mk(i)
			root, _ := os.MkdirTemp(cliDir, "cli")
			defer os.RemoveAll(root)
			cwd := "work"
			if pl.args == nil {
				cwd = "work/deep"
			}
			for _, d := range []string{"work/deep", "work/sub", "work/sub.d", "work/isdir.pdf", "else", "examples"} {
				_ = os.MkdirAll(filepath.Join(root, d), 0o777)
			}
			for _, d := range []string{"work", "work/sub", "else", "examples", ".", "work/deep"} {
				// images with the same name but other sizes: those next to the current directory count
				_ = os.MkdirAll(filepath.Join(root, d, "imgs"), 0o777)
				k := 3
				if d != cwd {
					k = 9
				}
				_ = os.WriteFile(filepath.Join(root, d, "imgs", "a.png"), plainImage("png", k, k+2), 0o666)
			}
			_ = os.WriteFile(filepath.Join(root, "work/old.pdf"), bytes.Repeat([]byte("old content "), 60000), 0o666)
			_ = os.MkdirAll(filepath.Join(root, cwd, "fonts/b"), 0o777)
			if def.toml != "" {
				_ = os.WriteFile(filepath.Join(root, cwd, "fonts/fontdef.toml"), []byte(def.toml), 0o666)
			}
			for k, f := range []string{"r.ttf", "b/b.ttf"} {
				b, _ := os.ReadFile(filepath.Join(fontDir, fontFiles[k]))
				_ = os.WriteFile(filepath.Join(root, cwd, "fonts", f), b, 0o666)
			}
			bad := in.bad || pl.out == "" || pl.file == ""
			switch {
			case pl.file == "":
			case strings.HasSuffix(pl.file, "/"):
				_ = os.MkdirAll(filepath.Join(root, pl.file), 0o777)
				bad = true
			default:
				_ = os.MkdirAll(filepath.Dir(filepath.Join(root, pl.file)), 0o777)
				_ = os.WriteFile(filepath.Join(root, pl.file), []byte(in.xml), 0o666)
			}
			var args []string
			for _, a := range pl.args {
				if strings.HasSuffix(a, ".xml/") {
					bad = true
				}
				args = append(args, strings.ReplaceAll(a, "%R", root))
			}
			c := exe(root, cwd, "xpdf", args)
			r.Impl(1)
			r.Trans(1)
			what := fmt.Sprintf("xpdf %q in %s (%s, fonts: %s)", args, cwd, in.name, def.name)
			r.Obs(hashStr(fmt.Sprint(what[4:], c.rc)))
			if !judgeExit(r, &c, what) {
				return
			}
			ch := c.changed()
			if c.rc != 0 {
				sansOK := in.name != "font" || def.name == "good"
				if !bad && def.good && pl.args != nil && sansOK {
					r.Fail("refused", "%s: exit %d, nothing is wrong with the input\n%s%s", what, c.rc, c.out, c.err)
				}
				for _, f := range ch {
					if f != pl.out && f != "." {
						r.Fail("files", "%s fails, but changes %q (the output is %q)", what, f, pl.out)
					}
				}
				return
			}
			if bad {
				r.Fail("success", "%s: exit 0\n%s%s", what, c.out, c.err)
				return
			}
			for _, f := range ch {
				if f != pl.out {
					r.Fail("files", "%s changes %q, expected %q", what, ch, pl.out)
					return
				}
			}
			pdf, err := os.ReadFile(filepath.Join(root, pl.out))
			if err != nil {
				r.Fail("output", "%s: exit 0, but %v", what, err)
				return
			}
			got, err := pdfread.Parse(pdf)
			if err != nil || !bytes.HasSuffix(bytes.TrimRight(pdf, "\r\n"), []byte("%%EOF")) {
				r.Fail("output", "%s: exit 0, but the output (%d bytes) is not a well-formed PDF: %v", what, len(pdf), err)
				return
			}
			// the same document rendered by the library
			ref, err := refPDF(filepath.Join(root, pl.file), filepath.Join(root, cwd), def)
			if err != nil {
				r.Fail("success", "%s: exit 0, but rendering the document gives: %v", what, err)
				return
			}
			want, err := pdfread.Parse(ref)
			if err != nil {
				r.Fail("output", "%s: the library's PDF is malformed: %v", what, err)
				return
			}
			if got.Doc.Hash() != want.Doc.Hash() {
				r.Fail("output", "%s: the output is\n%s\nand the document\n%s", what, got.Doc.Dump(), want.Doc.Dump())
			}
			ge, we := embedded(got), embedded(want)
			if fmt.Sprint(ge) != fmt.Sprint(we) {
				r.Fail("output", "%s: fonts %v, expected %v", what, ge, we)
			}
		},
		Desc: func(i int64) string {
			in, def, pl := mk(i)
			return fmt.Sprintf("xpdf %q, input at %q, expected output %q\ninput (%s): %s\nfonts (%s): %s", pl.args, pl.file, pl.out, in.name, in.xml, def.name, def.toml)
		}})
	out = append(out, describeCmdSpaces(tier)...)
	out = append(out, imageCmdSpaces(tier)...)
	return out
}

// refPDF is what the library makes of the file, in the directory wd.
func refPDF(file, wd string, def cliFonts) ([]byte, error) {
	doc, err := xdoc.LoadFromFile(file)
	if err != nil {
		return nil, err
	}
	reg, err := font.LoadRegistryFromFile(filepath.Join(wd, "fonts/fontdef.toml"))
	if err != nil {
		reg = font.NewRegistry()
	}
	e, err := engine.NewFPDF(reg, doc)
	if err != nil {
		return nil, err
	}
	var w bytes.Buffer
	err = xpdf.NewProcessor(e, hyphenation.NewEnUs(), doc, wd).Process(&w)
	return w.Bytes(), err
}

// ---- describe

func describeCmdSpaces(tier string) []core.Space {
	ins := cliInputs()
	v := bodyVocab()
	for k, a := range v {
		for j, b := range v {
			if tier != "thorough" && (k+j)%3 != 0 {
				continue
			}
			d := lab.A5(10, 10, 10, 10)
			d.Body = a + b
			ins = append(ins, cliIn{"body", d.XML(), false})
		}
	}
	names := []string{"doc.xml", "sub/doc", "%R/doc ä.v1.xml", "nosuch", "dir/", "-x", "../examples/grid.xml", ""}
	mk := func(i int64) (cliIn, string) {
		g := core.Digits(i, len(ins), len(names))
		return ins[g[0]], names[g[1]]
	}
	n := core.Prod(len(ins), len(names))
	f := func(i int64) int64 { return i }
	if tier != "thorough" {
		// every input under one name, the first ones under every name
		k := len(cliInputs())
		n = int64(len(ins)) + int64(k*len(names))
		f = func(i int64) int64 {
			if i < int64(len(ins)) {
				return i
			}
			g := core.Digits(i-int64(len(ins)), k, len(names))
			return int64(g[0] + g[1]*len(ins))
		}
	}
	return []core.Space{{Name: "describe", N: n,
		Run: func(i int64, r *core.Rec) {
			in, name := mk(f(i))
			root, _ := os.MkdirTemp(cliDir, "cli")
			defer os.RemoveAll(root)
			cwd := "a/b"
			_ = os.MkdirAll(filepath.Join(root, cwd, "sub"), 0o777)
			_ = os.MkdirAll(filepath.Join(root, "a/examples"), 0o777)
			_ = os.MkdirAll(filepath.Join(root, "examples"), 0o777)
			other := lab.A5(1, 1, 1, 1)
			other.Body = "<text>another document</text>"
			_ = os.WriteFile(filepath.Join(root, "examples/grid.xml"), []byte(other.XML()), 0o666)
			arg := strings.ReplaceAll(name, "%R", root)
			p := arg
			if !filepath.IsAbs(p) {
				p = filepath.Join(root, cwd, p)
			}
			bad := in.bad && !strings.HasPrefix(in.name, "unavailable font") // only styles and structure are read
			args := []string{arg}
			switch {
			case name == "":
				args = nil
				p = filepath.Join(root, "examples/grid.xml")
				_ = os.WriteFile(p, []byte(in.xml), 0o666)
			case name == "nosuch":
				bad = true
			case strings.HasSuffix(name, "/"):
				_ = os.MkdirAll(p, 0o777)
				bad = true
			default:
				_ = os.WriteFile(p, []byte(in.xml), 0o666)
			}
			c := exe(root, cwd, "describe", args)
			r.Impl(1)
			r.Trans(1)
			what := fmt.Sprintf("describe %q (%s)", args, in.name)
			r.Obs(hashStr(in.xml + name))
			if !judgeExit(r, &c, what) {
				return
			}
			if ch := c.changed(); len(ch) > 0 {
				r.Fail("files", "%s changes %q", what, ch)
			}
			if c.rc != 0 {
				if !bad && name != "" {
					r.Fail("refused", "%s: exit %d\n%s%s\n%s", what, c.rc, c.out, c.err, in.xml)
				}
				return
			}
			if bad {
				r.Fail("success", "%s: exit 0\n%s%s", what, c.out, c.err)
				return
			}
			doc, err := xdoc.LoadFromFile(p)
			if err != nil {
				r.Fail("success", "%s: exit 0, but loading gives %v", what, err)
				return
			}
			want := xdoc.Describe(doc).Dump(xdoc.DescribeXML)
			if strings.TrimSpace(c.out) != strings.TrimSpace(want) {
				r.Fail("description", "%s prints\n%s\nexpected\n%s", what, c.out, want)
			}
		},
		Desc: func(i int64) string {
			in, name := mk(f(i))
			return fmt.Sprintf("describe %q\n%s", name, in.xml)
		}}}
}

// ---- image

func plainImage(format string, w, h int) []byte {
	var b bytes.Buffer
	switch format {
	case "png":
		_ = png.Encode(&b, image.NewGray(image.Rect(0, 0, w, h)))
	case "png-rgba":
		_ = png.Encode(&b, image.NewNRGBA(image.Rect(0, 0, w, h)))
	case "jpeg":
		_ = jpeg.Encode(&b, image.NewGray(image.Rect(0, 0, w, h)), nil)
	case "gif":
		_ = gif.Encode(&b, image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.Black, color.White}), nil)
	}
	return b.Bytes()
}

var reNum = regexp.MustCompile(`\d+`)

func imageCmdSpaces(tier string) []core.Space {
	formats := []string{"png", "png-rgba", "jpeg", "gif"}
	sizes := []int{1, 2, 3, 10, 255, 256, 257, 1000}
	names := []string{"a.png", "b.jpg", "sub/x", "%R/c d.gif"}
	radix := []int{len(formats), len(sizes), len(sizes), len(names)}
	run := func(name string, data []byte) (cliRun, string) {
		root, _ := os.MkdirTemp(cliDir, "cli")
		defer os.RemoveAll(root)
		_ = os.MkdirAll(filepath.Join(root, "w/sub"), 0o777)
		_ = os.WriteFile(filepath.Join(root, "w/other.png"), plainImage("png", 77, 78), 0o666)
		arg := strings.ReplaceAll(name, "%R", root)
		p := arg
		if !filepath.IsAbs(p) {
			p = filepath.Join(root, "w", p)
		}
		if data != nil {
			_ = os.WriteFile(p, data, 0o666)
		}
		return exe(root, "w", "image", []string{arg}), arg
	}
	judge := func(r *core.Rec, c *cliRun, arg, format string, w, h int) {
		if ch := c.changed(); len(ch) > 0 {
			r.Fail("files", "image %q changes %q", arg, ch)
		}
		out := strings.ReplaceAll(c.out, strings.Trim(fmt.Sprintf("%q", arg), `"`), "SOURCE")
		if !strings.Contains(out, "SOURCE") {
			out = strings.ReplaceAll(out, arg, "SOURCE")
		}
		nums := reNum.FindAllString(out, -1)
		okN := len(nums) == 2 && nums[0] == fmt.Sprint(w) && nums[1] == fmt.Sprint(h)
		if !strings.Contains(out, "SOURCE") || !strings.Contains(out, `"`+format+`"`) || !okN {
			r.Fail("image", "image %q (%s, %d x %d) prints\n%s", arg, format, w, h, c.out)
		}
	}
	out := []core.Space{{Name: "image", N: core.Prod(radix...),
		Run: func(i int64, r *core.Rec) {
			g := core.Digits(i, radix...)
			fm := formats[g[0]]
			w, h := sizes[g[1]], sizes[g[2]]
			c, arg := run(names[g[3]], plainImage(fm, w, h))
			r.Impl(1)
			r.Trans(1)
			r.Obs(uint64(i))
			what := fmt.Sprintf("image %q (%s)", arg, fm)
			if !judgeExit(r, &c, what) {
				return
			}
			if c.rc != 0 {
				r.Fail("refused", "%s: exit %d\n%s%s", what, c.rc, c.out, c.err)
				return
			}
			judge(r, &c, arg, strings.TrimSuffix(fm, "-rgba"), w, h)
		},
		Desc: func(i int64) string {
			g := core.Digits(i, radix...)
			return fmt.Sprintf("image %s: a %s of %d x %d", names[g[3]], formats[g[0]], sizes[g[1]], sizes[g[2]])
		}}}
	// every prefix
	const maxPrefix = 700
	out = append(out, core.Space{Name: "imageprefix", N: int64(len(formats) * maxPrefix),
		Run: func(i int64, r *core.Rec) {
			fm := formats[i%int64(len(formats))]
			data := plainImage(fm, 12, 34)
			k := int(i) / len(formats)
			if k > len(data) {
				r.Skip()
				return
			}
			c, arg := run("a.png", data[:k:k])
			r.Impl(1)
			r.Trans(1)
			r.Obs(uint64(i))
			what := fmt.Sprintf("image of the first %d bytes of a %s", k, fm)
			if !judgeExit(r, &c, what) {
				return
			}
			if c.rc == 0 {
				if k < 10 {
					r.Fail("success", "%s: exit 0\n%s", what, c.out)
					return
				}
				judge(r, &c, arg, strings.TrimSuffix(fm, "-rgba"), 12, 34)
			} else if k == len(data) {
				r.Fail("refused", "%s: exit %d\n%s", what, c.rc, c.out)
			}
		},
		Desc: func(i int64) string {
			return fmt.Sprintf("image of the first %d bytes of a %s", int(i)/len(formats), formats[i%int64(len(formats))])
		}})
	bad := []struct {
		name string
		data []byte
	}{{"nosuch.png", nil}, {"sub", nil}, {"a.png", []byte{}}, {"a.png", []byte("text")}, {"a.png/x", nil}, {"a.png", []byte("<xml/>")}, {"a.jpg", []byte("\xff\xd8")}, {"a.bmp", []byte("BM1234567890123456789012345678901234567890")}}
	out = append(out, core.Space{Name: "imagebad", N: int64(len(bad)),
		Run: func(i int64, r *core.Rec) {
			c, arg := run(bad[i].name, bad[i].data)
			r.Impl(1)
			r.Trans(1)
			r.Obs(uint64(i))
			what := fmt.Sprintf("image %q with content %q", arg, bad[i].data)
			if !judgeExit(r, &c, what) {
				return
			}
			if c.rc == 0 {
				r.Fail("success", "%s: exit 0\n%s", what, c.out)
			}
		},
		Desc: func(i int64) string { return fmt.Sprintf("image %q with content %q", bad[i].name, bad[i].data) }})
	return out
}

func init() {
	core.Register(&core.Check{ID: "C30", Rule: "the built commands executed in fresh directory trees: xpdf with every input condition x font definition x form and place of input and output; describe with every pair of elements and every form of naming the input; image with every format x size and every prefix of a file: exit status, messages, files written and their content compared with the document rendered by the library",
		Spaces: cliSpaces, Setup: cliSetup})
}
