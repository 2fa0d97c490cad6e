H = 'package main\n\n'
def M(body, imports=()):
    imp = "".join(f'\t"{i}"\n' for i in imports)
    return H + (f"import (\n{imp})\n\n" if imp else "") + "func main() {\n" + body + "\n}\n"

seed("c14-exact-end", "C14",
  "a table whose last row ends exactly at the bottom margin, and something low behind it",
  "Behind a table that fills the page exactly the cursor stays within the last row.",
  [("table.go", '''	p.engine.SetY(y)
}''', '''	if y < page.printableArea.y1 {
		p.engine.SetY(y)
	}
}''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table><tr><td style="height:30">one</td></tr><tr><td style="height:70">two</td></tr></table><box>behind</box>`), "")
	two, b := e.Find("two"), e.Find("behind")
	Check(b.Page > two.Page || b.Y >= 110, "%v %v", two, b)'''))

seed("c07-many-words", "C07",
  "a text of more than two hundred words",
  "Only the first two hundred words of a text are separated, the rest is one word with blanks.",
  [("text.go", '''	return strings.Split(s, " ")''', '''	return strings.SplitN(s, " ", 200)''')],
  M('''	s := ""
	for i := 0; i < 300; i++ {
		s += "ab cd "
	}
	e := Render(Doc("10 10 10 10", "", "", "", "<text>"+s+"</text>"), "")
	for _, o := range e.Texts() {
		Check(o.X+o.W < 92, "%v", o)
	}'''))

seed("c16-column-as-wide-as-the-table", "C16",
  "a column for which the full width of the table, or more, is asked for",
  "A column width that is not smaller than the table is ignored.",
  [("table.go", '''			if cell.ColumnWidth > cws[ic] {''', '''			if cell.ColumnWidth > cws[ic] && cell.ColumnWidth < width {''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<table style="width:40"><tr><td style="column-width:40;border:1,1,1,1">a</td><td>b</td></tr></table>`), "")
	a, b := e.Find("a"), e.Find("b")
	Check(Near(b.X-a.X, 40), "%v %v", a, b)'''))

seed("c17-divided-word-style", "C17",
  "a styled run in block-aligned text with a word that is divided",
  "The part of a divided word before the hyphen is drawn in the style of the text instead of its run.",
  [("text-hyph.go", '''						text: s1,
						sty:  item.sty,''', '''						text: s1,
						sty:  sty,''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<text style="h-align:block;width:20">ab <p style="text-color:#ff0000">cccddd</p> e</text>`), "c1d")
	a, b := e.Find("ccc"), e.Find("ddd")
	Check(a.Y != b.Y, "not divided: %v %v", a, b)
	Check(a.Color == b.Color, "%v %v", a, b)'''))

seed("c19-late-rules", "C19",
  "a style sheet of more than 4 KB with a defect at its end",
  "What is left of a long style sheet without another opening brace is not looked at, nor are rules beyond it.",
  [("style/class.go", '''		i := strings.IndexByte(curr, '{')
		if i < 0 {''', '''		i := strings.IndexByte(curr, '{')
		if i < 0 || pos > 4096 {''')],
  M('''	s := ""
	for i := 0; i < 200; i++ {
		s += fmt.Sprintf("class%d { font-point-size: %d; width: 30 }\\n", i, 5+i%10)
	}
	cs, err := style.DecodeClasses(strings.NewReader(s))
	Must(err)
	Check(len(cs) == 200, "%d classes", len(cs))
	_, err = style.DecodeClasses(strings.NewReader(s + "late { font-point-size: x }"))
	Check(err != nil, "no error")''', ("fmt", "strings", "github.com/mazzegi/xpdf/style")))

seed("c12-blanks-in-braces", "C12",
  "a text with '{ cp }', which is not the page number",
  "'{ cp }' with blanks is replaced by the page number too.",
  [("process.go", '''	return strings.ReplaceAll(s, "{cp}", fmt''', '''	return strings.ReplaceAll(strings.ReplaceAll(s, "{ cp }", "{cp}"), "{cp}", fmt''')],
  M('''	e := Render(Doc("10 10 10 10", "", "", "", `<text>write { cp } as such</text>`), "")
	s := ""
	for _, o := range e.Texts() {
		s += o.S
	}
	Check(strings.Contains(s, "cp"), "%q", s)''', ("strings",)))
