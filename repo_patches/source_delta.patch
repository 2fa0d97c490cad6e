From 9fb0d1d969645e471156ec0f25a7ce7954e3f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 01/30] fix: hyphenation drops a single last letter and cuts
 multi-byte characters

---
 hyphenation/hyphenation.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..9ab4a27 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -63,20 +63,29 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//patterns are matched by runes, while s is sliced by bytes
+	offsets := []int{}
+	for off := range s {
+		offsets = append(offsets, off)
+	}
+	offsets = append(offsets, len(s))
+	runeCnt := len(offsets) - 1
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
+			//neither the part nor the rest may be a single rune
+			if i+1-last > 1 && runeCnt-(i+1) > 1 {
+				part := s[offsets[last]:offsets[i+1]]
 				sl = append(sl, part)
 				last = i + 1
 			}
 		}
 	}
-	part := s[last:]
+	part := s[offsets[last]:]
 	if len(part) > 1 {
 		sl = append(sl, part)
 	}
-- 
2.43.0


From ddc2123d668787cc350dbff0f4343fb76b607ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 02/30] fix: report a failed read of hyphenation patterns
 instead of using part of them

---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..140ec28 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan-patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From 341bc48cfd0bfc84eae0fdfe6b79a2852716a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 03/30] fix: describe the left margin as left margin

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From a285c61d88b98ae824719bb79ee014c69dbfc0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 04/30] fix: describe style differences in a stable order

---
 xdoc/diff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..f14e587 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -45,6 +46,10 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 			}
 			diffs = append(diffs, msiDiffs...)
 		}
+		//map order is random
+		sort.Slice(diffs, func(i, j int) bool {
+			return diffs[i].Path < diffs[j].Path
+		})
 	default:
 		if org != mod {
 			diffs = append(diffs, Diff{
-- 
2.43.0


From ff3ec17c27bb7cc7e6a41a73773935dfcc563484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 05/30] fix: don't print to stdout when reading style sheets

---
 style/class.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/style/class.go b/style/class.go
index 8c255fd..d4f59d7 100644
--- a/style/class.go
+++ b/style/class.go
@@ -2,7 +2,6 @@ package style
 
 import (
 	"bytes"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -94,7 +93,6 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 					Name:    selName,
 					mutator: mut,
 				}
-				fmt.Printf("added selector (%s) to class (%s) \n", selName, className)
 			} else {
 				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
 			}
-- 
2.43.0


From 0effa4b2748822b8738451215b74d4aca805f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 06/30] fix: reject malformed elements in table cells and grids
 instead of dropping them

---
 xdoc/grid.go     | 6 ++++++
 xdoc/registry.go | 5 +++++
 xdoc/table.go    | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index d0b9aa2..d3aabe2 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -63,6 +63,9 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		case xml.StartElement:
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
+				if registry.contains(t.Name.Local) {
+					return err
+				}
 				continue
 			}
 			switch i := i.(type) {
@@ -119,6 +122,9 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		case xml.StartElement:
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
+				if registry.contains(t.Name.Local) {
+					return err
+				}
 				continue
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
diff --git a/xdoc/registry.go b/xdoc/registry.go
index da8391d..660244e 100644
--- a/xdoc/registry.go
+++ b/xdoc/registry.go
@@ -65,6 +65,11 @@ func (r *Registry) RegisterInstruction(prototype Instruction) error {
 	return nil
 }
 
+func (r *Registry) contains(name string) bool {
+	_, ok := r.instructions[name]
+	return ok
+}
+
 func (r *Registry) DecodeInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, error) {
 	proto, contains := r.instructions[start.Name.Local]
 	if !contains {
diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..a75a00b 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -126,6 +126,9 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		case xml.StartElement:
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
+				if registry.contains(t.Name.Local) {
+					return err
+				}
 				continue
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
-- 
2.43.0


From c4fefe0e295e3418ea5167f6b02f6f91afefcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 07/30] fix: don't stretch the line ended by a line break in
 block-aligned text

---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..b3d11cc 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From 004ad80254d24d4a9a6e912dcd5d3bfa3a4c6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 08/30] fix: fonts of text runs don't leak into the elements
 that follow

---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index b3d11cc..6b5398b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -56,7 +56,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -120,14 +120,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 773dd4d..7e24019 100644
--- a/text.go
+++ b/text.go
@@ -54,7 +54,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -103,7 +103,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From a99dea50bf3afc3fa7759dd7ab208de1a4a2b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 09/30] fix: fonts of header, footer and body don't leak into
 each other

---
 process.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/process.go b/process.go
index b523714..e630b20 100644
--- a/process.go
+++ b/process.go
@@ -52,8 +52,12 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		sty := p.currStyles
+		p.currStyles = DefaultStyle()
+		p.resetStyles()
 		p.preventPageBreak = true
 		defer func() {
+			p.currStyles = sty
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.preventPageBreak = false
@@ -62,8 +66,12 @@ func (p *Processor) Process(w io.Writer) error {
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		sty := p.currStyles
+		p.currStyles = DefaultStyle()
+		p.resetStyles()
 		p.preventPageBreak = true
 		defer func() {
+			p.currStyles = sty
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.preventPageBreak = false
-- 
2.43.0


From b66afddf803552efffc7d620fc370777298794fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 10/30] fix: ignore page breaks in header and footer, which
 never ended

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index e630b20..c2d3950 100644
--- a/process.go
+++ b/process.go
@@ -147,6 +147,10 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
+			if p.preventPageBreak {
+				//a page break in header or footer would never end
+				continue
+			}
 			p.engine.AddPage()
 		}
 	}
-- 
2.43.0


From f3ad13b1c78112a07250a29c217d6360a796b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 11/30] fix: draw paragraphs in their own text color

---
 text-hyph.go | 2 ++
 text.go      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 6b5398b..d835e28 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -121,6 +121,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -128,6 +129,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 7e24019..a7cdd2f 100644
--- a/text.go
+++ b/text.go
@@ -104,6 +104,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From c9b027ea992c78efa0c8f431f24affbf515de541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 12/30] fix: align block text in cells by the height of its
 hyphenated lines

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..3fb063e 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-- 
2.43.0


From e28740659d16edb39f12e73c614f972b282f613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 13/30] fix: skip blank text between runs in block-aligned text

---
 text-hyph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index d835e28..d6098da 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -56,6 +56,10 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
+		if isitem.text == "" {
+			continue
+		}
+
 		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
-- 
2.43.0


From c48ae1da7f1eae0e7ce920c692e5d4221ca0ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 14/30] fix: don't repeat header rows that are still to be
 drawn

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3fb063e..f96c721 100644
--- a/table.go
+++ b/table.go
@@ -383,7 +383,7 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
 			p.engine.AddPage()
 			_, y = p.engine.GetXY()
-			if i > 0 && xtab.RepeatHeader > 0 {
+			if i > 0 && i >= xtab.RepeatHeader {
 				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
 					if rhr >= 0 && rhr < len(tab.rows) {
 						renderRow(tab.rows[rhr])
-- 
2.43.0


From dfe238ff1e1a24094252bef6410846cca7244de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 15/30] fix: no empty line before a word that is too wide for a
 line

---
 text-hyph.go | 4 +++-
 text.go      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index d6098da..7f976f2 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -72,7 +72,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			if curr.width+itemWidth >= width {
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
-				if !ok {
+				if !ok && len(curr.items) == 0 {
+					//too wide for any line, must not leave an empty line behind
+				} else if !ok {
 					lines = append(lines, curr)
 					curr = textLine{}
 				} else {
diff --git a/text.go b/text.go
index a7cdd2f..d60cac5 100644
--- a/text.go
+++ b/text.go
@@ -62,7 +62,8 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if curr.width+itemWidth >= width {
+			//a word too wide for any line must not leave an empty line behind
+			if len(curr.items) > 0 && curr.width+itemWidth >= width {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From 5f0ff74f86cde6a3b782790792c150bf9bcccf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 16/30] fix: height of lines with mixed font sizes, and of no
 lines at all

---
 text-hyph.go |  7 +++----
 text.go      | 33 +++++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 7f976f2..b011b35 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -109,17 +109,15 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 }
 
 func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
-	p.engine.ChangeFont(sty.Font)
 	lines := p.textLinesHyphenated(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(lines, sty)
 }
 
 func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) {
 	p.engine.ChangeFont(sty.Font)
 	p.engine.SetTextColor(sty.Text.Values())
 	lines := p.textLinesHyphenated(iss, width, sty)
+	p.engine.ChangeFont(sty.Font)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
 		p.engine.SetX(xLeft)
@@ -141,6 +139,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 				p.engine.SetX(cx + spaceWidth)
 			}
 		}
+		p.changeToLineFont(line)
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
diff --git a/text.go b/text.go
index d60cac5..364f807 100644
--- a/text.go
+++ b/text.go
@@ -82,17 +82,41 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 }
 
 func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
-	p.engine.ChangeFont(sty.Font)
 	lines := p.textLines(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(lines, sty)
+}
+
+func (p *Processor) linesHeight(lines []textLine, sty style.Styles) float64 {
+	var height float64
+	p.engine.ChangeFont(sty.Font)
+	for i, line := range lines {
+		p.changeToLineFont(line)
+		if i < len(lines)-1 {
+			height += p.engine.FontHeight() * sty.Dimension.LineSpacing
+		} else {
+			//no line-spacing, to have no space below the last line
+			height += p.engine.FontHeight()
+		}
+	}
+	return height
+}
+
+// changeToLineFont changes to the largest font of the line, which determines its height
+func (p *Processor) changeToLineFont(line textLine) {
+	var max float64
+	for _, item := range line.items {
+		if item.sty.Font.PointSize > max {
+			max = item.sty.Font.PointSize
+			p.engine.ChangeFont(item.sty.Font)
+		}
+	}
 }
 
 func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.Styles) {
 	p.engine.ChangeFont(sty.Font)
 	p.engine.SetTextColor(sty.Text.Values())
 	lines := p.textLines(iss, width, sty)
+	p.engine.ChangeFont(sty.Font)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
 		switch sty.HAlign {
@@ -108,6 +132,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
+		p.changeToLineFont(line)
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
-- 
2.43.0


From 79b36798480528755f14b10e3572526d34db8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 17/30] fix: divide a word again if its remainder is too wide
 for the next line

---
 text-hyph.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index b011b35..310b6fa 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -12,10 +12,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 	norm := func(s string) string {
 		return text.WhitespaceRectified(p.tr(s))
 	}
-	tryHyphenate := func(s string, currWidth float64) (s1 string, s2 string, success bool) {
+	tryHyphenate := func(parts []string, currWidth float64) (s1 string, rest []string, success bool) {
 		success = false
 		availWidth := width - currWidth
-		parts := p.hyphenator.Hyphenate(s)
 		if len(parts) < 2 {
 			return
 		}
@@ -24,7 +23,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			trialWidth := p.engine.TextWidth(trial)
 			if trialWidth <= availWidth {
 				s1 = trial
-				s2 = strings.Join(parts[i+1:], "")
+				rest = parts[i+1:]
 				success = true
 				return
 			}
@@ -69,15 +68,24 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
 			pureItemWidth := p.engine.TextWidth(item.text)
-			if curr.width+itemWidth >= width {
+			var parts []string
+			//what is left of a word may again be too wide for the next line
+			for curr.width+itemWidth >= width {
 				//try hyphenation
-				s1, s2, ok := tryHyphenate(item.text, curr.width)
+				if parts == nil {
+					parts = p.hyphenator.Hyphenate(item.text)
+				}
+				s1, rest, ok := tryHyphenate(parts, curr.width)
 				if !ok && len(curr.items) == 0 {
 					//too wide for any line, must not leave an empty line behind
+					break
 				} else if !ok {
 					lines = append(lines, curr)
 					curr = textLine{}
 				} else {
+					if len(curr.items) == 0 {
+						s1 = strings.Trim(s1, " ")
+					}
 					curr.items = append(curr.items, &textItem{
 						text: s1,
 						sty:  item.sty,
@@ -87,9 +95,10 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 					lines = append(lines, curr)
 
 					curr = textLine{}
-					item.text = s2
-					itemWidth = p.engine.TextWidth(s2)
-					pureItemWidth = p.engine.TextWidth(strings.Trim(s2, " "))
+					parts = rest
+					item.text = strings.Join(rest, "")
+					itemWidth = p.engine.TextWidth(item.text)
+					pureItemWidth = p.engine.TextWidth(item.text)
 				}
 			}
 
-- 
2.43.0


From 53303f7fae4cc5e480f307c054640fa0728b0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 18/30] fix: consider padding and offset when a box is moved to
 the next page

---
 process.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/process.go b/process.go
index c2d3950..a80c12d 100644
--- a/process.go
+++ b/process.go
@@ -203,6 +203,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
+	//the frame includes the padding
+	effHeight -= sty.Padding.Top + sty.Padding.Bottom + sty.OffsetY
 	if !p.preventPageBreak && y0+height >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
-- 
2.43.0


From 4689181b59e4d474a7c93b01beeb86416585f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 19/30] fix: box height with a page number that gets wider on
 the next page

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index a80c12d..1cde7a5 100644
--- a/process.go
+++ b/process.go
@@ -208,6 +208,10 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	if !p.preventPageBreak && y0+height >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
+		if sty.Dimension.Height <= 0 && len(box.ISS) > 0 {
+			//the page number may be wider on the new page
+			height = p.textHeightFnc(sty)(box.ISS, width, sty)
+		}
 	}
 
 	x0 += sty.Dimension.OffsetX
-- 
2.43.0


From 56ad937f0b478ce5544324dfa6ce89673ecf7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 20/30] fix: an empty box must not indent what follows it

---
 process.go | 2 ++
 table.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/process.go b/process.go
index 1cde7a5..af44914 100644
--- a/process.go
+++ b/process.go
@@ -225,6 +225,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	if len(box.ISS) > 0 {
 		p.writeTextFnc(sty)(box.ISS, width, sty)
 	}
+	//return to the left margin, also without any text
+	p.engine.LineFeed(0)
 	p.engine.SetY(y1)
 }
 
diff --git a/table.go b/table.go
index f96c721..1d02d90 100644
--- a/table.go
+++ b/table.go
@@ -418,6 +418,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	p.engine.SetX(paddedPa.x0)
 	for _, is := range cell.iss {
+		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
 			height := p.textBoxHeight(is, paddedPa)
-- 
2.43.0


From 46e7039c196dbeb07ae51922ef08dfafbcf04394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 21/30] fix: an empty box is as high as a line of its own font

---
 process.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/process.go b/process.go
index af44914..6c11de2 100644
--- a/process.go
+++ b/process.go
@@ -174,6 +174,7 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	var height float64
 	if sty.Dimension.Height <= 0 {
 		if len(box.ISS) == 0 {
+			p.engine.ChangeFont(sty.Font)
 			height = p.engine.FontHeight()
 		} else {
 			height = p.textHeightFnc(sty)(box.ISS, width, sty)
@@ -194,6 +195,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 		if len(box.ISS) > 0 {
 			height = p.textHeightFnc(sty)(box.ISS, width, sty)
 		} else {
+			p.engine.ChangeFont(sty.Font)
 			height = p.engine.FontHeight()
 		}
 	} else {
-- 
2.43.0


From 400954f128d2806886db4538516e2e0073a381b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 22/30] fix: cells spanning rows and columns, and row spans
 reaching past each other

---
 table.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/table.go b/table.go
index 1d02d90..36a082b 100644
--- a/table.go
+++ b/table.go
@@ -191,17 +191,21 @@ func (t *table) processColumnSpans() {
 }
 
 func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
-		for ic, cell := range row.cells {
-			if cell.rowSpan <= 1 {
+	//rows may be appended while iterating
+	for ir := 0; ir < len(t.rows); ir++ {
+		for ic, cell := range t.rows[ir].cells {
+			if cell.rowSpan <= 1 || cell.zero {
 				continue
 			}
-			if cell.spannedBy != nil || cell.zero {
-				continue
+			spanning := cell
+			if cell.spannedBy != nil {
+				spanning = cell.spannedBy
 			}
-			//insert spanned cell in following rows
-			for n := 0; n < cell.rowSpan-1; n++ {
-				spannedRowIdx := ir + 1 + n
+			//insert spanned cell in the following row, which passes it on to the next one. So a row
+			//is complete up to each column, where cells are inserted - and the columns to the right
+			//of a spanning cell are passed on as well.
+			{
+				spannedRowIdx := ir + 1
 
 				var spannedRow *tableRow
 				if spannedRowIdx >= len(t.rows) {
@@ -217,9 +221,12 @@ func (t *table) processRowSpans() {
 				}
 
 				newCell := &tableCell{
-					spannedBy: cell,
+					spannedBy: spanning,
+				}
+				newCell.rowSpan = cell.rowSpan - 1
+				if n := len(spanning.spansRows); cell == spanning || n > 0 && spanning.spansRows[n-1] == cell {
+					spanning.spansRows = append(spanning.spansRows, newCell)
 				}
-				cell.spansRows = append(cell.spansRows, newCell)
 
 				newCells := make([]*tableCell, ic)
 				copy(newCells, spannedRow.cells[:ic])
-- 
2.43.0


From 9a4ea0b27362605dd2bffd6d87be1329efa86a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 23/30] fix: characters beyond U+FFFF crash the engine with
 registered fonts

---
 engine/fpdf.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index c24e082..d7c9a75 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,8 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"strings"
+	"unicode"
 
 	"github.com/jung-kurt/gofpdf/v2"
 	"github.com/mazzegi/xpdf/font"
@@ -80,10 +82,21 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 
 	//TODO: make code-page for unicode translator an option (per font?)
 	//e.translateUnicode = e.pdf.UnicodeTranslatorFromDescriptor("")
-	e.translateUnicode = func(s string) string { return s }
+	e.translateUnicode = replaceUnsupported
 	return e, nil
 }
 
+// replaceUnsupported replaces characters beyond the basic multilingual plane, which gofpdf cannot
+// handle, by the replacement character
+func replaceUnsupported(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r > 0xFFFF {
+			return unicode.ReplacementChar
+		}
+		return r
+	}, s)
+}
+
 func (e *FPDF) initFonts(fonts *font.Registry) error {
 	if fonts.MonoFont() != "" {
 		e.monoFont = fonts.MonoFont()
-- 
2.43.0


From ee4c34d7c5bb6d7ff0570f5db66e4531079cee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 24/30] fix: values of border, padding and margin with more
 than four numbers are rejected

---
 style/box.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/style/box.go b/style/box.go
index 22bf403..470fa29 100644
--- a/style/box.go
+++ b/style/box.go
@@ -35,25 +35,37 @@ type Box struct {
 }
 
 func (b *Border) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan border value (%s)", v)
 	}
+	if buf.Len() > 0 {
+		return errors.Errorf("invalid border value (%s)", v)
+	}
 	return nil
 }
 
 func (b *Padding) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan padding value (%s)", v)
 	}
+	if buf.Len() > 0 {
+		return errors.Errorf("invalid padding value (%s)", v)
+	}
 	return nil
 }
 
 func (b *Margin) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan margin value (%s)", v)
 	}
+	if buf.Len() > 0 {
+		return errors.Errorf("invalid margin value (%s)", v)
+	}
 	return nil
 }
-- 
2.43.0


From 322e8aca808a0764acc0b4af6a1d0b5650a909ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 25/30] fix: align boxes in table cells vertically by their own
 height

---
 process.go | 2 +-
 table.go   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/process.go b/process.go
index 6c11de2..0393355 100644
--- a/process.go
+++ b/process.go
@@ -182,7 +182,7 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	} else {
 		height = sty.Dimension.Height
 	}
-	return height
+	return height + sty.Padding.Top + sty.Padding.Bottom
 }
 
 func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
diff --git a/table.go b/table.go
index 36a082b..aedcf1d 100644
--- a/table.go
+++ b/table.go
@@ -428,12 +428,12 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			height := p.textBoxHeight(is, paddedPa)
+			boxMargin := paddedPa.Height() - p.textBoxHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + height/2)
+				p.engine.SetY(paddedPa.y0 + boxMargin/2)
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + height)
+				p.engine.SetY(paddedPa.y0 + boxMargin)
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From f5ddc2da38e0f5e39038774efd63ac64ef42530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 26/30] fix: boxes in table cells don't break the page

---
 table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table.go b/table.go
index aedcf1d..dbfefff 100644
--- a/table.go
+++ b/table.go
@@ -437,7 +437,11 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
+			//a page break within a row would tear it apart
+			prevent := p.preventPageBreak
+			p.preventPageBreak = true
 			p.renderTextBox(is, paddedPa)
+			p.preventPageBreak = prevent
 		case *xdoc.Image:
 			p.engine.SetY(paddedPa.y0)
 			p.renderImage(is, paddedPa)
-- 
2.43.0


From 70413a590b5238daf34a94cc9a40fccb0470602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 27/30] fix: contents higher than their cell begin at its top

---
 table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index dbfefff..217dfa2 100644
--- a/table.go
+++ b/table.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -409,7 +410,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
 		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
-		textMargin := paddedPa.Height() - textHeight
+		textMargin := math.Max(0, paddedPa.Height()-textHeight)
 		switch cell.VAlign {
 		case style.VAlignMiddle:
 			p.engine.SetY(paddedPa.y0 + textMargin/2)
@@ -428,7 +429,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
-			boxMargin := paddedPa.Height() - p.textBoxHeight(is, paddedPa)
+			boxMargin := math.Max(0, paddedPa.Height()-p.textBoxHeight(is, paddedPa))
 			switch cell.VAlign {
 			case style.VAlignMiddle:
 				p.engine.SetY(paddedPa.y0 + boxMargin/2)
-- 
2.43.0


From 968ec6b7eb5edf7f4da6339223b9dad364c6d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 28/30] fix: embed the digits of the page count in registered
 fonts

---
 engine/fpdf.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index d7c9a75..d7d9e3d 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -60,6 +60,7 @@ func fpdfFontStyle(fnt style.Font) string {
 type FPDF struct {
 	pdf              *gofpdf.Fpdf
 	monoFont         string
+	pageCountAlias   string
 	translateUnicode func(s string) string
 }
 
@@ -136,6 +137,7 @@ func (e *FPDF) WritePDF(w io.Writer) error {
 }
 
 func (e *FPDF) SetPageCountAlias(alias string) {
+	e.pageCountAlias = alias
 	e.pdf.AliasNbPages(alias)
 }
 
@@ -219,10 +221,22 @@ func (e *FPDF) TextWidth(s string) float64 {
 }
 
 func (e *FPDF) WriteText(s string) {
+	if e.pageCountAlias != "" && strings.Contains(s, e.pageCountAlias) {
+		e.useDigits()
+	}
 	_, heightMM := e.pdf.GetFontSize()
 	e.pdf.Write(heightMM, e.translateUnicode(s))
 }
 
+// useDigits marks the digits as used in the current font, so that they are embedded with it. The
+// page count replaces its alias after the last text has been written, and only characters which
+// have been written before are embedded. The template is just a scratch page sharing the fonts.
+func (e *FPDF) useDigits() {
+	e.pdf.CreateTemplate(func(tpl *gofpdf.Tpl) {
+		tpl.Text(0, 0, "0123456789")
+	})
+}
+
 //drawing
 func (e *FPDF) SetLineWidth(w float64) {
 	e.pdf.SetLineWidth(w)
-- 
2.43.0


From d450f32f1f7a7cbdcd3347b7da2ce00ce16eb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:28 +0000
Subject: [PATCH 29/30] fix: row heights follow the page number of a new page

---
 table.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 217dfa2..877a722 100644
--- a/table.go
+++ b/table.go
@@ -112,6 +112,27 @@ func (c *tableCell) dim() (width, height float64) {
 	return
 }
 
+// containsText tells if s is part of the text of any cell
+func (t *table) containsText(s string) bool {
+	for _, row := range t.rows {
+		for _, cell := range row.cells {
+			for _, is := range cell.iss {
+				switch is := is.(type) {
+				case *xdoc.TextBlock:
+					if strings.Contains(is.Text, s) {
+						return true
+					}
+				case *xdoc.Paragraph:
+					if strings.Contains(is.Text, s) {
+						return true
+					}
+				}
+			}
+		}
+	}
+	return false
+}
+
 //
 
 func (t *table) assignColumnWidths(width float64) {
@@ -373,6 +394,15 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 		p.engine.SetX(x0)
 	}
 
+	newPage := func() {
+		p.engine.AddPage()
+		_, y = p.engine.GetXY()
+		if tab.containsText("{cp}") {
+			//the page number may be wider on the new page
+			p.assignHeights(tab)
+		}
+	}
+
 	//check if we have to start a new page for the entire table
 	if !p.preventPageBreak {
 		var headHeight float64
@@ -382,15 +412,13 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 			}
 		}
 		if y+headHeight > page.printableArea.y1 {
-			p.engine.AddPage()
-			_, y = p.engine.GetXY()
+			newPage()
 		}
 	}
 
 	for i, row := range tab.rows {
 		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
-			p.engine.AddPage()
-			_, y = p.engine.GetXY()
+			newPage()
 			if i > 0 && i >= xtab.RepeatHeader {
 				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
 					if rhr >= 0 && rhr < len(tab.rows) {
-- 
2.43.0


From 9143e4e5b52aacfe4407dbba06e9e33a7dff3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:29 +0000
Subject: [PATCH 30/30] fix: a line which doesn't fit on the page starts the
 next one as a whole

---
 text-hyph.go |  5 +++++
 text.go      | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 310b6fa..5c48296 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -126,9 +126,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 	p.engine.ChangeFont(sty.Font)
 	p.engine.SetTextColor(sty.Text.Values())
 	lines := p.textLinesHyphenated(iss, width, sty)
+	if len(lines) > 0 && p.pageBreakBefore(lines[0]) {
+		//the page number is another one
+		lines = p.textLinesHyphenated(iss, width, sty)
+	}
 	p.engine.ChangeFont(sty.Font)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
+		p.pageBreakBefore(line)
 		p.engine.SetX(xLeft)
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
diff --git a/text.go b/text.go
index 364f807..1e6a78b 100644
--- a/text.go
+++ b/text.go
@@ -112,13 +112,34 @@ func (p *Processor) changeToLineFont(line textLine) {
 	}
 }
 
+// pageBreakBefore starts a new page, if the line doesn't fit on the current one
+func (p *Processor) pageBreakBefore(line textLine) bool {
+	if p.preventPageBreak || len(line.items) == 0 {
+		return false
+	}
+	p.changeToLineFont(line)
+	x, y := p.engine.GetXY()
+	pa := p.page().printableArea
+	if y <= pa.y0 || y+p.engine.FontHeight() <= pa.y1 {
+		return false
+	}
+	p.engine.AddPage()
+	p.engine.SetX(x)
+	return true
+}
+
 func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.Styles) {
 	p.engine.ChangeFont(sty.Font)
 	p.engine.SetTextColor(sty.Text.Values())
 	lines := p.textLines(iss, width, sty)
+	if len(lines) > 0 && p.pageBreakBefore(lines[0]) {
+		//the page number is another one
+		lines = p.textLines(iss, width, sty)
+	}
 	p.engine.ChangeFont(sty.Font)
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
+		p.pageBreakBefore(line)
 		switch sty.HAlign {
 		case style.HAlignLeft:
 			p.engine.SetX(xLeft)
-- 
2.43.0

