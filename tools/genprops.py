#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The dicts below are the source of truth."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Hyphenation loses and invents nothing",
  "Splitting any word for hyphenation yields parts that, put together again, are exactly that word - letter case, accented and non-Latin letters, digits and punctuation included. Every part is valid text on its own (no character is cut in two) and, when a word is split at all, every part has at least two characters.",
  ["inputs", "configurations"], "every word, every pattern set (built-in English and Latin, and any loaded set)",
  "The hyphenation tests only log their result and never compare it; they try two words, ASCII only, and none that breaks before its last letter.",
  ["hyphenation/hyphenation.go", "hyphenation/pattern.go"],
  [("Hyphenator.Hyphenate cuts the word at odd weights", "hyphenation/hyphenation.go")],
  observe=["return value of Hyphenator.Hyphenate", "text of block-aligned paragraphs"])

p("C02", "Hyphenation break points are those the patterns prescribe",
  "A word is split exactly at the points Liang's algorithm gives for the loaded patterns: patterns match anywhere in the lower-cased word with a dot standing for each word end, each gap takes the highest weight any matching pattern assigns to it, and odd weights permit a break. Going from left to right a permitted break is left out only if the part before it or the rest after it would have fewer than two characters. Words of under 3 or over 100 bytes and strings containing blanks are returned whole.",
  ["inputs", "configurations"], "every word over every pattern set",
  "No test states a single expected break; overlapping patterns, dots, and competing weights are only reachable with many word/pattern combinations.",
  ["hyphenation/hyphenation.go", "hyphenation/pattern.go", "hyphenation/en-us.go", "hyphenation/latin.go"],
  [("sub-word lookup and maximum of weights", "hyphenation/hyphenation.go"), ("parsePattern", "hyphenation/pattern.go")],
  observe=["return value of Hyphenator.Hyphenate"])

p("C03", "Loading hyphenation patterns is complete or reports an error",
  "Loading a pattern source takes every non-blank line of it into account, however its reader delivers the bytes (any chunk sizes, LF or CRLF, with or without a final newline, surrounding blanks); of two lines with the same letters the later counts. If the source cannot be read to its end, an error is returned and no hyphenator built from part of the patterns.",
  ["inputs", "fault_sequences"], "every pattern source, every read chunking, a read failure after every byte",
  "The tests parse two correct lines; no test loads from a reader that fails or delivers short reads.",
  ["hyphenation/pattern.go", "hyphenation/hyphenation.go"],
  [("parsePatterns scans lines", "hyphenation/pattern.go"), ("Load / LoadFromFile", "hyphenation/hyphenation.go")],
  observe=["hyphenation.Load", "hyphenation.LoadFromFile"])

p("C04", "Whitespace normalisation is canonical and changes nothing else",
  "A whitespace-rectified text has no CR, LF or TAB, no leading, trailing or doubled blank and no blank beside a backslash, and rectifying it again changes nothing. All its other characters are those of the input, unchanged and in order, and two words separated by whitespace in the input (not beside a backslash) stay separated, others stay joined. Removing twins leaves no doubled twin and only ever collapses repeated twins.",
  ["inputs"], "every string",
  "Six hand-picked strings are tested; the mutual influence of trimming, collapsing and backslash handling depends on their order and on all combinations.",
  ["text/text.go"], [("WhitespaceRectified", "text/text.go"), ("RemoveTwins", "text/text.go")],
  observe=["text.WhitespaceRectified", "text.RemoveTwins"])

p("C05", "Left, centred and right-aligned text is written completely and in order",
  "Every word (as separated after whitespace normalisation, with all its visible characters) of a text, box or table cell that is left-, centre- or right-aligned is drawn exactly once, unaltered and in document order, whatever the available width. Words follow each other separated by one blank or by a line change; lines change only between two words - only a word wider than its whole line may run on - and at every line-break element.",
  ["inputs", "configurations"], "all contents (words, runs, line breaks, whitespace), widths, alignments and containers",
  "No test renders text; which word meets the line end depends on all preceding words and the width.",
  ["text.go", "process.go", "table.go", "text/text.go"],
  [("textLines", "text.go"), ("writeText", "text.go")],
  observe=["text drawn on the engine", "text in the PDF"])

p("C06", "Block-aligned text is written completely, hyphens only at line ends",
  "Every word of a block-aligned text, box or cell is drawn exactly once and in document order; a word is divided only at one of its hyphenation points, only at a line end, and there it is followed by exactly one added hyphen while its remainder starts the next line. Joining divided words and dropping the added hyphens gives back exactly the words of the document, and every line-break element ends its line.",
  ["inputs", "configurations"], "all contents, widths, pattern sets and containers",
  "No test renders block-aligned text; a loss shows only for words whose division meets a line end.",
  ["text-hyph.go", "hyphenation/hyphenation.go", "process.go", "table.go"],
  [("textLinesHyphenated", "text-hyph.go"), ("writeTextHyphenated", "text-hyph.go")],
  observe=["text drawn on the engine", "text in the PDF"])

p("C07", "Lines fit the available width and break only when they must",
  "No line of a text is wider than the width available to it, unless it consists of a single piece (a word, or a remainder of one whose shortest hyphenated part is still too wide) that is too wide by itself. A line ends early only if the next word - in block-aligned text the shortest hyphenated part, with its hyphen, of the next word or of the rest of a word divided here - does not fit behind it (up to one blank), or at a line-break element. There are no empty lines except those that line-break elements ask for.",
  ["inputs", "configurations"], "all contents, fonts of runs, widths, alignments",
  "No test breaks lines at all.",
  ["text.go", "text-hyph.go", "process.go", "dim.go"],
  [("textLines", "text.go"), ("textLinesHyphenated", "text-hyph.go"), ("EffectiveWidth", "dim.go")],
  observe=["positions and extents of text drawn on the engine"])

p("C08", "Horizontal alignment places every line as asked",
  "Left-aligned lines start at the left edge of the area available to the text, right-aligned lines end at its right edge and centred lines have equal space on both sides (right and centred up to one blank). In block-aligned text every line of several words starts at the left edge and ends at the right edge with equal gaps between its words, except a line that ends a paragraph - the last one and every line ended by a line-break element - which is set with normal blanks from the left edge. This holds for every text, box or cell whose area lies within the printable area.",
  ["inputs", "configurations"], "all contents, widths, alignments and containers",
  "No test looks at positions; the paragraph-end rule depends on the line structure of the whole text.",
  ["text.go", "text-hyph.go"],
  [("writeText", "text.go"), ("writeTextHyphenated", "text-hyph.go")],
  observe=["positions of text drawn on the engine"])

p("C09", "A box encloses its text and pushes what follows below it",
  "A box is as wide as asked, limited to the printable width; it is as high as asked, or else exactly as high as its lines need, plus its padding. All text of a box without a given height lies inside its frame, inset by its padding (right-aligned and centred lines up to one blank); a box without text is one line high. The next element starts at the box's lower edge, at the left margin unless positioned otherwise.",
  ["inputs", "configurations"], "all contents, paddings, widths, heights, offsets, line spacings",
  "No test renders a box; measured and drawn line counts must agree for every content.",
  ["process.go", "text.go", "text-hyph.go", "dim.go"],
  [("renderTextBox", "process.go"), ("textHeight / textHeightHyphenated", "text.go, text-hyph.go")],
  observe=["rectangles and text drawn on the engine"])

p("C10", "Page breaks keep boxes whole and every line on the page",
  "A box that fits on an empty page is never split by a page boundary nor drawn into the bottom margin; a text that runs over the page end continues at the top of the next page, with no line in the bottom margin, none lost and the order kept. A new page is started only by a new-page element or because the next box, line or row no longer fits.",
  ["inputs", "histories"], "all sequences of boxes, texts, line feeds, positions and page breaks, at every fill level of the page",
  "No test produces more than zero pages; the break decision depends on the accumulated cursor position.",
  ["process.go", "text.go", "engine/fpdf.go"],
  [("page-break test in renderTextBox", "process.go"), ("automatic page break of the engine", "engine/fpdf.go")],
  observe=["page and position of everything drawn"])

p("C11", "Header and footer appear once per page and do not disturb the body",
  "Every page has the header's content once and the footer's content once, in the same fonts and colours on every page, however the page came about (first page, new-page element, overflowing box, text or table). The body is drawn exactly - same pages, positions, fonts, colours - as it would be if header and footer were empty. Header and footer never cause page breaks, whatever they contain.",
  ["inputs", "histories"], "all headers, footers and bodies, all causes of page change at all points",
  "No test has a header or a page change.",
  ["process.go", "engine/fpdf.go"],
  [("OnHeader / OnFooter callbacks", "process.go"), ("preventPageBreak", "process.go")],
  state=[("preventPageBreak", "set while header or footer is drawn", "process.go"), ("currStyles", "style state shared between body and header/footer", "process.go")],
  observe=["everything drawn, by page"])

p("C12", "Page numbers are right wherever they are printed",
  "In header, footer, boxes and table cells '{cp}' is printed as the number of the page that shows it (in a text: the page it starts on), counting from 1, and '{np}' is printed as the total number of pages of the finished document, with every font. All other text is left as it is.",
  ["inputs", "histories"], "all places, page counts and causes of page change",
  "No test renders pages; the number is only wrong after specific page changes or beyond 9 pages.",
  ["process.go", "text.go", "text-hyph.go", "engine/fpdf.go"],
  [("tr", "process.go"), ("SetPageCountAlias", "process.go, engine/fpdf.go")],
  observe=["text in the PDF"])

p("C13", "Spanned table cells tile the table",
  "For every table whose column and row spans describe a gapless, overlap-free layout (cells placed as in HTML), each cell is drawn exactly once, over exactly the columns and rows it covers: cells of the same column share left and right edges, cells of the same row share top and bottom edges, and no two cells overlap. For any other table (rows of unequal length, spans reaching over the edge or into each other) every cell is still drawn exactly once, without failure.",
  ["inputs"], "all tables: numbers of rows and cells, column spans and row spans",
  "TestTableSpans only logs its results; it has no table with a cell spanning both ways over correctly reduced rows nor with interlocking row spans.",
  ["table.go", "xdoc/table.go"],
  [("processColumnSpans, processRowSpans, normalize", "table.go"), ("tableCell.dim", "table.go")],
  observe=["rectangles and text drawn on the engine"])

p("C14", "Tables are paginated by rows, repeating the header rows",
  "Every row of a table is drawn exactly once and in order (repeated header rows aside); a row moves to a new page exactly when it - together with the rows its row-spanning cells cover - does not fit on the current one, and no row that fits on a page reaches into the bottom margin; a row is never torn apart, its cells and the boxes in them (if no higher than the row) are all on one page. Each page on which a table is continued starts with its first 'repeatheader' rows again, drawn as on the first page, and a table is not begun on a page that cannot take these rows plus one (for header rows without row spans). What follows a table starts directly below it.",
  ["inputs", "histories"], "all row heights, row spans, repeatheader values and start positions",
  "No test renders a table over a page end.",
  ["table.go", "xdoc/table.go"],
  [("renderTable", "table.go"), ("tableRow.maxCellHeight", "table.go")],
  observe=["page and position of everything drawn"])

p("C15", "Cells are high enough for their text and align it vertically",
  "Every row is at least as high as each of its cells needs - the height given for the cell, or else its text plus its padding, so the text lies within the cell, inset by its padding - and no higher than the highest need if no cell spans rows there; a cell spanning rows gets the room it needs from all of them together. Within its cell, text - and likewise each box in the cell, which is as wide as asked, limited to the inside of the cell - stands at the top, in the middle or at the bottom as the style says, for every horizontal alignment; text or a box higher than a cell of given height begins at its top.",
  ["inputs", "configurations"], "all cell contents, alignments, paddings, heights and spans",
  "No test lays out a table with text.",
  ["table.go", "text.go", "text-hyph.go"],
  [("assignCellMinHeight / assignHeights", "table.go"), ("renderCell", "table.go")],
  observe=["rectangles and text drawn on the engine"])

p("C16", "Table columns have the widths asked for and fill the table",
  "A column with a given width (the largest one given in any of its cells) has that width in every row; the columns without one share the rest of the table width equally. The table width is the width asked for, limited to the printable width, so as long as the given widths leave room the columns exactly fill it, side by side without gaps.",
  ["inputs", "configurations"], "all combinations of given and missing column widths, table widths, row lengths and spans",
  "No test computes widths.",
  ["table.go", "dim.go", "style/table.go"],
  [("assignColumnWidths", "table.go"), ("EffectiveWidth", "dim.go")],
  observe=["rectangles drawn on the engine"])

p("C17", "Styles cascade: parent, classes in order, own style last",
  "The value of every style attribute of an element is the one set last in the order: parent (document default or current font, then table, row, cell; text or box for its runs), the element's classes in the order named, the element's own style attribute; attributes nobody sets are inherited unchanged. In tables without spanning cells and of at least two rows, a class's variant for 'first-row', 'last-row', 'first-cell' or 'last-cell' takes the place of that class for exactly the rows and cells in these positions. What is drawn (font, colours, borders, sizes) is in that value.",
  ["inputs", "configurations"], "all attributes, elements, class lists, selectors and nestings",
  "Tests apply one or two classes to a bare style record; no nesting, no precedence between class and own style, no element.",
  ["style/class.go", "style/decode.go", "xdoc/style.go", "table.go", "process.go", "text.go", "default.go"],
  [("Styled.MutatedStyles / MutatedStylesWithSelector", "xdoc/style.go"), ("Classes.Mutate", "style/class.go"), ("transformTable", "table.go")],
  observe=["MutatedStyles", "everything drawn"])

p("C18", "A style declaration sets exactly its own attributes",
  "Decoding a declaration list changes exactly the attributes it names, to exactly the values given, whatever the order of the declarations (of two for the same attribute the last counts), however they are spaced, and however often and to however many styles it is applied; unknown attributes are ignored. A declaration that is not 'key: value' or whose value is not of the attribute's type (number, four comma-separated numbers, six-digit hex colour) is reported as an error.",
  ["inputs"], "all declaration lists: keys, values, orders, spacing; every iteration order of the declarations",
  "Three phrases are tested; dependence on declaration order would show only in some of the randomised iteration orders.",
  ["style/decode.go", "style/box.go", "style/color.go", "style/font.go", "style/dim.go", "style/align.go", "style/table.go", "style/draw.go"],
  [("DecodeMutator / makeMutateFnc", "style/decode.go"), ("UnmarshalStyle", "style/box.go, style/color.go")],
  observe=["style.DecodeMutator, Mutator.Mutate"])

p("C19", "Style sheets are read completely or rejected",
  "Reading a style sheet yields exactly its classes and selector variants, each with exactly its declarations, whatever the line breaks and spacing; a later class of the same name replaces the earlier one. A rule without name, an unclosed rule, a variant of a class not defined before it, or a malformed declaration is an error, never silently skipped. Applying a variant affects only the class it belongs to.",
  ["inputs"], "all sheets over the rule syntax, well-formed and not",
  "One malformed and three well-formed sheets are tested.",
  ["style/class.go", "style/decode.go"],
  [("DecodeClasses", "style/class.go"), ("MutateWithSelector", "style/class.go")],
  observe=["style.DecodeClasses, Classes.Mutate, Classes.MutateWithSelector"])

p("C20", "Styling one element never changes how another is drawn",
  "An element (text, box, table, image) is drawn with the same fonts, sizes, colours, borders and fills whichever elements precede it, however those and their runs and cells are styled; only the fonts set by font elements (not their other attributes) carry over, to exactly the elements of their section that follow. Rendering does not alter the document's own styles or classes.",
  ["inputs", "histories"], "all sequences of styled and plain elements",
  "No test renders two elements.",
  ["process.go", "text.go", "text-hyph.go", "table.go", "xdoc/style.go"],
  [("resetStyles", "process.go"), ("changeFont", "process.go")],
  state=[("currStyles", "styles every element starts from", "process.go")],
  observe=["everything drawn"])

p("C21", "A document is loaded exactly as written",
  "Loading a document yields its meta data, page setup and, for header, footer and body, exactly the elements written there: same kinds, same order, same nesting, every attribute and every character of text, at any depth and independent of indentation, comments and how the reader delivers the bytes. Table cells keep their spans, grids their rows, areas (up to trailing line breaks) and parts.",
  ["inputs"], "all element trees over the document vocabulary, all read chunkings",
  "No test loads a document.",
  ["xdoc/doc.go", "xdoc/instructions.go", "xdoc/table.go", "xdoc/grid.go", "xdoc/registry.go"],
  [("Instructions.UnmarshalXML and the table/grid decoders", "xdoc/instructions.go, xdoc/table.go, xdoc/grid.go"), ("Registry.DecodeInstruction", "xdoc/registry.go")],
  observe=["xdoc.Load"])

p("C22", "Broken documents are rejected, never half-loaded",
  "A document that is cut off anywhere, has mismatched tags, an element of unknown name in header, footer, body, text, box, table or row, a non-numeric number (attribute or page margin), an out-of-range repeatheader, a grid without rows, with unequal rows or with a part for no area of it, or a malformed style anywhere (style sheet or element that carries styles, at any depth) makes loading fail with an error; so does a reader that fails before the end. Loading always terminates without crashing.",
  ["inputs", "fault_sequences"], "all documents, all cut points, all single defects at all places, all read failures",
  "No test loads a document, broken or not.",
  ["xdoc/doc.go", "xdoc/instructions.go", "xdoc/table.go", "xdoc/grid.go", "xdoc/style.go", "xdoc/registry.go"],
  [("error propagation in the decoders", "xdoc/instructions.go, xdoc/table.go, xdoc/grid.go"), ("DecodeAttrs", "xdoc/style.go, xdoc/table.go")],
  observe=["error result of xdoc.Load"])

p("C23", "A description lists the document as it is, reproducibly",
  "Describing a document lists its meta data, its page setup with each margin's own value, and every element of header, footer and body once, in document order and nesting, with its own value and exactly the style attributes its classes and style change. Describing the same document always gives the same output, in JSON and XML, and does not alter the document.",
  ["inputs"], "all documents; every iteration order of unordered data",
  "TestDiff only logs; nothing tests the description of a document, and order effects appear only in some runs.",
  ["xdoc/describe.go", "xdoc/diff.go"],
  [("Describe", "xdoc/describe.go"), ("interfaceDiff", "xdoc/diff.go")],
  observe=["xdoc.Describe, Description.Dump"])

p("C24", "Boxes and cells are painted with the borders and colours asked for",
  "For every box and cell the background is filled over its area and a line is drawn along exactly those sides whose border is set, in the element's colour and line width, and along no other; background first, then border, then text, so nothing hides the text. Filling and lines stay on the element's rectangle (up to the line width).",
  ["inputs", "configurations"], "all border combinations, colours, line widths, elements and contents",
  "No test draws.",
  ["draw.go", "process.go", "table.go", "engine/fpdf.go"],
  [("drawBox", "draw.go")],
  observe=["rectangles and lines drawn, PDF content"])

p("C25", "Images keep their proportions and fit their area",
  "An image is drawn at the cursor plus its offset, at its natural size (96 dpi), or at the width and/or height asked for, a missing one following from the image's proportions; if that is larger than the area available (printable area of the page, or padded area of a cell of given height, less the offset) it is scaled down, proportions kept, to fit. A missing image file leaves the rest of the document unaffected, a truncated or unsupported one is left out or reported; PNG, JPEG and GIF sizes are read correctly.",
  ["inputs", "configurations"], "all pixel sizes, formats, requested sizes, offsets and areas",
  "No test uses an image.",
  ["image.go", "process.go", "table.go", "engine/fpdf.go"],
  [("renderImage", "image.go"), ("DescribeImage", "image.go")],
  observe=["images drawn on the engine, PDF content"])

p("C26", "Page setup of the document becomes the pages of the PDF",
  "Every page of the output has the paper size and orientation the document asks for (A3, A4, A5, Letter, Legal; portrait, landscape; A4 portrait if nothing valid is asked), and content is laid out within the four margins asked for, each on its own side (the printable width leaves 2 mm free at its right end).",
  ["configurations"], "all formats x orientations x margin combinations",
  "No test produces a PDF.",
  ["engine/fpdf.go", "xdoc/doc.go", "process.go", "dim.go"],
  [("NewFPDF, fpdfFormat, fpdfOrientation", "engine/fpdf.go"), ("PrintableArea", "engine/fpdf.go")],
  observe=["page boxes and positions in the PDF"])

p("C27", "Success means a complete PDF, failure is reported",
  "If processing returns no error, the writer has received one complete, well-formed PDF - header, all objects at the offsets the cross-reference table states, the page tree, trailer - with all its pages. If the writer fails or falls short at any byte, or the document asks for an unavailable font for text anywhere, processing returns an error; it never panics or hangs, whatever characters or (finite, up to 10^6) values the document contains.",
  ["fault_sequences", "inputs"], "write failure at every byte, every place of an engine error, all documents",
  "No test processes a document.",
  ["process.go", "engine/fpdf.go"],
  [("error checks in Process", "process.go"), ("WritePDF", "engine/fpdf.go")],
  observe=["result of Processor.Process and bytes written"])

p("C28", "Documents are processed independently of each other",
  "Loading, describing, hyphenating and rendering give the same result for a document no matter what was processed before in the same program and what is processed concurrently, also when the documents share a hyphenator or when one loaded document is rendered several times, one after another or at once; there are no data races between such calls.",
  ["schedules", "histories"], "all interleavings up to a bound, all orders of processing",
  "Tests are sequential and process one thing each.",
  ["xdoc/registry.go", "hyphenation/hyphenation.go", "style/decode.go", "style/class.go", "process.go"],
  [("package-level registry is only read", "xdoc/registry.go"), ("hyphenator lookup is only read", "hyphenation/hyphenation.go"), ("style mutators copy values", "style/decode.go")],
  observe=["results of Load, Describe, Hyphenate, Process under a controlled scheduler"])

p("C29", "Fonts: what is registered and asked for is what the PDF uses",
  "Loading a font definition file registers every font and style in it, file paths taken relative to the definition file. Text in the PDF uses the family, size, weight, slant and underline of its style, with the registered font file for that combination or a standard PDF font, and every character the font has is shown with its glyph; a font file that cannot be read, or a malformed definition file, is an error.",
  ["configurations", "inputs"], "all families x styles x weights x decorations x sizes, all definition files",
  "No test loads a font or produces a PDF.",
  ["font/definition.go", "font/registry.go", "engine/fpdf.go"],
  [("LoadRegistryFromFile", "font/definition.go"), ("initFonts, fpdfFontStyle, ChangeFont", "engine/fpdf.go")],
  observe=["fonts and text in the PDF"])

p("C30", "The command line tools report success exactly when they succeeded",
  "The xpdf command exits with 0 exactly if it has written a complete PDF of the input document to the output named (by default the input's base name with extension .pdf in the current directory), and otherwise - input missing, unreadable, broken or asking for an unavailable font, output not writable - exits non-zero with a message; the describe and image commands print the description of exactly the given file and exit non-zero on unreadable input.",
  ["inputs", "configurations"], "all argument forms and input conditions",
  "The commands have no tests.",
  ["cmd/xpdf/main.go", "cmd/describe/main.go", "cmd/image/main.go"],
  [("main", "cmd/xpdf/main.go, cmd/describe/main.go, cmd/image/main.go")],
  observe=["exit status, standard output, files written"])

p("C31", "The PDF shows what the layout draws, where it draws it",
  "Whatever sequence of drawing operations is carried out - moving the cursor, changing fonts and colours, writing text, feeding lines, filling, drawing lines, placing images, starting pages - the PDF shows each text, rectangle, line and image on the page current at that time, at the cursor position or coordinates given, in the font, colour and line width last set, and the cursor moves as documented: text advances it, a line feed returns it to the left margin and moves it down by that many font heights, setting y keeps x. Texts are measured with the width they are drawn with.",
  ["histories"], "all operation sequences up to a bound",
  "No test calls the engine.",
  ["engine/fpdf.go", "engine/engine.go"],
  [("FPDF methods", "engine/fpdf.go")],
  observe=["PDF content, GetXY, TextWidth"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
