package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfmc/core"
	"xpdfmc/lab"
	"xpdfmc/pdfread"
	"xpdfmc/sched"
	"xpdfmc/veng"
)

// C28: documents are processed independently of each other.

var indDir string

// indEnv is what the operations of a run share.
type indEnv struct {
	h    *hyphenation.Hyphenator
	reg  *font.Registry
	docs [4]*xdoc.Document
	cls  style.Classes
}

// indXML are the documents: they use the same class names, fonts and words with different meaning.
var indXML = func() [5]string {
	var out [5]string
	d := lab.A5(10, 10, 10, 10)
	d.Style = "k{width:40} k:first-row{height:9} j{text-color:#ff0000}"
	d.Body = `<text class="k">aa abcdef<p style="font-style:italic">x</p></text><box class="j k">b</box>`
	out[0] = d.XML()
	d = lab.A5(20, 15, 20, 15)
	d.Style = "k{padding:1,2,3,4} j{color:#00ff00} k:first-row{border:1,0,1,0}"
	d.Header = `<text>{cp} of {np}</text>`
	d.Body = `<table class="j"><tr class="k"><td class="k j" style="h-align:block;width:9">xyxyxyxy</td></tr></table>`
	out[1] = d.XML()
	d = lab.A5(10, 10, 10, 10)
	d.Body = `<text style="width:11;h-align:block">abcdef</text>`
	out[2] = d.XML()
	d.Body = `<font style="font-family:Times"/><newpage/><image style="width:5">` + imgFile("a.png") + `</image>`
	out[3] = d.XML()
	d.Body = `<text style="width:x">a</text>`
	out[4] = d.XML()
	return out
}()

func newIndEnv() *indEnv {
	sched.Reset()
	e := &indEnv{h: lab.Hyph(blockPatterns...), reg: font.NewRegistry()}
	e.reg.Register(font.Descriptor{Name: "sans", Style: font.Regular, FilePath: filepath.Join(indDir, fontFiles[0])})
	return e
}

func (e *indEnv) doc(k int) *xdoc.Document {
	if e.docs[k] == nil {
		e.docs[k] = lab.Load(indXML[k])
	}
	return e.docs[k]
}

// preload makes what an operation uses beforehand, so that it is shared by the threads.
func (e *indEnv) preload(op indOp) {
	for _, k := range op.docs {
		e.doc(k)
	}
	if op.classes {
		e.classes()
	}
}

func (e *indEnv) classes() style.Classes {
	if e.cls == nil {
		cs, err := style.DecodeClasses(strings.NewReader("k{width:40;padding:1,2,3,4} k:first-row{height:9;font-weight:bold} j{text-color:#ff0000}"))
		if err != nil {
			panic(err)
		}
		e.cls = cs
	}
	return e.cls
}

type indOp struct {
	name    string
	class   int // 0: light, explored deepest; 1; 2: heavy, only in histories and whole
	run     func(e *indEnv) string
	docs    []int // documents it uses
	classes bool
}

func indOps() []indOp {
	load := func(k int) func(*indEnv) string {
		return func(*indEnv) string {
			doc, err := xdoc.Load(strings.NewReader(indXML[k]))
			if err != nil {
				return "error: " + err.Error()
			}
			return xdoc.Describe(doc).Dump(xdoc.DescribeXML)
		}
	}
	describe := func(k int) func(*indEnv) string {
		return func(e *indEnv) string { return xdoc.Describe(e.doc(k)).Dump(xdoc.DescribeXML) }
	}
	virt := func(k int) func(*indEnv) string {
		return func(e *indEnv) string {
			d, _ := lab.VirtDoc(e.doc(k), veng.Dyadic{}, e.h, indDir)
			return d.Dump()
		}
	}
	hyph := func(words ...string) func(*indEnv) string {
		return func(e *indEnv) string {
			var out []string
			for _, w := range words {
				out = append(out, strings.Join(e.h.Hyphenate(w), "-"))
			}
			return strings.Join(out, " ")
		}
	}
	real := func(k int) func(*indEnv) string {
		return func(e *indEnv) string {
			doc := e.doc(k)
			en, err := engine.NewFPDF(e.reg, doc)
			if err != nil {
				return "error: " + err.Error()
			}
			var b bytes.Buffer
			if err := xpdf.NewProcessor(en, e.h, doc, indDir).Process(&b); err != nil {
				return "error: " + err.Error()
			}
			f, err := pdfread.Parse(b.Bytes())
			if err != nil {
				return "malformed: " + err.Error()
			}
			return f.Doc.Dump()
		}
	}
	return []indOp{
		{"hyphenate a word", 0, hyph("abcdef"), nil, false},
		{"hyphenate another", 0, hyph("xyxyx"), nil, false},
		{"describe document 2", 0, describe(2), []int{2}, false},
		{"load a malformed document", 0, load(4), nil, false},
		{"load document 2", 0, load(2), nil, false},
		{"styles from classes", 0, func(e *indEnv) string {
			var st style.Styles
			e.classes().Mutate(&st, "k", "j")
			e.classes().MutateWithSelector("first-row", &st, "k")
			return fmt.Sprintf("%+v", st)
		}, nil, true},
		{"render document 2", 1, virt(2), []int{2}, false},
		{"describe document 0", 1, describe(0), []int{0}, false},
		{"describe document 1", 1, describe(1), []int{1}, false},
		{"load document 0", 1, load(0), nil, false},
		{"load document 1", 1, load(1), nil, false},
		{"render document 3", 1, virt(3), []int{3}, false},
		{"load document 3", 1, load(3), nil, false},
		{"render document 0", 1, virt(0), []int{0}, false},
		{"render document 1", 1, virt(1), []int{1}, false},
		{"make a PDF of document 0", 2, real(0), []int{0}, false},
		{"make a PDF of document 1", 2, real(1), []int{1}, false},
		{"hyphenators from patterns", 1, func(e *indEnv) string {
			a, b := lab.Hyph(".ab1c", "x1y"), lab.Hyph("a1b")
			return strings.Join(a.Hyphenate("abcxy"), "-") + strings.Join(b.Hyphenate("abcxy"), "-")
		}, nil, false},
		{"english and latin", 2, func(e *indEnv) string {
			return strings.Join(hyphenation.NewEnUs().Hyphenate("hyphenation"), "-") + strings.Join(hyphenation.NewLatin().Hyphenate("circumscriptum"), "-")
		}, nil, false},
	}
}

// guarded runs an operation, turning a panic into its result.
func guarded(op indOp, e *indEnv) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("panic: %v", p)
		}
	}()
	return op.run(e)
}

var indWant []string
var indPoints []int

func indSetup(dir string) {
	indDir = dir
	fontDir = dir
	writeFonts(dir)
	writeIndImages(dir)
	ops := indOps()
	indWant = make([]string, len(ops))
	indPoints = make([]int, len(ops))
	for k, op := range ops {
		e := newIndEnv()
		e.preload(op)
		res := sched.Run(nil, func() { indWant[k] = guarded(op, e) })
		indPoints[k] = res.Points[0]
	}
}

func independentSpaces(tier string) []core.Space {
	thorough := tier == "thorough"
	ops := indOps()
	var out []core.Space
	// histories
	depth := 2
	if thorough {
		depth = 3
	}
	n := core.Seqs(len(ops), 1, depth)
	hist := func(seq []int, r *core.Rec) {
		e := newIndEnv()
		var names []string
		for _, k := range seq {
			got := guarded(ops[k], e)
			names = append(names, ops[k].name)
			r.Trans(1)
			if got != indWant[k] {
				r.Fail("history", "after %s the result of %q is\n%s\nwithout it\n%s", strings.Join(names[:len(names)-1], ", "), ops[k].name, got, indWant[k])
				return
			}
		}
		r.Impl(1)
		r.Obs(hashStr(strings.Join(names, ",")))
	}
	seqName := func(seq []int) string {
		var names []string
		for _, k := range seq {
			names = append(names, ops[k].name)
		}
		return strings.Join(names, ", ")
	}
	out = append(out, core.Space{Name: "histories", N: n,
		Run:  func(i int64, r *core.Rec) { hist(core.Seq(i, len(ops), 1, depth), r) },
		Desc: func(i int64) string { return seqName(core.Seq(i, len(ops), 1, depth)) }})
	// longer ones over the operations that are quick
	var light []int
	for k, op := range ops {
		if op.class == 0 || strings.HasPrefix(op.name, "render document") || strings.HasPrefix(op.name, "describe document") {
			light = append(light, k)
		}
	}
	ldepth := 3
	if thorough {
		ldepth = 5
	}
	pick := func(i int64) []int {
		var seq []int
		for _, k := range core.Seq(i, len(light), ldepth, ldepth) {
			seq = append(seq, light[k])
		}
		return seq
	}
	out = append(out, core.Space{Name: "longer", N: core.Seqs(len(light), ldepth, ldepth),
		Run:  func(i int64, r *core.Rec) { hist(pick(i), r) },
		Desc: func(i int64) string { return seqName(pick(i)) }})
	// one after the other, but without a happens-before edge, in both orders, and every operation
	// with itself; three at a time
	three := core.Prod(len(ops), len(ops), len(ops))
	out = append(out, core.Space{Name: "unordered", N: core.Prod(len(ops), len(ops)) + map[bool]int64{true: three}[thorough],
		Run: func(i int64, r *core.Rec) {
			var g []int
			if i < int64(len(ops)*len(ops)) {
				g = core.Digits(i, len(ops), len(ops))
			} else {
				g = core.Digits(i-int64(len(ops)*len(ops)), len(ops), len(ops), len(ops))
			}
			indRun(r, ops, g, nil)
		},
		Desc: func(i int64) string { return fmt.Sprintf("case %d", i) }})
	out = append(out, twinSpace(thorough))
	// one preemption
	const chunk = 64
	type block struct{ a, b, from int }
	var bs []block
	for a := range ops {
		for b := range ops {
			switch {
			case strings.HasPrefix(ops[a].name, "make a PDF") && strings.HasPrefix(ops[b].name, "make a PDF"):
				if !thorough && (a != b || indPoints[a] > 2000) {
					continue
				}
			case ops[a].class == 2 || ops[b].class == 2:
				continue
			case !thorough && a != b && ops[a].class > 0 && ops[b].name != "load document 2" && ops[b].name != "render document 2":
				continue
			case !thorough && a != b && ops[b].class > 0 && ops[b].name != "render document 2":
				continue
			}
			for f := 0; f <= indPoints[a]; f += chunk {
				bs = append(bs, block{a, b, f})
			}
		}
	}
	out = append(out, core.Space{Name: "preempt1", N: int64(len(bs)),
		Run: func(i int64, r *core.Rec) {
			bl := bs[i]
			for p := bl.from; p < bl.from+chunk && p <= indPoints[bl.a]; p++ {
				indRun(r, ops, []int{bl.a, bl.b}, []sched.Switch{{T: 0, N: p, To: 1}})
			}
		},
		Desc: func(i int64) string {
			bl := bs[i]
			return fmt.Sprintf("%q preempted by %q at points %d..%d", ops[bl.a].name, ops[bl.b].name, bl.from, bl.from+chunk-1)
		}})
	// two preemptions
	var bs2 []block
	step := 1
	lim := 0
	if thorough {
		lim = 1
	}
	for a := range ops {
		for b := range ops {
			if ops[a].class > 0 || ops[b].class > 0 || (lim == 0 && indPoints[a]*indPoints[b] > 40000) {
				continue
			}
			for f := 0; f <= indPoints[a]; f += step {
				bs2 = append(bs2, block{a, b, f})
			}
		}
	}
	out = append(out, core.Space{Name: "preempt2", N: int64(len(bs2)),
		Run: func(i int64, r *core.Rec) {
			bl := bs2[i]
			for q := 0; q <= indPoints[bl.b]; q++ {
				indRun(r, ops, []int{bl.a, bl.b}, []sched.Switch{{T: 0, N: bl.from, To: 1}, {T: 1, N: q, To: 0}})
			}
		},
		Desc: func(i int64) string {
			bl := bs2[i]
			return fmt.Sprintf("%q preempted by %q at point %d, which is preempted at every point", ops[bl.a].name, ops[bl.b].name, bl.from)
		}})
	return out
}

// indRun executes operations at once under a schedule and compares every result.
func indRun(r *core.Rec, ops []indOp, g []int, plan []sched.Switch) {
	e := newIndEnv()
	for _, k := range g {
		e.preload(ops[k])
	}
	got := make([]string, len(g))
	fs := make([]func(), len(g))
	for t, k := range g {
		t, k := t, k
		fs[t] = func() { got[t] = guarded(ops[k], e) }
	}
	res := sched.Run(plan, fs...)
	r.Impl(1)
	for _, p := range res.Points {
		r.Trans(p)
	}
	if res.Blocked {
		r.Count("schedules_with_unknown_waiting", 1)
	}
	h := uint64(len(g))
	for _, k := range g {
		h = h*131 + uint64(k)
	}
	for _, s := range plan {
		h = h*1000003 + uint64(s.N+1)
	}
	r.Obs(h)
	for t, k := range g {
		if got[t] != indWant[k] {
			r.Fail("schedule", "%s with the preemptions %+v: the result of %q is\n%s\nalone it is\n%s", func() string {
				var ns []string
				for _, k := range g {
					ns = append(ns, ops[k].name)
				}
				return strings.Join(ns, " || ")
			}(), plan, ops[k].name, got[t], indWant[k])
		}
	}
}

func writeIndImages(dir string) {
	_ = os.MkdirAll(dir+"/imgs", 0o777)
	writeImages(dir + "/imgs")
}

func init() {
	core.Register(&core.Check{ID: "C28", Instr: true, Rule: "all sequences of operations up to a depth from the initial state of the packages; operations that agree in all but one respect in histories one / other / one, each in a process of its own; all schedules of two operations with one preemption at any statement of the code under test, for light operations with two; executed one thread at a time without happens-before edges under the race detector: every result compared with that of the operation alone",
		Spaces: independentSpaces, Setup: indSetup, Exec: twinExec})
}
