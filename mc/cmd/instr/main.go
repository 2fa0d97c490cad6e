// Command instr writes an instrumented copy of the packages under test and an overlay file for the go
// command: a scheduling point before every statement, iteration over maps in an order that can be
// chosen, locks the scheduler knows, and functions that reset package-level state.
//
//	instr -out DIR        (run in the directory of the checker's module)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const root = "github.com/mazzegi/xpdf"

type pkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ GoVersion string }
}

type edit struct {
	at, to int
	text   string
	seq    int
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func main() {
	out := flag.String("out", "", "")
	points := flag.Bool("points", false, "scheduling points")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Module", "./cmd/xpdfmc")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail(err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == root || strings.HasPrefix(p.ImportPath, root+"/") {
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	for _, p := range pkgs {
		if err := instrument(p, exports, *out, *points, overlay); err != nil {
			fail(fmt.Errorf("%s: %w", p.ImportPath, err))
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o666); err != nil {
		fail(err)
	}
}

type file struct {
	name  string
	src   []byte
	f     *ast.File
	base  int
	edits []edit
	tail  strings.Builder
	used  bool
	inits []initFn
}

// initFn is a function that repeats the initialization of variables.
type initFn struct {
	head     string
	from, to int
}

// part is the source between two offsets with the edits that lie within.
func (f *file) part(from, to int) (string, error) {
	var o bytes.Buffer
	pos := from
	for _, e := range f.edits {
		if e.at < from || e.to > to || e.at == to && from != 0 {
			continue
		}
		if e.at < pos {
			return "", fmt.Errorf("overlapping edits in %s", f.name)
		}
		o.Write(f.src[pos:e.at])
		o.WriteString(e.text)
		pos = e.to
	}
	o.Write(f.src[pos:to])
	return o.String(), nil
}

func (f *file) ins(at int, text string) {
	f.used = true
	f.edits = append(f.edits, edit{at, at, text, len(f.edits)})
}

func (f *file) rep(at, to int, text string) {
	f.used = true
	f.edits = append(f.edits, edit{at, to, text, len(f.edits)})
}

func instrument(p pkg, exports map[string]string, out string, points bool, overlay map[string]string) error {
	fset := token.NewFileSet()
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, &file{name: path, src: src, f: a, base: fset.File(a.Pos()).Base()})
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		return err
	}
	nInit := 0
	var resetCalls []string
	fileOf := func(pos token.Pos) *file {
		for _, f := range files {
			if int(pos) >= f.base && int(pos) <= f.base+len(f.src) {
				return f
			}
		}
		return nil
	}
	text := func(f *file, a, b token.Pos) string { return string(f.src[int(a)-f.base : int(b)-f.base]) }
	// package-level variables: zero first, then the initializers in order
	inited := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}
	var zero []string
	for _, n := range tp.Scope().Names() {
		v, ok := tp.Scope().Lookup(n).(*types.Var)
		if ok && !inited[v] {
			zero = append(zero, fmt.Sprintf("zzsched.Zero(&%s)", n))
		}
	}
	for k, in := range info.InitOrder {
		var lhs []string
		named := false
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				named = true
			}
		}
		if !named {
			continue
		}
		f := fileOf(in.Rhs.Pos())
		fn := fmt.Sprintf("zzReset%d", k)
		f.inits = append(f.inits, initFn{fn + "() { " + strings.Join(lhs, ", ") + " = ", int(in.Rhs.Pos()) - f.base, int(in.Rhs.End()) - f.base})
		resetCalls = append(resetCalls, fn+"()")
	}
	for _, f := range files {
		f := f
		off := func(p token.Pos) int { return int(p) - f.base }
		for _, d := range f.f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			n := fmt.Sprintf("zzInit%d", nInit)
			nInit++
			f.rep(off(fd.Name.Pos()), off(fd.Name.End()), n)
			fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", n)
			resetCalls = append(resetCalls, n+"()")
		}
		stmts := func(list []ast.Stmt) {
			if !points {
				return
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt:
					continue
				}
				f.ins(off(s.Pos()), "zzsched.P(); ")
			}
		}
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmtList(n.List, stmts)
			case *ast.CaseClause:
				stmtList(n.Body, stmts)
			case *ast.CommClause:
				stmtList(n.Body, stmts)
			case *ast.RangeStmt:
				rangeStmt(f, info, n, off, text)
			case *ast.CallExpr:
				call(f, info, n, off, text)
			}
			return true
		})
	}
	for i, f := range files {
		if !f.used && f.tail.Len() == 0 && len(f.inits) == 0 {
			continue
		}
		if f.used {
			f.edits = append(f.edits, edit{int(f.f.Name.End()) - f.base, int(f.f.Name.End()) - f.base, "; import zzsched \"xpdfmc/sched\"", -1})
			f.tail.WriteString("\nvar _ = zzsched.P\n")
		}
		// "import" may be needed by the tail only; it uses nothing of sched
		sort.SliceStable(f.edits, func(a, b int) bool { return f.edits[a].at < f.edits[b].at })
		all, err := f.part(0, len(f.src))
		if err != nil {
			return err
		}
		for _, in := range f.inits {
			x, err := f.part(in.from, in.to)
			if err != nil {
				return err
			}
			fmt.Fprintf(&f.tail, "\nfunc %s%s }\n", in.head, x)
		}
		var o bytes.Buffer
		o.WriteString(all)
		o.WriteString(f.tail.String())
		dst := filepath.Join(out, fmt.Sprintf("%s_%d.go", strings.ReplaceAll(p.ImportPath, "/", "_"), i))
		if err := os.WriteFile(dst, o.Bytes(), 0o666); err != nil {
			return err
		}
		overlay[f.name] = dst
	}
	var x strings.Builder
	fmt.Fprintf(&x, "package %s\n\nimport zzsched \"xpdfmc/sched\"\n\nfunc init() {\n\tzzsched.Instrumented = true\n\tzzsched.OnReset(func() {\n", p.Name)
	for _, z := range append(zero, resetCalls...) {
		fmt.Fprintf(&x, "\t\t%s\n", z)
	}
	x.WriteString("\t})\n}\n")
	dst := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_zz.go")
	if err := os.WriteFile(dst, []byte(x.String()), 0o666); err != nil {
		return err
	}
	overlay[filepath.Join(p.Dir, "zz_verif_sched.go")] = dst
	return nil
}

func stmtList(l []ast.Stmt, do func([]ast.Stmt)) {
	// the bodies of switch and select statements are lists of clauses
	if len(l) > 0 {
		switch l[0].(type) {
		case *ast.CaseClause, *ast.CommClause:
			return
		}
	}
	do(l)
}

func rangeStmt(f *file, info *types.Info, n *ast.RangeStmt, off func(token.Pos) int, text func(*file, token.Pos, token.Pos) string) {
	tv, ok := info.Types[n.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	if _, ok := tv.Type.(*types.TypeParam); ok {
		return
	}
	lit := false
	ast.Inspect(n.Body, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			lit = true
		}
		return true
	})
	inX := false
	ast.Inspect(n.X, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit, *ast.CallExpr:
			inX = true // may be edited itself
		}
		return true
	})
	if lit || inX {
		return
	}
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return text(f, e.Pos(), e.End())
	}
	k, v := name(n.Key), name(n.Value)
	e := fmt.Sprintf("zze%d", n.Pos())
	x := text(f, n.X.Pos(), n.X.End())
	head := fmt.Sprintf("for _, %s := range zzsched.Entries(%s) ", e, x)
	body := fmt.Sprintf(" if !%s.Live() { continue }; ", e)
	op := n.Tok.String()
	switch {
	case k != "_" && v != "_":
		body += fmt.Sprintf("%s, %s %s %s.K, %s.V(); ", k, v, op, e, e)
	case k != "_":
		body += fmt.Sprintf("%s %s %s.K; ", k, op, e)
	case v != "_":
		body += fmt.Sprintf("%s %s %s.V(); ", v, op, e)
	}
	f.rep(off(n.For), off(n.Body.Lbrace), head)
	f.ins(off(n.Body.Lbrace)+1, body)
}

// call replaces calls of locks and of sync.Once.
func call(f *file, info *types.Info, n *ast.CallExpr, off func(token.Pos) int, text func(*file, token.Pos, token.Pos) string) {
	sel, ok := n.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	s := info.Selections[sel]
	if s == nil || s.Kind() != types.MethodVal {
		return
	}
	fn, ok := s.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync" {
		return
	}
	switch fn.FullName() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		x := text(f, sel.X.Pos(), sel.X.End())
		try := map[string]string{"Lock": "TryLock", "RLock": "TryRLock"}[fn.Name()]
		f.rep(off(n.Pos()), off(n.End()), fmt.Sprintf("zzsched.Lock(%s.%s, %s.%s)", x, try, x, fn.Name()))
	case "(*sync.Once).Do":
		x := text(f, sel.X.Pos(), sel.X.End())
		f.rep(off(n.Pos()), off(n.Lparen)+1, fmt.Sprintf("zzsched.Do(%s.Do, ", x))
	}
}
