// Command instr rewrites the packages of the repository so that everything
// non-deterministic they do goes through the simulator. It is compiled within
// the repository's module through an overlay, and writes another overlay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

const simPrefix = "github.com/DataDog/orchestrion/internal/verifsim/"

// shims maps replaced packages to the package that replaces them.
var shims = map[string]string{
	"sync": "simsync", "os": "simos", "os/exec": "simexec", "os/signal": "simsignal", "syscall": "simsyscall",
	"time": "simtime", "maps": "simmaps", "path/filepath": "simfilepath", "fmt": "simfmt",
	"golang.org/x/sync/errgroup": "simerrgroup", "github.com/google/uuid": "simuuid",
	"math/rand": "simrand", "math/rand/v2": "simrand",
	"github.com/nats-io/nats.go": "simnats", "github.com/nats-io/nats-server/v2/server": "simnatssrv",
	"github.com/fsnotify/fsnotify": "simfsnotify", "github.com/shirou/gopsutil/v4/process": "simps",
	"golang.org/x/tools/go/packages": "simpackages", "runtime": "simruntime", "context": "simcontext",
	"golang.org/x/sync/singleflight": "simsingleflight",
}

var (
	simDir  = flag.String("sim", "", "directory of the simulator sources")
	repoDir = flag.String("repo", "", "repository")
	outDir  = flag.String("out", "", "output directory")
	only    = flag.String("only", "", "comma-separated list of files to leave un-instrumented")
)

type exports map[string]bool

func shimExports(dir string) (exports, error) {
	res := exports{}
	fset := token.NewFileSet()
	entries, err := os.ReadDir(dir)
	if os.IsNotExist(err) {
		return res, nil
	}
	if err != nil {
		return nil, err
	}
	for _, e := range entries {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					res[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							res[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								res[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	// Helpers for scenarios, which exist in no replaced package.
	for _, n := range []string{"SetOnRemove", "SetLoader", "SetResponseHook", "Loader", "ResponseHook"} {
		delete(res, n)
	}
	return res, nil
}

func main() {
	flag.Parse()
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run() error {
	table := map[string]exports{}
	for path, shim := range shims {
		ex, err := shimExports(filepath.Join(*simDir, shim))
		if err != nil {
			return err
		}
		table[path] = ex
	}
	cfg := &packages.Config{
		Dir: *repoDir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax |
			packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedExportFile,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false"),
	}
	pkgs, err := packages.Load(cfg, ".", "./internal/...")
	if err != nil {
		return err
	}
	overlay := map[string]string{}
	if err := os.MkdirAll(*outDir, 0o755); err != nil {
		return err
	}
	for _, pkg := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg.PkgPath, "github.com/DataDog/orchestrion"), "/")
		isRoot := rel == ""
		if (pkg.Name == "main" && !isRoot) || strings.HasPrefix(rel, "internal/verifsim") || strings.Contains(rel, "testdata") {
			continue
		}
		if len(pkg.Errors) > 0 {
			return fmt.Errorf("package %s does not compile: %v", pkg.PkgPath, pkg.Errors[0])
		}
		dstDir := filepath.Join(*outDir, "src", strings.ReplaceAll(rel, "/", "__"))
		if isRoot {
			dstDir = filepath.Join(*outDir, "src", "orchmain")
		}
		if err := os.MkdirAll(dstDir, 0o755); err != nil {
			return err
		}
		targetDir := filepath.Join(*repoDir, rel)
		if isRoot {
			targetDir = filepath.Join(*repoDir, "internal/verifsim/orchmain")
		}
		for i, file := range pkg.Syntax {
			name := pkg.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			r := &rewriter{pkg: pkg, fset: pkg.Fset, src: src, file: pkg.Fset.File(file.Pos()), table: table, used: map[string]bool{}, isRoot: isRoot}
			out := r.rewrite(file)
			dst := filepath.Join(dstDir, filepath.Base(name))
			if err := os.WriteFile(dst, []byte(out), 0o644); err != nil {
				return err
			}
			overlay[filepath.Join(targetDir, filepath.Base(name))] = dst
		}
		var vars []string
		scope := pkg.Types.Scope()
		for _, n := range scope.Names() {
			if _, ok := scope.Lookup(n).(*types.Var); ok && n != "_" {
				vars = append(vars, n)
			}
		}
		sort.Strings(vars)
		if len(vars) > 0 {
			var b strings.Builder
			name := pkg.Name
			if isRoot {
				name = "orchmain"
			}
			fmt.Fprintf(&b, "package %s\n\nimport verif_sim %q\n\nfunc init() {\n\tverif_sim.RegisterGlobals(%q, map[string]any{\n", name, simPrefix+"sim", rel)
			for _, v := range vars {
				fmt.Fprintf(&b, "\t\t%q: &%s,\n", v, v)
			}
			b.WriteString("\t})\n}\n")
			dst := filepath.Join(dstDir, "zz_verif_globals.go")
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				return err
			}
			overlay[filepath.Join(targetDir, "zz_verif_globals.go")] = dst
		}
	}
	data, err := json.MarshalIndent(overlay, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(*outDir, "instrumented.json"), data, 0o644)
}

type rewriter struct {
	pkg    *packages.Package
	fset   *token.FileSet
	file   *token.File
	src    []byte
	table  map[string]exports
	used   map[string]bool // shim packages used by this file
	isRoot bool

	recv2  map[ast.Node]bool // receive operations in two-value contexts
	skip   map[ast.Node]bool
	lits   []*ast.FuncLit
	simple map[ast.Node]bool
	n      int
}

func (r *rewriter) off(p token.Pos) int { return r.file.Offset(p) }

func (r *rewriter) sim(name string) string {
	r.used["sim"] = true
	return "verif_sim." + name
}

func simpleStmts(n ast.Node) []ast.Stmt {
	switch n := n.(type) {
	case *ast.IfStmt:
		return []ast.Stmt{n.Init}
	case *ast.ForStmt:
		return []ast.Stmt{n.Init, n.Post}
	case *ast.SwitchStmt:
		return []ast.Stmt{n.Init}
	case *ast.TypeSwitchStmt:
		return []ast.Stmt{n.Init, n.Assign}
	}
	return nil
}

func children(n ast.Node) []ast.Node {
	var res []ast.Node
	depth := 0
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			depth--
			return true
		}
		if _, ok := c.(*ast.CommentGroup); ok {
			return false
		}
		if depth == 1 {
			res = append(res, c)
			return false
		}
		depth++
		return true
	})
	sort.SliceStable(res, func(i, j int) bool { return res[i].Pos() < res[j].Pos() })
	return res
}

// plain renders a node by copying its source and rendering its children.
func (r *rewriter) plain(n ast.Node) string {
	return r.span(n.Pos(), n.End(), children(n))
}

func (r *rewriter) span(from, to token.Pos, nodes []ast.Node) string {
	var b strings.Builder
	pos := r.off(from)
	for _, c := range nodes {
		if !c.Pos().IsValid() {
			continue
		}
		start, end := r.off(c.Pos()), r.off(c.End())
		if start < pos {
			continue // comments and other overlapping nodes
		}
		b.Write(r.src[pos:start])
		b.WriteString(r.render(c))
		pos = end
	}
	if pos > r.off(to) {
		panic(fmt.Sprintf("%s: overlapping nodes", r.fset.Position(from)))
	}
	b.Write(r.src[pos:r.off(to)])
	return b.String()
}

func (r *rewriter) rewrite(file *ast.File) string {
	r.recv2 = map[ast.Node]bool{}
	r.skip = map[ast.Node]bool{}
	r.simple = map[ast.Node]bool{}
	uses := map[*types.PkgName]int{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.Ident:
			if pn, ok := r.pkg.TypesInfo.Uses[n].(*types.PkgName); ok {
				uses[pn]++
			}
		case *ast.SelectorExpr:
			if r.shimFor(n) != "" {
				id := n.X.(*ast.Ident)
				uses[r.pkg.TypesInfo.Uses[id].(*types.PkgName)]--
			}
		}
		return true
	})

	// Head: package clause and imports.
	var b strings.Builder
	nameEnd := r.off(file.Name.End())
	head := string(r.src[:nameEnd])
	if r.isRoot {
		head = string(r.src[:r.off(file.Name.Pos())]) + "orchmain"
	}
	var body strings.Builder
	pos := nameEnd
	for _, d := range file.Decls {
		start, end := r.off(d.Pos()), r.off(d.End())
		body.Write(r.src[pos:start])
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			body.WriteString(r.imports(gd, uses))
		} else {
			body.WriteString(r.render(d))
		}
		pos = end
	}
	body.Write(r.src[pos:])
	b.WriteString(head)
	if len(r.used) > 0 {
		b.WriteString("; import (")
		var names []string
		for n := range r.used {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Fprintf(&b, "verif_%s %q; ", n, simPrefix+n)
		}
		b.WriteString(")")
	}
	b.WriteString(body.String())
	return b.String()
}

func (r *rewriter) imports(gd *ast.GenDecl, uses map[*types.PkgName]int) string {
	var b strings.Builder
	pos := r.off(gd.Pos())
	for _, s := range gd.Specs {
		spec := s.(*ast.ImportSpec)
		var obj types.Object
		if spec.Name != nil {
			obj = r.pkg.TypesInfo.Defs[spec.Name]
		} else {
			obj = r.pkg.TypesInfo.Implicits[spec]
		}
		pn, _ := obj.(*types.PkgName)
		start, end := r.off(spec.Pos()), r.off(spec.End())
		b.Write(r.src[pos:start])
		if pn != nil && uses[pn] <= 0 && (spec.Name == nil || (spec.Name.Name != "_" && spec.Name.Name != ".")) {
			b.WriteString("_ " + spec.Path.Value)
		} else {
			b.Write(r.src[start:end])
		}
		pos = end
	}
	b.Write(r.src[pos:r.off(gd.End())])
	return b.String()
}

// shimFor returns the name of the shim package for a selector, if any.
func (r *rewriter) shimFor(n *ast.SelectorExpr) string {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := r.pkg.TypesInfo.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	path := pn.Imported().Path()
	if r.table[path][n.Sel.Name] {
		return shims[path]
	}
	return ""
}

func (r *rewriter) stmts(from, to token.Pos, list []ast.Stmt) string {
	var b strings.Builder
	pos := r.off(from)
	for _, s := range list {
		start, end := r.off(s.Pos()), r.off(s.End())
		if start < pos {
			start = pos
		}
		b.Write(r.src[pos:start])
		if _, empty := s.(*ast.EmptyStmt); !empty {
			b.WriteString(r.sim("Point(); "))
		}
		b.WriteString(r.render(s))
		pos = end
	}
	b.Write(r.src[pos:r.off(to)])
	return b.String()
}

func (r *rewriter) render(n ast.Node) string {
	if n == nil {
		return ""
	}
	switch n := n.(type) {
	case *ast.SelectorExpr:
		if shim := r.shimFor(n); shim != "" {
			r.used[shim] = true
			return "verif_" + shim + "." + n.Sel.Name
		}
	case *ast.FuncDecl:
		if r.isRoot && n.Recv == nil && n.Name.Name == "main" {
			return string(r.src[r.off(n.Pos()):r.off(n.Name.Pos())]) + "Main" + r.span(n.Name.End(), n.End(), []ast.Node{n.Type.Params, n.Body})
		}
		if n.Body == nil {
			return r.plain(n)
		}
		// children() would visit n.Type, which overlaps the name.
		var nodes []ast.Node
		if n.Recv != nil {
			nodes = append(nodes, n.Recv)
		}
		if n.Type.TypeParams != nil {
			nodes = append(nodes, n.Type.TypeParams)
		}
		nodes = append(nodes, n.Type.Params)
		if n.Type.Results != nil {
			nodes = append(nodes, n.Type.Results)
		}
		nodes = append(nodes, n.Body)
		return r.span(n.Pos(), n.End(), nodes)
	case *ast.FuncLit:
		r.lits = append(r.lits, n)
		res := r.plain(n)
		r.lits = r.lits[:len(r.lits)-1]
		return res
	case *ast.IfStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
		// Init and post statements must remain simple statements.
		for _, s := range simpleStmts(n) {
			r.simple[s] = true
		}
	case *ast.BlockStmt:
		if len(n.List) > 0 && !n.Rbrace.IsValid() {
			return r.plain(n)
		}
		// The bodies of switch and select statements consist of clauses.
		for _, s := range n.List {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				return r.plain(n)
			}
		}
		return r.stmts(n.Pos(), n.End(), n.List)
	case *ast.CaseClause:
		var nodes []ast.Node
		for _, e := range n.List {
			nodes = append(nodes, e)
		}
		return r.span(n.Pos(), n.Colon+1, nodes) + r.stmts(n.Colon+1, n.End(), n.Body)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.IncDecStmt:
		if !r.simple[n] && r.shared(n.X) {
			r.n++
			op := "+"
			if n.Tok == token.DEC {
				op = "-"
			}
			x := r.render(n.X)
			return fmt.Sprintf("{ verif_t%d := %s; %s; %s = verif_t%d %s 1 }", r.n, x, r.sim("Point()"), x, r.n, op)
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 1 && len(n.Rhs) == 1 && n.Tok != token.DEFINE && !r.simple[n] && r.shared(n.Lhs[0]) {
			lt, rt := r.pkg.TypesInfo.Types[n.Lhs[0]], r.pkg.TypesInfo.Types[n.Rhs[0]]
			if id, ok := n.Lhs[0].(*ast.Ident); ok {
				lt.Type = r.pkg.TypesInfo.TypeOf(id)
			}
			if lt.Type == nil || rt.Type == nil || rt.Value != nil || rt.IsNil() {
				break
			}
			x := r.render(n.Lhs[0])
			if n.Tok == token.ASSIGN {
				if !types.Identical(lt.Type, rt.Type) || r.untypedBool(n.Rhs[0]) {
					break
				}
				r.n++
				id := r.n
				return fmt.Sprintf("{ verif_t%d := %s; %s; %s = verif_t%d }", id, r.render(n.Rhs[0]), r.sim("Point()"), x, id)
			}
			op := strings.TrimSuffix(n.Tok.String(), "=")
			if op == "<<" || op == ">>" || !types.Identical(lt.Type, rt.Type) {
				break
			}
			r.n++
			id := r.n
			return fmt.Sprintf("{ verif_t%d := %s %s (%s); %s; %s = verif_t%d }", id, x, op, r.render(n.Rhs[0]), r.sim("Point()"), x, id)
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.skip[n] {
			fn := "Recv("
			if r.recv2[n] {
				fn = "Recv2("
			}
			return r.sim(fn) + r.render(n.X) + ")"
		}
	case *ast.SendStmt:
		if !r.skip[n] {
			return r.sim("Send(") + r.render(n.Chan) + ")(" + r.render(n.Value) + ")"
		}
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, n.Label.Name+": ")
		}
		return n.Label.Name + ":" + string(r.src[r.off(n.Colon)+1:r.off(n.Stmt.Pos())]) + r.render(n.Stmt)
	case *ast.SelectStmt:
		return r.selectStmt(n, "")
	case *ast.RangeStmt:
		if t := r.pkg.TypesInfo.TypeOf(n.X); t != nil {
			fn := ""
			switch u := t.Underlying().(type) {
			case *types.Map:
				fn = "MapRange("
			case *types.Chan:
				if u.Dir() != types.SendOnly {
					fn = "ChanRange("
				}
			}
			if fn != "" {
				var nodes []ast.Node
				if n.Key != nil {
					nodes = append(nodes, n.Key)
				}
				if n.Value != nil {
					nodes = append(nodes, n.Value)
				}
				return r.span(n.Pos(), n.X.Pos(), nodes) + r.sim(fn) + r.render(n.X) + ")" + r.span(n.X.End(), n.End(), []ast.Node{n.Body})
			}
		}
	}
	return r.plain(n)
}

// untypedBool returns true for comparisons, whose result may lose its named type when hoisted.
func (r *rewriter) untypedBool(e ast.Expr) bool {
	tv := r.pkg.TypesInfo.Types[e]
	b, ok := tv.Type.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

// shared returns true when the expression denotes a variable other tasks may
// access, and can be evaluated twice without side effects.
func (r *rewriter) shared(e ast.Expr) bool {
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.CompositeLit:
			_ = n
			pure = false
		}
		return pure
	})
	if !pure {
		return false
	}
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.pkg.TypesInfo.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == r.pkg.Types.Scope() {
			return true
		}
		// Captured by a function literal.
		for _, lit := range r.lits {
			if v.Pos() < lit.Pos() || v.Pos() >= lit.End() {
				return true
			}
		}
		return false
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (r *rewriter) inlineArg(e ast.Expr) bool {
	tv, ok := r.pkg.TypesInfo.Types[e]
	return ok && (tv.Value != nil || tv.IsNil() || tv.IsType())
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	call := n.Call
	if lit, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 && lit.Type.Results == nil {
		return r.sim("Go(") + r.render(lit) + ")"
	}
	r.n++
	var pre strings.Builder
	fn := r.render(call.Fun)
	inline := false
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		switch r.pkg.TypesInfo.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			inline = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.pkg.TypesInfo.Uses[id].(*types.PkgName); ok {
				_, inline = r.pkg.TypesInfo.Uses[f.Sel].(*types.Func)
			}
		}
	}
	if !inline {
		name := fmt.Sprintf("verif_f%d", r.n)
		fmt.Fprintf(&pre, "%s := %s; ", name, fn)
		fn = name
	}
	var args []string
	for i, a := range call.Args {
		txt := r.render(a)
		if !r.inlineArg(a) {
			name := fmt.Sprintf("verif_a%d_%d", r.n, i)
			fmt.Fprintf(&pre, "%s := %s; ", name, txt)
			txt = name
		}
		args = append(args, txt)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	return fmt.Sprintf("{ %s%s(func() { %s(%s%s) }) }", pre.String(), r.sim("Go"), fn, strings.Join(args, ", "), ell)
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label string) string {
	if len(n.Body.List) == 0 {
		return label + r.plain(n)
	}
	r.n++
	id := r.n
	var pre, cases, body strings.Builder
	hasDefault := false
	idx := 0
	pos := n.Body.Lbrace + 1
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		body.Write(r.src[r.off(pos):r.off(cc.Pos())])
		pos = cc.End()
		if cc.Comm == nil {
			hasDefault = true
			body.WriteString("default:")
			body.WriteString(r.stmts(cc.Colon+1, cc.End(), cc.Body))
			continue
		}
		fmt.Fprintf(&body, "case %d:", idx)
		ch := fmt.Sprintf("verif_c%d_%d", id, idx)
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := %s; ", ch, r.render(s.Chan))
			fmt.Fprintf(&cases, ", %s(%s)(%s)", r.sim("S"), ch, r.render(s.Value))
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := %s; ", ch, r.render(u.X))
			fmt.Fprintf(&cases, ", %s(%s)", r.sim("R"), ch)
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := %s; ", ch, r.render(u.X))
			fmt.Fprintf(&cases, ", %s(%s)", r.sim("R"), ch)
			var lhs []string
			for _, l := range s.Lhs {
				lhs = append(lhs, r.render(l))
			}
			val := fmt.Sprintf("%s(%s, verif_v%d)", r.sim("V"), ch, id)
			if len(lhs) == 2 {
				val += fmt.Sprintf(", verif_ok%d", id)
			}
			fmt.Fprintf(&body, " %s %s %s; ", strings.Join(lhs, ", "), s.Tok, val)
		}
		idx++
		body.WriteString(r.stmts(cc.Colon+1, cc.End(), cc.Body))
	}
	tail := string(r.src[r.off(pos):r.off(n.Body.Rbrace)])
	if !hasDefault {
		tail += `default: panic("unreachable"); `
	}
	return fmt.Sprintf("{ %sverif_i%d, verif_v%d, verif_ok%d := %s(%t%s); _, _ = verif_v%d, verif_ok%d; %sswitch verif_i%d {%s%s} }",
		pre.String(), id, id, id, r.sim("Select"), hasDefault, cases.String(), id, id, label, id, body.String(), tail)
}
