// Command instr copies Go packages into a scratch directory, replacing every
// synchronisation, time, network, randomness and goroutine construct by the
// controlled runtime of verif.local/mc.
//
// usage: instr -list LIST.json -out DIR -root MODROOT -map importpath=dir ...
// LIST.json is the output of `go list -export -deps -json PKGS`.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif.local/instr/astutil"
)

type lpkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
}

const base = "verif.local/mc/"

// names replaced per package; nil: every name
var repl = map[string]struct {
	pkg   string
	names map[string]bool
}{
	"sync":               {"vsync", nil},
	"sync/atomic":        {"vatomic", nil},
	"go.uber.org/atomic": {"vuatomic", nil},
	"context":            {"vcontext", nil},
	"math/rand":          {"vrand", set("Uint32 Uint64 Int Int31 Int63 Intn Int31n Int63n Float64 Float32 Seed")},
	"math/rand/v2":       {"vrand", set("Uint32 Uint64 Int IntN Uint32N Float64 Float32")},
	"time":               {"vtime", set("Now Since Until Sleep Timer NewTimer AfterFunc After Ticker NewTicker Tick")},
	"net":                {"vnet", set("Listen Dial DialTimeout Dialer ListenConfig")},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type mapFlag []string

func (m *mapFlag) String() string     { return "" }
func (m *mapFlag) Set(s string) error { *m = append(*m, s); return nil }

func main() {
	list := flag.String("list", "", "")
	var maps mapFlag
	flag.Var(&maps, "map", "modulepath=outdir")
	fine := flag.Bool("fine", true, "insert statement-level points")
	flag.Parse()
	b, err := os.ReadFile(*list)
	if err != nil {
		die("%v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	pk := map[string]*lpkg{}
	var order []*lpkg
	for {
		p := &lpkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pk[p.ImportPath] = p
		order = append(order, p)
	}
	out := map[string]string{}
	for _, m := range maps {
		i := strings.IndexByte(m, '=')
		out[m[:i]] = m[i+1:]
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})
	n := 0
	for _, p := range order {
		if p.Module == nil || out[p.Module.Path] == "" || p.Standard {
			continue
		}
		mod := p.Module.Path
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		dir := filepath.Join(out[mod], rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, af := range files {
			r := &rew{fset: fset, info: info, file: af, fine: *fine}
			r.run()
			if i == 0 {
				r.globals(tp)
			}
			r.fixImports()
			var buf bytes.Buffer
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, af); err != nil {
				die("print: %v", err)
			}
			if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			n++
		}
	}
	fmt.Fprintf(os.Stderr, "instr: %d files\n", n)
}

type rew struct {
	fset *token.FileSet
	info *types.Info
	file *ast.File
	fine bool
	used map[string]bool // verif packages used
	tmp  int
	pts  map[ast.Stmt]bool

	commStmt   map[ast.Stmt]bool
	kind       map[ast.Node]string
	fromSelect map[*ast.BlockStmt]bool
}

func (r *rew) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint().Underlying()
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rew) vrt(name string) ast.Expr {
	r.used["vrt"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("verif_vrt"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func method(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: paren(x), Sel: ast.NewIdent(m)}, args...)
}
func paren(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return x
	}
	return &ast.ParenExpr{X: x}
}

func (r *rew) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rew) fresh(s string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("verif_%s%d", s, r.tmp))
}

// interesting: the statement's own expressions touch shared-looking memory
func (r *rew) interesting(s ast.Stmt) bool {
	found := false
	var exprs []ast.Node
	switch x := s.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.ReturnStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
		exprs = append(exprs, s)
	case *ast.IfStmt:
		if x.Init != nil {
			exprs = append(exprs, x.Init)
		}
		exprs = append(exprs, x.Cond)
	case *ast.SwitchStmt:
		if x.Init != nil {
			exprs = append(exprs, x.Init)
		}
		if x.Tag != nil {
			exprs = append(exprs, x.Tag)
		}
	case *ast.TypeSwitchStmt:
		exprs = append(exprs, x.Assign)
	case *ast.RangeStmt:
		exprs = append(exprs, x.X)
	case *ast.ForStmt:
		if x.Init != nil {
			exprs = append(exprs, x.Init)
		}
		if x.Cond != nil {
			exprs = append(exprs, x.Cond)
		}
	case *ast.DeclStmt:
		exprs = append(exprs, x)
	default:
		return false
	}
	for _, e := range exprs {
		ast.Inspect(e, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if sel := r.info.Selections[y]; sel != nil && sel.Kind() == types.FieldVal {
					found = true
				}
				if id, ok := y.X.(*ast.Ident); ok {
					if _, ok := r.info.Uses[id].(*types.PkgName); ok {
						if _, ok := r.info.Uses[y.Sel].(*types.Var); ok {
							found = true
						}
					}
				}
			case *ast.IndexExpr:
				if t := r.typ(y.X); t != nil {
					switch t.Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer:
						found = true
					}
				}
			case *ast.StarExpr:
				found = true
			case *ast.Ident:
				if v, ok := r.info.Uses[y].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					found = true
				}
			}
			return !found
		})
	}
	return found
}

func (r *rew) run() {
	r.used = map[string]bool{}
	r.pts = map[ast.Stmt]bool{}
	r.commStmt = map[ast.Stmt]bool{}
	r.kind = map[ast.Node]string{}
	r.fromSelect = map[*ast.BlockStmt]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if cc, ok := n.(*ast.CommClause); ok && cc.Comm != nil {
			r.commStmt[cc.Comm] = true
		}
		return true
	})
	if r.fine {
		ast.Inspect(r.file, func(n ast.Node) bool {
			var l []ast.Stmt
			switch b := n.(type) {
			case *ast.BlockStmt:
				l = b.List
			case *ast.CaseClause:
				l = b.Body
			case *ast.CommClause:
				l = b.Body
			}
			for _, s := range l {
				if r.interesting(s) {
					r.pts[s] = true
				}
			}
			return true
		})
	}
	astutil.Apply(r.file, r.pre, r.post)
	if r.fine {
		r.insertPts()
	}
}

// pre handles constructs that must be seen before their children change.
func (r *rew) pre(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.CallExpr:
		if len(n.Args) >= 1 {
			for _, b := range []string{"make", "len", "cap", "close"} {
				if r.isBuiltin(n.Fun, b) && isChan(r.typ(n.Args[0])) {
					r.kind[n] = b
				}
			}
		}
	case *ast.RangeStmt:
		if t := r.typ(n.X); isChan(t) {
			r.kind[n] = "rangechan"
		} else if isMap(t) {
			r.kind[n] = "rangemap"
		}
	}
	return true
}

func (r *rew) post(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.SelectorExpr:
		id, ok := n.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		rp, ok := repl[pn.Imported().Path()]
		if !ok || (rp.names != nil && !rp.names[n.Sel.Name]) {
			return true
		}
		r.used[rp.pkg] = true
		n.X = ast.NewIdent("verif_" + rp.pkg)
	case *ast.ChanType:
		c.Replace(&ast.StarExpr{X: &ast.IndexExpr{X: r.vrt("Chan"), Index: n.Value}})
	case *ast.SendStmt:
		if _, ok := c.Parent().(*ast.CommClause); ok {
			return true // handled with the select
		}
		c.Replace(&ast.ExprStmt{X: method(n.Chan, "Send", n.Value)})
	case *ast.UnaryExpr:
		if n.Op != token.ARROW {
			return true
		}
		if r.inComm(c) {
			return true
		}
		if r.twoValued(c) {
			c.Replace(method(n.X, "Recv2"))
		} else {
			c.Replace(method(n.X, "Recv"))
		}
	case *ast.CallExpr:
		switch r.kind[n] {
		case "make":
			var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
			if len(n.Args) > 1 {
				size = call(ast.NewIdent("int"), n.Args[1])
			}
			elem := chanElem(n.Args[0])
			if elem == nil {
				die("make of a named channel type is not supported: %s", r.fset.Position(n.Pos()))
			}
			c.Replace(call(&ast.IndexExpr{X: r.vrt("MakeChan"), Index: elem}, size))
		case "close":
			c.Replace(method(n.Args[0], "Close"))
		case "len":
			c.Replace(method(n.Args[0], "Len"))
		case "cap":
			c.Replace(method(n.Args[0], "Cap"))
		}
	case *ast.GoStmt:
		r.goStmt(c, n)
	case *ast.RangeStmt:
		switch r.kind[n] {
		case "rangechan":
			n.X = method(n.X, "All")
		case "rangemap":
			if n.Value != nil {
				n.X = call(r.vrt("MapRange2"), n.X)
			} else {
				n.X = call(r.vrt("MapRange1"), n.X)
			}
		}
	case *ast.SelectStmt:
		r.selectStmt(c, n)
	case *ast.LabeledStmt:
		if blk, ok := n.Stmt.(*ast.BlockStmt); ok && r.fromSelect[blk] {
			last := len(blk.List) - 1
			blk.List[last] = &ast.LabeledStmt{Label: n.Label, Stmt: blk.List[last]}
			c.Replace(blk)
		}
	}
	return true
}

func (r *rew) insertPts() {
	ins := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r.pts[s] {
				out = append(out, &ast.ExprStmt{X: call(r.vrt("Pt"))})
			}
			out = append(out, s)
		}
		return out
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			b.List = ins(b.List)
		case *ast.CaseClause:
			b.Body = ins(b.Body)
		}
		return true
	})
}

// globals registers every package variable for reset between executions.
func (r *rew) globals(tp *types.Package) {
	var body []ast.Stmt
	for _, name := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(name).(*types.Var); ok && name != "_" {
			_ = v
			body = append(body, &ast.ExprStmt{X: call(r.vrt("RegisterGlobal"), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(name)})})
		}
	}
	if len(body) == 0 {
		return
	}
	r.file.Decls = append(r.file.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
}

func (r *rew) fixImports() {
	used := map[string]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				used[pn.Imported().Path()] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	if len(r.used) > 0 {
		gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
		for _, p := range []string{"vrt", "vsync", "vatomic", "vuatomic", "vcontext", "vrand", "vtime", "vnet"} {
			if r.used[p] {
				gd.Specs = append(gd.Specs, &ast.ImportSpec{Name: ast.NewIdent("verif_" + p), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + p)}})
			}
		}
		decls = append(decls, gd)
	}
	for _, d := range r.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") || used[path] {
				specs = append(specs, s)
			}
		}
		if len(specs) > 0 {
			gd.Specs = specs
			decls = append(decls, gd)
		}
	}
	r.file.Decls = decls
}

func chanElem(e ast.Expr) ast.Expr {
	// after rewriting: *verif_vrt.Chan[T]
	if p, ok := e.(*ast.ParenExpr); ok {
		return chanElem(p.X)
	}
	if s, ok := e.(*ast.StarExpr); ok {
		if ix, ok := s.X.(*ast.IndexExpr); ok {
			return ix.Index
		}
	}
	return nil
}

func (r *rew) inComm(c *astutil.Cursor) bool {
	// the receive expression of a comm clause: parent is CommClause's Comm
	// (ExprStmt or AssignStmt); mark via the parents recorded by commRecv
	switch p := c.Parent().(type) {
	case *ast.ExprStmt:
		return r.commStmt[p]
	case *ast.AssignStmt:
		return r.commStmt[p]
	case *ast.ParenExpr:
		return false
	}
	return false
}

func (r *rew) twoValued(c *astutil.Cursor) bool {
	switch p := c.Parent().(type) {
	case *ast.AssignStmt:
		return len(p.Lhs) == 2 && len(p.Rhs) == 1
	case *ast.ValueSpec:
		return len(p.Names) == 2 && len(p.Values) == 1
	}
	return false
}

func (r *rew) goStmt(c *astutil.Cursor, n *ast.GoStmt) {
	cl := n.Call
	if fl, ok := cl.Fun.(*ast.FuncLit); ok && len(cl.Args) == 0 {
		c.Replace(&ast.ExprStmt{X: call(r.vrt("Go"), fl)})
		if fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
			c.Replace(&ast.ExprStmt{X: call(r.vrt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cl}}}})})
		}
		return
	}
	// evaluate function value and arguments first
	var stmts []ast.Stmt
	var fun ast.Expr = cl.Fun
	switch f := cl.Fun.(type) {
	case *ast.Ident:
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg || strings.HasPrefix(id.Name, "verif_") {
				break
			}
		}
		v := r.fresh("f")
		stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = v
	case *ast.FuncLit:
	default:
		v := r.fresh("f")
		stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = v
	}
	var args []ast.Expr
	sig, _ := r.typ(cl.Fun).(*types.Signature)
	for i, a := range cl.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			args = append(args, a) // constants and nil keep their untyped nature
			continue
		}
		_ = sig
		_ = i
		v := r.fresh("a")
		stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, v)
	}
	nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: cl.Ellipsis}
	stmts = append(stmts, &ast.ExprStmt{X: call(r.vrt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	if len(stmts) == 1 {
		c.Replace(stmts[0])
		return
	}
	c.Replace(&ast.BlockStmt{List: stmts})
}

func (r *rew) selectStmt(c *astutil.Cursor, n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.vrt("BlockForever"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}})
		return
	}
	var pre []ast.Stmt
	hasDef := false
	args := []ast.Expr{nil}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, cs := range n.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: cc.Body})
			continue
		}
		v := r.fresh("c")
		body := cc.Body
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vrt("NewSend"), s.Chan, s.Value)}})
		case *ast.ExprStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vrt("NewRecv"), unarrow(s.X))}})
		case *ast.AssignStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vrt("NewRecv"), unarrow(s.Rhs[0]))}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Val")}}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("OK")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs}}, body...)
		default:
			die("select clause %T", cc.Comm)
		}
		args = append(args, ast.NewIdent(v.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	args[0] = ast.NewIdent(strconv.FormatBool(hasDef))
	sw.Tag = call(r.vrt("Select"), args...)
	// the last clause becomes the default clause so that the switch terminates
	// wherever the select did
	last := sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause)
	last.List = nil
	var st ast.Stmt = sw
	blk := &ast.BlockStmt{List: append(pre, st)}
	r.fromSelect[blk] = true
	c.Replace(blk)
}

func unarrow(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x.X
			}
		}
		die("unexpected receive expression %T", e)
	}
}
