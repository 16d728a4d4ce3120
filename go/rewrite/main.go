// Command rewrite produces instrumented copies of Go packages.
//
//	rewrite -mode maps  -out DIR -overlay FILE pkg...
//	rewrite -mode sched -out DIR -overlay FILE pkg...
//
// In mode maps only ranging over maps is redirected to verif.local/v/sched, so
// that the iteration order becomes a choice of the checker. In mode sched every
// operation a goroutine can synchronise through (go, channels, select, reflect
// select, sync, sync/atomic, time, log.Fatal, os.Exit, net) goes through the
// cooperative scheduler as well. Everything else is left as it is: the code that
// runs is the code of the working tree.
//
// A package given as PATH=NAME@DIR is additionally renamed to package NAME and
// laid out under DIR (used for package main and for module-cache packages, which
// an overlay may not touch).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

const schedPath = "verif.local/v/sched"
const schedName = "vsched"

func main() {
	mode := flag.String("mode", "maps", "maps or sched")
	out := flag.String("out", "", "output directory")
	overlay := flag.String("overlay", "", "overlay file to write")
	flag.Parse()

	type target struct{ path, name, dir string }
	var targets []target
	var paths []string
	for _, a := range flag.Args() {
		t := target{path: a}
		if i := strings.Index(a, "="); i >= 0 {
			t.path = a[:i]
			rest := a[i+1:]
			j := strings.Index(rest, "@")
			t.name, t.dir = rest[:j], rest[j+1:]
		}
		targets = append(targets, t)
		paths = append(paths, t.path)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax |
			packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile,
	}
	pkgs, err := packages.Load(cfg, paths...)
	if err != nil {
		fatal(err)
	}
	byPath := map[string]*packages.Package{}
	for _, p := range pkgs {
		byPath[p.PkgPath] = p
	}
	replace := map[string]string{}
	for _, t := range targets {
		p := byPath[t.path]
		if p == nil {
			fatal(fmt.Errorf("package %s not loaded", t.path))
		}
		for _, e := range p.Errors {
			fatal(e)
		}
		var g *globals
		if *mode == "sched" && strings.HasPrefix(t.path, "github.com/iomz/gosstrak/") {
			g = &globals{specs: map[types.Object]int{}}
		}
		for i, f := range p.Syntax {
			src := p.CompiledGoFiles[i]
			if !strings.HasSuffix(src, ".go") {
				continue
			}
			r := &rewriter{fset: p.Fset, info: p.TypesInfo, pkg: p.Types, file: f, sched: *mode == "sched", dep: !strings.HasPrefix(t.path, "github.com/iomz/gosstrak/")}
			r.globals = g
			r.last = i == len(p.Syntax)-1
			data := r.rewrite(t.name)
			dst := filepath.Join(*out, strings.ReplaceAll(p.PkgPath, "/", "_"), filepath.Base(src))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal(err)
			}
			if err := os.WriteFile(dst, data, 0o644); err != nil {
				fatal(err)
			}
			if t.dir != "" {
				replace[filepath.Join(t.dir, filepath.Base(src))] = dst
			} else {
				replace[src] = dst
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if *overlay != "" {
		if err := os.WriteFile(*overlay, b, 0o644); err != nil {
			fatal(err)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "rewrite:", err)
	os.Exit(2)
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	sched bool
	dep   bool // not part of the repository
	used  bool
	n     int

	globals *globals
	last    bool // last file of the package
}

// globals collects what it takes to give every execution fresh package variables.
type globals struct {
	n     int
	zero  []int
	specs map[types.Object]int
	inits []int
}

func (r *rewriter) call0(name string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}
}

func function(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

// resettable adds a function ResetGlobals to the package, which gives every
// package variable its initial value again and reruns the init functions.
func (r *rewriter) resettable(f *ast.File) {
	g := r.globals
	var add []ast.Decl
	var inits []ast.Stmt
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				g.n++
				d.Name = ast.NewIdent(fmt.Sprintf("vinit_%d", g.n))
				g.inits = append(g.inits, g.n)
				inits = append(inits, r.call0(d.Name.Name))
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				set := func(lhs, rhs []ast.Expr) int {
					g.n++
					add = append(add, function(fmt.Sprintf("vreset_%d", g.n), &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}))
					return g.n
				}
				switch {
				case len(vs.Values) == 0:
					for _, n := range vs.Names {
						if n.Name != "_" {
							g.zero = append(g.zero, set([]ast.Expr{ast.NewIdent(n.Name)}, []ast.Expr{
								&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}}))
						}
					}
				case len(vs.Values) == len(vs.Names):
					for i, n := range vs.Names {
						if n.Name != "_" {
							g.specs[r.info.Defs[n]] = set([]ast.Expr{ast.NewIdent(n.Name)}, []ast.Expr{vs.Values[i]})
						}
					}
				default:
					var lhs []ast.Expr
					for _, n := range vs.Names {
						lhs = append(lhs, ast.NewIdent(n.Name))
					}
					k := set(lhs, vs.Values)
					for _, n := range vs.Names {
						if n.Name != "_" {
							g.specs[r.info.Defs[n]] = k
						}
					}
				}
			}
		}
	}
	if len(inits) > 0 {
		add = append(add, function("init", inits...))
	}
	if r.last {
		var body []ast.Stmt
		done := map[int]bool{}
		call := func(k int) {
			if !done[k] {
				done[k] = true
				body = append(body, r.call0(fmt.Sprintf("vreset_%d", k)))
			}
		}
		for _, k := range g.zero {
			call(k)
		}
		for _, in := range r.info.InitOrder {
			for _, v := range in.Lhs {
				if k, ok := g.specs[v]; ok {
					call(k)
				}
			}
		}
		for _, k := range g.inits {
			body = append(body, r.call0(fmt.Sprintf("vinit_%d", k)))
		}
		add = append(add, function("ResetGlobals", body...))
	}
	f.Decls = append(f.Decls, add...)
}

func (r *rewriter) sel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(schedName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent("vs" + strconv.Itoa(r.n) + "_")
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	t := tv.Type
	if tp, ok := t.(*types.TypeParam); ok {
		if c := coreType(tp); c != nil {
			return c
		}
		return nil
	}
	return t.Underlying()
}

func coreType(tp *types.TypeParam) types.Type {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var core types.Type
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		t := iface.EmbeddedType(i)
		if u, ok := t.(*types.Union); ok {
			if u.Len() != 1 {
				return nil
			}
			t = u.Term(0).Type()
		}
		core = t.Underlying()
	}
	return core
}

// pkgOf returns the import path when sel is pkg.Name.
func (r *rewriter) pkgOf(sel *ast.SelectorExpr) string {
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

func (r *rewriter) builtin(call *ast.CallExpr) string {
	id, ok := ast.Unparen(call.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// names redirected to the scheduler, per package
var redirect = map[string]map[string]string{
	"time": {
		"NewTicker": "NewTicker", "NewTimer": "NewTimer", "After": "After", "AfterFunc": "AfterFunc", "Tick": "Tick",
		"Sleep": "Sleep", "Now": "Now", "Since": "Since", "Until": "Until", "Ticker": "Ticker", "Timer": "Timer",
	},
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Map": "Map", "Locker": "Locker", "OnceFunc": "OnceFunc",
	},
	"reflect": {"Select": "ReflectSelect"},
	"runtime": {"Gosched": "Gosched", "Goexit": "Goexit"},
	"os":      {"Exit": "Exit", "Args": "Args", "MkdirAll": "MkdirAll"},
	"log": {
		"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln",
		"Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrint",
	},
	"net":     {"Dial": "NetDial", "DialTimeout": "NetDialTimeout", "Listen": "NetListen"},
	"context": {"WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline"},
}

// names redirected for the statistics client, whose backend is a database
var redirectPkg = map[string]map[string]string{
	"github.com/influxdata/influxdb1-client/v2": {"NewHTTPClient": "NewHTTPClient"},
}

func (r *rewriter) rewrite(rename string) []byte {
	f := r.file
	hook := false
	post := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.RangeStmt:
			switch u := r.under(n.X).(type) {
			case *types.Map:
				if r.dep {
					return true // the order does not show in the packages we depend on
				}
				n.X = r.call("RangeMap", n.X)
			case *types.Chan:
				if r.sched {
					_ = u
					n.X = r.call("RangeChan", n.X)
				}
			}
		}
		if !r.sched {
			return true
		}
		switch n := c.Node().(type) {
		case *ast.SelectorExpr:
			if p := r.pkgOf(n); p != "" {
				if to, ok := redirect[p][n.Sel.Name]; ok {
					// embedded fields keep their name: vsched.Mutex embeds as Mutex
					c.Replace(r.sel(to))
				} else if to, ok := redirectPkg[p][n.Sel.Name]; ok {
					hook = true
					c.Replace(&ast.SelectorExpr{X: ast.NewIdent("vhook"), Sel: ast.NewIdent(to)})
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				// v, ok := <-ch is handled by the enclosing statement
				if as, ok := c.Parent().(*ast.AssignStmt); ok && len(as.Lhs) == 2 && len(as.Rhs) == 1 {
					c.Replace(r.call("Recv2", n.X))
				} else if vs, ok := c.Parent().(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					c.Replace(r.call("Recv2", n.X))
				} else {
					c.Replace(r.call("Recv", n.X))
				}
			}
		case *ast.SendStmt:
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", n.Chan), Args: []ast.Expr{n.Value}}})
		case *ast.CallExpr:
			switch r.builtin(n) {
			case "close":
				n.Fun = r.sel("Close")
			case "len":
				if _, ok := r.under(n.Args[0]).(*types.Chan); ok {
					n.Fun = r.sel("Len")
				}
			case "make":
				if _, ok := r.under(n).(*types.Chan); ok {
					inner := *n
					c.Replace(r.call("Made", &inner))
				}
			case "":
				r.atomicCall(n)
			}
		case *ast.GoStmt:
			c.Replace(r.goStmt(n))
		case *ast.SelectStmt:
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				return true // replaced with its label
			}
			if len(n.Body.List) == 0 {
				c.Replace(&ast.BlockStmt{List: []ast.Stmt{
					&ast.ExprStmt{X: r.call("Block")},
					&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
				}})
				return true
			}
			c.Replace(r.selectStmt(n, nil))
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				c.Replace(r.selectStmt(s, n.Label))
			}
		}
		return true
	}
	// The receive of a comm clause must stay recognisable until the select is
	// rewritten, so selects are rewritten from the parent: the clause statements
	// are detached first.
	pre := func(c *astutil.Cursor) bool { return true }
	if r.sched {
		r.prepareSelects(f)
	}
	astutil.Apply(f, pre, post)
	// keep only directives such as build constraints
	var keep []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.End() < f.Package {
			for _, cm := range g.List {
				if strings.HasPrefix(cm.Text, "//go:build") {
					keep = append(keep, &ast.CommentGroup{List: []*ast.Comment{cm}})
				}
			}
		}
	}
	f.Comments = keep
	stripDocs(f)
	if rename != "" {
		f.Name = ast.NewIdent(rename)
		if r.pkg.Name() == "main" {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					fd.Name = ast.NewIdent("Main")
				}
			}
		}
	}
	if r.globals != nil {
		r.resettable(f)
	}
	if r.used {
		astutil.AddNamedImport(r.fset, f, schedName, schedPath)
	}
	if hook {
		astutil.AddNamedImport(r.fset, f, "vhook", "verif.local/v/vhook")
	}
	// drop imports nothing refers to any more
	for _, imp := range append([]*ast.ImportSpec{}, f.Imports...) {
		path, _ := strconv.Unquote(imp.Path.Value)
		if imp.Name != nil && (imp.Name.Name == "_" || imp.Name.Name == "." || imp.Name.Name == schedName || imp.Name.Name == "vhook") {
			continue
		}
		if !r.stillUsed(f, imp) {
			name := ""
			if imp.Name != nil {
				name = imp.Name.Name
			}
			astutil.DeleteNamedImport(r.fset, f, name, path)
		}
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, r.fset, f); err != nil {
		fatal(fmt.Errorf("%s: %v", r.fset.File(f.FileStart).Name(), err))
	}
	return buf.Bytes()
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.File:
			d.Doc = nil
		case *ast.GenDecl:
			d.Doc = nil
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		}
		return true
	})
}

// stillUsed reports whether an identifier resolved to the import remains.
func (r *rewriter) stillUsed(f *ast.File, imp *ast.ImportSpec) bool {
	obj := r.info.Implicits[imp]
	if imp.Name != nil {
		obj = r.info.Defs[imp.Name]
	}
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && obj != nil && r.info.Uses[id] == obj {
			found = true
		}
		return !found
	})
	return found
}

// selInfo keeps a select's communication clauses out of the generic rewriting.
type commInfo struct {
	send     bool
	ch, val  ast.Expr
	lhs      []ast.Expr
	tok      token.Token
	isDeflt  bool
	tmp      *ast.Ident
	valueTmp *ast.Ident
}

var comms = map[*ast.CommClause]*commInfo{}

// prepareSelects replaces `case v, ok := <-ch:` by an expression list carrier
// so that the channel expressions get rewritten but the receive itself is not.
func (r *rewriter) prepareSelects(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		cc, ok := n.(*ast.CommClause)
		if !ok {
			return true
		}
		ci := &commInfo{}
		comms[cc] = ci
		carrier := &ast.CallExpr{Fun: ast.NewIdent("carrier_")}
		switch s := cc.Comm.(type) {
		case nil:
			ci.isDeflt = true
			return true
		case *ast.SendStmt:
			ci.send = true
			carrier.Args = []ast.Expr{s.Chan, s.Value}
		case *ast.ExprStmt:
			carrier.Args = []ast.Expr{ast.Unparen(s.X).(*ast.UnaryExpr).X}
		case *ast.AssignStmt:
			ci.tok = s.Tok
			ci.lhs = s.Lhs
			carrier.Args = []ast.Expr{ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr).X}
			if s.Tok == token.ASSIGN {
				carrier.Args = append(carrier.Args, s.Lhs...)
			}
		}
		cc.Comm = &ast.ExprStmt{X: carrier}
		return true
	})
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	block := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	res := r.tmp()
	idx := r.tmp()
	sel := r.call("Select")
	hasDefault := "false"
	sel.Args = append(sel.Args, nil)
	i := 0
	for _, st := range s.Body.List {
		cc := st.(*ast.CommClause)
		ci := comms[cc]
		if ci.isDeflt {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{
				List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}},
				Body: cc.Body,
			})
			continue
		}
		args := cc.Comm.(*ast.ExprStmt).X.(*ast.CallExpr).Args
		ch := r.tmp()
		block.List = append(block.List, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{args[0]}})
		body := append([]ast.Stmt{}, cc.Body...)
		if ci.send {
			sel.Args = append(sel.Args, &ast.CallExpr{Fun: r.call("CaseSend", ch), Args: []ast.Expr{args[1]}})
		} else {
			sel.Args = append(sel.Args, r.call("CaseRecv", ch))
			lhs := ci.lhs
			if ci.tok == token.ASSIGN {
				lhs = args[1:]
			}
			if len(lhs) > 0 {
				rhs := []ast.Expr{r.call("Val", ch, res)}
				if len(lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: res, Sel: ast.NewIdent("OK")})
				}
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: ci.tok, Rhs: rhs}}, body...)
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}},
			Body: body,
		})
		i++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
		&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
	}})
	sel.Args[0] = ast.NewIdent(hasDefault)
	block.List = append(block.List,
		&ast.AssignStmt{Lhs: []ast.Expr{idx, res}, Tok: token.DEFINE, Rhs: []ast.Expr{sel}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{res}})
	sw.Tag = idx
	if label != nil {
		block.List = append(block.List, &ast.LabeledStmt{Label: label, Stmt: sw})
	} else {
		block.List = append(block.List, sw)
	}
	return block
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}
	// evaluate function and arguments now, call later
	block := &ast.BlockStmt{}
	fn := r.tmp()
	fun := call.Fun
	keepFun := false
	if id, ok := ast.Unparen(fun).(*ast.Ident); ok {
		if _, isb := r.info.Uses[id].(*types.Builtin); isb {
			keepFun = true
		}
	}
	inner := &ast.CallExpr{Ellipsis: call.Ellipsis}
	if keepFun {
		inner.Fun = fun
	} else {
		block.List = append(block.List, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		inner.Fun = fn
	}
	for _, a := range call.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			inner.Args = append(inner.Args, a) // constants need no capture
			continue
		}
		t := r.tmp()
		block.List = append(block.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		inner.Args = append(inner.Args, t)
	}
	block.List = append(block.List, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}},
	})})
	return block
}

// atomicCall inserts a scheduling point before operations of sync/atomic.
func (r *rewriter) atomicCall(n *ast.CallExpr) {
	sel, ok := n.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	if id, ok := sel.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			if pn.Imported().Path() == "sync/atomic" && len(n.Args) > 0 {
				n.Args[0] = r.call("AtomicArg", n.Args[0])
			}
			return
		}
	}
	s, ok := r.info.Selections[sel]
	if !ok {
		return
	}
	fn, ok := s.Obj().(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync/atomic" {
		return
	}
	if len(s.Index()) != 1 {
		return // promoted through an embedded field
	}
	if _, isPtr := s.Recv().Underlying().(*types.Pointer); isPtr {
		sel.X = r.call("AtomicArg", sel.X)
	} else {
		sel.X = r.call("AtomicArg", &ast.UnaryExpr{Op: token.AND, X: sel.X})
	}
}
