// instr rewrites the packages it is given so that their goroutines, channels, locks and atomics go through
// zz_verif/vsched. It reads the sources of the current tree, writes rewritten copies to -out, and prints a JSON map from
// original to rewritten file for the build overlay. It knows the constructs of the language, not this code base.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const base = "github.com/KitchenMishap/pudding-shed/zz_verif/"

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

func die(a ...any) { fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...); os.Exit(1) }

func main() {
	out := flag.String("out", "", "directory for rewritten files")
	files := flag.Bool("files", false, "make operations on open files scheduling points")
	flag.Parse()
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles"}, flag.Args()...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exports := map[string]string{}
	var mine []pkg
	want := map[string]bool{}
	for _, a := range flag.Args() {
		want[a] = true
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if want[p.ImportPath] {
			mine = append(mine, p)
		}
	}
	rep := map[string]string{}
	for _, p := range mine {
		fset := token.NewFileSet()
		var fs []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			n := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, n, nil, 0)
			if err != nil {
				die(err)
			}
			fs = append(fs, af)
			names = append(names, n)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if exports[path] == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(exports[path])
		})}
		if _, err := conf.Check(p.ImportPath, fset, fs, info); err != nil {
			die(err)
		}
		for i, af := range fs {
			r := &rewriter{info: info, files: *files, keep: map[string]string{}}
			r.file(af)
			if !r.changed {
				continue
			}
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, af); err != nil {
				die(names[i], err)
			}
			for _, k := range r.keepOrder {
				fmt.Fprintf(&buf, "\nvar _ = %s\n", k)
			}
			o := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
			if err := os.WriteFile(o, buf.Bytes(), 0644); err != nil {
				die(err)
			}
			rep[names[i]] = o
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

type rewriter struct {
	info      *types.Info
	files     bool
	changed   bool
	usesSched bool
	tmp       int
	keep      map[string]string
	keepOrder []string
}

func (r *rewriter) file(f *ast.File) {
	r.stmtsIn(reflect.ValueOf(f))
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "sync":
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			im.Path.Value = strconv.Quote(base + "vsync")
			r.changed = true
		case "sync/atomic":
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
			im.Path.Value = strconv.Quote(base + "vatomic")
			r.changed = true
		}
	}
	if r.usesSched {
		r.changed = true
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

func (r *rewriter) sched(name string) ast.Expr {
	r.usesSched = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool { _, ok := under(r.typ(e)).(*types.Chan); return ok }
func (r *rewriter) isMap(e ast.Expr) bool  { _, ok := under(r.typ(e)).(*types.Map); return ok }

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// stmtsIn walks any AST value, rewriting expressions and statements bottom-up.
func (r *rewriter) stmtsIn(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.Scope)(nil)) {
			return
		}
		r.special(v)
		r.stmtsIn(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			if v.Type().Field(i).Name == "Unresolved" {
				continue
			}
			r.child(f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.child(v.Index(i))
		}
	}
}

func (r *rewriter) child(f reflect.Value) {
	r.stmtsIn(f)
	if f.Kind() != reflect.Interface || f.IsNil() {
		return
	}
	switch f.Type() {
	case exprT:
		if e := r.expr(f.Interface().(ast.Expr)); e != nil {
			f.Set(reflect.ValueOf(e))
		}
	case stmtT:
		if s := r.stmt(f.Interface().(ast.Stmt)); s != nil {
			f.Set(reflect.ValueOf(s))
		}
	}
}

// special runs before the children: forms whose meaning depends on the parent.
func (r *rewriter) special(v reflect.Value) {
	n, ok := v.Interface().(ast.Node)
	if !ok {
		return
	}
	switch x := n.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := recvOf(x.Rhs[0]); u != nil {
				x.Rhs[0] = call(r.sched("Recv2"), u.X)
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := recvOf(x.Values[0]); u != nil {
				x.Values[0] = call(r.sched("Recv2"), u.X)
			}
		}
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			x.X = call(r.sched("Seq"), x.X)
		} else if r.isMap(x.X) {
			x.X = call(r.sched("MapSeq"), x.X)
			if x.Key == nil && x.Value == nil {
				break
			}
		}
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

var calls = map[string]string{
	"time.Sleep": "Sleep", "runtime.GC": "GC", "runtime.Gosched": "Gosched", "runtime.ReadMemStats": "ReadMemStats",
	"bufio.NewReaderSize": "NewReaderSize", "bufio.NewWriterSize": "NewWriterSize",
}

var fileReads = map[string]bool{"Read": true, "ReadAt": true, "Stat": true, "Sync": true, "Close": true}
var fileWrites = map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Truncate": true, "Seek": true}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.sched("Recv"), x.X)
		}
	case *ast.CallExpr:
		switch f := x.Fun.(type) {
		case *ast.Ident:
			if _, ok := r.info.Uses[f].(*types.Builtin); ok {
				switch f.Name {
				case "close":
					x.Fun = r.sched("Close")
				case "len", "cap":
					if r.isChan(x.Args[0]) {
						x.Fun = r.sched(strings.ToUpper(f.Name[:1]) + f.Name[1:])
					}
				case "make":
					if ct, ok := x.Args[0].(*ast.ChanType); ok {
						n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
						if len(x.Args) == 2 {
							n = call(ast.NewIdent("int"), x.Args[1])
						}
						return call(&ast.IndexExpr{X: r.sched("MakeChan"), Index: ct.Value}, n)
					}
				}
			}
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					if to := calls[pn.Imported().Path()+"."+f.Sel.Name]; to != "" {
						k := id.Name + "." + f.Sel.Name
						if r.keep[k] == "" {
							r.keep[k] = k
							r.keepOrder = append(r.keepOrder, k)
						}
						x.Fun = r.sched(to)
						return nil
					}
				}
			}
			if r.files {
				if sel := r.info.Selections[f]; sel != nil && sel.Recv().String() == "*os.File" {
					if fileReads[f.Sel.Name] {
						f.X = call(r.sched("FR"), f.X)
					} else if fileWrites[f.Sel.Name] {
						f.X = call(r.sched("FW"), f.X)
					}
				}
			}
		}
	}
	return nil
}

func (r *rewriter) name() *ast.Ident { r.tmp++; return ast.NewIdent(fmt.Sprintf("vs_%d", r.tmp)) }

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.sched("SendTo"), x.Chan), x.Value)}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return nil
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	results := 0
	if sig, ok := under(r.typ(c.Fun)).(*types.Signature); ok {
		results = sig.Results().Len()
	} else {
		results = 1 // builtins and the like: always wrap
	}
	if len(c.Args) == 0 && results == 0 {
		return &ast.ExprStmt{X: call(r.sched("Go"), c.Fun)}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return e
		}
		if _, ok := e.(*ast.FuncLit); ok {
			return e
		}
		n := r.name()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return n
	}
	c.Fun = bind(c.Fun)
	for i := range c.Args {
		c.Args[i] = bind(c.Args[i])
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.sched("Go"), lit)})
	return &ast.BlockStmt{List: pre}
}

// selectStmt becomes a switch on the index of the case taken. (The receive operations inside the clauses have already
// been rewritten to Recv calls by the bottom-up walk.)
func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	idx, val, ok := r.name(), r.name(), r.name()
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	dflt := "false"
	n := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		body := cc.Body
		if cc.Comm == nil {
			dflt = "true"
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: body})
			continue
		}
		chanOf := func(e ast.Expr) ast.Expr { return e.(*ast.CallExpr).Args[0] }
		ch := r.name()
		bindCh := func(e ast.Expr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		}
		switch st := cc.Comm.(type) {
		case *ast.ExprStmt:
			c := st.X.(*ast.CallExpr)
			if inner, isSend := c.Fun.(*ast.CallExpr); isSend { // vsched.SendTo(ch)(v)
				bindCh(inner.Args[0])
				cases = append(cases, call(r.sched("CaseSend"), ch, c.Args[0]))
			} else {
				bindCh(chanOf(c))
				cases = append(cases, call(r.sched("CaseRecv"), ch))
			}
		case *ast.AssignStmt:
			bindCh(chanOf(st.Rhs[0]))
			cases = append(cases, call(r.sched("CaseRecv"), ch))
			rhs := []ast.Expr{call(r.sched("Val"), ch, val)}
			if len(st.Lhs) == 2 {
				rhs = append(rhs, ok)
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: st.Lhs, Tok: st.Tok, Rhs: rhs}}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: body})
		n++
	}
	args := append([]ast.Expr{ast.NewIdent(dflt)}, cases...)
	pre = append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{idx, val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.sched("Select"), args...)}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, ok}},
		&ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{List: clauses}})
	return &ast.BlockStmt{List: pre}
}
