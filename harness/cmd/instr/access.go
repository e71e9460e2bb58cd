package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Access instrumentation: every access to memory another goroutine could
// reach (through a pointer, a slice, a map, a package variable or a variable a
// closure captures) reports itself to package verifsync, by wrapping the
// expression: x.f becomes (*verifsync.R(&x.f, site)). Assignments report when
// the value is stored, after the right hand side was evaluated.

type pkgInfo struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
}

type acc struct {
	info     *types.Info
	fs       *token.FileSet
	list     []ins
	captured map[types.Object]bool
	pkg      *types.Package
	local    map[string]bool // packages of the library
	sites    *[]string
	file     string
	src      []byte
	err      error
}

func accessOverlay(repo, out string) (map[string]string, []string, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard", "./pkg/...")
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		return nil, nil, fmt.Errorf("go list: %v %s", err, eb.String())
	}
	exports := map[string]string{}
	var mine []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, nil, err
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.Dir+"/", filepath.Join(repo, "pkg")+"/") {
			mine = append(mine, p)
		}
	}
	fs := token.NewFileSet()
	imp := importer.ForCompiler(fs, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	local := map[string]bool{}
	for _, p := range mine {
		local[p.ImportPath] = true
	}
	replace := map[string]string{}
	sites := []string{""}
	for _, p := range mine {
		var files []*ast.File
		var srcs [][]byte
		for _, n := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, n))
			if err != nil {
				return nil, nil, err
			}
			f, err := parser.ParseFile(fs, filepath.Join(p.Dir, n), src, parser.ParseComments)
			if err != nil {
				return nil, nil, err
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fs, files, info)
		if err != nil {
			return nil, nil, fmt.Errorf("type check %s: %v", p.ImportPath, err)
		}
		for i, f := range files {
			a := &acc{src: srcs[i], info: info, fs: fs, pkg: tp, local: local, sites: &sites, captured: map[types.Object]bool{}}
			a.file = strings.TrimPrefix(filepath.Join(p.Dir, p.GoFiles[i]), repo+"/")
			if err := a.doFile(f); err != nil {
				return nil, nil, err
			}
			path := filepath.Join(p.Dir, p.GoFiles[i])
			q := filepath.Join(out, fmt.Sprintf("a%03d_%s", len(replace)+1, p.GoFiles[i]))
			replace[path] = q
			if err := os.WriteFile(q, apply(srcs[i], a.list), 0o644); err != nil {
				return nil, nil, err
			}
		}
	}
	return replace, sites, nil
}

func apply(src []byte, list []ins) []byte {
	sort.SliceStable(list, func(i, j int) bool { return list[i].at < list[j].at })
	var b bytes.Buffer
	at := 0
	for _, i := range list {
		b.Write(src[at:i.at])
		b.WriteString(i.s)
		at = i.end
	}
	b.Write(src[at:])
	return b.Bytes()
}

func (a *acc) off(p token.Pos) int { return a.fs.Position(p).Offset }
func (a *acc) put(p token.Pos, s string) {
	o := a.off(p)
	a.list = append(a.list, ins{o, o, s})
}
func (a *acc) site(p token.Pos) string {
	*a.sites = append(*a.sites, fmt.Sprintf("%s:%d", a.file, a.fs.Position(p).Line))
	return strconv.Itoa(len(*a.sites) - 1)
}

func (a *acc) doFile(f *ast.File) error {
	for _, im := range f.Imports {
		if path, _ := strconv.Unquote(im.Path.Value); path == "sync" {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			a.list = append(a.list, ins{a.off(im.Path.Pos()), a.off(im.Path.End()), name + strconv.Quote(vs)})
		}
	}
	for _, im := range f.Imports {
		if path, _ := strconv.Unquote(im.Path.Value); path == "sync/atomic" || path == "unsafe" {
			return fmt.Errorf("%s imports %s", a.file, path)
		}
	}
	for id, o := range a.info.Uses {
		if o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync" {
			if tn, ok := o.(*types.TypeName); ok {
				switch tn.Name() {
				case "Mutex", "RWMutex", "Once", "Cond", "Locker":
				default:
					return fmt.Errorf("%s uses sync.%s", a.fs.Position(id.Pos()), tn.Name())
				}
			}
		}
	}
	a.put(f.Name.End(), "; import verifsync "+strconv.Quote(vs))
	// variables used by a closure they were not declared in
	var fns []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			if len(fns) > 0 {
				fns = fns[:len(fns)-1]
			}
			return true
		}
		fns = append(fns, n)
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := a.info.Uses[id].(*types.Var); ok && !v.IsField() {
				for i := len(fns) - 1; i >= 0; i-- {
					if fl, ok := fns[i].(*ast.FuncLit); ok {
						if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
							a.captured[v] = true
						}
					}
				}
			}
		}
		return true
	})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				if d.Name.Name == "init" && d.Recv == nil {
					continue
				}
				a.block(d.Body)
			}
		}
	}
	a.put(f.End(), "\nvar _ = verifsync.Yield\n")
	return a.err
}

// ---- statements

func (a *acc) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	a.stmts(b.List)
}

func (a *acc) stmts(l []ast.Stmt) {
	for _, s := range l {
		a.put(s.Pos(), "verifsync.Yield();")
		a.stmt(s, true)
	}
}

// stmt; inList: statements may be added after it
func (a *acc) stmt(s ast.Stmt, inList bool) {
	switch s := s.(type) {
	case nil:
	case *ast.AssignStmt:
		n := 0
		after := ""
		if s.Tok == token.ASSIGN && inList && a.plain(s.Lhs) {
			// the targets are reported once the statement is done
			for _, l := range s.Lhs {
				after += a.again(l)
			}
		} else if s.Tok != token.DEFINE {
			for _, l := range s.Lhs {
				n += a.write(l, inList && s.Tok == token.ASSIGN)
			}
		}
		for _, r := range s.Rhs {
			a.expr(r)
		}
		if n > 0 && inList && s.Tok == token.ASSIGN {
			a.put(s.End(), fmt.Sprintf("; verifsync.Stored(%d)", n))
		}
		if after != "" {
			a.put(s.End(), after)
		}
	case *ast.IncDecStmt:
		a.write(s.X, false)
	case *ast.ExprStmt:
		a.expr(s.X)
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			a.expr(r)
		}
	case *ast.BlockStmt:
		a.block(s)
	case *ast.IfStmt:
		a.stmt(s.Init, false)
		a.expr(s.Cond)
		a.block(s.Body)
		a.stmt(s.Else, false)
	case *ast.ForStmt:
		a.stmt(s.Init, false)
		if s.Cond != nil {
			a.expr(s.Cond)
		}
		a.stmt(s.Post, false)
		if len(s.Body.List) == 0 {
			a.put(s.Body.Lbrace+1, "verifsync.Yield();")
		}
		a.block(s.Body)
	case *ast.RangeStmt:
		a.rangeOver(s)
		a.block(s.Body)
	case *ast.SwitchStmt:
		a.stmt(s.Init, false)
		if s.Tag != nil {
			a.expr(s.Tag)
		}
		a.block2(s.Body)
	case *ast.TypeSwitchStmt:
		a.stmt(s.Init, false)
		switch x := s.Assign.(type) {
		case *ast.AssignStmt:
			a.expr(x.Rhs[0].(*ast.TypeAssertExpr).X)
		case *ast.ExprStmt:
			a.expr(x.X.(*ast.TypeAssertExpr).X)
		}
		a.block2(s.Body)
	case *ast.DeferStmt:
		a.callArgs(s.Call)
	case *ast.GoStmt:
		a.callArgs(s.Call)
	case *ast.LabeledStmt:
		a.stmt(s.Stmt, inList)
	case *ast.SendStmt:
		a.expr(s.Chan)
		a.expr(s.Value)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					a.expr(v)
				}
			}
		}
	}
}

// plain: the targets can be evaluated again after the assignment
func (a *acc) plain(lhs []ast.Expr) bool {
	ok := true
	for _, l := range lhs {
		if id, isId := l.(*ast.Ident); isId && len(lhs) > 1 && id.Name != "_" {
			return false
		}
		if len(lhs) > 1 {
			if ad, _ := a.place(l); !ad {
				if ix, isIx := l.(*ast.IndexExpr); isIx {
					_, isMap := a.under(ix.X).(*types.Map)
					ok = ok && isMap
				}
			}
		}
		ast.Inspect(l, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.TypeAssertExpr:
				ok = false
			}
			return ok
		})
	}
	return ok
}

// again renders a report of the write to l.
func (a *acc) again(l ast.Expr) string {
	if blank(l) {
		return ""
	}
	keep := a.list
	a.list = nil
	a.write(l, false)
	mine := a.list
	a.list = keep
	if len(mine) == 0 {
		return ""
	}
	base, end := a.off(l.Pos()), a.off(l.End())
	for i := range mine {
		mine[i].at -= base
		mine[i].end -= base
	}
	return "; _ = " + string(apply(a.src[base:end], mine))
}

func (a *acc) block2(b *ast.BlockStmt) {
	for _, c := range b.List {
		if c, ok := c.(*ast.CaseClause); ok {
			for _, e := range c.List {
				if tv, ok := a.info.Types[e]; ok && tv.IsType() {
					continue
				}
				a.expr(e)
			}
			a.stmts(c.Body)
		}
	}
}

func (a *acc) rangeOver(s *ast.RangeStmt) {
	switch a.under(s.X).(type) {
	case *types.Slice:
		if s.Value != nil && !blank(s.Value) {
			a.put(s.X.Pos(), "verifsync.RS(")
			a.expr(s.X)
			a.put(s.X.End(), ","+a.site(s.X.Pos())+")")
			return
		}
	case *types.Map:
		a.put(s.X.Pos(), "verifsync.MR(")
		a.expr(s.X)
		a.put(s.X.End(), ","+a.site(s.X.Pos())+")")
		return
	}
	a.expr(s.X)
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// ---- expressions

func (a *acc) typ(e ast.Expr) types.Type {
	if tv, ok := a.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := a.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := a.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}
func (a *acc) under(e ast.Expr) types.Type {
	t := a.typ(e)
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	return t.Underlying()
}

// place: can e be addressed, and can another goroutine reach it?
func (a *acc) place(e ast.Expr) (addr, shared bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return a.place(e.X)
	case *ast.Ident:
		v, ok := a.info.Uses[e].(*types.Var)
		if !ok || v.IsField() {
			return false, false
		}
		return true, v.Parent() == a.pkg.Scope() || a.captured[v]
	case *ast.SelectorExpr:
		sel, ok := a.info.Selections[e]
		if !ok { // pkg.Var
			v, ok := a.info.Uses[e.Sel].(*types.Var)
			return ok && v.Pkg() != nil && a.local[v.Pkg().Path()], ok
		}
		if sel.Kind() != types.FieldVal {
			return false, false
		}
		if sel.Indirect() {
			return true, true
		}
		if _, ok := a.under(e.X).(*types.Pointer); ok {
			return true, true
		}
		return a.place(e.X)
	case *ast.IndexExpr:
		switch u := a.under(e.X).(type) {
		case *types.Slice:
			return true, true
		case *types.Array:
			return a.place(e.X)
		case *types.Pointer:
			_ = u
			return true, true
		}
	case *ast.StarExpr:
		if tv, ok := a.info.Types[e]; ok && tv.IsType() {
			return false, false
		}
		return true, true
	}
	return false, false
}

// path visits what is read on the way to a place.
func (a *acc) path(e ast.Expr) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		a.path(e.X)
	case *ast.Ident:
	case *ast.SelectorExpr:
		if _, ok := a.info.Selections[e]; !ok {
			return
		}
		if _, ok := a.under(e.X).(*types.Pointer); ok {
			a.expr(e.X)
		} else if ad, _ := a.place(e.X); ad {
			a.path(e.X)
		} else {
			a.expr(e.X)
		}
	case *ast.IndexExpr:
		if _, ok := a.under(e.X).(*types.Array); ok {
			if ad, _ := a.place(e.X); ad {
				a.path(e.X)
			} else {
				a.expr(e.X)
			}
		} else {
			a.expr(e.X)
		}
		a.expr(e.Index)
	case *ast.StarExpr:
		a.expr(e.X)
	default:
		a.expr(e)
	}
}

func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// expr visits an expression whose value is read.
func (a *acc) expr(e ast.Expr) {
	if e == nil {
		return
	}
	if tv, ok := a.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return
	}
	switch e := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if ix, ok := e.(*ast.IndexExpr); ok {
			if _, ok := a.under(ix.X).(*types.Map); ok {
				a.put(ix.X.Pos(), "verifsync.MR(")
				a.expr(ix.X)
				a.put(ix.X.End(), ","+a.site(ix.Pos())+")")
				a.expr(ix.Index)
				return
			}
			if tv, ok := a.info.Types[ix.X]; ok {
				if _, isf := tv.Type.(*types.Signature); isf || tv.IsType() {
					a.expr(ix.X) // instantiation
					return
				}
			}
			if b, ok := a.under(ix.X).(*types.Basic); ok && b.Info()&types.IsString != 0 || a.under(ix.X) == nil {
				a.expr(ix.X)
				a.expr(ix.Index)
				return
			}
		}
		ad, sh := a.place(e)
		t := a.typ(e)
		if ad && sh && t != nil && !syncType(t) {
			a.put(e.Pos(), "(*verifsync.R(&")
			a.path(e)
			a.put(e.End(), ","+a.site(e.Pos())+"))")
			return
		}
		if sel, ok := e.(*ast.SelectorExpr); ok {
			if s, ok := a.info.Selections[sel]; ok && s.Kind() == types.FieldVal && !ad {
				a.expr(sel.X)
				return
			} else if ok && s.Kind() == types.MethodVal {
				a.recv(sel)
				return
			}
		}
		if ad {
			a.path(e)
		} else if ix, ok := e.(*ast.IndexExpr); ok {
			a.expr(ix.X)
			a.expr(ix.Index)
		}
	case *ast.ParenExpr:
		a.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if ad, _ := a.place(e.X); ad {
				a.path(e.X)
				return
			}
		}
		a.expr(e.X)
	case *ast.BinaryExpr:
		a.expr(e.X)
		a.expr(e.Y)
	case *ast.CallExpr:
		a.callArgs(e)
	case *ast.CompositeLit:
		_, isStruct := a.under(e).(*types.Struct)
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if !isStruct {
					a.expr(kv.Key)
				}
				a.expr(kv.Value)
			} else {
				a.expr(x)
			}
		}
	case *ast.FuncLit:
		a.block(e.Body)
	case *ast.SliceExpr:
		if _, ok := a.under(e.X).(*types.Array); ok {
			a.path(e.X)
		} else {
			a.expr(e.X)
		}
		a.expr(e.Low)
		a.expr(e.High)
		a.expr(e.Max)
	case *ast.TypeAssertExpr:
		a.expr(e.X)
	case *ast.IndexListExpr:
		a.expr(e.X)
	}
}

// recv visits the receiver of a method value or call.
func (a *acc) recv(sel *ast.SelectorExpr) {
	s := a.info.Selections[sel]
	if f, ok := s.Obj().(*types.Func); ok {
		rt := f.Type().(*types.Signature).Recv().Type()
		_, ptrRecv := rt.(*types.Pointer)
		_, isPtr := a.under(sel.X).(*types.Pointer)
		if ptrRecv && !isPtr {
			if ad, _ := a.place(sel.X); ad {
				a.path(sel.X)
				return
			}
		}
		// a map type with methods of some other package (labels.Set): its methods read it
		if _, isMap := a.under(sel.X).(*types.Map); isMap && f.Pkg() != nil && !a.local[f.Pkg().Path()] {
			a.put(sel.X.Pos(), "verifsync.MR(")
			a.expr(sel.X)
			a.put(sel.X.End(), ","+a.site(sel.X.Pos())+")")
			return
		}
	}
	a.expr(sel.X)
}

var mutators = map[string]bool{"Sort": true, "SortFunc": true, "SortStableFunc": true, "Stable": true, "Slice": true, "SliceStable": true, "Ints": true,
	"Strings": true, "Reverse": true, "Compact": true, "CompactFunc": true, "Delete": true, "DeleteFunc": true, "Insert": true, "Replace": true, "Copy": true}

func (a *acc) callArgs(c *ast.CallExpr) {
	fun := c.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	if tv, ok := a.info.Types[fun]; ok && tv.IsType() { // conversion
		for _, x := range c.Args {
			a.expr(x)
		}
		return
	}
	external, mut := false, false
	name := ""
	switch f := fun.(type) {
	case *ast.Ident:
		if b, ok := a.info.Uses[f].(*types.Builtin); ok {
			a.builtin(b.Name(), c)
			return
		}
		a.expr(f)
	case *ast.SelectorExpr:
		name = f.Sel.Name
		if s, ok := a.info.Selections[f]; ok {
			if s.Kind() == types.MethodVal {
				a.recv(f)
				if p := s.Obj().Pkg(); p != nil && !a.local[p.Path()] {
					external = true
				}
			} else {
				a.expr(f)
			}
		} else if o := a.info.Uses[f.Sel]; o != nil && o.Pkg() != nil && !a.local[o.Pkg().Path()] {
			external = true
			p := o.Pkg().Path()
			mut = (p == "sort" || p == "slices" || p == "maps") && mutators[name]
		} else {
			a.expr(f)
		}
	case *ast.IndexExpr: // instantiated function
		if tv, ok := a.info.Types[f.X]; !ok || tv.IsType() {
			a.expr(f)
		} else if _, isf := tv.Type.(*types.Signature); !isf {
			a.expr(f)
		}
	default:
		a.expr(fun)
	}
	for i, x := range c.Args {
		if tv, ok := a.info.Types[x]; ok && tv.IsType() {
			continue
		}
		w := ""
		if external {
			switch a.under(x).(type) {
			case *types.Map:
				w = "MR"
				if mut && i == 0 {
					w = "MW"
				}
			case *types.Slice:
				w = "RS"
				if mut && i == 0 {
					w = "WS"
				}
			}
			if a.typ(x) == types.Typ[types.UntypedNil] {
				w = ""
			}
			if c.Ellipsis != token.NoPos && i == len(c.Args)-1 && w == "RS" {
				w = ""
			}
		}
		if w != "" {
			a.put(x.Pos(), "verifsync."+w+"(")
			a.expr(x)
			a.put(x.End(), ","+a.site(x.Pos())+")")
		} else {
			a.expr(x)
		}
	}
}

func (a *acc) builtin(name string, c *ast.CallExpr) {
	wrap := func(x ast.Expr, f string) {
		a.put(x.Pos(), "verifsync."+f+"(")
		a.expr(x)
		a.put(x.End(), ","+a.site(x.Pos())+")")
	}
	for i, x := range c.Args {
		if tv, ok := a.info.Types[x]; ok && (tv.IsType() || tv.IsNil()) {
			continue
		}
		_, isMap := a.under(x).(*types.Map)
		_, isSlice := a.under(x).(*types.Slice)
		switch {
		case name == "delete" && i == 0, name == "clear" && isMap:
			wrap(x, "MW")
		case name == "clear" && isSlice:
			wrap(x, "WS")
		case name == "len" && isMap:
			wrap(x, "MR")
		case name == "append" && i == 0 && isSlice:
			wrap(x, "AP")
		case name == "append" && i == 1 && c.Ellipsis != token.NoPos && isSlice:
			wrap(x, "RS")
		case name == "copy" && i == 0 && isSlice:
			wrap(x, "WS")
		case name == "copy" && i == 1 && isSlice:
			wrap(x, "RS")
		default:
			a.expr(x)
		}
	}
}

// write visits the target of an assignment; it returns 1 when the write is
// reported by the Stored call that follows the statement.
func (a *acc) write(e ast.Expr, later bool) int {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	suffix := ""
	if later {
		suffix = "L"
	}
	n := 0
	if later {
		n = 1
	}
	if blank(e) {
		return 0
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		if _, ok := a.under(ix.X).(*types.Map); ok {
			a.put(ix.X.Pos(), "verifsync.MW"+suffix+"(")
			a.expr(ix.X)
			a.put(ix.X.End(), ","+a.site(ix.Pos())+")")
			a.expr(ix.Index)
			return n
		}
	}
	ad, sh := a.place(e)
	t := a.typ(e)
	if ad && sh && t != nil && !syncType(t) {
		a.put(e.Pos(), "*verifsync.W"+suffix+"(&")
		a.path(e)
		a.put(e.End(), ","+a.site(e.Pos())+")")
		return n
	}
	if ad {
		a.path(e)
	}
	return 0
}
