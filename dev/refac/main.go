// refac DIR TRANSFORM [file...]: rewrites every site of a package without changing what it does.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

var (
	fset = token.NewFileSet()
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	tmp  int
	n    int
)

func name(p string) *ast.Ident { tmp++; return ast.NewIdent(fmt.Sprintf("%s%d", p, tmp)) }

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.BinaryExpr:
		return pure(x.X) && pure(x.Y)
	}
	return false
}

func isNum(e ast.Expr) bool {
	t := info.Types[e].Type
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func noCalls(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(x ast.Node) bool {
		if _, c := x.(*ast.CallExpr); c {
			ok = false
		}
		return ok
	})
	return ok
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil && f(x) {
			r = true
		}
		return !r
	})
	return r
}

func jumps(b ast.Node) bool {
	return has(b, func(x ast.Node) bool {
		br, ok := x.(*ast.BranchStmt)
		return ok && (br.Tok == token.CONTINUE || br.Tok == token.GOTO || br.Label != nil)
	})
}

// stmts rewrites every statement list.
func stmts(f *ast.File, g func(list []ast.Stmt) []ast.Stmt) {
	ast.Inspect(f, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			b.List = g(b.List)
		case *ast.CaseClause:
			b.Body = g(b.Body)
		}
		return true
	})
}

func exprs(f *ast.File, g func(e *ast.BinaryExpr)) {
	ast.Inspect(f, func(x ast.Node) bool {
		if b, ok := x.(*ast.BinaryExpr); ok {
			g(b)
		}
		return true
	})
}

func each(list []ast.Stmt, g func(s ast.Stmt) []ast.Stmt) (out []ast.Stmt) {
	for _, s := range list {
		if r := g(s); r != nil {
			n++
			out = append(out, r...)
		} else {
			out = append(out, s)
		}
	}
	return
}

var flip = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

func opOf(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	}
	return 0
}

func transform(what string, f *ast.File) {
	switch what {
	case "commute":
		exprs(f, func(b *ast.BinaryExpr) {
			if (b.Op == token.ADD || b.Op == token.MUL) && isNum(b) && (noCalls(b.X) || noCalls(b.Y)) {
				b.X, b.Y = &ast.ParenExpr{X: b.Y}, &ast.ParenExpr{X: b.X}
				n++
			}
		})
	case "flip":
		exprs(f, func(b *ast.BinaryExpr) {
			if o, ok := flip[b.Op]; ok && (noCalls(b.X) || noCalls(b.Y)) {
				b.X, b.Y, b.Op = &ast.ParenExpr{X: b.Y}, &ast.ParenExpr{X: b.X}, o
				n++
			}
		})
	case "else":
		ast.Inspect(f, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && s.Else != nil {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
				} else {
					s.Cond, s.Body, s.Else = not(s.Cond), &ast.BlockStmt{List: []ast.Stmt{s.Else}}, s.Body
				}
				n++
			}
			return true
		})
	case "assignop":
		stmts(f, func(l []ast.Stmt) []ast.Stmt {
			return each(l, func(s ast.Stmt) []ast.Stmt {
				a, ok := s.(*ast.AssignStmt)
				if !ok || opOf(a.Tok) == 0 || !pure(a.Lhs[0]) || !noCalls(a.Rhs[0]) {
					return nil
				}
				return []ast.Stmt{&ast.AssignStmt{Lhs: a.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: a.Lhs[0], Op: opOf(a.Tok), Y: &ast.ParenExpr{X: a.Rhs[0]}}}}}
			})
		})
	case "returntemp":
		stmts(f, func(l []ast.Stmt) []ast.Stmt {
			return each(l, func(s ast.Stmt) []ast.Stmt {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) != 1 || info.Types[r.Results[0]].Type == nil || info.Types[r.Results[0]].IsNil() {
					return nil
				}
				if tv := info.Types[r.Results[0]]; tv.Value != nil {
					return nil
				}
				if _, ok := info.Types[r.Results[0]].Type.(*types.Tuple); ok {
					return nil
				}
				if b, ok := info.Types[r.Results[0]].Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					return nil
				}
				v := name("ret")
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: r.Results}, &ast.ReturnStmt{Results: []ast.Expr{v}}}}}
			})
		})
	case "forbreak":
		stmts(f, func(l []ast.Stmt) []ast.Stmt {
			return each(l, func(s ast.Stmt) []ast.Stmt {
				l, ok := s.(*ast.ForStmt)
				if !ok || l.Cond == nil || jumps(l.Body) {
					return nil
				}
				if l.Init != nil && has(l.Body, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) {
					return nil
				}
				body := append([]ast.Stmt{&ast.IfStmt{Cond: not(l.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, l.Body.List...)
				if l.Post != nil {
					body = append(body, l.Post)
				}
				l.Cond, l.Post = nil, nil
				l.Body.List = body
				init := l.Init
				l.Init = nil
				if init == nil {
					return []ast.Stmt{l}
				}
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{init, l}}}
			})
		})
	case "rangeindex":
		stmts(f, func(l []ast.Stmt) []ast.Stmt {
			return each(l, func(s ast.Stmt) []ast.Stmt {
				l, ok := s.(*ast.RangeStmt)
				if !ok || l.Tok != token.DEFINE || jumps(l.Body) || l.Value == nil {
					return nil
				}
				if _, ok := info.Types[l.X].Type.Underlying().(*types.Slice); !ok {
					return nil
				}
				xs, i := name("xs"), name("i")
				if k, ok := l.Key.(*ast.Ident); ok && k.Name != "_" {
					i = k
					if has(l.Body, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok }) {
						return nil
					}
				}
				body := append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{l.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: xs, Index: i}}}}, l.Body.List...)
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{xs}, Tok: token.DEFINE, Rhs: []ast.Expr{l.X}},
					&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{i}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
						Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{xs}}},
						Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: &ast.BlockStmt{List: body}},
				}}}
			})
		})
	case "nest": // if c { return } rest  ->  if !c { rest }
		ast.Inspect(f, func(x ast.Node) bool {
			fd, ok := x.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.Results != nil {
				return true
			}
			var do func(l []ast.Stmt) []ast.Stmt
			do = func(l []ast.Stmt) []ast.Stmt {
				for i, s := range l {
					is, ok := s.(*ast.IfStmt)
					if ok && is.Init == nil && is.Else == nil && len(is.Body.List) == 1 && i < len(l)-1 {
						if r, ok := is.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 0 {
							n++
							rest := do(l[i+1:])
							return append(append([]ast.Stmt{}, l[:i]...), &ast.IfStmt{Cond: not(is.Cond), Body: &ast.BlockStmt{List: rest}})
						}
					}
				}
				return l
			}
			fd.Body.List = do(fd.Body.List)
			return true
		})
	case "split": // if a && b {X} -> if a { if b {X} }
		ast.Inspect(f, func(x ast.Node) bool {
			s, ok := x.(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				s.Cond = b.X
				s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
				n++
			}
			return true
		})
	case "demorgan":
		ast.Inspect(f, func(x ast.Node) bool {
			s, ok := x.(*ast.IfStmt)
			if !ok {
				return true
			}
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				o := token.LOR
				if b.Op == token.LOR {
					o = token.LAND
				}
				s.Cond = not(&ast.BinaryExpr{X: not(b.X), Op: o, Y: not(b.Y)})
				n++
			}
			return true
		})
	case "switchif":
		stmts(f, func(l []ast.Stmt) []ast.Stmt {
			return each(l, func(s ast.Stmt) []ast.Stmt {
				sw, ok := s.(*ast.SwitchStmt)
				if !ok || sw.Init != nil || has(sw.Body, func(x ast.Node) bool {
					b, ok := x.(*ast.BranchStmt)
					return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
				}) {
					return nil
				}
				tag := name("tag")
				var pre []ast.Stmt
				if sw.Tag != nil {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{tag}, Tok: token.DEFINE, Rhs: []ast.Expr{sw.Tag}})
				}
				var first, last *ast.IfStmt
				var def []ast.Stmt
				for _, c := range sw.Body.List {
					cc := c.(*ast.CaseClause)
					if cc.List == nil {
						def = cc.Body
						continue
					}
					var cond ast.Expr
					for _, e := range cc.List {
						if sw.Tag != nil {
							e = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
						}
						if cond == nil {
							cond = e
						} else {
							cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
						}
					}
					is := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
					if first == nil {
						first = is
					} else {
						last.Else = is
					}
					last = is
				}
				if first == nil {
					return nil
				}
				if def != nil {
					last.Else = &ast.BlockStmt{List: def}
				}
				// a terminating switch must stay terminating
				if last.Else == nil && has(sw.Body, func(x ast.Node) bool { _, ok := x.(*ast.ReturnStmt); return ok }) {
				}
				return append(pre, first)
			})
		})
	case "wrap": // every function's body moves to a helper
		var add []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Type.TypeParams != nil || fd.Name.Name == "assert" {
				continue
			}
			bad := false
			for _, p := range fd.Type.Params.List {
				if len(p.Names) == 0 {
					bad = true
				}
				for _, nm := range p.Names {
					if nm.Name == "_" {
						bad = true
					}
				}
			}
			if bad || fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
				continue
			}
			inner := ast.NewIdent("do" + strings.Title(fd.Name.Name))
			if fd.Recv != nil && fd.Recv.List[0].Names[0].Name == "_" {
				continue
			}
			call := &ast.CallExpr{Fun: inner}
			if fd.Recv != nil {
				call.Fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: inner}
			}
			for _, p := range fd.Type.Params.List {
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					call.Ellipsis = 1
				}
				for _, nm := range p.Names {
					call.Args = append(call.Args, ast.NewIdent(nm.Name))
				}
			}
			add = append(add, &ast.FuncDecl{Recv: fd.Recv, Name: inner, Type: fd.Type, Body: fd.Body})
			var st ast.Stmt = &ast.ExprStmt{X: call}
			if fd.Type.Results != nil {
				st = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
			n++
		}
		f.Decls = append(f.Decls, add...)
	case "argtemp": // f(a, g(b)) -> t := g(b); f(a, t) for expression statements with one call argument and pure others
		stmts(f, func(l []ast.Stmt) []ast.Stmt {
			return each(l, func(s ast.Stmt) []ast.Stmt {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 && x.Tok == token.ASSIGN {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				}
				if call == nil || !info.Types[call.Fun].IsValue() {
					return nil
				}
				if sel, ok := call.Fun.(*ast.SelectorExpr); !ok || !pure(sel.X) {
					if _, ok := call.Fun.(*ast.Ident); !ok {
						return nil
					}
				}
				var out []ast.Stmt
				for i, a := range call.Args {
					if _, ok := a.(*ast.FuncLit); ok {
						return nil
					}
					if info.Types[a].Value != nil || info.Types[a].IsNil() || i > 0 && len(out) == 0 {
						continue
					}
					if _, ok := a.(*ast.CallExpr); ok {
						if _, ok := info.Types[a].Type.(*types.Tuple); ok {
							return nil
						}
						v := name("arg")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
						call.Args[i] = v
					}
					break
				}
				if out == nil {
					return nil
				}
				return []ast.Stmt{&ast.BlockStmt{List: append(out, s)}}
			})
		})
	case "early": // if c { A } (last statement of a void function) -> if !c { return } A
		ast.Inspect(f, func(x ast.Node) bool {
			fd, ok := x.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.Results != nil || len(fd.Body.List) == 0 {
				return true
			}
			l := fd.Body.List
			if is, ok := l[len(l)-1].(*ast.IfStmt); ok && is.Init == nil && is.Else == nil {
				fd.Body.List = append(append(append([]ast.Stmt{}, l[:len(l)-1]...), &ast.IfStmt{Cond: not(is.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{}}}}), &ast.BlockStmt{List: is.Body.List})
				n++
			}
			return true
		})
	case "continue": // for { if c { A } } -> for { if !c { continue }; A }
		ast.Inspect(f, func(x ast.Node) bool {
			var b *ast.BlockStmt
			switch l := x.(type) {
			case *ast.ForStmt:
				b = l.Body
			case *ast.RangeStmt:
				b = l.Body
			}
			if b == nil || len(b.List) == 0 {
				return true
			}
			l := b.List
			if is, ok := l[len(l)-1].(*ast.IfStmt); ok && is.Init == nil && is.Else == nil {
				b.List = append(append(append([]ast.Stmt{}, l[:len(l)-1]...), &ast.IfStmt{Cond: not(is.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}), &ast.BlockStmt{List: is.Body.List})
				n++
			}
			return true
		})
	case "selftemp": // p := recv at the top, used throughout
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
				continue
			}
			r := fd.Recv.List[0].Names[0]
			if _, ok := fd.Recv.List[0].Type.(*ast.StarExpr); !ok || r.Name == "_" {
				continue
			}
			obj := info.Defs[r]
			v := name("self")
			used := false
			assigned := false
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if a, ok := x.(*ast.AssignStmt); ok {
					for _, l := range a.Lhs {
						if id, ok := l.(*ast.Ident); ok && info.Uses[id] == obj {
							assigned = true
						}
					}
				}
				return true
			})
			if assigned {
				continue
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && info.Uses[id] == obj {
					id.Name = v.Name
					used = true
				}
				return true
			})
			if used {
				n++
				fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(r.Name)}}}, fd.Body.List...)
			}
		}
	case "closure": // the body of an if becomes a local function
		ast.Inspect(f, func(x ast.Node) bool {
			s, ok := x.(*ast.IfStmt)
			if !ok || s.Body == nil || len(s.Body.List) == 0 {
				return true
			}
			if has(s.Body, func(x ast.Node) bool {
				switch x.(type) {
				case *ast.ReturnStmt, *ast.BranchStmt:
					return true
				}
				return false
			}) {
				return true
			}
			s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: s.Body}}}}}
			n++
			return true
		})
	default:
		transform2(what, f)
	}
}

func main() {
	dir, what := os.Args[1], os.Args[2]
	only := map[string]bool{}
	for _, a := range os.Args[3:] {
		only[a] = true
	}
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	var names []string
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") || strings.HasSuffix(m, "debug.go") {
			continue
		}
		f, err := parser.ParseFile(fset, m, nil, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		names = append(names, m)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check("cp", fset, files, info)
	for i, f := range files {
		base := filepath.Base(names[i])
		if base == "release.go" || strings.HasPrefix(what, "extract") && base == "hashset.go" || len(only) > 0 && !only[base] {
			continue
		}
		before := n
		transform(what, f)
		if n == before {
			continue
		}
		// positions are dropped: what was moved must not disturb the layout
		w, err := os.Create(names[i])
		if err != nil {
			panic(err)
		}
		if err := format.Node(w, token.NewFileSet(), f); err != nil {
			panic(err)
		}
		w.Close()
	}
	fmt.Println(what, n)
}
