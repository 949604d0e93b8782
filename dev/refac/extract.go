package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

func typeExpr(t types.Type) ast.Expr {
	return ast.NewIdent(types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "cp" {
			return ""
		}
		return p.Name()
	}))
}

func root(e ast.Expr) (*ast.Ident, bool) {
	whole := true
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x, whole
		case *ast.SelectorExpr:
			e, whole = x.X, false
		case *ast.IndexExpr:
			e, whole = x.X, false
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			e, whole = x.X, false
		default:
			return nil, false
		}
	}
}

// freeVars of the nodes: the locals of the function around them, and those the nodes change.
func freeVars(nodes []ast.Node, from, to token.Pos) (used []*types.Var, changed []*types.Var, ok bool) {
	ok = true
	seen, ch := map[*types.Var]bool{}, map[*types.Var]bool{}
	local := func(id *ast.Ident) *types.Var {
		v, k := info.Uses[id].(*types.Var)
		if !k || v.IsField() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() || v.Pos() >= from && v.Pos() < to {
			return nil
		}
		return v
	}
	change := func(e ast.Expr) {
		id, whole := root(e)
		if id == nil {
			return
		}
		v := local(id)
		if v == nil {
			return
		}
		if !whole {
			switch v.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
				return
			}
		}
		if !ch[v] {
			ch[v] = true
			changed = append(changed, v)
		}
	}
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.Ident:
				if v := local(s); v != nil && !seen[v] {
					seen[v] = true
					used = append(used, v)
				}
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					for _, l := range s.Lhs {
						change(l)
					}
				} else {
					for _, l := range s.Lhs {
						if id, k := l.(*ast.Ident); k && info.Uses[id] != nil {
							change(l)
						}
					}
				}
			case *ast.IncDecStmt:
				change(s.X)
			case *ast.RangeStmt:
				if s.Tok == token.ASSIGN {
					ok = false
				}
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					if id, _ := root(s.X); id != nil {
						change(s.X)
					}
				}
			case *ast.SelectorExpr:
				if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if sig, k := sel.Obj().Type().(*types.Signature); k && sig.Recv() != nil {
						_, want := sig.Recv().Type().(*types.Pointer)
						_, have := sel.Recv().(*types.Pointer)
						if want && !have {
							change(s.X)
						}
					}
				}
			case *ast.SliceExpr:
				if t := info.Types[s.X].Type; t != nil {
					if _, k := t.Underlying().(*types.Array); k {
						change(s.X)
					}
				}
			case *ast.FuncLit:
				ok = false
			}
			return true
		})
	}
	return
}

func params(vs []*types.Var) (*ast.FieldList, []ast.Expr) {
	l, args := &ast.FieldList{}, []ast.Expr{}
	for _, v := range vs {
		l.List = append(l.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: typeExpr(v.Type())})
		args = append(args, ast.NewIdent(v.Name()))
	}
	return l, args
}

func escapes(b ast.Node) bool {
	return has(b, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			return true
		}
		return false
	})
}

// extract makes a helper of a block; nil if it cannot be one.
func extract(b *ast.BlockStmt, what string, add *[]ast.Decl) *ast.BlockStmt {
	if b == nil || len(b.List) == 0 || escapes(b) {
		return nil
	}
	used, changed, ok := freeVars([]ast.Node{b}, b.Pos(), b.End())
	if !ok || len(changed) > 1 || len(used) > 8 {
		return nil
	}
	ps, args := params(used)
	fn := name(what)
	fd := &ast.FuncDecl{Name: fn, Type: &ast.FuncType{Params: ps}, Body: &ast.BlockStmt{List: b.List}}
	var st ast.Stmt = &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args}}
	if len(changed) == 1 {
		fd.Type.Results = &ast.FieldList{List: []*ast.Field{{Type: typeExpr(changed[0].Type())}}}
		fd.Body.List = append(append([]ast.Stmt{}, b.List...), &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(changed[0].Name())}})
		st = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(changed[0].Name())}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args}}}
	}
	*add = append(*add, fd)
	n++
	return &ast.BlockStmt{List: []ast.Stmt{st}}
}

func transform2(what string, f *ast.File) {
	var add []ast.Decl
	switch what {
	case "extractif":
		ast.Inspect(f, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok {
				if b := extract(s.Body, "then", &add); b != nil {
					s.Body = b
				}
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					if b := extract(e, "otherwise", &add); b != nil {
						s.Else = b
					}
				}
			}
			return true
		})
	case "extractloop":
		ast.Inspect(f, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.ForStmt:
				if b := extract(s.Body, "each", &add); b != nil {
					s.Body = b
				}
			case *ast.RangeStmt:
				if b := extract(s.Body, "each", &add); b != nil {
					s.Body = b
				}
			}
			return true
		})
	case "extractcond":
		ast.Inspect(f, func(x ast.Node) bool {
			s, ok := x.(*ast.IfStmt)
			if !ok || s.Init != nil {
				return true
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			used, changed, k := freeVars([]ast.Node{b}, b.Pos(), b.End())
			if !k || len(changed) > 0 || len(used) > 6 {
				return true
			}
			ps, args := params(used)
			fn := name("is")
			add = append(add, &ast.FuncDecl{Name: fn, Type: &ast.FuncType{Params: ps, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{b}}}}})
			s.Cond = &ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args}
			n++
			return true
		})
	case "extracttail": // the second half of a function becomes a function
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) < 4 || fd.Type.TypeParams != nil {
				continue
			}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
				continue
			}
			k := len(fd.Body.List) / 2
			tail := fd.Body.List[k:]
			bad := false
			var nodes []ast.Node
			for _, s := range fd.Body.List {
				if has(s, func(x ast.Node) bool {
					switch x.(type) {
					case *ast.LabeledStmt, *ast.DeferStmt:
						return true
					}
					return false
				}) {
					bad = true
				}
			}
			for _, s := range tail {
				nodes = append(nodes, s)
			}
			if bad {
				continue
			}
			used, _, ok2 := freeVars(nodes, tail[0].Pos(), tail[len(tail)-1].End())
			if !ok2 || len(used) > 8 {
				continue
			}
			ps, args := params(used)
			fn := name("rest")
			add = append(add, &ast.FuncDecl{Name: fn, Type: &ast.FuncType{Params: ps, Results: fd.Type.Results}, Body: &ast.BlockStmt{List: append([]ast.Stmt{}, tail...)}})
			call := &ast.CallExpr{Fun: ast.NewIdent(fn.Name), Args: args}
			var st ast.Stmt = &ast.ExprStmt{X: call}
			if fd.Type.Results != nil {
				st = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			fd.Body.List = append(append([]ast.Stmt{}, fd.Body.List[:k]...), st)
			n++
		}
	case "swap": // two assignments next to each other that have nothing to do with each other
		writes := func(s *ast.AssignStmt) map[string]bool {
			out := map[string]bool{}
			for _, l := range s.Lhs {
				switch x := l.(type) {
				case *ast.Ident:
					out[x.Name] = true
				case *ast.SelectorExpr:
					if !pure(x) {
						return nil
					}
					out[x.Sel.Name] = true
				default:
					return nil
				}
			}
			return out
		}
		mentions := func(n ast.Node, w map[string]bool) bool {
			return has(n, func(x ast.Node) bool {
				id, ok := x.(*ast.Ident)
				return ok && w[id.Name]
			})
		}
		stmts(f, func(list []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(list); i++ {
				a, ok1 := list[i].(*ast.AssignStmt)
				b, ok2 := list[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 {
					continue
				}
				wa, wb := writes(a), writes(b)
				if wa == nil || wb == nil || mentions(b, wa) || mentions(a, wb) || wa["_"] || wb["_"] {
					continue
				}
				okCalls := func(s *ast.AssignStmt) bool { // calls only of functions of values
					good := true
					for _, r := range s.Rhs {
						ast.Inspect(r, func(x ast.Node) bool {
							c, k := x.(*ast.CallExpr)
							if !k {
								return true
							}
							t := info.Types[c.Fun]
							if t.IsType() {
								return true
							}
							sig, k := t.Type.(*types.Signature)
							if !k {
								good = false
								return true
							}
							val := func(t types.Type) bool {
								switch t.Underlying().(type) {
								case *types.Basic, *types.Struct:
									return true
								}
								return false
							}
							for i := 0; i < sig.Params().Len(); i++ {
								good = good && val(sig.Params().At(i).Type())
							}
							if sel, k := c.Fun.(*ast.SelectorExpr); k {
								if s := info.Selections[sel]; s != nil {
									good = good && s.Kind() == types.MethodVal && val(s.Recv())
								}
							}
							return true
						})
					}
					return good
				}
				if !okCalls(a) || !okCalls(b) {
					continue
				}
				list[i], list[i+1] = b, a
				n++
				i++
			}
			return list
		})
	case "while": // for init; cond; post {body} -> { init; for cond { body; post } }
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				l, ok := s.(*ast.ForStmt)
				if !ok || l.Init == nil && l.Post == nil || jumps(l.Body) || has(l.Body, func(x ast.Node) bool { _, k := x.(*ast.FuncLit); return k }) {
					out = append(out, s)
					continue
				}
				w := &ast.ForStmt{Cond: l.Cond, Body: &ast.BlockStmt{List: append([]ast.Stmt{}, l.Body.List...)}}
				if l.Post != nil {
					w.Body.List = append(w.Body.List, l.Post)
				}
				b := &ast.BlockStmt{}
				if l.Init != nil {
					b.List = append(b.List, l.Init)
				}
				b.List = append(b.List, w)
				n++
				out = append(out, b)
			}
			return
		})
	case "idxrange": // for i := 0; i < n; i++ -> for i := range make([]struct{}, n)  (only len(x))
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				out = append(out, s)
				l, ok := s.(*ast.ForStmt)
				if !ok {
					continue
				}
				c, ok := l.Cond.(*ast.BinaryExpr)
				if !ok || c.Op != token.LSS {
					continue
				}
				as, ok := l.Init.(*ast.AssignStmt)
				if !ok || len(as.Lhs) != 1 || as.Tok != token.DEFINE {
					continue
				}
				if k, ok := as.Rhs[0].(*ast.BasicLit); !ok || k.Value != "0" {
					continue
				}
				inc, ok := l.Post.(*ast.IncDecStmt)
				if !ok || inc.Tok != token.INC {
					continue
				}
				call, ok := c.Y.(*ast.CallExpr)
				if !ok || len(call.Args) != 1 {
					continue
				}
				if id, k := call.Fun.(*ast.Ident); !k || id.Name != "len" {
					continue
				}
				iv := as.Lhs[0].(*ast.Ident)
				changed := false
				xr := call.Args[0]
				ast.Inspect(l.Body, func(x ast.Node) bool {
					switch t := x.(type) {
					case *ast.AssignStmt:
						for _, e := range t.Lhs {
							if id, w := root(e); id != nil && (id.Name == iv.Name || w && false) {
								changed = true
							}
							if types.ExprString(e) == types.ExprString(xr) {
								changed = true
							}
						}
					case *ast.IncDecStmt:
						if id, _ := root(t.X); id != nil && id.Name == iv.Name {
							changed = true
						}
					case *ast.CallExpr:
						if !pure(xr) {
							changed = true
						}
					}
					return true
				})
				if changed {
					continue
				}
				if _, sel := xr.(*ast.SelectorExpr); sel && !noCalls(l.Body) {
					continue
				}
				out[len(out)-1] = &ast.RangeStmt{Key: ast.NewIdent(iv.Name), Tok: token.DEFINE, X: xr, Body: l.Body}
				n++
			}
			return
		})
	case "condtemp": // if cond -> c := cond; if c
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init != nil || !has(i.Cond, func(x ast.Node) bool { _, k := x.(*ast.BinaryExpr); return k }) {
					out = append(out, s)
					continue
				}
				t := name("cond")
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}}, i)
				i.Cond = ast.NewIdent(t.Name)
				n++
			}
			return
		})
	case "inlinevec": // a.Add(b) -> Vector{a.X + b.X, a.Y + b.Y}
		isVec := func(e ast.Expr) bool {
			t := info.Types[e].Type
			nm, ok := t.(*types.Named)
			return ok && nm.Obj().Name() == "Vector"
		}
		sel := func(e ast.Expr, f string) ast.Expr { return &ast.SelectorExpr{X: e, Sel: ast.NewIdent(f)} }
		bin := func(a ast.Expr, op token.Token, b ast.Expr) ast.Expr {
			return &ast.ParenExpr{X: &ast.BinaryExpr{X: a, Op: op, Y: b}}
		}
		mk := func(x, y ast.Expr) ast.Expr {
			return &ast.CompositeLit{Type: ast.NewIdent("Vector"), Elts: []ast.Expr{&ast.KeyValueExpr{Key: ast.NewIdent("X"), Value: x}, &ast.KeyValueExpr{Key: ast.NewIdent("Y"), Value: y}}}
		}
		rewrite(f, func(e ast.Expr) ast.Expr {
			c, ok := e.(*ast.CallExpr)
			if !ok || len(c.Args) > 1 {
				return nil
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || !pure(s.X) || !isVec(s.X) || len(c.Args) == 1 && !pure(c.Args[0]) {
				return nil
			}
			a := s.X
			var r ast.Expr
			switch s.Sel.Name {
			case "Add":
				b := c.Args[0]
				r = &ast.ParenExpr{X: mk(bin(sel(a, "X"), token.ADD, sel(b, "X")), bin(sel(a, "Y"), token.ADD, sel(b, "Y")))}
			case "Sub":
				b := c.Args[0]
				r = &ast.ParenExpr{X: mk(bin(sel(a, "X"), token.SUB, sel(b, "X")), bin(sel(a, "Y"), token.SUB, sel(b, "Y")))}
			case "Mult":
				b := c.Args[0]
				r = &ast.ParenExpr{X: mk(bin(sel(a, "X"), token.MUL, b), bin(sel(a, "Y"), token.MUL, b))}
			case "Dot":
				b := c.Args[0]
				r = bin(bin(sel(a, "X"), token.MUL, sel(b, "X")), token.ADD, bin(sel(a, "Y"), token.MUL, sel(b, "Y")))
			case "Cross":
				b := c.Args[0]
				r = bin(bin(sel(a, "X"), token.MUL, sel(b, "Y")), token.SUB, bin(sel(a, "Y"), token.MUL, sel(b, "X")))
			case "Perp":
				r = &ast.ParenExpr{X: mk(&ast.UnaryExpr{Op: token.SUB, X: sel(a, "Y")}, sel(a, "X"))}
			default:
				return nil
			}
			n++
			return r
		})
	case "boolreturn": // return cond -> if cond { return true }; return false
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				r, ok := s.(*ast.ReturnStmt)
				if ok && len(r.Results) == 1 {
					if b, k := r.Results[0].(*ast.BinaryExpr); k && (b.Op == token.LAND || b.Op == token.LOR || b.Op == token.LSS || b.Op == token.GTR || b.Op == token.LEQ || b.Op == token.GEQ || b.Op == token.EQL || b.Op == token.NEQ) {
						out = append(out, &ast.IfStmt{Cond: b, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("true")}}}}}, &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("false")}})
						n++
						continue
					}
				}
				out = append(out, s)
			}
			return
		})
	case "minmax": // x := math.Max(a, b) -> x := a; if b > x { x = b }
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				out = append(out, s)
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 || a.Tok != token.DEFINE && a.Tok != token.ASSIGN {
					continue
				}
				c, ok := a.Rhs[0].(*ast.CallExpr)
				if !ok || len(c.Args) != 2 || !pure(c.Args[1]) || !pure(a.Lhs[0]) {
					continue
				}
				sl, ok := c.Fun.(*ast.SelectorExpr)
				if !ok || sl.Sel.Name != "Min" && sl.Sel.Name != "Max" {
					continue
				}
				ls := types.ExprString(a.Lhs[0])
				if a.Tok == token.ASSIGN && strings.Contains(types.ExprString(c.Args[1]), ls) {
					continue
				}
				op := token.LSS
				if sl.Sel.Name == "Max" {
					op = token.GTR
				}
				a.Rhs[0] = c.Args[0]
				if _, lit := c.Args[0].(*ast.BasicLit); lit {
					a.Rhs[0] = &ast.CallExpr{Fun: ast.NewIdent("float64"), Args: []ast.Expr{c.Args[0]}}
				}
				out = append(out, &ast.IfStmt{Cond: &ast.BinaryExpr{X: c.Args[1], Op: op, Y: a.Lhs[0]}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{a.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{c.Args[1]}}}}})
				n++
			}
			return
		})
	case "merge": // a := x; b := y -> a, b := x, y
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for i := 0; i < len(list); i++ {
				out = append(out, list[i])
				if i+1 >= len(list) {
					continue
				}
				a, ok1 := list[i].(*ast.AssignStmt)
				b, ok2 := list[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || len(a.Lhs) != 1 || len(b.Lhs) != 1 || len(a.Rhs) != 1 || len(b.Rhs) != 1 || a.Tok != b.Tok || a.Tok != token.DEFINE && a.Tok != token.ASSIGN {
					continue
				}
				last := func(e ast.Expr) string {
					switch x := e.(type) {
					case *ast.Ident:
						return x.Name
					case *ast.SelectorExpr:
						if pure(x) {
							return x.Sel.Name
						}
					}
					return ""
				}
				w := last(a.Lhs[0])
				if w == "" || last(b.Lhs[0]) == "" || w == "_" || !noCalls(a.Rhs[0]) || !noCalls(b.Rhs[0]) || has(b, func(x ast.Node) bool { id, k := x.(*ast.Ident); return k && id.Name == w }) {
					continue
				}
				a.Lhs, a.Rhs = append(a.Lhs, b.Lhs[0]), append(a.Rhs, b.Rhs[0])
				i++
				n++
			}
			return
		})
	case "fieldtemp": // a.b.c read in an expression statement or assignment's right side -> local first
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				a, ok := s.(*ast.AssignStmt)
				if ok && len(a.Rhs) == 1 && noCalls(a.Rhs[0]) && len(a.Lhs) == 1 {
					if b, k := a.Rhs[0].(*ast.BinaryExpr); k && pure(b.X) && isNum(b.X) {
						if _, sel := b.X.(*ast.SelectorExpr); sel && info.Types[b.X].Value == nil {
							t := name("v")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{b.X}})
							b.X = ast.NewIdent(t.Name)
							n++
						}
					}
				}
				out = append(out, s)
			}
			return
		})
	case "pointers": // for _, x := range xs (pointers): xs[i] through a pointer; x.f.g = v -> p := &x.f; p.g = v
		stmts(f, func(list []ast.Stmt) (out []ast.Stmt) {
			for _, s := range list {
				a, ok := s.(*ast.AssignStmt)
				if ok && len(a.Lhs) == 1 && a.Tok == token.ASSIGN && noCalls(a.Rhs[0]) {
					if l, k := a.Lhs[0].(*ast.SelectorExpr); k && pure(l.X) {
						if in, k := l.X.(*ast.SelectorExpr); k {
							if t := info.Types[in].Type; t != nil {
								if _, st := t.Underlying().(*types.Struct); st {
									p := name("p")
									out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: in}}})
									l.X = ast.NewIdent(p.Name)
									n++
								}
							}
						}
					}
				}
				out = append(out, s)
			}
			return
		})
	default:
		panic("unknown transform")
	}
	f.Decls = append(f.Decls, add...)
}

// rewrite replaces expressions from the inside out.
func rewrite(n ast.Node, g func(e ast.Expr) ast.Expr) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Kind() == reflect.Pointer {
				if _, ok := v.Interface().(*ast.Object); ok {
					return
				}
				if _, ok := v.Interface().(*ast.Scope); ok {
					return
				}
			}
			walk(v.Elem())
			if v.Kind() == reflect.Interface && v.CanSet() {
				if e, ok := v.Interface().(ast.Expr); ok {
					if r := g(e); r != nil {
						info.Types[r] = info.Types[e]
						v.Set(reflect.ValueOf(r))
					}
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(n))
}
