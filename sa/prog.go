package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA form of one build variant of /repo.
type Program struct {
	Variant string
	Fset    *token.FileSet
	SSA     *ssa.Program
	Pkg     *ssa.Package // package cp
	TPkg    *types.Package
	All     []*ssa.Function // every function with a body of package cp (sorted)
	PkgAST  *packages.Package
	InitFn  *ssa.Function

	eff *Effects
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load(variant string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   repoDir(),
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"),
		Tests: false,
	}
	if variant != "" {
		cfg.BuildFlags = []string{"-tags=" + variant}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
		if p.IllTyped {
			return nil, fmt.Errorf("package %s is ill-typed", p.PkgPath)
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Variant: variant, SSA: prog, Fset: prog.Fset}
	if len(pkgs) != 1 {
		// other packages (examples, commands) may exist; cp is the one that declares Space
		for i, sp := range spkgs {
			if sp != nil && sp.Pkg.Scope().Lookup("Space") != nil && sp.Pkg.Scope().Lookup("Arbiter") != nil {
				p.Pkg = sp
				p.PkgAST = pkgs[i]
			}
		}
	} else {
		p.Pkg = spkgs[0]
		p.PkgAST = pkgs[0]
	}
	if p.Pkg == nil {
		return nil, fmt.Errorf("package cp not found")
	}
	p.TPkg = p.Pkg.Pkg
	for fn := range ssautil.AllFunctions(prog) {
		if p.inPkg(fn) && len(fn.Blocks) > 0 {
			p.All = append(p.All, fn)
		}
	}
	for _, fn := range p.All {
		normalizeOps(fn)
	}
	sort.Slice(p.All, func(i, j int) bool {
		a, b := p.All[i], p.All[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	pkgFuncs[p.Pkg] = p.All
	p.InitFn = p.Pkg.Func("init")
	p.eff = computeEffects(p)
	return p, nil
}

// searches are the functions of package slices that are looked into like those of the package.
var searches = map[string]bool{"Index": true, "IndexFunc": true, "Contains": true, "ContainsFunc": true}

func (p *Program) inPkg(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg == p.Pkg {
			return true
		}
		if o := f.Origin(); o != nil && (o.Pkg == p.Pkg || o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && searches[o.Name()]) {
			return true
		}
	}
	// wrappers / bound methods of package types
	if fn.Pkg == nil {
		if o := fn.Object(); o != nil && o.Pkg() == p.TPkg {
			return true
		}
		if fn.Signature.Recv() != nil {
			if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() == p.TPkg {
				return true
			}
		}
	}
	return false
}

func namedOf(t types.Type) *types.Named {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Alias:
			t = types.Unalias(u)
		case *types.Named:
			return u
		default:
			return nil
		}
	}
}

// tname is the package-local name of a named type ("Body"), or "".
func tname(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	return n.Obj().Name()
}

// Func finds an exported (or any) package function or method: "NewBody",
// "Body.SetMass". Returns nil if it does not exist.
func (p *Program) Func(name string) *ssa.Function {
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return p.Pkg.Func(name)
	}
	tn := p.Pkg.Type(name[:i])
	if tn == nil {
		return nil
	}
	n := tn.Type().(*types.Named)
	for k := 0; k < n.NumMethods(); k++ {
		m := n.Method(k)
		if m.Name() == name[i+1:] {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// fname is a short readable name: "Body.SetMass", "NewBody", "Space.Step$1".
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	if fn.Parent() != nil {
		return fname(fn.Parent()) + "$" + fn.Name()[strings.LastIndexByte(fn.Name(), '$')+1:]
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if r := o.Signature.Recv(); r != nil {
		return tname(r.Type()) + "." + o.Name()
	}
	return o.Name()
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func isExportedFn(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	o, ok := fn.Object().(*types.Func)
	if !ok || !o.Exported() {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		n := namedOf(r.Type())
		return n != nil
	}
	return true
}

// Exported lists the exported functions and the exported methods.
func (p *Program) Exported() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.All {
		if isExportedFn(fn) && fn.Origin() == nil && fn.TypeParams().Len() == 0 {
			out = append(out, fn)
		}
	}
	return out
}

// ---------------------------------------------------------------- location classes

func structField(t types.Type, i int) (owner string, f *types.Var, st *types.Struct) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st = t.Underlying().(*types.Struct)
	return typeBase(t), st.Field(i), st
}

func typeBase(t types.Type) string {
	if n := namedOf(t); n != nil {
		if _, isPtr := t.(*types.Pointer); !isPtr {
			s := n.Obj().Name()
			if n.Obj().Pkg() != nil && isOpaqueStruct(t) {
				s = n.Obj().Pkg().Name() + "." + s
			}
			return s
		}
	}
	return typeName(t)
}

// addrClass names the storage an SSA address value designates: "Body.v",
// "[]*Body", "*uint32", "global:x", or "local" for a local variable.
func addrClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		owner, f, _ := structField(x.X.Type(), x.Field)
		if c := embedClass(x.X); c != "" {
			return c
		}
		return owner + "." + f.Name()
	case *ssa.IndexAddr:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = pt
			if c := embedClass(x.X); c != "" {
				return c
			}
			if c := addrClass(x.X); c != "" {
				return c
			}
		}
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := el.Underlying().(*types.Struct); ok {
			return typeBase(el)
		}
		return "[]" + typeName(el)
	case *ssa.Global:
		return "global:" + x.Name()
	case *ssa.Alloc:
		return "local"
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Phi, *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.TypeAssert, *ssa.Lookup, *ssa.ChangeType, *ssa.Convert, *ssa.Next, *ssa.Field, *ssa.Const:
		el := v.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := el.Underlying().(*types.Struct); ok {
			return typeBase(el)
		}
		return "*" + typeName(el)
	}
	return "?"
}

// embedClass: if the struct addressed by v is itself stored by value inside
// another struct's field (nested struct), the class of that outer field.
func embedClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return addrClass(x)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if c := embedClass(x.X); c != "" {
				return c
			}
			switch x.X.(type) {
			case *ssa.Global:
				return addrClass(x.X)
			case *ssa.Alloc:
				return "local"
			}
		}
		return ""
	case *ssa.Global:
		return addrClass(x)
	case *ssa.Alloc:
		if !x.Heap {
			return "local"
		}
		return ""
	}
	return ""
}

// normalizeOps writes "c op x" as "x op' c" for a constant c, and "a > b" as "b < a": which side
// an operand stands on says nothing about what a program does.
func normalizeOps(fn *ssa.Function) {
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ,
		token.EQL: token.EQL, token.NEQ: token.NEQ}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			to, cmp := flip[op.Op]
			if !cmp {
				switch op.Op {
				case token.ADD, token.MUL:
					if !isNumType(op.X.Type()) {
						continue
					}
					to = op.Op
				case token.AND, token.OR, token.XOR:
					to = op.Op
				default:
					continue
				}
			}
			_, xc := op.X.(*ssa.Const)
			_, yc := op.Y.(*ssa.Const)
			switch {
			case xc && !yc:
			case !xc && !yc && (op.Op == token.GTR || op.Op == token.GEQ):
			default:
				continue
			}
			op.X, op.Y, op.Op = op.Y, op.X, to
		}
	}
}
