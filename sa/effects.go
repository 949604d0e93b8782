package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Effects is the flow-insensitive interprocedural mod/ref analysis by storage
// class (Type.field, []Elem, global:name).

type FnEff struct {
	W, R     map[string]bool
	WAll     map[string]bool // W and what fills in objects made here
	WSites   map[string][]ssa.Instruction
	Callees  map[*ssa.Function]bool
	Ext      map[string]bool // external functions called
	Dyn      bool            // calls a function value that may be user code
	DynSites []ssa.CallInstruction
	TW, TR   map[string]bool // transitive
	TExt     map[string]bool
	TDyn     bool
	TCalls   map[*ssa.Function]bool
}

type Effects struct {
	p        *Program
	m        map[*ssa.Function]*FnEff
	addrTak  []*ssa.Function
	impls    map[string][]*ssa.Function
	interior map[string][]string // struct type -> outer classes holding it by value
	inArrays map[string][]string // the same, held in arrays only
	UserMods map[string]bool     // everything exported operations may modify
}

func computeEffects(p *Program) *Effects {
	e := &Effects{p: p, m: map[*ssa.Function]*FnEff{}, impls: map[string][]*ssa.Function{}, interior: map[string][]string{}, inArrays: map[string][]string{}}
	// struct types held by value
	for _, name := range p.TPkg.Scope().Names() {
		tn, ok := p.TPkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			arr := false
			if a, ok := ft.Underlying().(*types.Array); ok {
				ft = a.Elem()
				arr = true
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				k := typeBase(ft)
				e.interior[k] = append(e.interior[k], name+"."+st.Field(i).Name())
				if arr {
					e.inArrays[k] = append(e.inArrays[k], name+"."+st.Field(i).Name())
				}
			}
		}
	}
	taken := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands [16]*ssa.Value
				ops := in.Operands(rands[:0])
				for i, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().StaticCallee() == f && !c.Common().IsInvoke() {
						continue
					}
					taken[f] = true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for f := range taken {
		if p.inPkg(f) {
			e.addrTak = append(e.addrTak, f)
		}
	}
	sort.Slice(e.addrTak, func(i, j int) bool { return e.addrTak[i].String() < e.addrTak[j].String() })
	for _, fn := range p.All {
		e.direct(fn)
	}
	// closure
	for _, fn := range p.All {
		f := e.m[fn]
		f.TW, f.TR, f.TExt, f.TCalls = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			if f.TCalls[g] {
				return
			}
			f.TCalls[g] = true
			ge := e.m[g]
			if ge == nil {
				return
			}
			for k := range ge.W {
				f.TW[k] = true
			}
			for k := range ge.R {
				f.TR[k] = true
			}
			for k := range ge.Ext {
				f.TExt[k] = true
			}
			if ge.Dyn {
				f.TDyn = true
			}
			for c := range ge.Callees {
				visit(c)
			}
		}
		visit(fn)
	}
	e.UserMods = map[string]bool{}
	for _, fn := range p.Exported() {
		for k := range e.m[fn].TW {
			e.UserMods[k] = true
		}
	}
	// exported fields can be assigned by user code
	for _, name := range p.TPkg.Scope().Names() {
		if tn, ok := p.TPkg.Scope().Lookup(name).(*types.TypeName); ok {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Exported() && !st.Field(i).Embedded() {
						e.UserMods[name+"."+st.Field(i).Name()] = true
					}
				}
			}
		}
	}
	return e
}

func (e *Effects) of(fn *ssa.Function) *FnEff {
	if f := e.m[fn]; f != nil {
		return f
	}
	return nil
}

// structClasses expands a store of a whole value at class c.
func structClasses(c string, t types.Type) []string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isOpaqueStruct(t) || c != typeBase(t) {
		return []string{c}
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, c+"."+st.Field(i).Name())
	}
	return out
}

func ownerOf(c string) string {
	for i := 0; i < len(c); i++ {
		if c[i] == '.' {
			return c[:i]
		}
	}
	return c
}

func (e *Effects) direct(fn *ssa.Function) {
	f := &FnEff{W: map[string]bool{}, WAll: map[string]bool{}, R: map[string]bool{}, Callees: map[*ssa.Function]bool{}, Ext: map[string]bool{}, WSites: map[string][]ssa.Instruction{}}
	e.m[fn] = f
	write := func(in ssa.Instruction, addr ssa.Value, t types.Type) {
		c := addrClass(addr)
		if c == "local" {
			if a, ok := addr.(*ssa.Alloc); !ok || !a.Heap {
				return
			}
			c = typeBase(t)
			if _, ok := t.Underlying().(*types.Struct); !ok {
				c = "*" + typeName(t)
			}
			_ = c
			return // initialisation of a fresh variable
		}
		fresh := ofFresh(addr)
		for _, k := range structClasses(c, t) {
			f.WAll[k] = true
			if fresh {
				// filling in an object made here: none the caller knows
				continue
			}
			f.W[k] = true
			f.WSites[k] = append(f.WSites[k], in)
			for _, o := range e.outer(addr, k) {
				f.W[o] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				write(in, x.Addr, x.Val.Type())
			case *ssa.MapUpdate:
				k := "map:" + typeName(x.Map.Type())
				f.W[k] = true
				f.WSites[k] = append(f.WSites[k], in)
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					c := addrClass(x.X)
					if c != "local" {
						for _, k := range structClasses(c, x.Type()) {
							f.R[k] = true
							for _, o := range e.outer(x.X, k) {
								f.R[o] = true
							}
						}
					}
				}
			case *ssa.Lookup:
				f.R["map:"+typeName(x.X.Type())] = true
			case *ssa.MakeClosure:
				// the closure may be called by whoever receives it
				f.Callees[x.Fn.(*ssa.Function)] = true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				e.call(fn, f, c)
			}
			// function values passed as arguments may be called by the callee
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, a := range c.Common().Args {
					if g := funcValue(a); g != nil && e.p.inPkg(g) {
						f.Callees[g] = true
					}
				}
			}
		}
	}
}

// outer: the classes that may contain the struct an address points into. An
// element of a slice is not part of another struct unless an array was sliced.
func (e *Effects) outer(addr ssa.Value, k string) []string {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return e.inArrays[ownerOf(k)]
			}
			addr = x.X
			continue
		}
		return e.interior[ownerOf(k)]
	}
}

// ofFresh: the address is inside an object allocated by this very activation.
func ofFresh(addr ssa.Value) bool {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			addr = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcValue(x.X)
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}

func (e *Effects) call(fn *ssa.Function, f *FnEff, c ssa.CallInstruction) {
	cc := c.Common()
	if cc.IsInvoke() {
		for _, g := range e.implsOf(cc.Value.Type(), cc.Method) {
			f.Callees[g] = true
		}
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		switch v.Name() {
		case "copy", "append", "clear":
			// copy writes through the destination; append may write the spare
			// capacity of its first argument (class of the elements)
			if len(cc.Args) > 0 {
				if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					el := st.Elem()
					if _, ok := el.Underlying().(*types.Struct); ok {
						for _, k := range structClasses(typeBase(el), el) {
							f.W[k] = true
							f.WSites[k] = append(f.WSites[k], c)
						}
					} else {
						f.W["[]"+typeName(el)] = true
						f.WSites["[]"+typeName(el)] = append(f.WSites["[]"+typeName(el)], c)
					}
				}
			}
		case "delete":
			k := "map:" + typeName(cc.Args[0].Type())
			f.W[k] = true
			f.WSites[k] = append(f.WSites[k], c)
		}
		return
	}
	if g := cc.StaticCallee(); g != nil {
		if e.p.inPkg(g) {
			f.Callees[g] = true
		} else {
			f.Ext[extName(g)] = true
		}
		return
	}
	f.Dyn = true
	f.DynSites = append(f.DynSites, c)
	sig := cc.Signature()
	for _, g := range e.addrTak {
		if types.Identical(stripRecv(g.Signature), stripRecv(sig)) {
			f.Callees[g] = true
		}
	}
}

func extName(g *ssa.Function) string {
	if g.Pkg != nil {
		s := g.Pkg.Pkg.Path() + "." + g.Name()
		if r := g.Signature.Recv(); r != nil {
			s = g.Pkg.Pkg.Path() + "." + tname(r.Type()) + "." + g.Name()
		}
		return s
	}
	if g.Origin() != nil && g.Origin().Pkg != nil {
		return g.Origin().Pkg.Pkg.Path() + "." + g.Origin().Name()
	}
	return g.String()
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// implsOf resolves an interface method by class hierarchy analysis.
func (e *Effects) implsOf(it types.Type, m *types.Func) []*ssa.Function {
	key := typeName(it) + "." + m.Name()
	if r, ok := e.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	iface, _ := it.Underlying().(*types.Interface)
	if iface != nil {
		for _, name := range e.p.TPkg.Scope().Names() {
			tn, ok := e.p.TPkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			T := tn.Type()
			if types.IsInterface(T) {
				continue
			}
			if n, ok := T.(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{T, types.NewPointer(T)} {
				if types.Implements(t, iface) {
					if g := e.p.SSA.LookupMethod(t, m.Pkg(), m.Name()); g != nil {
						out = append(out, g)
						break
					}
				}
			}
		}
	}
	e.impls[key] = out
	return out
}
