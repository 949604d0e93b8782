package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: spaces share nothing that changes. C24: nothing but the calls decides.

// taint bits of a value: it may lead into memory of a package variable, or to
// where an argument of its function leads.
const (
	taintG = 1 << iota
	taintP
)

type sharing struct {
	c       *Ctx
	val     map[ssa.Value]int
	class   map[string]bool // classes that hold such a value
	ret     map[*ssa.Function]int
	inits   map[string]bool // fields initialisers fill with references
	changed bool
}

func isInitFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// refs: a value of the type can lead to memory (functions aside).
func refs(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Array:
		return refs(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func isRef(t types.Type) bool { return refs(t, map[types.Type]bool{}) }

func (s *sharing) get(v ssa.Value) int {
	if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg == s.c.p.TPkg {
		return taintG
	}
	return s.val[v]
}

func (s *sharing) set(v ssa.Value, t int) {
	if t != 0 && s.val[v]|t != s.val[v] {
		s.val[v] |= t
		s.changed = true
	}
}

// heldIn: the field, element type or variable an address is.
func heldIn(addr ssa.Value) string {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		o, f, _ := structField(fa.X.Type(), fa.Field)
		return o + "." + f.Name()
	}
	return addrClass(addr)
}

func structFields(t types.Type) (out []string) {
	n := namedOf(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok || n == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, typeBase(t)+"."+st.Field(i).Name())
	}
	return
}

func (s *sharing) run() {
	p := s.c.p
	for _, fn := range p.All {
		if !isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isRef(st.Val.Type()) {
					if k, ok := st.Val.(*ssa.Const); ok && k.Value == nil {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						o, f, _ := structField(fa.X.Type(), fa.Field)
						s.inits[o+"."+f.Name()] = true
					}
				}
			}
		}
	}
	for s.changed = true; s.changed; {
		s.changed = false
		for _, fn := range p.All {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s.instr(fn, in)
				}
			}
		}
	}
}

func (s *sharing) instr(fn *ssa.Function, in ssa.Instruction) {
	join := func(v ssa.Value, from ...ssa.Value) {
		if !isRef(v.Type()) {
			return
		}
		for _, f := range from {
			s.set(v, s.get(f))
		}
	}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		s.set(x, s.get(x.X))
	case *ssa.IndexAddr:
		s.set(x, s.get(x.X))
	case *ssa.Slice:
		s.set(x, s.get(x.X))
	case *ssa.UnOp:
		if x.Op != token.MUL || !isRef(x.Type()) {
			return
		}
		if _, ok := x.X.(*ssa.Global); ok {
			s.set(x, taintG)
			return
		}
		for _, k := range append([]string{heldIn(x.X)}, structFields(x.Type())...) {
			if s.class[k] {
				s.set(x, taintG)
			}
		}
		if t := s.get(x.X); t != 0 {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				o, f, _ := structField(fa.X.Type(), fa.Field)
				if !s.inits[o+"."+f.Name()] {
					return
				}
			}
			s.set(x, t)
		}
	case *ssa.Phi:
		join(x, x.Edges...)
	case *ssa.ChangeType:
		join(x, x.X)
	case *ssa.Convert:
		join(x, x.X)
	case *ssa.ChangeInterface:
		join(x, x.X)
	case *ssa.MakeInterface:
		if isRef(x.X.Type()) {
			join(x, x.X)
		}
	case *ssa.TypeAssert:
		join(x, x.X)
	case *ssa.Extract:
		join(x, x.Tuple)
	case *ssa.Field:
		o, f, st := structField(x.X.Type(), x.Field)
		if _, named := x.X.Type().(*types.Named); !named || st == nil || s.class[o+"."+f.Name()] {
			join(x, x.X)
		}
	case *ssa.Index:
		join(x, x.X)
	case *ssa.Lookup:
		join(x, x.X)
	case *ssa.Next:
		join(x, x.Iter)
	case *ssa.Range:
		s.set(x, s.get(x.X))
	case *ssa.Store:
		if s.get(x.Val) != 0 && isRef(x.Val.Type()) {
			k := heldIn(x.Addr)
			if k != "local" && !s.class[k] {
				s.class[k] = true
				s.changed = true
			}
			if a, ok := x.Addr.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok {
						s.set(u, s.get(x.Val))
					}
				}
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			s.set(g.FreeVars[i], s.get(b)&taintG)
		}
	case *ssa.Return:
		t := 0
		for _, r := range x.Results {
			if isRef(r.Type()) {
				t |= s.get(r)
			}
		}
		if s.ret[fn]|t != s.ret[fn] {
			s.ret[fn] |= t
			s.changed = true
		}
	}
	if call, ok := in.(ssa.CallInstruction); ok {
		cc := call.Common()
		v, _ := in.(ssa.Value)
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				s.set(v, s.get(cc.Args[0]))
				if len(cc.Args) > 1 && isRef(cc.Args[1].Type().Underlying().(*types.Slice).Elem()) {
					s.set(v, s.get(cc.Args[1]))
				}
			}
			return
		}
		for _, g := range s.callees(cc) {
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			t := 0
			for i, a := range args {
				if i < len(g.Params) && isRef(a.Type()) {
					at := s.get(a)
					if at&taintG != 0 {
						s.set(g.Params[i], taintP)
					}
					t |= at
				}
			}
			if v != nil && isRef(v.Type()) {
				if s.ret[g]&taintG != 0 {
					s.set(v, taintG)
				}
				if s.ret[g]&taintP != 0 {
					s.set(v, t)
				}
			}
		}
	}
}

// callees in the package.
func (s *sharing) callees(cc *ssa.CallCommon) (out []*ssa.Function) {
	e := s.c.p.eff
	if cc.IsInvoke() {
		return e.implsOf(cc.Value.Type(), cc.Method)
	}
	if g := cc.StaticCallee(); g != nil {
		if s.c.p.inPkg(g) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	for _, g := range e.addrTak {
		if types.Identical(stripRecv(g.Signature), stripRecv(cc.Signature())) {
			out = append(out, g)
		}
	}
	return
}

// extCallee: the path of a function outside the package, "" if inside or unknown.
func (c *Ctx) extCallee(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return ""
	}
	g := cc.StaticCallee()
	if g == nil || c.p.inPkg(g) {
		return ""
	}
	return extName(g)
}

func checkC23(c *Ctx) {
	s := &sharing{c: c, val: map[ssa.Value]int{}, class: map[string]bool{}, ret: map[*ssa.Function]int{}, inits: map[string]bool{}}
	s.run()
	shared := func(v ssa.Value) bool { return s.get(v)&(taintG|taintP) != 0 }
	nStore, nCall, nExt := 0, 0, 0
	fl := newFlow(c.p)
	globals := map[*ssa.Global]bool{}
	for _, fn := range c.p.All {
		if isInitFn(fn) && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands [16]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg == c.p.TPkg {
							globals[g] = true
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					nStore++
					if shared(x.Addr) {
						c.fail("not-written", fname(fn)+" writes "+addrClass(x.Addr), x.Pos(), "memory that every space shares is written")
					}
				case *ssa.MapUpdate:
					nStore++
					if shared(x.Map) {
						c.fail("not-written", fname(fn)+" writes a map", x.Pos(), "a map that every space shares is written")
					}
				case *ssa.Send:
					c.fail("not-written", fname(fn)+" sends", x.Pos(), "a channel is used")
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy", "delete", "clear":
						nStore++
						if shared(cc.Args[0]) {
							c.fail("not-written", fname(fn)+" "+bi.Name()+" "+typeName(cc.Args[0].Type()), call.Pos(), "memory that every space shares is written")
						}
					}
					continue
				}
				if ext := c.extCallee(cc); ext != "" {
					nExt++
					if strings.HasPrefix(ext, "sync/atomic.") || strings.HasPrefix(ext, "fmt.") || strings.HasPrefix(ext, "log.") {
						continue
					}
					for _, a := range cc.Args {
						if shared(a) && isRef(a.Type()) {
							c.fail("not-lent", fname(fn)+" gives "+ext, call.Pos(), "%s is given memory that every space shares", ext)
						}
					}
					continue
				}
				// functions the user may have supplied
				if cc.IsInvoke() && len(c.p.eff.implsOf(cc.Value.Type(), cc.Method)) > 0 {
					continue
				}
				if !cc.IsInvoke() && cc.StaticCallee() != nil {
					continue
				}
				nCall++
				if !cc.IsInvoke() {
					// functions of the library only, to which what is known of the arguments was carried
					t := &ftargets{}
					fl.valueTargets(cc.Value, t, map[ssa.Value]bool{})
					if len(t.users) == 0 && len(t.fns) > 0 {
						continue
					}
				}
				for _, a := range cc.Args {
					if s.get(a) != 0 && isRef(a.Type()) {
						c.fail("not-handed-out", fname(fn)+" hands out "+typeName(a.Type()), call.Pos(), "a function of the user is given memory that every space shares")
					}
				}
			}
		}
		if isExportedFn(fn) {
			c.ob(s.ret[fn]&taintG == 0, "own-result", fname(fn), fn.Pos(), "the result leads into memory that every space shares")
		}
	}
	// nothing the user can reach holds such memory
	var ks []string
	for k := range s.class {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		i := strings.LastIndex(k, ".")
		ok := i > 0 && !token.IsExported(k[i+1:])
		c.ob(ok, "own-fields", k, token.NoPos, "%s holds memory that every space shares", k)
	}
	for g := range globals {
		c.ob(true, "not-written", "variable "+g.Name(), g.Pos(), "")
	}
	c.ob(true, "not-written", "stores", token.NoPos, "%d stores, %d calls of user functions, %d calls of other packages", nStore, nCall, nExt)
	c.noGoroutines("alone")
	c.atLeast("own-result", 300)
	c.atLeast("not-written", 6)
	if nStore < 500 || nCall < 20 {
		c.fail("not-written", "vacuity", token.NoPos, "only %d stores and %d calls seen", nStore, nCall)
	}
}

func (c *Ctx) noGoroutines(rule string) {
	n := 0
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				n++
				switch x := in.(type) {
				case *ssa.Go:
					c.fail(rule, fname(fn)+" starts a goroutine", x.Pos(), "what it does runs beside the caller")
				case *ssa.Select:
					c.fail(rule, fname(fn)+" selects", x.Pos(), "which case runs is not determined")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						c.fail(rule, fname(fn)+" receives", x.Pos(), "a channel is used")
					}
				}
			}
		}
	}
	c.ob(n > 0, rule, "instructions", token.NoPos, "%d instructions", n)
}

// steady packages: their functions are determined by their arguments.
var steadyPkgs = map[string]bool{"math": true, "math/bits": true, "math/cmplx": true, "sort": true, "slices": true, "strings": true, "strconv": true, "errors": true, "fmt": true, "log": true, "unicode/utf8": true, "bytes": true, "cmp": true, "sync": true, "sync/atomic": true, "container/heap": true, "container/list": true}

func checkC24(c *Ctx) {
	nCalls, nConv := 0, 0
	for _, fn := range c.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						c.ob(c.orderFree(x), "no-map-order", fname(fn), x.Pos(), "a map is visited in an order that differs from run to run")
					}
				case *ssa.Convert:
					nConv++
					from, to := x.X.Type().Underlying(), x.Type().Underlying()
					if isUnsafe(from) || isUnsafe(to) {
						c.fail("no-addresses", fname(fn), x.Pos(), "an address becomes a value: %s to %s", typeName(x.X.Type()), typeName(x.Type()))
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ext := c.extCallee(call.Common()); ext != "" {
					nCalls++
					g := call.Common().StaticCallee()
					pkg := ""
					if g.Pkg != nil {
						pkg = g.Pkg.Pkg.Path()
					} else if g.Origin() != nil && g.Origin().Pkg != nil {
						pkg = g.Origin().Pkg.Pkg.Path()
					} else if o := g.Object(); o != nil && o.Pkg() != nil {
						pkg = o.Pkg().Path()
					}
					if !c.ob(steadyPkgs[pkg], "determined", fname(fn)+" calls "+ext, call.Pos(), "%s may give something else each time", ext) {
						continue
					}
					for _, a := range call.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
							c.fail("no-addresses", fname(fn)+" prints an address", call.Pos(), "%%p")
						}
					}
					if ext == "sync.Pool.Get" {
						c.fromPool(fn, call.(*ssa.Call))
					}
					if pkg == "sync/atomic" {
						if v, ok := in.(ssa.Value); ok {
							c.onlyNames(fn, v)
						}
					}
				}
			}
		}
	}
	c.noGoroutines("in-order")
	c.ob(true, "no-addresses", "conversions", token.NoPos, "%d conversions", nConv)
	c.atLeast("determined", 40)
	c.atLeast("fresh", 20)
	if nConv < 10 {
		c.fail("no-addresses", "vacuity", token.NoPos, "only %d conversions seen", nConv)
	}
}

func isUnsafe(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// orderFree: the loop over the map only counts or looks; never in this code.
func (c *Ctx) orderFree(x *ssa.Range) bool { return false }

// onlyNames: a number that differs between equal worlds ends in names only:
// it is stored in a field that only String reads.
func (c *Ctx) onlyNames(fn *ssa.Function, v ssa.Value) {
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				follow(x)
			case *ssa.Convert:
				follow(x)
			case *ssa.ChangeType:
				follow(x)
			case *ssa.Phi:
				follow(x)
			case *ssa.Return:
				for _, g := range c.p.All {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if call, ok := in.(*ssa.Call); ok && call.Common().StaticCallee() == x.Parent() {
								follow(call)
							}
						}
					}
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if x.Val != v || !ok {
					c.fail("names-only", fname(fn), x.Pos(), "a number that every space counts on is stored in %s", addrClass(x.Addr))
					continue
				}
				o, f, _ := structField(fa.X.Type(), fa.Field)
				k := o + "." + f.Name()
				strings_ := map[string]bool{}
				for _, g := range c.p.All {
					if g.Name() == "String" {
						strings_[fname(g)] = true
					}
				}
				for _, g := range c.p.All {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if !reads(in, k) {
								continue
							}
							c.ob(topFn(g).Name() == "String" || c.onlyWithin(g, strings_), "names-only", fname(g)+" reads "+k, in.Pos(), "%s differs between worlds that are equal, and %s reads it", k, fname(g))
						}
					}
				}
				c.ob(!token.IsExported(f.Name()), "names-only", k, x.Pos(), "%s is exported", k)
			case *ssa.DebugRef:
			default:
				c.fail("names-only", fname(fn), r.Pos(), "a number that every space counts on is used: %s", r)
			}
		}
	}
	follow(v)
}

func reads(in ssa.Instruction, class string) bool {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		o, f, _ := structField(x.X.Type(), x.Field)
		if o+"."+f.Name() != class {
			return false
		}
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); !ok || st.Addr != x {
				return true
			}
		}
	case *ssa.Field:
		o, f, _ := structField(x.X.Type(), x.Field)
		return o+"."+f.Name() == class
	}
	return false
}

// poolRest: fields that need no reset, as they are written before they are read.
var poolRest = map[string]string{"Arbiter.n": "Arbiter.Update"}

// fromPool: whether a pool hands back an old object or makes one depends on
// the collector; the object is made anew all the same.
func (c *Ctx) fromPool(fn *ssa.Function, get *ssa.Call) {
	var obj ssa.Value
	for _, r := range *get.Referrers() {
		if ta, ok := r.(*ssa.TypeAssert); ok && obj == nil {
			obj = ta
			if ta.CommaOk {
				obj = nil
				for _, r := range *ta.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						obj = e
					}
				}
				if obj == nil {
					break
				}
			}
		} else if _, ok := r.(*ssa.DebugRef); !ok {
			obj = nil
			break
		}
	}
	if obj == nil {
		c.fail("fresh", fname(fn)+" takes from a pool", get.Pos(), "what it takes is used before it is given its type")
		return
	}
	typ := typeBase(obj.Type().Underlying().(*types.Pointer).Elem())
	st := obj.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	want := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		want[st.Field(i).Name()] = true
	}
	// the first uses, in the block of the call
	b := get.Block()
	i := 0
	for ; i < len(b.Instrs) && b.Instrs[i] != ssa.Instruction(get); i++ {
	}
	var uses func(in ssa.Instruction) bool
	uses = func(in ssa.Instruction) bool {
		var rands [16]*ssa.Value
		for _, op := range in.Operands(rands[:0]) {
			if op != nil && *op == obj {
				return true
			}
		}
		return false
	}
	for _, in := range b.Instrs[i+1:] {
		if len(want) == 0 {
			break
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == obj {
			_, f, _ := structField(fa.X.Type(), fa.Field)
			onlySt := false
			for _, r := range *fa.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == fa && s.Block() == b {
					onlySt = true
				}
			}
			if onlySt {
				delete(want, f.Name())
				continue
			}
		}
		if s, ok := in.(*ssa.Store); ok && s.Addr == obj {
			want = map[string]bool{}
			continue
		}
		if call, ok := in.(*ssa.Call); ok && uses(in) {
			g := call.Common().StaticCallee()
			if g == nil || !c.p.inPkg(g) || len(call.Common().Args) == 0 || call.Common().Args[0] != obj {
				break
			}
			s := c.sumFn(g, "pool", Config{NoEnter: true})
			o := s.Params[0]
			f := And(typeFact(s), notNil(o))
			for name := range want {
				before, after := get0(s.Entry, o, name), get0(s.Mem, o, name)
				old := false
				for _, x := range fieldLeaves(before) {
					for _, y := range fieldLeaves(after) {
						if containsTerm(y, x) {
							old = true
						}
					}
				}
				if !old && implies(f, s.G) {
					delete(want, name)
				}
			}
			break
		}
		if uses(in) {
			if _, ok := in.(*ssa.DebugRef); !ok {
				break
			}
		}
	}
	for k := 0; k < st.NumFields(); k++ {
		name := st.Field(k).Name()
		full := typ + "." + name
		if by := poolRest[full]; by != "" && want[name] {
			s := c.sum(by, "pool", trackCfg(c.p, full))
			f := And(typeFact(s), notNil(s.Params[0]))
			before, after := get0(s.Entry, s.Params[0], name), get0(s.Mem, s.Params[0], name)
			ok := implies(f, s.G)
			for _, x := range fieldLeaves(before) {
				for _, y := range fieldLeaves(after) {
					ok = ok && !containsTerm(y, x)
				}
			}
			c.ob(ok, "fresh", full+" is set by "+by, s.Fn.Pos(), "%s may keep what it was", full)
			continue
		}
		c.ob(!want[name], "fresh", full+" of what a pool gives "+fname(topFn(fn)), get.Pos(), "%s still is what it was when the object was given back, if the pool has one", full)
	}
}

func get0(mem *Mem, base *Term, path string) *Term { return get(mem, base, path) }

// fieldLeaves: the parts of a value that are not structs.
func fieldLeaves(t *Term) (out []*Term) {
	st, ok := t.typ.Underlying().(*types.Struct)
	if !ok {
		return []*Term{t}
	}
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, fieldLeaves(fld(t, st.Field(i).Name()))...)
	}
	return
}

func init() {
	register(&Check{ID: "C23", Run: checkC23,
		Assume:      []string{"the user does not assign package variables while spaces run", "fmt, log and sync/atomic may be used by several goroutines"},
		Explanation: "interprocedural taint from package variables over all stores, results, fields and arguments of user functions"})
	register(&Check{ID: "C24", Run: checkC24,
		Assume:      []string{"floating-point operations give the same result each time on the same machine"},
		Explanation: "effect analysis: every source of indeterminacy (map order, addresses, time, pools, goroutines, shared counters) and where it may lead"})
}
