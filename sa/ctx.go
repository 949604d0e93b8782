package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Viol is one violated obligation; its identity is rule + construct.
type Viol struct {
	Rule, Construct, Pos, Msg string
	Variants                  []string
}

// Ctx is one property's check over one build variant.
type Ctx struct {
	p       *Program
	variant string
	id      string
	viols   []*Viol
	obls    map[string]int  // rule -> obligations decided
	done    map[string]int  // rule -> discharged
	seen    map[string]bool // functions analysed
	sites   int             // instructions / call sites inspected
	samples []string
	notes   []string
	sums    map[string]*Summary
}

type abortCheck struct{}

func newCtx(p *Program, id string) *Ctx {
	return &Ctx{p: p, variant: p.Variant, id: id, obls: map[string]int{}, done: map[string]int{}, seen: map[string]bool{}, sums: map[string]*Summary{}}
}

func (c *Ctx) fail(rule, construct string, pos token.Pos, format string, a ...interface{}) {
	c.viols = append(c.viols, &Viol{Rule: rule, Construct: construct, Pos: c.p.Pos(pos), Msg: fmt.Sprintf(format, a...)})
}

// ob decides one obligation.
func (c *Ctx) ob(ok bool, rule, construct string, pos token.Pos, format string, a ...interface{}) bool {
	c.obls[rule]++
	if vacuous {
		vacuous = false
		if ok {
			c.fail("vacuous", rule+": "+construct, pos, "the states this obligation talks about do not exist: the analysis misread the code")
			return false
		}
	}
	if ok {
		c.done[rule]++
		if len(c.samples) < 400 {
			c.samples = append(c.samples, rule+": "+construct)
		}
		return true
	}
	c.fail(rule, construct, pos, format, a...)
	return false
}

// oneOf decides by the first of several ways to read the code that works out;
// if none does, the first one reports.
func (c *Ctx) oneOf(ways ...func()) {
	type saved struct {
		viols      []*Viol
		obls, done map[string]int
		samples    []string
	}
	snap := func() saved {
		x := saved{viols: append([]*Viol(nil), c.viols...), obls: map[string]int{}, done: map[string]int{}, samples: append([]string(nil), c.samples...)}
		for k, n := range c.obls {
			x.obls[k] = n
		}
		for k, n := range c.done {
			x.done[k] = n
		}
		return x
	}
	back := func(x saved) { c.viols, c.obls, c.done, c.samples = x.viols, x.obls, x.done, x.samples }
	before := snap()
	var first *saved
	for _, w := range ways {
		w()
		if len(c.viols) == len(before.viols) {
			return
		}
		if first == nil {
			x := snap()
			first = &x
		}
		// the maps of before are handed out once only
		n := before
		back(n)
		before = snap()
	}
	if first != nil {
		back(*first)
	}
}

// atLeast guards against rules that silently stop matching anything.
func (c *Ctx) atLeast(rule string, n int) {
	if c.obls[rule] < n {
		c.fail("coverage", rule, token.NoPos, "rule %q was decided on %d instances, at least %d were confirmed by hand: the anchors of the rule are gone", rule, c.obls[rule], n)
	}
}

func (c *Ctx) fn(name string) *ssa.Function {
	f := c.p.Func(name)
	if f == nil {
		c.fail("anchor", name, token.NoPos, "exported API %s not found", name)
		panic(abortCheck{})
	}
	c.seen[name] = true
	return f
}

// guardf runs one independent part of a check; an undecided part is a
// violation of its own and does not stop the others.
func (c *Ctx) part(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case abortCheck:
				return
			case undecided:
				c.fail("undecided", name, token.NoPos, "%s", u.msg)
				return
			}
			if os.Getenv("VERIF_TRACE") != "" {
				panic(r)
			}
			c.fail("undecided", name, token.NoPos, "analysis failed: %v", r)
		}
	}()
	workDone = 0
	f()
}

// sum summarises an exported function; cfg is keyed by key.
func (c *Ctx) sum(name, key string, cfg Config) *Summary {
	k := name + "#" + key
	if s := c.sums[k]; s != nil {
		return s
	}
	s, err := Summarize(c.p, c.fn(name), cfg)
	if err != nil {
		c.fail("undecided", name, token.NoPos, "%v", err)
		panic(abortCheck{})
	}
	c.sums[k] = s
	return s
}

// ---------------------------------------------------------------- paths

// addrPath resolves a dotted field path (promoted fields included) below a
// pointer-valued term; loads of intermediate pointers come from mem.
func addrPath(mem *Mem, base *Term, typ types.Type, path string) (*Term, types.Type) {
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		typ = pt.Elem()
	} else if base.op != OIndex && base.op != OField {
		panic(undecided{"path " + path + " below a non-pointer " + typeName(typ)})
	}
	names := strings.Split(path, ".")
	for k, n := range names {
		obj, idx, _ := types.LookupFieldOrMethod(typ, true, pkgOf(typ), n)
		if _, ok := obj.(*types.Var); !ok {
			panic(undecided{fmt.Sprintf("type %s has no field %s", typeName(typ), n)})
		}
		for j, i := range idx {
			fv := typ.Underlying().(*types.Struct).Field(i)
			base, typ = fieldAddr(base, typ, fv), fv.Type()
			if pt, ok := typ.Underlying().(*types.Pointer); ok && (j < len(idx)-1 || k < len(names)-1) {
				base, typ = mem.Load(base, typ), pt.Elem()
			}
		}
	}
	return base, typ
}

func pkgOf(t types.Type) *types.Package {
	if n := namedOf(t); n != nil {
		return n.Obj().Pkg()
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// get loads a dotted path below pointer base from mem.
func get(mem *Mem, base *Term, path string) *Term {
	loc, typ := addrPath(mem, base, base.typ, path)
	return mem.Load(loc, typ)
}

func addrOf(mem *Mem, base *Term, path string) *Term {
	loc, _ := addrPath(mem, base, base.typ, path)
	return loc
}

// fld projects a named field (or dotted path) of a struct value.
func fld(v *Term, path string) *Term {
	for _, n := range strings.Split(path, ".") {
		t := v.typ
		if v.op == OIte {
			for v2 := v; ; v2 = v2.args[0] {
				if v2.op != OIte {
					t = v2.typ
					break
				}
			}
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(undecided{"no struct value for field " + n})
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				v = fieldOf(v, i, nil)
				found = true
				break
			}
		}
		if !found {
			panic(undecided{"value has no field " + n})
		}
	}
	return v
}

// tuple element of a multi-value result
func elem(v *Term, i int) *Term { return fieldOf(v, i, nil) }

// ---------------------------------------------------------------- term sugar

type V2 struct{ x, y *Term }

func vec(t *Term) V2                      { return V2{fld(t, "X"), fld(t, "Y")} }
func getV(mem *Mem, b *Term, p string) V2 { return vec(get(mem, b, p)) }
func (a V2) add(b V2) V2                  { return V2{TAdd(a.x, b.x), TAdd(a.y, b.y)} }
func (a V2) sub(b V2) V2                  { return V2{TSub(a.x, b.x), TSub(a.y, b.y)} }
func (a V2) mul(s *Term) V2               { return V2{TMul(a.x, s), TMul(a.y, s)} }
func (a V2) neg() V2                      { return V2{TNeg(a.x), TNeg(a.y)} }
func (a V2) dot(b V2) *Term               { return TAdd(TMul(a.x, b.x), TMul(a.y, b.y)) }
func (a V2) cross(b V2) *Term             { return TSub(TMul(a.x, b.y), TMul(a.y, b.x)) }
func (a V2) perp() V2                     { return V2{TNeg(a.y), a.x} }
func (a V2) rperp() V2                    { return V2{a.y, TNeg(a.x)} }
func (a V2) len() *Term                   { return TApp("sqrt", tyFloat, a.dot(a)) }
func (a V2) eq(b V2, f *BDD) bool         { return proveEq(a.x, b.x, f) && proveEq(a.y, b.y, f) }

func add(xs ...*Term) *Term {
	r := xs[0]
	for _, x := range xs[1:] {
		r = TAdd(r, x)
	}
	return r
}
func mul(xs ...*Term) *Term {
	r := xs[0]
	for _, x := range xs[1:] {
		r = TMul(r, x)
	}
	return r
}

func isZero(t *Term, facts *BDD) bool { return proveEq(t, TNum(0), facts) }

func short(t *Term) string {
	s := t.String()
	if len(s) > 240 {
		s = s[:240] + "…"
	}
	return s
}
func shortB(b *BDD) string {
	s := bddString(b)
	if len(s) > 240 {
		s = s[:240] + "…"
	}
	return s
}

// allEvents walks events, loop bodies and callback bodies.
func allEvents(evs []*Event, f func(e *Event, loops []*LoopInfo)) {
	var rec func(evs []*Event, ls []*LoopInfo)
	rec = func(evs []*Event, ls []*LoopInfo) {
		for _, e := range evs {
			f(e, ls)
			if e.Loop != nil {
				rec(e.Loop.Events, append(append([]*LoopInfo(nil), ls...), e.Loop))
			}
			if e.Sub != nil {
				rec(e.Sub.Events, ls)
			}
		}
	}
	rec(evs, nil)
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// implementers of an exported interface of the package, as *T or T.
func (c *Ctx) implementers(iface string) []*types.Named {
	tn, ok := c.p.TPkg.Scope().Lookup(iface).(*types.TypeName)
	if !ok {
		c.fail("anchor", iface, token.NoPos, "interface %s not found", iface)
		panic(abortCheck{})
	}
	it := tn.Type().Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range c.p.TPkg.Scope().Names() {
		t, ok := c.p.TPkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || t.IsAlias() {
			continue
		}
		nt, ok := t.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) {
			out = append(out, nt)
		}
	}
	return out
}

// method finds the body of the method T.name, following promotions.
func (c *Ctx) method(t *types.Named, name string) *ssa.Function {
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, c.p.TPkg, name)
	f, ok := obj.(*types.Func)
	if !ok {
		c.fail("anchor", t.Obj().Name()+"."+name, token.NoPos, "method not found")
		panic(abortCheck{})
	}
	fn := c.p.SSA.FuncValue(f)
	if fn == nil {
		c.fail("anchor", t.Obj().Name()+"."+name, token.NoPos, "method has no body")
		panic(abortCheck{})
	}
	c.seen[fname(fn)] = true
	return fn
}

func (c *Ctx) sumFn(fn *ssa.Function, key string, cfg Config) *Summary {
	k := fname(fn) + "#" + key
	if s := c.sums[k]; s != nil {
		return s
	}
	c.seen[fname(fn)] = true
	s, err := Summarize(c.p, fn, cfg)
	if err != nil {
		c.fail("undecided", fname(fn), fn.Pos(), "%v", err)
		panic(abortCheck{})
	}
	c.sums[k] = s
	return s
}

// param finds a parameter's term by type name (first match from index from).
func (s *Summary) param(i int) *Term { return s.Params[i] }
