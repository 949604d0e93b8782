package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow is an interprocedural typestate analysis. A client state (any
// comparable value) is pushed along every path of the call graph; functions
// are analysed per context: the state at entry and what is known of the
// arguments (constants, function values), so that closures handed to a
// spatial index are followed into the index and back.

type S interface{}

type AV struct {
	kind  int // 0 unknown, 1 constant, 2 function, 3 user function, 4 variable holding elem, 5 object made here
	flds  map[string]*AV
	c     *ssa.Const
	fn    *ssa.Function
	bind  []*AV
	label string
	elem  *AV
}

var avUnknown = &AV{}

func (a *AV) key() string {
	switch a.kind {
	case 1:
		if a.c.Value == nil {
			return "nil"
		}
		return a.c.Value.ExactString()
	case 2:
		s := a.fn.String()
		if a.fn.Parent() != nil || len(a.bind) > 0 {
			s += fmt.Sprintf("@%d", a.fn.Pos())
		}
		return "f:" + s + avKeys(a.bind)
	case 3:
		return "u:" + a.label
	case 4:
		return "v:" + a.elem.key()
	case 5:
		var ks []string
		for k, v := range a.flds {
			ks = append(ks, k+"="+v.key())
		}
		sort.Strings(ks)
		return "o:{" + strings.Join(ks, ",") + "}"
	}
	return "?"
}

func avKeys(as []*AV) string {
	var ks []string
	for _, a := range as {
		ks = append(ks, a.key())
	}
	return "(" + strings.Join(ks, ",") + ")"
}

type FFrame struct {
	fl         *Flow
	fn         *ssa.Function
	args, free []*AV
	caller     *FFrame
	site       ssa.Instruction
}

// path: the calls that lead here.
func (fr *FFrame) path() string {
	var s []string
	for f := fr; f != nil; f = f.caller {
		s = append([]string{fname(f.fn)}, s...)
	}
	if len(s) > 8 {
		s = append(append(append([]string{}, s[:3]...), "…"), s[len(s)-4:]...)
	}
	return strings.Join(s, " > ")
}

type Flow struct {
	p *Program
	// Instr may replace the effect of an instruction (handled = true).
	Instr func(fr *FFrame, in ssa.Instruction, s S) (out []S, handled bool)
	// Branch refines the state on one side of a condition; false: impossible.
	Branch func(fr *FFrame, cond ssa.Value, taken bool, s S) (S, bool)
	// User is a call of a function the user may have supplied.
	User func(fr *FFrame, in ssa.CallInstruction, label string, s S) []S
	// Call intercepts a call of a library function (handled = do not descend).
	Call func(fr *FFrame, in ssa.CallInstruction, callee *ssa.Function, args []*AV, s S) (out []S, handled bool)
	// Return sees every state a function returns with.
	Return func(fr *FFrame, in S, out S, at ssa.Instruction)

	memo    map[string]*fmemo
	round   int
	changed bool
	depth   int
	steps   int
	Funcs   map[string]bool
	literal map[string]bool
}

type fmemo struct {
	round int
	outs  map[S]bool
}

func newFlow(p *Program) *Flow {
	return &Flow{p: p, memo: map[string]*fmemo{}, Funcs: map[string]bool{}, literal: map[string]bool{}}
}

// Run analyses a root to a fixed point and returns the states it returns with.
func (fl *Flow) Run(fn *ssa.Function, s S) []S {
	args := make([]*AV, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = avUnknown
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			args[i] = &AV{kind: 3, label: "argument " + p.Name() + " of " + fname(fn)}
		}
	}
	var outs map[S]bool
	for i := 0; ; i++ {
		fl.round++
		fl.changed = false
		outs = fl.analyze(fn, args, nil, s, nil, nil)
		if !fl.changed {
			break
		}
		if i > 40 {
			panic(undecided{"the state analysis of " + fname(fn) + " does not settle"})
		}
	}
	return sortedStates(outs)
}

func sortedStates(m map[S]bool) []S {
	var out []S
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

type fstate struct {
	s    S
	mask uint64 // defer instructions executed
}

func (fl *Flow) analyze(fn *ssa.Function, args, free []*AV, s S, caller *FFrame, site ssa.Instruction) map[S]bool {
	key := fmt.Sprintf("%s@%d%s%s#%v", fn.String(), fn.Pos(), avKeys(args), avKeys(free), s)
	m := fl.memo[key]
	if m == nil {
		m = &fmemo{outs: map[S]bool{}}
		fl.memo[key] = m
	}
	if m.round == fl.round {
		return m.outs
	}
	m.round = fl.round
	if fl.depth++; fl.depth > 200 {
		panic(undecided{"call depth in " + fname(fn)})
	}
	defer func() { fl.depth-- }()
	fl.Funcs[fname(fn)] = true
	fr := &FFrame{fl: fl, fn: fn, args: args, free: free, caller: caller, site: site}
	var defers []*ssa.Defer
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	in := map[*ssa.BasicBlock]map[fstate]bool{fn.Blocks[0]: {fstate{s, 0}: true}}
	doneSt := map[*ssa.BasicBlock]map[fstate]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if doneSt[b] == nil {
			doneSt[b] = map[fstate]bool{}
		}
		var todo []fstate
		for st := range in[b] {
			if !doneSt[b][st] {
				doneSt[b][st] = true
				todo = append(todo, st)
			}
		}
		sort.Slice(todo, func(i, j int) bool { return fmt.Sprint(todo[i]) < fmt.Sprint(todo[j]) })
		for _, st := range todo {
			cur := []fstate{st}
			for _, ins := range b.Instrs {
				if fl.steps++; fl.steps > 20000000 {
					panic(undecided{"too many steps in the state analysis"})
				}
				var next []fstate
				seen := map[fstate]bool{}
				for _, c := range cur {
					for _, n := range fl.step(fr, ins, c, defers) {
						if !seen[n] {
							seen[n] = true
							next = append(next, n)
						}
					}
				}
				cur = next
				if len(cur) == 0 {
					break
				}
			}
			if len(cur) == 0 {
				continue
			}
			last := b.Instrs[len(b.Instrs)-1]
			var push func(t *ssa.BasicBlock, x fstate)
			push = func(t *ssa.BasicBlock, x fstate) {
				// a block that only tests which way it was come to
				if cond := phiTest(t, b); cond != nil {
					for i, u := range t.Succs {
						if phiTest(u, t) != nil || len(u.Instrs) > 0 && isPhi(u.Instrs[0]) {
							cond = nil
							break
						}
						_ = i
					}
					if cond != nil {
						for i, u := range t.Succs {
							if ns, ok := fl.branch(fr, cond, (i == 0) != phiNegated(t), x.s); ok {
								push(u, fstate{ns, x.mask})
							}
						}
						return
					}
				}
				if in[t] == nil {
					in[t] = map[fstate]bool{}
				}
				if !in[t][x] {
					in[t][x] = true
					work = append(work, t)
				}
			}
			switch x := last.(type) {
			case *ssa.If:
				for i, t := range b.Succs {
					for _, c := range cur {
						ns, ok := fl.branch(fr, x.Cond, i == 0, c.s)
						if ok {
							push(t, fstate{ns, c.mask})
						}
					}
				}
			case *ssa.Return:
				for _, c := range cur {
					if fl.Return != nil {
						fl.Return(fr, s, c.s, x)
					}
					if !m.outs[c.s] {
						m.outs[c.s] = true
						fl.changed = true
					}
				}
			case *ssa.Panic:
			default:
				for _, t := range b.Succs {
					for _, c := range cur {
						push(t, c)
					}
				}
			}
		}
	}
	return m.outs
}

func (fl *Flow) branch(fr *FFrame, cond ssa.Value, taken bool, s S) (S, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return fl.branch(fr, x.X, !taken, s)
		}
	case *ssa.BinOp:
		a, b := fr.resolve(x.X), fr.resolve(x.Y)
		if a.kind == 1 && b.kind == 1 && (x.Op == token.EQL || x.Op == token.NEQ) {
			eq := a.key() == b.key()
			return s, (eq == (x.Op == token.EQL)) == taken
		}
		if (a.kind == 2 && b.key() == "nil" || b.kind == 2 && a.key() == "nil") && (x.Op == token.EQL || x.Op == token.NEQ) {
			return s, (x.Op == token.NEQ) == taken
		}
	}
	if call, ok := cond.(*ssa.Call); ok {
		if may := fl.predicate(fr, call, s); may != nil {
			if !may[taken] {
				return s, false
			}
			return s, true
		}
	}
	if a := fr.resolve(cond); a.kind == 1 && a.c.Value != nil && a.c.Value.Kind() == constant.Bool {
		return s, constant.BoolVal(a.c.Value) == taken
	}
	if fl.Branch != nil {
		return fl.Branch(fr, cond, taken, s)
	}
	return s, true
}

func (fl *Flow) step(fr *FFrame, in ssa.Instruction, c fstate, defers []*ssa.Defer) []fstate {
	wrap := func(ss []S, mask uint64) []fstate {
		var out []fstate
		for _, s := range ss {
			out = append(out, fstate{s, mask})
		}
		return out
	}
	if fl.Instr != nil {
		if out, ok := fl.Instr(fr, in, c.s); ok {
			return wrap(out, c.mask)
		}
	}
	switch x := in.(type) {
	case *ssa.Defer:
		for i, d := range defers {
			if d == x {
				return []fstate{{c.s, c.mask | 1<<uint(i)}}
			}
		}
	case *ssa.RunDefers:
		cur := map[S]bool{c.s: true}
		for i := len(defers) - 1; i >= 0; i-- {
			if c.mask&(1<<uint(i)) == 0 {
				continue
			}
			next := map[S]bool{}
			for _, s := range sortedStates(cur) {
				for _, o := range fl.call(fr, defers[i], s) {
					next[o] = true
				}
			}
			cur = next
		}
		return wrap(sortedStates(cur), 0)
	case *ssa.Call:
		return wrap(fl.call(fr, x, c.s), c.mask)
	case *ssa.Go:
		return wrap(fl.call(fr, x, c.s), c.mask)
	}
	return []fstate{c}
}

func (fl *Flow) call(fr *FFrame, in ssa.CallInstruction, s S) []S {
	cc := in.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return []S{s}
	}
	if neverReturns(cc) {
		return nil
	}
	var args []*AV
	outs := map[S]bool{}
	enter := func(g *ssa.Function, args, free []*AV) {
		if fl.Call != nil {
			if out, ok := fl.Call(fr, in, g, args, s); ok {
				for _, o := range out {
					outs[o] = true
				}
				return
			}
		}
		if !fl.p.inPkg(g) || len(g.Blocks) == 0 {
			outs[s] = true
			return
		}
		for o := range fl.analyze(g, args, free, s, fr, in) {
			outs[o] = true
		}
	}
	if cc.IsInvoke() {
		gs := fl.p.eff.implsOf(cc.Value.Type(), cc.Method)
		args = append(args, avUnknown)
		for _, a := range cc.Args {
			args = append(args, fr.resolve(a))
		}
		for _, g := range gs {
			enter(g, args, nil)
		}
		if len(gs) == 0 {
			outs[s] = true
		}
		return sortedStates(outs)
	}
	for _, a := range cc.Args {
		args = append(args, fr.resolve(a))
	}
	if g := cc.StaticCallee(); g != nil {
		var free []*AV
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			free = fr.resolve(mc).bind
		}
		enter(g, args, free)
		return sortedStates(outs)
	}
	t := fr.callTargets(cc.Value)
	for _, f := range t.fns {
		enter(f.fn, args, f.bind)
	}
	for _, l := range t.users {
		if fl.User == nil {
			outs[s] = true
			continue
		}
		for _, o := range fl.User(fr, in, l, s) {
			outs[o] = true
		}
	}
	if len(t.fns) == 0 && len(t.users) == 0 {
		outs[s] = true
	}
	return sortedStates(outs)
}

// resolve: what is known of a value.
func (fr *FFrame) resolve(v ssa.Value) *AV {
	switch x := v.(type) {
	case *ssa.Const:
		return &AV{kind: 1, c: x}
	case *ssa.Function:
		return &AV{kind: 2, fn: x}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.args) {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
	case *ssa.MakeClosure:
		a := &AV{kind: 2, fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			a.bind = append(a.bind, fr.resolve(b))
		}
		return a
	case *ssa.ChangeType:
		return fr.resolve(x.X)
	case *ssa.MakeInterface:
		return fr.resolve(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return fr.resolve(x.X)
		}
	case *ssa.Alloc:
		if st, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return fr.object(x, st)
		}
		if st := onlyStore(x); st != nil {
			return &AV{kind: 4, elem: fr.resolve(st.Val)}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if _, isF := x.Type().Underlying().(*types.Signature); !isF {
					return avUnknown
				}
				if o := fr.resolve(fa.X); o.kind == 5 {
					if a := o.flds[addrClass(fa)]; a != nil {
						return a
					}
				}
				return avUnknown
			}
			if a := fr.resolve(x.X); a.kind == 4 {
				return a.elem
			}
		}
		if x.Op == token.NOT {
			if a := fr.resolve(x.X); a.kind == 1 && a.c.Value != nil && a.c.Value.Kind() == constant.Bool {
				return &AV{kind: 1, c: ssa.NewConst(constant.MakeBool(!constant.BoolVal(a.c.Value)), x.Type())}
			}
		}
	case *ssa.Phi:
		var r *AV
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok {
				return avUnknown
			}
			a := fr.resolve(e)
			if r != nil && r.key() != a.key() {
				return avUnknown
			}
			r = a
		}
		if r != nil {
			return r
		}
	}
	return avUnknown
}

// object: the function fields a composite literal sets, if they are set
// nowhere but in composite literals.
func (fr *FFrame) object(x *ssa.Alloc, st *types.Struct) *AV {
	a := &AV{kind: 5, flds: map[string]*AV{}}
	owner := typeBase(x.Type().Underlying().(*types.Pointer).Elem())
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); !ok {
			continue
		}
		class := owner + "." + st.Field(i).Name()
		if fr.fl.onlyLiteral(class) {
			a.flds[class] = &AV{kind: 1, c: ssa.NewConst(nil, st.Field(i).Type())}
		}
	}
	if len(a.flds) == 0 {
		return avUnknown
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			class := addrClassOf(y)
			if a.flds[class] == nil {
				continue
			}
			for _, r2 := range *y.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
					a.flds[class] = fr.resolve(s.Val)
				}
			}
		case *ssa.Store:
			if y.Addr == ssa.Value(x) {
				return avUnknown
			}
		}
	}
	return a
}

func addrClassOf(fa *ssa.FieldAddr) string {
	owner, f, _ := structField(fa.X.Type(), fa.Field)
	return owner + "." + f.Name()
}

// onlyLiteral: the field is assigned in composite literals only.
func (fl *Flow) onlyLiteral(class string) bool {
	if v, ok := fl.literal[class]; ok {
		return v
	}
	ok := true
	for _, fn := range fl.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, isSt := in.(*ssa.Store); isSt {
					if fa, isFa := st.Addr.(*ssa.FieldAddr); isFa && addrClassOf(fa) == class {
						if _, isAl := fa.X.(*ssa.Alloc); !isAl {
							ok = false
						}
					}
				}
			}
		}
	}
	fl.literal[class] = ok
	return ok
}

// onlyStore: the single assignment of a local variable (closures included).
func onlyStore(a *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	ok := true
	var look func(v ssa.Value, depth int)
	look = func(v ssa.Value, depth int) {
		if v.Referrers() == nil || depth > 4 {
			ok = false
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					if st != nil {
						ok = false
					}
					st = x
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						look(x.Fn.(*ssa.Function).FreeVars[i], depth+1)
					}
				}
			default:
				ok = false
			}
		}
	}
	look(a, 0)
	if !ok {
		return nil
	}
	return st
}

type ftargets struct {
	fns   []*AV
	users []string
}

func (t *ftargets) addFn(a *AV) {
	for _, f := range t.fns {
		if f.key() == a.key() {
			return
		}
	}
	t.fns = append(t.fns, a)
}

func (t *ftargets) addUser(l string) {
	for _, u := range t.users {
		if u == l {
			return
		}
	}
	t.users = append(t.users, l)
}

// internalTypes: containers whose function fields are set by the library.
var internalTypes = map[string]bool{"HashSet": true, "SpatialIndex": true, "BBTree": true, "SpaceHash": true}

func (fr *FFrame) callTargets(v ssa.Value) *ftargets {
	t := &ftargets{}
	a := fr.resolve(v)
	switch a.kind {
	case 2:
		t.addFn(a)
		return t
	case 3:
		t.addUser(a.label)
		return t
	}
	fr.fl.valueTargets(v, t, map[ssa.Value]bool{})
	return t
}

// valueTargets: the functions a value can be, wherever it was stored.
func (fl *Flow) valueTargets(v ssa.Value, t *ftargets, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Function:
		t.addFn(&AV{kind: 2, fn: x})
	case *ssa.MakeClosure:
		a := &AV{kind: 2, fn: x.Fn.(*ssa.Function)}
		for range x.Bindings {
			a.bind = append(a.bind, avUnknown)
		}
		t.addFn(a)
	case *ssa.ChangeType:
		fl.valueTargets(x.X, t, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			fl.valueTargets(e, t, seen)
		}
	case *ssa.Field:
		owner, f, _ := structField(x.X.Type(), x.Field)
		fl.fieldTargets(owner, f, t, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			owner, f, _ := structField(y.X.Type(), y.Field)
			fl.fieldTargets(owner, f, t, seen)
			return
		case *ssa.Global:
			for _, fn := range fl.p.All {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == y {
							fl.valueTargets(st.Val, t, seen)
						}
					}
				}
			}
			if fl.p.InitFn != nil {
				for _, b := range fl.p.InitFn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == y {
							fl.valueTargets(st.Val, t, seen)
						}
					}
				}
			}
			return
		case *ssa.IndexAddr:
			fl.elemTargets(y.X, t, seen)
			return
		case *ssa.Alloc:
			for _, r := range *y.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == y {
					fl.valueTargets(st.Val, t, seen)
				}
			}
			return
		}
		t.addUser("an unresolved function value in " + fname(x.Parent()))
	case *ssa.Parameter:
		fl.paramTargets(x, t, seen)
	default:
		fn := "?"
		if in, ok := v.(ssa.Instruction); ok {
			fn = fname(in.Parent())
		}
		t.addUser("an unresolved function value in " + fn)
	}
}

// elemTargets: the functions stored in a table.
func (fl *Flow) elemTargets(v ssa.Value, t *ftargets, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			for _, st := range fl.storesTo(g) {
				fl.elemTargets(st.Val, t, seen)
			}
			return
		}
	case *ssa.Global:
		for _, fn := range append([]*ssa.Function{fl.p.InitFn}, fl.p.All...) {
			if fn == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == v {
							fl.valueTargets(st.Val, t, seen)
						}
					}
				}
			}
		}
		return
	case *ssa.Slice:
		fl.elemTargets(x.X, t, seen)
		return
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						fl.valueTargets(st.Val, t, seen)
					}
				}
			}
		}
		return
	}
	t.addUser("an unresolved table of functions")
}

func (fl *Flow) storesTo(addr ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	for _, fn := range append([]*ssa.Function{fl.p.InitFn}, fl.p.All...) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == addr {
					out = append(out, st)
				}
			}
		}
	}
	return out
}

func (fl *Flow) fieldTargets(owner string, f *types.Var, t *ftargets, seen map[ssa.Value]bool) {
	if i := strings.IndexByte(owner, '['); i >= 0 {
		owner = owner[:i]
	}
	class := owner + "." + f.Name()
	internal := internalTypes[owner]
	if f.Exported() && !internal {
		t.addUser(class)
	}
	for _, fn := range fl.p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				o, g, _ := structField(fa.X.Type(), fa.Field)
				if i := strings.IndexByte(o, '['); i >= 0 {
					o = o[:i]
				}
				if o != owner || g.Name() != f.Name() {
					continue
				}
				sub := &ftargets{}
				fl.valueTargets(st.Val, sub, seen)
				for _, a := range sub.fns {
					t.addFn(a)
				}
				for _, u := range sub.users {
					// what a user hands in is known by where it is kept
					if strings.HasPrefix(u, "argument ") && !internal {
						u = class
					}
					t.addUser(u)
				}
			}
		}
	}
}

func (fl *Flow) paramTargets(p *ssa.Parameter, t *ftargets, seen map[ssa.Value]bool) {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	for _, g := range fl.p.All {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					for _, m := range fl.p.eff.implsOf(cc.Value.Type(), cc.Method) {
						if m == fn && idx >= 1 && idx-1 < len(cc.Args) {
							fl.valueTargets(cc.Args[idx-1], t, seen)
						}
					}
				} else if cc.StaticCallee() == fn && idx < len(cc.Args) {
					fl.valueTargets(cc.Args[idx], t, seen)
				}
			}
		}
	}
	if isExportedFn(fn) {
		r := ""
		if fn.Signature.Recv() != nil {
			if n := namedOf(fn.Signature.Recv().Type()); n != nil {
				r = n.Obj().Name()
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if n := namedOf(fn.Signature.Results().At(i).Type()); n != nil && internalTypes[n.Obj().Name()] {
				r = n.Obj().Name()
			}
		}
		if !internalTypes[r] {
			t.addUser("argument " + p.Name() + " of " + fname(fn))
		}
	}
}

func isPhi(in ssa.Instruction) bool {
	_, ok := in.(*ssa.Phi)
	return ok
}

// phiTest: what block t, which does nothing but test a value chosen by the way it is come to, tests
// when it is come to from b; nil if it is no such block.
func phiTest(t, b *ssa.BasicBlock) ssa.Value {
	iff, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond := iff.Cond
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT && u.Block() == t {
		cond = u.X
	}
	ph, ok := cond.(*ssa.Phi)
	if !ok || ph.Block() != t {
		return nil
	}
	for _, in := range t.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			if x != ph {
				return nil
			}
		case *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.NOT || x.X != ssa.Value(ph) {
				return nil
			}
		default:
			return nil
		}
	}
	var v ssa.Value
	for i, p := range t.Preds {
		if p == b {
			if v != nil && v != ph.Edges[i] {
				return nil
			}
			v = ph.Edges[i]
		}
	}
	if in, ok := v.(ssa.Instruction); ok && in.Block() != b {
		return nil
	}
	return v
}

func phiNegated(t *ssa.BasicBlock) bool {
	iff := t.Instrs[len(t.Instrs)-1].(*ssa.If)
	u, ok := iff.Cond.(*ssa.UnOp)
	return ok && u.Op == token.NOT
}

// predicate: what a helper that only looks can answer in state s, just before it is acted on; nil
// if that cannot be told.
func (fl *Flow) predicate(fr *FFrame, call *ssa.Call, s S) map[bool]bool {
	fn := call.Common().StaticCallee()
	if fn == nil || !fl.p.inPkg(fn) || len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 {
		return nil
	}
	after := false
	for _, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			after = true
			continue
		}
		if after {
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.RunDefers:
				return nil
			}
		}
	}
	depth := 0
	for f := fr; f != nil; f = f.caller {
		if depth++; depth > 40 || f.fn == fn {
			return nil
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr, *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return nil
				}
			case *ssa.Call:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok && x.Common().StaticCallee() == nil {
					return nil
				}
				if g := x.Common().StaticCallee(); g != nil {
					if e := fl.p.eff.of(g); e == nil || len(e.TW) > 0 || e.TDyn {
						return nil
					}
				}
			default:
				return nil
			}
		}
	}
	sub := &FFrame{fl: fl, fn: fn, caller: fr, site: call}
	for _, a := range call.Common().Args {
		sub.args = append(sub.args, fr.resolve(a))
	}
	out := map[bool]bool{}
	type at struct{ b, from *ssa.BasicBlock }
	seen := map[at]bool{}
	var can func(v ssa.Value, b, from *ssa.BasicBlock)
	can = func(v ssa.Value, b, from *ssa.BasicBlock) {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
			for i, p := range b.Preds {
				if p == from {
					can(ph.Edges[i], from, nil)
				}
			}
			return
		}
		for _, t := range []bool{true, false} {
			if _, ok := fl.branch(sub, v, t, s); ok {
				out[t] = true
			}
		}
	}
	var walk func(b, from *ssa.BasicBlock)
	walk = func(b, from *ssa.BasicBlock) {
		if seen[at{b, from}] {
			return
		}
		seen[at{b, from}] = true
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(x.Results) == 1 {
				can(x.Results[0], b, from)
			}
		case *ssa.If:
			for i, t := range b.Succs {
				if ph, ok := x.Cond.(*ssa.Phi); ok && ph.Block() == b {
					ok := false
					for j, p := range b.Preds {
						if p == from {
							if _, k := fl.branch(sub, ph.Edges[j], i == 0, s); k {
								ok = true
							}
						}
					}
					if ok {
						walk(t, b)
					}
					continue
				}
				if _, ok := fl.branch(sub, x.Cond, i == 0, s); ok {
					walk(t, b)
				}
			}
		default:
			for _, t := range b.Succs {
				walk(t, b)
			}
		}
	}
	walk(fn.Blocks[0], nil)
	return out
}
