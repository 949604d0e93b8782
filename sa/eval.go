package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eval computes the guarded effect summary of a function: for every store,
// call and return the canonical condition under which it happens and the
// canonical values involved. Nothing is executed; loops are summarised by
// forgetting what they modify.

type Config struct {
	Opaque     func(fn *ssa.Function) bool // do not look inside
	Exact      func(class string) bool     // may-alias stores are gated instead of assumed apart
	KeepOnUser func(class string) bool     // classes user callbacks leave as they were
	KeepOn     func(fn *ssa.Function, class string) bool
	KeepUser   func(e *Event, class string) bool         // like KeepOnUser, but library effects stay; per event
	NoSub      bool                                      // do not look into closures handed to opaque callees
	Pure       func(fn *ssa.Function) bool               // opaque functions known (shown elsewhere) to change nothing looked at
	ArgOut     func(fn *ssa.Function, class string) bool // an opaque function changes this class only in what its arguments point to (shown elsewhere)
	CBArg      func(e *Event, i int) *Term               // what an opaque callee passes to the closure it is handed (shown elsewhere); nil if not known
	MaxDepth   int
	NoEnter    bool
	Given      func(params []*Term) *BDD // look at this case only
	PureUser   func(fn *Term) bool       // user code taken as a function of its arguments
	CutArgs    bool                      // name large vector arguments of calls
	Cut        func(class string) bool   // name float values stored to these classes
}

type Event struct {
	Kind   string // store, call, invoke, user, loop, ext, return, enter
	Guard  *BDD
	Assume *BDD
	Mem    *Mem
	After  *Mem
	Fn     *ssa.Function
	Name   string
	Recv   *Term
	Args   []*Term
	Result *Term
	Callee *Term
	Loc    *Term
	Val    *Term
	Typ    types.Type
	Loop   *LoopInfo
	Sub    *SubEval
	Instr  ssa.Instruction
	In     *ssa.Function
	Path   []string
	Seq    int
}

type SubEval struct {
	Params []*Term
	Entry  *Mem // memory as a call of it finds it, and leaves it
	Mem    *Mem
	Events []*Event
	Ret    *Term
	Fn     *ssa.Function
}

type PhiInfo struct {
	Phi       *ssa.Phi
	Init      *Term
	Var       *Term
	Back      *Term
	Invariant bool
	Step      *Term // Back - Var when loop-invariant
}

type ExitInfo struct {
	Guard *BDD // relative to the iteration
	From  *ssa.BasicBlock
	To    *ssa.BasicBlock
	Mem   *Mem
	Sel   *BDD
}

type LoopInfo struct {
	ID      string
	Fn      *ssa.Function
	Header  *ssa.BasicBlock
	Events  []*Event
	Phis    []*PhiInfo
	Entry   *Mem // memory before the loop
	Iter    *Mem // memory at the start of an arbitrary iteration
	Back    *Mem // memory at the end of an iteration that continues
	BackG   *BDD
	Exits   []*ExitInfo
	Havoc   []string
	HavocL  []*Term
	Assume  *BDD
	MemVars map[*Term]*Term // location -> its value at the start of an iteration
}

type State struct {
	g *BDD
	m *Mem
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retRec struct {
	st   *State
	vals []*Term
	pos  token.Pos
}

type deferRec struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	g    *BDD
	in   *ssa.Defer
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	ctx    int
	rets   []retRec
	defers []deferRec
	parent *frame
	depth  int
	loops  *loopForest
}

type recorder struct {
	locs    map[*Term]types.Type
	classes map[string]bool
	vals    map[*Term]*Term
}

type Eval struct {
	p       *Program
	cfg     Config
	sink    *[]*Event
	assume  *BDD
	recs    []*recorder
	loopStk []string
	stack   []*frame
	ctxIDs  map[string]int
	cuts    map[*Term]*Term
	cutOf   map[*Term]*Term
	varLoop map[*Term][]string
	allocOf map[*Term]*ssa.Alloc
	escaped map[*Term]bool
	given   *BDD
	steps   int
	seq     int
	undec   []string
	rawOnly map[*Term]bool
	pendEsc []*Term
}

type Summary struct {
	Fn     *ssa.Function
	Params []*Term
	Events []*Event
	Ret    *Term // tuple or single; nil if none
	Mem    *Mem  // at return
	Entry  *Mem
	G      *BDD // guard of returning
	Assume *BDD
	Ev     *Eval
	Rets   []retRec
}

type undecided struct{ msg string }

func newEval(p *Program, cfg Config) *Eval {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	return &Eval{p: p, cfg: cfg, assume: bddTrue, ctxIDs: map[string]int{}, varLoop: map[*Term][]string{}, escaped: map[*Term]bool{}, allocOf: map[*Term]*ssa.Alloc{}, cuts: map[*Term]*Term{}, cutOf: map[*Term]*Term{}}
}

func (ev *Eval) ctxID(parent int, what string) int {
	k := strconv.Itoa(parent) + "/" + what
	if id, ok := ev.ctxIDs[k]; ok {
		return id
	}
	id := len(ev.ctxIDs) + 1
	ev.ctxIDs[k] = id
	return id
}

func paramTerm(prefix string, typ types.Type) *Term {
	return expandTerm(typ, func(path string, l types.Type) *Term {
		return rawTerm(OParam, l, prefix+path)
	}, "")
}

// Summarize evaluates fn on symbolic parameters named after their position
// (p0 is the receiver).
func Summarize(p *Program, fn *ssa.Function, cfg Config) (sum *Summary, err error) {
	return SummarizeWith(p, fn, cfg, nil, nil)
}

func SummarizeWith(p *Program, fn *ssa.Function, cfg Config, params []*Term, pre func(*Mem)) (sum *Summary, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s: %s", fname(fn), u.msg)
				return
			}
			panic(r)
		}
	}()
	workDone = 0
	ev := newEval(p, cfg)
	if params == nil {
		for i, prm := range fn.Params {
			n := prm.Name()
			if n == "" || n == "_" {
				n = "arg"
			}
			params = append(params, paramTerm(fmt.Sprintf("p%d:%s", i, n), prm.Type()))
		}
	}
	mem := newMem(cfg.Exact)
	if pre != nil {
		pre(mem)
	}
	entry := mem.clone()
	if cfg.Given != nil {
		ev.given = cfg.Given(params)
		ev.assume = And(ev.assume, ev.given)
	}
	var events []*Event
	ev.sink = &events
	st := &State{bddTrue, mem}
	ret, rst, rets := ev.callBody(fn, params, nil, st, 0)
	s := &Summary{Fn: fn, Params: params, Events: events, Ret: ret, Entry: entry, Ev: ev, Assume: ev.assume, Rets: rets}
	if rst != nil {
		s.Mem = rst.m
		s.G = rst.g
	} else {
		s.G = bddFalse
	}
	return s, nil
}

func (ev *Eval) fail(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

// callBody evaluates the body of fn in state st and returns its merged result.
func (ev *Eval) callBody(fn *ssa.Function, args []*Term, free []*Term, st *State, ctx int) (*Term, *State, []retRec) {
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, ctx: ctx, loops: loopsOf(fn)}
	if len(ev.stack) > 0 {
		fr.parent = ev.stack[len(ev.stack)-1]
		fr.depth = fr.parent.depth + 1
	}
	ev.stack = append(ev.stack, fr)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	if len(args) != len(fn.Params) {
		ev.fail("argument count of %s", fname(fn))
	}
	for i, prm := range fn.Params {
		fr.env[prm] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.env[fv] = free[i]
		} else {
			fr.env[fv] = rawTerm(OParam, fv.Type(), "free:"+fname(fn)+":"+fv.Name())
		}
	}
	outs := ev.evalRegion(fr, nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], st}})
	_ = outs
	if len(fr.rets) == 0 {
		return nil, nil, nil
	}
	// merge returns
	cur := fr.rets[0]
	vals := cur.vals
	g, m := cur.st.g, cur.st.m
	for _, r := range fr.rets[1:] {
		tot := Or(g, r.st.g)
		c := bddRestrict(g, tot)
		for i := range vals {
			vals = append([]*Term(nil), vals...)
			vals[i] = TIte(c, vals[i], r.vals[i])
		}
		m = mergeMem(c, m, r.st.m)
		g = tot
	}
	var ret *Term
	switch len(vals) {
	case 0:
	case 1:
		ret = vals[0]
	default:
		ret = TStruct(fn.Signature.Results(), vals)
	}
	return ret, &State{g, m}, fr.rets
}

// ---------------------------------------------------------------- loops

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*natLoop
	inner    map[*ssa.BasicBlock]*natLoop // innermost loop of a block
	rpo      []*ssa.BasicBlock
	order    map[*ssa.BasicBlock]int
	panics   map[*ssa.BasicBlock]bool
	bad      bool
}

var forestMemo = map[*ssa.Function]*loopForest{}

func loopsOf(fn *ssa.Function) *loopForest {
	if f := forestMemo[fn]; f != nil {
		return f
	}
	f := &loopForest{byHeader: map[*ssa.BasicBlock]*natLoop{}, inner: map[*ssa.BasicBlock]*natLoop{}, order: map[*ssa.BasicBlock]int{}, panics: map[*ssa.BasicBlock]bool{}}
	forestMemo[fn] = f
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.order[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.order[s] <= f.order[b] { // retreating edge
				if !s.Dominates(b) {
					f.bad = true
					continue
				}
				l := f.byHeader[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.byHeader[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, l := range f.byHeader {
		for _, o := range f.byHeader {
			if o != l && o.blocks[l.header] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
		for b := range l.blocks {
			if c := f.inner[b]; c == nil || len(l.blocks) < len(c.blocks) {
				f.inner[b] = l
			}
		}
	}
	// blocks from which every path panics
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if f.panics[b] || len(b.Instrs) == 0 {
				continue
			}
			p := false
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && neverReturns(c.Common()) {
					p = true
				}
			}
			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Panic:
				p = true
			default:
				if len(b.Succs) > 0 {
					all := true
					for _, s := range b.Succs {
						if !f.panics[s] {
							all = false
						}
					}
					p = p || all
				}
			}
			if p {
				f.panics[b] = true
				changed = true
			}
		}
	}
	return f
}

func neverReturns(c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil || g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit":
		return true
	}
	return false
}

func mergeEdges(ins []edge) (*State, []*BDD) {
	if len(ins) == 1 {
		return &State{ins[0].st.g, ins[0].st.m}, []*BDD{bddTrue}
	}
	g, m := ins[0].st.g, ins[0].st.m
	// selection conditions: sel[i] is true if edge i was taken, given that an
	// edge <= i was taken
	sel := make([]*BDD, len(ins))
	sel[0] = bddTrue
	for i := 1; i < len(ins); i++ {
		tot := Or(g, ins[i].st.g)
		c := bddRestrict(ins[i].st.g, tot)
		sel[i] = c
		m = mergeMem(c, ins[i].st.m, m)
		g = tot
	}
	return &State{g, m}, sel
}

// evalRegion evaluates the blocks of a loop (or of the whole function if l is
// nil) once, starting at entry. Edges that leave the loop and edges back to
// its header are returned.
func (ev *Eval) evalRegion(fr *frame, l *natLoop, entry *ssa.BasicBlock, ins []edge) (outs []edge) {
	lf := fr.loops
	if lf.bad {
		ev.fail("irreducible control flow in %s", fname(fr.fn))
	}
	pend := map[*ssa.BasicBlock][]edge{entry: ins}
	deliver := func(e edge) {
		if e.st.g == bddFalse {
			return
		}
		if !sat(And(e.st.g, ev.assume)) {
			return
		}
		if lf.panics[e.to] {
			ev.assume = And(ev.assume, Not(e.st.g))
			return
		}
		if l != nil && (e.to == l.header || !l.blocks[e.to]) {
			outs = append(outs, e)
			return
		}
		pend[e.to] = append(pend[e.to], e)
	}
	for _, b := range lf.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := pend[b]
		if len(in) == 0 {
			continue
		}
		delete(pend, b)
		// nested loop?
		if il := lf.byHeader[b]; il != nil && il != l {
			for _, e := range ev.evalLoop(fr, il, in) {
				deliver(e)
			}
			continue
		}
		if lf.inner[b] != nil && lf.inner[b] != l && lf.inner[b].header != b {
			// a block of a nested loop whose header was not reached: ignore
			continue
		}
		for _, e := range ev.evalBlock(fr, b, in, l != nil && b == l.header) {
			deliver(e)
		}
	}
	return outs
}

func (ev *Eval) evalBlock(fr *frame, b *ssa.BasicBlock, ins []edge, phisDone bool) []edge {
	st, sel := mergeEdges(ins)
	if !phisDone {
		ev.evalPhis(fr, b, ins, sel)
	}
	st = &State{st.g, st.m.clone()}
	for _, in := range b.Instrs {
		ev.steps++
		if ev.steps > 3000000 {
			ev.fail("analysis budget exceeded")
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := toBDD(ev.val(fr, x.Cond))
			if ev.given != nil && c != bddTrue && c != bddFalse {
				if implies(ev.given, c) {
					c = bddTrue
				} else if implies(ev.given, Not(c)) {
					c = bddFalse
				}
			}
			t := &State{And(st.g, c), st.m}
			f := &State{And(st.g, Not(c)), st.m}
			return []edge{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vals []*Term
			for _, r := range x.Results {
				vals = append(vals, ev.val(fr, r))
			}
			fr.rets = append(fr.rets, retRec{st, vals, x.Pos()})
			return nil
		case *ssa.Panic:
			ev.assume = And(ev.assume, Not(st.g))
			return nil
		default:
			if !ev.instr(fr, in, st) {
				ev.assume = And(ev.assume, Not(st.g))
				return nil
			}
		}
	}
	return nil
}

func (ev *Eval) evalPhis(fr *frame, b *ssa.BasicBlock, ins []edge, sel []*BDD) {
	vals := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Term
		for i, e := range ins {
			k := predIndex(b, e.from)
			w := ev.val(fr, phi.Edges[k])
			if v == nil {
				v = w
			} else {
				v = TIte(sel[i], w, v)
			}
		}
		vals[phi] = v
	}
	for k, v := range vals {
		fr.env[k] = v
	}
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (ev *Eval) newVar(name string, typ types.Type) *Term {
	return expandTerm(typ, func(path string, l types.Type) *Term {
		t := rawTerm(OVar, l, name+path)
		if len(ev.loopStk) > 0 {
			ev.varLoop[t] = append([]string(nil), ev.loopStk...)
		}
		return t
	}, "")
}

// variesIn: t depends on the iteration of loop id.
func (ev *Eval) variesIn(t *Term, id string) bool {
	has := func(s []string) bool {
		for _, x := range s {
			if x == id {
				return true
			}
		}
		return false
	}
	return contains(t, func(x *Term) bool {
		if x.op == OVar || x.op == OAlloc {
			return has(ev.varLoop[x])
		}
		if x.op == OLoad && x.ep != nil {
			return has(x.ep.loops)
		}
		return false
	})
}

// tripCount: how often a loop left only from its header runs, if that is a
// small number known where it is entered.
func (ev *Eval) tripCount(fr *frame, l *natLoop) (int, bool) {
	for b := range l.blocks {
		for _, t := range b.Succs {
			if b != l.header && !l.blocks[t] && !fr.loops.panics[t] {
				return 0, false
			}
		}
		if b != l.header && fr.loops.byHeader[b] != nil {
			return 0, false
		}
	}
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.NEQ {
		return 0, false
	}
	if y, ok := cmp.Y.(ssa.Instruction); ok && l.blocks[y.Block()] {
		return 0, false
	}
	plusOne := func(v ssa.Value) *ssa.Phi {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				ph, _ := b.X.(*ssa.Phi)
				return ph
			}
		}
		return nil
	}
	ph, first := plusOne(cmp.X), int64(1)
	if ph == nil {
		ph, _ = cmp.X.(*ssa.Phi)
		first = 0
	}
	if ph == nil || ph.Block() != h {
		return 0, false
	}
	var init int64
	for i, p := range h.Preds {
		if l.blocks[p] {
			if plusOne(ph.Edges[i]) != ph {
				return 0, false
			}
			continue
		}
		k, ok := ph.Edges[i].(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		init = k.Int64()
	}
	n, ok := intOf(ev.val(fr, cmp.Y))
	if !ok {
		return 0, false
	}
	n -= init + first
	if n < 0 || n > 4 {
		return 0, false
	}
	return int(n), true
}

// unroll evaluates such a loop iteration by iteration.
func (ev *Eval) unroll(fr *frame, l *natLoop, ins []edge) []edge {
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	for k := 0; k < 8; k++ {
		_, sel := mergeEdges(ins)
		ev.evalPhis(fr, l.header, ins, sel)
		fr.ctx = ev.ctxID(ctx, fmt.Sprintf("%s:%d#%d", fname(fr.fn), l.header.Index, k))
		var backs, exits []edge
		for _, e := range ev.evalRegion(fr, l, l.header, ins) {
			if e.to == l.header {
				backs = append(backs, e)
			} else {
				exits = append(exits, e)
			}
		}
		if len(backs) == 0 {
			return exits
		}
		if len(exits) > 0 {
			break
		}
		ins = backs
	}
	ev.fail("loop at %s of %s was expected to run a fixed number of times", ev.p.Pos(blockPos(l.header)), fname(fr.fn))
	return nil
}

func (ev *Eval) evalLoop(fr *frame, l *natLoop, ins []edge) []edge {
	if n, ok := ev.tripCount(fr, l); ok && n >= 0 {
		return ev.unroll(fr, l, ins)
	}
	id := fmt.Sprintf("L%d.%d", fr.ctx, l.header.Index)
	entry, sel := mergeEdges(ins)
	li := &LoopInfo{ID: id, Fn: fr.fn, Header: l.header, Entry: entry.m, MemVars: map[*Term]*Term{}}
	var phis []*ssa.Phi
	ev.evalPhis(fr, l.header, ins, sel)
	inits := map[*ssa.Phi]*Term{}
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
			inits[phi] = fr.env[phi]
		} else {
			break
		}
	}
	seq0 := ev.seq
	saveAssume := ev.assume
	saveSink := ev.sink
	saveDef := len(fr.defers)
	ev.loopStk = append(ev.loopStk, id)
	hLocs := map[*Term]types.Type{}
	hCls := map[string]bool{}
	invLoc := map[*Term]bool{}
	invPhi := map[*ssa.Phi]bool{}
	notInv := map[*ssa.Phi]bool{}
	// variables that always hold what a place in memory does
	follows := map[*ssa.Phi]func(m *Mem) *Term{}
	for _, phi := range phis {
		t := inits[phi]
		if t.op == OApp && t.name == "len" {
			t = t.args[0]
		}
		if t.op != OLoad {
			continue
		}
		loc, typ, isLen := t.args[0], t.typ, t != inits[phi]
		f := func(m *Mem) *Term {
			x := m.Load(loc, typ)
			if isLen {
				x = TLen(x)
			}
			return x
		}
		if f(entry.m) == inits[phi] {
			follows[phi] = f
		}
	}
	notInvLoc := map[*Term]bool{}
	var outs, backs, exits []edge
	var events []*Event
	var iterMem *Mem
	for pass := 0; ; pass++ {
		if pass > 12 {
			ev.fail("loop at %s does not stabilise", ev.p.Pos(blockPos(l.header)))
		}
		ev.seq = seq0
		ev.assume = saveAssume
		fr.defers = fr.defers[:saveDef]
		events = nil
		ev.sink = &events
		m := entry.m.clone()
		ep := newEpoch(id, ev.loopStk)
		for _, c := range sortedKeys(hCls) {
			m.havoc(c, ep, ev.keepLocal)
		}
		li.MemVars = map[*Term]*Term{}
		for _, loc := range sortedLocTypes(hLocs) {
			if invLoc[loc] {
				continue
			}
			v := ev.newVar(id+".m("+loc.String()+")"+strconv.Itoa(loc.id), hLocs[loc])
			m.cells[loc] = v
			m.ctyp[loc] = hLocs[loc]
			li.MemVars[loc] = v
		}
		for _, phi := range phis {
			if invPhi[phi] {
				fr.env[phi] = inits[phi]
			} else if f := follows[phi]; f != nil {
				fr.env[phi] = f(m)
			} else {
				fr.env[phi] = ev.newVar(fmt.Sprintf("%s.%s%d", id, phiName(phi), phiIndex(phi)), phi.Type())
			}
		}
		iterMem = m.clone()
		rec := &recorder{locs: map[*Term]types.Type{}, classes: map[string]bool{}, vals: map[*Term]*Term{}}
		ev.recs = append(ev.recs, rec)
		outs = ev.evalRegion(fr, l, l.header, []edge{{nil, l.header, &State{bddTrue, m}}})
		ev.recs = ev.recs[:len(ev.recs)-1]
		backs, exits = nil, nil
		for _, e := range outs {
			if e.to == l.header {
				backs = append(backs, e)
			} else {
				exits = append(exits, e)
			}
		}
		changed := false
		for c := range rec.classes {
			if !hCls[c] {
				hCls[c] = true
				changed = true
			}
		}
		for loc, t := range rec.locs {
			r := rootOf(loc)
			if r.op == OAlloc && ev.variesIn(r, id) {
				// made in this iteration: whatever else can reach it was
				// forgotten with the places it was stored to
				continue
			}
			if ev.variesIn(loc, id) {
				c := locClass(loc)
				if c == "local" {
					// element of a local array at a varying index: forget the array
					for l2 := range m.cells {
						if rootOf(l2) == r {
							if _, ok := hLocs[l2]; !ok {
								hLocs[l2] = m.ctyp[l2]
								changed = true
							}
						}
					}
					continue
				}
				if !hCls[c] {
					hCls[c] = true
					changed = true
				}
				// locals are not covered by class forgetting
				if r.op == OAlloc && !ev.escaped[r] {
					for l2 := range m.cells {
						if rootOf(l2) == r && locClass(l2) == c {
							if _, ok := hLocs[l2]; !ok {
								hLocs[l2] = m.ctyp[l2]
								changed = true
							}
						}
					}
				}
				continue
			}
			if _, ok := hLocs[loc]; !ok {
				hLocs[loc] = t
				changed = true
			}
		}
		if len(backs) > 0 {
			bst, bsel := mergeEdges(backs)
			for _, phi := range phis {
				if notInv[phi] {
					continue
				}
				var v *Term
				for i, e := range backs {
					w := ev.val(fr, phi.Edges[predIndex(l.header, e.from)])
					if v == nil {
						v = w
					} else {
						v = TIte(bsel[i], w, v)
					}
				}
				if f := follows[phi]; f != nil {
					if v != f(bst.m) {
						delete(follows, phi)
						changed = true
					}
					continue
				}
				same := v == fr.env[phi]
				if invPhi[phi] && !same {
					delete(invPhi, phi)
					notInv[phi] = true
					changed = true
				} else if !invPhi[phi] && same {
					invPhi[phi] = true
					changed = true
				}
			}
			for loc := range hLocs {
				if notInvLoc[loc] {
					continue
				}
				var want *Term
				if invLoc[loc] {
					want = entry.m.Load(loc, hLocs[loc])
				} else {
					want = li.MemVars[loc]
				}
				if want == nil {
					continue
				}
				same := bst.m.Load(loc, hLocs[loc]) == want
				if invLoc[loc] && !same {
					delete(invLoc, loc)
					notInvLoc[loc] = true
					changed = true
				} else if !invLoc[loc] && same {
					invLoc[loc] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// final information
	li.Events = events
	li.Iter = iterMem
	li.Assume = ev.assume
	li.BackG = bddFalse
	if len(backs) > 0 {
		bst, bsel := mergeEdges(backs)
		li.Back = bst.m
		li.BackG = bst.g
		for _, phi := range phis {
			var v *Term
			for i, e := range backs {
				w := ev.val(fr, phi.Edges[predIndex(l.header, e.from)])
				if v == nil {
					v = w
				} else {
					v = TIte(bsel[i], w, v)
				}
			}
			pi := &PhiInfo{Phi: phi, Init: inits[phi], Var: fr.env[phi], Back: v, Invariant: invPhi[phi]}
			if isNumType(phi.Type()) {
				d := TSub(v, fr.env[phi])
				if !ev.variesIn(d, id) {
					pi.Step = d
				}
			}
			li.Phis = append(li.Phis, pi)
		}
		// variables kept in memory of the function's own are variables of the loop as well
		vecT := ev.p.TPkg.Scope().Lookup("Vector")
		doneLoc := map[*Term]bool{}
		for _, loc := range sortedLocTypes(hLocs) {
			v, typ := li.MemVars[loc], hLocs[loc]
			root := loc
			for root.op == OField {
				root = root.args[0]
			}
			if v == nil || root.op != OAlloc {
				continue
			}
			if loc.op == OField && ownerOf(loc.name) == "Vector" && vecT != nil {
				loc, typ = loc.args[0], vecT.Type()
				v = iterMem.Load(loc, typ)
			}
			if doneLoc[loc] {
				continue
			}
			doneLoc[loc] = true
			pi := &PhiInfo{Init: entry.m.Load(loc, typ), Var: v, Back: bst.m.Load(loc, typ)}
			if isNumType(typ) {
				d := TSub(pi.Back, v)
				if !ev.variesIn(d, id) {
					pi.Step = d
				}
			}
			li.Phis = append(li.Phis, pi)
		}
	}
	li.Havoc = sortedKeys(hCls)
	li.HavocL = sortedLocTypes(hLocs)
	ev.loopStk = ev.loopStk[:len(ev.loopStk)-1]
	ev.sink = saveSink
	// the enclosing recorders see the loop's writes (already recorded by store)
	ev.emit(&Event{Kind: "loop", Guard: entry.g, Mem: entry.m, Loop: li, In: fr.fn, Instr: l.header.Instrs[0]})
	// exits
	ev.assume = saveAssume
	sort.SliceStable(exits, func(i, j int) bool { return exits[i].from.Index < exits[j].from.Index })
	var res []edge
	rest := bddTrue
	for i, e := range exits {
		sel := rest
		if i < len(exits)-1 {
			v := bddAtom(rawTerm(OVar, tyBool, fmt.Sprintf("%s.exit%d", id, i)))
			ev.varLoop[bddVars[v.v]] = append([]string(nil), ev.loopStk...)
			sel = And(rest, v)
			rest = And(rest, Not(v))
		}
		li.Exits = append(li.Exits, &ExitInfo{Guard: e.st.g, From: e.from, To: e.to, Mem: e.st.m, Sel: sel})
		g := And(entry.g, sel)
		sup := map[int]bool{}
		bddSupport(e.st.g, sup)
		if len(sup) <= 14 {
			ev.assume = And(ev.assume, Or(Not(g), e.st.g))
		}
		res = append(res, edge{e.from, e.to, &State{g, e.st.m}})
	}
	return res
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func phiIndex(p *ssa.Phi) int {
	for i, in := range p.Block().Instrs {
		if in == ssa.Instruction(p) {
			return i
		}
	}
	return -1
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedLocTypes(m map[*Term]types.Type) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// readOnlyCapture: a variable whose address reaches only closures that read
// it, so that handing the closures out lets nobody change it.
func readOnlyCapture(a *ssa.Alloc) bool {
	var ok func(v ssa.Value, write bool) bool
	ok = func(v ssa.Value, write bool) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if x.Addr != v || !write {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(x, write) {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && !ok(x.Fn.(*ssa.Function).FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a, true)
}

func (ev *Eval) keepLocal(root *Term) bool { return root.op == OAlloc && !ev.escaped[root] }

func (ev *Eval) emit(e *Event) {
	e.Assume = ev.assume
	e.Seq = ev.seq
	ev.seq++
	for _, f := range ev.stack {
		e.Path = append(e.Path, fname(f.fn))
	}
	*ev.sink = append(*ev.sink, e)
}

// ---------------------------------------------------------------- values

func (ev *Eval) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return funcTerm(x)
	case *ssa.Global:
		return rawTerm(OGlobal, x.Type(), x.Name())
	case *ssa.Builtin:
		return rawTerm(OConst, x.Type(), "builtin:"+x.Name())
	}
	if t := fr.env[v]; t != nil {
		return t
	}
	ev.fail("value %s of %s has no term", v.Name(), fname(fr.fn))
	return nil
}

var fnIDs = map[*ssa.Function]int{}

func fnID(f *ssa.Function) int {
	if id, ok := fnIDs[f]; ok {
		return id
	}
	fnIDs[f] = len(fnIDs) + 1
	return len(fnIDs)
}

func funcTerm(f *ssa.Function) *Term {
	return intern("F|"+strconv.Itoa(fnID(f)), func() *Term { return &Term{op: OFunc, typ: f.Signature, fn: f, name: fname(f)} })
}

var ratMaxF = func() *big.Rat { r := new(big.Rat); r.SetFloat64(math.MaxFloat64); return r }()
var ratMinF = func() *big.Rat { r := new(big.Rat); r.SetFloat64(-math.MaxFloat64); return r }()

func TMaxF() *Term { return rawTerm(OApp, tyFloat, "maxf") }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return TBool(bddTrue)
		}
		return TBool(bddFalse)
	case constant.Int, constant.Float:
		if isNumType(c.Type()) || true {
			r := constRat(c.Value)
			if r == nil {
				return rawTerm(OConst, c.Type(), c.Value.ExactString())
			}
			if !isIntType(c.Type()) {
				if r.Cmp(ratMaxF) == 0 {
					return TMaxF()
				}
				if r.Cmp(ratMinF) == 0 {
					return TNeg(TMaxF())
				}
				r = shortest(r)
			}
			return TRat(r, c.Type())
		}
	case constant.String:
		return rawTerm(OConst, c.Type(), c.Value.ExactString())
	}
	return rawTerm(OConst, c.Type(), c.Value.ExactString())
}

// shortest is the shortest decimal that is the same floating point number: whether the compiler
// has already rounded a constant is no matter.
func shortest(r *big.Rat) *big.Rat {
	f, _ := r.Float64()
	if q, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok {
		return q
	}
	return r
}

func constRat(v constant.Value) *big.Rat {
	switch x := constant.Val(constant.ToFloat(v)).(type) {
	case *big.Rat:
		return new(big.Rat).Set(x)
	case *big.Float:
		f, _ := x.Float64()
		r := new(big.Rat)
		if r.SetFloat64(f) == nil {
			return nil
		}
		return r
	case int64:
		return new(big.Rat).SetInt64(x)
	case *big.Int:
		return new(big.Rat).SetInt(x)
	}
	if r, ok := new(big.Rat).SetString(v.ExactString()); ok {
		return r
	}
	return nil
}

// ---------------------------------------------------------------- instructions

func (ev *Eval) doStore(st *State, loc, val *Term, typ types.Type, in ssa.Instruction, fr *frame) {
	before := st.m.clone()
	if ev.cfg.Cut != nil && ev.cfg.Cut(locClass(loc)) {
		val = ev.cut(loc, val, typ)
	}
	ev.escapeVal(loc, val)
	st.m.Store(loc, val, typ, bddTrue, func(l, v *Term, t types.Type) {
		ev.record(l, t)
		r := rootOf(l)
		if r.op == OAlloc && !ev.escaped[r] && fr != nil {
			return
		}
		ev.emit(&Event{Kind: "store", Guard: st.g, Mem: before, Loc: l, Val: v, Typ: t, Instr: in, In: fr.fn})
	})
}

// cut names the float leaves of a stored value, so that what is computed from
// them stays small; the definitions are kept for uncut.
func (ev *Eval) cut(loc, val *Term, typ types.Type) *Term {
	return ev.cutVal(locClass(loc), val, typ, func(*Term) bool { return true })
}

func (ev *Eval) cutVal(what string, val *Term, typ types.Type, big func(*Term) bool) *Term {
	return expandTermVal(val, typ, func(path string, v *Term, t types.Type) *Term {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsFloat == 0 || isConstTerm(v) || v.op == OVar || v.op == OLoad || !big(v) {
			return v
		}
		if x := ev.cutOf[v]; x != nil {
			return x
		}
		x := ev.newVar(fmt.Sprintf("cut%d:%s%s", len(ev.cuts), what, path), t)
		ev.cuts[x], ev.cutOf[v] = v, x
		return x
	}, "")
}

func expandTermVal(v *Term, typ types.Type, leaf func(path string, v *Term, typ types.Type) *Term, path string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok || isOpaqueStruct(typ) {
		return leaf(path, v, typ)
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		args[i] = expandTermVal(fieldOf2(v, i, st.Field(i).Type()), st.Field(i).Type(), leaf, path+"."+st.Field(i).Name())
	}
	return TStruct(typ, args)
}

// uncut puts the definitions of cut variables back.
func (s *Summary) uncut(t *Term) *Term {
	for k := 0; k < 8; k++ {
		n := subst(t, s.Ev.cuts)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// uncutOnly puts back the definitions of the values stored to one field.
func (s *Summary) uncutOnly(t *Term, field string) *Term {
	m := map[*Term]*Term{}
	for x, v := range s.Ev.cuts {
		if strings.Contains(x.name, field) {
			m[x] = v
		}
	}
	return subst(t, m)
}

func (ev *Eval) record(l *Term, t types.Type) {
	for _, r := range ev.recs {
		r.locs[l] = t
	}
}

// escapeVal: storing the address of a local into non-local memory.
func (ev *Eval) escapeVal(loc, val *Term) {
	r := rootOf(loc)
	if r.op == OAlloc && !ev.escaped[r] {
		return
	}
	ev.escape(val)
}

func (ev *Eval) escape(v *Term) {
	if v == nil {
		return
	}
	switch v.op {
	case OAlloc:
		if !ev.escaped[v] {
			ev.escaped[v] = true
			ev.pendEsc = append(ev.pendEsc, v)
		}
	case OField, OIndex:
		ev.escape(v.args[0])
	case OIface, OClosure, OStruct, OIte:
		for _, a := range v.args {
			if v.op == OClosure && a.op == OAlloc && ev.allocOf[a] != nil && readOnlyCapture(ev.allocOf[a]) {
				continue
			}
			ev.escape(a)
		}
	case OApp:
		for _, a := range v.args {
			if a.op == OAlloc || a.op == OApp || a.op == OField || a.op == OIndex || a.op == OIte {
				ev.escape(a)
			}
		}
	}
}

// flushEsc: what escaped objects point to escapes too.
func (ev *Eval) flushEsc(m *Mem) {
	for len(ev.pendEsc) > 0 {
		a := ev.pendEsc[0]
		ev.pendEsc = ev.pendEsc[1:]
		for l, v := range m.cells {
			if rootOf(l) == a {
				ev.escape(v)
			}
		}
	}
}

func (ev *Eval) instr(fr *frame, in ssa.Instruction, st *State) bool {
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		t := rawTerm(OAlloc, x.Type(), fmt.Sprintf("new%d.%s", fr.ctx, allocName(x)))
		ev.allocOf[t] = x
		if len(ev.loopStk) > 0 {
			ev.varLoop[t] = append([]string(nil), ev.loopStk...)
		}
		if ar, ok := el.Underlying().(*types.Array); ok && ar.Len() > 4 {
			// large arrays: contents start as zero, kept implicit
		} else {
			st.m.Store(t, zeroTerm(el), el, bddTrue, nil)
		}
		set(x, t)
	case *ssa.BinOp:
		set(x, ev.binop(x.Op, ev.val(fr, x.X), ev.val(fr, x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		a := ev.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			set(x, st.m.Load(a, x.Type()))
		case token.SUB:
			set(x, TNeg(a))
		case token.NOT:
			set(x, TBool(Not(toBDD(a))))
		case token.XOR:
			b := x.Type().Underlying().(*types.Basic)
			if c, ok := constOf(a); ok && c.IsInt() && b.Info()&types.IsUnsigned != 0 {
				all := new(big.Int).Lsh(big.NewInt(1), uint(8*sizeOf(b)))
				all.Sub(all, big.NewInt(1))
				set(x, TRat(new(big.Rat).SetInt(all.Sub(all, c.Num())), x.Type()))
			} else if c, ok := intOf(a); ok {
				set(x, TRat(big.NewRat(^c, 1), x.Type()))
			} else {
				set(x, TApp("not", x.Type(), a))
			}
		default:
			ev.fail("unsupported operator %v in %s", x.Op, fname(fr.fn))
		}
	case *ssa.ChangeType:
		set(x, ev.val(fr, x.X))
	case *ssa.ChangeInterface:
		set(x, ev.val(fr, x.X))
	case *ssa.Convert:
		set(x, ev.convert(ev.val(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, TApp("convert:"+typeName(x.Type()), x.Type(), ev.val(fr, x.X)))
	case *ssa.MakeInterface:
		v := ev.val(fr, x.X)
		set(x, mapGate(v, func(v *Term) *Term { return rawTerm(OIface, x.X.Type(), typeName(x.X.Type()), v) }))
	case *ssa.Field:
		v := ev.val(fr, x.X)
		set(x, fieldOf2(v, x.Field, x.X.Type()))
	case *ssa.FieldAddr:
		b := ev.val(fr, x.X)
		owner := x.X.Type().Underlying().(*types.Pointer).Elem()
		stt := owner.Underlying().(*types.Struct)
		set(x, fieldAddr(b, owner, stt.Field(x.Field)))
	case *ssa.IndexAddr:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		set(x, TIndexAddr(ev.val(fr, x.X), ev.val(fr, x.Index), el))
	case *ssa.Index:
		v, i := ev.val(fr, x.X), ev.val(fr, x.Index)
		if n, ok := intOf(i); ok && v.op == OStruct && n >= 0 && int(n) < len(v.args) {
			set(x, v.args[n])
		} else {
			set(x, expandTerm(x.Type(), func(path string, l types.Type) *Term { return TApp("index"+path, l, v, i) }, ""))
		}
	case *ssa.Lookup:
		m, k := ev.val(fr, x.X), ev.val(fr, x.Index)
		class := "map:" + typeName(x.X.Type())
		ep := st.m.epoch(class)
		loc := rawTerm(OIndex, nil, "map:", m, k)
		loc2 := intern("ML|"+strconv.Itoa(loc.id), func() *Term { return &Term{op: OApp, name: "mapelem", args: []*Term{m, k}} })
		var vt types.Type = x.Type()
		if x.CommaOk {
			vt = x.Type().(*types.Tuple).At(0).Type()
		}
		v := expandTerm(vt, func(path string, l types.Type) *Term {
			if path == "" {
				return loadAtom(loc2, l, ep)
			}
			return loadAtom(rawTerm(OApp, l, "mapelem"+path, m, k), l, ep)
		}, "")
		if x.CommaOk {
			ok := loadAtom(rawTerm(OApp, tyBool, "maphas", m, k), tyBool, ep)
			set(x, TStruct(x.Type(), []*Term{v, ok}))
		} else {
			set(x, v)
		}
	case *ssa.MapUpdate:
		class := "map:" + typeName(x.Map.Type())
		m, k, v := ev.val(fr, x.Map), ev.val(fr, x.Key), ev.val(fr, x.Value)
		ev.escape(v)
		ev.emit(&Event{Kind: "mapupdate", Guard: st.g, Mem: st.m.clone(), Name: class, Args: []*Term{m, k, v}, Instr: in, In: fr.fn})
		ev.havocClass(st, class, fr, in, "")
	case *ssa.Store:
		ev.doStore(st, ev.val(fr, x.Addr), ev.val(fr, x.Val), x.Val.Type(), in, fr)
	case *ssa.Extract:
		t := ev.val(fr, x.Tuple)
		if t.op == OStruct && x.Index < len(t.args) {
			set(x, t.args[x.Index])
		} else {
			set(x, expandTerm(x.Type(), func(path string, l types.Type) *Term {
				return TApp(fmt.Sprintf("extract%d%s", x.Index, path), l, t)
			}, ""))
		}
	case *ssa.Slice:
		set(x, ev.slice(fr, x, st))
	case *ssa.MakeSlice:
		n := ev.val(fr, x.Len)
		t := rawTerm(OAlloc, x.Type(), fmt.Sprintf("mk%d.%s", fr.ctx, x.Name()))
		if len(ev.loopStk) > 0 {
			ev.varLoop[t] = append([]string(nil), ev.loopStk...)
		}
		set(x, rawTerm(OApp, x.Type(), "make", n, t))
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		t := rawTerm(OAlloc, v.Type(), fmt.Sprintf("mk%d.%s", fr.ctx, v.Name()))
		set(v, t)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ev.val(fr, b))
		}
		set(x, mkClosure(&Term{fn: f, typ: x.Type(), name: fname(f)}, bs))
	case *ssa.TypeAssert:
		set(x, ev.typeAssert(fr, x, st))
	case *ssa.Range:
		set(x, rawTerm(OApp, x.Type(), "range", ev.val(fr, x.X)))
	case *ssa.Next:
		set(x, ev.newVar(fmt.Sprintf("next%d.%s", fr.ctx, x.Name()), tupleNext(x)))
	case *ssa.Defer:
		d := deferRec{call: &x.Call, g: st.g, in: x}
		if !x.Call.IsInvoke() {
			d.fn = ev.val(fr, x.Call.Value)
		} else {
			d.fn = ev.val(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, ev.val(fr, a))
		}
		if len(ev.loopStk) > 0 && fr.loops.inner[x.Block()] != nil {
			ev.fail("defer inside a loop in %s", fname(fr.fn))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if And(d.g, st.g) == bddFalse {
				continue
			}
			if implies(st.g, d.g) {
				_, ok := ev.call(fr, d.in, d.call, d.fn, d.args, st)
				if !ok {
					return false
				}
			} else {
				ev.fail("conditional defer in %s", fname(fr.fn))
			}
		}
	case *ssa.Call:
		var fnT *Term
		fnT = ev.val(fr, x.Call.Value)
		var args []*Term
		for _, a := range x.Call.Args {
			args = append(args, ev.val(fr, a))
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			r := ev.builtin(fr, x, b, args, st)
			if r != nil {
				set(x, r)
			}
			return true
		}
		if neverReturns(&x.Call) {
			return false
		}
		r, ok := ev.call(fr, x, &x.Call, fnT, args, st)
		if !ok {
			return false
		}
		if r != nil {
			set(x, r)
		} else {
			set(x, TStruct(x.Type(), nil))
		}
	case *ssa.Go:
		ev.emit(&Event{Kind: "go", Guard: st.g, Mem: st.m, Instr: in, In: fr.fn})
		ev.fail("goroutine in %s", fname(fr.fn))
	default:
		ev.fail("unsupported instruction %T in %s", in, fname(fr.fn))
	}
	return true
}

func tupleNext(x *ssa.Next) types.Type {
	// build a plain struct-like tuple term through newVar on its components
	return x.Type()
}

func allocName(x *ssa.Alloc) string {
	n := x.Comment
	for i, in := range x.Block().Instrs {
		if in == ssa.Instruction(x) {
			return fmt.Sprintf("%s%d_%d", n, x.Block().Index, i)
		}
	}
	for i, l := range x.Parent().Locals {
		if l == x {
			return fmt.Sprintf("%sl%d", n, i)
		}
	}
	return n + x.Name()
}

// mapGate applies f below conditional merges.
func mapGate(v *Term, f func(*Term) *Term) *Term {
	if v.op == OIte {
		return TIte(v.cond, mapGate(v.args[0], f), mapGate(v.args[1], f))
	}
	return f(v)
}

func (ev *Eval) convert(v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if sizeOf(tb) >= sizeOf(fb) {
				return retype(v, to)
			}
			if _, ok := constOf(v); ok {
				return v
			}
			return TApp("conv:"+tb.Name(), to, v)
		}
		if fb.Info()&types.IsInteger != 0 {
			return retype(v, to)
		}
		if tb.Info()&types.IsInteger != 0 {
			return TApp("trunc", to, v)
		}
		if tb.Kind() == types.Float32 {
			return TApp("float32", to, v)
		}
		return v
	}
	if ok2 && tb.Kind() == types.UnsafePointer || ok1 && fb.Kind() == types.UnsafePointer {
		return TApp("unsafe", to, v)
	}
	return TApp("convert:"+typeName(to), to, v)
}

func retype(v *Term, to types.Type) *Term { return v }

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (ev *Eval) binop(op token.Token, a, b *Term, xt, rt types.Type) *Term {
	isInt := isIntType(xt)
	num := isNumType(xt)
	switch op {
	case token.ADD:
		if !num {
			return TApp("concat", rt, a, b)
		}
		return TAdd(a, b)
	case token.SUB:
		return TSub(a, b)
	case token.MUL:
		return TMul(a, b)
	case token.QUO:
		if isInt {
			if c, ok := intOf(b); ok && c != 0 {
				if d, ok := intOf(a); ok {
					return TRat(big.NewRat(d/c, 1), rt)
				}
			}
			return TApp("idiv", rt, a, b)
		}
		return TDiv(a, b)
	case token.REM:
		if d, ok := intOf(a); ok {
			if c, ok := intOf(b); ok && c != 0 {
				return TRat(big.NewRat(d%c, 1), rt)
			}
		}
		return TApp("mod", rt, a, b)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if c, ok := intOf(a); ok {
			if d, ok := intOf(b); ok {
				var r int64
				switch op {
				case token.AND:
					r = c & d
				case token.OR:
					r = c | d
				case token.XOR:
					r = c ^ d
				case token.SHL:
					r = c << uint(d)
				case token.SHR:
					r = c >> uint(d)
				case token.AND_NOT:
					r = c &^ d
				}
				return TRat(big.NewRat(r, 1), rt)
			}
		}
		// decisions between a few constants
		a, b := asTree(a, 16), asTree(b, 16)
		if n, m := constTree(a, 16), constTree(b, 16); n > 0 && m > 0 && n*m <= 64 {
			if a.op == OIte {
				return mapIte(a, func(x *Term) *Term { return ev.binop(op, x, b, xt, rt) })
			}
			return mapIte(b, func(x *Term) *Term { return ev.binop(op, a, x, xt, rt) })
		}
		name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
		return TApp(name, rt, a, b)
	case token.EQL, token.NEQ:
		var e *BDD
		if num {
			e = condEq0(TSub(a, b), isInt)
		} else {
			e = CondEq(a, b)
		}
		if op == token.NEQ {
			e = Not(e)
		}
		return TBool(e)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !num {
			return TApp("cmp"+op.String(), rt, a, b)
		}
		switch op {
		case token.LSS:
			return TBool(CondLt(a, b, isInt))
		case token.GTR:
			return TBool(CondLt(b, a, isInt))
		case token.LEQ:
			return TBool(CondLe(a, b, isInt))
		default:
			return TBool(CondLe(b, a, isInt))
		}
	}
	ev.fail("unsupported operator %v", op)
	return nil
}

func (ev *Eval) slice(fr *frame, x *ssa.Slice, st *State) *Term {
	b := ev.val(fr, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = ev.val(fr, x.Low)
	} else {
		lo = TInt(0)
	}
	var full *Term
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		full = TInt(n)
	} else {
		full = TLen(b)
	}
	if x.High != nil {
		hi = ev.val(fr, x.High)
	} else {
		hi = full
	}
	return TSliceOf(b, lo, hi, full, x.Type())
}

// TSliceOf is b[lo:hi].
func TSliceOf(b, lo, hi, full *Term, typ types.Type) *Term {
	if b.op == OIte {
		return TIte(b.cond, TSliceOf(b.args[0], lo, hi, full, typ), TSliceOf(b.args[1], lo, hi, full, typ))
	}
	if z, ok := intOf(lo); ok && z == 0 && hi == full && !isArrayAddr(b) {
		return b
	}
	if b.op == OApp && b.name == "slice" {
		return TSliceOf(b.args[0], TAdd(b.args[1], lo), TAdd(b.args[1], hi), nil, typ)
	}
	return rawTerm(OApp, typ, "slice", b, lo, hi)
}

func (ev *Eval) typeAssert(fr *frame, x *ssa.TypeAssert, st *State) *Term {
	v := ev.val(fr, x.X)
	T := x.AssertedType
	isIface := types.IsInterface(T)
	valOf := func(v *Term) *Term {
		if isIface {
			return v
		}
		if v.op == OIface {
			if types.Identical(v.typ, T) {
				return v.args[0]
			}
			return zeroTerm(T)
		}
		if v.op == ONil {
			return zeroTerm(T)
		}
		return expandTerm(T, func(path string, l types.Type) *Term {
			return rawTerm(OApp, l, "as:"+typeName(T)+path, v)
		}, "")
	}
	okOf := func(v *Term) *BDD {
		switch v.op {
		case OIface:
			if isIface {
				if types.Implements(v.typ, T.Underlying().(*types.Interface)) {
					return bddTrue
				}
				return bddFalse
			}
			if types.Identical(v.typ, T) {
				return bddTrue
			}
			return bddFalse
		case ONil:
			return bddFalse
		}
		return bddAtom(rawTerm(OApp, tyBool, "typeis", v, rawTerm(OConst, T, "type:"+typeName(T))))
	}
	var okT func(v *Term) *BDD
	okT = func(v *Term) *BDD {
		if v.op == OIte {
			return bddITE(v.cond, okT(v.args[0]), okT(v.args[1]))
		}
		return okOf(v)
	}
	val := mapGate(v, valOf)
	ok := okT(v)
	if x.CommaOk {
		val = TIte(ok, val, zeroTerm(T))
		return TStruct(x.Type(), []*Term{val, TBool(ok)})
	}
	ev.emit(&Event{Kind: "assert", Guard: st.g, Mem: st.m, Args: []*Term{v, val, TBool(ok)}, Typ: T, Instr: x, In: fr.fn})
	ev.assume = And(ev.assume, Or(Not(st.g), ok))
	return val
}

// ---------------------------------------------------------------- calls

func (ev *Eval) havocClass(st *State, class string, fr *frame, in ssa.Instruction, when string) {
	ep := newEpoch(fmt.Sprintf("e%d.%d.%d%s/%s", fr.ctx, in.Block().Index, instrIndex(in), when, class), ev.loopStk)
	st.m.havoc(class, ep, ev.keepLocal)
	for _, r := range ev.recs {
		r.classes[class] = true
	}
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (ev *Eval) callName(fr *frame, in ssa.Instruction) string {
	return fmt.Sprintf("%d.%d.%d", fr.ctx, in.Block().Index, instrIndex(in))
}

func (ev *Eval) resultVar(name string, sig *types.Signature) *Term {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return ev.newVar(name, rs.At(0).Type())
	}
	var vals []*Term
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, ev.newVar(fmt.Sprintf("%s#%d", name, i), rs.At(i).Type()))
	}
	return TStruct(rs, vals)
}

func (ev *Eval) inStack(fn *ssa.Function) bool {
	for _, f := range ev.stack {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func isUserFuncTerm(t *Term) bool {
	return t.op != OFunc && t.op != OClosure
}

// call evaluates a (non-builtin) call; ok=false means it never returns.
func (ev *Eval) call(fr *frame, in ssa.CallInstruction, cc *ssa.CallCommon, fnT *Term, args []*Term, st *State) (*Term, bool) {
	if cc.IsInvoke() {
		recv := fnT
		if recv.op == OIte {
			return ev.splitCall(fr, in, cc, recv, args, st)
		}
		if recv.op == OIface {
			g := ev.p.SSA.LookupMethod(recv.typ, cc.Method.Pkg(), cc.Method.Name())
			if g != nil && len(g.Blocks) > 0 {
				return ev.staticCall(fr, in, g, append([]*Term{recv.args[0]}, args...), nil, st)
			}
		}
		return ev.opaque(fr, in, &Event{Kind: "invoke", Name: cc.Method.Name(), Recv: recv, Args: args}, ev.p.eff.implsOf(cc.Value.Type(), cc.Method), cc.Signature(), st), true
	}
	if fnT.op == OIte {
		return ev.splitCall(fr, in, cc, fnT, args, st)
	}
	switch fnT.op {
	case OFunc:
		return ev.staticCall(fr, in, fnT.fn, args, nil, st)
	case OClosure:
		return ev.staticCall(fr, in, fnT.fn, args, fnT.args, st)
	}
	// unknown function value: user code or a stored callback
	var cands []*ssa.Function
	for _, g := range ev.p.eff.addrTak {
		if types.Identical(stripRecv(g.Signature), stripRecv(cc.Signature())) {
			cands = append(cands, g)
		}
	}
	if ev.cfg.PureUser != nil && cc.Signature().Results().Len() == 1 && ev.cfg.PureUser(fnT) {
		e := &Event{Kind: "user", Name: calleeName(fnT), Callee: fnT, Args: args, Guard: st.g, Instr: in, In: fr.fn, Mem: st.m.clone()}
		e.Result = TApp("user", cc.Signature().Results().At(0).Type(), append([]*Term{fnT}, args...)...)
		e.After = e.Mem
		ev.emit(e)
		return e.Result, true
	}
	return ev.opaque(fr, in, &Event{Kind: "user", Name: calleeName(fnT), Callee: fnT, Args: args}, cands, cc.Signature(), st), true
}

// calleeName describes where a function value comes from.
func calleeName(t *Term) string {
	switch t.op {
	case OLoad:
		l := t.args[0]
		if l.op == OField {
			return l.name
		}
		return locClass(l)
	case OParam:
		return "param " + t.name
	case OVar:
		return "var"
	case OApp:
		return t.name
	}
	return "?"
}

func (ev *Eval) splitCall(fr *frame, in ssa.CallInstruction, cc *ssa.CallCommon, v *Term, args []*Term, st *State) (*Term, bool) {
	c := v.cond
	a := &State{And(st.g, c), st.m.clone()}
	b := &State{And(st.g, Not(c)), st.m.clone()}
	var ra, rb *Term
	oka, okb := false, false
	if sat(And(a.g, ev.assume)) {
		ra, oka = ev.call(fr, in, cc, v.args[0], args, a)
	}
	if sat(And(b.g, ev.assume)) {
		rb, okb = ev.call(fr, in, cc, v.args[1], args, b)
	}
	switch {
	case oka && okb:
		st.m = mergeMem(c, a.m, b.m)
		st.g = Or(a.g, b.g)
		if ra == nil {
			return nil, true
		}
		return TIte(c, ra, rb), true
	case oka:
		*st = *a
		return ra, true
	case okb:
		*st = *b
		return rb, true
	}
	return nil, false
}

func (ev *Eval) staticCall(fr *frame, in ssa.CallInstruction, fn *ssa.Function, args, free []*Term, st *State) (*Term, bool) {
	if !ev.p.inPkg(fn) {
		return ev.external(fr, in, fn, args, st)
	}
	if len(fn.Blocks) == 0 {
		ev.fail("no body for %s", fname(fn))
	}
	opaque := ev.cfg.Opaque != nil && ev.cfg.Opaque(fn) || ev.inStack(fn) || fr.depth >= ev.cfg.MaxDepth
	if opaque {
		eff := ev.p.eff.of(fn)
		if eff != nil && len(eff.TW) == 0 && len(eff.TR) == 0 && !eff.TDyn && onlyMath(eff.TExt) && fn.Signature.Results().Len() == 1 && len(free) == 0 {
			r := expandTerm(fn.Signature.Results().At(0).Type(), func(path string, l types.Type) *Term {
				return TApp("fn:"+fname(fn)+path, l, args...)
			}, "")
			ev.emit(&Event{Kind: "call", Guard: st.g, Mem: st.m.clone(), After: st.m, Fn: fn, Name: fname(fn), Args: args, Result: r, Instr: in, In: fr.fn})
			return r, true
		}
		return ev.opaque(fr, in, &Event{Kind: "call", Fn: fn, Name: fname(fn), Args: args}, []*ssa.Function{fn}, fn.Signature, st), true
	}
	if !ev.cfg.NoEnter {
		ev.emit(&Event{Kind: "enter", Guard: st.g, Mem: st.m.clone(), Fn: fn, Name: fname(fn), Args: args, Instr: in, In: fr.fn})
	}
	if ev.cfg.CutArgs {
		args = append([]*Term(nil), args...)
		for i, prm := range fn.Params {
			if _, ok := prm.Type().Underlying().(*types.Struct); ok {
				args[i] = ev.cutVal("arg:"+prm.Name(), args[i], prm.Type(), func(v *Term) bool {
					return len(toPoly(v).ts) > 4 || contains(v, func(x *Term) bool { return x.op == OIte || x.op == OApp && x.name == "pos" })
				})
			}
		}
	}
	ctx := ev.ctxID(fr.ctx, fmt.Sprintf("%s:%d.%d>%d", fname(fr.fn), in.Block().Index, instrIndex(in), fnID(fn)))
	r, rst, _ := ev.callBody(fn, args, free, &State{st.g, st.m}, ctx)
	if rst == nil {
		return nil, false
	}
	st.g, st.m = rst.g, rst.m.clone()
	return r, true
}

// opaque emits the event and forgets what the callees may modify.
func (ev *Eval) opaque(fr *frame, in ssa.CallInstruction, e *Event, callees []*ssa.Function, sig *types.Signature, st *State) *Term {
	e.Guard, e.Instr, e.In = st.g, in, fr.fn
	e.Mem = st.m.clone()
	for _, a := range args2(e) {
		ev.escape(a)
	}
	ev.flushEsc(st.m)
	mods, outs := map[string]bool{}, map[string]bool{}
	user := e.Kind == "user"
	for _, g := range callees {
		if ev.cfg.Pure != nil && ev.cfg.Pure(g) {
			continue
		}
		if eff := ev.p.eff.of(g); eff != nil {
			for c := range eff.TW {
				if ev.cfg.ArgOut != nil && ev.cfg.ArgOut(g, c) {
					outs[ownerOf(c)] = true
				} else if ev.cfg.KeepOn == nil || !ev.cfg.KeepOn(g, c) {
					mods[c] = true
				}
			}
			// user function values that reach the callee
			if eff.TDyn {
				for _, a := range args2(e) {
					if _, ok := typeOf(a).(*types.Signature); ok && isUserFuncTerm(a) {
						user = true
					}
				}
				if fnCallsUser(ev.p, g) {
					user = true
				}
			}
		}
	}
	// closures handed over may run any number of times
	var subs []*Term
	for _, a := range e.Args {
		mapGate(a, func(x *Term) *Term {
			if x.op == OClosure || x.op == OFunc {
				subs = append(subs, x)
				if eff := ev.p.eff.of(x.fn); eff != nil {
					for c := range eff.TW {
						mods[c] = true
					}
					if eff.TDyn && fnCallsUser(ev.p, x.fn) {
						user = true
					}
				}
			}
			return x
		})
	}
	if user {
		for c := range ev.p.eff.UserMods {
			if (ev.cfg.KeepOnUser == nil || !ev.cfg.KeepOnUser(c)) && (ev.cfg.KeepUser == nil || !ev.cfg.KeepUser(e, c)) {
				mods[c] = true
			}
		}
	}
	if ev.cfg.KeepUser != nil && e.Kind == "user" {
		for c := range mods {
			if ev.cfg.KeepUser(e, c) {
				delete(mods, c)
			}
		}
	}
	if ev.cfg.KeepOnUser != nil && user {
		for c := range mods {
			if ev.cfg.KeepOnUser(c) {
				delete(mods, c)
			}
		}
	}
	for _, x := range subs {
		if eff := ev.p.eff.of(x.fn); eff != nil {
			for c := range eff.W {
				mods[c] = true
			}
		}
	}
	name := ev.callName(fr, in)
	// when: memory as a callback finds it is not memory as the call leaves it
	forget := func(when string) {
		for _, c := range sortedKeys(mods) {
			ev.havocClass(st, c, fr, in, when)
		}
		// memory reachable through the arguments
		for l := range st.m.cells {
			r := rootOf(l)
			if r.op != OAlloc || !ev.escaped[r] {
				continue
			}
			if t := st.m.ctyp[l]; l == r && t != nil && mods["*"+typeName(t)] {
				st.m.cells[l] = ev.newVar("out:"+l.String()+"@"+name+when, t)
				ev.record(l, t)
			}
		}
		for _, a := range args2(e) {
			ev.havocPointee(a, st, name+when, mods)
			if pt, ok := typeOf(a).(*types.Pointer); ok && outs[typeName(pt.Elem())] {
				st.m.Store(a, ev.newVar("out:"+a.String()+"@"+name+when, pt.Elem()), pt.Elem(), bddTrue, func(loc, val *Term, typ types.Type) { ev.record(loc, typ) })
			}
		}
	}
	if len(subs) > 0 && !ev.cfg.NoSub {
		forget("cb")
		for _, s := range subs {
			if ev.inStack(s.fn) || s.fn == nil || !ev.p.inPkg(s.fn) || len(s.fn.Blocks) == 0 {
				continue
			}
			e.Sub = ev.callback(fr, in, e, s, st, name)
		}
		forget("")
	} else {
		forget("")
	}
	e.Result = ev.resultVar("ret:"+e.Name+"@"+name, sig)
	e.After = st.m.clone()
	ev.emit(e)
	return e.Result
}

func args2(e *Event) []*Term {
	if e.Recv != nil {
		return append([]*Term{e.Recv}, e.Args...)
	}
	return e.Args
}

func typeOf(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

// fnCallsUser: g itself contains (transitively) a call through a function
// value that can come from outside the package.
func fnCallsUser(p *Program, g *ssa.Function) bool {
	eff := p.eff.of(g)
	for c := range eff.TCalls {
		ce := p.eff.of(c)
		if ce == nil {
			continue
		}
		for _, s := range ce.DynSites {
			if !internalDyn(s) {
				return true
			}
		}
	}
	return false
}

// internalDyn: the function value is a parameter of an unexported interface
// type used only inside the package (resolved through the arguments).
func internalDyn(s ssa.CallInstruction) bool {
	switch s.Common().Value.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	return false
}

func (ev *Eval) havocPointee(a *Term, st *State, name string, mods map[string]bool) {
	// &local or &x.f passed to code that writes through such pointers
	if a.op != OField && a.op != OIndex && a.op != OAlloc {
		return
	}
	if a.op == OAlloc {
		pt, ok := a.typ.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		el := pt.Elem()
		if _, ok := el.Underlying().(*types.Struct); ok {
			for l := range st.m.cells {
				if rootOf(l) == a && (mods[locClass(l)] || mods[l.name]) {
					v := ev.newVar("out:"+l.String()+"@"+name, st.m.ctyp[l])
					st.m.cells[l] = v
					ev.record(l, st.m.ctyp[l])
				}
			}
			return
		}
		if mods["*"+typeName(el)] {
			if v := st.m.cells[a]; v != nil {
				st.m.cells[a] = ev.newVar("out:"+a.String()+"@"+name, el)
				ev.record(a, el)
			}
		}
		return
	}
	t := a.typ
	if t == nil {
		return
	}
	if mods["*"+typeName(t)] {
		st.m.cells[a] = ev.newVar("out:"+a.String()+"@"+name, t)
		st.m.ctyp[a] = t
		ev.record(a, t)
	}
}

// callback evaluates the body of a closure that an opaque callee may run, in
// the forgotten state, and keeps its events as a nested summary.
func (ev *Eval) callback(fr *frame, in ssa.CallInstruction, e *Event, fnT *Term, st *State, name string) *SubEval {
	sub := &SubEval{Fn: fnT.fn}
	id := "CB" + name
	ev.loopStk = append(ev.loopStk, id)
	saveSink, saveAssume := ev.sink, ev.assume
	ev.sink = &sub.Events
	for i, prm := range fnT.fn.Params {
		var v *Term
		if ev.cfg.CBArg != nil {
			v = ev.cfg.CBArg(e, i)
		}
		if v == nil {
			v = ev.newVar(fmt.Sprintf("%s.a%d", id, i), prm.Type())
		}
		sub.Params = append(sub.Params, v)
	}
	ctx := ev.ctxID(fr.ctx, "cb"+name+fmt.Sprint(fnID(fnT.fn)))
	s := &State{bddTrue, st.m.clone()}
	sub.Entry = st.m.clone()
	ret, after, _ := ev.callBody(fnT.fn, sub.Params, fnT.args, s, ctx)
	sub.Ret = ret
	if after != nil {
		sub.Mem = after.m
	}
	ev.sink, ev.assume = saveSink, saveAssume
	ev.loopStk = ev.loopStk[:len(ev.loopStk)-1]
	return sub
}

func (ev *Eval) builtin(fr *frame, x *ssa.Call, b *ssa.Builtin, args []*Term, st *State) *Term {
	switch b.Name() {
	case "len":
		if pt, ok := x.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
			if ar, ok := pt.Elem().Underlying().(*types.Array); ok {
				return TInt(ar.Len())
			}
		}
		if ar, ok := x.Call.Args[0].Type().Underlying().(*types.Array); ok {
			return TInt(ar.Len())
		}
		return TLen(args[0])
	case "cap":
		return rawTerm(OApp, tyInt, "cap", args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return ev.appendTerm(fr, x, args[0], args[1], st)
	case "copy":
		ev.emit(&Event{Kind: "copy", Guard: st.g, Mem: st.m.clone(), Args: args, Instr: x, In: fr.fn})
		ev.elemHavoc(fr, x, args[0], x.Call.Args[0].Type(), st)
		return TMin(TLen(args[0]), TLen(args[1]))
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = TMin(r, a)
			} else {
				r = TMax(r, a)
			}
		}
		return r
	case "print", "println":
		return nil
	case "clear", "delete":
		class := "map:" + typeName(x.Call.Args[0].Type())
		ev.emit(&Event{Kind: "mapupdate", Guard: st.g, Mem: st.m.clone(), Name: class, Args: args, Instr: x, In: fr.fn})
		ev.havocClass(st, class, fr, x, "")
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	ev.fail("unsupported builtin %s in %s", b.Name(), fname(fr.fn))
	return nil
}

func (ev *Eval) elemHavoc(fr *frame, x ssa.Instruction, s *Term, t types.Type, st *State) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return
	}
	r := rootOf(s)
	if r.op == OAlloc && !ev.escaped[r] {
		for l := range st.m.cells {
			if rootOf(l) == r {
				st.m.cells[l] = ev.newVar("el:"+l.String()+"@"+ev.callName(fr, x), st.m.ctyp[l])
				ev.record(l, st.m.ctyp[l])
			}
		}
		return
	}
	el := sl.Elem()
	if _, ok := el.Underlying().(*types.Struct); ok {
		for _, c := range structClasses(typeBase(el), el) {
			ev.havocClass(st, c, fr, x, "")
		}
		return
	}
	ev.havocClass(st, "[]"+typeName(el), fr, x, "")
}

// appendTerm models append(s, t...).
func (ev *Eval) appendTerm(fr *frame, x *ssa.Call, s, t *Term, st *State) *Term {
	typ := x.Type()
	if s.op == OIte {
		return TIte(s.cond, ev.appendTerm(fr, x, s.args[0], t, st), ev.appendTerm(fr, x, s.args[1], t, st))
	}
	if t.op == OIte {
		return TIte(t.cond, ev.appendTerm(fr, x, s, t.args[0], st), ev.appendTerm(fr, x, s, t.args[1], st))
	}
	// append(s, a, b): the variadic part is a slice of a fresh array
	if t.op == OApp && t.name == "slice" && t.args[0].op == OAlloc && isArrayPtr(t.args[0].typ) {
		lo, ok1 := intOf(t.args[1])
		hi, ok2 := intOf(t.args[2])
		if ok1 && ok2 && hi-lo <= 16 {
			el := typ.Underlying().(*types.Slice).Elem()
			args := []*Term{s}
			for i := lo; i < hi; i++ {
				args = append(args, st.m.Load(TIndexAddr(t.args[0], TInt(i), el), el))
			}
			if s.op == OApp && s.name == "append" {
				args = append(append([]*Term{}, s.args...), args[1:]...)
			}
			for _, a := range args[1:] {
				ev.escape(a)
			}
			if s.op == OApp && s.name == "slice" && !fullSlice(s) {
				ev.elemHavoc(fr, x, s, typ, st)
			}
			return rawTerm(OApp, typ, "append", args...)
		}
	}
	// append(s[:i], s[i+1:]...) removes element i
	if s.op == OApp && s.name == "slice" && t.op == OApp && t.name == "slice" && s.args[0] == t.args[0] {
		if z, ok := intOf(s.args[1]); ok && z == 0 && t.args[1] == TAdd(s.args[2], TInt(1)) && t.args[2] == TLen(s.args[0]) {
			ev.elemHavoc(fr, x, s.args[0], typ, st)
			return rawTerm(OApp, typ, "delete", s.args[0], s.args[2])
		}
	}
	if n, ok := intOf(TLen(s)); ok && n == 0 && s.op == ONil {
		return rawTerm(OApp, typ, "appendslice", s, t)
	}
	if s.op == OApp && s.name == "slice" && !fullSlice(s) {
		ev.elemHavoc(fr, x, s, typ, st)
	}
	return rawTerm(OApp, typ, "appendslice", s, t)
}

// fullSlice: a slice up to the end of a fresh array, with no room to append in.
func fullSlice(s *Term) bool {
	if s.args[0].op != OAlloc || !isArrayPtr(s.args[0].typ) {
		return false
	}
	a := s.args[0].typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	hi, ok := intOf(s.args[2])
	return ok && hi == a.Len()
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// external models calls that leave the package.
func (ev *Eval) external(fr *frame, in ssa.CallInstruction, fn *ssa.Function, args []*Term, st *State) (*Term, bool) {
	name := extName(fn)
	f := tyFloat
	switch name {
	case "math.Sqrt":
		return TApp("sqrt", f, args[0]), true
	case "math.Abs":
		return TAbs(args[0]), true
	case "math.Max":
		return TMax(args[0], args[1]), true
	case "math.Min":
		return TMin(args[0], args[1]), true
	case "math.Cos":
		return TApp("cos", f, args[0]), true
	case "math.Sin":
		return TApp("sin", f, args[0]), true
	case "math.Sincos":
		return TStruct(fn.Signature.Results(), []*Term{TApp("sin", f, args[0]), TApp("cos", f, args[0])}), true
	case "math.Hypot":
		return TApp("sqrt", f, TAdd(TMul(args[0], args[0]), TMul(args[1], args[1]))), true
	case "math.Pow":
		return TApp("pow", f, args...), true
	case "math.Inf":
		if n, ok := intOf(args[0]); ok {
			if n >= 0 {
				return TApp("inf", f), true
			}
			return TNeg(TApp("inf", f)), true
		}
	case "math.Exp", "math.Atan2", "math.Acos", "math.Asin", "math.Atan", "math.Tan", "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.Mod", "math.Log":
		return TApp(strings.ToLower(strings.TrimPrefix(name, "math.")), f, args...), true
	case "math.FMA":
		return TAdd(TMul(args[0], args[1]), args[2]), true
	case "math.Copysign", "math.Signbit", "math.IsNaN", "math.IsInf", "math.Float64bits", "math.Float64frombits":
		return TApp(name, fn.Signature.Results().At(0).Type(), args...), true
	case "slices.Delete":
		if d, ok := intOf(TSub(args[2], args[1])); ok && d == 1 {
			ev.elemHavoc(fr, in, args[0], fn.Signature.Params().At(0).Type(), st)
			return rawTerm(OApp, in.Value().Type(), "delete", args[0], args[1]), true
		}
	case "slices.Clone":
		return rawTerm(OApp, in.Value().Type(), "appendslice", TNilOf(in.Value().Type()), args[0]), true
	}
	if pureExt(name) {
		rs := fn.Signature.Results()
		if rs.Len() == 1 {
			return expandTerm(rs.At(0).Type(), func(path string, l types.Type) *Term { return TApp("ext:"+name+path, l, args...) }, ""), true
		}
	}
	e := &Event{Kind: "ext", Name: name, Fn: fn, Args: args}
	return ev.opaque(fr, in, e, nil, fn.Signature, st), true
}

func pureExt(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Sprint"), strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "strconv."), strings.HasPrefix(name, "math/bits."), strings.HasPrefix(name, "math."):
		return true
	}
	return false
}

// constTree counts the leaves of a decision between integer constants; 0 if t
// is something else or has too many of them.
func constTree(t *Term, limit int) int {
	if _, ok := intOf(t); ok {
		return 1
	}
	if t.op != OIte || limit <= 0 {
		return 0
	}
	a := constTree(t.args[0], limit-1)
	if a == 0 {
		return 0
	}
	b := constTree(t.args[1], limit-a)
	if b == 0 || a+b > limit {
		return 0
	}
	return a + b
}

// asTree takes the decisions out of a sum.
func asTree(t *Term, depth int) *Term {
	if t.op == OIte && depth > 0 {
		return TIte(t.cond, asTree(t.args[0], depth-1), asTree(t.args[1], depth-1))
	}
	if c, x, y, ok := liftIte(t); ok && depth > 0 {
		return TIte(c, asTree(x, depth-1), asTree(y, depth-1))
	}
	return t
}

// onlyMath: nothing outside the package is called but functions of package math.
func onlyMath(ext map[string]bool) bool {
	for n := range ext {
		if !strings.HasPrefix(n, "math.") {
			return false
		}
	}
	return true
}
