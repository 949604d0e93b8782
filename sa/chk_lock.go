package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockState follows Space.locked and Space.skipPostStep.
type lockState struct {
	depth   int
	skip    bool
	drained bool // the list was looked at since the last release
	late    bool // released and not looked at
}

type lockFlow struct {
	*Flow
	c        *Ctx
	rule     string
	root     string
	bad      map[string]bool
	userSeen map[string]map[lockState]ssa.Instruction
	paths    map[string]string
	relock   map[string]ssa.Instruction
	exits    map[lockState]bool
}

func loadOf(v ssa.Value, class string) *ssa.UnOp {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	if fa, ok := u.X.(*ssa.FieldAddr); ok && addrClass(fa) == class {
		return u
	}
	return nil
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// freshLoad: nothing can have changed what u read when the block of cond ends.
func freshLoad(u *ssa.UnOp, b *ssa.BasicBlock) bool {
	if u.Block() != b {
		return false
	}
	after := false
	for _, in := range b.Instrs {
		if in == ssa.Instruction(u) {
			after = true
			continue
		}
		if after {
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.RunDefers:
				return false
			}
		}
	}
	return true
}

func newLockFlow(c *Ctx, rule string) *lockFlow {
	f := &lockFlow{Flow: newFlow(c.p), c: c, rule: rule, bad: map[string]bool{}, userSeen: map[string]map[lockState]ssa.Instruction{}, paths: map[string]string{}, relock: map[string]ssa.Instruction{}}
	f.Instr = func(fr *FFrame, in ssa.Instruction, s S) ([]S, bool) {
		st := s.(lockState)
		switch x := in.(type) {
		case *ssa.UnOp:
			if loadOf(x, "Space.postStepCallbacks") != nil && st.depth == 0 && st.skip {
				st.drained, st.late = true, false
				return []S{st}, true
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return nil, false
			}
			switch addrClass(fa) {
			case "Space.locked":
				d := st.depth
				v := fr.constOf(x.Val)
				if b, ok := x.Val.(*ssa.BinOp); ok && v == nil {
					n, isC := intConst(b.Y)
					if loadOf(b.X, "Space.locked") != nil && isC && b.Op == token.ADD {
						d += int(n)
					} else if loadOf(b.X, "Space.locked") != nil && isC && b.Op == token.SUB {
						d -= int(n)
					} else {
						panic(undecided{"the lock count is set to something other than its value plus or minus a constant in " + fname(fr.fn)})
					}
				} else if v != nil {
					n, _ := constant.Int64Val(v)
					if fresh(fa.X) {
						return []S{st}, true
					}
					d = int(n)
				} else {
					panic(undecided{"the lock count is set to an unknown value in " + fname(fr.fn)})
				}
				if d < 0 {
					f.report(fr, x, "the lock count goes below zero")
					return nil, true
				}
				if d > 5 {
					f.report(fr, x, "the lock count grows without bound")
					return nil, true
				}
				if d == 0 && st.depth > 0 {
					st.late, st.drained = true, false
				}
				if d > 0 && st.depth == 0 && st.drained {
					f.relock[f.root+" after "+fname(fr.fn)] = x
				}
				st.depth = d
				return []S{st}, true
			case "Space.skipPostStep":
				v := fr.constOf(x.Val)
				if v == nil {
					panic(undecided{"the post-step guard is set to an unknown value in " + fname(fr.fn)})
				}
				if !fresh(fa.X) {
					st.skip = constant.BoolVal(v)
				}
				return []S{st}, true
			}
		}
		return nil, false
	}
	f.Branch = func(fr *FFrame, cond ssa.Value, taken bool, s S) (S, bool) {
		st := s.(lockState)
		ci, isI := cond.(ssa.Instruction)
		if !isI {
			return s, true
		}
		b := ci.Block()
		if u := loadOf(cond, "Space.skipPostStep"); u != nil && freshLoad(u, b) {
			return s, st.skip == taken
		}
		if x, ok := cond.(*ssa.BinOp); ok {
			u := loadOf(x.X, "Space.locked")
			n, isC := intConst(x.Y)
			if u != nil && isC && freshLoad(u, b) {
				d := int64(st.depth)
				var r bool
				switch x.Op {
				case token.EQL:
					r = d == n
				case token.NEQ:
					r = d != n
				case token.LSS:
					r = d < n
				case token.LEQ:
					r = d <= n
				case token.GTR:
					r = d > n
				case token.GEQ:
					r = d >= n
				default:
					return s, true
				}
				return s, r == taken
			}
		}
		return s, true
	}
	f.User = func(fr *FFrame, in ssa.CallInstruction, label string, s S) []S {
		st := s.(lockState)
		k := label + " called in " + fname(fr.fn)
		if f.userSeen[k] == nil {
			f.userSeen[k] = map[lockState]ssa.Instruction{}
		}
		st.drained, st.late = false, false
		f.userSeen[k][st] = in
		if f.paths[k+fmt.Sprint(st)] == "" {
			f.paths[k+fmt.Sprint(st)] = fr.path()
		}
		return []S{s}
	}
	return f
}

func (fr *FFrame) constOf(v ssa.Value) constant.Value {
	if a := fr.resolve(v); a.kind == 1 {
		return a.c.Value
	}
	return nil
}

// fresh: an object this function has just made.
func fresh(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func (f *lockFlow) report(fr *FFrame, in ssa.Instruction, msg string) {
	k := f.root + " " + fname(fr.fn) + " " + msg
	if f.bad[k] {
		return
	}
	f.bad[k] = true
	f.c.fail(f.rule, f.root+" > "+fname(fr.fn), in.Pos(), "%s (%s)", msg, fr.path())
}

// isOp: an operation of the library a user calls, as opposed to the functions
// the space hands to its own index.
func spaceOps(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.Exported() {
		if fn.Signature.Recv() != nil {
			if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Name() == "Space" {
				out = append(out, fn)
			}
		}
	}
	return out
}

func checkC01(c *Ctx) {
	rule := "lock balance"
	nLocking := 0
	for _, fn := range c.p.Exported() {
		name := fname(fn)
		c.part(name, func() {
			eff := c.p.eff.of(fn)
			if eff == nil || !eff.TW["Space.locked"] && !eff.TDyn {
				return
			}
			c.seen[name] = true
			for _, in := range []lockState{{depth: 0}, {depth: 1}, {depth: 0, skip: true}} {
				want := in.depth
				switch name {
				case "Space.Lock":
					want++
				case "Space.Unlock":
					want--
					if want < 0 {
						continue
					}
				}
				f := newLockFlow(c, rule)
				f.root = name
				outs := f.Run(fn, in)
				ok := true
				for _, o := range outs {
					st := o.(lockState)
					if st.depth != want {
						ok = false
						c.fail(rule, name, fn.Pos(), "entered with lock count %d it can return with %d", in.depth, st.depth)
						break
					}
					if st.skip != in.skip {
						ok = false
						c.fail(rule, name+" post-step guard", fn.Pos(), "it can return with the post-step guard left %v", st.skip)
						break
					}
				}
				if len(f.bad) > 0 {
					ok = false
				}
				if ok {
					c.ob(true, rule, name, fn.Pos(), "")
				}
				c.sites += f.steps
				for k := range f.Funcs {
					c.seen[k] = true
				}
				if eff.TW["Space.locked"] {
					nLocking++
				}
			}
		})
	}
	if nLocking < 30 {
		c.fail("coverage", rule, token.NoPos, "only %d operations that lock were found", nLocking)
	}
}

// checkC02: the state in which the space calls functions of the user.
func checkC02(c *Ctx) {
	rule := "callbacks run locked"
	kinds := map[string]bool{}
	for _, fn := range spaceOps(c) {
		name := fname(fn)
		if name == "Space.Lock" || name == "Space.Unlock" {
			continue
		}
		c.part(name, func() {
			f := newLockFlow(c, rule)
			f.root = name
			f.Run(fn, lockState{})
			for k := range f.Funcs {
				c.seen[k] = true
			}
			c.sites += f.steps
			// called by a post-step callback
			f2 := newLockFlow(c, rule)
			f2.root = name
			f2.Run(fn, lockState{skip: true})
			for _, k := range sortedKeysU(f2.userSeen) {
				if strings.HasPrefix(k, "PostStepCallback.callback") {
					for st, in := range f2.userSeen[k] {
						c.fail(rule, name+": "+k+" nested", in.Pos(), "used from a post-step callback it runs post-step callbacks inside that one (%s)", f2.paths[k+fmt.Sprint(st)])
					}
				}
			}
			for _, k := range sortedKeysU(f.userSeen) {
				for st, in := range f.userSeen[k] {
					post := strings.HasPrefix(k, "PostStepCallback.callback")
					kinds[k] = true
					if post {
						c.ob(st.depth == 0, rule, name+": "+k, in.Pos(), "a post-step callback runs while the space is locked (%s)", f.paths[k+fmt.Sprint(st)])
						c.ob(st.skip, rule, name+": "+k+" guarded", in.Pos(), "post-step callbacks can be run again from inside a post-step callback (%s)", f.paths[k+fmt.Sprint(st)])
					} else {
						c.ob(st.depth > 0, rule, name+": "+k, in.Pos(), "it is called while the space is not locked (%s)", f.paths[k+fmt.Sprint(st)])
					}
				}
			}
		})
	}
	if len(kinds) < 12 {
		c.fail("coverage", rule, token.NoPos, "only %d kinds of callbacks were found: %v", len(kinds), kinds)
	}
}

func sortedKeysU(m map[string]map[lockState]ssa.Instruction) []string {
	k := map[string]bool{}
	for x := range m {
		k[x] = true
	}
	return sortedSet(k)
}

func init() {
	register(&Check{ID: "C01", Run: checkC01, Assume: []string{"user callbacks leave the lock count as they found it (they use exported operations, which this check shows balanced)", "one space at a time"},
		Explanation: "Typestate analysis of the lock count (Space.locked) over the call graph, path by path, with constants and closures passed as arguments followed into the callee: every exported operation returns with the count it was entered with."})
	register(&Check{ID: "C02", Run: checkC02, Assume: []string{"user callbacks leave the lock count as they found it", "one space at a time"},
		Explanation: "Typestate analysis of the lock count over the call graph from every exported operation of Space: the state at every call of a function the user supplied."})
}
