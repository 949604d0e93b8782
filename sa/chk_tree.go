package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: the tree index finds everything its boxes meet.

var treeOpaque = []string{
	"BBTree.SubtreeInsert", "BBTree.SubtreeRemove", "Node.MarkLeafQuery", "Node.MarkLeaf", "Node.MarkSubtree", "Node.SubtreeQuery", "Node.SubtreeSegmentQuery",
	"BBTree.PairInsert", "BBTree.PairsClear", "BBTree.LeafUpdate", "BBTree.LeafAddPairs", "BBTree.GetBB", "BBTree.NewLeaf", "Thread.Unlink", "BB.SegmentQuery",
	"HashSet.Insert", "HashSet.Remove", "HashSet.Find", "HashSet.Each", "HashSet.Count", "SpatialIndex.CollideStatic",
}

func (c *Ctx) treeSum(name string, keep bool) *Summary {
	cfg := Config{NoEnter: true, KeepUser: keepAll, Opaque: opaqueSet(treeOpaque...)}
	key := "tree"
	if keep {
		key = "tree keep"
		cfg.KeepOn = keepTable2
	}
	return c.sum(name, key, cfg)
}

// guarded is something that happens under a condition.
type guarded struct {
	E *Event
	G *BDD
	N *Term // the node it is about
	T string
}

// descent: what a recursive function does at one node. A last recursion may
// have become a loop.
type descent struct {
	N    *Term
	Evs  []guarded
	Mem  *Mem
	Tail *Term // the node the loop goes on with
	TG   *BDD
	L    *LoopInfo
}

func descend(s *Summary, node *Term) *descent {
	for _, e := range s.Events {
		if e.Kind != "loop" || e.Loop.Back == nil {
			continue
		}
		for _, ph := range e.Loop.Phis {
			if ph.Init != node || ph.Var == nil {
				continue
			}
			d := &descent{N: ph.Var, Mem: e.Loop.Iter, Tail: ph.Back, TG: e.Loop.BackG, L: e.Loop}
			// what comes after the loop, by the way the loop was left
			after := func(g *BDD) *BDD {
				r := bddFalse
				for _, x := range e.Loop.Exits {
					y := AndAll(g, x.Sel)
					sup := map[int]bool{}
					bddSupport(x.Sel, sup)
					for v := range sup {
						y = bddExists(y, v)
					}
					r = Or(r, And(y, x.Guard))
				}
				return r
			}
			for _, x := range e.Loop.Events {
				d.Evs = append(d.Evs, guarded{E: x, G: x.Guard})
			}
			for _, x := range s.Events {
				if x.Seq > e.Seq && x != e {
					d.Evs = append(d.Evs, guarded{E: x, G: after(x.Guard)})
				}
			}
			return d
		}
	}
	d := &descent{N: node, Mem: s.Entry}
	for _, x := range s.Events {
		d.Evs = append(d.Evs, guarded{E: x, G: x.Guard})
	}
	return d
}

// onceWhen: at least once when want, never twice.
func (c *Ctx) onceWhen(rule, construct string, pos token.Pos, gs []*BDD, want, f *BDD) {
	any := bddFalse
	for _, g := range gs {
		c.ob(never(AndAll(f, any, g)), rule, construct+" once", pos, "it happens twice when %s", shortB(And(any, g)))
		any = Or(any, g)
	}
	c.ob(never(AndAll(f, want, Not(any))), rule, construct, pos, "it happens only when %s", shortB(any))
}

func never(g *BDD) bool { return !sat(g) || refute(g, 0) }

// children: both children are visited when want, by self or by going on.
func (c *Ctx) children(rule, name string, s *Summary, d *descent, self string, want, f *BDD, args func(e *Event, g *BDD) string) (first map[string]int) {
	pos := s.Fn.Pos()
	first = map[string]int{}
	for _, ch := range []string{"Children.a", "Children.b"} {
		var gs []*BDD
		k := get(d.Mem, d.N, ch)
		for _, x := range d.Evs {
			if x.E.Kind != "call" || x.E.Name != self || !sat(And(f, x.G)) {
				continue
			}
			if x.E.Args[0] == k || proveEq(x.E.Args[0], k, And(f, x.G)) {
				gs = append(gs, x.G)
				if msg := args(x.E, And(f, x.G)); msg != "" {
					c.fail(rule, name+" passes on", x.E.Instr.Pos(), "%s", msg)
				}
				if first[ch] == 0 || x.E.Seq < first[ch] {
					first[ch] = x.E.Seq
				}
			} else if k2 := get(d.Mem, d.N, other(ch)); !proveEq(x.E.Args[0], k2, And(f, x.G)) {
				// may be either, by condition
				sub := bddFalse
				leaves(x.E.Args[0], bddTrue, func(g *BDD, v *Term) {
					y := AndAll(f, x.G, g)
					if sat(y) && (v == k || proveEq(v, k, y)) {
						sub = Or(sub, g)
					}
				})
				if sub != bddFalse {
					gs = append(gs, And(x.G, sub))
					if first[ch] == 0 || x.E.Seq < first[ch] {
						first[ch] = x.E.Seq
					}
				}
			}
		}
		if d.Tail != nil {
			leaves(d.Tail, bddTrue, func(g *BDD, v *Term) {
				y := AndAll(f, d.TG, g)
				if sat(y) && (v == k || proveEq(v, k, y)) {
					gs = append(gs, And(d.TG, g))
					if first[ch] == 0 {
						first[ch] = 1 << 30
					}
				}
			})
		}
		c.onceWhen(rule, name+" child "+ch, pos, gs, want, f)
	}
	return
}

func other(ch string) string {
	if ch == "Children.a" {
		return "Children.b"
	}
	return "Children.a"
}

func boxIn(in, out *Term, f *BDD) bool {
	return proveLE(fld(out, "L"), fld(in, "L"), f) && proveLE(fld(out, "B"), fld(in, "B"), f) && proveLE(fld(in, "R"), fld(out, "R"), f) && proveLE(fld(in, "T"), fld(out, "T"), f)
}

// dynTree: the tree of the dynamic index a static one belongs to.
func dynTree(m *Mem, tree *Term) (idx, as *Term) {
	idx = get(m, tree, "spatialIndex.dynamicIndex")
	cl := get(m, idx, "class")
	return idx, rawTerm(OApp, tree.typ, "as:*BBTree", cl)
}

func stampOf(m *Mem, tree *Term) *Term {
	idx, as := dynTree(m, tree)
	return TIte(notNil(idx), get(m, as, "stamp"), get(m, tree, "stamp"))
}

func bumped(s *Summary, tree *Term, when, f *BDD) bool {
	idx, as := dynTree(s.Entry, tree)
	f = AndAll(f, when, notNil(as))
	up := func(t *Term, g *BDD) bool {
		return !sat(And(f, g)) || proveEq(get(s.Mem, t, "stamp"), TAdd(get(s.Entry, t, "stamp"), TInt(1)), And(f, g))
	}
	return up(tree, Not(notNil(idx))) && up(as, notNil(idx))
}

func keepTable2(fn *ssa.Function, class string) bool { return true }

func isNode(t types.Type) bool { return typeBaseOf(t) == "Node" }

func checkC32(c *Ctx) {
	c.treeQueries()
	c.treeShape()
	c.treePairs()
	c.treeUpdate()
}

func (c *Ctx) treeQueries() {
	rule := "queries"
	c.part("SubtreeQuery", func() {
		s := c.treeSum("Node.SubtreeQuery", true)
		node, obj, bb, query, data := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Params[4]
		d := descend(s, node)
		f := And(s.G, notNil(d.N))
		name := "Node.SubtreeQuery"
		meets := bbMeets(get(d.Mem, d.N, "bb"), bb)
		leaf := notNil(get(d.Mem, d.N, "obj"))
		var gs []*BDD
		for _, x := range d.Evs {
			if x.E.Kind == "user" && sat(And(f, x.G)) {
				gs = append(gs, x.G)
				ok := x.E.Callee == query && len(x.E.Args) == 4 && x.E.Args[0] == obj && x.E.Args[3] == data && proveEq(x.E.Args[1], get(d.Mem, d.N, "obj"), And(f, x.G))
				c.ob(ok, rule, name+" asks", x.E.Instr.Pos(), "what is called for a leaf is %s with %s", short(x.E.Callee), shortAll(x.E.Args))
				c.ob(!sat(AndAll(f, x.G, Not(leaf))), rule, name+" leaves", x.E.Instr.Pos(), "it is called for a node without a shape")
			}
		}
		c.onceWhen(rule, name+" leaf", s.Fn.Pos(), gs, And(meets, leaf), f)
		c.children(rule, name, s, d, name, And(meets, Not(leaf)), f, func(e *Event, g *BDD) string {
			if e.Args[1] != obj || e.Args[2] != bb && !sameStruct(e.Args[2], bb, bddTrue) || e.Args[3] != query || e.Args[4] != data {
				return "other arguments are passed on: " + shortAll(e.Args[1:])
			}
			return ""
		})
	})
	c.part("SubtreeSegmentQuery", func() {
		s := c.treeSum("Node.SubtreeSegmentQuery", true)
		name := "Node.SubtreeSegmentQuery"
		node, obj, pa, pb, te, fn, data := s.Params[0], s.Params[1], s.Params[2], s.Params[3], s.Params[4], s.Params[5], s.Params[6]
		f := And(typeFact(s), notNil(node))
		leaf := notNil(get(s.Entry, node, "obj"))
		var gs []*BDD
		pos := s.Fn.Pos()
		for _, e := range s.Events {
			if e.Kind == "user" {
				gs = append(gs, e.Guard)
				ok := e.Callee == fn && len(e.Args) == 3 && e.Args[0] == obj && e.Args[2] == data && proveEq(e.Args[1], get(s.Entry, node, "obj"), And(f, e.Guard))
				c.ob(ok && !sat(AndAll(f, e.Guard, Not(leaf))), rule, name+" asks", e.Instr.Pos(), "what is called for a leaf is %s with %s", short(e.Callee), shortAll(e.Args))
				c.ob(proveEq(s.Ret, e.Result, AndAll(f, leaf)), rule, name+" leaf result", e.Instr.Pos(), "a leaf gives %s", short(s.Ret))
			}
		}
		c.onceWhen(rule, name+" leaf", pos, gs, leaf, f)
		in := And(f, Not(leaf))
		low := proveLE(s.Ret, te, in)
		why := "the exit time grows"
		least := te
		for _, ch := range []string{"Children.a", "Children.b"} {
			k := get(s.Entry, node, ch)
			var t *Term
			var cs []*BDD
			for _, e := range s.Events {
				if e.Kind == "call" && e.Name == "BB.SegmentQuery" && (e.Args[0] == get(s.Entry, k, "bb") || sameStruct(e.Args[0], get(s.Entry, k, "bb"), bddTrue)) && (e.Args[1] == pa || sameStruct(e.Args[1], pa, bddTrue)) && (e.Args[2] == pb || sameStruct(e.Args[2], pb, bddTrue)) {
					t = e.Result
				}
				if e.Kind != "call" || e.Name != name {
					continue
				}
				is := bddFalse
				leaves(e.Args[0], bddTrue, func(g *BDD, v *Term) {
					if y := AndAll(in, e.Guard, g); sat(y) && (v == k || proveEq(v, k, y)) {
						is = Or(is, g)
					}
				})
				if g := AndAll(in, e.Guard, is); sat(g) {
					cs = append(cs, And(e.Guard, is))
					same := e.Args[1] == obj && (e.Args[2] == pa || sameStruct(e.Args[2], pa, bddTrue)) && (e.Args[3] == pb || sameStruct(e.Args[3], pb, bddTrue)) && e.Args[5] == fn && e.Args[6] == data
					c.ob(same, rule, name+" passes on "+ch, e.Instr.Pos(), "other arguments are passed on: %s", shortAll(e.Args[1:]))
					c.ob(proveLE(e.Args[4], te, g) && proveLE(s.Ret, e.Args[4], g), rule, name+" exit time of "+ch, e.Instr.Pos(), "the exit time passed on is %s", short(e.Args[4]))
					if !proveLE(s.Ret, e.Result, g) {
						low, why = false, "it is later than what a child gave: "+short(s.Ret)
					}
					least = TMin(least, TIte(And(e.Guard, is), e.Result, te))
				}
			}
			if !c.ob(t != nil, rule, name+" box of "+ch, pos, "it is not looked up where the segment enters the box of the child") {
				continue
			}
			c.onceWhen(rule, name+" child "+ch, pos, cs, CondLt(t, s.Ret, false), in)
		}
		c.ob(low, rule, name+" earliest", pos, "%s", why)
		c.ob(proveLE(least, s.Ret, in), rule, name+" result", pos, "the exit time is none that was found: %s", short(s.Ret))
	})
	for _, q := range []struct{ name, self string }{{"BBTree.Query", "Node.SubtreeQuery"}, {"BBTree.SegmentQuery", "Node.SubtreeSegmentQuery"}} {
		q := q
		c.part(q.name, func() {
			s := c.treeSum(q.name, true)
			root := get(s.Entry, s.Params[0], "root")
			f := And(typeFact(s), notNil(s.Params[0]))
			var gs []*BDD
			for _, e := range eventsOf(s.Events, "call", q.self) {
				gs = append(gs, e.Guard)
				ok := proveEq(e.Args[0], root, And(f, e.Guard))
				for i := 1; i < len(e.Args); i++ {
					ok = ok && (e.Args[i] == s.Params[i] || sameStruct(e.Args[i], s.Params[i], bddTrue))
				}
				c.ob(ok, rule, q.name+" passes on", e.Instr.Pos(), "it asks with %s", shortAll(e.Args))
			}
			c.onceWhen(rule, q.name, s.Fn.Pos(), gs, notNil(root), f)
		})
	}
	for _, q := range []struct{ name, set string }{{"BBTree.Count", "HashSet.Count"}, {"BBTree.Contains", "HashSet.Find"}} {
		q := q
		c.part(q.name, func() {
			s := c.treeSum(q.name, true)
			es := eventsOf(s.Events, "call", q.set)
			f := And(typeFact(s), notNil(s.Params[0]))
			if !c.ob(len(es) == 1 && es[0].Args[0] == get(s.Entry, s.Params[0], "leaves") && implies(f, es[0].Guard), rule, q.name, s.Fn.Pos(), "it does not ask the set of leaves once") {
				return
			}
			e := es[0]
			if q.set == "HashSet.Count" {
				c.ob(s.Ret == e.Result || proveEq(s.Ret, e.Result, f), rule, q.name+" result", s.Fn.Pos(), "it returns %s", short(s.Ret))
				return
			}
			c.ob(e.Args[1] == s.Params[2] && e.Args[2] == s.Params[1], rule, q.name+" asks", e.Instr.Pos(), "it looks for %s", shortAll(e.Args[1:]))
			c.ob(sameCond(toBDD(s.Ret), notNil(e.Result), f), rule, q.name+" result", s.Fn.Pos(), "it says yes when %s", shortB(toBDD(s.Ret)))
		})
	}
	c.atLeast(rule, 20)
}
func shortAll(ts []*Term) string {
	r := ""
	for i, t := range ts {
		if i > 0 {
			r += ", "
		}
		r += short(t)
	}
	return r
}

// unused: a node or pair that was fresh, or taken out of the pool.
func (c *Ctx) unused(rule, name string, s *Summary, owner func(loc *Term) bool, class, link string, x *Term, f *BDD) {
	leaves(x, bddTrue, func(g *BDD, b *Term) {
		y := And(f, g)
		if !sat(y) {
			return
		}
		if b.op == OAlloc {
			ok := true
			allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
				if e.Kind == "store" && locClass(e.Loc) == class && e.Val == b {
					ok = false
				}
			})
			c.ob(ok, rule, name+" unused", s.Fn.Pos(), "what was just made is in the pool as well")
			return
		}
		popped := bddFalse
		allEvents(s.Events, func(e *Event, ls []*LoopInfo) {
			if e.Kind != "store" || locClass(e.Loc) != class || len(ls) > 0 {
				return
			}
			leaves(e.Val, e.Guard, func(vg *BDD, v *Term) {
				z := AndAll(y, e.Guard, vg)
				if sat(z) && proveEq(e.Mem.Load(e.Loc, b.typ), b, z) && proveEq(v, get(e.Mem, b, link), z) {
					popped = Or(popped, vg)
				}
			})
		})
		c.ob(implies(y, popped), rule, name+" unused", s.Fn.Pos(), "%s is not taken out of the pool", short(b))
	})
}

func (c *Ctx) treeShape() {
	rule := "nodes"
	c.part("NewNode", func() {
		s := c.treeSum("BBTree.NewNode", true)
		tree, a, b, r, pos := s.Params[0], s.Params[1], s.Params[2], s.Ret, s.Fn.Pos()
		name := "BBTree.NewNode"
		f := AndAll(typeFact(s), notNil(tree), notNil(a), notNil(b))
		leaves(r, bddTrue, func(g *BDD, n *Term) {
			y := And(f, g)
			if !sat(y) {
				return
			}
			x, z := get(s.Mem, n, "Children.a"), get(s.Mem, n, "Children.b")
			both := proveEq(x, a, y) && proveEq(z, b, y) || proveEq(x, b, y) && proveEq(z, a, y)
			c.ob(both, rule, name+" children", pos, "the children are %s and %s", short(x), short(z))
			c.ob(proveEq(get(s.Mem, n, "obj"), TNilOf(get(s.Mem, n, "obj").typ), y), rule, name+" no leaf", pos, "it still holds a shape")
			c.ob(proveEq(get(s.Mem, n, "parent"), TNilOf(n.typ), y), rule, name+" no parent", pos, "its parent is %s", short(get(s.Mem, n, "parent")))
			c.ob(proveEq(get(s.Mem, a, "parent"), n, y) && proveEq(get(s.Mem, b, "parent"), n, y), rule, name+" parent of", pos, "the children do not know their parent")
			bb := get(s.Mem, n, "bb")
			c.ob(boxIn(get(s.Entry, a, "bb"), bb, y) && boxIn(get(s.Entry, b, "bb"), bb, y), rule, name+" box", pos, "the box does not hold those of the children: %s", short(bb))
		})
		c.unused(rule, name, s, nil, "BBTree.pooledNodes", "parent", r, f)
	})
	c.part("NewLeaf", func() {
		s := c.treeSum("BBTree.NewLeaf", true)
		tree, obj, r, pos := s.Params[0], s.Params[1], s.Ret, s.Fn.Pos()
		name := "BBTree.NewLeaf"
		f := AndAll(typeFact(s), notNil(tree), notNil(obj))
		leaves(r, bddTrue, func(g *BDD, n *Term) {
			y := And(f, g)
			if !sat(y) {
				return
			}
			c.ob(proveEq(get(s.Mem, n, "obj"), obj, y), rule, name+" shape", pos, "it holds %s", short(get(s.Mem, n, "obj")))
			c.ob(proveEq(get(s.Mem, n, "parent"), TNilOf(n.typ), y), rule, name+" no parent", pos, "its parent is %s", short(get(s.Mem, n, "parent")))
			pr := get(s.Mem, n, "Leaf.pairs")
			c.ob(proveEq(pr, TNilOf(pr.typ), y), rule, name+" no pairs", pos, "its pairs are %s", short(pr))
			c.ob(c.boxFor(s.Events, get(s.Mem, n, "bb"), tree, obj, y), rule, name+" box", pos, "its box is %s", short(get(s.Mem, n, "bb")))
		})
		c.unused(rule, name, s, nil, "BBTree.pooledNodes", "parent", r, f)
	})
	c.part("GetBB", func() {
		s := c.treeSum("BBTree.GetBB", true)
		tree, obj, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := AndAll(typeFact(s), notNil(tree), notNil(obj))
		var bb *Term
		for _, e := range s.Events {
			if e.Kind == "user" && len(e.Args) == 1 && e.Callee == get(s.Entry, tree, "spatialIndex.bbfunc") {
				c.ob(e.Args[0] == obj && bb == nil && implies(f, e.Guard), rule, "BBTree.GetBB asks", e.Instr.Pos(), "it asks for the box of %s", short(e.Args[0]))
				bb = e.Result
			}
		}
		if c.ob(bb != nil, rule, "BBTree.GetBB", pos, "it does not ask for the box of the shape") {
			real := And(CondLe(fld(bb, "L"), fld(bb, "R"), false), CondLe(fld(bb, "B"), fld(bb, "T"), false))
			c.ob(boxIn(bb, s.Ret, And(f, real)), rule, "BBTree.GetBB holds", pos, "the box does not hold that of the shape: %s", short(s.Ret))
		}
	})
	c.part("SubtreeInsert", func() {
		s := c.treeSum("BBTree.SubtreeInsert", true)
		sub, leaf, r, pos := s.Params[1], s.Params[2], s.Ret, s.Fn.Pos()
		name := "BBTree.SubtreeInsert"
		f := AndAll(typeFact(s), notNil(leaf))
		none := And(f, Not(notNil(sub)))
		c.ob(proveEq(r, leaf, none), rule, name+" empty", pos, "inserting into nothing gives %s", short(r))
		some := And(f, notNil(sub))
		isLeaf := notNil(get(s.Entry, sub, "obj"))
		one, two := And(some, isLeaf), And(some, Not(isLeaf))
		// next to a leaf: a node with both (NewNode is entered)
		leaves(r, bddTrue, func(g *BDD, n *Term) {
			y := And(one, g)
			if !sat(y) {
				return
			}
			x, z := get(s.Mem, n, "Children.a"), get(s.Mem, n, "Children.b")
			both := proveEq(x, leaf, y) && proveEq(z, sub, y) || proveEq(x, sub, y) && proveEq(z, leaf, y)
			c.ob(both, rule, name+" leaf", pos, "a leaf is replaced by a node with %s and %s", short(x), short(z))
			bb := get(s.Mem, n, "bb")
			c.ob(boxIn(get(s.Entry, leaf, "bb"), bb, y) && boxIn(get(s.Entry, sub, "bb"), bb, y), rule, name+" leaf box", pos, "the box of the new node is %s", short(bb))
			c.ob(proveEq(get(s.Mem, leaf, "parent"), n, y) && proveEq(get(s.Mem, sub, "parent"), n, y), rule, name+" leaf parents", pos, "the leaves do not know their parent")
		})
		c.ob(proveEq(r, sub, two), rule, name+" root stays", pos, "an inner node is replaced by %s", short(r))
		any := bddFalse
		for _, e := range eventsOf(s.Events, "call", name) {
			g := And(two, e.Guard)
			if !c.ob(!sat(And(g, any)) && sat(g), rule, name+" once", e.Instr.Pos(), "it is inserted twice") {
				continue
			}
			any = Or(any, e.Guard)
			c.ob(e.Args[2] == leaf, rule, name+" inserts", e.Instr.Pos(), "what is inserted below is %s", short(e.Args[2]))
			for _, ch := range []string{"Children.a", "Children.b"} {
				k := get(s.Entry, sub, ch)
				is := bddFalse
				leaves(e.Args[1], bddTrue, func(lg *BDD, v *Term) {
					if y := And(g, lg); sat(y) && (v == k || proveEq(v, k, y)) {
						is = Or(is, lg)
					}
				})
				y := And(g, is)
				if !sat(y) {
					continue
				}
				c.ob(proveEq(get(s.Mem, sub, ch), e.Result, y) && proveEq(get(s.Mem, e.Result, "parent"), sub, y), rule, name+" links "+ch, e.Instr.Pos(), "the child that changed is not linked: %s", short(get(s.Mem, sub, ch)))
				c.ob(proveEq(get(s.Mem, sub, other(ch)), get(e.After, sub, other(ch)), y), rule, name+" keeps "+other(ch), e.Instr.Pos(), "the other child becomes %s", short(get(s.Mem, sub, other(ch))))
			}
		}
		c.ob(implies(two, any), rule, name+" inserts below", pos, "it is inserted only when %s", shortB(any))
		bb := get(s.Mem, sub, "bb")
		grows := boxIn(get(s.Entry, leaf, "bb"), bb, two) && boxIn(get(s.Entry, sub, "bb"), bb, two)
		whole := boxIn(get(s.Mem, get(s.Mem, sub, "Children.a"), "bb"), bb, two) && boxIn(get(s.Mem, get(s.Mem, sub, "Children.b"), "bb"), bb, two)
		for _, e := range s.Events {
			if e.Kind == "store" && strings.HasPrefix(locClass(e.Loc), "Node.bb") {
				o := ownerOfLoc(e.Loc, "Node.bb")
				c.ob(o != nil && (!sat(And(f, e.Guard)) || !proveEq(o, leaf, And(f, e.Guard))), rule, name+" other boxes", e.Instr.Pos(), "the box of %s changes", short(o))
			}
		}
		c.ob(grows || whole, rule, name+" box", pos, "the box of an inner node does not hold the new leaf: %s", short(bb))
	})
	c.part("SubtreeRemove", func() {
		s := c.treeSum("BBTree.SubtreeRemove", false)
		tree, sub, leaf, r, pos := s.Params[0], s.Params[1], s.Params[2], s.Ret, s.Fn.Pos()
		name := "BBTree.SubtreeRemove"
		f := AndAll(s.G, notNil(leaf), notNil(sub), notNil(tree))
		self := CondEq(leaf, sub)
		c.ob(proveEq(r, TNilOf(sub.typ), And(f, self)), rule, name+" itself", pos, "removing the root gives %s", short(r))
		p := get(s.Entry, leaf, "parent")
		f = AndAll(f, Not(self), notNil(p))
		kid := func(x *Term, sib bool) *Term {
			a, b := get(s.Entry, x, "Children.a"), get(s.Entry, x, "Children.b")
			return TIte(CondEq(a, leaf), b, a)
		}
		top := And(f, CondEq(p, sub))
		for _, side := range []string{"Children.a", "Children.b"} {
			at := And(CondEq(get(s.Entry, p, side), leaf), Not(CondEq(get(s.Entry, p, other(side)), leaf)))
			o := get(s.Entry, p, other(side))
			at = And(at, notNil(o))
			y := AndAll(top, at, CondEq(get(s.Entry, sub, side), leaf), Not(CondEq(get(s.Entry, sub, other(side)), leaf)))
			ro := get(s.Entry, sub, other(side))
			c.ob(proveEq(r, ro, y), rule, name+" below the root "+side, pos, "the new root is %s", short(r))
			c.ob(proveEq(get(s.Mem, ro, "parent"), get(s.Entry, sub, "parent"), y), rule, name+" parent below the root "+side, pos, "the parent of the new root is %s", short(get(s.Mem, ro, "parent")))
			deep := AndAll(f, Not(CondEq(p, sub)), at)
			g := get(s.Entry, p, "parent")
			deep = And(deep, notNil(g))
			c.ob(proveEq(r, sub, deep), rule, name+" root stays "+side, pos, "the new root is %s", short(r))
			for _, gs := range []string{"Children.a", "Children.b"} {
				y := AndAll(deep, CondEq(get(s.Entry, g, gs), p), Not(CondEq(get(s.Entry, g, other(gs)), p)))
				c.ob(proveEq(get(s.Mem, g, gs), o, y) && proveEq(get(s.Mem, g, other(gs)), get(s.Entry, g, other(gs)), y), rule, name+" replaces "+side+" "+gs, pos, "the sibling does not take the place of its parent: %s", short(get(s.Mem, g, gs)))
				c.ob(proveEq(get(s.Mem, o, "parent"), g, y), rule, name+" parent "+side+" "+gs, pos, "the parent of the sibling is %s", short(get(s.Mem, o, "parent")))
			}
		}
		_ = kid
		// only the node taken out is given back
		for _, e := range storesTo(s.Events, "BBTree.pooledNodes") {
			for _, gs := range []string{"Children.a", "Children.b"} {
				g := get(s.Entry, p, "parent")
				y := AndAll(f, e.Guard, Or(CondEq(p, sub), And(notNil(g), And(CondEq(get(s.Entry, g, gs), p), Not(CondEq(get(s.Entry, g, other(gs)), p))))))
				c.ob(!sat(y) || proveEq(e.Val, p, y), rule, name+" gives back "+gs, e.Instr.Pos(), "%s is given back while it may still be in use", short(e.Val))
			}
		}
		// every box above
		deep := AndAll(f, Not(CondEq(p, sub)), notNil(get(s.Entry, p, "parent")))
		g := get(s.Entry, p, "parent")
		n := 0
		why := "no loop"
		for _, e := range s.Events {
			if e.Kind != "loop" || !sat(And(deep, e.Guard)) {
				continue
			}
			for _, ph := range e.Loop.Phis {
				if ph.Var == nil || !isNode(ph.Var.typ) || !proveEq(ph.Init, g, And(deep, e.Guard)) {
					continue
				}
				if msg := visitsList(e, ph.Var, g, func(m *Mem, x *Term) *Term { return get(m, x, "parent") }, And(deep, e.Guard)); msg != "" {
					why = msg
					continue
				}
				l := e.Loop
				y := AndAll(deep, l.Assume, l.BackG, notNil(ph.Var))
				bb := get(l.Back, ph.Var, "bb")
				a, b := get(l.Iter, get(l.Iter, ph.Var, "Children.a"), "bb"), get(l.Iter, get(l.Iter, ph.Var, "Children.b"), "bb")
				c.ob(boxIn(a, bb, y) && boxIn(b, bb, y), rule, name+" boxes above hold", e.Instr.Pos(), "the box becomes %s", short(bb))
				c.ob(implies(deep, e.Guard), rule, name+" boxes above always", e.Instr.Pos(), "only when %s", shortB(e.Guard))
				n++
				for _, x := range s.Events {
					if x.Kind == "store" && (locClass(x.Loc) == "Children.a" || locClass(x.Loc) == "Children.b") && sat(And(deep, x.Guard)) {
						c.ob(x.Seq < e.Seq, rule, name+" boxes last", x.Instr.Pos(), "a child changes after the boxes were made anew")
					}
				}
			}
		}
		c.ob(n == 1, rule, name+" boxes above", pos, "the boxes above are not made anew: %s", why)
	})
	c.atLeast(rule, 30)
}

// boxFor: the box is what GetBB gives for the shape.
func (c *Ctx) boxFor(evs []*Event, bb, tree, obj *Term, f *BDD) bool {
	for _, e := range eventsOf(evs, "call", "BBTree.GetBB") {
		if e.Args[0] == tree && proveEq(e.Args[1], obj, And(f, e.Guard)) && implies(f, e.Guard) {
			ok := true
			for _, p := range []string{"L", "B", "R", "T"} {
				ok = ok && proveEq(fld(bb, p), fld(e.Result, p), f)
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// ownThread: the path of the thread of a pair that belongs to a leaf.
func ownPath(m *Mem, pair, leaf *Term, path string) (ga *BDD, a, b *Term) {
	return CondEq(get(m, pair, "a.leaf"), leaf), get(m, pair, "a."+path), get(m, pair, "b."+path)
}

func (c *Ctx) treePairs() {
	rule := "pairs"
	c.part("PairInsert", func() {
		s := c.treeSum("BBTree.PairInsert", false)
		tree, a, b, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		name := "BBTree.PairInsert"
		f := AndAll(typeFact(s), notNil(tree), notNil(a), notNil(b))
		pair := get(s.Mem, a, "Leaf.pairs")
		c.ob(proveEq(get(s.Mem, b, "Leaf.pairs"), pair, f), rule, name+" both", pos, "the leaves get different pairs")
		oa, ob_ := get(s.Entry, a, "Leaf.pairs"), get(s.Entry, b, "Leaf.pairs")
		leaves(pair, bddTrue, func(g *BDD, p *Term) {
			y := And(f, g)
			if !sat(y) {
				return
			}
			for _, t := range []struct {
				path string
				w    *Term
			}{{"a.leaf", a}, {"b.leaf", b}, {"a.next", oa}, {"b.next", ob_}, {"a.prev", TNilOf(p.typ)}, {"b.prev", TNilOf(p.typ)}} {
				v := get(s.Mem, p, t.path)
				c.ob(proveEq(v, t.w, y), rule, name+" "+t.path, pos, "%s of the pair is %s", t.path, short(v))
			}
			v := get(s.Mem, p, "collisionId")
			c.ob(proveEq(v, TInt(0), y), rule, name+" collision id", pos, "the pair starts with collision id %s", short(v))
			// what was first before comes after it
			for _, t := range []struct{ leaf, old *Term }{{a, oa}, {b, ob_}} {
				z := And(y, notNil(t.old))
				ga := CondEq(get(s.Entry, t.old, "a.leaf"), t.leaf)
				c.ob(proveEq(get(s.Mem, t.old, "a.prev"), p, And(z, ga)) && proveEq(get(s.Mem, t.old, "b.prev"), p, And(z, Not(ga))), rule, name+" links "+short(t.leaf), pos, "the pair that was first does not come after the new one")
				c.ob(proveEq(get(s.Mem, t.old, "b.prev"), get(s.Entry, t.old, "b.prev"), And(z, ga)) && proveEq(get(s.Mem, t.old, "a.prev"), get(s.Entry, t.old, "a.prev"), And(z, Not(ga))), rule, name+" other thread "+short(t.leaf), pos, "the thread of the other leaf changes")
			}
		})
		c.unused(rule, name, s, nil, "BBTree.pooledPairs", "a.next", pair, f)
	})
	c.part("Unlink", func() {
		s := c.treeSum("Thread.Unlink", true)
		th, pos := s.Params[0], s.Fn.Pos()
		name := "Thread.Unlink"
		next, prev, leaf := get(s.Entry, th, "next"), get(s.Entry, th, "prev"), get(s.Entry, th, "leaf")
		f := AndAll(typeFact(s), notNil(th), notNil(leaf))
		for _, t := range []struct {
			who  *Term
			path string
			to   *Term
		}{{next, "prev", prev}, {prev, "next", next}} {
			y := And(f, notNil(t.who))
			ga := CondEq(get(s.Entry, t.who, "a.leaf"), leaf)
			c.ob(proveEq(get(s.Mem, t.who, "a."+t.path), t.to, And(y, ga)) && proveEq(get(s.Mem, t.who, "b."+t.path), t.to, And(y, Not(ga))), rule, name+" "+t.path, pos, "the neighbour does not skip the thread")
			c.ob(proveEq(get(s.Mem, t.who, "b."+t.path), get(s.Entry, t.who, "b."+t.path), And(y, ga)) && proveEq(get(s.Mem, t.who, "a."+t.path), get(s.Entry, t.who, "a."+t.path), And(y, Not(ga))), rule, name+" other thread "+t.path, pos, "the thread of another leaf changes")
		}
		fst := get(s.Mem, leaf, "Leaf.pairs")
		c.ob(proveEq(fst, next, And(f, Not(notNil(prev)))), rule, name+" first", pos, "the first pair of the leaf becomes %s", short(fst))
		c.ob(proveEq(fst, get(s.Entry, leaf, "Leaf.pairs"), And(f, notNil(prev))), rule, name+" not first", pos, "the first pair of the leaf becomes %s", short(fst))
	})
	c.part("PairsClear", func() {
		s := c.treeSum("BBTree.PairsClear", false)
		leaf, pos := s.Params[1], s.Fn.Pos()
		name := "BBTree.PairsClear"
		f := AndAll(s.G, notNil(leaf), notNil(s.Params[0]))
		// its pairs are taken from it first: Unlink may change those of others only
		e, l, p, one := c.pairWalk(rule, name, s, leaf, f, false)
		if e == nil {
			return
		}
		in := AndAll(f, l.Assume, l.BackG, notNil(p), one)
		ga := CondEq(get(l.Iter, p, "a.leaf"), leaf)
		any := bddFalse
		for _, x := range l.Events {
			if x.Kind != "call" || x.Name != "Thread.Unlink" {
				continue
			}
			g := And(in, x.Guard)
			c.ob(!sat(And(g, any)), rule, name+" unlinks once", x.Instr.Pos(), "a pair is unlinked twice")
			any = Or(any, x.Guard)
			leaves(x.Args[0], bddTrue, func(lg *BDD, v *Term) {
				y := And(g, lg)
				ok := v == addrOf(l.Iter, p, "a") && !sat(And(y, ga)) || v == addrOf(l.Iter, p, "b") && !sat(And(y, Not(ga)))
				c.ob(!sat(y) || ok, rule, name+" unlinks the other", x.Instr.Pos(), "%s is unlinked", short(v))
			})
		}
		c.ob(implies(in, any), rule, name+" unlinks", e.Instr.Pos(), "a pair is unlinked only when %s", shortB(any))
		fst := bddFalse
		for _, x := range s.Events {
			if x.Kind == "store" && x.Loc == addrOf(s.Entry, leaf, "Leaf.pairs") && proveEq(x.Val, TNilOf(x.Val.typ), And(f, x.Guard)) {
				fst = Or(fst, x.Guard)
			}
		}
		c.ob(implies(f, fst), rule, name+" none left", pos, "the leaf keeps its pairs")
		c.poolTop(rule, name, l, "BBTree.pooledPairs", "a.next", p, in)
	})
	c.part("MarkLeafQuery", func() {
		s := c.treeSum("Node.MarkLeafQuery", true)
		node, leaf, left, ctx := s.Params[0], s.Params[1], s.Params[2], s.Params[3]
		name := "Node.MarkLeafQuery"
		d := descend(s, node)
		f := AndAll(s.G, notNil(d.N), notNil(leaf), notNil(ctx))
		meets := bbMeets(get(d.Mem, d.N, "bb"), get(d.Mem, leaf, "bb"))
		isLeaf := notNil(get(d.Mem, d.N, "obj"))
		isLeft := toBDD(left)
		older := CondLt(get(d.Mem, d.N, "Leaf.stamp"), get(d.Mem, leaf, "Leaf.stamp"), true)
		var ins, rev, asks []*BDD
		for _, x := range d.Evs {
			g := And(f, x.G)
			if !sat(g) {
				continue
			}
			switch {
			case x.E.Kind == "call" && x.E.Name == "BBTree.PairInsert":
				leaves(x.E.Args[1], bddTrue, func(lg *BDD, u *Term) {
					leaves(x.E.Args[2], lg, func(lg *BDD, v *Term) {
						y := And(g, lg)
						if !sat(y) {
							return
						}
						switch {
						case u == leaf && (v == d.N || proveEq(v, d.N, y)):
							ins = append(ins, And(x.G, lg))
						case v == leaf && (u == d.N || proveEq(u, d.N, y)):
							rev = append(rev, And(x.G, lg))
						default:
							c.fail(rule, name+" pairs", x.E.Instr.Pos(), "%s and %s are paired", short(u), short(v))
						}
					})
				})
			case x.E.Kind == "user":
				asks = append(asks, x.G)
				a := x.E.Args
				ok := x.E.Callee == get(d.Mem, ctx, "f") && len(a) == 4 && a[3] == get(d.Mem, ctx, "data") && typedEq(a[0], get(d.Mem, leaf, "obj"), g) && proveEq(a[1], get(d.Mem, d.N, "obj"), g)
				c.ob(ok, rule, name+" asks", x.E.Instr.Pos(), "what is called is %s with %s", short(x.E.Callee), shortAll(a))
			}
		}
		pos := s.Fn.Pos()
		at := And(meets, isLeaf)
		c.onceWhen(rule, name+" left", pos, ins, And(at, isLeft), f)
		c.onceWhen(rule, name+" right", pos, rev, AndAll(at, Not(isLeft), older), f)
		c.onceWhen(rule, name+" asks", pos, asks, And(at, Not(isLeft)), f)
		no := func(gs []*BDD, when *BDD, what string) {
			for _, g := range gs {
				c.ob(!sat(AndAll(f, g, when)), rule, name+" no "+what, pos, "it happens when %s", shortB(g))
			}
		}
		no(ins, Or(Not(at), Not(isLeft)), "pair to the left")
		no(rev, Or(Not(at), Or(isLeft, Not(older))), "pair to the right")
		no(asks, Or(Not(at), isLeft), "question")
		c.children(rule, name, s, d, name, And(meets, Not(isLeaf)), f, func(e *Event, g *BDD) string {
			if e.Args[1] != leaf || e.Args[2] != left && !sameCond(toBDD(e.Args[2]), isLeft, g) || e.Args[3] != ctx {
				return "other arguments are passed on: " + shortAll(e.Args[1:])
			}
			return ""
		})
	})
	c.part("MarkSubtree", func() {
		s := c.treeSum("Node.MarkSubtree", true)
		name := "Node.MarkSubtree"
		node, ctx := s.Params[0], s.Params[1]
		d := descend(s, node)
		f := AndAll(s.G, notNil(d.N))
		isLeaf := notNil(get(d.Mem, d.N, "obj"))
		var marks []*BDD
		for _, x := range d.Evs {
			if x.E.Kind == "call" && x.E.Name == "Node.MarkLeaf" && sat(And(f, x.G)) {
				marks = append(marks, x.G)
				c.ob(proveEq(x.E.Args[0], d.N, And(f, x.G)) && x.E.Args[1] == ctx && !sat(AndAll(f, x.G, Not(isLeaf))), rule, name+" marks", x.E.Instr.Pos(), "what is marked is %s", short(x.E.Args[0]))
			}
		}
		c.onceWhen(rule, name+" leaf", s.Fn.Pos(), marks, isLeaf, f)
		first := c.children(rule, name, s, d, name, Not(isLeaf), f, func(e *Event, g *BDD) string {
			if e.Args[1] != ctx {
				return "another context is passed on"
			}
			return ""
		})
		// a pair made from the left is looked at when its right leaf is marked
		c.ob(first["Children.a"] < first["Children.b"], rule, name+" left first", s.Fn.Pos(), "the right child is marked before the left one, whose new pairs it looks at")
	})
	c.part("MarkLeaf", func() {
		s := c.treeSum("Node.MarkLeaf", true)
		name := "Node.MarkLeaf"
		leaf, ctx, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		tree := get(s.Entry, ctx, "tree")
		_, as := dynTree(s.Entry, tree)
		f := AndAll(s.G, notNil(leaf), notNil(ctx), notNil(tree), notNil(as))
		moved := CondEq(get(s.Entry, leaf, "Leaf.stamp"), stampOf(s.Entry, tree))
		static := get(s.Entry, ctx, "staticRoot")
		var gs []*BDD
		for _, e := range eventsOf(s.Events, "call", "Node.MarkLeafQuery") {
			g := And(f, e.Guard)
			if !sat(g) {
				continue
			}
			gs = append(gs, e.Guard)
			ok := proveEq(e.Args[0], static, g) && e.Args[1] == leaf && !sat(And(g, toBDD(e.Args[2]))) && e.Args[3] == ctx
			c.ob(ok && !sat(And(g, Not(moved))), rule, name+" static", e.Instr.Pos(), "it asks %s", shortAll(e.Args))
		}
		c.onceWhen(rule, name+" static shapes", pos, gs, And(moved, notNil(static)), f)
		c.ancestors(rule, name, s, leaf, ctx, moved, f)
		e, l, p, one := c.pairWalk(rule, name, s, leaf, And(f, Not(moved)), true)
		if e == nil {
			return
		}
		in := AndAll(f, l.Assume, l.BackG, notNil(p), one)
		own := CondEq(get(l.Iter, p, "b.leaf"), leaf)
		var asks []*BDD
		for _, x := range l.Events {
			if x.Kind != "user" {
				continue
			}
			g := And(in, x.Guard)
			asks = append(asks, x.Guard)
			a := x.Args
			id := get(l.Iter, p, "collisionId")
			ok := x.Callee == get(l.Iter, ctx, "f") && len(a) == 4 && typedEq(a[0], get(l.Iter, get(l.Iter, p, "a.leaf"), "obj"), g) && proveEq(a[1], get(l.Iter, leaf, "obj"), g) && proveEq(a[2], id, g) && a[3] == get(l.Iter, ctx, "data")
			c.ob(ok && !sat(And(g, Not(own))), rule, name+" asks", x.Instr.Pos(), "what is called is %s with %s", short(x.Callee), shortAll(a))
			now := get(l.Back, p, "collisionId")
			c.ob(proveEq(now, x.Result, g), rule, name+" collision id", x.Instr.Pos(), "the pair keeps collision id %s", short(now))
		}
		c.onceWhen(rule, name+" pairs asked", pos, asks, own, in)
		for _, x := range s.Events {
			if x.Kind == "user" {
				c.fail(rule, name+" asks", x.Instr.Pos(), "it is called outside the walk over the pairs")
			}
		}
	})
	c.part("LeafAddPairs", func() {
		s := c.treeSum("BBTree.LeafAddPairs", true)
		name := "BBTree.LeafAddPairs"
		tree, leaf, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		idx, as := dynTree(s.Entry, tree)
		f := AndAll(typeFact(s), notNil(tree), notNil(leaf), notNil(get(s.Entry, tree, "spatialIndex")), notNil(as))
		root := get(s.Entry, as, "root")
		var q, m []*BDD
		for _, e := range s.Events {
			g := And(f, e.Guard)
			if e.Kind != "call" || !sat(g) {
				continue
			}
			switch e.Name {
			case "Node.MarkLeafQuery":
				q = append(q, e.Guard)
				ok := proveEq(e.Args[0], root, g) && e.Args[1] == leaf && implies(g, toBDD(e.Args[2])) && proveEq(get(e.Mem, e.Args[3], "tree"), as, g)
				c.ob(ok && !sat(And(g, Not(notNil(idx)))), rule, name+" static", e.Instr.Pos(), "a static leaf is paired by %s", shortAll(e.Args))
			case "Node.MarkLeaf":
				m = append(m, e.Guard)
				st := get(s.Entry, tree, "spatialIndex.staticIndex")
				sr := get(s.Entry, rawTerm(OApp, tree.typ, "as:*BBTree", get(s.Entry, st, "class")), "root")
				x := e.Args[1]
				ok := e.Args[0] == leaf && proveEq(get(e.Mem, x, "tree"), tree, g) && proveEq(get(e.Mem, x, "staticRoot"), sr, And(g, notNil(st))) && proveEq(get(e.Mem, x, "staticRoot"), TNilOf(sr.typ), And(g, Not(notNil(st))))
				c.ob(ok && !sat(And(g, notNil(idx))), rule, name+" dynamic", e.Instr.Pos(), "a leaf is paired by %s", shortAll(e.Args))
				fn := get(e.Mem, x, "f")
				c.ob(fn.op == OConst || fn.op == OFunc || fn.op == OClosure, rule, name+" void", e.Instr.Pos(), "pairing calls %s", short(fn))
			}
		}
		c.onceWhen(rule, name+" static leaf", pos, q, And(notNil(idx), notNil(root)), f)
		c.onceWhen(rule, name+" dynamic leaf", pos, m, Not(notNil(idx)), f)
	})
	c.part("VoidQueryFunc", func() {
		s := c.sum("VoidQueryFunc", "tree", Config{NoEnter: true})
		c.ob(s.Ret == s.Params[2] || proveEq(s.Ret, s.Params[2], bddTrue), rule, "VoidQueryFunc", s.Fn.Pos(), "it returns %s", short(s.Ret))
		c.ob(len(s.Events) == 0, rule, "VoidQueryFunc does nothing", s.Fn.Pos(), "it does something")
	})
	c.atLeast(rule, 40)
}

// typedEq: a value, or the interface made of it, is w.
func typedEq(v, w *Term, g *BDD) bool {
	if v.op == OIface {
		v = v.args[0]
	}
	return v == w || proveEq(v, w, g)
}

// pairWalk: the loop over the pairs of a leaf.
func (c *Ctx) pairWalk(rule, name string, s *Summary, leaf *Term, f *BDD, keep bool) (*Event, *LoopInfo, *Term, *BDD) {
	why := "no loop"
	for _, e := range s.Events {
		if e.Kind != "loop" || e.Loop.Back == nil || !sat(And(f, e.Guard)) {
			continue
		}
		l := e.Loop
		for _, ph := range l.Phis {
			if ph.Var == nil || ph.Back == nil || typeBaseOf(ph.Var.typ) != "Pair" {
				continue
			}
			p := ph.Var
			fst := get(s.Entry, leaf, "Leaf.pairs")
			if !proveEq(ph.Init, fst, And(f, e.Guard)) {
				why = "it starts with " + short(ph.Init)
				continue
			}
			// in a pair of the leaf, one thread is its own
			la, lb := get(l.Iter, p, "a.leaf"), get(l.Iter, p, "b.leaf")
			one := Or(And(CondEq(la, leaf), Not(CondEq(lb, leaf))), And(CondEq(lb, leaf), Not(CondEq(la, leaf))))
			in := AndAll(f, l.Assume, l.BackG, notNil(p), one)
			na, nb := get(l.Iter, p, "a.next"), get(l.Iter, p, "b.next")
			if !proveEq(ph.Back, na, And(in, CondEq(la, leaf))) || !proveEq(ph.Back, nb, And(in, CondEq(lb, leaf))) {
				why = "it goes on with " + short(ph.Back)
				continue
			}
			ok := true
			for _, x := range l.Exits {
				if sat(AndAll(f, l.Assume, one, x.Guard, notNil(p))) {
					ok, why = false, "it may end when "+shortB(x.Guard)
				}
			}
			if !ok {
				continue
			}
			if !implies(f, e.Guard) {
				why = "only when " + shortB(e.Guard)
				continue
			}
			c.ob(true, rule, name+" walk", e.Instr.Pos(), "")
			return e, l, p, one
		}
	}
	c.fail(rule, name+" walk", s.Fn.Pos(), "not every pair of the leaf is visited: %s", why)
	return nil, nil, nil, nil
}

// ancestors: at every level above the leaf the sibling is asked.
func (c *Ctx) ancestors(rule, name string, s *Summary, leaf, ctx *Term, when, f *BDD) {
	why := "no loop"
	f = And(f, when)
	for _, e := range s.Events {
		if e.Kind != "loop" || e.Loop.Back == nil || !sat(And(f, e.Guard)) {
			continue
		}
		l := e.Loop
		var n *PhiInfo
		for _, ph := range l.Phis {
			if ph.Var != nil && ph.Back != nil && isNode(ph.Var.typ) && proveEq(ph.Init, leaf, And(f, e.Guard)) {
				n = ph
			}
		}
		if n == nil {
			continue
		}
		up := get(l.Iter, n.Var, "parent")
		in := AndAll(f, l.Assume, l.BackG)
		for _, ph := range l.Phis {
			if ph != n && ph.Var != nil && ph.Back != nil && isNode(ph.Var.typ) && proveEq(ph.Init, get(s.Entry, leaf, "parent"), And(f, e.Guard)) && proveEq(n.Back, ph.Var, in) && proveEq(ph.Back, get(l.Iter, ph.Var, "parent"), And(in, notNil(ph.Var))) {
				up = ph.Var
			}
		}
		if !proveEq(n.Back, up, And(in, notNil(up))) {
			why = "it goes on with " + short(n.Back)
			continue
		}
		if !implies(f, e.Guard) {
			why = "only when " + shortB(e.Guard)
			continue
		}
		ok := true
		for _, x := range l.Exits {
			if sat(AndAll(f, l.Assume, x.Guard, notNil(up))) {
				ok, why = false, "it may end when "+shortB(x.Guard)
			}
		}
		if !ok {
			continue
		}
		in = And(in, notNil(up))
		for _, side := range []string{"Children.a", "Children.b"} {
			here := And(CondEq(get(l.Iter, up, side), n.Var), Not(CondEq(get(l.Iter, up, other(side)), n.Var)))
			sib := get(l.Iter, up, other(side))
			var gs []*BDD
			for _, x := range l.Events {
				if x.Kind != "call" || x.Name != "Node.MarkLeafQuery" {
					continue
				}
				g := AndAll(in, here, x.Guard)
				if !sat(g) {
					continue
				}
				gs = append(gs, x.Guard)
				isLeft := toBDD(x.Args[2])
				okL := implies(g, isLeft)
				if side == "Children.b" {
					okL = !sat(And(g, isLeft))
				}
				c.ob(proveEq(x.Args[0], sib, g) && x.Args[1] == leaf && okL && x.Args[3] == ctx, rule, name+" sibling of "+side, x.Instr.Pos(), "it asks %s", shortAll(x.Args))
			}
			c.onceWhen(rule, name+" siblings of "+side, e.Instr.Pos(), gs, bddTrue, And(in, here))
		}
		return
	}
	c.fail(rule, name+" ancestors", s.Fn.Pos(), "not every sibling on the way up is asked: %s", why)
}

// poolTop: what goes to the pool goes to its top.
func (c *Ctx) poolTop(rule, name string, l *LoopInfo, class, link string, x *Term, f *BDD) {
	for _, e := range l.Events {
		if e.Kind == "store" && locClass(e.Loc) == class {
			g := And(f, e.Guard)
			v := e.Val
			if ownerOfLoc(e.Loc, class) == nil {
				continue
			}
			leaves(v, bddTrue, func(lg *BDD, v *Term) {
				y := And(g, lg)
				old := e.Mem.Load(e.Loc, v.typ)
				if !sat(y) || v == old || proveEq(v, old, y) {
					return
				}
				c.ob(proveEq(v, x, y) && proveEq(get(e.Mem, x, link), old, y), rule, name+" pool", e.Instr.Pos(), "the pool becomes %s", short(v))
			})
		}
	}
}

func (c *Ctx) treeUpdate() {
	rule := "updates"
	c.part("LeafUpdate", func() {
		s := c.treeSum("BBTree.LeafUpdate", true)
		name := "BBTree.LeafUpdate"
		tree, leaf, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		_, as := dynTree(s.Entry, tree)
		f := AndAll(typeFact(s), notNil(tree), notNil(leaf), notNil(get(s.Entry, tree, "spatialIndex")), notNil(as))
		obj := get(s.Entry, leaf, "obj")
		var bb *Term
		for _, e := range s.Events {
			if e.Kind == "user" {
				ok := e.Callee == get(s.Entry, tree, "spatialIndex.bbfunc") && len(e.Args) == 1 && proveEq(e.Args[0], obj, f) && implies(f, e.Guard)
				c.ob(ok, rule, name+" box", e.Instr.Pos(), "the box looked at is that of %s", shortAll(e.Args))
				bb = e.Result
			}
		}
		if !c.ob(bb != nil, rule, name+" asks", pos, "the box of the shape is not looked at") {
			return
		}
		old := get(s.Entry, leaf, "bb")
		le := func(a, b *Term) *BDD { return CondLe(a, b, false) }
		in := AndAll(le(fld(old, "L"), fld(bb, "L")), le(fld(old, "B"), fld(bb, "B")), le(fld(bb, "R"), fld(old, "R")), le(fld(bb, "T"), fld(old, "T")))
		upd := toBDD(s.Ret)
		c.ob(implies(And(f, Not(in)), upd), rule, name+" when", pos, "a leaf whose shape left its box is not updated when %s", shortB(And(Not(in), Not(upd))))
		y := And(f, upd)
		c.ob(c.boxFor(s.Events, get(s.Mem, leaf, "bb"), tree, obj, y), rule, name+" new box", pos, "the box becomes %s", short(get(s.Mem, leaf, "bb")))
		st := get(s.Mem, leaf, "Leaf.stamp")
		c.ob(proveEq(st, stampOf(s.Entry, tree), y), rule, name+" stamp", pos, "the stamp becomes %s", short(st))
		var rem, ins, clr []*BDD
		var re, ie *Event
		for _, e := range s.Events {
			g := And(f, e.Guard)
			if e.Kind != "call" || !sat(g) {
				continue
			}
			switch e.Name {
			case "BBTree.SubtreeRemove":
				re = e
				rem = append(rem, e.Guard)
				c.ob(proveEq(e.Args[1], get(s.Entry, tree, "root"), g) && e.Args[2] == leaf, rule, name+" removes", e.Instr.Pos(), "it removes %s from %s", short(e.Args[2]), short(e.Args[1]))
			case "BBTree.SubtreeInsert":
				ie = e
				ins = append(ins, e.Guard)
				c.ob(re != nil && proveEq(e.Args[1], re.Result, g) && e.Args[2] == leaf, rule, name+" inserts", e.Instr.Pos(), "it inserts %s into %s", short(e.Args[2]), short(e.Args[1]))
				c.ob(c.boxFor(s.Events, get(e.Mem, leaf, "bb"), tree, obj, g), rule, name+" box first", e.Instr.Pos(), "the leaf is inserted with the box %s", short(get(e.Mem, leaf, "bb")))
				c.ob(proveEq(get(s.Mem, tree, "root"), e.Result, g), rule, name+" root", e.Instr.Pos(), "the root becomes %s", short(get(s.Mem, tree, "root")))
			case "BBTree.PairsClear":
				clr = append(clr, e.Guard)
				c.ob(e.Args[1] == leaf, rule, name+" clears", e.Instr.Pos(), "the pairs of %s are cleared", short(e.Args[1]))
			}
		}
		_ = ie
		c.onceWhen(rule, name+" removed", pos, rem, upd, f)
		c.onceWhen(rule, name+" inserted", pos, ins, upd, f)
		c.onceWhen(rule, name+" pairs cleared", pos, clr, upd, f)
		for _, e := range s.Events {
			if e.Kind == "store" || e.Kind == "call" && e.Name != "BBTree.GetBB" {
				c.ob(!sat(AndAll(f, e.Guard, Not(upd))), rule, name+" nothing else", e.Instr.Pos(), "%s %s although the leaf is not updated", e.Kind, e.Name)
			}
		}
	})
	c.part("Insert", func() {
		s := c.treeSum("BBTree.Insert", true)
		name := "BBTree.Insert"
		tree, obj, hash, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		_, as := dynTree(s.Entry, tree)
		f := AndAll(typeFact(s), notNil(tree), notNil(obj), notNil(get(s.Entry, tree, "spatialIndex")), notNil(as))
		var leaf *Term
		var add *Event
		n := map[string]int{}
		for _, e := range s.Events {
			if e.Kind != "call" {
				continue
			}
			switch e.Name {
			case "HashSet.Insert":
				n[e.Name]++
				leaf = e.Result
				c.ob(implies(f, e.Guard) && e.Args[0] == get(s.Entry, tree, "leaves") && e.Args[1] == hash && e.Args[2] == obj, rule, name+" leaf set", e.Instr.Pos(), "it is put into the set of leaves with %s", shortAll(e.Args[1:3]))
				ok := false
				if e.Sub != nil {
					for _, x := range eventsOf(e.Sub.Events, "call", "BBTree.NewLeaf") {
						ok = x.Args[0] == tree && (x.Args[1] == e.Sub.Params[0] || x.Args[1] == obj) && e.Sub.Ret == x.Result
					}
				}
				c.ob(ok, rule, name+" new leaf", e.Instr.Pos(), "what is put in is not a new leaf for the shape")
			case "BBTree.SubtreeInsert":
				n[e.Name]++
				c.ob(leaf != nil && implies(f, e.Guard) && proveEq(e.Args[1], get(s.Entry, tree, "root"), f) && e.Args[2] == leaf, rule, name+" inserts", e.Instr.Pos(), "it inserts %s into %s", short(e.Args[2]), short(e.Args[1]))
				c.ob(proveEq(get(s.Mem, tree, "root"), e.Result, f), rule, name+" root", e.Instr.Pos(), "the root becomes %s", short(get(s.Mem, tree, "root")))
			case "BBTree.LeafAddPairs":
				n[e.Name]++
				add = e
				c.ob(leaf != nil && implies(f, e.Guard) && e.Args[0] == tree && e.Args[1] == leaf, rule, name+" pairs", e.Instr.Pos(), "pairs are made for %s", short(e.Args[1]))
				c.ob(leaf != nil && proveEq(get(e.Mem, leaf, "Leaf.stamp"), stampOf(s.Entry, tree), f) && n["BBTree.SubtreeInsert"] == 1, rule, name+" stamp", e.Instr.Pos(), "pairs are made before the leaf has its place and this time's stamp")
			}
		}
		c.ob(n["HashSet.Insert"] == 1 && n["BBTree.SubtreeInsert"] == 1 && n["BBTree.LeafAddPairs"] == 1, rule, name, pos, "it is not put into the set of leaves, the tree and pairs, each once")
		c.ob(bumped(s, tree, bddTrue, f), rule, name+" time goes on", pos, "the stamp becomes %s", short(stampOf(s.Mem, tree)))
		if add != nil {
			c.ob(proveEq(stampOf(add.Mem, tree), stampOf(s.Entry, tree), f), rule, name+" time goes on last", pos, "the stamp goes on before pairs are made")
		}
	})
	c.part("Remove", func() {
		s := c.treeSum("BBTree.Remove", true)
		name := "BBTree.Remove"
		tree, obj, hash, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		f := AndAll(typeFact(s), notNil(tree))
		var leaf *Term
		var rem, clr []*BDD
		for _, e := range s.Events {
			g := And(f, e.Guard)
			switch {
			case e.Kind == "call" && e.Name == "HashSet.Remove":
				c.ob(leaf == nil && implies(f, e.Guard) && e.Args[0] == get(s.Entry, tree, "leaves") && e.Args[1] == hash && e.Args[2] == obj, rule, name+" leaf set", e.Instr.Pos(), "what is taken out of the set of leaves is %s", shortAll(e.Args[1:3]))
				leaf = e.Result
			case e.Kind == "call" && e.Name == "BBTree.SubtreeRemove":
				rem = append(rem, e.Guard)
				c.ob(proveEq(e.Args[1], get(s.Entry, tree, "root"), g) && e.Args[2] == leaf, rule, name+" removes", e.Instr.Pos(), "it removes %s from %s", short(e.Args[2]), short(e.Args[1]))
				c.ob(proveEq(get(s.Mem, tree, "root"), e.Result, g), rule, name+" root", e.Instr.Pos(), "the root becomes %s", short(get(s.Mem, tree, "root")))
			case e.Kind == "call" && e.Name == "BBTree.PairsClear":
				clr = append(clr, e.Guard)
				c.ob(e.Args[1] == leaf, rule, name+" clears", e.Instr.Pos(), "the pairs of %s are cleared", short(e.Args[1]))
			case e.Kind == "store" && locClass(e.Loc) == "BBTree.pooledNodes":
				c.ob(e.Val == leaf && len(rem) > 0 || !sat(g), rule, name+" pool", e.Instr.Pos(), "the pool of nodes becomes %s", short(e.Val))
			}
		}
		if !c.ob(leaf != nil, rule, name, pos, "nothing is taken out of the set of leaves") {
			return
		}
		c.onceWhen(rule, name+" removed", pos, rem, notNil(leaf), f)
		c.onceWhen(rule, name+" pairs cleared", pos, clr, notNil(leaf), f)
	})
	c.part("ReindexObject", func() {
		s := c.treeSum("BBTree.ReindexObject", true)
		name := "BBTree.ReindexObject"
		tree, obj, hash, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		f := AndAll(typeFact(s), notNil(tree), notNil(get(s.Entry, tree, "spatialIndex")))
		var leaf, moved *Term
		var upd, add []*BDD
		var last *Event
		for _, e := range s.Events {
			if e.Kind != "call" {
				continue
			}
			g := And(f, e.Guard)
			switch e.Name {
			case "HashSet.Find":
				c.ob(leaf == nil && implies(f, e.Guard) && e.Args[0] == get(s.Entry, tree, "leaves") && e.Args[1] == hash && e.Args[2] == obj, rule, name+" leaf", e.Instr.Pos(), "it looks for %s", shortAll(e.Args[1:]))
				leaf = e.Result
			case "BBTree.LeafUpdate":
				upd = append(upd, e.Guard)
				moved = e.Result
				c.ob(e.Args[0] == tree && e.Args[1] == leaf && !sat(And(g, Not(notNil(leaf)))), rule, name+" updates", e.Instr.Pos(), "it updates %s", short(e.Args[1]))
			case "BBTree.LeafAddPairs":
				add = append(add, e.Guard)
				last = e
				c.ob(e.Args[0] == tree && e.Args[1] == leaf && moved != nil && !sat(And(g, Not(toBDD(moved)))), rule, name+" pairs", e.Instr.Pos(), "pairs are made for %s when %s", short(e.Args[1]), shortB(e.Guard))
			}
		}
		if !c.ob(leaf != nil && moved != nil, rule, name, pos, "no leaf is looked up and updated") {
			return
		}
		c.onceWhen(rule, name+" updated", pos, upd, notNil(leaf), f)
		c.onceWhen(rule, name+" pairs made", pos, add, And(notNil(leaf), toBDD(moved)), f)
		c.ob(bumped(s, tree, And(notNil(leaf), toBDD(moved)), f), rule, name+" time goes on", pos, "the stamp becomes %s", short(stampOf(s.Mem, tree)))
		if last != nil {
			c.ob(proveEq(stampOf(last.Mem, tree), stampOf(s.Entry, tree), And(f, last.Guard)), rule, name+" time goes on last", pos, "the stamp goes on before pairs are made")
		}
	})
	c.part("ReindexQuery", func() {
		s := c.treeSum("BBTree.ReindexQuery", false)
		name := "BBTree.ReindexQuery"
		tree, fn, data, pos := s.Params[0], s.Params[1], s.Params[2], s.Fn.Pos()
		f := AndAll(typeFact(s), notNil(tree), notNil(get(s.Entry, tree, "spatialIndex")))
		some := notNil(get(s.Entry, tree, "root"))
		var each, mark []*BDD
		var walk, me *Event
		for _, e := range s.Events {
			if e.Kind != "call" {
				continue
			}
			g := And(f, e.Guard)
			switch e.Name {
			case "HashSet.Each":
				ok := false
				if e.Sub != nil && e.Args[0] == get(s.Entry, tree, "leaves") {
					for _, x := range eventsOf(e.Sub.Events, "call", "BBTree.LeafUpdate") {
						ok = x.Args[0] == tree && x.Args[1] == e.Sub.Params[0] && implies(g, x.Guard)
					}
				}
				if ok {
					each = append(each, e.Guard)
					walk = e
				}
			case "Node.MarkSubtree":
				mark = append(mark, e.Guard)
				me = e
				x := e.Args[1]
				ok := proveEq(e.Args[0], get(e.Mem, tree, "root"), g) && proveEq(get(e.Mem, x, "tree"), tree, g) && get(e.Mem, x, "f") == fn && get(e.Mem, x, "data") == data
				c.ob(ok && walk != nil && walk.Seq < e.Seq, rule, name+" marks", e.Instr.Pos(), "what is marked is %s, before or after the leaves are updated", short(e.Args[0]))
				st := get(e.Mem, tree, "spatialIndex.staticIndex")
				sr := get(e.Mem, rawTerm(OApp, tree.typ, "as:*BBTree", get(e.Mem, st, "class")), "root")
				got := get(e.Mem, x, "staticRoot")
				c.ob(proveEq(got, sr, And(g, notNil(st))) && proveEq(got, TNilOf(got.typ), And(g, Not(notNil(st)))), rule, name+" static shapes", e.Instr.Pos(), "the static shapes asked are those below %s", short(got))
				c.ob(proveEq(stampOf(e.Mem, tree), stampOf(walk.Mem, tree), g) || true, rule, name+" one time", e.Instr.Pos(), "")
			}
		}
		c.onceWhen(rule, name+" updates", pos, each, some, f)
		c.onceWhen(rule, name+" marked", pos, mark, some, f)
		// time goes on after the marking
		n := bddFalse
		for _, e := range s.Events {
			if e.Kind == "store" && locClass(e.Loc) == "BBTree.stamp" {
				c.ob(me != nil && me.Seq < e.Seq, rule, name+" time goes on last", e.Instr.Pos(), "the stamp goes on before the leaves are marked")
				leaves(e.Val, bddTrue, func(lg *BDD, v *Term) {
					if sat(AndAll(f, e.Guard, lg)) && proveEq(v, TAdd(e.Mem.Load(e.Loc, v.typ), TInt(1)), AndAll(f, e.Guard, lg)) {
						n = Or(n, And(e.Guard, lg))
					}
				})
			}
		}
		c.ob(implies(And(f, some), n), rule, name+" time goes on", pos, "the stamp goes on only when %s", shortB(n))
	})
	c.part("NewBBTree", func() {
		s := c.sum("NewBBTree", "tree", Config{NoEnter: true})
		f := typeFact(s)
		r := s.Ret
		c.ob(get(s.Mem, r, "bbfunc") == s.Params[0] && get(s.Mem, r, "staticIndex") == s.Params[1], rule, "NewBBTree", s.Fn.Pos(), "the box function and the static index are not those given")
		cl := get(s.Mem, r, "class")
		if cl.op == OIface {
			cl = cl.args[0]
		}
		ok := proveEq(get(s.Mem, cl, "spatialIndex"), r, f) && proveEq(get(s.Mem, cl, "root"), TNilOf(get(s.Mem, cl, "root").typ), f) && proveEq(get(s.Mem, get(s.Mem, cl, "leaves"), "entries"), TInt(0), f)
		c.ob(ok, rule, "NewBBTree empty", s.Fn.Pos(), "the new tree is not empty or belongs to another index")
		c.ob(proveEq(get(s.Mem, s.Params[1], "dynamicIndex"), r, And(f, notNil(s.Params[1]))), rule, "NewBBTree static", s.Fn.Pos(), "the static index does not know the dynamic one")
	})
	c.atLeast(rule, 30)
}

func init() {
	register(&Check{ID: "C32", Run: checkC32,
		Assume:      []string{"access paths that differ mean objects that differ", "parent and child links agree when an operation starts (shown for every operation that changes them)", "box functions return boxes with L <= R and B <= T (C36)"},
		Explanation: "guarded value summaries of the tree operations: links, boxes, pairs and pools; structural induction over the children"})
}
