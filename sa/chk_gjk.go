package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: the search for the closest points of two shapes (GJK and EPA).

// byteOf is one byte of an unsigned number: byte number k of src, or 0.
type byteOf struct {
	src *Term
	k   int
}

// bytesOf reads a number made of shifted and masked numbers, lowest byte
// first.
func bytesOf(t *Term) (b [4]byteOf, ok bool) {
	if n, is := intOf(t); is {
		return b, n == 0
	}
	if t.op == OApp && strings.HasPrefix(t.name, "conv:") && len(t.args) == 1 {
		return bytesOf(t.args[0])
	}
	shift := func(k int64) bool {
		x, ok := bytesOf(t.args[0])
		if !ok || k%8 != 0 {
			return false
		}
		for i := range b {
			if j := i - int(k/8); j >= 0 && j < 4 {
				b[i] = x[j]
			}
		}
		return true
	}
	if t.op == OApp && len(t.args) == 2 {
		n, isN := intOf(t.args[1])
		switch t.name {
		case "and":
			x := t.args[0]
			if !isN {
				n, isN = intOf(t.args[0])
				x = t.args[1]
			}
			v, ok := bytesOf(x)
			if !isN || !ok {
				return b, false
			}
			for i := range b {
				switch (n >> (8 * i)) & 0xff {
				case 0:
				case 0xff:
					b[i] = v[i]
				default:
					return b, false
				}
			}
			return b, true
		case "shl":
			return b, isN && shift(n)
		case "shr":
			return b, isN && shift(-n)
		case "or":
			x, ok1 := bytesOf(t.args[0])
			y, ok2 := bytesOf(t.args[1])
			return merge(x, y, ok1 && ok2)
		}
	}
	// sums of numbers that do not overlap
	p := toPoly(t)
	if len(p.ts) > 1 || len(p.ts) == 1 && !(len(p.ts[0].m) == 1 && p.ts[0].c.IsInt() && p.ts[0].c.Num().Int64() == 1) {
		ok = true
		for _, m := range p.ts {
			if len(m.m) != 1 || m.m[0].e != 1 || !m.c.IsInt() || m.c.Num().Sign() <= 0 || !m.c.Num().IsInt64() {
				return b, false
			}
			n := uint64(m.c.Num().Int64())
			if n&(n-1) != 0 {
				return b, false
			}
			k := bits.TrailingZeros64(n)
			x, good := bytesOf(m.m[0].a)
			if !good || k%8 != 0 {
				return b, false
			}
			var y [4]byteOf
			for i := range y {
				if j := i - k/8; j >= 0 {
					y[i] = x[j]
				}
			}
			b, ok = merge(b, y, ok)
		}
		return b, ok
	}
	for i := range b {
		b[i] = byteOf{t, i}
	}
	return b, true
}

func merge(x, y [4]byteOf, ok bool) ([4]byteOf, bool) {
	for i := range x {
		if x[i].src == nil {
			x[i] = y[i]
		} else if y[i].src != nil {
			return x, false
		}
	}
	return x, ok
}

func (b byteOf) is(t *Term, k int, f *BDD) bool {
	return b.src != nil && b.k == k && (b.src == t || proveEq(unconv(b.src), unconv(t), f))
}

func unconv(t *Term) *Term {
	for t.op == OApp && strings.HasPrefix(t.name, "conv:") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// noConv drops conversions between number types within a term.
func noConv(t *Term) *Term {
	m := map[*Term]*Term{}
	walkTerm(t, func(x *Term) {
		if u := unconv(x); u != x {
			m[x] = u
		}
	})
	if len(m) == 0 {
		return t
	}
	return noConv(subst(t, m))
}

func noConvB(b *BDD) *BDD {
	m := map[*Term]*Term{}
	walkB(b, func(x *Term) {
		if u := unconv(x); u != x {
			m[x] = u
		}
	})
	if len(m) == 0 {
		return b
	}
	return noConvB(substB(b, m))
}

func checkC26(c *Ctx) {
	c.part("support functions", func() { c.supportFuncs("support") })
	c.part("Shape.Point", func() { c.shapePoint("support") })
	c.part("SupportContext.Support", func() { c.supportPoint("support") })
	c.part("ClosestPoints", func() { c.closestPoints("closest") })
	c.part("GJK", func() { c.gjkStart("start") })
	c.part("GJKRecurse", func() {
		closed := []string{"Vector.ClosestT", "Vector.LerpT", "Vector.ClosestDist"}
		c.oneOf(
			func() { c.gjkStep("search step", false, closed) },
			func() { c.gjkStep("search step", false, nil) })
		// an edge with the origin behind it is turned round
		c.oneOf(
			func() { c.gjkTurn("search step") },
			func() { c.gjkStep("search step", true, closed) })
	})
	c.part("EPA", func() { c.epaStart("hull") })
	c.part("EPARecurse", func() { c.epaStep("hull") })
	c.atLeast("support", 26)
	c.atLeast("closest", 12)
	c.atLeast("start", 12)
	c.atLeast("search step", 12)
	c.atLeast("hull", 20)
}

func (c *Ctx) supportFuncs(rule string) {
	sig := c.named("SupportPointFunc").Underlying()
	for _, fn := range c.p.All {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || !types.Identical(fn.Signature, sig) {
			continue
		}
		typ := c.supportsType(fn)
		name, pos := fname(fn), fn.Pos()
		if !c.ob(typ != "", rule, name+" type", pos, "%s is for no type of shape", name) {
			continue
		}
		s := c.sumFn(fn, "gjk", Config{NoEnter: true, Opaque: opaqueSet("PolySupportPointIndex")})
		sh, n := c.asShape(s.Entry, s.Params[0], typ), vec(s.Params[1])
		f := typeFact(s)
		p, idx := vec(fld(s.Ret, "p")), noConv(fld(s.Ret, "index"))
		for _, e := range s.Events {
			if e.Kind == "store" && rootOf(e.Loc).op != OAlloc {
				c.fail(rule, name+" store", e.Instr.Pos(), "%s changes %s", name, short(e.Loc))
			}
		}
		isAt := func(fd string, i int64, g *BDD) bool {
			return p.eq(getV(s.Entry, sh, fd), g) && proveEq(idx, TNum(i), g)
		}
		switch typ {
		case "Circle":
			c.ob(isAt("tc", 0, f), rule, name, pos, "the farthest point of a circle's centre is %s, %s, number %s", short(p.x), short(p.y), short(idx))
		case "Segment":
			da, db := getV(s.Entry, sh, "ta").dot(n), getV(s.Entry, sh, "tb").dot(n)
			c.ob(isAt("ta", 0, And(f, CondLt(db, da, false))), rule, name+" a", pos, "where the first end is farther along, the answer is %s, %s, number %s", short(p.x), short(p.y), short(idx))
			c.ob(isAt("tb", 1, And(f, CondLt(da, db, false))), rule, name+" b", pos, "where the second end is farther along, the answer is %s, %s, number %s", short(p.x), short(p.y), short(idx))
			tie := And(f, CondEq(da, db))
			c.ob(isAt("ta", 0, tie) || isAt("tb", 1, tie), rule, name+" tie", pos, "where both ends are as far, the answer is neither")
		case "PolyShape":
			es := eventsOf(s.Events, "call", "PolySupportPointIndex")
			if !c.ob(len(es) == 1 && implies(f, es[0].Guard), rule, name+" search", pos, "the farthest vertex is searched for %d times", len(es)) {
				continue
			}
			e := es[0]
			planes, count := get(s.Entry, sh, "planes"), get(s.Entry, sh, "count")
			c.ob(proveEq(e.Args[0], count, f) && proveEq(e.Args[1], planes, f) && vec(e.Args[2]).eq(n, f), rule, name+" searched", pos, "it is searched for among %s of %s", short(e.Args[0]), short(e.Args[1]))
			w := c.planeAt(s.Entry, planes, e.Result, "v0")
			c.ob(p.eq(w, f), rule, name+" point", pos, "the farthest point is %s, %s", short(p.x), short(p.y))
			c.ob(proveEq(idx, e.Result, f), rule, name+" index", pos, "the farthest point is known as %s", short(idx))
		default:
			c.fail(rule, name+" type", pos, "%s is for shapes of type %s: not known how far they go", name, typ)
		}
	}
	c.part("PolySupportPointIndex", func() {
		name := "PolySupportPointIndex"
		s := c.sum(name, "gjk", Config{NoEnter: true})
		count, planes, n, pos := s.Params[0], s.Params[1], vec(s.Params[2]), s.Fn.Pos()
		why := "no loop goes over the vertices"
		for _, e := range s.Events {
			if e.Kind != "loop" || e.Loop.Back == nil {
				continue
			}
			// the first may already be the farthest so far when the loop begins
			idx, g, msg := countsTo(e, count, bddTrue)
			first := false
			if msg != "" {
				if idx, g, _ = countsFrom(e, 1, count, bddTrue); idx == nil {
					why = msg
					continue
				}
				first = true
			}
			d := c.planeAt(e.Loop.Iter, planes, idx, "v0").dot(n)
			why = "nothing remembers the farthest so far"
			for _, iv := range e.Loop.Phis {
				if iv.Var == nil || iv.Invariant || !isNumType(iv.Var.typ) || isFloat(iv.Var.typ) || !proveEq(s.Ret, iv.Var, typeFact(s)) || !proveEq(iv.Init, TNum(0), bddTrue) {
					continue
				}
				// the best so far, remembered or looked up
				bests := []*PhiInfo{nil}
				for _, ph := range e.Loop.Phis {
					if ph.Var != nil && isFloat(ph.Var.typ) && !ph.Invariant {
						bests = append(bests, ph)
					}
				}
				for _, b := range bests {
					var m *Term
					if b == nil {
						m = c.planeAt(e.Loop.Iter, planes, iv.Var, "v0").dot(n)
					} else {
						m = b.Var
						if (first || !proveEq(b.Init, TNeg(TMaxF()), bddTrue)) && !proveEq(b.Init, c.planeAt(e.Loop.Entry, planes, TNum(0), "v0").dot(n), bddTrue) {
							continue
						}
					}
					more, less := And(g, CondLt(m, d, false)), And(g, CondLt(d, m, false))
					ok := proveEq(iv.Back, idx, more) && proveEq(iv.Back, iv.Var, less)
					if b != nil {
						ok = ok && proveEq(b.Back, d, more) && proveEq(b.Back, b.Var, less)
						tie := And(g, CondEq(d, m))
						ok = ok && proveEq(b.Back, d, tie) && (proveEq(iv.Back, idx, tie) || proveEq(iv.Back, iv.Var, tie))
					}
					if ok {
						why = ""
					}
				}
			}
		}
		c.ob(why == "", rule, name, pos, "the vertex answered is not the one farthest along: %s", why)
	})
}

// planeAt: a vector of face i of a polygon.
func (c *Ctx) planeAt(m *Mem, planes, i *Term, fd string) V2 {
	return vec(fld(m.Load(elemAddr(planes, i), planes.typ.Underlying().(*types.Slice).Elem()), fd))
}

// countsTo: the loop visits 0..count-1 once each; what it is at, and what
// holds in an iteration.
func countsTo(e *Event, count *Term, f *BDD) (idx *Term, g *BDD, why string) {
	return countsFrom(e, 0, count, f)
}

// countsFrom: the same for first..count-1.
func countsFrom(e *Event, first int64, count *Term, f *BDD) (idx *Term, g *BDD, why string) {
	l := e.Loop
	why = "it counts nothing"
	for _, ph := range l.Phis {
		if ph.Invariant || ph.Var == nil || !isNumType(ph.Var.typ) || isFloat(ph.Var.typ) {
			continue
		}
		for _, off := range []int64{0, 1} {
			i := TAdd(ph.Var, TInt(off))
			if msg := visitsIndexed(e, TSub(i, TInt(first)), TSub(count, TInt(first)), f); msg != "" {
				why = msg
				continue
			}
			return i, AndAll(f, l.Assume, l.BackG, CondLe(TInt(first), i, true), CondLt(i, count, true)), ""
		}
	}
	return nil, nil, why
}

func (c *Ctx) shapePoint(rule string) {
	name := "Shape.Point"
	s := c.sum(name, "gjk", Config{NoEnter: true})
	sh, i, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	p, idx := vec(fld(s.Ret, "p")), noConv(fld(s.Ret, "index"))
	p = V2{noConv(p.x), noConv(p.y)}
	kind := func(t string) *BDD {
		f := c.isShape(s.Entry, sh, t)
		for _, o := range []string{"Circle", "Segment", "PolyShape"} {
			if o != t {
				f = And(f, Not(c.isShape(s.Entry, sh, o)))
			}
		}
		return And(f, noConvB(typeFact(s)))
	}
	o := c.asShape(s.Entry, sh, "Circle")
	f := kind("Circle")
	c.ob(sat(f) && p.eq(getV(s.Entry, o, "tc"), f), rule, name+" circle", pos, "the point of a circle is %s, %s", short(p.x), short(p.y))
	o = c.asShape(s.Entry, sh, "Segment")
	for k, fd := range []string{"ta", "tb"} {
		f = And(kind("Segment"), CondEq(i, TNum(int64(k))))
		c.ob(sat(f) && p.eq(getV(s.Entry, o, fd), f) && proveEq(idx, TNum(int64(k)), f), rule, name+" segment "+fd, pos, "point %d of a segment is %s, %s, number %s", k, short(p.x), short(p.y), short(idx))
	}
	o = c.asShape(s.Entry, sh, "PolyShape")
	planes, count := get(s.Entry, o, "planes"), get(s.Entry, o, "count")
	f = AndAll(kind("PolyShape"), CondLe(TNum(1), count, true), CondLe(TNum(0), i, true))
	in := And(f, CondLt(i, count, true))
	w := c.planeAt(s.Entry, planes, retype(i, count.typ), "v0")
	c.ob(sat(in) && p.eq(w, in) && proveEq(idx, i, in), rule, name+" polygon", pos, "vertex i of a polygon is %s, %s, number %s", short(p.x), short(p.y), short(idx))
	out := And(f, Not(CondLt(i, count, true)))
	ok := proveLE(TNum(0), idx, out) && proveLE(TAdd(idx, TNum(1)), count, out) && p.eq(c.planeAt(s.Entry, planes, retype(pick(idx, out), count.typ), "v0"), out)
	c.ob(sat(out) && ok, rule, name+" polygon changed", pos, "a vertex that is gone is replaced by %s, %s, number %s", short(p.x), short(p.y), short(idx))
}

// minkowskiIs: the point is made of the points a and b of the two shapes.
func (c *Ctx) minkowskiIs(rule, name string, pos token.Pos, m, a, b *Term, f *BDD) {
	pa, pb := vec(fld(a, "p")), vec(fld(b, "p"))
	ma, mb, d := vec(fld(m, "a")), vec(fld(m, "b")), vec(fld(m, "ab"))
	c.ob(ma.eq(pa, f), rule, name+" a", pos, "the point of the first shape is %s, %s", short(ma.x), short(ma.y))
	c.ob(mb.eq(pb, f), rule, name+" b", pos, "the point of the second shape is %s, %s", short(mb.x), short(mb.y))
	c.ob(d.eq(pb.sub(pa), f), rule, name+" difference", pos, "the difference is %s, %s", short(d.x), short(d.y))
	id := pick(fld(m, "collisionId"), f)
	bs, ok := bytesOf(id)
	ok = ok && bs[0].is(fld(b, "index"), 0, f) && bs[1].is(fld(a, "index"), 0, f) && bs[2].src == nil && bs[3].src == nil
	c.ob(ok, rule, name+" id", pos, "the pair of points is known as %s", short(id))
}

// pick drops the branches of a term that the facts rule out.
func pick(t *Term, f *BDD) *Term {
	for t.op == OIte {
		if implies(f, t.cond) {
			t = t.args[0]
		} else if implies(f, Not(t.cond)) {
			t = t.args[1]
		} else {
			break
		}
	}
	return t
}

func (c *Ctx) supportPoint(rule string) {
	name := "SupportContext.Support"
	s := c.sum(name, "gjk", Config{NoEnter: true, KeepOnUser: func(string) bool { return true }})
	ctx, n, pos := s.Params[0], vec(s.Params[1]), s.Fn.Pos()
	f := typeFact(s)
	var got [2]*Event
	for _, e := range s.Events {
		if e.Kind != "user" && e.Kind != "call" {
			continue
		}
		for k := range got {
			kk := fmt.Sprint(k + 1)
			if e.Callee == nil || !proveEq(e.Callee, get(s.Entry, ctx, "func"+kk), f) {
				continue
			}
			m := n
			if k == 0 {
				m = n.neg()
			}
			a := vec(e.Args[len(e.Args)-1])
			c.ob(got[k] == nil && implies(f, e.Guard), rule, name+" once "+kk, e.Instr.Pos(), "the farthest point of shape %d is asked for more than once, or not always", k+1)
			c.ob(proveEq(e.Args[len(e.Args)-2], get(s.Entry, ctx, "shape"+kk), f), rule, name+" shape "+kk, e.Instr.Pos(), "function %d is asked about %s", k+1, short(e.Args[len(e.Args)-2]))
			c.ob(a.eq(m, f), rule, name+" direction "+kk, e.Instr.Pos(), "the farthest point of shape %d is asked for along %s, %s", k+1, short(a.x), short(a.y))
			got[k] = e
		}
	}
	if !c.ob(got[0] != nil && got[1] != nil, rule, name+" both", pos, "not both shapes are asked for their farthest point") {
		return
	}
	c.minkowskiIs(rule, name, pos, s.Ret, got[0].Result, got[1].Result, f)
}

func (c *Ctx) closestPoints(rule string) {
	name := "MinkowskiPoint.ClosestPoints"
	s := c.sum(name, "gjk", Config{NoEnter: true})
	v0, v1, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	f := typeFact(s)
	A, B := vec(fld(v0, "ab")), vec(fld(v1, "ab"))
	t := c.apply("Vector.ClosestT", c.mkVec(A), c.mkVec(B))
	lerp := func(a, b V2) V2 { return vec(c.apply("Vector.LerpT", c.mkVec(a), c.mkVec(b), t)) }
	p := lerp(A, B)
	for k, fd := range []string{"a", "b"} {
		got := vec(fld(s.Ret, fd))
		c.ob(got.eq(lerp(vec(fld(v0, fd)), vec(fld(v1, fd))), f), rule, name+" point "+fd, pos, "the closest point of shape %d is %s, %s", k+1, short(got.x), short(got.y))
	}
	bs, ok := bytesOf(pick(fld(s.Ret, "collisionId"), f))
	i0, i1 := fld(v0, "collisionId"), fld(v1, "collisionId")
	ok = ok && bs[0].is(i1, 0, f) && bs[1].is(i1, 1, f) && bs[2].is(i0, 0, f) && bs[3].is(i0, 1, f)
	c.ob(ok, rule, name+" id", pos, "the edge is known as %s", short(fld(s.Ret, "collisionId")))
	delta := B.sub(A)
	n1 := c.unit(delta.rperp())
	d1 := n1.dot(p)
	n, d := vec(fld(s.Ret, "n")), fld(s.Ret, "d")
	edge := Not(sameV(A, B))
	inner := Or(CondLe(d1, TNum(0), false), And(CondLt(TNum(-1), t, false), CondLt(t, TNum(1), false)))
	g := AndAll(f, edge, inner)
	c.ob(sat(g) && n.eq(n1, g), rule, name+" normal of the edge", pos, "the normal of an edge is %s, %s", short(n.x), short(n.y))
	c.ob(proveEq(d, d1, g), rule, name+" distance of the edge", pos, "the distance of an edge is %s", short(d))
	L := p.len()
	corner := func(nm string, g *BDD) {
		far := And(g, notTiny(L))
		ok := false
		for _, eps := range []*Term{floatT(1e-15), TNum(0)} {
			ok = ok || n.eq(p.mul(TInv(TAdd(L, eps))), far)
		}
		ok = ok || n.eq(c.unit(p), far)
		c.ob(sat(far) && ok, rule, name+" normal of "+nm, pos, "the normal of %s is %s, %s", nm, short(n.x), short(n.y))
		c.ob(proveEq(d, L, far), rule, name+" distance of "+nm, pos, "the distance of %s is %s", nm, short(d))
	}
	corner("a corner", AndAll(f, edge, Not(inner)))
	corner("a single point", And(f, Not(edge)))
	at := AndAll(f, Not(edge), CondEq(L, TNum(0)))
	c.ob(proveEq(n.dot(n), TNum(1), at) && proveEq(d, TNum(0), at), rule, name+" touching", pos, "where the shapes just touch the normal is %s, %s at distance %s", short(n.x), short(n.y), short(d))
	// what it is made of
	c.part("parts", func() {
		form := func(name string, want func(P []*Term) *Term) {
			s := c.sum(name, "gjk", Config{NoEnter: true})
			w := want(s.Params)
			ok := false
			if isBool(s.Ret.typ) {
				ok = equivUnder(toBDD(s.Ret), toBDD(w), bddTrue)
			} else if typeName(s.Ret.typ) == "Vector" {
				ok = vec(s.Ret).eq(vec(w), bddTrue)
			} else {
				ok = proveEq(s.Ret, w, bddTrue)
			}
			c.ob(ok, rule, name, s.Fn.Pos(), "%s answers %s", name, short(s.Ret))
		}
		form("Vector.ClosestT", func(P []*Term) *Term {
			a, b := vec(P[0]), vec(P[1])
			d := b.sub(a)
			return TNeg(c.apply("Clamp", TMul(d.dot(a.add(b)), TInv(d.dot(d))), TNum(-1), TNum(1)))
		})
		form("Vector.LerpT", func(P []*Term) *Term {
			h := TMul(P[2], TRat2(1, 2))
			return c.mkVec(vec(P[0]).mul(TSub(TRat2(1, 2), h)).add(vec(P[1]).mul(TAdd(TRat2(1, 2), h))))
		})
		form("Vector.ClosestDist", func(P []*Term) *Term {
			q := vec(c.apply("Vector.LerpT", P[0], P[1], c.apply("Vector.ClosestT", P[0], P[1])))
			return q.dot(q)
		})
	})
}

func TRat2(a, b int64) *Term { return TScale(TNum(1), a, b) }

var gjkOpaque = []string{"GJKRecurse", "EPA", "EPARecurse", "SupportContext.Support", "MinkowskiPoint.ClosestPoints", "Shape.Point"}

func gjkCfg(enter string, more ...string) Config {
	set := map[string]bool{}
	for _, n := range more {
		set[n] = true
	}
	for _, n := range gjkOpaque {
		if n != enter {
			set[n] = true
		}
	}
	return Config{NoEnter: true,
		Opaque:     func(fn *ssa.Function) bool { return set[fname(fn)] },
		KeepOn:     func(fn *ssa.Function, class string) bool { return set[fname(fn)] },
		KeepOnUser: func(string) bool { return true },
	}
}

func (c *Ctx) gjkStart(rule string) {
	name := "GJK"
	s := c.sum(name, "gjk", gjkCfg(""))
	ctx, cache, pos := s.Params[0], s.Params[1], s.Fn.Pos()
	f := typeFact(s)
	rs := eventsOf(s.Events, "call", "GJKRecurse")
	if !c.ob(len(rs) == 1 && implies(f, rs[0].Guard), rule, name+" search", pos, "%d searches are started", len(rs)) {
		return
	}
	e := rs[0]
	c.sameCtx(rule, name+" search", e, e.Args[0], ctx, f)
	one, isOne := intOf(e.Args[3])
	c.ob(isOne && one >= 0 && one <= 2, rule, name+" count", e.Instr.Pos(), "the steps are counted from %s", short(e.Args[3]))
	c.ob(proveEq(s.Ret, e.Result, f), rule, name+" answer", pos, "the answer is %s", short(s.Ret))
	var stored *Term
	for _, st := range s.Events {
		if st.Kind == "store" && rootOf(st.Loc).op != OAlloc {
			c.ob(proveEq(st.Loc, cache, f), rule, name+" else", st.Instr.Pos(), "the search also changes %s", short(st.Loc))
			stored = st.Val
		}
	}
	idT := stripPtr(cache.typ)
	end := s.Mem.Load(cache, idT)
	c.ob(stored != nil && proveEq(end, fld(e.Result, "collisionId"), f), rule, name+" remembered", pos, "remembered as start of the next search is %s", short(end))
	id := s.Entry.Load(cache, idT)
	// from the points of last time
	warm, cold := And(f, Not(CondEq(id, TNum(0)))), And(f, CondEq(id, TNum(0)))
	pts := eventsOf(s.Events, "call", "Shape.Point")
	point := func(m *Term, side string, k int) *Term {
		sh := fld(ctx, "shape"+side)
		fd := map[string]string{"1": "a", "2": "b"}[side]
		for _, x := range pts {
			bs, ok := bytesOf(x.Args[1])
			if ok && bs[0].src != nil && bs[0].is(id, k, warm) && bs[1].src == nil && bs[2].src == nil && bs[3].src == nil &&
				implies(warm, x.Guard) && proveEq(x.Args[0], sh, warm) && vec(fld(m, fd)).eq(vec(fld(x.Result, "p")), warm) {
				return x.Result
			}
		}
		return nil
	}
	for k, m := range []*Term{e.Args[1], e.Args[2]} {
		nm := fmt.Sprintf("%s remembered point %d", name, k)
		a, b := point(m, "1", 3-2*k), point(m, "2", 2-2*k)
		if c.ob(a != nil && b != nil, rule, nm, e.Instr.Pos(), "point %d to start from is not the one remembered", k) {
			c.minkowskiIs(rule, nm, e.Instr.Pos(), m, a, b, warm)
		}
	}
	// from scratch
	var dirs []V2
	for k, m := range []*Term{e.Args[1], e.Args[2]} {
		nm := fmt.Sprintf("%s first point %d", name, k)
		var from *Event
		for _, x := range eventsOf(s.Events, "call", "SupportContext.Support") {
			if implies(cold, x.Guard) && proveEq(m, x.Result, cold) {
				from = x
			}
		}
		if !c.ob(from != nil, rule, nm, e.Instr.Pos(), "point %d to start from is no farthest point", k) {
			return
		}
		c.sameCtx(rule, nm, from, s.heldAt(from.Args[0], ctx, from), ctx, cold)
		dirs = append(dirs, vec(from.Args[1]))
	}
	c.ob(dirs[0].eq(dirs[1].neg(), cold), rule, name+" opposite", pos, "the first two points are not on opposite sides")
	center := func(k string) V2 {
		b := get(s.Entry, fld(ctx, "shape"+k), "bb")
		h := func(x, y string) *Term { return TScale(TAdd(fld(b, x), fld(b, y)), 1, 2) }
		return V2{h("L", "R"), h("B", "T")}
	}
	d := center("1").sub(center("2"))
	diff := And(cold, Not(sameV(center("1"), center("2"))))
	same := And(cold, sameV(center("1"), center("2")))
	ok := false
	for _, w := range []V2{d, d.neg(), d.perp(), d.perp().neg()} {
		ok = ok || dirs[0].eq(w, diff)
	}
	c.ob(ok, rule, name+" axis", pos, "the search starts along %s, %s", short(dirs[0].x), short(dirs[0].y))
	n2 := dirs[0].dot(dirs[0])
	c.ob(sat(same) && proveLE(TRat2(1, 1000), n2, same), rule, name+" axis of one centre", pos, "where the centres of the shapes coincide there is no direction to start along: %s, %s", short(dirs[0].x), short(dirs[0].y))
	// the search itself changes nothing
	fn := s.Fn
	eff := c.p.eff.m[fn]
	for k := range eff.TW {
		if k != "*uint32" && !strings.HasPrefix(k, "MinkowskiPoint.") && k != "[]MinkowskiPoint" && k != "local" && !strings.HasPrefix(k, "[]interface") && !strings.HasPrefix(k, "[]any") {
			c.fail(rule, name+" writes "+k, pos, "searching for the closest points may change %s", k)
		}
	}
	c.ob(true, rule, name+" writes", pos, "")
}

func stripPtr(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// heldAt: the context a method is called on.
func (s *Summary) heldAt(recv, ctx *Term, e *Event) *Term {
	if isPtr(recv) {
		return e.Mem.Load(recv, ctx.typ)
	}
	return recv
}

func (c *Ctx) sameCtx(rule, name string, e *Event, got, ctx *Term, f *BDD) {
	for _, fd := range []string{"shape1", "shape2", "func1", "func2"} {
		c.ob(proveEq(fld(got, fd), fld(ctx, fd), f), rule, name+" "+fd, e.Instr.Pos(), "%s of the search becomes %s", fd, short(fld(got, fd)))
	}
}

// step is the search at some point: the values it has and how it goes on.
type tail struct {
	cur  []*Term
	next []*tailStep
	evs  []*Event
	f    *BDD
	stop *BDD // when it ends
	ret  *Term
	ctx  *Term
}

type tailStep struct {
	g    *BDD
	args []*Term
	e    *Event
}

// tailForm reads a search that calls itself last, or that goes round a loop.
func (c *Ctx) tailForm(rule, name string, s *Summary) *tail {
	t := &tail{cur: s.Params, evs: s.Events, f: typeFact(s), ret: s.Ret, stop: bddTrue}
	for _, e := range eventsOf(s.Events, "call", name) {
		if !sat(And(t.f, e.Guard)) {
			continue
		}
		t.next = append(t.next, &tailStep{g: e.Guard, args: e.Args, e: e})
		t.stop = And(t.stop, Not(e.Guard))
		c.ob(proveEq(s.Ret, e.Result, And(t.f, e.Guard)), rule, name+" passes on", e.Instr.Pos(), "what the next step answers is not the answer")
	}
	if len(t.next) > 0 {
		return t
	}
	for _, e := range s.Events {
		if e.Kind != "loop" || e.Loop.Back == nil || !implies(t.f, e.Guard) {
			continue
		}
		l := e.Loop
		cur, back := make([]*Term, len(s.Params)), make([]*Term, len(s.Params))
		found := 0
		for k, P := range s.Params {
			for _, ph := range l.Phis {
				if ph.Init == P && ph.Var != nil {
					cur[k], back[k] = ph.Var, ph.Back
				}
			}
			if cur[k] == nil {
				seen := map[*Term]bool{}
				for _, h := range l.HavocL {
					r := rootOf(h)
					if seen[r] || r.op != OAlloc || !types.Identical(stripPtr(r.typ), P.typ) {
						continue
					}
					seen[r] = true
					if proveEq(l.Entry.Load(r, P.typ), P, bddTrue) {
						cur[k], back[k] = l.Iter.Load(r, P.typ), l.Back.Load(r, P.typ)
					}
				}
			}
			if cur[k] == nil {
				cur[k], back[k] = P, P
			} else {
				found++
			}
		}
		if found == 0 {
			continue
		}
		t.cur, t.evs = cur, append(append([]*Event(nil), l.Events...), s.Events...)
		t.f = s.G
		t.next = []*tailStep{{g: And(l.Assume, l.BackG), args: back, e: e}}
		t.stop = s.Assume
		return t
	}
	return t
}

// endsWith: under g the answer is that of name for the arguments.
func (t *tail) endsWith(name string, g *BDD, args ...*Term) bool {
	g = AndAll(t.f, t.stop, g)
	for _, e := range eventsOf(t.evs, "call", name) {
		if !implies(g, e.Guard) || !proveEq(t.ret, e.Result, g) {
			continue
		}
		ok := true
		for k, a := range args {
			ok = ok && (a == nil || proveEq(e.Args[k], a, g))
		}
		if ok {
			return true
		}
	}
	return false
}

// goesOn: under g the search goes on, and with these values.
func (t *tail) goesOn(g *BDD, args ...*Term) (always, right bool) {
	g = And(t.f, g)
	right = true
	any := bddFalse
	for _, n := range t.next {
		x := And(g, n.g)
		if !sat(x) {
			continue
		}
		any = Or(any, n.g)
		for k, a := range args {
			if a != nil {
				right = right && proveEq(n.args[k], a, x)
			}
		}
	}
	return sat(g) && never(And(g, Not(any))), right
}

func (t *tail) endsOnly(g *BDD) bool {
	g = And(t.f, g)
	for _, n := range t.next {
		if !never(And(g, n.g)) {
			return false
		}
	}
	return sat(g)
}

func cross0(a, b *Term) *Term { return vec(fld(a, "ab")).cross(vec(fld(b, "ab"))) }

// gjkForm: a step of the search, with the origin behind the edge or not.
func (c *Ctx) gjkForm(rule string, back bool, closed []string) (t *tail, s *Summary, early, late *BDD) {
	name := "GJKRecurse"
	cfg := gjkCfg("", closed...) // its own calls stay calls
	behind := func(p []*Term) *BDD {
		g := CondLt(cross0(p[1], p[2]), TNum(0), false)
		if !back {
			g = Not(g)
		}
		return g
	}
	cfg.Given = behind
	s = c.sum(name, fmt.Sprint("gjk", back, len(closed)), cfg)
	t = c.tailForm(rule, name, s)
	if len(t.next) > 0 && t.next[0].e.Kind == "loop" {
		// the case is one of the first step only
		cfg.Given = nil
		s = c.sum(name, fmt.Sprint("gjk", len(closed)), cfg)
		t = c.tailForm(rule, name, s)
	}
	pos := s.Fn.Pos()
	if !c.ob(len(t.next) > 0, rule, name+" form", pos, "the search neither calls itself nor goes round a loop") {
		panic(abortCheck{})
	}
	t.f = And(t.f, behind(t.cur))
	v0, v1, k := t.cur[1], t.cur[2], t.cur[3]
	early = And(CondLe(TNum(1), k, true), CondLe(k, TNum(10), true))
	late = CondLt(TNum(1000), k, true)
	if back {
		name += " back"
	}
	c.ob(t.endsOnly(late), rule, name+" ends", pos, "the search does not end after a thousand steps")
	c.ob(t.endsWith("MinkowskiPoint.ClosestPoints", late, v0, v1) || back && t.endsWith("MinkowskiPoint.ClosestPoints", late, v1, v0), rule, name+" gives up", pos, "a search that takes too long does not answer with the edge it has")
	for i, n := range t.next {
		if n.args[0] != nil {
			c.sameCtx(rule, fmt.Sprintf("%s step %d", name, i), n.e, n.args[0], s.Params[0], And(t.f, n.g))
		}
	}
	return
}

func (c *Ctx) gjkTurn(rule string) {
	name := "GJKRecurse"
	t, s, early, _ := c.gjkForm(rule, true, []string{"Vector.ClosestT", "Vector.LerpT", "Vector.ClosestDist"})
	pos := s.Fn.Pos()
	v0, v1, k := t.cur[1], t.cur[2], t.cur[3]
	always, right := t.goesOn(early, nil, v1, v0)
	c.ob(always && right, rule, name+" turned", pos, "an edge with the origin behind it is not turned round")
	right = true
	for _, n := range t.next {
		x := AndAll(t.f, n.g, early)
		right = right && (!sat(x) || proveEq(n.args[3], k, x) || proveEq(n.args[3], TAdd(k, TNum(1)), x))
	}
	c.ob(right, rule, name+" turned count", pos, "turning the edge round counts as many steps")
}

func (c *Ctx) gjkStep(rule string, back bool, closed []string) {
	name := "GJKRecurse"
	t, s, early, _ := c.gjkForm(rule, back, closed)
	pos := s.Fn.Pos()
	v0, v1, k := t.cur[1], t.cur[2], t.cur[3]
	if back {
		name += " back"
		v0, v1 = v1, v0
	}
	A, B := vec(fld(v0, "ab")), vec(fld(v1, "ab"))
	g := early
	var sup *Event
	cnt := 0
	for _, e := range eventsOf(t.evs, "call", "SupportContext.Support") {
		if sat(AndAll(t.f, e.Guard, g)) {
			sup = e
			cnt++
		}
	}
	if !c.ob(cnt == 1 && implies(And(t.f, g), sup.Guard), rule, name+" next point", pos, "the next point is asked for %d times", cnt) {
		return
	}
	c.sameCtx(rule, name+" next point", sup, s.heldAt(sup.Args[0], s.Params[0], sup), s.Params[0], And(t.f, g))
	// val is what a function of vectors answers: as called there, or its formula
	val := func(name string, g *BDD, args ...*Term) *Term {
		for _, e := range eventsOf(t.evs, "call", name) {
			ok := never(AndAll(t.f, g, Not(e.Guard)))
			for i, a := range args {
				if typeName(a.typ) == "Vector" {
					ok = ok && vec(e.Args[i]).eq(vec(a), And(t.f, g))
				} else {
					ok = ok && proveEq(e.Args[i], a, And(t.f, g))
				}
			}
			if ok {
				return e.Result
			}
		}
		return c.apply(name, args...)
	}
	T := val("Vector.ClosestT", g, c.mkVec(A), c.mkVec(B))
	mid := And(CondLt(TNum(-1), T, false), CondLt(T, TNum(1), false))
	n := vec(sup.Args[1])
	c.ob(n.eq(B.sub(A).perp(), AndAll(t.f, g, mid)), rule, name+" towards the origin", sup.Instr.Pos(), "from the inside of an edge the search goes along %s, %s", short(n.x), short(n.y))
	cl := vec(val("Vector.LerpT", And(g, Not(mid)), c.mkVec(A), c.mkVec(B), T)).neg()
	c.ob(n.eq(cl, AndAll(t.f, g, Not(mid))), rule, name+" from an end", sup.Instr.Pos(), "from the end of an edge the search goes along %s, %s", short(n.x), short(n.y))
	p := sup.Result
	P := vec(fld(p, "ab"))
	// the origin in the triangle, apart from its sides
	c1, c2 := P.cross(A), B.cross(P)
	off := And(Not(CondEq(c1, TNum(0))), Not(CondEq(c2, TNum(0))))
	inside := And(CondLt(TNum(0), c1, false), CondLt(TNum(0), c2, false))
	in := AndAll(g, off, inside)
	c.ob(t.endsOnly(in) && t.endsWith("EPA", in, nil, v0, p, v1), rule, name+" overlap", pos, "when the origin is inside the triangle, the depth is not searched for from the triangle")
	for _, e := range eventsOf(t.evs, "call", "EPA") {
		c.sameCtx(rule, name+" overlap", e, e.Args[0], s.Params[0], And(t.f, e.Guard))
	}
	rest := AndAll(g, off, Not(inside))
	reach := CondLe(P.dot(n), TIte(CondLt(A.dot(n), B.dot(n), false), B.dot(n), A.dot(n)), false)
	found := And(rest, reach)
	c.ob(t.endsOnly(found) && t.endsWith("MinkowskiPoint.ClosestPoints", found, v0, v1), rule, name+" found", pos, "when no point is farther along, the search does not end with the edge it has")
	d0 := val("Vector.ClosestDist", And(rest, Not(reach)), c.mkVec(A), c.mkVec(P))
	d1 := val("Vector.ClosestDist", And(rest, Not(reach)), c.mkVec(P), c.mkVec(B))
	for i, w := range []struct {
		g *BDD
		a []*Term
	}{{CondLt(d0, d1, false), []*Term{nil, v0, p}}, {CondLt(d1, d0, false), []*Term{nil, p, v1}}} {
		x := AndAll(rest, Not(reach), w.g)
		always, right := t.goesOn(x, w.a...)
		c.ob(always, rule, fmt.Sprintf("%s goes on %d", name, i), pos, "the search ends although a nearer edge is known")
		c.ob(right, rule, fmt.Sprintf("%s nearer edge %d", name, i), pos, "the search does not go on with the nearer of the two new edges")
	}
	x := AndAll(rest, Not(reach))
	right := true
	for _, n := range t.next {
		y := AndAll(t.f, n.g, x)
		right = right && (!sat(y) || proveEq(n.args[3], TAdd(k, TNum(1)), y))
	}
	c.ob(right, rule, name+" count", pos, "a step is not counted")
}

func (c *Ctx) epaStart(rule string) {
	name := "EPA"
	s := c.sum(name, "gjk", gjkCfg("EPA"))
	pos := s.Fn.Pos()
	f := typeFact(s)
	es := eventsOf(s.Events, "call", "EPARecurse")
	if !c.ob(len(es) == 1 && implies(f, es[0].Guard), rule, name+" search", pos, "%d searches are started", len(es)) {
		return
	}
	e := es[0]
	c.sameCtx(rule, name, e, e.Args[0], s.Params[0], f)
	c.ob(proveEq(e.Args[1], TNum(3), f), rule, name+" corners", pos, "the first hull has %s corners", short(e.Args[1]))
	hull := e.Args[2]
	et := hull.typ.Underlying().(*types.Slice).Elem()
	for k := int64(0); k < 3; k++ {
		h := e.Mem.Load(elemAddr(hull, TInt(k)), et)
		c.ob(sameFields(h, s.Params[k+1], f), rule, fmt.Sprintf("%s corner %d", name, k), pos, "corner %d of the first hull is %s", k, short(h))
	}
	c.ob(proveLE(TNum(3), TLen(hull), f), rule, name+" room", pos, "the hull has room for %s", short(TLen(hull)))
	one, isOne := intOf(e.Args[3])
	c.ob(isOne && one >= 0 && one <= 2, rule, name+" count", pos, "the steps are counted from %s", short(e.Args[3]))
	c.ob(proveEq(s.Ret, e.Result, f), rule, name+" answer", pos, "the answer is %s", short(s.Ret))
}

// sameFields: two Minkowski points are the same.
func sameFields(a, b *Term, f *BDD) bool {
	for _, fd := range []string{"a", "b", "ab"} {
		if !vec(fld(a, fd)).eq(vec(fld(b, fd)), f) {
			return false
		}
	}
	return proveEq(fld(a, "collisionId"), fld(b, "collisionId"), f)
}

func (c *Ctx) epaStep(rule string) {
	name := "EPARecurse"
	s := c.sum(name, "epa", gjkCfg("", "Vector.ClosestT"))
	t := c.tailForm(rule, name, s)
	pos := s.Fn.Pos()
	if !c.ob(len(t.next) > 0, rule, name+" form", pos, "the search neither calls itself nor goes round a loop") {
		return
	}
	count, hull, k := t.cur[1], t.cur[2], t.cur[3]
	et := hull.typ.Underlying().(*types.Slice).Elem()
	early := AndAll(CondLe(TNum(1), k, true), CondLe(k, TNum(10), true), CondLe(TNum(3), count, true), CondLe(count, TNum(1000), true), CondLe(count, TLen(hull), true))
	late := CondLt(TNum(1000), k, true)
	f := t.f
	pt := func(m *Mem, h, i *Term) *Term { return m.Load(elemAddr(h, i), et) }
	ab := func(m *Mem, h, i *Term) V2 { return vec(fld(pt(m, h, i), "ab")) }
	one := TInt(1)
	modT := func(x *Term) *Term { return TApp("mod", x.typ, x, count) }
	next := func(i *Term) []*Term {
		i1 := TAdd(i, one)
		return []*Term{modT(i1), TIte(CondLt(i1, count, true), i1, TInt(0))}
	}
	// the nearest edge
	var nearest *Term
	why := "no loop goes over the edges of the hull"
	for _, e := range t.evs {
		if e.Kind != "loop" || e.Loop.Back == nil || nearest != nil {
			continue
		}
		l := e.Loop
		idx, g, msg := countsTo(e, count, And(s.G, early))
		if msg != "" {
			if why[0] == 'n' {
				why = msg
			}
			continue
		}
		type edge struct{ from, to *Term }
		var edges []edge
		last, p1 := TSub(count, one), TSub(idx, one)
		for _, x := range next(idx) {
			edges = append(edges, edge{idx, x})
		}
		for _, x := range []*Term{modT(TAdd(p1, count)), TIte(CondLt(TInt(0), idx, true), p1, last)} {
			edges = append(edges, edge{x, idx})
		}
		for _, ph := range l.Phis {
			if ph.Var != nil && !ph.Invariant && isNumType(ph.Var.typ) && !isFloat(ph.Var.typ) && ph.Var != idx &&
				proveEq(ph.Back, idx, g) && proveEq(ph.Init, last, And(s.G, early)) {
				edges = append(edges, edge{ph.Var, idx})
			}
		}
		for _, d := range l.Phis {
			if d.Var == nil || d.Invariant || !isFloat(d.Var.typ) {
				continue
			}
			why = "the nearest edge is not remembered with its distance"
			if !proveEq(d.Init, TMaxF(), bddTrue) {
				continue
			}
			for _, ed := range edges {
				dist := c.applyCfg("Vector.ClosestDist", gjkCfg("", "Vector.ClosestT"), c.mkVec(ab(l.Iter, hull, ed.from)), c.mkVec(ab(l.Iter, hull, ed.to)))
				less, more := And(g, CondLt(dist, d.Var, false)), And(g, CondLt(d.Var, dist, false))
				if !proveEq(d.Back, dist, less) || !proveEq(d.Back, d.Var, more) {
					continue
				}
				for _, m := range l.Phis {
					if m.Var == nil || m.Invariant || !isNumType(m.Var.typ) || isFloat(m.Var.typ) {
						continue
					}
					if proveEq(m.Back, ed.from, less) && proveEq(m.Back, m.Var, more) {
						tie := And(g, CondEq(dist, d.Var))
						if proveEq(m.Back, ed.from, tie) || proveEq(m.Back, m.Var, tie) {
							nearest, why = m.Var, ""
						}
					}
				}
			}
		}
	}
	if !c.ob(nearest != nil, rule, name+" nearest edge", pos, "the edge nearest to the origin is not found: %s", why) {
		return
	}
	early = AndAll(early, CondLe(TInt(0), nearest, true), CondLt(nearest, count, true))
	late = AndAll(late, CondLe(TInt(0), nearest, true), CondLt(nearest, count, true), CondLe(TNum(3), count, true))
	// the next point
	sups := eventsOf(t.evs, "call", "SupportContext.Support")
	if !c.ob(len(sups) == 1 && implies(And(f, early), sups[0].Guard), rule, name+" next point", pos, "the next point is asked for %d times", len(sups)) {
		return
	}
	sup := sups[0]
	c.sameCtx(rule, name+" next point", sup, s.heldAt(sup.Args[0], s.Params[0], sup), s.Params[0], And(f, early))
	var v0, v1 *Term
	v0 = pt(sup.Mem, hull, nearest)
	n := vec(sup.Args[1])
	for _, x := range next(nearest) {
		w := pt(sup.Mem, hull, x)
		if n.eq(vec(fld(w, "ab")).sub(vec(fld(v0, "ab"))).perp(), And(f, early)) {
			v1 = w
		}
	}
	if !c.ob(v1 != nil, rule, name+" outwards", sup.Instr.Pos(), "the next point is not looked for straight out from the nearest edge") {
		return
	}
	p := sup.Result
	A, B, P := vec(fld(v0, "ab")), vec(fld(v1, "ab")), vec(fld(p, "ab"))
	id := fld(p, "collisionId")
	dup := Or(CondEq(id, fld(v0, "collisionId")), CondEq(id, fld(v1, "collisionId")))
	// beyond the edge, seen from the origin
	area := func(a, b, c V2) *Term { // twice the area a, b, c, by PointGreater
		return TSub(TMul(TSub(b.y, a.y), TSub(TAdd(a.x, b.x), TMul(TNum(2), c.x))), TMul(TSub(b.x, a.x), TSub(TAdd(a.y, b.y), TMul(TNum(2), c.y))))
	}
	side := area(A, B, P)
	grow := And(Not(dup), CondLt(TNum(0), side, false))
	done := Or(dup, CondLt(side, TNum(0), false))
	c.ob(t.endsOnly(And(early, done)) && t.endsWith("MinkowskiPoint.ClosestPoints", And(early, done), v0, v1), rule, name+" found", pos, "where no point lies beyond the nearest edge, the answer is not that edge")
	c.ob(t.endsOnly(And(late, bddTrue)) && t.endsWith("MinkowskiPoint.ClosestPoints", late, v0, v1), rule, name+" ends", pos, "the search does not end after a thousand steps")
	x := And(early, grow)
	always, _ := t.goesOn(x)
	c.ob(always, rule, name+" goes on", pos, "a point beyond the nearest edge is not made a corner of the hull")
	// the hull with the point
	for i, nx := range t.next {
		gx := AndAll(f, x, nx.g)
		if !sat(gx) {
			continue
		}
		nm := fmt.Sprintf("%s step %d", name, i)
		c.sameCtx(rule, nm, nx.e, nx.args[0], s.Params[0], gx)
		c.ob(proveEq(nx.args[3], TAdd(k, TNum(1)), gx), rule, nm+" count", nx.e.Instr.Pos(), "the step is counted as %s", short(nx.args[3]))
		c.newHull(rule, nm, t, nx, hull, count, nearest, p, And(s.G, x), gx, area)
	}
}

// newHull: the hull the search goes on with is the new point and, from the
// end of the nearest edge round to its start, the corners that stay convex.
func (c *Ctx) newHull(rule, name string, t *tail, nx *tailStep, hull, count, nearest, p *Term, before, f *BDD, area func(a, b, c V2) *Term) {
	h2, n2 := nx.args[2], nx.args[1]
	et := hull.typ.Underlying().(*types.Slice).Elem()
	pos := nx.e.Instr.Pos()
	one := TInt(1)
	at := func(m *Mem, h, i *Term) *Term { return m.Load(elemAddr(h, i), et) }
	why := "no loop goes over the corners"
	for _, e := range t.evs {
		if e.Kind != "loop" || e.Loop.Back == nil || !implies(f, e.Guard) {
			continue
		}
		l := e.Loop
		idx, g, msg := countsTo(e, count, before)
		if msg != "" {
			continue
		}
		for _, cv := range l.Phis {
			if cv.Var == nil || cv.Invariant || !isNumType(cv.Var.typ) || isFloat(cv.Var.typ) || !proveEq(n2, cv.Var, f) {
				continue
			}
			why = ""
			n := cv.Var
			c.ob(proveEq(cv.Init, one, before), rule, name+" first", pos, "the new hull starts with %s corners", short(cv.Init))
			c.ob(sameFields(at(l.Entry, h2, TInt(0)), p, before), rule, name+" new corner", pos, "the new hull does not start with the new point")
			c.ob(proveLE(TAdd(count, one), TLen(h2), before), rule, name+" room", pos, "the new hull has room for %s corners only", short(TLen(h2)))
			// invariant: 1 <= n <= idx+1
			g = AndAll(g, CondLe(one, n, true), CondLe(n, TAdd(idx, one), true))
			q := TApp("mod", count.typ, TAdd(TAdd(nearest, one), idx), count)
			lastC := CondEq(TAdd(idx, one), count)
			old := vec(fld(at(l.Iter, h2, TSub(n, one)), "ab"))
			cur := at(l.Iter, hull, q)
			q1 := TApp("mod", count.typ, TAdd(q, one), count)
			P := vec(fld(p, "ab"))
			q2 := TApp("mod", count.typ, TAdd(TAdd(nearest, TInt(2)), idx), count)
			decide := func(q1 *Term) func() {
				return func() {
					v := vec(fld(at(l.Iter, hull, q1), "ab"))
					next := V2{TIte(lastC, P.x, v.x), TIte(lastC, P.y, v.y)}
					convex := area(old, next, vec(fld(cur, "ab")))
					keep, drop := And(g, CondLt(TNum(0), convex, false)), And(g, CondLt(convex, TNum(0), false))
					c.ob(sat(keep) && proveEq(cv.Back, TAdd(n, one), keep), rule, name+" kept", pos, "a corner that keeps the hull convex is not counted")
					c.ob(sameFields(at(l.Back, h2, n), cur, keep), rule, name+" corner", pos, "a corner of the new hull is %s, not the next one of the old hull", short(at(l.Back, h2, n)))
					c.ob(sat(drop) && proveEq(cv.Back, n, drop), rule, name+" dropped", pos, "a corner inside the new hull is kept")
				}
			}
			c.oneOf(decide(q1), decide(q2))
			c.ob(sameFields(at(l.Back, h2, TSub(n, one)), at(l.Iter, h2, TSub(n, one)), g), rule, name+" before", pos, "a corner found before is changed")
			for _, st := range l.Events {
				if st.Kind == "store" && rootOf(st.Loc).op != OAlloc && !containsTerm(st.Loc, rootOf(h2)) {
					c.fail(rule, name+" else", st.Instr.Pos(), "building the hull changes %s", short(st.Loc))
				}
			}
		}
	}
	c.ob(why == "", rule, name+" hull", pos, "the hull with the new point is not built: %s", why)
}

func init() {
	register(&Check{ID: "C26", Run: checkC26, Explanation: "the search for the closest points of two shapes"})
}
