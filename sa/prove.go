package main

import (
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
)

// ---------------------------------------------------------------- rewriting

// rewrite rebuilds t bottom-up through the canonicalising constructors. f may
// replace a node (before its children are looked at) by returning non-nil.
func rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[int]*Term{}
	bm := map[int]*BDD{}
	var rec func(t *Term) *Term
	var recB func(b *BDD) *BDD
	recB = func(b *BDD) *BDD {
		if b.v == 1<<30 {
			return b
		}
		if r := bm[b.id]; r != nil {
			return r
		}
		a := rec(bddVars[b.v])
		r := bddITE(toBDD(a), recB(b.hi), recB(b.lo))
		bm[b.id] = r
		return r
	}
	rec = func(t *Term) *Term {
		if r := memo[t.id]; r != nil {
			return r
		}
		if r := f(t); r != nil {
			memo[t.id] = r
			return r
		}
		var r *Term
		switch t.op {
		case OPoly:
			changed := false
			nm := map[*Term]*Term{}
			for _, tm := range t.poly.ts {
				for _, fc := range tm.m {
					if _, ok := nm[fc.a]; !ok {
						n := rec(fc.a)
						nm[fc.a] = n
						if n != fc.a {
							changed = true
						}
					}
				}
			}
			if !changed {
				r = t
				break
			}
			res := &Poly{}
			for _, tm := range t.poly.ts {
				q := &Poly{ts: []pterm{{nil, tm.c}}}
				for _, fc := range tm.m {
					b := nm[fc.a]
					e := fc.e
					if e < 0 {
						b = TInv(b)
						e = -e
					}
					for i := 0; i < e; i++ {
						q = polyMul(q, toPoly(b))
					}
				}
				res = polyAdd(res, q, 1)
			}
			r = fromPoly(res, t.typ)
		case OBool:
			r = TBool(recB(t.cond))
		case OIte:
			r = TIte(recB(t.cond), rec(t.args[0]), rec(t.args[1]))
		case OApp, OStruct, OField, OIndex, OIface, OLoad, OClosure:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if !ch {
				r = t
				break
			}
			r = rebuild(t, args)
		default:
			r = t
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OApp:
		switch t.name {
		case "pos":
			return TPos(args[0])
		case "grp":
			return args[0]
		case "lt0":
			return TBool(condNeg(args[0], false))
		case "ilt0":
			return TBool(condNeg(args[0], true))
		case "eq0":
			return TBool(condEq0(args[0], false))
		case "eq":
			return TBool(CondEq(args[0], args[1]))
		}
		return TApp(t.name, t.typ, args...)
	case OStruct:
		return TStruct(t.typ, args)
	case OLoad:
		return loadAtom(args[0], t.typ, t.ep)
	case OClosure:
		return mkClosure(t, args)
	case OField:
		return TFieldAddr(args[0], t.name, t.typ)
	case OIndex:
		return TIndexAddr(args[0], args[1], t.typ)
	}
	return rawTerm(t.op, t.typ, t.name, args...)
}

func mkClosure(t *Term, args []*Term) *Term {
	k := "C|" + strconv.Itoa(int(fnID(t.fn))) + argKey(args)
	return intern(k, func() *Term { return &Term{op: OClosure, typ: t.typ, fn: t.fn, args: args, name: t.name} })
}

// TFieldAddr/TIndexAddr push addresses through gates.
func TFieldAddr(base *Term, name string, typ types.Type) *Term {
	if base.op == OIte {
		return TIte(base.cond, TFieldAddr(base.args[0], name, typ), TFieldAddr(base.args[1], name, typ))
	}
	return rawTerm(OField, typ, name, base)
}

func TIndexAddr(base, idx *Term, typ types.Type) *Term {
	switch {
	case base.op == OIte:
		return TIte(base.cond, TIndexAddr(base.args[0], idx, typ), TIndexAddr(base.args[1], idx, typ))
	case base.op == OApp && base.name == "slice":
		return TIndexAddr(base.args[0], TAdd(base.args[1], idx), typ)
	case idx.op == OIte:
		return TIte(idx.cond, TIndexAddr(base, idx.args[0], typ), TIndexAddr(base, idx.args[1], typ))
	}
	return rawTerm(OIndex, typ, "", base, idx)
}

// subst replaces whole subterms.
func subst(t *Term, m map[*Term]*Term) *Term {
	return rewrite(t, func(x *Term) *Term { return m[x] })
}

func substB(b *BDD, m map[*Term]*Term) *BDD {
	return toBDD(subst(TBool(b), m))
}

// assignVar simplifies t knowing that condition variable v has value val.
func assignVar(t *Term, v int, val bool) *Term {
	va := bddVars[v]
	return rewrite(t, func(x *Term) *Term {
		if x == va {
			if val {
				return TBool(bddTrue)
			}
			return TBool(bddFalse)
		}
		if x.op == OApp && x.name == "pos" && va.op == OApp && (va.name == "lt0" || va.name == "ilt0") {
			if x.args[0] == va.args[0] {
				if val {
					return TRat(new(big.Rat), x.typ)
				}
				return x.args[0]
			}
		}
		return nil
	})
}

// walkTerm visits every subterm (including those in conditions) once.
func walkTerm(t *Term, f func(*Term)) {
	seen := map[int]bool{}
	seenB := map[int]bool{}
	var rec func(t *Term)
	var recB func(b *BDD)
	recB = func(b *BDD) {
		if b == nil || b.v == 1<<30 || seenB[b.id] {
			return
		}
		seenB[b.id] = true
		rec(bddVars[b.v])
		recB(b.hi)
		recB(b.lo)
	}
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		if t.poly != nil {
			for _, tm := range t.poly.ts {
				for _, fc := range tm.m {
					rec(fc.a)
				}
			}
		}
		if t.cond != nil {
			recB(t.cond)
		}
	}
	rec(t)
}

func walkB(b *BDD, f func(*Term)) { walkTerm(TBool(b), f) }

func contains(t *Term, p func(*Term) bool) bool {
	found := false
	walkTerm(t, func(x *Term) {
		if !found && p(x) {
			found = true
		}
	})
	return found
}

func containsTerm(t, sub *Term) bool { return contains(t, func(x *Term) bool { return x == sub }) }

// ---------------------------------------------------------------- theory

// theory gives the axioms that relate the atoms of f: trichotomy of signs,
// ordering of constants, equality of references, exclusive dynamic types.
var theoryMemo = map[string][]*BDD{}

func theory(fs ...*BDD) (ax_ []*BDD) {
	sup := map[int]bool{}
	for _, f := range fs {
		bddSupport(f, sup)
	}
	type ent struct {
		v    int
		kind string
		c    *big.Rat
	}
	groups := map[string][]ent{}
	type eqv struct {
		v    int
		a, b *Term
	}
	var eqs []eqv
	types_ := map[int][]int{}
	var ax []*BDD
	axSeen := map[*BDD]bool{}
	var vs []int
	for v := range sup {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	var kb []byte
	for _, v := range vs {
		kb = strconv.AppendInt(kb, int64(v), 36)
		kb = append(kb, ' ')
	}
	if ax, ok := theoryMemo[string(kb)]; ok {
		return ax
	}
	defer func() { theoryMemo[string(kb)] = ax_ }()
	for _, v := range vs {
		t := bddVars[v]
		if t.op != OApp {
			continue
		}
		switch t.name {
		case "lt0", "eq0", "ilt0":
			q, c := splitConst(toPoly(t.args[0]))
			lc := new(big.Rat).Abs(leadCoef(q))
			if lc.Sign() == 0 {
				continue
			}
			il := new(big.Rat).Inv(lc)
			if t.name == "ilt0" {
				il = big.NewRat(1, 1)
			}
			q = polyScale(q, il)
			c = new(big.Rat).Mul(c, il)
			k := q.key()
			if t.name == "ilt0" {
				k = "i" + k
			}
			groups[k] = append(groups[k], ent{v, t.name, c})
		case "eq":
			eqs = append(eqs, eqv{v, t.args[0], t.args[1]})
		case "typeis":
			types_[t.args[0].id] = append(types_[t.args[0].id], v)
		}
	}
	V := func(v int) *BDD { return bddNode(v, bddTrue, bddFalse) }
	imp := func(a, b *BDD) {
		if c := Or(Not(a), b); c != bddTrue && !axSeen[c] {
			axSeen[c] = true
			ax = append(ax, c)
		}
	}
	for _, g := range groups {
		for i := range g {
			for j := range g {
				if i == j {
					continue
				}
				a, b := g[i], g[j]
				cmp := a.c.Cmp(b.c) // Q+a.c vs Q+b.c
				if cmp == 0 {
					if a.kind == "lt0" && b.kind == "eq0" {
						imp(V(a.v), Not(V(b.v)))
					}
					continue
				}
				if cmp > 0 { // Q+a.c <= 0 implies Q+b.c < 0
					if b.kind != "eq0" {
						imp(V(a.v), V(b.v))
					} else {
						imp(V(a.v), Not(V(b.v)))
					}
				}
			}
		}
	}
	// sums: the sign of p+q follows from the signs of p and q
	var ps []*Term
	have := map[*Term]bool{}
	for _, v := range vs {
		if t := bddVars[v]; t.op == OApp && (t.name == "lt0" || t.name == "eq0") && !have[t.args[0]] {
			have[t.args[0]] = true
			ps = append(ps, t.args[0])
		}
	}
	if len(ps) <= 32 {
		neg := func(p *Term) *BDD { return condNeg(p, false) }
		le := func(p *Term) *BDD { return Not(condNeg(TNeg(p), false)) }
		for i, p := range ps {
			for _, q := range ps[i+1:] {
				for _, q := range []*Term{q, TNeg(q)} {
					r := sumOf(p, q)
					if c, ok := constOf(r); ok && c != nil {
						continue
					}
					if !have[r] && !have[TNeg(r)] {
						continue
					}
					for _, x := range [][3]*Term{{p, q, r}, {TNeg(p), TNeg(q), TNeg(r)}} {
						imp(And(neg(x[0]), le(x[1])), neg(x[2]))
						imp(And(le(x[0]), neg(x[1])), neg(x[2]))
						imp(And(le(x[0]), le(x[1])), le(x[2]))
					}
				}
			}
		}
	}
	// integers: bounds add up
	type bound struct { // form >= 0 if lit holds
		key string
		f   *Term
		c   *big.Rat
		lit *BDD
		v   int
	}
	var bs []bound
	for _, v := range vs {
		if t := bddVars[v]; t.op == OApp && t.name == "ilt0" {
			for _, x := range []struct {
				f   *Term
				lit *BDD
			}{{TSub(TNeg(t.args[0]), TInt(1)), V(v)}, {t.args[0], Not(V(v))}} {
				q, k := splitConst(toPoly(x.f))
				bs = append(bs, bound{q.key(), x.f, k, x.lit, v})
			}
		}
	}
	if len(bs) <= 40 {
		byKey := map[string][]bound{}
		for _, b := range bs {
			byKey[b.key] = append(byKey[b.key], b)
		}
		for i, a := range bs {
			for _, b := range bs[i+1:] {
				if a.v == b.v {
					continue
				}
				q, k := splitConst(toPoly(sumOf(a.f, b.f)))
				for _, r := range byKey[q.key()] {
					if r.v != a.v && r.v != b.v && r.c.Cmp(k) >= 0 {
						imp(And(a.lit, b.lit), r.lit)
					}
				}
			}
		}
	}
	for _, vs := range types_ {
		for i := range vs {
			for j := i + 1; j < len(vs); j++ {
				imp(V(vs[i]), Not(V(vs[j])))
			}
		}
	}
	for i := range eqs {
		for j := i + 1; j < len(eqs); j++ {
			a, b := eqs[i], eqs[j]
			var x, y *Term
			switch {
			case a.a == b.a:
				x, y = a.b, b.b
			case a.a == b.b:
				x, y = a.b, b.a
			case a.b == b.a:
				x, y = a.a, b.b
			case a.b == b.b:
				x, y = a.a, b.a
			default:
				continue
			}
			if x == y {
				continue
			}
			c := CondEq(x, y)
			if c == bddFalse {
				imp(V(a.v), Not(V(b.v)))
			} else {
				s2 := map[int]bool{}
				bddSupport(c, s2)
				all := true
				for v := range s2 {
					if !sup[v] {
						all = false
					}
				}
				if all {
					imp(And(V(a.v), V(b.v)), c)
				}
			}
		}
	}
	return ax
}

var sumMemo = map[[2]*Term]*Term{}

func sumOf(p, q *Term) *Term {
	k := [2]*Term{p, q}
	if r, ok := sumMemo[k]; ok {
		return r
	}
	r := TAdd(p, q)
	sumMemo[k] = r
	return r
}

// contradicts conjoins the axioms one by one: the facts, which usually leave
// few cases, keep the intermediate results small.
func contradicts(f *BDD, axioms []*BDD) bool {
	start := workDone
	for _, a := range axioms {
		if f = And(f, a); f == bddFalse {
			return true
		}
		if workDone-start > 20000 {
			return false // not shown
		}
	}
	return false
}

func sat(f *BDD) bool {
	if f == bddFalse {
		return false
	}
	if f == bddTrue {
		return true
	}
	return !contradicts(f, theory(f))
}

// implies: every state that satisfies f satisfies g.
func implies(f, g *BDD) bool {
	x := And(f, Not(g))
	if x == bddFalse {
		return true
	}
	return contradicts(x, theory(f, g))
}

// vacuous: some proof since the last obligation started from facts no state satisfies.
var vacuous bool

func noteFacts(f *BDD) {
	if !vacuous && !sat(f) {
		vacuous = true
	}
}

func equivUnder(facts, a, b *BDD) bool {
	noteFacts(facts)
	return implies(facts, Xnor(a, b)) || refute(And(facts, Not(Xnor(a, b))), 0)
}

// ---------------------------------------------------------------- equality

// splitVar finds a condition variable t's value depends on, or -1.
func splitVar(t *Term) int {
	best, nested := -1, -1
	walkTerm(t, func(x *Term) {
		switch {
		case x.op == OIte:
			if v := x.cond.v; best < 0 || v < best {
				best = v
			}
		case x.op == OApp && x.name == "pos":
			b := condNeg(x.args[0], isIntType(x.typ))
			if b.v == 1<<30 {
				return
			}
			to := &best
			if contains(x.args[0], func(y *Term) bool { return y.op == OIte || y.op == OApp && y.name == "pos" }) {
				to = &nested // its sign may depend on what is inside
			}
			if *to < 0 || b.v < *to {
				*to = b.v
			}
		}
	})
	if best < 0 {
		return nested
	}
	return best
}

// factsGiven rewrites the atoms of facts knowing v: those that talk about a
// minimum or maximum that v decides.
func factsGiven(facts *BDD, v int, val, keep bool) *BDD {
	sup := map[int]bool{}
	bddSupport(facts, sup)
	m := map[*Term]*Term{}
	for u := range sup {
		t := bddVars[u]
		if u == v || t.op != OApp || t.name != "lt0" && t.name != "eq0" && t.name != "ilt0" {
			continue
		}
		if p2 := assignVar(t.args[0], v, val); p2 != t.args[0] {
			m[t.args[0]] = p2
		}
	}
	if len(m) == 0 {
		return facts
	}
	if !keep {
		return substB(facts, m)
	}
	lit := bddNode(v, bddTrue, bddFalse)
	if !val {
		lit = Not(lit)
	}
	return And(facts, Or(Not(lit), substB(facts, m)))
}

// proveEq: a and b have the same value in every state that satisfies facts.
func proveEq(a, b *Term, facts *BDD) bool {
	if a == b {
		return true
	}
	if a.op == OStruct || b.op == OStruct {
		s := a
		if s.op != OStruct {
			s = b
		}
		for i := range s.args {
			if !proveEq(fieldOf(a, i, s), fieldOf(b, i, s), facts) {
				return false
			}
		}
		return true
	}
	if a.op == OBool || b.op == OBool {
		return equivUnder(facts, toBDD(a), toBDD(b))
	}
	num := isNumType(a.typ) || isNumType(b.typ) || a.op == OPoly || b.op == OPoly
	noteFacts(facts)
	if num {
		return proveZero(TSub(a, b), facts, 0)
	}
	return implies(facts, CondEq(a, b))
}

func proveZero(d *Term, facts *BDD, depth int) bool {
	if c, ok := constOf(d); ok {
		return c.Sign() == 0 || refute(facts, 0)
	}
	if depth > 40 {
		if debugProve {
			println("DEPTH:", d.String(), " UNDER ", bddString(facts))
		}
		return false
	}
	if v := splitVar(d); v >= 0 {
		for _, val := range []bool{true, false} {
			lit := bddNode(v, bddTrue, bddFalse)
			if !val {
				lit = Not(lit)
			}
			f := And(factsGiven(facts, v, val, false), lit)
			if !sat(f) {
				continue
			}
			if !proveZero(assignVar(d, v, val), f, depth+1) {
				return false
			}
		}
		return true
	}
	// use equalities among the facts: x = 0 as a rewrite of one of its atoms
	if d2 := clearDenoms(d); d2 != d {
		return proveZero(d2, facts, depth+1)
	}
	if d2, ok := useEqualities(d, facts); ok {
		return proveZero(d2, facts, depth+1)
	}
	if refute(facts, 0) {
		return true
	}
	if debugProve {
		println("UNPROVED =0:", d.String(), " UNDER ", bddString(facts))
	}
	return false
}

// refute: no state satisfies facts, by cases on the minima and maxima they
// talk about.
func refute(facts *BDD, depth int) bool {
	if !sat(facts) {
		return true
	}
	if depth > 20 {
		return false
	}
	if ms := solveEqualities(facts); len(ms) > 0 {
		f := facts
		for _, m := range ms {
			f = substB(f, m)
		}
		if f != facts {
			return refute(f, depth+1)
		}
	}
	sup := map[int]bool{}
	bddSupport(facts, sup)
	best := -1
	for u := range sup {
		t := bddVars[u]
		if t.op != OApp || t.name != "lt0" && t.name != "eq0" && t.name != "ilt0" {
			continue
		}
		if v := splitVar(t.args[0]); v >= 0 && v != u && (best < 0 || v < best) {
			best = v
		}
	}
	if best < 0 {
		if debugProve {
			println("LEAF", bddString(facts))
		}
		return false
	}
	lit := bddNode(best, bddTrue, bddFalse)
	for _, val := range []bool{true, false} {
		l := lit
		if !val {
			l = Not(lit)
		}
		// the atoms this decides are replaced, so that the cases end
		if !refute(And(factsGiven(facts, best, val, false), l), depth+1) {
			return false
		}
	}
	return true
}

var debugProve = os.Getenv("DEBUGPROVE") != ""

func clearDenoms(d *Term) *Term {
	p := toPoly(d)
	ex := map[*Term]int{}
	for _, tm := range p.ts {
		for _, f := range tm.m {
			if f.e < 0 && f.a.op == OApp && (f.a.name == "grp" || f.a.name == "sqrt") && -f.e > ex[f.a] {
				ex[f.a] = -f.e
			}
		}
	}
	if len(ex) == 0 {
		return d
	}
	m := mono{}
	for a, e := range ex {
		m = append(m, factor{a, e})
	}
	sort.Slice(m, func(i, j int) bool { return m[i].a.id < m[j].a.id })
	// multiply factor by factor (keeps canonical forms)
	q := p
	for _, f := range m {
		for i := 0; i < f.e; i++ {
			q = polyMul(q, &Poly{ts: []pterm{{mono{{f.a, 1}}, big.NewRat(1, 1)}}})
		}
	}
	return fromPoly(q, d.typ)
}

// useEqualities substitutes an atom that a fact "P = 0" determines linearly.
func useEqualities(d *Term, facts *BDD) (*Term, bool) {
	d0 := d
	for _, m := range solveEqualities(facts) {
		d = subst(d, m)
	}
	if d != d0 {
		return d, true
	}
	// a root is zero where what it is taken of is
	for _, t := range toPoly(d).ts {
		for _, f := range t.m {
			if f.e > 0 && f.a.op == OApp && f.a.name == "sqrt" && implies(facts, condEq0(f.a.args[0], false)) {
				return subst(d, map[*Term]*Term{f.a: TNum(0)}), true
			}
		}
	}
	return d, false
}

// solveEqualities turns the equations among the facts into rewrites, each of
// one quantity that is linear in it, to be applied in order.
func solveEqualities(facts *BDD) (out []map[*Term]*Term) {
	sup := map[int]bool{}
	bddSupport(facts, sup)
	var vs []int
	for v := range sup {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	var eqs []*Term
	for _, v := range vs {
		t := bddVars[v]
		if t.op != OApp || t.name != "eq0" && t.name != "ilt0" {
			continue
		}
		var x *Term
		if t.name == "eq0" {
			x = t.args[0]
			if !implies(facts, bddNode(v, bddTrue, bddFalse)) {
				continue
			}
		} else {
			x = t.args[0]
			if !implies(facts, condEq0(x, true)) {
				x = TAdd(t.args[0], TInt(1))
				if !implies(facts, condEq0(x, true)) {
					continue
				}
			}
		}
		eqs = append(eqs, x)
	}
	for i, x := range eqs {
		p := toPoly(x)
		var best *Term
		var bt pterm
		for _, tm := range p.ts {
			if len(tm.m) != 1 || tm.m[0].e != 1 {
				continue
			}
			a := tm.m[0].a
			// linear and only here
			n := 0
			for _, t2 := range p.ts {
				for _, f := range t2.m {
					if f.a == a || contains(f.a, func(y *Term) bool { return y == a }) {
						n++
					}
				}
			}
			if a.op == OApp && (a.name == "pos" || a.name == "maxf" || a.name == "inf") {
				continue // these say more than their name
			}
			if n == 1 && (best == nil || a.id > best.id) {
				best, bt = a, tm
			}
		}
		if best == nil {
			continue
		}
		// best = -(rest)/c
		rest := TSub(x, fromPoly(&Poly{ts: []pterm{bt}}, x.typ))
		val := fromPoly(polyScale(toPoly(rest), new(big.Rat).Neg(new(big.Rat).Inv(bt.c))), x.typ)
		m := map[*Term]*Term{best: val}
		out = append(out, m)
		for j := i + 1; j < len(eqs); j++ {
			eqs[j] = subst(eqs[j], m)
		}
	}
	return out
}

// proveLE: a <= b under facts.
func proveLE(a, b *Term, facts *BDD) bool {
	noteFacts(facts)
	return proveNonNeg(TSub(b, a), facts, 0)
}

// signAtoms: single quantities whose sign the facts talk about.
func signAtoms(facts *BDD) []*Term {
	sup := map[int]bool{}
	bddSupport(facts, sup)
	var out []*Term
	for v := range sup {
		t := bddVars[v]
		if t.op == OApp && t.name == "lt0" {
			if q := toPoly(t.args[0]); len(q.ts) == 1 && len(q.ts[0].m) == 1 && q.ts[0].m[0].e == 1 {
				out = append(out, q.ts[0].m[0].a)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// squareDenoms multiplies by the square of every denominator.
func squareDenoms(d *Term) *Term {
	p := toPoly(d)
	ex := map[*Term]int{}
	for _, tm := range p.ts {
		for _, f := range tm.m {
			if f.e < 0 && -f.e > ex[f.a] {
				ex[f.a] = -f.e
			}
		}
	}
	if len(ex) == 0 {
		return d
	}
	var as []*Term
	for a := range ex {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		for i := 0; i < (ex[a]+1)/2*2; i++ {
			p = polyMul(p, &Poly{ts: []pterm{{mono{{a, 1}}, big.NewRat(1, 1)}}})
		}
	}
	return fromPoly(p, d.typ)
}

// commonFactor splits off an atom every term of d has.
func commonFactor(d *Term) (a, rest *Term, ok bool) {
	p := toPoly(d)
	if len(p.ts) == 0 || len(p.ts) == 1 && len(p.ts[0].m) < 2 {
		return nil, nil, false
	}
	for _, f := range p.ts[0].m {
		all := f.e > 0
		for _, tm := range p.ts[1:] {
			has := false
			for _, g := range tm.m {
				if g.a == f.a && g.e > 0 {
					has = true
				}
			}
			all = all && has
		}
		if all {
			return f.a, TMul(d, TInv(f.a)), true
		}
	}
	return nil, nil, false
}

func proveNonNeg(d *Term, facts *BDD, depth int) bool {
	if knownNonNeg(d) {
		return true
	}
	if !sat(facts) {
		return true
	}
	isInt := isIntType(d.typ)
	if c := condNeg(d, isInt); implies(facts, Not(c)) {
		return true
	}
	if depth > 24 {
		return false
	}
	if v := splitVar(d); v >= 0 {
		for _, val := range []bool{true, false} {
			lit := bddNode(v, bddTrue, bddFalse)
			if !val {
				lit = Not(lit)
			}
			f := And(factsGiven(facts, v, val, false), lit)
			if !sat(f) {
				continue
			}
			if !proveNonNeg(assignVar(d, v, val), f, depth+1) {
				return false
			}
		}
		return true
	}
	// denominators, squared away
	if d2 := squareDenoms(d); d2 != d {
		return proveNonNeg(d2, facts, depth+1)
	}
	// a common factor of known sign
	if a, rest, ok := commonFactor(d); ok {
		if implies(facts, Not(condNeg(a, false))) && proveNonNeg(rest, facts, depth+1) {
			return true
		}
		if implies(facts, Not(condNeg(TNeg(a), false))) && proveNonNeg(TNeg(rest), facts, depth+1) {
			return true
		}
	}
	// an inequality of the facts divided by a factor of known sign
	for _, a := range signAtoms(facts) {
		for _, s := range []*Term{a, TNeg(a)} {
			if implies(facts, CondLt(TNum(0), s, false)) && proveNonNeg(TMul(d, s), facts, depth+6) {
				return true
			}
		}
	}
	// d = sum of two facts' non-negative quantities
	var cands []*Term
	sup := map[int]bool{}
	bddSupport(facts, sup)
	for v := range sup {
		t := bddVars[v]
		if t.op == OApp && (t.name == "lt0" || t.name == "ilt0" && isInt) {
			if implies(facts, bddNode(v, bddTrue, bddFalse)) {
				cands = append(cands, TNeg(t.args[0]))
			} else if implies(facts, Not(bddNode(v, bddTrue, bddFalse))) {
				cands = append(cands, t.args[0])
			}
		}
	}
	for _, c := range cands {
		r := TSub(d, c)
		if knownNonNeg(r) || implies(facts, Not(condNeg(r, isInt))) || len(toPoly(r).ts) < len(toPoly(d).ts) && proveNonNeg(r, facts, depth+4) {
			return true
		}
		for _, c2 := range cands {
			if r2 := TSub(r, c2); knownNonNeg(r2) {
				return true
			}
		}
	}
	return false
}
