package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed canonical descriptions of values (global value
// numbering): two values with the same term are equal on every execution.

type Op uint8

const (
	ONone Op = iota
	OConst
	OPoly
	OBool
	OParam
	OLoad
	OApp
	OIte
	OStruct
	OField
	OIndex
	OAlloc
	OGlobal
	OFunc
	OClosure
	OIface
	ONil
	OVar
)

type Term struct {
	id   int
	op   Op
	typ  types.Type
	name string
	args []*Term
	poly *Poly
	cond *BDD
	fn   *ssa.Function
	ep   *Epoch // OLoad
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

// resetTerms forgets every term: the two build variants are type-checked
// separately and must not share terms.
func resetTerms() {
	termTab, termList = map[string]*Term{}, nil
	bddTab, bddMemo, bddVars, bddIndex = map[bddKey]*BDD{}, map[bddIte]*BDD{}, nil, map[int]int{}
	epochTab = map[string]*Epoch{}
	theoryMemo, sumMemo = map[string][]*BDD{}, map[[2]*Term]*Term{}
}

func intern(key string, mk func() *Term) *Term {
	if t := termTab[key]; t != nil {
		return t
	}
	spend(3)
	t := mk()
	t.id = len(termList) + 1
	termList = append(termList, t)
	termTab[key] = t
	return t
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func rawTerm(op Op, typ types.Type, name string, args ...*Term) *Term {
	k := strconv.Itoa(int(op)) + "|" + name + "|" + argKey(args)
	if (op == OParam || op == OAlloc || op == OVar) && typ != nil {
		k += typ.String()
	}
	return intern(k, func() *Term { return &Term{op: op, typ: typ, name: name, args: args} })
}

// ---------------------------------------------------------------- polynomials

type factor struct {
	a *Term
	e int
}
type mono []factor // sorted by atom id, exponents non-zero
type pterm struct {
	m mono
	c *big.Rat
}
type Poly struct {
	ts []pterm // sorted by key
}

func (m mono) key() string {
	var b strings.Builder
	for _, f := range m {
		b.WriteString(strconv.Itoa(f.a.id))
		b.WriteByte('^')
		b.WriteString(strconv.Itoa(f.e))
		b.WriteByte(' ')
	}
	return b.String()
}

func polyFromMap(mp map[string]pterm) *Poly {
	keys := make([]string, 0, len(mp))
	for k, t := range mp {
		if t.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	p := &Poly{}
	for _, k := range keys {
		p.ts = append(p.ts, mp[k])
	}
	return p
}

func addTo(mp map[string]pterm, m mono, c *big.Rat) {
	k := m.key()
	if t, ok := mp[k]; ok {
		mp[k] = pterm{t.m, new(big.Rat).Add(t.c, c)}
	} else {
		mp[k] = pterm{m, new(big.Rat).Set(c)}
	}
}

func polyConst(c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{ts: []pterm{{nil, c}}}
}

func (p *Poly) key() string {
	var b strings.Builder
	for _, t := range p.ts {
		b.WriteString(t.c.RatString())
		b.WriteByte('*')
		b.WriteString(t.m.key())
		b.WriteByte(';')
	}
	return b.String()
}

func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.ts) == 0 {
		return new(big.Rat), true
	}
	if len(p.ts) == 1 && len(p.ts[0].m) == 0 {
		return p.ts[0].c, true
	}
	return nil, false
}

func polyAdd(a, b *Poly, sb int64) *Poly {
	mp := map[string]pterm{}
	for _, t := range a.ts {
		addTo(mp, t.m, t.c)
	}
	s := big.NewRat(sb, 1)
	for _, t := range b.ts {
		addTo(mp, t.m, new(big.Rat).Mul(t.c, s))
	}
	return polyFromMap(mp)
}

func polyScale(a *Poly, c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	p := &Poly{}
	for _, t := range a.ts {
		p.ts = append(p.ts, pterm{t.m, new(big.Rat).Mul(t.c, c)})
	}
	return p
}

// mulMono multiplies two monomials; the result may need re-expansion (sqrt^2,
// group^1), which is returned as a list of polynomials to multiply in.
func mulMono(a, b mono) (mono, []*Poly) {
	ex := map[*Term]int{}
	for _, f := range a {
		ex[f.a] += f.e
	}
	for _, f := range b {
		ex[f.a] += f.e
	}
	var extra []*Poly
	var m mono
	for t, e := range ex {
		if e == 0 {
			continue
		}
		if t.op == OApp && t.name == "sqrt" && (e >= 2 || e <= -2) {
			k := e / 2
			e = e % 2
			base := toPoly(t.args[0])
			if k < 0 {
				base = toPoly(TInv(t.args[0]))
				k = -k
			}
			for i := 0; i < k; i++ {
				extra = append(extra, base)
			}
			if e == 0 {
				continue
			}
		}
		if t.op == OApp && t.name == "grp" && e > 0 {
			for i := 0; i < e; i++ {
				extra = append(extra, toPoly(t.args[0]))
			}
			continue
		}
		if t.op == OApp && t.name == "sin" && e >= 2 {
			// sin^2 = 1 - cos^2
			c := TApp("cos", t.typ, t.args...)
			one := polyConst(big.NewRat(1, 1))
			cc := polyMul(toPoly(c), toPoly(c))
			p := polyAdd(one, cc, -1)
			for ; e >= 2; e -= 2 {
				extra = append(extra, p)
			}
			if e == 0 {
				continue
			}
		}
		m = append(m, factor{t, e})
	}
	sort.Slice(m, func(i, j int) bool { return m[i].a.id < m[j].a.id })
	return m, extra
}

func polyMul(a, b *Poly) *Poly {
	spend(len(a.ts) * len(b.ts))
	mp := map[string]pterm{}
	for _, x := range a.ts {
		for _, y := range b.ts {
			c := new(big.Rat).Mul(x.c, y.c)
			m, extra := mulMono(x.m, y.m)
			if len(extra) == 0 {
				addTo(mp, m, c)
				continue
			}
			p := &Poly{ts: []pterm{{m, c}}}
			for _, e := range extra {
				p = polyMul(p, e)
			}
			for _, t := range p.ts {
				addTo(mp, t.m, t.c)
			}
		}
	}
	return polyFromMap(mp)
}

func toPoly(t *Term) *Poly {
	if t.op == OPoly {
		return t.poly
	}
	return &Poly{ts: []pterm{{mono{{t, 1}}, big.NewRat(1, 1)}}}
}

func fromPoly(p *Poly, typ types.Type) *Term {
	if len(p.ts) == 1 && len(p.ts[0].m) == 1 && p.ts[0].m[0].e == 1 && p.ts[0].c.Cmp(big.NewRat(1, 1)) == 0 {
		return p.ts[0].m[0].a
	}
	k := "P|" + p.key()
	return intern(k, func() *Term { return &Term{op: OPoly, typ: typ, poly: p} })
}

var (
	tyFloat = types.Typ[types.Float64]
	tyInt   = types.Typ[types.Int]
	tyBool  = types.Typ[types.Bool]
)

func TRat(r *big.Rat, typ types.Type) *Term { return fromPoly(polyConst(r), typ) }
func TInt(n int64) *Term                    { return TRat(big.NewRat(n, 1), tyInt) }
func TNum(n int64) *Term                    { return TRat(big.NewRat(n, 1), tyFloat) }

func TAdd(a, b *Term) *Term { return fromPoly(polyAdd(toPoly(a), toPoly(b), 1), a.typ) }
func TSub(a, b *Term) *Term { return fromPoly(polyAdd(toPoly(a), toPoly(b), -1), a.typ) }
func TNeg(a *Term) *Term    { return fromPoly(polyScale(toPoly(a), big.NewRat(-1, 1)), a.typ) }
func TScale(a *Term, n, d int64) *Term {
	return fromPoly(polyScale(toPoly(a), big.NewRat(n, d)), a.typ)
}
func TMul(a, b *Term) *Term {
	if isIteNum(a) && isConstTerm(b) {
		return mapIte(a, func(x *Term) *Term { return TMul(x, b) })
	}
	return fromPoly(polyMul(toPoly(a), toPoly(b)), a.typ)
}
func isIteNum(a *Term) bool { return false }
func mapIte(a *Term, f func(*Term) *Term) *Term {
	return TIte(a.cond, f(a.args[0]), f(a.args[1]))
}
func isConstTerm(t *Term) bool {
	if t.op != OPoly {
		return false
	}
	_, ok := t.poly.isConst()
	return ok
}
func constOf(t *Term) (*big.Rat, bool) {
	if t.op != OPoly {
		return nil, false
	}
	return t.poly.isConst()
}
func intOf(t *Term) (int64, bool) {
	r, ok := constOf(t)
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

func leadSign(p *Poly) int {
	if len(p.ts) == 0 {
		return 0
	}
	// first non-constant term
	for _, t := range p.ts {
		if len(t.m) > 0 {
			return t.c.Sign()
		}
	}
	return p.ts[0].c.Sign()
}

func leadCoef(p *Poly) *big.Rat {
	for _, t := range p.ts {
		if len(t.m) > 0 {
			return t.c
		}
	}
	if len(p.ts) > 0 {
		return p.ts[0].c
	}
	return new(big.Rat)
}

func TInv(t *Term) *Term {
	p := toPoly(t)
	if c, ok := p.isConst(); ok {
		if c.Sign() == 0 {
			return TApp("inf", tyFloat)
		}
		return TRat(new(big.Rat).Inv(c), t.typ)
	}
	if len(p.ts) == 1 {
		// monomial
		m := mono{}
		for _, f := range p.ts[0].m {
			m = append(m, factor{f.a, -f.e})
		}
		q := &Poly{ts: []pterm{{m, new(big.Rat).Inv(p.ts[0].c)}}}
		return fromPoly(polyMul(q, polyConst(big.NewRat(1, 1))), t.typ)
	}
	// clear denominators common to all terms (monomial gcd with min exponents)
	minE := map[*Term]int{}
	for i, tm := range p.ts {
		cur := map[*Term]int{}
		for _, f := range tm.m {
			cur[f.a] = f.e
		}
		if i == 0 {
			minE = cur
			continue
		}
		for a := range cur {
			if _, ok := minE[a]; !ok {
				minE[a] = 0
			}
		}
		for a, e := range minE {
			c := cur[a]
			if c < e {
				minE[a] = c
			}
		}
	}
	var gm, gi mono
	for a, e := range minE {
		if e != 0 {
			gm = append(gm, factor{a, e})
			gi = append(gi, factor{a, -e})
		}
	}
	sort.Slice(gm, func(i, j int) bool { return gm[i].a.id < gm[j].a.id })
	sort.Slice(gi, func(i, j int) bool { return gi[i].a.id < gi[j].a.id })
	q := p
	if len(gm) > 0 {
		q = polyMul(p, &Poly{ts: []pterm{{gi, big.NewRat(1, 1)}}})
	}
	lc := leadCoef(q)
	q = polyScale(q, new(big.Rat).Inv(lc))
	g := rawTerm(OApp, tyFloat, "grp", fromPoly(q, tyFloat))
	res := &Poly{ts: []pterm{{mono{{g, -1}}, new(big.Rat).Inv(lc)}}}
	if len(gi) > 0 {
		res = polyMul(res, &Poly{ts: []pterm{{gi, big.NewRat(1, 1)}}})
	}
	return fromPoly(res, t.typ)
}

func TDiv(a, b *Term) *Term { return TMul(a, TInv(b)) }

// TPos is max(x, 0).
func TPos(x *Term) *Term {
	if c, ok := constOf(x); ok {
		if c.Sign() > 0 {
			return x
		}
		return TRat(new(big.Rat), x.typ)
	}
	if knownNonNeg(x) {
		return x
	}
	if knownNonNeg(TNeg(x)) {
		return TRat(new(big.Rat), x.typ)
	}
	p := toPoly(x)
	lc := leadCoef(p)
	ab := new(big.Rat).Abs(lc)
	q := fromPoly(polyScale(p, new(big.Rat).Inv(ab)), x.typ)
	if lc.Sign() > 0 {
		a := rawTerm(OApp, x.typ, "pos", q)
		return fromPoly(polyScale(toPoly(a), ab), x.typ)
	}
	// pos(-y) = pos(y) - y
	y := TNeg(q)
	a := rawTerm(OApp, x.typ, "pos", y)
	return fromPoly(polyScale(toPoly(TSub(a, y)), ab), x.typ)
}

func TMax(a, b *Term) *Term { return TAdd(b, TPos(TSub(a, b))) }
func TMin(a, b *Term) *Term { return TSub(a, TPos(TSub(a, b))) }
func TAbs(a *Term) *Term    { return TSub(TScale(TPos(a), 2, 1), a) }

// knownNonNeg: syntactically non-negative.
func knownNonNeg(t *Term) bool {
	p := toPoly(t)
	for _, tm := range p.ts {
		if tm.c.Sign() < 0 {
			_, ok := squares(p)
			return ok
		}
		for _, f := range tm.m {
			if f.e%2 == 0 {
				continue
			}
			if !atomNonNeg(f.a) {
				_, ok := squares(p)
				return ok
			}
		}
	}
	return true
}

func atomNonNeg(a *Term) bool {
	if a.op == OApp {
		switch a.name {
		case "len", "cap", "sqrt", "pos", "exp", "maxf", "inf", "slicebase":
			return true
		case "grp":
			return knownNonNeg(a.args[0])
		}
	}
	if a.op == OIte {
		return knownNonNeg(a.args[0]) && knownNonNeg(a.args[1])
	}
	if a.typ != nil {
		if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- applications

func TApp(name string, typ types.Type, args ...*Term) *Term {
	switch name {
	case "sqrt":
		x := args[0]
		if c, ok := constOf(x); ok {
			if c.Sign() == 0 {
				return x
			}
			if c.Cmp(big.NewRat(1, 1)) == 0 {
				return x
			}
		}
	case "cos":
		x := args[0]
		if c, ok := constOf(x); ok && c.Sign() == 0 {
			return TNum(1)
		}
		if leadSign(toPoly(x)) < 0 {
			return TApp("cos", typ, TNeg(x))
		}
	case "sin":
		x := args[0]
		if c, ok := constOf(x); ok && c.Sign() == 0 {
			return TNum(0)
		}
		if leadSign(toPoly(x)) < 0 {
			return TNeg(TApp("sin", typ, TNeg(x)))
		}
	case "pow":
		if c, ok := intOf(args[1]); ok && c >= 0 && c <= 4 {
			r := TNum(1)
			for i := int64(0); i < c; i++ {
				r = TMul(r, args[0])
			}
			return r
		}
	case "len":
		return TLen(args[0])
	case "and", "or", "xor":
		if args[0].id > args[1].id {
			args = []*Term{args[1], args[0]}
		}
		if args[0] == args[1] && name != "xor" {
			return args[0]
		}
	}
	return rawTerm(OApp, typ, name, args...)
}

func TLen(s *Term) *Term {
	switch s.op {
	case ONil:
		return TInt(0)
	case OIte:
		return TIte(s.cond, TLen(s.args[0]), TLen(s.args[1]))
	case OApp:
		switch s.name {
		case "append":
			return TAdd(TLen(s.args[0]), TInt(int64(len(s.args)-1)))
		case "appendslice":
			return TAdd(TLen(s.args[0]), TLen(s.args[1]))
		case "slice":
			return TSub(s.args[2], s.args[1])
		case "make":
			return s.args[0]
		case "delete": // delete(s, i)
			return TSub(TLen(s.args[0]), TInt(1))
		}
	case OConst:
		if s.typ != nil {
			if b, ok := s.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return TInt(int64(len(s.name)))
			}
		}
	}
	return rawTerm(OApp, tyInt, "len", s)
}

// ---------------------------------------------------------------- booleans

func TBool(b *BDD) *Term {
	return intern("B|"+strconv.Itoa(b.id), func() *Term { return &Term{op: OBool, typ: tyBool, cond: b} })
}

func toBDD(t *Term) *BDD {
	if t.op == OBool {
		return t.cond
	}
	if t.op == OIte {
		return bddITE(t.cond, toBDD(t.args[0]), toBDD(t.args[1]))
	}
	return bddAtom(t)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNumType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func splitConst(p *Poly) (*Poly, *big.Rat) {
	q := &Poly{}
	c := new(big.Rat)
	for _, t := range p.ts {
		if len(t.m) == 0 {
			c = t.c
		} else {
			q.ts = append(q.ts, t)
		}
	}
	return q, c
}

// neg0 is the condition p < 0 (ints: isInt).
func condNeg(x *Term, isInt bool) *BDD {
	if c, ok := constOf(x); ok {
		if c.Sign() < 0 {
			return bddTrue
		}
		return bddFalse
	}
	if x.op == OIte {
		return bddITE(x.cond, condNeg(x.args[0], isInt), condNeg(x.args[1], isInt))
	}
	if c, a, b, ok := liftIte(x); ok {
		return bddITE(c, condNeg(a, isInt), condNeg(b, isInt))
	}
	if knownNonNeg(x) {
		return bddFalse
	}
	if s, ok := hugeSign(x); ok {
		if s < 0 {
			return bddTrue
		}
		return bddFalse
	}
	if !isInt && knownNonNeg(TNeg(x)) {
		return Not(condEq0(x, false))
	}
	p := toPoly(x)
	lc := leadCoef(p)
	if isInt {
		if lc.Sign() < 0 {
			// -y < 0  <=>  y > 0  <=> !(y-1 < 0)
			y := TSub(TNeg(x), TInt(1))
			return Not(condNeg(y, true))
		}
		return bddAtom(rawTerm(OApp, tyBool, "ilt0", x))
	}
	ab := new(big.Rat).Abs(lc)
	q := fromPoly(polyScale(p, new(big.Rat).Inv(ab)), x.typ)
	if lc.Sign() < 0 {
		y := TNeg(q)
		return And(Not(condNeg(y, false)), Not(condEq0(y, false)))
	}
	return bddAtom(rawTerm(OApp, tyBool, "lt0", q))
}

// liftIte: for a polynomial that contains an Ite atom linearly, split on it.
func liftIte(x *Term) (*BDD, *Term, *Term, bool) {
	if x.op != OPoly {
		return nil, nil, nil, false
	}
	for _, t := range x.poly.ts {
		for _, f := range t.m {
			if f.a.op == OIte {
				return f.a.cond, substAtom(x, f.a, f.a.args[0]), substAtom(x, f.a, f.a.args[1]), true
			}
		}
	}
	return nil, nil, nil, false
}

// substAtom replaces a top-level polynomial atom.
func substAtom(x, atom, by *Term) *Term {
	p := toPoly(x)
	res := &Poly{}
	for _, t := range p.ts {
		q := &Poly{ts: []pterm{{nil, t.c}}}
		for _, f := range t.m {
			b := f.a
			if b == atom {
				b = by
			}
			e := f.e
			if e < 0 {
				b = TInv(b)
				e = -e
			}
			for i := 0; i < e; i++ {
				q = polyMul(q, toPoly(b))
			}
		}
		res = polyAdd(res, q, 1)
	}
	return fromPoly(res, x.typ)
}

func condEq0(x *Term, isInt bool) *BDD {
	if c, ok := constOf(x); ok {
		if c.Sign() == 0 {
			return bddTrue
		}
		return bddFalse
	}
	if x.op == OIte {
		return bddITE(x.cond, condEq0(x.args[0], isInt), condEq0(x.args[1], isInt))
	}
	if c, a, b, ok := liftIte(x); ok {
		return bddITE(c, condEq0(a, isInt), condEq0(b, isInt))
	}
	if _, ok := hugeSign(x); ok {
		return bddFalse
	}
	if isInt {
		return And(Not(condNeg(x, true)), condNeg(TSub(x, TInt(1)), true))
	}
	p := toPoly(x)
	// a sum of squares is zero where each of them is, a product where one of
	// its factors is
	if len(p.ts) == 1 || sumOfSquares(p) {
		all := bddTrue
		for _, t := range p.ts {
			some := bddFalse
			for _, f := range t.m {
				if f.e < 0 {
					continue
				}
				z := bddAtom(rawTerm(OApp, tyBool, "eq0", f.a))
				if f.a.op == OApp && f.a.name == "sqrt" {
					q := toPoly(f.a.args[0])
					if _, ok := squares(q); ok || sumOfSquares(q) {
						z = condEq0(f.a.args[0], false)
					}
				}
				some = Or(some, z)
			}
			all = And(all, some)
		}
		return all
	}
	ls, ok := squares(p)
	if !ok {
		ls, ok = squares(polyScale(p, big.NewRat(-1, 1)))
	}
	if ok {
		all := bddTrue
		for _, l := range ls {
			all = And(all, condEq0(fromPoly(l, x.typ), false))
		}
		return all
	}
	lc := leadCoef(p)
	q := fromPoly(polyScale(p, new(big.Rat).Inv(lc)), x.typ)
	return bddAtom(rawTerm(OApp, tyBool, "eq0", q))
}

// squares writes a quadratic form that is nowhere negative as a sum of
// squares of linear forms, each with a positive weight, and answers those
// forms (Lagrange's reduction).
func squares(p *Poly) ([]*Poly, bool) {
	if len(p.ts) < 2 || len(p.ts) > 60 {
		return nil, false
	}
	idx := map[*Term]int{}
	var atoms []*Term
	at := func(a *Term) int {
		i, ok := idx[a]
		if !ok {
			i = len(atoms)
			idx[a] = i
			atoms = append(atoms, a)
		}
		return i
	}
	for _, t := range p.ts {
		switch {
		case len(t.m) == 1 && t.m[0].e == 2:
			if t.c.Sign() < 0 {
				return nil, false
			}
			at(t.m[0].a)
		case len(t.m) == 2 && t.m[0].e == 1 && t.m[1].e == 1:
			at(t.m[0].a)
			at(t.m[1].a)
		default:
			return nil, false
		}
	}
	n := len(atoms)
	m := make([][]*big.Rat, n)
	for i := range m {
		m[i] = make([]*big.Rat, n)
		for j := range m[i] {
			m[i][j] = new(big.Rat)
		}
	}
	for _, t := range p.ts {
		if len(t.m) == 1 {
			i := at(t.m[0].a)
			m[i][i].Set(t.c)
			continue
		}
		i, j := at(t.m[0].a), at(t.m[1].a)
		h := new(big.Rat).Mul(t.c, big.NewRat(1, 2))
		m[i][j].Set(h)
		m[j][i].Set(h)
	}
	var ls []*Poly
	for i := 0; i < n; i++ {
		if m[i][i].Sign() < 0 {
			return nil, false
		}
		if m[i][i].Sign() == 0 {
			for j := range m[i] {
				if m[i][j].Sign() != 0 {
					return nil, false
				}
			}
			continue
		}
		inv := new(big.Rat).Inv(m[i][i])
		row := make([]*big.Rat, n)
		l := &Poly{}
		for j := range row {
			row[j] = new(big.Rat).Set(m[i][j])
			if row[j].Sign() != 0 {
				l = polyAdd(l, polyScale(toPoly(atoms[j]), new(big.Rat).Mul(row[j], inv)), 1)
			}
		}
		ls = append(ls, l)
		for a := range m {
			if row[a].Sign() == 0 {
				continue
			}
			for b := range m {
				if row[b].Sign() == 0 {
					continue
				}
				d := new(big.Rat).Mul(row[a], row[b])
				m[a][b].Sub(m[a][b], d.Mul(d, inv))
			}
		}
	}
	return ls, true
}

func sumOfSquares(p *Poly) bool {
	for _, t := range p.ts {
		if t.c.Sign() <= 0 {
			return false
		}
		for _, f := range t.m {
			if f.e%2 != 0 {
				return false
			}
		}
	}
	return true
}

func CondLt(a, b *Term, isInt bool) *BDD {
	return condNeg(TSub(a, b), isInt)
}

func CondLe(a, b *Term, isInt bool) *BDD {
	return Not(condNeg(TSub(b, a), isInt))
}

func isFreshIn(t *Term) bool { return t.op == OAlloc }

func nonNilAddr(t *Term) bool {
	switch t.op {
	case OAlloc, OField, OIndex, OFunc, OClosure, OIface, OGlobal:
		return true
	case OApp:
		return t.name == "append" || t.name == "make" || t.name == "makemap"
	}
	return false
}

func intSide(t *Term) bool {
	if c, ok := constOf(t); ok {
		return c.IsInt()
	}
	return isIntType(t.typ)
}

// hugeSign: the sign of c0 + c1*MaxFloat64 (or infinity) with c1 != 0.
func hugeSign(x *Term) (int, bool) {
	if x.op != OPoly && x.op != OApp {
		return 0, false
	}
	p := toPoly(x)
	s := 0
	for _, t := range p.ts {
		if len(t.m) == 0 {
			continue
		}
		if len(t.m) != 1 || t.m[0].e != 1 || t.m[0].a.op != OApp || t.m[0].a.name != "maxf" && t.m[0].a.name != "inf" {
			return 0, false
		}
		if s != 0 && s != t.c.Sign() {
			return 0, false
		}
		s = t.c.Sign()
	}
	return s, s != 0
}

// CondEq is the condition a == b.
func CondEq(a, b *Term) *BDD {
	if a == b {
		return bddTrue
	}
	if a.op == OIte {
		return bddITE(a.cond, CondEq(a.args[0], b), CondEq(a.args[1], b))
	}
	if b.op == OIte {
		return bddITE(b.cond, CondEq(a, b.args[0]), CondEq(a, b.args[1]))
	}
	if isNumType(a.typ) || isNumType(b.typ) || a.op == OPoly || b.op == OPoly {
		return condEq0(TSub(a, b), intSide(a) && intSide(b) && !(isConstTerm(a) && isConstTerm(b)))
	}
	if a.op == OBool || b.op == OBool || a.typ != nil && types.Identical(a.typ.Underlying(), tyBool) {
		return Xnor(toBDD(a), toBDD(b))
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		r := bddTrue
		for i := range a.args {
			r = And(r, CondEq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) && a.name != b.name {
			return bddFalse
		}
		return CondEq(a.args[0], b.args[0])
	}
	if a.op == ONil && nonNilAddr(b) || b.op == ONil && nonNilAddr(a) {
		return bddFalse
	}
	if a.op == OConst && b.op == OConst {
		return bddFalse
	}
	if a.op == OFunc && b.op == OFunc {
		return bddFalse
	}
	if a.op == OField && b.op == OField && a.name != b.name {
		return bddFalse
	}
	if a.op == OField && b.op == OField && a.name == b.name {
		return CondEq(a.args[0], b.args[0])
	}
	if a.op == OAlloc && freshDistinct(a, b) || b.op == OAlloc && freshDistinct(b, a) {
		return bddFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bddAtom(rawTerm(OApp, tyBool, "eq", a, b))
}

func freshDistinct(al, t *Term) bool {
	switch t.op {
	case OAlloc, OParam, OGlobal, OField, OIndex:
		return true
	case OLoad:
		return t.ep == nil || t.ep.initial
	}
	return false
}

// TIte is the gated merge of two values.
func TIte(c *BDD, a, b *Term) *Term {
	if c == bddTrue || a == b {
		return a
	}
	if c == bddFalse {
		return b
	}
	if a.op == OBool || b.op == OBool {
		return TBool(bddITE(c, toBDD(a), toBDD(b)))
	}
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = TIte(c, a.args[i], b.args[i])
		}
		return TStruct(a.typ, args)
	}
	if a.op == OStruct || b.op == OStruct {
		s := a
		if s.op != OStruct {
			s = b
		}
		args := make([]*Term, len(s.args))
		for i := range args {
			args[i] = TIte(c, fieldOf(a, i, s), fieldOf(b, i, s))
		}
		return TStruct(s.typ, args)
	}
	if a.typ != nil && types.Identical(a.typ.Underlying(), tyBool) {
		return TBool(bddITE(c, toBDD(a), toBDD(b)))
	}
	a = underCond(a, c, true)
	b = underCond(b, c, false)
	if a == b {
		return a
	}
	if isNumType(a.typ) || a.op == OPoly || b.op == OPoly {
		if t := iteAsPos(c, a, b); t != nil {
			return t
		}
	}
	// orient: smaller variable polarity first is already canonical for BDDs;
	// make the positive branch the one with the condition's top variable true.
	if c.v != 1<<30 && polarity(c) {
		c, a, b = Not(c), b, a
	}
	k := "I|" + strconv.Itoa(c.id) + "," + strconv.Itoa(a.id) + "," + strconv.Itoa(b.id)
	typ := a.typ
	if a.op == ONil {
		typ = b.typ
	}
	return intern(k, func() *Term { return &Term{op: OIte, typ: typ, cond: c, args: []*Term{a, b}} })
}

// polarity: true if the all-true path of c ends in false (prefer conditions
// whose all-true assignment satisfies them, so c and !c share one form).
func polarity(c *BDD) bool {
	for c.v != 1<<30 {
		c = c.hi
	}
	return c == bddFalse
}

// underCond simplifies nested gates of t decided by c (val).
func underCond(t *Term, c *BDD, val bool) *Term {
	f := c
	if !val {
		f = Not(c)
	}
	for t.op == OIte {
		r := bddRestrict(t.cond, f)
		if r == bddTrue || And(f, Not(t.cond)) == bddFalse {
			t = t.args[0]
		} else if r == bddFalse || And(f, t.cond) == bddFalse {
			t = t.args[1]
		} else {
			break
		}
	}
	return t
}

// iteAsPos recognises min/max/abs/clamp written as a conditional.
func iteAsPos(c *BDD, a, b *Term) *Term {
	if c.v == 1<<30 {
		return nil
	}
	v := bddVars[c.v]
	if v.op != OApp || (v.name != "lt0" && v.name != "eq0" && v.name != "ilt0") {
		return nil
	}
	x := v.args[0]
	isInt := v.name == "ilt0"
	var isLt, isGe *BDD
	isLt = condNeg(x, isInt)
	isGe = Not(isLt)
	d := TSub(a, b)
	try := func(x *Term) *Term {
		// is d = k*x ?
		px, pd := toPoly(x), toPoly(d)
		if len(px.ts) != len(pd.ts) || len(px.ts) == 0 {
			return nil
		}
		k := new(big.Rat).Quo(leadCoef(pd), leadCoef(px))
		if !(fromPoly(polyScale(px, k), d.typ) == d) {
			return nil
		}
		return TRat(k, d.typ)
	}
	if isInt {
		// i < 0 ? a : b with d proportional to x or x+1 boundaries; only exact x or x+1
		for _, off := range []int64{0, 1} {
			y := TAdd(x, TInt(off))
			if k := try(y); k != nil {
				if c == isLt {
					return TAdd(b, TMul(k, TSub(y, TPos(y))))
				}
				if c == isGe {
					return TAdd(b, TMul(k, TPos(y)))
				}
			}
		}
		return nil
	}
	k := try(x)
	if k == nil {
		return nil
	}
	gt := condNeg(TNeg(x), false)
	le := Not(gt)
	switch c {
	case gt, isGe: // x>0 ? b+kx : b
		return TAdd(b, TMul(k, TPos(x)))
	case isLt, le: // x<0 ? b+kx : b   = b + k*min(x,0) = b + k*(x-pos(x))
		return TAdd(b, TMul(k, TSub(x, TPos(x))))
	}
	return nil
}

func TStruct(typ types.Type, args []*Term) *Term {
	k := "S|" + typeName(typ) + argKey(args)
	return intern(k, func() *Term { return &Term{op: OStruct, typ: typ, args: args} })
}

// fieldOf projects field i; shape gives a struct term (or nil) with the layout.
func fieldOf(v *Term, i int, shape *Term) *Term {
	switch v.op {
	case OStruct:
		return v.args[i]
	case OIte:
		return TIte(v.cond, fieldOf(v.args[0], i, shape), fieldOf(v.args[1], i, shape))
	}
	var st *types.Struct
	if v.typ != nil {
		st, _ = v.typ.Underlying().(*types.Struct)
	}
	if st == nil && shape != nil {
		st, _ = shape.typ.Underlying().(*types.Struct)
	}
	if st == nil {
		return rawTerm(OApp, tyFloat, "."+strconv.Itoa(i), v)
	}
	f := st.Field(i)
	return expandTerm(f.Type(), func(path string, leaf types.Type) *Term {
		return rawTerm(OApp, leaf, "."+f.Name()+path, v)
	}, "")
}

// expandTerm builds a struct (or small array) term from leaves.
func expandTerm(typ types.Type, leaf func(path string, typ types.Type) *Term, path string) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(typ) {
			break
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = expandTerm(u.Field(i).Type(), leaf, path+"."+u.Field(i).Name())
		}
		return TStruct(typ, args)
	case *types.Array:
		if u.Len() <= 4 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = expandTerm(u.Elem(), leaf, path+"["+strconv.Itoa(i)+"]")
			}
			return TStruct(typ, args)
		}
	}
	return leaf(path, typ)
}

// structs of other packages (sync.Pool, atomic.Int64, ...) are not taken apart.
func isOpaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return !strings.HasSuffix(n.Obj().Pkg().Path(), "/cp/v2") && !strings.HasSuffix(n.Obj().Pkg().Path(), "/cp")
	}
	return false
}

func TNilOf(typ types.Type) *Term { return rawTerm(ONil, typ, "nil") }

func zeroTerm(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TBool(bddFalse)
		case u.Info()&types.IsNumeric != 0:
			return TRat(new(big.Rat), typ)
		case u.Info()&types.IsString != 0:
			return rawTerm(OConst, typ, "\"\"")
		}
		return TNilOf(typ)
	case *types.Struct:
		if isOpaqueStruct(typ) {
			return rawTerm(OConst, typ, "zero:"+typ.String())
		}
		return expandTerm(typ, func(_ string, l types.Type) *Term { return zeroTerm(l) }, "")
	case *types.Array:
		if u.Len() <= 4 {
			return expandTerm(typ, func(_ string, l types.Type) *Term { return zeroTerm(l) }, "")
		}
		return rawTerm(OConst, typ, "zeroarr:"+typ.String())
	}
	return TNilOf(typ)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.name
	case OPoly:
		if len(t.poly.ts) == 0 {
			return "0"
		}
		var b strings.Builder
		for i, tm := range t.poly.ts {
			c := tm.c.RatString()
			if i > 0 {
				b.WriteString(" + ")
			}
			if i > 8 {
				b.WriteString("…")
				break
			}
			first := true
			if c != "1" || len(tm.m) == 0 {
				b.WriteString(c)
				first = false
			}
			for _, f := range tm.m {
				if !first {
					b.WriteByte('*')
				}
				first = false
				b.WriteString(f.a.str(d + 1))
				if f.e != 1 {
					fmt.Fprintf(&b, "^%d", f.e)
				}
			}
		}
		if len(t.poly.ts) > 1 {
			return "(" + b.String() + ")"
		}
		return b.String()
	case OBool:
		return bddString(t.cond)
	case OParam, OVar, OAlloc, OGlobal:
		return t.name
	case OFunc:
		return t.fn.Name()
	case OClosure:
		return "closure " + t.fn.Name()
	case OLoad:
		s := t.args[0].str(d + 1)
		if t.ep != nil && !t.ep.initial {
			s += "'" + t.ep.name
		}
		return s
	case ONil:
		return "nil"
	case OField:
		n := t.name
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			n = n[i+1:]
		}
		return t.args[0].str(d+1) + "." + n
	case OIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OIface:
		return t.args[0].str(d + 1)
	case OIte:
		return "(" + bddString(t.cond) + " ? " + t.args[0].str(d+1) + " : " + t.args[1].str(d+1) + ")"
	case OStruct:
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case OApp:
		switch t.name {
		case "lt0", "ilt0":
			return "[" + t.args[0].str(d+1) + " < 0]"
		case "eq0":
			return "[" + t.args[0].str(d+1) + " = 0]"
		case "eq":
			return "[" + t.args[0].str(d+1) + " = " + t.args[1].str(d+1) + "]"
		case "grp":
			return t.args[0].str(d + 1)
		}
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return t.name + "(" + strings.Join(s, ", ") + ")"
	}
	return "?"
}
