package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Epoch identifies a version of a storage class whose contents are unknown.
type Epoch struct {
	id      int
	name    string
	initial bool
	cond    *BDD
	a, b    *Epoch
	loops   []string
}

var (
	epochTab = map[string]*Epoch{}
	epoch0   = &Epoch{id: 0, name: "0", initial: true}
)

func newEpoch(name string, loops []string) *Epoch {
	if e := epochTab[name]; e != nil {
		return e
	}
	e := &Epoch{id: len(epochTab) + 1, name: name, loops: append([]string(nil), loops...)}
	epochTab[name] = e
	return e
}

func iteEpoch(c *BDD, a, b *Epoch) *Epoch {
	if a == b || c == bddTrue {
		return a
	}
	if c == bddFalse {
		return b
	}
	k := fmt.Sprintf("I%d,%d,%d", c.id, a.id, b.id)
	if e := epochTab[k]; e != nil {
		return e
	}
	e := &Epoch{id: len(epochTab) + 1, name: k, cond: c, a: a, b: b}
	epochTab[k] = e
	return e
}

// loadAtom is the unknown content of loc in version ep.
func loadAtom(loc *Term, typ types.Type, ep *Epoch) *Term {
	if loc.op == OIte {
		return TIte(loc.cond, loadAtom(loc.args[0], typ, ep), loadAtom(loc.args[1], typ, ep))
	}
	if ep != nil && ep.cond != nil {
		return TIte(ep.cond, loadAtom(loc, typ, ep.a), loadAtom(loc, typ, ep.b))
	}
	if ep == nil {
		ep = epoch0
	}
	k := "L|" + strconv.Itoa(loc.id) + "@" + strconv.Itoa(ep.id)
	t := intern(k, func() *Term { return &Term{op: OLoad, typ: typ, args: []*Term{loc}, ep: ep} })
	if types.Identical(typ.Underlying(), tyBool) {
		return t
	}
	return t
}

// locClass is the storage class of a location term.
// madeSlice: the array behind a slice made with a constant length.
func madeSlice(b *Term) bool {
	return b.op == OAlloc && strings.Contains(b.name, ".makeslice")
}

func locClass(loc *Term) string {
	switch loc.op {
	case OField:
		b := loc.args[0]
		switch b.op {
		case OField, OGlobal:
			return locClass(b)
		case OIndex:
			if isArrayAddr(b.args[0]) && !madeSlice(b.args[0]) {
				return locClass(b)
			}
		}
		return loc.name
	case OIndex:
		b := loc.args[0]
		if isArrayAddr(b) && !madeSlice(b) {
			if b.op == OAlloc {
				return "local"
			}
			return locClass(b)
		}
		if loc.typ != nil {
			if _, ok := loc.typ.Underlying().(*types.Struct); ok {
				return typeBase(loc.typ)
			}
			return "[]" + typeName(loc.typ)
		}
		return "[]?"
	case OGlobal:
		return "global:" + loc.name
	case OAlloc:
		return "local"
	}
	if loc.typ != nil {
		if p, ok := loc.typ.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				return typeBase(p.Elem())
			}
			return "*" + typeName(p.Elem())
		}
	}
	return "?"
}

// isArrayAddr: the index base is the address of an array (not a slice value).
func isArrayAddr(b *Term) bool {
	switch b.op {
	case OField, OGlobal, OAlloc:
		return true
	case OIndex:
		if b.typ != nil {
			_, ok := b.typ.Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

func rootOf(loc *Term) *Term {
	for {
		switch loc.op {
		case OField, OIndex:
			loc = loc.args[0]
		case OApp:
			if loc.name == "slice" {
				loc = loc.args[0]
				continue
			}
			return loc
		default:
			return loc
		}
	}
}

type Mem struct {
	cells map[*Term]*Term
	ctyp  map[*Term]types.Type
	ep    map[string]*Epoch
	base  *Epoch
	exact func(class string) bool
}

func newMem(exact func(string) bool) *Mem {
	return &Mem{cells: map[*Term]*Term{}, ctyp: map[*Term]types.Type{}, ep: map[string]*Epoch{}, base: epoch0, exact: exact}
}

func (m *Mem) clone() *Mem {
	n := &Mem{cells: make(map[*Term]*Term, len(m.cells)+4), ctyp: make(map[*Term]types.Type, len(m.cells)+4), ep: make(map[string]*Epoch, len(m.ep)), base: m.base, exact: m.exact}
	for k, v := range m.cells {
		n.cells[k] = v
	}
	for k, v := range m.ctyp {
		n.ctyp[k] = v
	}
	for k, v := range m.ep {
		n.ep[k] = v
	}
	return n
}

func (m *Mem) epoch(class string) *Epoch {
	if e := m.ep[class]; e != nil {
		return e
	}
	return m.base
}

func sortedLocs(cells map[*Term]*Term) []*Term {
	out := make([]*Term, 0, len(cells))
	for k := range cells {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// aliasCond: condition under which two different locations are the same.
func (m *Mem) aliasCond(a, b *Term) *BDD {
	if a == b {
		return bddTrue
	}
	if a.op == OField && b.op == OField {
		if a.name != b.name {
			return bddFalse
		}
		return m.aliasCond(a.args[0], b.args[0])
	}
	if a.op == OIndex && b.op == OIndex {
		c := m.aliasCond(a.args[0], b.args[0])
		if c == bddFalse {
			return c
		}
		return And(c, CondEq(a.args[1], b.args[1]))
	}
	if a.op == OField || b.op == OField || a.op == OIndex || b.op == OIndex || a.op == OGlobal || b.op == OGlobal {
		return bddFalse
	}
	return CondEq(a, b)
}

func structOf(typ types.Type) (*types.Struct, bool) {
	if isOpaqueStruct(typ) {
		return nil, false
	}
	st, ok := typ.Underlying().(*types.Struct)
	return st, ok
}

func fieldAddr(base *Term, owner types.Type, f *types.Var) *Term {
	return TFieldAddr(base, typeBase(owner)+"."+f.Name(), f.Type())
}

func (m *Mem) Load(loc *Term, typ types.Type) *Term {
	if loc.op == OIte {
		return TIte(loc.cond, m.Load(loc.args[0], typ), m.Load(loc.args[1], typ))
	}
	if st, ok := structOf(typ); ok {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = m.Load(fieldAddr(loc, typ, st.Field(i)), st.Field(i).Type())
		}
		return TStruct(typ, args)
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 4 {
		args := make([]*Term, a.Len())
		for i := range args {
			args[i] = m.Load(TIndexAddr(loc, TInt(int64(i)), a.Elem()), a.Elem())
		}
		return TStruct(typ, args)
	}
	if v := m.cells[loc]; v != nil {
		return v
	}
	class := locClass(loc)
	v := loadAtom(loc, typ, m.epoch(class))
	ex := m.exact != nil && m.exact(class)
	if ex || loc.op == OIndex || strings.Contains(class, "[") || hasIndex(loc) {
		for _, l := range sortedLocs(m.cells) {
			if locClass(l) != class && !(class == "local") {
				continue
			}
			if !sameShape(l, loc) {
				continue
			}
			if !ex && !onlyIndexDiffers(l, loc) {
				continue
			}
			c := m.aliasCond(l, loc)
			if c != bddFalse {
				v = TIte(c, m.cells[l], v)
			}
		}
	}
	return v
}

func hasIndex(loc *Term) bool {
	for {
		switch loc.op {
		case OIndex:
			return true
		case OField:
			loc = loc.args[0]
		default:
			return false
		}
	}
}

// sameShape: the two locations have the same field/index path.
func sameShape(a, b *Term) bool {
	for {
		if a.op != b.op && (a.op == OField || b.op == OField || a.op == OIndex || b.op == OIndex) {
			return false
		}
		switch a.op {
		case OField:
			if a.name != b.name {
				return false
			}
			a, b = a.args[0], b.args[0]
		case OIndex:
			a, b = a.args[0], b.args[0]
		default:
			return true
		}
	}
}

// onlyIndexDiffers: same base object, different symbolic index.
func onlyIndexDiffers(a, b *Term) bool {
	for {
		if a == b {
			return true
		}
		if a.op == OField && b.op == OField {
			a, b = a.args[0], b.args[0]
			continue
		}
		if a.op == OIndex && b.op == OIndex {
			a, b = a.args[0], b.args[0]
			continue
		}
		return false
	}
}

// Store returns the leaf locations written.
func (m *Mem) Store(loc, val *Term, typ types.Type, under *BDD, rec func(loc, val *Term, typ types.Type)) {
	if loc.op == OIte {
		m.Store(loc.args[0], val, typ, And(under, loc.cond), rec)
		m.Store(loc.args[1], val, typ, And(under, Not(loc.cond)), rec)
		return
	}
	if st, ok := structOf(typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			m.Store(fieldAddr(loc, typ, st.Field(i)), fieldOf2(val, i, typ), st.Field(i).Type(), under, rec)
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 4 {
		for i := 0; i < int(a.Len()); i++ {
			m.Store(TIndexAddr(loc, TInt(int64(i)), a.Elem()), elemOf(val, i, a.Elem()), a.Elem(), under, rec)
		}
		return
	}
	class := locClass(loc)
	ex := m.exact != nil && m.exact(class)
	idx := hasIndex(loc)
	if ex || idx {
		for _, l := range sortedLocs(m.cells) {
			if l == loc || !sameShape(l, loc) {
				continue
			}
			if !ex && !onlyIndexDiffers(l, loc) {
				continue
			}
			c := And(under, m.aliasCond(l, loc))
			if c != bddFalse {
				m.cells[l] = TIte(c, val, m.cells[l])
			}
		}
	}
	v := val
	if under != bddTrue {
		v = TIte(under, val, m.Load(loc, typ))
	}
	m.cells[loc] = v
	m.ctyp[loc] = typ
	if rec != nil {
		rec(loc, v, typ)
	}
}

func fieldOf2(v *Term, i int, typ types.Type) *Term {
	if v.op == OStruct && i < len(v.args) {
		return v.args[i]
	}
	if v.op == OIte {
		return TIte(v.cond, fieldOf2(v.args[0], i, typ), fieldOf2(v.args[1], i, typ))
	}
	st := typ.Underlying().(*types.Struct)
	f := st.Field(i)
	return expandTerm(f.Type(), func(path string, leaf types.Type) *Term {
		return rawTerm(OApp, leaf, "."+f.Name()+path, v)
	}, "")
}

func elemOf(v *Term, i int, el types.Type) *Term {
	if v.op == OStruct && i < len(v.args) {
		return v.args[i]
	}
	if v.op == OIte {
		return TIte(v.cond, elemOf(v.args[0], i, el), elemOf(v.args[1], i, el))
	}
	return expandTerm(el, func(path string, leaf types.Type) *Term {
		return rawTerm(OApp, leaf, "["+strconv.Itoa(i)+"]"+path, v)
	}, "")
}

// havoc forgets a storage class.
func (m *Mem) havoc(class string, ep *Epoch, keep func(root *Term) bool) {
	for l := range m.cells {
		if r := rootOf(l); locClass(l) == class && !keep(r) {
			if t := m.ctyp[l]; r.op == OAlloc && t != nil {
				// an allocation without cells is one not made yet
				m.cells[l] = loadAtom(l, t, ep)
				continue
			}
			delete(m.cells, l)
			delete(m.ctyp, l)
		}
	}
	m.ep[class] = ep
}

func mergeMem(c *BDD, a, b *Mem) *Mem {
	if c == bddTrue || a == b {
		return a
	}
	if c == bddFalse {
		return b
	}
	n := &Mem{cells: make(map[*Term]*Term, len(a.cells)), ctyp: map[*Term]types.Type{}, ep: map[string]*Epoch{}, base: iteEpoch(c, a.base, b.base), exact: a.exact}
	keys := map[*Term]*Term{}
	for l := range a.cells {
		keys[l] = l
	}
	for l := range b.cells {
		keys[l] = l
	}
	for _, l := range sortedLocs(keys) {
		va, oka := a.cells[l]
		vb, okb := b.cells[l]
		t := a.ctyp[l]
		if t == nil {
			t = b.ctyp[l]
		}
		if !oka || !okb {
			r := rootOf(l)
			if r.op == OAlloc {
				// allocated on one side only
				if oka {
					n.cells[l] = va
				} else {
					n.cells[l] = vb
				}
				n.ctyp[l] = t
				continue
			}
			if !oka {
				va = a.Load(l, t)
			}
			if !okb {
				vb = b.Load(l, t)
			}
		}
		n.cells[l] = TIte(c, va, vb)
		n.ctyp[l] = t
	}
	cls := map[string]bool{}
	for k := range a.ep {
		cls[k] = true
	}
	for k := range b.ep {
		cls[k] = true
	}
	for k := range cls {
		n.ep[k] = iteEpoch(c, a.epoch(k), b.epoch(k))
	}
	return n
}
