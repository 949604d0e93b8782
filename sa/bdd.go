package main

// Boolean conditions are kept as reduced ordered binary decision diagrams over
// canonical atoms (terms of boolean type): the conditions themselves are
// canonical, so two conditions are equal iff they are the same node.

type BDD struct {
	id     int
	v      int // variable index; -1 for terminals
	hi, lo *BDD
}

type bddKey struct{ v, hi, lo int }
type bddIte struct{ f, g, h int }

var (
	bddTrue  = &BDD{id: 1, v: 1 << 30}
	bddFalse = &BDD{id: 0, v: 1 << 30}
	bddNext  = 2
	bddTab   = map[bddKey]*BDD{}
	bddMemo  = map[bddIte]*BDD{}
	bddVars  []*Term         // variable index -> atom
	bddIndex = map[int]int{} // atom id -> variable index
)

func bddNode(v int, hi, lo *BDD) *BDD {
	if hi == lo {
		return hi
	}
	k := bddKey{v, hi.id, lo.id}
	if n := bddTab[k]; n != nil {
		return n
	}
	n := &BDD{id: bddNext, v: v, hi: hi, lo: lo}
	bddNext++
	bddTab[k] = n
	return n
}

func bddAtom(t *Term) *BDD {
	i, ok := bddIndex[t.id]
	if !ok {
		i = len(bddVars)
		bddVars = append(bddVars, t)
		bddIndex[t.id] = i
	}
	return bddNode(i, bddTrue, bddFalse)
}

func bddCof(f *BDD, v int, val bool) *BDD {
	if f.v != v {
		return f
	}
	if val {
		return f.hi
	}
	return f.lo
}

// The amount of work one summary may take is bounded; exceeding it is an
// undecided result, never an answer.
var (
	workDone  int
	workLimit = 12000000
)

func spend(n int) {
	workDone += n
	if workDone > workLimit {
		workDone = 0
		panic(undecided{"analysis budget exhausted"})
	}
}

func bddITE(f, g, h *BDD) *BDD {
	switch {
	case f == bddTrue:
		return g
	case f == bddFalse:
		return h
	case g == h:
		return g
	case g == bddTrue && h == bddFalse:
		return f
	}
	k := bddIte{f.id, g.id, h.id}
	if r := bddMemo[k]; r != nil {
		return r
	}
	spend(1)
	v := f.v
	if g.v < v {
		v = g.v
	}
	if h.v < v {
		v = h.v
	}
	r := bddNode(v, bddITE(bddCof(f, v, true), bddCof(g, v, true), bddCof(h, v, true)),
		bddITE(bddCof(f, v, false), bddCof(g, v, false), bddCof(h, v, false)))
	bddMemo[k] = r
	return r
}

func And(a, b *BDD) *BDD { return bddITE(a, b, bddFalse) }
func Or(a, b *BDD) *BDD  { return bddITE(a, bddTrue, b) }
func Not(a *BDD) *BDD    { return bddITE(a, bddFalse, bddTrue) }
func Xnor(a, b *BDD) *BDD {
	return bddITE(a, b, Not(b))
}
func AndAll(xs ...*BDD) *BDD {
	r := bddTrue
	for _, x := range xs {
		r = And(r, x)
	}
	return r
}
func OrAll(xs ...*BDD) *BDD {
	r := bddFalse
	for _, x := range xs {
		r = Or(r, x)
	}
	return r
}

// bddRestrict simplifies f using that c holds (Coudert-Madre restrict).
func bddRestrict(f, c *BDD) *BDD {
	memo := map[[2]int]*BDD{}
	var rec func(f, c *BDD) *BDD
	rec = func(f, c *BDD) *BDD {
		if c == bddTrue || f == bddTrue || f == bddFalse {
			return f
		}
		if c == bddFalse {
			return f
		}
		if f == c {
			return bddTrue
		}
		k := [2]int{f.id, c.id}
		if r := memo[k]; r != nil {
			return r
		}
		var r *BDD
		if c.v < f.v {
			r = rec(f, Or(c.hi, c.lo))
		} else {
			ch, cl := bddCof(c, f.v, true), bddCof(c, f.v, false)
			switch {
			case ch == bddFalse:
				r = rec(f.lo, cl)
			case cl == bddFalse:
				r = rec(f.hi, ch)
			default:
				r = bddNode(f.v, rec(f.hi, ch), rec(f.lo, cl))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// bddAssign fixes variable v.
func bddAssign(f *BDD, v int, val bool) *BDD {
	memo := map[int]*BDD{}
	var rec func(f *BDD) *BDD
	rec = func(f *BDD) *BDD {
		if f.v > v {
			return f
		}
		if f.v == v {
			return bddCof(f, v, val)
		}
		if r := memo[f.id]; r != nil {
			return r
		}
		r := bddNode(f.v, rec(f.hi), rec(f.lo))
		memo[f.id] = r
		return r
	}
	return rec(f)
}

func bddExists(f *BDD, v int) *BDD {
	return Or(bddAssign(f, v, true), bddAssign(f, v, false))
}

func bddSupport(f *BDD, out map[int]bool) {
	seen := map[int]bool{}
	var rec func(f *BDD)
	rec = func(f *BDD) {
		if f.v == 1<<30 || seen[f.id] {
			return
		}
		seen[f.id] = true
		out[f.v] = true
		rec(f.hi)
		rec(f.lo)
	}
	rec(f)
}

func bddString(f *BDD) string {
	if f == bddTrue {
		return "true"
	}
	if f == bddFalse {
		return "false"
	}
	// sum of products
	var out string
	n := 0
	var rec func(f *BDD, acc string)
	rec = func(f *BDD, acc string) {
		if n > 6 {
			return
		}
		if f == bddFalse {
			return
		}
		if f == bddTrue {
			if out != "" {
				out += " | "
			}
			out += acc
			n++
			return
		}
		sep := ""
		if acc != "" {
			sep = " & "
		}
		s := bddVars[f.v].String()
		rec(f.hi, acc+sep+s)
		rec(f.lo, acc+sep+"!"+s)
	}
	rec(f, "")
	if n > 6 {
		out += " | ..."
	}
	return out
}
