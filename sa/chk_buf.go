package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C25: the memory of contacts.

func checkC25(c *Ctx) {
	max := constInt(c, "MAX_CONTACTS_PER_ARBITER")
	perPair, size := TNum(max), TNum(constInt(c, "CONTACTS_BUFFER_SIZE"))

	rule := "fresh buffers"
	c.part("Space.PushFreshContactBuffer", func() {
		name := "Space.PushFreshContactBuffer"
		s := c.sum(name, "buf", Config{NoEnter: true})
		sp, pos := s.Params[0], s.Fn.Pos()
		old := get(s.Entry, sp, "contactBuffersHead")
		now := get(s.Mem, sp, "contactBuffersHead")
		stamp := get(s.Entry, sp, "stamp")
		// the buffers form a ring
		f := And(typeFact(s), Or(Not(notNil(old)), notNil(get(s.Entry, sp, "contactBuffersHead.next"))))
		some := And(f, notNil(old))
		tail := get(s.Entry, sp, "contactBuffersHead.next")
		c.ob(proveEq(get(s.Mem, sp, "contactBuffersHead.stamp"), stamp, f), rule, name+" stamp", pos, "a buffer taken into use is stamped %s", short(get(s.Mem, sp, "contactBuffersHead.stamp")))
		c.ob(proveEq(get(s.Mem, sp, "contactBuffersHead.numContacts"), TInt(0), f), rule, name+" empty", pos, "a buffer taken into use holds %s contacts", short(get(s.Mem, sp, "contactBuffersHead.numContacts")))
		// which buffer: the oldest one only once nothing that may still be looked
		// at has its contacts there
		young := CondLe(stamp, TAdd(get(s.Entry, sp, "contactBuffersHead.next.stamp"), get(s.Entry, sp, "collisionPersistence")), true)
		nFresh := 0
		leaves(now, bddTrue, func(g *BDD, v *Term) {
			x := And(f, g)
			if !sat(x) {
				return
			}
			if v.op == OAlloc {
				nFresh++
				c.ob(implies(x, Or(Not(notNil(old)), young)), rule, name+" ring", pos, "a buffer is made although the oldest one is free when %s", shortB(x))
				// the ring stays closed: the new one comes between the newest and the oldest
				nx := get(s.Mem, sp, "contactBuffersHead.next")
				if y := And(x, Not(notNil(old))); sat(y) {
					c.ob(proveEq(nx, v, y), rule, name+" first", pos, "the first buffer is followed by %s, not itself", short(nx))
				}
				if y := And(x, notNil(old)); sat(y) {
					c.ob(proveEq(nx, tail, y), rule, name+" before the oldest", pos, "the new buffer is followed by %s, not the oldest one", short(nx))
					c.ob(proveEq(get(s.Mem, old, "next"), v, y), rule, name+" after the newest", pos, "the newest buffer is followed by %s, not the new one", short(get(s.Mem, old, "next")))
				}
				return
			}
			ok := sat(And(x, notNil(old))) && proveEq(v, tail, x)
			if c.ob(ok, rule, name+" which", pos, "contacts go to %s, neither a new buffer nor the oldest one", short(v)) {
				c.ob(implies(And(x, notNil(old)), Not(young)), rule, name+" reuse", pos, "the oldest buffer is used again while contacts in it may still be compared with those of the next step")
				c.ob(proveEq(get(s.Mem, tail, "next"), get(s.Entry, tail, "next"), And(x, notNil(old))), rule, name+" ring kept", pos, "the buffer used again is followed by %s", short(get(s.Mem, tail, "next")))
				c.ob(proveEq(get(s.Mem, old, "next"), tail, AndAll(x, notNil(old), Not(CondEq(old, tail)))), rule, name+" ring kept", pos, "the newest buffer is followed by %s", short(get(s.Mem, old, "next")))
			}
		})
		c.ob(nFresh > 0 && sat(some), rule, name+" makes one", pos, "no buffer is ever made")
	})
	c.part("Space.Step fresh", func() { c.freshEachStep(rule) })
	c.atLeast(rule, 8)

	rule = "room"
	c.part("Space.ContactBufferGetArray", func() {
		name := "Space.ContactBufferGetArray"
		s := c.sum(name, "buf", Config{NoEnter: true})
		sp, pos := s.Params[0], s.Fn.Pos()
		f := And(typeFact(s), notNil(get(s.Entry, sp, "contactBuffersHead")))
		n := get(s.Mem, sp, "contactBuffersHead.numContacts")
		arr := func(t, head *Term) bool {
			return t.op == OField && lastField(t) == "contacts" && t.args[0] == head
		}
		cnt := 0
		leaves(s.Ret, bddTrue, func(g *BDD, v *Term) {
			x := And(f, g)
			if !sat(x) {
				return
			}
			cnt++
			lo, hi := TInt(0), TLen(v)
			b := v
			for b.op == OApp && b.name == "slice" {
				lo = TAdd(lo, b.args[1])
				b = b.args[0]
			}
			hi = TAdd(lo, TLen(v))
			head := func() bool {
				ok := true
				leaves(get(s.Mem, sp, "contactBuffersHead"), bddTrue, func(g2 *BDD, h *Term) {
					if sat(And(x, g2)) && !arr(b, h) {
						ok = false
					}
				})
				return ok
			}
			c.ob(head(), rule, name+" buffer", pos, "the slice handed out is of %s, not of the buffer in use", short(b))
			c.ob(proveEq(lo, n, x), rule, name+" place", pos, "contacts are written from number %s on, the first free one is number %s", short(lo), short(n))
			c.ob(proveEq(TLen(v), perPair, x), rule, name+" length", pos, "the slice handed out has room for %s contacts", short(TLen(v)))
			y := x
			if n0 := get(s.Entry, sp, "contactBuffersHead.numContacts"); true {
				y = And(y, CondLe(TInt(0), n0, true))
			}
			c.ob(proveLE(hi, size, y), rule, name+" end", pos, "the slice handed out may end at %s", short(hi))
			c.ob(proveLE(TInt(0), lo, y), rule, name+" start", pos, "the slice handed out may start at %s", short(lo))
		})
		c.ob(cnt > 0, rule, name, pos, "no slice is handed out")
		// a full buffer is left for a fresh one, one with room is not
		used := CondEq(get(s.Mem, sp, "contactBuffersHead"), get(s.Entry, sp, "contactBuffersHead"))
		fits := CondLe(TAdd(get(s.Entry, sp, "contactBuffersHead.numContacts"), perPair), size, true)
		c.ob(implies(And(f, fits), used), rule, name+" kept", pos, "a buffer with room is left for a fresh one")
		long := false
		st, _ := c.named("ContactBuffer").Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if a, isArr := st.Field(i).Type().Underlying().(*types.Array); isArr && st.Field(i).Name() == "contacts" {
				long = proveEq(TNum(a.Len()), size, bddTrue)
			}
		}
		c.ob(long, rule, name+" size", pos, "a buffer is not an array of CONTACTS_BUFFER_SIZE contacts")
	})
	c.part("claims", func() {
		for _, w := range []struct {
			name string
			sign int64
		}{{"Space.PushContacts", 1}, {"Space.PopContacts", -1}} {
			s := c.sum(w.name, "buf", Config{NoEnter: true})
			sp := s.Params[0]
			want := TAdd(get(s.Entry, sp, "contactBuffersHead.numContacts"), TScale(s.Params[1], w.sign, 1))
			got := get(s.Mem, sp, "contactBuffersHead.numContacts")
			c.ob(proveEq(got, want, s.G), rule, w.name, s.Fn.Pos(), "the buffer in use then holds %s contacts", short(got))
		}
	})
	c.atLeast(rule, 9)

	rule = "contacts found"
	c.part("CollisionInfo.PushContact", func() {
		name := "CollisionInfo.PushContact"
		s := c.sum(name, "buf", Config{NoEnter: true})
		info, pos := s.Params[0], s.Fn.Pos()
		f := s.G
		n := get(s.Entry, info, "count")
		el := elemAddr(get(s.Entry, info, "arr"), n)
		for k, fd := range []string{"r1", "r2"} {
			got, want := getV(s.Mem, el, fd), vec(s.Params[1+k])
			c.ob(proveEq(got.x, want.x, f) && proveEq(got.y, want.y, f), rule, name+" "+fd, pos, "%s of the contact becomes %s, %s", fd, short(got.x), short(got.y))
		}
		c.ob(proveEq(get(s.Mem, el, "hash"), s.Params[3], f), rule, name+" hash", pos, "the hash of the contact becomes %s", short(get(s.Mem, el, "hash")))
		c.ob(proveEq(get(s.Mem, info, "count"), TAdd(n, TInt(1)), f), rule, name+" count", pos, "the number of contacts becomes %s", short(get(s.Mem, info, "count")))
	})
	c.part("at most", func() { c.atMostPerPair(rule, int(max)) })
	c.part("Arbiter.Update", func() {
		name := "Arbiter.Update"
		s := c.sum(name, "upd", Config{NoEnter: true, KeepOnUser: func(string) bool { return true }, Opaque: func(fn *ssa.Function) bool { return fname(fn) == "Space.LookupHandler" }})
		arb, info, pos := s.Params[0], s.Params[1], s.Fn.Pos()
		f := typeFact(s)
		got := get(s.Mem, arb, "contacts")
		ok := true
		leaves(got, bddTrue, func(g *BDD, v *Term) {
			x := And(f, g)
			if sat(x) && !(v.op == OApp && v.name == "slice" && sliceOf(v, get(s.Entry, info, "arr"), get(s.Entry, info, "count"), x)) {
				ok = false
				got = v
			}
		})
		c.ob(ok, rule, name+" contacts", pos, "the contacts of the pair become %s, not those just found", short(got))
	})
	c.atLeast(rule, 12)
}

// atMostPerPair: no collision function reports more contacts than a pair has
// room for.
func (c *Ctx) atMostPerPair(rule string, max int) {
	info := c.named("CollisionInfo")
	n := 0
	for _, fn := range c.p.eff.addrTak {
		sig := fn.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 0 || !types.Identical(sig.Params().At(0).Type(), types.NewPointer(info)) {
			continue
		}
		n++
		fl := newFlow(c.p)
		var bad ssa.Instruction
		where := ""
		fl.Instr = func(fr *FFrame, in ssa.Instruction, st S) ([]S, bool) {
			x, ok := in.(*ssa.Store)
			if !ok {
				return nil, false
			}
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || addrClassOf(fa) != "CollisionInfo.count" {
				return nil, false
			}
			k := st.(int) + 1
			if k > max {
				k = max + 1
				if bad == nil {
					bad, where = in, fr.path()
				}
			}
			return []S{k}, true
		}
		fl.Run(fn, 0)
		c.sites += fl.steps
		pos := fn.Pos()
		if bad != nil {
			pos = bad.Pos()
		}
		c.ob(bad == nil, rule, fname(fn)+" at most", pos, "more than %d contacts may be pushed (%s)", max, where)
	}
	c.ob(n >= 6 && max > 0, rule, "collision functions", token.NoPos, "%d collision functions found", n)
}

// freshEachStep: collisions are looked for with a buffer taken into use at the
// time of that step.
func (c *Ctx) freshEachStep(rule string) {
	name := "Space.Step"
	f := newFlow(c.p)
	ok := false
	f.Instr = func(fr *FFrame, in ssa.Instruction, st S) ([]S, bool) {
		switch x := in.(type) {
		case *ssa.Store:
			if fa, isFa := x.Addr.(*ssa.FieldAddr); isFa {
				switch addrClassOf(fa) {
				case "Space.stamp":
					return []S{1}, true
				case "Space.contactBuffersHead":
					if st.(int) >= 1 {
						return []S{2}, true
					}
				}
			}
		case *ssa.Call:
			if x.Call.IsInvoke() && x.Call.Method.Name() == "ReindexQuery" {
				ok = true
				if st.(int) != 2 {
					c.fail(rule, name+" each step", x.Pos(), "collisions are looked for before a contact buffer is taken into use at the time of this step (%s)", fr.path())
				}
			}
		}
		return nil, false
	}
	fn := c.fn(name)
	f.Run(fn, 0)
	c.sites += f.steps
	c.ob(ok, rule, name+" each step", fn.Pos(), "collisions are not looked for")
}

func init() {
	register(&Check{ID: "C25", Run: checkC25, Assume: []string{"claims and releases of buffer room come in pairs (C06, C16)", "arbiters leave the cache once older than collisionPersistence (C16)"},
		Explanation: "Guarded value summaries of the contact buffers, typestate of contacts pushed per collision function and of the buffer in use during a step."})
}
