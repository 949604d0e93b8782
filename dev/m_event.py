s='space.go'; a='arbiter.go'; h='hashset_arbiter.go'
M('C16',s,'if arb.state == CP_ARBITER_STATE_FIRST_COLLISION && !arb.handler.BeginFunc','if !arb.handler.BeginFunc')
M('C16',s,'		arb.Ignore()\n','		arb.state = CP_ARBITER_STATE_NORMAL\n')
M('C16',s,'		arb.handler.PreSolveFunc(arb, space, arb.handler.UserData) &&\n		// Check (again) in case the pre-solve() callback called cpArbiterIgnored().\n		arb.state != CP_ARBITER_STATE_IGNORE &&','		arb.handler.PreSolveFunc(arb, space, arb.handler.UserData) &&')
M('C16',s,'!(a.sensor || b.sensor)','!(a.sensor && b.sensor)')
M('C16',s,'		!(a.sensor || b.sensor) &&\n','',[(s,'	if arb.state != CP_ARBITER_STATE_IGNORE &&\n		// Call PreSolve','	if arb.state != CP_ARBITER_STATE_IGNORE && !(a.sensor || b.sensor) &&')])
M('C16',s,'!(a.body.m == INFINITY && b.body.m == INFINITY)','!(a.body.m == INFINITY || b.body.m == INFINITY)')
M('C16',s,'		space.PopContacts(info.count)\n		arb.contacts = nil\n		arb.count = 0\n','		space.PopContacts(info.count)\n		arb.contacts = nil\n')
M('C16',s,'		space.PopContacts(info.count)\n		arb.contacts','		arb.contacts')
M('C16',s,'		if arb.state != CP_ARBITER_STATE_IGNORE {\n			arb.state = CP_ARBITER_STATE_NORMAL\n		}\n','')
M('C16',s,'	arb.stamp = space.stamp\n	return info.collisionId','	return info.collisionId')
M('C16',s,'	arb.stamp = space.stamp\n	return info.collisionId','	if arb.count > 0 {\n	arb.stamp = space.stamp\n}\n	return info.collisionId')
M('C16',s,'	return info.collisionId\n}','	return collisionId\n}')
M('C16',h,'if ticks >= 1 && arb.state != CP_ARBITER_STATE_CACHED {','if ticks > 1 && arb.state != CP_ARBITER_STATE_CACHED {')
M('C16',h,'if ticks >= 1 && arb.state != CP_ARBITER_STATE_CACHED {','if ticks == 1 && arb.state != CP_ARBITER_STATE_CACHED {')
M('C16',h,'if ticks >= 1 && arb.state != CP_ARBITER_STATE_CACHED {','if ticks >= 1 && arb.state == CP_ARBITER_STATE_NORMAL {')
M('C16',h,'		arb.state = CP_ARBITER_STATE_CACHED\n		handler := arb.handler\n		handler.SeparateFunc(arb, space, handler.UserData)\n','		handler := arb.handler\n		handler.SeparateFunc(arb, space, handler.UserData)\n		arb.state = CP_ARBITER_STATE_CACHED\n')
M('C16',h,'&& (b.GetType() == BODY_STATIC || b.IsSleeping())','|| (b.GetType() == BODY_STATIC || b.IsSleeping())')
M('C16',h,'ticks >= space.collisionPersistence','ticks > space.collisionPersistence')
M('C16',h,'if shape != nil && arb.state != CP_ARBITER_STATE_CACHED','if shape != nil && arb.state == CP_ARBITER_STATE_NORMAL')
M('C16',h,'		arb.Unthread()\n','')
M('C16',h,'(body == arb.body_b && (shape == arb.b || shape == nil))','(body == arb.body_b && shape == arb.b)')
M('C16',a,'	if arb.state == CP_ARBITER_STATE_CACHED {\n','	if arb.state == CP_ARBITER_STATE_CACHED && arb.count == 0 {\n')
M('C16',a,'	if arb.state == CP_ARBITER_STATE_CACHED {\n		arb.state = CP_ARBITER_STATE_FIRST_COLLISION','	if arb.state >= CP_ARBITER_STATE_IGNORE {\n		arb.state = CP_ARBITER_STATE_FIRST_COLLISION')
M('C16',a,'swapped := typeA != handler.TypeA && handler.TypeA != WILDCARD_COLLISION_TYPE','swapped := typeA != handler.TypeA')
M('C16',a,'if handler != space.defaultHandler || space.usesWildcards {','if handler != space.defaultHandler && space.usesWildcards {')
M('C16',a,'arb.handlerA = space.LookupHandler(typeB, WILD','arb.handlerA = space.LookupHandler(typeA, WILD',[(a,'arb.handlerB = space.LookupHandler(typeA, WILD','arb.handlerB = space.LookupHandler(typeB, WILD')])
M('C16',a,'	return retA && retB\n','	return retA || retB\n')
M('C16',a,'	retA := arb.CallWildcardPreSolveA(space)\n	retB := arb.CallWildcardPreSolveB(space)\n	return retA && retB','	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)')
M('C16',a,'	handler := arb.handlerB\n	arb.swapped = !arb.swapped\n	handler.SeparateFunc','	handler := arb.handlerA\n	arb.swapped = !arb.swapped\n	handler.SeparateFunc')
M('C16',s,'		space.usesWildcards = true\n','')
M('C16',s,'		space.defaultHandler = &CollisionHandlerDefault\n','')
M('C16',s,'	space.UseWildcardDefaultHandler()\n\n','')
M('C16',s,'return (a == arb.a && b == arb.b) || (b == arb.a && a == arb.b)','return a == arb.a && b == arb.b')
M('C16','collision.go','return a*hashCoef ^ b*hashCoef','return a*hashCoef ^ b')
M('C16',s,'handler := &CollisionHandler{collisionType, WILDCARD_COLLISION_TYPE, AlwaysCollide, AlwaysCollide, DoNothing, DoNothing, nil}','handler := &CollisionHandler{collisionType, WILDCARD_COLLISION_TYPE, DefaultBegin, AlwaysCollide, DoNothing, DoNothing, nil}')
M('C16',s,'	space.FilterArbiters(body, shape)\n','	space.FilterArbiters(body, nil)\n')
M('C16',s,'	if handler != nil {\n		return handler\n	}\n	return defaultHandler','	if handler != nil && handler.TypeA == a {\n		return handler\n	}\n	return defaultHandler')
M('C16',a,'	arbiter.state = CP_ARBITER_STATE_FIRST_COLLISION\n','')
M('C16',a,'	arbiter.UserData = nil\n','')
M('C17',a,'	arb.swapped = !arb.swapped\n	retVal := handler.BeginFunc(arb, space, handler.UserData)\n	arb.swapped = !arb.swapped\n','	arb.swapped = true\n	retVal := handler.BeginFunc(arb, space, handler.UserData)\n	arb.swapped = false\n')
M('C17',a,'	arb.swapped = !arb.swapped\n	handler.SeparateFunc(arb, space, handler.UserData)\n	arb.swapped = !arb.swapped\n','	arb.swapped = !arb.swapped\n	handler.SeparateFunc(arb, space, handler.UserData)\n')
M('C17',a,'	if arb.swapped {\n		return sum\n	}\n	return sum.Neg()','	if arb.swapped {\n		return sum.Neg()\n	}\n	return sum')
M('C17',a,'		return arb.n.Mult(-1)\n	} else {\n		return arb.n','		return arb.n\n	} else {\n		return arb.n')
M('C17',a,'		set.Points[i].Distance = p2.Sub(p1).Dot(n)','		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)')
M('C17',a,'			arb.contacts[i].r1 = p2.Sub(arb.body_a.p)\n			arb.contacts[i].r2 = p1.Sub(arb.body_b.p)','			arb.contacts[i].r1 = p2.Sub(arb.body_b.p)\n			arb.contacts[i].r2 = p1.Sub(arb.body_a.p)')
M('C17',a,'		arb.n = set.Normal.Neg()\n','		arb.n = set.Normal\n')
M('C17',a,'	set.Count = arb.Count()\n','	set.Count = arb.count\n')
M('C17','body.go','arb.swapped = body == arb.body_b\n','arb.swapped = arb.swapped != (body == arb.body_b)\n')
M('C17','body.go','		arb.swapped = swapped\n','')
M('C17','body.go','		next := arb.Next(body)\n','		next := arb.thread_a.next\n')
# refactorings
R('C16 C17',s,'''	// Ignore the arbiter if it has been flagged
	if arb.state != CP_ARBITER_STATE_IGNORE &&
		// Call PreSolve
		arb.handler.PreSolveFunc(arb, space, arb.handler.UserData) &&
		// Check (again) in case the pre-solve() callback called cpArbiterIgnored().
		arb.state != CP_ARBITER_STATE_IGNORE &&
		// Process, but don't add collisions for sensors.
		!(a.sensor || b.sensor) &&
		// Don't process collisions between two infinite mass bodies.
		// This includes collisions between two kinematic bodies, or a kinematic body and a static body.
		!(a.body.m == INFINITY && b.body.m == INFINITY) {
		space.arbiters = append(space.arbiters, arb)
	} else {
		space.PopContacts(info.count)
		arb.contacts = nil
		arb.count = 0

		// Normally arbiters are set as used after calling the post-solve callback.
		// However, post-solve() callbacks are not called for sensors or arbiters rejected from pre-solve.
		if arb.state != CP_ARBITER_STATE_IGNORE {
			arb.state = CP_ARBITER_STATE_NORMAL
		}
	}
''','''	solve := false
	if arb.state != CP_ARBITER_STATE_IGNORE {
		solve = arb.handler.PreSolveFunc(arb, space, arb.handler.UserData)
		if arb.state == CP_ARBITER_STATE_IGNORE || a.sensor || b.sensor {
			solve = false
		}
		if a.body.m == INFINITY && b.body.m == INFINITY {
			solve = false
		}
	}
	if !solve {
		space.discard(arb, info.count)
	} else {
		space.arbiters = append(space.arbiters, arb)
	}
''',[(s,'func (space *Space) PushFreshContactBuffer','''func (space *Space) discard(arb *Arbiter, n int) {
	if arb.state != CP_ARBITER_STATE_IGNORE {
		arb.state = CP_ARBITER_STATE_NORMAL
	}
	arb.count, arb.contacts = 0, nil
	space.contactBuffersHead.numContacts -= n
}

func (space *Space) PushFreshContactBuffer''')])
R('C16 C17',h,'''	if (a.GetType() == BODY_STATIC || a.IsSleeping()) && (b.GetType() == BODY_STATIC || b.IsSleeping()) {
		return true
	}
''','''	still := func(x *Body) bool { return x.GetType() == BODY_STATIC || x.IsSleeping() }
	if still(a) && still(b) {
		return true
	}
''')
R('C16 C17',h,'''	if ticks >= space.collisionPersistence {
		arb.contacts = nil
		arb.count = 0
		space.pooledArbiters.Put(arb)
		return false
	}

	return true''','''	if ticks < space.collisionPersistence {
		return true
	}
	arb.contacts, arb.count = nil, 0
	space.pooledArbiters.Put(arb)
	return false''')
R('C16 C17',a,'''		if swapped {
			arb.handlerA = space.LookupHandler(typeB, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
			arb.handlerB = space.LookupHandler(typeA, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
		} else {
			arb.handlerA = space.LookupHandler(typeA, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
			arb.handlerB = space.LookupHandler(typeB, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
		}
''','''		if swapped {
			typeA, typeB = typeB, typeA
		}
		arb.handlerB = space.LookupHandler(typeB, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
		arb.handlerA = space.LookupHandler(typeA, WILDCARD_COLLISION_TYPE, &CollisionHandlerDoNothing)
''')
R('C16 C17',a,'''	handler := arb.handlerB
	arb.swapped = !arb.swapped
	retVal := handler.BeginFunc(arb, space, handler.UserData)
	arb.swapped = !arb.swapped
	return retVal''','''	was := arb.swapped
	arb.swapped = !was
	defer func() { arb.swapped = was }()
	return arb.handlerB.BeginFunc(arb, space, arb.handlerB.UserData)''')
R('C16 C17',a,'''	handler := arb.handlerB
	arb.swapped = !arb.swapped
	retVal := handler.BeginFunc(arb, space, handler.UserData)
	arb.swapped = !arb.swapped
	return retVal''','''	return arb.callB(func(h *CollisionHandler) bool { return h.BeginFunc(arb, space, h.UserData) })''',[(a,'func (arb *Arbiter) CallWildcardBeginB','func (arb *Arbiter) callB(f func(*CollisionHandler) bool) bool {\n	arb.swapped = !arb.swapped\n	r := f(arb.handlerB)\n	arb.swapped = !arb.swapped\n	return r\n}\n\nfunc (arb *Arbiter) CallWildcardBeginB')])
R('C16 C17',a,'''	shapeA, shapeB := arb.Shapes()
	return shapeA.body, shapeB.body''','''	if arb.swapped {
		return arb.body_b, arb.body_a
	}
	return arb.body_a, arb.body_b''')
R('C16 C17',a,'''	for i := 0; i < set.Count; i++ {
		// Contact points are relative to body CoGs;
		p1 := arb.body_a.p.Add(arb.contacts[i].r1)
		p2 := arb.body_b.p.Add(arb.contacts[i].r2)
''','''	for i := range set.Points {
		if i >= set.Count {
			break
		}
		con := &arb.contacts[i]
		// Contact points are relative to body CoGs;
		p1 := arb.body_a.p.Add(con.r1)
		p2 := arb.body_b.p.Add(con.r2)
''')
R('C16 C17',a,'''	for i := 0; i < count; i++ {
		con := arb.contacts[i]
		sum = sum.Add''','''	for _, con := range arb.contacts[:count] {
		sum = sum.Add''')
R('C16 C17','body.go','''	arb := body.arbiterList
	for arb != nil {
		next := arb.Next(body)
		swapped := arb.swapped
''','''	var next *Arbiter
	for arb := body.arbiterList; arb != nil; arb = next {
		next = arb.thread_b.next
		if arb.body_a == body {
			next = arb.thread_a.next
		}
		swapped := arb.swapped
''',[('body.go','		arb.swapped = swapped\n		arb = next\n','		arb.swapped = swapped\n')])
R('C16 C17',h,'''		for i, arbiter := range space.arbiters {
			if arb == arbiter {
				space.arbiters = append(space.arbiters[:i], space.arbiters[i+1:]...)
				break
			}
		}''','''		for i := len(space.arbiters) - 1; i >= 0; i-- {
			if space.arbiters[i] == arb {
				space.arbiters = append(space.arbiters[:i], space.arbiters[i+1:]...)
				break
			}
		}''')
R('C16 C17',s,'	if info.count == 0 {\n		// shapes are not colliding\n		return info.collisionId\n	}\n','	if info.count <= 0 {\n		// shapes are not colliding\n		return info.collisionId\n	}\n')
