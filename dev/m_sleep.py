s='space.go'; b='body.go'
M('C06',b,'			bodyToo.sleepingRoot = nil\n			bodyToo.sleepingNext = nil\n			space.Activate(bodyToo)','			bodyToo.sleepingRoot = nil\n			space.Activate(bodyToo)\n			bodyToo.sleepingNext = nil')
M('C06',b,'			bodyToo.sleepingIdleTime = 0\n','')
M('C06',b,'		bodyToo := root\n','		bodyToo := body\n')
M('C06',b,'			next := bodyToo.sleepingNext\n','			next := bodyToo.sleepingNext\n			if next == body {\n				next = next.sleepingNext\n			}\n')
M('C06',b,'			if space.sleepingComponents[i] == root {','			if space.sleepingComponents[i] == body {')
M('C06',b,'		for i := 0; i < len(space.sleepingComponents); i++ {','		for i := 0; i < len(space.sleepingComponents)-1; i++ {')
M('C06',b,'		if other.GetType() != BODY_STATIC {\n			other.sleepingIdleTime = 0\n		}','		if other.GetType() != BODY_STATIC && !other.IsSleeping() {\n			other.sleepingIdleTime = 0\n		}')
M('C06',b,'		if other.GetType() != BODY_STATIC {\n			other.sleepingIdleTime = 0\n		}','		other.sleepingIdleTime = 0')
M('C06',b,'	if !(body != nil && body.GetType() == BODY_DYNAMIC) {','	if body == nil || body.GetType() == BODY_STATIC {')
M('C06',s,'''	for _, shape := range body.shapeList {
		space.staticShapes.class.Remove(shape, shape.hashid)
		space.dynamicShapes.class.Insert''','''	for _, shape := range body.shapeList {
		space.staticShapes.class.Insert''')
M('C06',s,'		space.dynamicShapes.class.Remove(shape, shape.hashid)\n		space.staticShapes.class.Insert(shape','		space.dynamicShapes.class.Remove(shape, shape.hashid)\n		space.dynamicShapes.class.Insert(shape')
M('C06',s,'		if body == bodyA || bodyA.GetType() == BODY_STATIC {\n			numContacts','		if body == bodyA {\n			numContacts')
M('C06',s,'		if body == bodyA || bodyA.GetType() == BODY_STATIC {\n			numContacts','		if body == bodyA || bodyA.GetType() != BODY_DYNAMIC {\n			numContacts')
M('C06',s,'			copy(arbiter.contacts, contacts)\n','			_ = contacts\n')
M('C06',s,'			space.PushContacts(numContacts)\n\n			// reins','			// reins')
M('C06',s,'			numContacts := arbiter.count','			numContacts := len(arbiter.contacts)')
M('C06',s,'			arbiter.stamp = space.stamp\n			space.arb','			space.arb')
M('C06',s,'			space.arbiters = append(space.arbiters, arbiter)\n		}\n	}\n\n	for constraint','		}\n	}\n\n	for constraint')
M('C06',s,'		if body == constraint.a || constraint.a.GetType() == BODY_STATIC {','		if body == constraint.a || constraint.b.GetType() == BODY_STATIC {')
M('C06',s,'		if body == bodyA || bodyA.GetType() == BODY_STATIC {\n			space.UncacheArbiter(arb)','		if body == bodyA {\n			space.UncacheArbiter(arb)')
M('C06',s,'			arb.contacts = contacts\n\n','')
M('C06',s,'			contacts := make([]Contact, arb.count, arb.count) // should use make([]Contact, arb.count) instead (S1019)go-staticcheck\n			copy(contacts, arb.contacts[:arb.count])','			contacts := arb.contacts[:arb.count]')
M('C06',s,'		if body == bodyA || bodyA.GetType() == BODY_STATIC {\n			for i, c','		if body == bodyA || constraint.b.GetType() == BODY_STATIC {\n			for i, c')
M('C06',s,'			space.arbiters[i] = space.arbiters[last]\n','			space.arbiters[i] = space.arbiters[0]\n')
M('C06',s,'	space.cachedArbiters.Remove(arbHashId, shapePair)\n','	_, _ = arbHashId, shapePair\n')
M('C06',s,'''	for i, v := range space.dynamicBodies {
		if v == body {''','''	for i, v := range space.dynamicBodies {
		if v.sleepingRoot == body.sleepingRoot {''')
M('C06',s,'				if c == constraint {','				if i > 0 && c == constraint {')
M('C06',s,'			arbiter.contacts = space.ContactBufferGetArray()[:numContacts]\n			copy(arbiter.contacts, contacts)\n			space.PushContacts(numContacts)\n','			space.PushContacts(numContacts)\n			arbiter.contacts = space.ContactBufferGetArray()[:numContacts]\n			copy(arbiter.contacts, contacts)\n')
# refactorings
R('C06',s,'''	for i, v := range space.dynamicBodies {
		if v == body {
			space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
			break
		}
	}

	for _, shape := range body.shapeList {
		space.dynamicShapes''','''	space.dynamicBodies = without(space.dynamicBodies, body)

	for _, shape := range body.shapeList {
		space.dynamicShapes''',[(s,'func (space *Space) Deactivate','''func without(list []*Body, body *Body) []*Body {
	for i, v := range list {
		if v == body {
			return append(list[:i], list[i+1:]...)
		}
	}
	return list
}

func (space *Space) Deactivate''')])
R('C06',s,'''	for i, v := range space.dynamicBodies {
		if v == body {
			space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
			break
		}
	}

	for _, shape := range body.shapeList {
		space.dynamicShapes''','''	if i := indexOf(space.dynamicBodies, body); i >= 0 {
		space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
	}

	for _, shape := range body.shapeList {
		space.dynamicShapes''',[(s,'func (space *Space) Deactivate','''func indexOf(list []*Body, body *Body) int {
	for i, v := range list {
		if v == body {
			return i
		}
	}
	return -1
}

func (space *Space) Deactivate''')])
R('C06',s,'''	for i, v := range space.dynamicBodies {
		if v == body {
			space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
			break
		}
	}

	for _, shape := range body.shapeList {
		space.dynamicShapes''','''	at := -1
	for i := range space.dynamicBodies {
		if space.dynamicBodies[i] == body {
			at = i
			break
		}
	}
	if at >= 0 {
		copy(space.dynamicBodies[at:], space.dynamicBodies[at+1:])
		space.dynamicBodies[len(space.dynamicBodies)-1] = nil
		space.dynamicBodies = space.dynamicBodies[:len(space.dynamicBodies)-1]
	}

	for _, shape := range body.shapeList {
		space.dynamicShapes''')
R('C06',s,'''	for i, v := range space.dynamicBodies {
		if v == body {
			space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
			break
		}
	}

	for _, shape := range body.shapeList {
		space.dynamicShapes''','''	kept := space.dynamicBodies[:0]
	for _, v := range space.dynamicBodies {
		if v != body {
			kept = append(kept, v)
		}
	}
	space.dynamicBodies = kept

	for _, shape := range body.shapeList {
		space.dynamicShapes''')
R('C06',s,'''			for i, c := range space.constraints {
				if c == constraint {
					space.constraints = append(space.constraints[0:i], space.constraints[i+1:]...)
				}
			}''','''			for i, c := range space.constraints {
				if c == constraint {
					last := len(space.constraints) - 1
					space.constraints[i] = space.constraints[last]
					space.constraints = space.constraints[:last]
					break
				}
			}''')
R('C06',s,'''			contacts := make([]Contact, arb.count, arb.count) // should use make([]Contact, arb.count) instead (S1019)go-staticcheck
			copy(contacts, arb.contacts[:arb.count])
			arb.contacts = contacts
''','''			arb.contacts = append([]Contact(nil), arb.contacts[:arb.count]...)
''')
R('C06',s,'''	for _, shape := range body.shapeList {
		space.staticShapes.class.Remove(shape, shape.hashid)
		space.dynamicShapes.class.Insert(shape, shape.hashid)
	}
''','''	moveShapes(body, space.staticShapes, space.dynamicShapes)
''',[(s,'func (space *Space) Deactivate','''func moveShapes(body *Body, from, to *SpatialIndex) {
	for i := 0; i < len(body.shapeList); i++ {
		shape := body.shapeList[i]
		from.class.Remove(shape, shape.hashid)
		to.class.Insert(shape, shape.hashid)
	}
}

func (space *Space) Deactivate''')])
R('C06',b,'''	if root != nil && root.IsSleeping() {
		assert(root.GetType() == BODY_DYNAMIC, "Non-dynamic root")
		space := root.space
		// in the chipmunk code they shadow body, so here I am not
		bodyToo := root
		for bodyToo != nil {
			next := bodyToo.sleepingNext
			bodyToo.sleepingIdleTime = 0
			bodyToo.sleepingRoot = nil
			bodyToo.sleepingNext = nil
			space.Activate(bodyToo)

			bodyToo = next
		}

		for i := 0; i < len(space.sleepingComponents); i++ {
			if space.sleepingComponents[i] == root {
				space.sleepingComponents = append(space.sleepingComponents[:i], space.sleepingComponents[i+1:]...)
				break
			}
		}
	}
''','''	if root != nil && root.IsSleeping() {
		root.wakeComponent()
	}
''',[(b,'// ActivateStatic wakes','''func (root *Body) wakeComponent() {
	space := root.space
	for i, c := range space.sleepingComponents {
		if c == root {
			space.sleepingComponents = append(space.sleepingComponents[:i], space.sleepingComponents[i+1:]...)
			break
		}
	}
	for item := root; item != nil; {
		next := item.sleepingNext
		item.sleepingRoot, item.sleepingNext = nil, nil
		item.sleepingIdleTime = 0
		space.Activate(item)
		item = next
	}
}

// ActivateStatic wakes''')])
R('C06',b,'''		var other *Body
		if arbiter.body_a == body {
			other = arbiter.body_b
		} else {
			other = arbiter.body_a
		}
''','''		other := arbiter.body_a
		if other == body {
			other = arbiter.body_b
		}
''')
