s='space.go'; b='body.go'; h='hashset_arbiter.go'
M('C07',s,'		space.staticBodies = append(space.staticBodies, body)\n	} else {\n		space.dynamicBodies = append(space.dynamicBodies, body)\n	}\n	body.space = space','		space.staticBodies = append(space.staticBodies, body)\n	}\n	if body.GetType() != BODY_KINEMATIC {\n		space.dynamicBodies = append(space.dynamicBodies, body)\n	}\n	body.space = space')
M('C07',s,'	body.space = space\n	return body','	return body')
M('C07',s,'	body.space = nil\n}\n\nfunc (space *Space) FilterArbiters','}\n\nfunc (space *Space) FilterArbiters')
M('C07',s,'	if body.GetType() == BODY_STATIC {\n		for i, b := range space.staticBodies','	if body.GetType() != BODY_DYNAMIC {\n		for i, b := range space.staticBodies')
M('C07',s,'''	body.Activate()
	if body.GetType() == BODY_STATIC {
		for i, b''','''	defer body.Activate()
	if body.GetType() == BODY_STATIC {
		for i, b''')
M('C07',s,'	space.shapeIDCounter += 1\n','	if !isStatic {\n		space.shapeIDCounter += 1\n	}\n')
M('C07',s,'	shape.Update(body.transform)\n\n	if isStatic {\n		space.staticShapes.class.Insert(shape, shape.HashId())\n	} else {\n		space.dynamicShapes.class.Insert(shape, shape.HashId())\n	}\n','	if isStatic {\n		space.staticShapes.class.Insert(shape, shape.HashId())\n	} else {\n		space.dynamicShapes.class.Insert(shape, shape.HashId())\n	}\n	shape.Update(body.transform)\n')
M('C07',s,'	isStatic := body.GetType() == BODY_STATIC\n	if !isStatic {\n		body.Activate()\n	}\n	body.AddShape','	isStatic := body.GetType() != BODY_DYNAMIC\n	if !isStatic {\n		body.Activate()\n	}\n	body.AddShape')
M('C07',s,'	shape.SetSpace(space)\n','')
M('C07',s,'	space.FilterArbiters(body, shape)\n	if isStatic','	space.FilterArbiters(body, nil)\n	if isStatic') 
M('C07',s,'	shape.space = nil\n	shape.hashid = 0','	shape.hashid = 0')
M('C07',s,'	shape.space = nil\n	shape.hashid = 0','	shape.space = nil',[(s,'	space.FilterArbiters(body, shape)\n','	space.FilterArbiters(body, shape)\n	shape.hashid = 0\n')])
M('C07',s,'	constraint.b.RemoveConstraint(constraint)\n','')
M('C07',s,'	constraint.next_b = b.constraintList\n	b.constraintList = constraint','	b.constraintList = constraint\n	constraint.next_b = b.constraintList')
M('C07',s,'	b.constraintList = constraint\n','	if b.GetType() == BODY_DYNAMIC {\n		b.constraintList = constraint\n	}\n')
M('C07',s,'	constraint.space = nil\n','')
M('C07',s,'''	constraint.a.Activate()
	constraint.b.Activate()
	for i, c''','''	constraint.a.Activate()
	defer constraint.b.Activate()
	for i, c''')
M('C07',b,'	} else if node.a == body {\n		node.next_a = filter','	} else if node.b != body {\n		node.next_b = node.next_b\n		node.next_a = filter') if 0 else None
M('C07',b,'		node.next_b = filterConstraints(node.next_b, body, filter)','		filterConstraints(node.next_b, body, filter)')
M('C07',b,'		return node.Next(body)\n	} else','		return node.next_a\n	} else')
M('C07',b,'	if shape.MassInfo().m > 0 {\n		body.Acc','	if shape.MassInfo().m > 1 {\n		body.Acc')
M('C07',b,'body.shapeList[i] = body.shapeList[last]','body.shapeList[i] = body.shapeList[0]')
M('C07',b,'	body.shapeList = append(body.shapeList, shape)\n	if shape.MassInfo().m > 0 {\n		body.AccumulateMassFromShapes()\n	}\n','	if shape.MassInfo().m > 0 {\n		body.AccumulateMassFromShapes()\n	}\n	body.shapeList = append(body.shapeList, shape)\n')
M('C07',h,'		for i, arbiter := range space.arbiters {','		for i, arbiter := range space.arbiters[1:] {')
M('C07',h,'(shape == arb.b || shape == nil)','(shape == arb.b || shape == arb.a)')
M('C07',h,'		arb.Unthread()\n','		if arb.state != CP_ARBITER_STATE_CACHED {\n			arb.Unthread()\n		}\n')
M('C07',s,'	return shape.space == space','	return shape.space != nil')
M('C07',s,'		space.StaticBody.space = nil\n','')
# refactorings
R('C07',b,'''	body.constraintList = filterConstraints(body.constraintList, body, constraint)
''','''	var prev *Constraint
	for cur := body.constraintList; cur != nil; cur = cur.Next(body) {
		if cur == constraint {
			next := cur.Next(body)
			if prev == nil {
				body.constraintList = next
			} else if prev.a == body {
				prev.next_a = next
			} else {
				prev.next_b = next
			}
			break
		}
		prev = cur
	}
''')
R('C07',s,'''	if isStatic {
		space.staticShapes.class.Remove(shape, shape.hashid)
	} else {
		space.dynamicShapes.class.Remove(shape, shape.hashid)
	}
''','''	index := space.dynamicShapes
	if isStatic {
		index = space.staticShapes
	}
	index.class.Remove(shape, shape.hashid)
''')
R('C07',s,'''	if isStatic {
		space.staticShapes.class.Insert(shape, shape.HashId())
	} else {
		space.dynamicShapes.class.Insert(shape, shape.HashId())
	}
	shape.SetSpace(space)
''','''	shape.SetSpace(space)
	space.indexFor(body).Insert(shape, shape.HashId())
''',[(s,'func (space *Space) AddBody','''func (space *Space) indexFor(body *Body) SpatialIndexer {
	if body.GetType() == BODY_STATIC {
		return space.staticShapes.class
	}
	return space.dynamicShapes.class
}

func (space *Space) AddBody''')])
R('C07',s,'''	if body.GetType() == BODY_STATIC {
		space.staticBodies = append(space.staticBodies, body)
	} else {
		space.dynamicBodies = append(space.dynamicBodies, body)
	}
''','''	list := space.ArrayForBodyType(body.GetType())
	*list = append(*list, body)
''')
R('C07',s,'''	if body.GetType() == BODY_STATIC {
		for i, b := range space.staticBodies {
			if b == body {
				space.staticBodies = append(space.staticBodies[:i], space.staticBodies[i+1:]...)
				break
			}
		}
	} else {
		for i, b := range space.dynamicBodies {
			if b == body {
				space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
				break
			}
		}
	}
''','''	switch body.GetType() {
	case BODY_STATIC:
		space.staticBodies = remove(space.staticBodies, body)
	default:
		space.dynamicBodies = remove(space.dynamicBodies, body)
	}
''',[(s,'func (space *Space) FilterArbiters','''func remove(list []*Body, body *Body) []*Body {
	for i := range list {
		if list[i] != body {
			continue
		}
		copy(list[i:], list[i+1:])
		list[len(list)-1] = nil
		return list[:len(list)-1]
	}
	return list
}

func (space *Space) FilterArbiters''')])
R('C07',s,'''	if body.GetType() == BODY_STATIC {
		for i, b := range space.staticBodies {
			if b == body {
				space.staticBodies = append(space.staticBodies[:i], space.staticBodies[i+1:]...)
				break
			}
		}
	} else {
		for i, b := range space.dynamicBodies {
			if b == body {
				space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
				break
			}
		}
	}
''','''	list := &space.dynamicBodies
	if body.GetType() == BODY_STATIC {
		list = &space.staticBodies
	}
	for i, b := range *list {
		if b == body {
			*list = append((*list)[:i], (*list)[i+1:]...)
			break
		}
	}
''')
R('C07',h,'''	if (body == arb.body_a && (shape == arb.a || shape == nil)) ||
		(body == arb.body_b && (shape == arb.b || shape == nil)) {''','''	onA := body == arb.body_a && (shape == nil || shape == arb.a)
	onB := body == arb.body_b && (shape == nil || shape == arb.b)
	if onA || onB {''')
