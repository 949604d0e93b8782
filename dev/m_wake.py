s='space.go'; sh='shape.go'; b='body.go'; k='constraint.go'
M('C04',b,'	body.Activate()\n	body.a = angle','	body.a = angle')
M('C04',b,'	body.Activate()\n	body.m = mass','	body.m = mass\n	body.Activate()')
M('C04',b,'	body.Activate()\n	body.v = Vector{x, y}','	if x != 0 || y != 0 {\n		body.Activate()\n	}\n	body.v = Vector{x, y}')
M('C04',b,'	body.Activate()\n	body.t = torque','	if body.space != nil {\n		body.Activate()\n	}\n	body.t = torque', )
M('C04',b,'''	body.Activate()

	if newType == BODY_STATIC {
		body.sleepingIdleTime = INFINITY''','''	if newType == BODY_STATIC {
		body.sleepingIdleTime = INFINITY''')
M('C04',b,'''	body.Activate()
	body.f = body.f.Add(force)''','''	body.f = body.f.Add(force)''')
M('C04',b,'''	body.Activate()

	r := point''','''	r := point''')
M('C04',sh,'	s.body.Activate()\n	s.sensor','	s.sensor')
M('C04',sh,'	s.body.Activate()\n	s.Filter','	s.Filter')
M('C04',k,'	c.a.Activate()\n	c.b.Activate()','	c.a.Activate()\n	c.a.Activate()')
M('C04',k,'	c.ActivateBodies()\n	c.collideBodies','	if collideBodies {\n		c.ActivateBodies()\n	}\n	c.collideBodies')
M('C04',s,'		body.ActivateStatic(shape)\n','		body.ActivateStatic(nil)\n		_ = shape\n', ) if 0 else None
M('C04',s,'		body.ActivateStatic(shape)\n','		body.Activate()\n')
M('C04',s,'	isStatic := body.GetType() == BODY_STATIC\n	if isStatic {\n		body.ActivateStatic(shape)\n	} else {\n		body.Activate()\n	}\n\n	body.RemoveShape(shape)\n','	body.RemoveShape(shape)\n	isStatic := body.GetType() == BODY_STATIC\n	if isStatic {\n		body.ActivateStatic(shape)\n	} else {\n		body.Activate()\n	}\n')
M('C04',s,'	body.RemoveShape(shape)\n	space.FilterArbiters(body, shape)','	body.RemoveShape(shape)',[(s,'	isStatic := body.GetType() == BODY_STATIC\n	if isStatic {\n		body.ActivateStatic','	isStatic := body.GetType() == BODY_STATIC\n	space.FilterArbiters(body, shape)\n	if isStatic {\n		body.ActivateStatic')])
M('C04',s,'	a.Activate()\n	b.Activate()\n	space.constraints','	a.Activate()\n	space.constraints')
M('C04',s,'''	b.constraintList = constraint
''','''	b.constraintList = constraint
	b.Activate()
''',[(s,'	a.Activate()\n	b.Activate()\n	space.constraints','	a.Activate()\n	space.constraints')])
M('C04',s,'	if !isStatic {\n		body.Activate()\n	}\n	body.AddShape(shape)','	body.AddShape(shape)\n	if !isStatic {\n		body.Activate()\n	}')
M('C04',s,'	body.Activate()\n	if body.GetType() == BODY_STATIC {\n		for i, b','	if body.GetType() == BODY_STATIC {\n		for i, b')
M('C04',s,'	for len(space.sleepingComponents) > 0 {\n		space.sleepingComponents[0].Activate()\n	}','	for i := 0; i < len(space.sleepingComponents); i++ {\n		space.sleepingComponents[i].Activate()\n	}')
M('C04',s,'	for len(space.sleepingComponents) > 0 {','	for len(space.sleepingComponents) > 1 {')
M('C04',s,'	for len(space.sleepingComponents) > 0 {\n		space.sleepingComponents[0].Activate()\n	}','	for len(space.sleepingComponents) > 0 {\n		space.sleepingComponents[0].Activate()\n		space.sleepingComponents = space.sleepingComponents[:0]\n	}')
M('C04',s,'		if !Contains(space.rousedBodies, body) {\n			space.rousedBodies','		{\n			space.rousedBodies')
M('C04',s,'		if bodies[i] == body {','		if bodies[i].sleepingRoot == body.sleepingRoot {')
M('C04',s,'	for i := 0; i < len(bodies); i++ {','	for i := 1; i < len(bodies); i++ {')
M('C04',s,'	if space.locked != 0 {\n		if !Contains','	if space.locked > 1 {\n		if !Contains')
M('C04',s,'	for i := 0; i < len(space.rousedBodies); i++ {\n		space.Activate','	for i := 1; i < len(space.rousedBodies); i++ {\n		space.Activate')
M('C04',s,'		space.Activate(space.rousedBodies[i])\n','		if space.rousedBodies[i].sleepingRoot != nil {\n			space.Activate(space.rousedBodies[i])\n		}\n')
M('C04',s,'	space.rousedBodies = space.rousedBodies[:0]\n','')
M('C04',s,'	for i := 0; i < len(space.rousedBodies); i++ {\n		space.Activate(space.rousedBodies[i])\n		space.rousedBodies[i] = nil\n	}\n	space.rousedBodies = space.rousedBodies[:0]\n\n	if runPostStep','	if runPostStep {\n	for i := 0; i < len(space.rousedBodies); i++ {\n		space.Activate(space.rousedBodies[i])\n		space.rousedBodies[i] = nil\n	}\n	space.rousedBodies = space.rousedBodies[:0]\n	}\n\n	if runPostStep')
M('C04',b,'if filter == nil || filter == arb.a || filter == arb.b {','if filter == nil || filter == arb.a {')
M('C04',b,'				arb.body_b.Activate()\n			} else {\n				arb.body_a.Activate()','				arb.body_a.Activate()\n			} else {\n				arb.body_b.Activate()')
M('C04',b,'	for arb := body.arbiterList; arb != nil; arb = arb.Next(body) {\n		if filter','	for arb := body.arbiterList; arb != nil; arb = arb.thread_a.next {\n		if filter')
# quiet
R('C04',b,'	body.Activate()\n	body.a = angle\n	body.SetTransform(body.p, angle)','	body.a = angle\n	body.SetTransform(body.p, angle)\n	body.Activate()')
R('C04',b,'	body.Activate()\n	body.v = Vector{x, y}','	body.SetVelocityVector(Vector{x, y})')
R('C04',b,'	body.Activate()\n	body.w = angularVelocity','	body.wake(func() { body.w = angularVelocity })',[(b,'// SetTransform sets','func (body *Body) wake(f func()) {\n	body.Activate()\n	f()\n}\n\n// SetTransform sets')])
R('C04',sh,'	s.body.Activate()\n	s.sensor','	body := s.Body()\n	body.Activate()\n	s.sensor')
R('C04',sh,'	s.body.Activate()\n\n	s.massInfo.m','	s.massInfo.m')
R('C04',k,'	c.ActivateBodies()\n	c.collideBodies','	for _, b := range []*Body{c.a, c.b} {\n		b.Activate()\n	}\n	c.collideBodies')
R('C04',s,'	for len(space.sleepingComponents) > 0 {\n		space.sleepingComponents[0].Activate()\n	}','	for n := len(space.sleepingComponents); n > 0; n = len(space.sleepingComponents) {\n		space.sleepingComponents[n-1].Activate()\n	}')
R('C04',s,'	for len(space.sleepingComponents) > 0 {\n		space.sleepingComponents[0].Activate()\n	}','	space.wakeAll()',[(s,'func (space *Space) Damping','func (space *Space) wakeAll() {\n	for {\n		if len(space.sleepingComponents) == 0 {\n			return\n		}\n		space.sleepingComponents[0].Activate()\n	}\n}\n\nfunc (space *Space) Damping')])
R('C04',s,'	for len(space.sleepingComponents) > 0 {\n		space.sleepingComponents[0].Activate()\n	}','	for _, root := range append([]*Body(nil), space.sleepingComponents...) {\n		root.Activate()\n	}')
R('C04',s,'		if !Contains(space.rousedBodies, body) {\n			space.rousedBodies = append(space.rousedBodies, body)\n		}\n		return','		for _, b := range space.rousedBodies {\n			if b == body {\n				return\n			}\n		}\n		space.rousedBodies = append(space.rousedBodies, body)\n		return')
R('C04',s,'	for i := 0; i < len(bodies); i++ {\n		if bodies[i] == body {\n			return true\n		}\n	}\n	return false','	found := false\n	for _, b := range bodies {\n		if b == body {\n			found = true\n		}\n	}\n	return found')
R('C04',s,'	for i := 0; i < len(bodies); i++ {\n		if bodies[i] == body {\n			return true\n		}\n	}\n	return false','	for i := len(bodies) - 1; i >= 0; i-- {\n		if bodies[i] == body {\n			return true\n		}\n	}\n	return false')
R('C04',s,'	for i := 0; i < len(space.rousedBodies); i++ {\n		space.Activate(space.rousedBodies[i])\n		space.rousedBodies[i] = nil\n	}','	for i, roused := range space.rousedBodies {\n		space.Activate(roused)\n		space.rousedBodies[i] = nil\n	}')
R('C04',s,'	for i := 0; i < len(space.rousedBodies); i++ {\n		space.Activate(space.rousedBodies[i])\n		space.rousedBodies[i] = nil\n	}\n	space.rousedBodies = space.rousedBodies[:0]\n','	space.wakeRoused()\n',[(s,'func (space *Space) Lock','func (space *Space) wakeRoused() {\n	roused := space.rousedBodies\n	space.rousedBodies = space.rousedBodies[:0]\n	for i := range roused {\n		space.Activate(roused[i])\n		roused[i] = nil\n	}\n}\n\nfunc (space *Space) Lock')])
R('C04',b,'	for arb := body.arbiterList; arb != nil; arb = arb.Next(body) {\n		if filter == nil || filter == arb.a || filter == arb.b {\n			if arb.body_a == body {\n				arb.body_b.Activate()\n			} else {\n				arb.body_a.Activate()\n			}\n		}\n	}','	for arb := body.arbiterList; arb != nil; arb = arb.Next(body) {\n		if filter != nil && filter != arb.a && filter != arb.b {\n			continue\n		}\n		other := arb.body_a\n		if other == body {\n			other = arb.body_b\n		}\n		other.Activate()\n	}')
