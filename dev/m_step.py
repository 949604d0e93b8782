M('C34','space.go','	if dt == 0 {\n		return\n	}\n\n	space.stamp++','	space.stamp++\n	if dt == 0 {\n		return\n	}\n')
M('C34','space.go','	space.stamp++','	space.stamp += 2')
M('C34','space.go','	space.curr_dt = dt\n','')
M('C34','space.go','		arb.state = CP_ARBITER_STATE_NORMAL\n\n		// If both','		if arb.state == CP_ARBITER_STATE_FIRST_COLLISION {\n			arb.state = CP_ARBITER_STATE_NORMAL\n		}\n		// If both')
M('C34','space.go','if !arb.body_a.IsSleeping() && !arb.body_b.IsSleeping() {\n			arb.Unthread','if !arb.body_a.IsSleeping() || !arb.body_b.IsSleeping() {\n			arb.Unthread')
M('C34','space.go','	space.arbiters = space.arbiters[:0]\n\n	space.Lock()','	space.Lock()')
M('C34','space.go','space.PushFreshContactBuffer()\n		space.dynamicShapes.class.Each','space.dynamicShapes.class.Each')
M('C34','space.go','slop := space.collisionSlop','slop := space.collisionBias')
M('C34','space.go','biasCoef := 1 - math.Pow(space.collisionBias, dt)','biasCoef := 1 - math.Pow(space.collisionBias, prev_dt)')
M('C34','space.go','damping := math.Pow(space.damping, dt)','damping := space.damping')
M('C34','space.go','dt_coef = dt / prev_dt','dt_coef = prev_dt / dt')
M('C34','space.go','	for i = 0; i < space.Iterations; i++','	for i = 1; i < space.Iterations; i++')
M('C34','space.go','			constraint.Class.PreStep(dt)\n','			if constraint.PreSolve == nil {\n				constraint.Class.PreStep(dt)\n			}\n')
M('C34','space.go','	space.ProcessComponents(dt)\n','')
M('C34','space.go','''		for _, arbiter := range space.arbiters {
			arbiter.ApplyCachedImpulse(dt_coef)
		}

		for _, constraint := range space.constraints {
			constraint.Class.ApplyCachedImpulse(dt_coef)
		}
''','',[('space.go','		// Integrate velocities.','''	var dt_coef float64
		if prev_dt != 0 {
			dt_coef = dt / prev_dt
		}
		for _, arbiter := range space.arbiters {
			arbiter.ApplyCachedImpulse(dt_coef)
		}

		for _, constraint := range space.constraints {
			constraint.Class.ApplyCachedImpulse(dt_coef)
		}
'''),('space.go','''		var dt_coef float64
		if prev_dt != 0 {
			dt_coef = dt / prev_dt
		}


''','')])
M('C34','space.go','var ShapeUpdateFunc = func(shape *Shape) {\n	shape.CacheBB()','var ShapeUpdateFunc = func(shape *Shape) {\n	if !shape.sensor {\n		shape.CacheBB()\n	}')
R('C34','space.go','''		damping := math.Pow(space.damping, dt)
		gravity := space.gravity
		for _, body := range space.dynamicBodies {
			body.velocity_func(body, gravity, damping, dt)
		}
''','''		space.integrateVelocities(dt)
''',[('space.go','func (space *Space) Lock() {','''func (space *Space) integrateVelocities(dt float64) {
	for i := 0; i < len(space.dynamicBodies); i++ {
		body := space.dynamicBodies[i]
		body.velocity_func(body, space.gravity, math.Pow(space.damping, dt), dt)
	}
}

func (space *Space) Lock() {''')])
R('C34','space.go','''		for i = 0; i < space.Iterations; i++ {
			for _, arbiter := range space.arbiters {
				arbiter.ApplyImpulse()
			}
''','''		for i = space.Iterations; i > 0; i-- {
			for j := range space.arbiters {
				space.arbiters[j].ApplyImpulse()
			}
''')
R('C34','space.go','''		for _, body := range space.dynamicBodies {
			body.position_func(body, dt)
		}
''','''		bodies := space.dynamicBodies
		for i := len(bodies) - 1; i >= 0; i-- {
			bodies[i].position_func(bodies[i], dt)
		}
''')
R('C34','space.go','''		if !arb.body_a.IsSleeping() && !arb.body_b.IsSleeping() {
			arb.Unthread()
		}
''','''		if arb.body_a.IsSleeping() || arb.body_b.IsSleeping() {
			continue
		}
		arb.Unthread()
''')
R('C34','space.go','''	if dt == 0 {
		return
	}

	space.stamp++
''','''	if dt != 0 {
		space.step(dt)
	}
}

func (space *Space) step(dt float64) {
	space.stamp++
''')
R('C34','space.go','''		for _, constraint := range space.constraints {
			if constraint.PreSolve != nil {
				constraint.PreSolve(constraint, space)
			}

			constraint.Class.PreStep(dt)
		}
''','''		for _, constraint := range space.constraints {
			if f := constraint.PreSolve; f != nil {
				f(constraint, space)
			}
		}
		for _, constraint := range space.constraints {
			constraint.Class.PreStep(dt)
		}
''')
R('C34','space.go','''		space.cachedArbiters.Filter(func(arb *Arbiter) bool {
			return SpaceArbiterSetFilter(arb, space)
		})
''','''		keep := func(arb *Arbiter) bool { return SpaceArbiterSetFilter(arb, space) }
		space.cachedArbiters.Filter(keep)
''')
