s='space.go'; b='body.go'; a='arbiter.go'
M('C38',s,'	sleep := space.SleepTimeThreshold != INFINITY\n','	sleep := space.SleepTimeThreshold > 0\n')
M('C38',s,'			dvsq = dv * dv\n','			dvsq = dv\n')
M('C38',s,'			dvsq = space.gravity.LengthSq() * dt * dt','			dvsq = space.gravity.Length() * dt * dt')
M('C38',s,'			if body.GetType() != BODY_DYNAMIC {\n				continue\n			}\n\n			// Need','			// Need')
M('C38',s,'			if body.KineticEnergy() > keThreshold {','			if body.KineticEnergy() > dvsq {')
M('C38',s,'			if body.KineticEnergy() > keThreshold {','			if body.KineticEnergy() >= keThreshold {')
M('C38',s,'				body.sleepingIdleTime += dt\n','				body.sleepingIdleTime = dt\n')
M('C38',s,'			if b.GetType() == BODY_KINEMATIC || a.IsSleeping() {','			if b.GetType() == BODY_KINEMATIC || b.IsSleeping() {')
M('C38',s,'			if a.GetType() == BODY_KINEMATIC || b.IsSleeping() {','			if b.IsSleeping() {')
M('C38',s,'			if constraint.a.GetType() == BODY_KINEMATIC {\n				constraint.b.Activate()\n			}\n','')
M('C38',s,'			if constraint.b.GetType() == BODY_KINEMATIC {\n','			if constraint.b.GetType() != BODY_DYNAMIC {\n')
M('C38',s,'			if body.ComponentRoot() == nil {','			if body.ComponentRoot() == nil && body.sleepingIdleTime >= space.SleepTimeThreshold {')
M('C38',s,'				if !ComponentActive(body, space.SleepTimeThreshold) {','				if !ComponentActive(body, space.SleepTimeThreshold) && body.arbiterList != nil {')
M('C38',s,'					for item := body; item != nil; item = item.sleepingNext {\n						space.Deactivate(item)\n					}','					for item := body.sleepingNext; item != nil; item = item.sleepingNext {\n						space.Deactivate(item)\n					}\n					space.Deactivate(body.sleepingRoot.sleepingRoot)')
M('C38',s,'					continue\n				}\n			}\n\n			i++','					i++\n					continue\n				}\n			}\n\n			i++')
M('C38',s,'					space.sleepingComponents = append(space.sleepingComponents, body)\n','')
M('C38',s,'			body.sleepingNext = nil\n		}\n	}\n}','		}\n	}\n}')
M('C38',s,'		if item.sleepingIdleTime < threshold {','		if item.sleepingIdleTime <= threshold {')
M('C38',s,'	for item := root; item != nil; item = item.sleepingNext {\n		if item','	for item := root; item.sleepingNext != nil; item = item.sleepingNext {\n		if item')
M('C38',s,'		if item.sleepingIdleTime < threshold {\n			return true\n		}\n	}\n	return false','		if item.sleepingIdleTime < threshold {\n			return false\n		}\n	}\n	return true')
M('C38',s,'	if body.GetType() != BODY_DYNAMIC {\n		return\n	}\n\n	// body.sl','	if body.GetType() == BODY_STATIC {\n		return\n	}\n\n	// body.sl')
M('C38',s,'				FloodFillComponent(root, arb.body_b)\n			} else {','				FloodFillComponent(root, arb.body_b)\n			} else if arb.state != CP_ARBITER_STATE_IGNORE {')
M('C38',s,'			if body == constraint.a {\n				FloodFillComponent(root, constraint.b)','			if body == constraint.a {\n				FloodFillComponent(root, constraint.a)')
M('C38',s,'		for constraint := body.constraintList; constraint != nil; constraint = constraint.Next(body) {\n			if body == constraint.a {\n				Fl','		for constraint := body.constraintList; constraint != nil; constraint = constraint.next_a {\n			if body == constraint.a {\n				Fl')
M('C38',b,'		body.sleepingNext = root.sleepingNext\n		root.sleepingNext = body\n','		root.sleepingNext = body\n')
M('C38',b,'	body.sleepingRoot = root\n\n	if body != root','	body.sleepingRoot = root\n\n	if body == root')
M('C38',b,'	return body.sleepingRoot != nil\n','	return body.sleepingNext != nil\n')
M('C39',s,'		arb.Unthread()\n		a.PushArbiter(arb)\n','		a.PushArbiter(arb)\n')
M('C39',s,'		a.PushArbiter(arb)\n		b.PushArbiter(arb)\n','		a.PushArbiter(arb)\n		if b.GetType() != BODY_STATIC {\n			b.PushArbiter(arb)\n		}\n')
M('C39',s,'		a.PushArbiter(arb)\n		b.PushArbiter(arb)\n','		a.PushArbiter(arb)\n		a.PushArbiter(arb)\n')
M('C39',b,'		next.ThreadForBody(body).prev = arb\n	}\n	body.arb','		next.thread_a.prev = arb\n	}\n	body.arb')
M('C39',b,'	if next != nil {\n		next.ThreadForBody(body).prev = arb\n	}\n	body.arb','	body.arb')
M('C39',b,'	arb.ThreadForBody(body).next = next\n','	arb.thread_a.next = next\n')
M('C39',a,'		prev.ThreadForBody(body).next = next\n','		prev.ThreadForBody(arbiter.body_a).next = next\n')
M('C39',a,'	} else if body.arbiterList == arbiter {','	} else {')
M('C39',a,'		next.ThreadForBody(body).prev = prev\n','		next.ThreadForBody(body).prev = nil\n')
M('C39',a,'	thread.prev = nil\n}','}')
M('C39',a,'	if arbiter.body_a == body {\n		return &arbiter.thread_a','	if arbiter.body_b != body {\n		return &arbiter.thread_b')
M('C39',a,'	arbiter.thread_b.prev = nil\n','')
M('C39',a,'		return node.thread_a.next\n','		return node.thread_a.prev\n')
M('C39',s,'			space.UncacheArbiter(arb)\n','			space.UncacheArbiter(arb)\n			arb.thread_a = ArbiterThread{}\n')
R('C38 C39',s,'''			if body.KineticEnergy() > keThreshold {
				body.sleepingIdleTime = 0
			} else {
				body.sleepingIdleTime += dt
			}''','''			idle := body.sleepingIdleTime + dt
			if body.KineticEnergy() > keThreshold {
				idle = 0
			}
			body.sleepingIdleTime = idle''')
R('C38 C39',s,'		for _, body := range space.dynamicBodies {\n			if body.GetType() != BODY_DYNAMIC {\n				continue\n			}\n\n			// Need','		for j := len(space.dynamicBodies) - 1; j >= 0; j-- {\n			body := space.dynamicBodies[j]\n			if body.GetType() != BODY_DYNAMIC {\n				continue\n			}\n\n			// Need')
R('C38 C39',s,'''	for item := root; item != nil; item = item.sleepingNext {
		if item.sleepingIdleTime < threshold {
			return true
		}
	}
	return false''','''	item := root
	for item != nil && item.sleepingIdleTime >= threshold {
		item = item.sleepingNext
	}
	return item != nil''')
R('C38 C39',s,'''	for item := root; item != nil; item = item.sleepingNext {
		if item.sleepingIdleTime < threshold {
			return true
		}
	}
	return false''','''	active := false
	for item := root; item != nil; item = item.sleepingNext {
		if item.sleepingIdleTime < threshold {
			active = true
		}
	}
	return active''')
R('C38 C39',s,'''			if b.GetType() == BODY_KINEMATIC || a.IsSleeping() {
				a.Activate()
			}
			if a.GetType() == BODY_KINEMATIC || b.IsSleeping() {
				b.Activate()
			}''','''			wakeA := a.IsSleeping() || b.GetType() == BODY_KINEMATIC
			if a.GetType() == BODY_KINEMATIC || b.IsSleeping() {
				b.Activate()
			}
			if wakeA {
				a.Activate()
			}''')
R('C38 C39',s,'''		for arb := body.arbiterList; arb != nil; arb = ArbiterNext(arb, body) {
			if body == arb.body_a {
				FloodFillComponent(root, arb.body_b)
			} else {
				FloodFillComponent(root, arb.body_a)
			}
		}
''','''		for arb := body.arbiterList; arb != nil; arb = arb.Next(body) {
			other := arb.body_a
			if other == body {
				other = arb.body_b
			}
			FloodFillComponent(root, other)
		}
''')
R('C38 C39',s,'''			if body.ComponentRoot() == nil {
				// Body not''','''			if !body.IsSleeping() {
				// Body not''')
R('C38 C39',b,'''	arb.ThreadForBody(body).next = next
	if next != nil {
		next.ThreadForBody(body).prev = arb
	}
	body.arbiterList = arb
''','''	body.arbiterList = arb
	t := arb.ThreadForBody(body)
	t.next = next
	if next == nil {
		return
	}
	if next.body_a == body {
		next.thread_a.prev = arb
	} else {
		next.thread_b.prev = arb
	}
''')
R('C38 C39',s,'		a.PushArbiter(arb)\n		b.PushArbiter(arb)\n','		for _, x := range []*Body{b, a} {\n			x.PushArbiter(arb)\n		}\n')
