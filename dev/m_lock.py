M('C01','space.go','	})\n\n	space.Unlock(true)\n}\n\nfunc (space *Space) EachConstraint','	})\n\n}\n\nfunc (space *Space) EachConstraint')
M('C02','space.go','	space.Lock()\n	defer space.Unlock(true)\n\n	for _, body := range space.dynamicBodies {','	space.Lock()\n	space.Unlock(true)\n\n	for _, body := range space.dynamicBodies {')
M('C03','space.go','if key == nil || space.PostStepCallback(key) == nil {','if space.PostStepCallback(key) == nil {')
M('C03','space.go','if key == nil || space.PostStepCallback(key) == nil {','if key == nil {')
M('C03','space.go','		if callback != nil && callback.key == key {','		if callback != nil && callback.data == key {')
M('C03','space.go','	for i := 0; i < len(space.postStepCallbacks); i++ {\n		callback := space.postStepCallbacks[i]\n		if','	for i := 1; i < len(space.postStepCallbacks); i++ {\n		callback := space.postStepCallbacks[i]\n		if')
M('C03','space.go','for i := 0; i < len(space.postStepCallbacks); i++ {\n			callback','n := len(space.postStepCallbacks)\n		for i := 0; i < n; i++ {\n			callback')
M('C03','space.go','			if f != nil {\n				f(space, callback.key, callback.data)','			if f != nil {\n				f(space, callback.data, callback.key)')
M('C03','space.go','		space.postStepCallbacks = space.postStepCallbacks[:0]\n','')
M('C03','space.go','		space.skipPostStep = true\n','		space.skipPostStep = true\n		pending := space.postStepCallbacks\n		space.postStepCallbacks = nil\n', [('space.go','for i := 0; i < len(space.postStepCallbacks); i++ {\n			callback := space.postStepCallbacks[i]\n			f','for i := 0; i < len(pending); i++ {\n			callback := pending[i]\n			f')])
M('C03','space.go','	space.Unlock(false)\n\n	// Rebuild','	space.Unlock(true)\n\n	// Rebuild')
M('C03','space.go','	space.staticShapes.class.Query(&context, bb, space.bbQuery, data)\n	space.dynamicShapes.class.Query(&context, bb, space.bbQuery, data)\n\n	space.Unlock(true)','	space.staticShapes.class.Query(&context, bb, space.bbQuery, data)\n	space.dynamicShapes.class.Query(&context, bb, space.bbQuery, data)\n\n	space.Unlock(false)')
M('C03','space.go','			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)\n		}\n	}\n	space.Unlock(true)','			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)\n		}\n	}\n	space.Unlock(len(space.arbiters) >= 0 && dt > 0)')
M('C03 C02','space.go','if runPostStep && !space.skipPostStep {','if runPostStep {')
M('C03','space.go','		space.postStepCallbacks = append(space.postStepCallbacks, callback)','		space.postStepCallbacks = append([]*PostStepCallback{callback}, space.postStepCallbacks...)')
M('C03','space.go','	space.arbiters = space.arbiters[:0]\n\n	space.Lock()','	space.arbiters = space.arbiters[:0]\n	space.postStepCallbacks = space.postStepCallbacks[:0]\n\n	space.Lock()')
M('C02','space.go','	// Rebuild the contact graph','	for _, arb := range space.arbiters {\n		arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)\n	}\n	// Rebuild the contact graph')
M('C01 C02','space.go','	space.Lock()\n	{\n		// Clear out','	{\n		// Clear out')
R('C01 C02 C03','space.go','		// Callbacks may add more callbacks, so the length can change.\n		for i := 0; i < len(space.postStepCallbacks); i++ {\n','		space.drain()\n		space.postStepCallbacks = space.postStepCallbacks[:0]\n		space.skipPostStep = false\n	}\n}\n\nfunc (space *Space) drain() {\n	{\n		for i := 0; ; i++ {\n			if i >= len(space.postStepCallbacks) {\n				break\n			}\n', [('space.go','		space.postStepCallbacks = space.postStepCallbacks[:0]\n		space.skipPostStep = false\n	}\n}\n\nfunc (space *Space) UncacheArbiter','	}\n}\n\nfunc (space *Space) UncacheArbiter')])
R('C01 C02 C03','space.go','	if key == nil || space.PostStepCallback(key) == nil {','	if key != nil && space.PostStepCallback(key) != nil {\n		return false\n	}\n	{')
R('C01 C02 C03','space.go','	if key == nil || space.PostStepCallback(key) == nil {','	queued := false\n	for _, cb := range space.postStepCallbacks {\n		if cb.key == key {\n			queued = true\n			break\n		}\n	}\n	if key == nil || !queued {')
R('C01 C02 C03','space.go','	context := BBQueryContext{bb, filter, f}\n	space.Lock()\n','	context := BBQueryContext{bb, filter, f}\n	space.Lock()\n	defer space.Unlock(true)\n',[('space.go','	space.dynamicShapes.class.Query(&context, bb, space.bbQuery, data)\n\n	space.Unlock(true)\n','	space.dynamicShapes.class.Query(&context, bb, space.bbQuery, data)\n')])
R('C01 C02 C03','space.go','func (space *Space) EachShape(f func(*Shape)) {\n	space.Lock()\n','func (space *Space) withLock(f func()) {\n	space.Lock()\n	f()\n	space.Unlock(true)\n}\n\nfunc (space *Space) EachShape(f func(*Shape)) {\n	space.withLock(func() {\n',[('space.go','	space.staticShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n\n	space.Unlock(true)','	space.staticShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n	})')])
