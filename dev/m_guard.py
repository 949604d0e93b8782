M('C33',"space.go",'	assert(shape.space == nil, "You have already added this shape to another space. You cannot add it to a second.")\n','')
M('C33',"space.go",'	assert(body.space == nil, "Already added to another space")\n','')
M('C33',"space.go",'	assert(constraint.space == nil, "Already added to another space")\n	assert(space.locked == 0, "Space is locked")\n','	assert(constraint.space == nil, "Already added to another space")\n')
M('C33',"space.go",'	assert(space.ContainsShape(shape))\n	assert(space.locked == 0)\n','	assert(space.ContainsShape(shape))\n')
M('C33',"space.go",'	assert(space.ContainsBody(body))\n','')
M('C33',"space.go",'	assert(body != space.StaticBody)\n','	assert(body != space.StaticBody && body.GetType() == BODY_DYNAMIC)\n')
M('C33',"space.go",'	assert(damping >= 0)\n','	assert(damping > 0)\n')
M('C33',"space.go",'	assert(damping >= 0)\n	space.damping = damping','	space.damping = damping\n	assert(damping >= 0)')
M('C33',"constraint.go",'	assert(max >= 0.0, "Must be positive")','	assert(max > 0.0, "Must be positive")')
M('C33',"shape.go",'	assert(e >= 0, "Must be positive")','	assert(e >= 0 && e <= 1, "Must be positive")')
M('C33',"poly.go",'	assert(i >= 0 && i < poly.count)','	assert(i >= 0 && i <= poly.count)')
M('C33',"space.go",'	if space.StaticBody != nil {\n		if len(space.StaticBody.shapeList) > 0 {','	if space.StaticBody != nil {\n		if len(space.StaticBody.shapeList) > 1 {')
M('C33',"body.go",'	assert(body.space.locked == 0, "Space is locked")\n','')
M('C33',"space.go",'	assert(space.locked == 0, "You cannot manually','	assert(space.locked <= 1, "You cannot manually')
M('C33',"debug.go",'	if !truth {','	if !truth && len(msg) > 0 {')
R('C33',"space.go",'	assert(space.ContainsShape(shape))\n	assert(space.locked == 0)\n','	mustChange(space, space.ContainsShape(shape))\n',[("space.go","func (space *Space) ContainsShape(","func mustChange(space *Space, ok bool) {\n	assert(ok && space.locked == 0, \"no\")\n}\n\nfunc (space *Space) ContainsShape(")])
R('C33',"space.go",'	assert(body.space != space, "Already added to this space")\n	assert(body.space == nil, "Already added to another space")\n	assert(space.locked == 0, "Space is locked")','	if body.space != nil {\n		assert(body.space != space, "Already added to this space")\n		assert(false, "Already added to another space")\n	}\n	assert(space.locked == 0, "Space is locked")')
R('C33',"constraint.go",'	assert(max >= 0.0, "Must be positive")','	assert(!(max < 0), "Must be positive")')
R('C33',"body.go",'	assert(body.GetType() == BODY_STATIC)\n','	assert(body.sleepingIdleTime == INFINITY)\n')
R('C33',"shape.go",'	assert(u >= 0, "Must be positive")\n	s.body.Activate()','	b := s.body\n	assert(u >= 0, "Must be positive")\n	b.Activate()')
