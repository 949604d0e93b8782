s='space.go'; sh='shape.go'; e='everything.go'; k='constraint.go'
M('C20',e,'(a.Group != 0 && a.Group == b.Group)','a.Group == b.Group')
M('C20',e,'(b.Categories&a.Mask) == 0','(b.Categories&b.Mask) == 0')
M('C20',e,'(a.Categories&b.Mask) == 0 ||','(a.Categories&b.Mask) == 0 &&')
M('C20',s,'	if a.body == b.body {\n		return true\n	}\n	if a.Filter','	if a.Filter')
M('C20',s,'	if !a.bb.Intersects(b.bb) {\n		return true\n	}\n','')
M('C20',s,'if !constraint.collideBodies && ((constraint.a == a && constraint.b == b) ||\n			(constraint.a == b && constraint.b == a)) {','if !constraint.collideBodies && (constraint.a == a && constraint.b == b) {')
M('C20',s,'if !constraint.collideBodies && ((constraint.a == a && constraint.b == b) ||\n			(constraint.a == b && constraint.b == a)) {','if !constraint.collideBodies && (constraint.a == b || constraint.b == b) && constraint.a != a || !constraint.collideBodies && constraint.b == b {')
M('C20',s,'constraint = constraint.Next(a)','constraint = constraint.Next(b)')
M('C20',s,'constraint = constraint.Next(a)','constraint = constraint.next_a')
M('C20',s,'			(constraint.a == b && constraint.b == a)) {\n			return true\n		}','			(constraint.a == b && constraint.b == a)) {\n			return true\n		}\n		if constraint.a == a && constraint.b == b {\n			break\n		}')
M('C20',k,'	if c.a == body {\n		return c.next_a','	if c.b == body {\n		return c.next_a')
M('C20',k,'	c.collideBodies = collideBodies\n','	c.collideBodies = c.collideBodies || collideBodies\n')
M('C20',sh,'			Mask:       ALL_CATEGORIES,\n','')
M('C20',e,'^ALL_CATEGORIES, ^ALL_CATEGORIES}','ALL_CATEGORIES, ^ALL_CATEGORIES}')
R('C20',s,'''	for constraint := a.constraintList; constraint != nil; constraint = constraint.Next(a) {
		if !constraint.collideBodies && ((constraint.a == a && constraint.b == b) ||
			(constraint.a == b && constraint.b == a)) {
			return true
		}
	}

	return false''','''	found := false
	for constraint := a.constraintList; constraint != nil && !found; constraint = constraint.Next(a) {
		if constraint.collideBodies {
			continue
		}
		found = constraint.a == a && constraint.b == b || constraint.a == b && constraint.b == a
	}
	return found''')
R('C20',s,'for constraint := a.constraintList; constraint != nil; constraint = constraint.Next(a) {','for constraint := b.constraintList; constraint != nil; constraint = constraint.Next(b) {')
R('C20',s,'''	if a.body == b.body {
		return true
	}
	if a.Filter.Reject(b.Filter) {
		return true
	}
	if !a.bb.Intersects(b.bb) {
		return true
	}
	if QueryRejectConstraints(a.body, b.body) {
		return true
	}
	return false''','''	return a.body == b.body || !b.bb.Intersects(a.bb) || a.Filter.Reject(b.Filter) || QueryRejectConstraints(a.body, b.body)''')
R('C20',e,'''	return (a.Group != 0 && a.Group == b.Group) ||
		// One of the category/mask combinations fails.
		(a.Categories&b.Mask) == 0 ||
		(b.Categories&a.Mask) == 0''','''	if b.Group != NO_GROUP2 && a.Group == b.Group {
		return true
	}
	accepts := a.Categories&b.Mask != 0 && a.Mask&b.Categories != 0
	return !accepts''',[(e,'var (\n	NO_GROUP','const NO_GROUP2 = 0\nvar (\n	NO_GROUP')])
# queries
M('C21',s,'	space.dynamicShapes.class.Query(context, bb, NearestPointQueryNearest, info)\n','')
M('C21',s,'	space.staticShapes.class.Query(context, bb, NearestPointQueryNearest, info)\n','	if info.Shape == nil {\n	space.staticShapes.class.Query(context, bb, NearestPointQueryNearest, info)\n}\n')
M('C21',s,'	space.dynamicShapes.class.Query(context, bb, NearestPointQueryNearest, info)\n','	space.staticShapes.class.Query(context, bb, NearestPointQueryNearest, info)\n')
M('C21',s,'if !shape.Filter.Reject(context.filter) && !shape.sensor {\n		info','if !shape.Filter.Reject(context.filter) {\n		info')
M('C21',s,'if info.Distance < out.(','if info.Distance <= out.(')
M('C21',s,'if info.Distance < out.(*PointQueryInfo).Distance {','if info.Distance < context.maxDistance {')
M('C21',s,'info := &PointQueryInfo{nil, Vector{}, maxDistance, Vector{}}','info := &PointQueryInfo{nil, Vector{}, INFINITY, Vector{}}')
M('C21',s,'NewBBForCircle(point, math.Max(maxDistance, 0))','NewBBForCircle(point, maxDistance/2)')
M('C21',s,'if !shape.Filter.Reject(context.filter) && shape.BB().Intersects(context.bb) {','if !shape.Filter.Reject(context.filter) {')
M('C21',s,'if !shape.Filter.Reject(context.filter) && shape.BB().Intersects(context.bb) {','if !shape.Filter.Reject(context.filter) && context.bb.Contains(shape.BB()) {')
M('C21',s,'	space.staticShapes.class.Query(&context, bb, space.bbQuery, data)','	space.staticShapes.class.Query(&context, bb, space.bbQuery, nil)')
M('C21',s,'	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)','	space.dynamicShapes.class.SegmentQuery(context, end, start, info.Alpha, queryFirst, &info)')
M('C21',s,'	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)','	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha*0.5, queryFirst, &info)')
M('C21',s,'		!shape.sensor &&\n		shape.SegmentQuery','		shape.SegmentQuery')
M('C21',s,'		info.Alpha < out.Alpha {','		info.Alpha > 0 {')
M('C21',s,'		*out = info\n	}\n\n	return out.Alpha','		*out = info\n	}\n\n	return info.Alpha')
M('C21',s,'shape.SegmentQuery(context.start, context.end, context.radius, &info) {\n		context.f','shape.SegmentQuery(context.start, context.end, 0, &info) {\n		context.f')
M('C21',s,'		context.f(shape, info.Point, info.Normal, info.Alpha, data)\n	}\n\n	return 1','		context.f(shape, info.Point, info.Normal, info.Alpha, data)\n	}\n\n	return info.Alpha')
M('C21',s,'		context.f(shape, info.Point, info.Normal, info.Alpha, data)','		context.f(info.Shape, info.Point, info.Normal, info.Alpha, data)')
M('C21',s,'if a.Filter.Reject(b.Filter) || a == b {','if a.Filter.Reject(b.Filter) {')
M('C21',s,'if a.Filter.Reject(b.Filter) || a == b {','if a.Filter.Reject(b.Filter) || a.body == b.body {')
M('C21',s,'if a.Filter.Reject(b.Filter) || a == b {','if a == b {')
M('C21',s,'anyCollision = anyCollision || !(a.sensor || b.sensor)','anyCollision = !(a.sensor || b.sensor)')
M('C21',s,'anyCollision = anyCollision || !(a.sensor || b.sensor)','anyCollision = anyCollision || !(a.sensor && b.sensor)')
M('C21',s,'anyCollision = anyCollision || !(a.sensor || b.sensor)','anyCollision = true')
M('C21',s,'		bb = shape.Update(body.transform)\n','		bb = shape.bb\n')
M('C21',s,'		if contactPointSet.Count > 0 {\n			if callback','		if contactPointSet.Count > 1 {\n			if callback')
M('C21',sh,'	if nearest.Distance <= radius {','	if nearest.Distance <= 0 {')
M('C21',sh,'	if nearest.Distance <= radius {','	if nearest.Distance < radius {')
M('C21',sh,'		info.Alpha = 0\n','')
M('C21',sh,'	blank := SegmentQueryInfo{nil, b, Vector{}, 1}','	blank := SegmentQueryInfo{nil, a, Vector{}, 1}')
M('C21',sh,'	info := PointQueryInfo{nil, Vector{}, INFINITY, Vector{}}\n	s.Class.PointQuery(p, &info)','	info := PointQueryInfo{nil, Vector{}, INFINITY, Vector{}}\n	s.Class.PointQuery(p.Sub(s.body.p), &info)')
M('C21',sh,'	return info.Shape != nil\n','	return info.Alpha < 1\n')
R('C21',s,'''	info := &PointQueryInfo{nil, Vector{}, maxDistance, Vector{}}
	context := &PointQueryContext{point, maxDistance, filter, nil}

	bb := NewBBForCircle(point, math.Max(maxDistance, 0))
	space.dynamicShapes.class.Query(context, bb, NearestPointQueryNearest, info)
	space.staticShapes.class.Query(context, bb, NearestPointQueryNearest, info)

	return info''','''	best := PointQueryInfo{Distance: maxDistance}
	visit := func(_ interface{}, shape *Shape, collisionId uint32, _ interface{}) uint32 {
		if shape.sensor || filter.Reject(shape.Filter) {
			return collisionId
		}
		if info := shape.PointQuery(point); info.Distance < best.Distance {
			best = info
		}
		return collisionId
	}
	bb := NewBBForCircle(point, math.Max(maxDistance, 0))
	space.staticShapes.class.Query(nil, bb, visit, nil)
	space.dynamicShapes.class.Query(nil, bb, visit, nil)
	return &best''')
R('C21',s,'''	space.Lock()

	space.staticShapes.class.Query(&context, bb, space.bbQuery, data)
	space.dynamicShapes.class.Query(&context, bb, space.bbQuery, data)

	space.Unlock(true)''','''	space.locking(func() {
	space.staticShapes.class.Query(&context, bb, space.bbQuery, data)
	space.dynamicShapes.class.Query(&context, bb, space.bbQuery, data)
	})''',[(s,'type SpaceBBQueryFunc','func (space *Space) locking(f func()) {\n	space.Lock()\n	f()\n	space.Unlock(true)\n}\n\ntype SpaceBBQueryFunc')])
R('C21',s,'''	var info SegmentQueryInfo

	if !shape.Filter.Reject(context.filter) &&
		!shape.sensor &&
		shape.SegmentQuery(context.start, context.end, context.radius, &info) &&
		info.Alpha < out.Alpha {
		*out = info
	}

	return out.Alpha''','''	if shape.sensor || context.filter.Reject(shape.Filter) {
		return out.Alpha
	}
	var info SegmentQueryInfo
	if hit := shape.SegmentQuery(context.start, context.end, context.radius, &info); !hit {
		return out.Alpha
	}
	if info.Alpha < out.Alpha {
		*out = info
	}
	return out.Alpha''')
R('C21',s,'''	context := &SegmentQueryContext{start, end, radius, filter, nil}
	space.staticShapes.class.SegmentQuery(context, start, end, 1, queryFirst, &info)
	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)''','''	context := &SegmentQueryContext{start: start, end: end, radius: radius, filter: filter}
	ask := func(index *SpatialIndex) {
		index.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)
	}
	ask(space.dynamicShapes)
	ask(space.staticShapes)''')
R('C21',s,'''		contactPointSet := ShapesCollide(a, b)
		if contactPointSet.Count > 0 {
			if callback != nil {
				callback(b, &contactPointSet)
			}
			anyCollision = anyCollision || !(a.sensor || b.sensor)
		}

		return collisionId''','''		contactPointSet := ShapesCollide(a, b)
		if contactPointSet.Count == 0 {
			return collisionId
		}
		if callback != nil {
			callback(b, &contactPointSet)
		}
		if !a.sensor && !b.sensor {
			anyCollision = true
		}
		return collisionId''')
R('C21',sh,'''	blank := SegmentQueryInfo{nil, b, Vector{}, 1}
	if info != nil {
		*info = blank
	} else {
		info = &blank
	}
''','''	if info == nil {
		info = &SegmentQueryInfo{}
	}
	*info = SegmentQueryInfo{Point: b, Alpha: 1}
''')
