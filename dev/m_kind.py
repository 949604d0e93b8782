b='body.go'; s='space.go'
M('C08',b,'	if oldType == newType {\n		return\n	}\n','	if oldType == newType && body.space == nil {\n		return\n	}\n')
M('C08',b,'	if newType == BODY_STATIC {\n		body.sleepingIdleTime = INFINITY\n	} else {\n		body.sleepingIdleTime = 0\n	}','	if newType == BODY_STATIC {\n		body.sleepingIdleTime = INFINITY\n	}')
M('C08',b,'		body.space.dynamicBodies = append(body.space.dynamicBodies, body)\n	} else if newType == BODY_STATIC {','		if newType == BODY_DYNAMIC {\n			body.space.dynamicBodies = append(body.space.dynamicBodies, body)\n		}\n	} else if newType == BODY_STATIC {')
M('C08',b,'	} else if newType == BODY_STATIC {','	} else if newType == BODY_STATIC && oldType == BODY_DYNAMIC {')
M('C08',b,'		body.space.staticBodies = append(body.space.staticBodies, body)\n','')
M('C08',b,'		fromIndex = body.space.staticShapes\n	} else {\n		fromIndex = body.space.dynamicShapes','		fromIndex = body.space.staticShapes\n	} else {\n		fromIndex = body.space.staticShapes')
M('C08',b,'	if newType == BODY_STATIC {\n		toIndex','	if newType != BODY_DYNAMIC {\n		toIndex')
M('C08',b,'	if oldType != newType {\n		for','	if oldType == BODY_STATIC {\n		for')
M('C08',b,'	if oldType != newType {\n		for _, shape := range body.shapeList {','	if oldType != newType {\n		for _, shape := range body.shapeList {\n			if shape.sensor {\n				continue\n			}')
M('C08',b,'			fromIndex.class.Remove(shape, shape.hashid)\n			toIndex.class.Insert(shape, shape.hashid)','			toIndex.class.Insert(shape, shape.hashid)\n			fromIndex.class.Remove(shape, shape.hashid)')
M('C08',b,'		body.v = Vector{}\n		body.w = 0\n','		body.v = Vector{}\n')
M('C08',b,'		body.AccumulateMassFromShapes()\n	} else {\n		body.m = INF','		if body.space != nil {\n			body.AccumulateMassFromShapes()\n		}\n	} else {\n		body.m = INF')
M('C08',b,'	if body.m == INFINITY {','	if body.m_inv == 0 {')
M('C08',b,'			if b == body {\n				body.space.dynamicBodies','			if b.GetType() == BODY_STATIC {\n				body.space.dynamicBodies') 
M('C08',b,'	if oldType != BODY_STATIC {\n		body.Activate()\n	}\n','',[(b,'	// Wake up the body while it still is of its old type, Activate() ignores bodies that are not dynamic.\n	body.Activate()\n','')]) if 0 else None
M('C08',s,'	if bodyType == BODY_STATIC {','	if bodyType != BODY_DYNAMIC {')
R('C08',b,'''	if oldType != newType {
		for _, shape := range body.shapeList {
			fromIndex.class.Remove(shape, shape.hashid)
			toIndex.class.Insert(shape, shape.hashid)
		}
	}''','''	if fromIndex == toIndex {
		return
	}
	for _, shape := range body.shapeList {
		fromIndex.class.Remove(shape, shape.hashid)
	}
	for _, shape := range body.shapeList {
		toIndex.class.Insert(shape, shape.hashid)
	}''')
R('C08',b,'''	var fromIndex, toIndex *SpatialIndex
	if oldType == BODY_STATIC {
		fromIndex = body.space.staticShapes
	} else {
		fromIndex = body.space.dynamicShapes
	}

	if newType == BODY_STATIC {
		toIndex = body.space.staticShapes
	} else {
		toIndex = body.space.dynamicShapes
	}

	if oldType != newType {
		for _''','''	wasStatic, isStatic := oldType == BODY_STATIC, newType == BODY_STATIC
	if wasStatic != isStatic {
		fromIndex, toIndex := body.space.dynamicShapes, body.space.staticShapes
		if wasStatic {
			fromIndex, toIndex = toIndex, fromIndex
		}
		for _''')
R('C08',b,'''	if oldType == BODY_STATIC {
		for i, b := range body.space.staticBodies {
			if b == body {
				body.space.staticBodies = append(body.space.staticBodies[:i], body.space.staticBodies[i+1:]...)
				break
			}
		}
		body.space.dynamicBodies = append(body.space.dynamicBodies, body)
	} else if newType == BODY_STATIC {
		for i, b := range body.space.dynamicBodies {
			if b == body {
				body.space.dynamicBodies = append(body.space.dynamicBodies[:i], body.space.dynamicBodies[i+1:]...)
				break
			}
		}
		body.space.staticBodies = append(body.space.staticBodies, body)
	}
''','''	from, to := body.space.ArrayForBodyType(oldType), body.space.ArrayForBodyType(newType)
	if from != to {
		for i, b := range *from {
			if b == body {
				*from = append((*from)[:i], (*from)[i+1:]...)
				break
			}
		}
		*to = append(*to, body)
	}
''')
R('C08',b,'''	if body.sleepingIdleTime == INFINITY {
		return BODY_STATIC
	}
	if body.m == INFINITY {
		return BODY_KINEMATIC
	}
	return BODY_DYNAMIC''','''	switch {
	case body.sleepingIdleTime == INFINITY:
		return BODY_STATIC
	case body.m == INFINITY:
		return BODY_KINEMATIC
	default:
		return BODY_DYNAMIC
	}''')
