ALL='C26'
C='collision.go'
S='shape.go'
V='vector.go'
M(ALL,C,'if seg.ta.Dot(n) > seg.tb.Dot(n) {','if seg.ta.Dot(n) < seg.tb.Dot(n) {')
M(ALL,C,'return NewSupportPoint(seg.tb, 1)','return NewSupportPoint(seg.tb, 0)')
M(ALL,C,'return NewSupportPoint(shape.Class.(*Circle).tc, 0)','return NewSupportPoint(shape.Class.(*Circle).c, 0)')
M(ALL,C,'return NewSupportPoint(planes[i].v0, uint32(i))','return NewSupportPoint(planes[i].v0, 0)')
M(ALL,C,'	max := -INFINITY\n	var index','	max := 0.0\n	var index')
M(ALL,C,'		if d > max {\n			max = d\n			index = i','		if d > max {\n			index = i')
M(ALL,C,'	for i := 0; i < count; i++ {\n		v := planes','	for i := 1; i < count; i++ {\n		v := planes')
M(ALL,C,'ctx.func1(ctx.shape1, n.Neg())','ctx.func1(ctx.shape1, n)')
M(ALL,C,'(a.index&0xFF)<<8 | (b.index & 0xFF)','(a.index&0xFF)<<8 | (a.index & 0xFF)')
M(ALL,C,'(a.index&0xFF)<<8 | (b.index & 0xFF)','(a.index&0xFF)<<4 | (b.index & 0xFF)')
M(ALL,C,'b.p.Sub(a.p), (a','a.p.Sub(b.p), (a')
M(ALL,C,'id := (v0.collisionId&0xFFFF)<<16 | (v1.collisionId & 0xFFFF)','id := (v0.collisionId&0xFF)<<16 | (v1.collisionId & 0xFFFF)')
M(ALL,C,'id := (v0.collisionId&0xFFFF)<<16 | (v1.collisionId & 0xFFFF)','id := (v1.collisionId&0xFFFF)<<16 | (v0.collisionId & 0xFFFF)')
M(ALL,C,'pb := v0.b.LerpT(v1.b, t)','pb := v1.b.LerpT(v0.b, t)')
M(ALL,C,'n := delta.ReversePerp().Normalize()','n := delta.Perp().Normalize()')
M(ALL,C,'delta != (Vector{}) && (d <= 0','(d <= 0')
M(ALL,C,'(d <= 0 || (-1 < t && t < 1))','(-1 < t && t < 1)')
M(ALL,C,'(d <= 0 || (-1 < t && t < 1))','(d <= 0 || (-1 < t || t < 1))')
M(ALL,C,'	n2 := Vector{1, 0}\n','	n2 := Vector{}\n')
M(ALL,C,'return ClosestPoints{pa, pb, n2, d2, id}','return ClosestPoints{pa, pb, n2, d, id}')
M(ALL,C,'if *collisionId != 0 {','if *collisionId == 0 {')
M(ALL,C,'(*collisionId>>16)&0xFF','(*collisionId>>8)&0xFF')
M(ALL,C,'ctx.shape2.Point((*collisionId)&0xFF)','ctx.shape1.Point((*collisionId)&0xFF)')
M(ALL,C,'axis = Vector{1, 0}','axis = Vector{0, 0}')
M(ALL,C,'v1 = ctx.Support(axis.Neg())','v1 = ctx.Support(axis)')
M(ALL,C,'	*collisionId = points.collisionId\n','')
M(ALL,C,'	points := GJKRecurse(ctx, v0, v1, 1)','	points := GJKRecurse(ctx, v0, v1, maxGjkIterations)')
M(ALL,C,'	if iteration > maxGjkIterations {','	if iteration > maxGjkIterations*100 {')
M(ALL,C,'	maxGjkIterations  = 30','	maxGjkIterations  = 3')
M(ALL,C,'if v1.ab.PointGreater(v0.ab, Vector{}) {','if v0.ab.PointGreater(v1.ab, Vector{}) {')
M(ALL,C,'return GJKRecurse(ctx, v1, v0, iteration)','return GJKRecurse(ctx, v1, v0, iteration+9)')
M(ALL,C,'if -1.0 < t && t < 1.0 {','if -1.0 < t {')
M(ALL,C,'n = v1.ab.Sub(v0.ab).Perp()','n = v1.ab.Sub(v0.ab).ReversePerp()')
M(ALL,C,'n = v0.ab.LerpT(v1.ab, t).Neg()','n = v0.ab.LerpT(v1.ab, t)')
M(ALL,C,'return EPA(ctx, v0, p, v1)','return EPA(ctx, v0, v1, p)')
M(ALL,C,'if p.ab.PointGreater(v0.ab, Vector{}) && v1.ab.PointGreater(p.ab, Vector{}) {','if p.ab.PointGreater(v0.ab, Vector{}) || v1.ab.PointGreater(p.ab, Vector{}) {')
M(ALL,C,'if v0.ab.CheckAxis(v1.ab, p.ab, n) {','if v1.ab.CheckAxis(v1.ab, p.ab, n) {')
M(ALL,C,'if v0.ab.ClosestDist(p.ab) < p.ab.ClosestDist(v1.ab) {','if v0.ab.ClosestDist(p.ab) > p.ab.ClosestDist(v1.ab) {')
M(ALL,C,'return GJKRecurse(ctx, p, v1, iteration+1)','return GJKRecurse(ctx, p, v1, iteration)')
M(ALL,C,'hull := []MinkowskiPoint{v0, v1, v2}','hull := []MinkowskiPoint{v0, v2, v1}')
M(ALL,C,'EPARecurse(ctx, 3, hull, 1)','EPARecurse(ctx, 2, hull, 1)')
M(ALL,C,'	i := count - 1\n','	i := 0\n')
M(ALL,C,'			mini = i\n','			mini = j\n')
M(ALL,C,'			minDist = d\n','')
M(ALL,C,'v1 := hull[(mini+1)%count]','v1 := hull[(mini+2)%count]')
M(ALL,C,'p := ctx.Support(v1.ab.Sub(v0.ab).Perp())','p := ctx.Support(v1.ab.Sub(v0.ab).ReversePerp())')
M(ALL,C,'p.collisionId == v0.collisionId || p.collisionId == v1.collisionId','p.collisionId == v0.collisionId && p.collisionId == v1.collisionId')
M(ALL,C,'if !duplicate && v0.ab.PointGreater(v1.ab, p.ab) && iteration < maxEpaIterations {','if !duplicate && iteration < maxEpaIterations {')
M(ALL,C,'iteration < maxEpaIterations {','iteration < 2 {')
M(ALL,C,'v0.ab.PointGreater(v1.ab, p.ab) && iteration < maxEpaIterations {','v0.ab.PointGreater(v1.ab, p.ab) {')
M(ALL,C,'		hull2[0] = p\n','		hull2[0] = v0\n')
M(ALL,C,'index := (mini + 1 + i) % count','index := (mini + i) % count')
M(ALL,C,'			if i+1 < count {','			if i+1 <= count {')
M(ALL,C,'h2 = hull[(index+1)%count].ab','h2 = hull[index].ab')
M(ALL,C,'if h0.PointGreater(h2, h1) {','if h2.PointGreater(h0, h1) {')
M(ALL,C,'				hull2[count2] = hull[index]\n','				hull2[count2] = hull[i]\n')
M(ALL,C,'EPARecurse(ctx, count2, hull2, iteration+1)','EPARecurse(ctx, count, hull2, iteration+1)')
M(ALL,C,'EPARecurse(ctx, count2, hull2, iteration+1)','EPARecurse(ctx, count2, hull2, iteration)')
M(ALL,C,'	// Could not find a new point to insert, so we have found the closest edge of the minkowski difference.\n	return v0.ClosestPoints(v1)','	return v1.ClosestPoints(v0)')
M(ALL,S,'			return NewSupportPoint(seg.ta, i)','			return NewSupportPoint(seg.tb, i)')
M(ALL,S,'		if i < uint32(poly.count) {','		if i <= uint32(poly.count) {')
M(ALL,S,'poly.planes[index].v0, uint32(index))','poly.planes[index].v0, i)')
M(ALL,V,'return -Clamp(delta.Dot(v.Add(b))/delta.LengthSq(), -1.0, 1.0)','return Clamp(delta.Dot(v.Add(b))/delta.LengthSq(), -1.0, 1.0)')
M(ALL,V,'	ht := 0.5 * t\n','	ht := t\n')
M(ALL,V,'return p.Dot(n) <= math.Max(v.Dot(n), v1.Dot(n))','return p.Dot(n) <= math.Min(v.Dot(n), v1.Dot(n))')
M(ALL,V,'return p.Dot(n) <= math.Max(v.Dot(n), v1.Dot(n))','return p.Dot(n) < math.Max(v.Dot(n), v1.Dot(n))')
M(ALL,V,'	return v.LerpT(v1, v.ClosestT(v1)).LengthSq()\n','	return v.LerpT(v1, v1.ClosestT(v)).LengthSq()\n')

R(ALL,C,'	if seg.ta.Dot(n) > seg.tb.Dot(n) {\n		return NewSupportPoint(seg.ta, 0)\n	} else {\n		return NewSupportPoint(seg.tb, 1)\n	}','	if seg.tb.Sub(seg.ta).Dot(n) >= 0 {\n		return NewSupportPoint(seg.tb, 1)\n	}\n	return SupportPoint{seg.ta, 0}')
R(ALL,C,'		if d > max {\n			max = d','		if d >= max {\n			max = d')
R(ALL,C,'	a := ctx.func1(ctx.shape1, n.Neg())\n	b := ctx.func2(ctx.shape2, n)\n','	b := ctx.func2(ctx.shape2, n)\n	a := ctx.func1(ctx.shape1, n.Mult(-1))\n')
R(ALL,C,'(a.index&0xFF)<<8 | (b.index & 0xFF)}','(b.index & 0xFF) + (a.index&0xFF)*256}')
R(ALL,C,'id := (v0.collisionId&0xFFFF)<<16 | (v1.collisionId & 0xFFFF)','id := v0.collisionId<<16 | (v1.collisionId & 0xFFFF)')
R(ALL,C,'''	if iteration > maxGjkIterations {
		return v0.ClosestPoints(v1)
	}

	if v1.ab.PointGreater(v0.ab, Vector{}) {
		// Origin is behind axis. Flip and try again.
		return GJKRecurse(ctx, v1, v0, iteration)
	}
''','''	if v1.ab.PointGreater(v0.ab, Vector{}) {
		v0, v1 = v1, v0
	}
	if iteration > maxGjkIterations {
		return v0.ClosestPoints(v1)
	}
''')
R(ALL,C,'''	if v0.ab.ClosestDist(p.ab) < p.ab.ClosestDist(v1.ab) {
		return GJKRecurse(ctx, v0, p, iteration+1)
	}

	return GJKRecurse(ctx, p, v1, iteration+1)
''','''	if v0.ab.ClosestDist(p.ab) < p.ab.ClosestDist(v1.ab) {
		v1 = p
	} else {
		v0 = p
	}
	return GJKRecurse(ctx, v0, v1, iteration+1)
''')
R(ALL,C,'''	if iteration > maxGjkIterations {
		return v0.ClosestPoints(v1)
	}

	if v1.ab.PointGreater(v0.ab, Vector{}) {
		// Origin is behind axis. Flip and try again.
		return GJKRecurse(ctx, v1, v0, iteration)
	}
	t := v0.ab.ClosestT(v1.ab)
	var n Vector
	if -1.0 < t && t < 1.0 {
		n = v1.ab.Sub(v0.ab).Perp()
	} else {
		n = v0.ab.LerpT(v1.ab, t).Neg()
	}
	p := ctx.Support(n)

	// Draw debug

	if p.ab.PointGreater(v0.ab, Vector{}) && v1.ab.PointGreater(p.ab, Vector{}) {
		return EPA(ctx, v0, p, v1)
	}

	if v0.ab.CheckAxis(v1.ab, p.ab, n) {
		return v0.ClosestPoints(v1)
	}

	if v0.ab.ClosestDist(p.ab) < p.ab.ClosestDist(v1.ab) {
		return GJKRecurse(ctx, v0, p, iteration+1)
	}

	return GJKRecurse(ctx, p, v1, iteration+1)
''','''	for iteration <= maxGjkIterations {
		if v1.ab.PointGreater(v0.ab, Vector{}) {
			v0, v1 = v1, v0
			continue
		}
		t := v0.ab.ClosestT(v1.ab)
		n := v0.ab.LerpT(v1.ab, t).Neg()
		if t > -1 && t < 1 {
			n = v1.ab.Sub(v0.ab).Perp()
		}
		p := ctx.Support(n)
		if p.ab.PointGreater(v0.ab, Vector{}) && v1.ab.PointGreater(p.ab, Vector{}) {
			return EPA(ctx, v0, p, v1)
		}
		if v0.ab.CheckAxis(v1.ab, p.ab, n) {
			break
		}
		if v0.ab.ClosestDist(p.ab) < p.ab.ClosestDist(v1.ab) {
			v1 = p
		} else {
			v0 = p
		}
		iteration++
	}
	return v0.ClosestPoints(v1)
''')
R(ALL,C,'	i := count - 1\n	j := 0\n	for j < count {\n		d := hull[i].ab.ClosestDist(hull[j].ab)\n		if d < minDist {\n			minDist = d\n			mini = i\n		}\n		i = j\n		j++\n	}\n','	for i := 0; i < count; i++ {\n		if d := hull[i].ab.ClosestDist(hull[(i+1)%count].ab); d < minDist {\n			minDist, mini = d, i\n		}\n	}\n')
R(ALL,C,'''			h0 := hull2[count2-1].ab
			h1 := hull[index].ab
			var h2 Vector
			if i+1 < count {
				h2 = hull[(index+1)%count].ab
			} else {
				h2 = p.ab
			}

			if h0.PointGreater(h2, h1) {
				hull2[count2] = hull[index]
				count2++
			}
''','''			h2 := p.ab
			if i != count-1 {
				h2 = hull[(mini+2+i)%count].ab
			}
			if !hull2[count2-1].ab.PointGreater(h2, hull[index].ab) {
				continue
			}
			hull2[count2] = hull[index]
			count2++
''')
R(ALL,C,'	if iteration > warnEpaIterations {\n		log.Println("Warning: High EPA iterations:", iteration)\n	}\n','	if iteration == warnEpaIterations {\n		log.Println("EPA", iteration)\n	}\n')
R(ALL,C,'''	duplicate := p.collisionId == v0.collisionId || p.collisionId == v1.collisionId

	if !duplicate && v0.ab.PointGreater(v1.ab, p.ab) && iteration < maxEpaIterations {
''','''	if p.collisionId == v0.collisionId || p.collisionId == v1.collisionId || iteration >= maxEpaIterations || !v0.ab.PointGreater(v1.ab, p.ab) {
		return v0.ClosestPoints(v1)
	} else {
''')
R(ALL,C,'	maxGjkIterations  = 30','	maxGjkIterations  = 50')
