ALL='C18'
C,S,P='circle.go','segment.go','poly.go'
M(ALL,C,'circle.tc.Add(delta.Mult(r / d))','circle.tc.Add(delta.Mult(d / r))')
M(ALL,C,'		info.Point = circle.tc.Add(delta.Mult(r / d))','		info.Point = circle.c.Add(delta.Mult(r / d))')
M(ALL,C,'	info.Distance = d - r','	info.Distance = d + r')
M(ALL,C,'	if d > MAGIC_EPSILON {','	if d > 1 {')
M(ALL,C,'		info.Gradient = delta.Mult(1 / d)','		info.Gradient = delta.Mult(1 / r)')
M(ALL,C,'		info.Point = circle.tc.Add(Vector{0, r})','		info.Point = circle.tc')
M(ALL,C,'	info.Shape = circle.Shape\n','')
M(ALL,C,'CircleSegmentQuery(circle.Shape, circle.tc, circle.r, a, b, radius, info)','CircleSegmentQuery(circle.Shape, circle.tc, circle.r, a, b, 0, info)')
M(ALL,C,'CircleSegmentQuery(circle.Shape, circle.tc, circle.r, a, b, radius, info)','CircleSegmentQuery(circle.Shape, circle.tc, circle.r, b, a, radius, info)')
M(ALL,C,'	det := qb*qb - qa*(da.Dot(da)-rsum*rsum)','	det := qb*qb - qa*(da.Dot(da)-r1*r1)')
M(ALL,C,'t := (-qb - math.Sqrt(det)) / qa','t := (-qb + math.Sqrt(det)) / qa')
M(ALL,C,'		if 0 <= t && t <= 1 {','		if t <= 1 {')
M(ALL,C,'		if 0 <= t && t <= 1 {','		if 0 <= t {')
M(ALL,C,'n := da.Lerp(db, t).Normalize()','n := a.Lerp(b, t).Normalize()')
M(ALL,C,'info.Point = a.Lerp(b, t).Sub(n.Mult(r2))','info.Point = a.Lerp(b, t).Sub(n.Mult(r1))')
M(ALL,C,'info.Point = a.Lerp(b, t).Sub(n.Mult(r2))','info.Point = a.Lerp(b, t).Add(n.Mult(r2))')
M(ALL,C,'			info.Alpha = t\n','')
M(ALL,C,'			info.Normal = n\n','			info.Normal = n.Neg()\n')
M(ALL,S,'p.ClosestPointOnSegment(seg.ta, seg.tb)','p.ClosestPointOnSegment(seg.a, seg.b)')
M(ALL,S,'p.ClosestPointOnSegment(seg.ta, seg.tb)','p.ClosestPointOnSegment(seg.ta, seg.ta)')
M(ALL,S,'		info.Point = closest.Add(g.Mult(r))','		info.Point = closest.Sub(g.Mult(r))')
M(ALL,S,'	g := delta.Mult(1 / d)','	g := delta.Mult(2 / d)')
M(ALL,S,'		info.Gradient = seg.tn','		info.Gradient = seg.n')
M(ALL,S,'	info.Distance = d - r','	info.Distance = d')
M(ALL,S,'	r := seg.r + r2','	r := seg.r')
M(ALL,S,'		flippedN = n.Neg()\n	} else {\n		flippedN = n','		flippedN = n\n	} else {\n		flippedN = n.Neg()')
M(ALL,S,'delta.Cross(segA)*delta.Cross(segB) <= 0','delta.Cross(segA)*delta.Cross(segB) < 0')
M(ALL,S,'			dOffset -= r','			dOffset += r')
M(ALL,S,'			dOffset += r','			dOffset -= r')
M(ALL,S,'		if ad*bd < 0 {','		if ad*bd <= 0 {')
M(ALL,S,'t := ad / (ad - bd)','t := ad / (ad + bd)')
M(ALL,S,'info.Point = a.Lerp(b, t).Sub(flippedN.Mult(r2))','info.Point = a.Lerp(b, t).Sub(flippedN.Mult(r))')
M(ALL,S,'			info.Normal = flippedN','			info.Normal = n')
M(ALL,S,'	} else if r != 0 {','	} else if seg.r != 0 {')
M(ALL,S,'CircleSegmentQuery(seg.Shape, seg.tb, seg.r, a, b, r2, &info2)','CircleSegmentQuery(seg.Shape, seg.ta, seg.r, a, b, r2, &info2)')
M(ALL,S,'CircleSegmentQuery(seg.Shape, seg.tb, seg.r, a, b, r2, &info2)','CircleSegmentQuery(seg.Shape, seg.tb, r, a, b, r2, &info2)')
M(ALL,S,'		if info1.Alpha < info2.Alpha {','		if info1.Alpha > info2.Alpha {')
M(ALL,S,'			*info = info2','			*info = info1')
M(ALL,P,'	v0 := planes[count-1].v0\n	minDist','	v0 := planes[0].v0\n	minDist')
M(ALL,P,'		if !outside {\n			outside = planes[i].n.Dot(p.Sub(v1)) > 0\n		}','		outside = planes[i].n.Dot(p.Sub(v1)) > 0')
M(ALL,P,'outside = planes[i].n.Dot(p.Sub(v1)) > 0','outside = planes[i].n.Dot(p.Sub(v1)) > r')
M(ALL,P,'			closestNormal = planes[i].n\n','')
M(ALL,P,'		if dist < minDist {','		if dist > minDist {')
M(ALL,P,'			minDist = dist\n','')
M(ALL,P,'		v0 = v1\n	}\n\n	var dist','	}\n\n	var dist')
M(ALL,P,'		dist = -minDist','		dist = minDist')
M(ALL,P,'	info.Distance = dist - r','	info.Distance = minDist - r')
M(ALL,P,'		info.Gradient = closestNormal','		info.Gradient = g')
M(ALL,P,'	rsum := r + r2','	rsum := r')
M(ALL,P,'		if d < 0 {\n			continue\n		}\n\n		bn','		if d < -rsum {\n			continue\n		}\n\n		bn')
M(ALL,P,'		if t < 0 || 1 < t {','		if 1 < t {')
M(ALL,P,'		if t < 0 || 1 < t {','		if t < 0 {')
M(ALL,P,'planes[(i-1+count)%count].v0)','planes[(i+1)%count].v0)')
M(ALL,P,'		if dtMin <= dt && dt <= dtMax {','		if dtMin <= dt || dt <= dtMax {')
M(ALL,P,'			info.Point = a.Lerp(b, t).Sub(n.Mult(r2))','			info.Point = a.Lerp(b, t).Sub(n.Mult(r))')
M(ALL,P,'			if circleInfo.Alpha < info.Alpha {','			if circleInfo.Alpha > info.Alpha {')
M(ALL,P,'	if rsum > 0 {','	if r > 0 {')
M(ALL,P,'CircleSegmentQuery(poly.Shape, planes[i].v0, r, a, b, r2, &circleInfo)','CircleSegmentQuery(poly.Shape, planes[0].v0, r, a, b, r2, &circleInfo)')
M(ALL,P,'			circleInfo := SegmentQueryInfo{nil, b, Vector{}, 1}\n			CircleSegmentQuery(poly','			circleInfo := SegmentQueryInfo{nil, b, Vector{}, 0.5}\n			CircleSegmentQuery(poly')
# behaviour preserving
R(ALL,C,'	d := delta.Length()','	d := circle.tc.Distance(p)')
R(ALL,C,'	if d > MAGIC_EPSILON {\n		info.Gradient = delta.Mult(1 / d)\n	} else {\n		info.Gradient = Vector{0, 1}\n	}','	info.Gradient = Vector{0, 1}\n	if MAGIC_EPSILON < d {\n		info.Gradient = delta.Mult(1 / d)\n	}')
R(ALL,C,'	qa := da.Dot(da) - 2*da.Dot(db) + db.Dot(db)','	qa := b.Sub(a).LengthSq()')
R(ALL,C,'	if det >= 0 {\n','	if det < 0 {\n		return\n	}\n	{\n')
R(ALL,C,'info.Point = a.Lerp(b, t).Sub(n.Mult(r2))','at := a.Lerp(b, t)\n			info.Point = Vector{at.X - n.X*r2, at.Y - n.Y*r2}')
R(ALL,C,'		if 0 <= t && t <= 1 {\n','		if t < 0 || t > 1 {\n			return\n		}\n		{\n')
R(ALL,S,'	if d > 0 {\n		flippedN = n.Neg()\n	} else {\n		flippedN = n\n	}','	flippedN = n\n	if d > 0 {\n		flippedN = flippedN.Neg()\n	}')
R(ALL,S,'		if info1.Alpha < info2.Alpha {\n			*info = info1\n		} else {\n			*info = info2','		if info2.Alpha <= info1.Alpha {\n			*info = info2\n		} else {\n			*info = info1')
R(ALL,S,'		if d > 0 {\n			dOffset -= r\n		} else {\n			dOffset += r\n		}','		off := r\n		if d > 0 {\n			off = -r\n		}\n		dOffset += off')
R(ALL,P,'		if !outside {\n			outside = planes[i].n.Dot(p.Sub(v1)) > 0\n		}','		outside = outside || planes[i].n.Dot(p.Sub(v1)) > 0')
R(ALL,P,'	var dist float64\n	if outside {\n		dist = minDist\n	} else {\n		dist = -minDist\n	}','	dist := minDist\n	if !outside {\n		dist = -dist\n	}')
R(ALL,P,'	for i := 0; i < count; i++ {\n		v1 := planes[i].v0\n		if !outside {\n			outside = planes[i].n.Dot(p.Sub(v1)) > 0','	for i, plane := range planes[:count] {\n		v1 := plane.v0\n		if !outside {\n			outside = plane.n.Dot(p.Sub(v1)) > 0')
R(ALL,P,'		if d < 0 {\n			continue\n		}\n\n		bn := b.Dot(n)\n		t := d / (an - bn)\n		if t < 0 || 1 < t {','		bn := b.Dot(n)\n		t := d / (an - bn)\n		if d < 0 || t < 0 || 1 < t {')
R(ALL,P,'planes[(i-1+count)%count].v0)','planes[(i+count-1)%count].v0)')
R(ALL,P,'	if rsum > 0 {\n		for i','	if rsum <= 0 {\n		return\n	}\n	{\n		for i')
R(ALL,P,'			circleInfo := SegmentQueryInfo{nil, b, Vector{}, 1}\n			CircleSegmentQuery(poly.Shape, planes[i].v0','			var circleInfo SegmentQueryInfo\n			circleInfo.Point = b\n			circleInfo.Alpha = 1\n			CircleSegmentQuery(poly.Shape, planes[i].v0')
