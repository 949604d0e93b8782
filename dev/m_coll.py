ALL='C19'
C,E,H='collision.go','everything.go','shape.go'
M(ALL,C,'	if distsq < mindist*mindist {\n		dist := math.Sqrt(distsq)\n		if dist != 0 {\n			info.n = delta.Mult(1.0 / dist)','	if distsq < mindist {\n		dist := math.Sqrt(distsq)\n		if dist != 0 {\n			info.n = delta.Mult(1.0 / dist)')
M(ALL,C,'	delta := c2.tc.Sub(c1.tc)','	delta := c1.tc.Sub(c2.tc)')
M(ALL,C,'	mindist := c1.r + c2.r','	mindist := c1.r + c1.r')
M(ALL,C,'info.PushContact(c1.tc.Add(info.n.Mult(c1.r)), c2.tc.Add(info.n.Mult(-c2.r)), 0)','info.PushContact(c1.tc.Add(info.n.Mult(c1.r)), c2.tc.Add(info.n.Mult(c2.r)), 0)')
M(ALL,C,'info.PushContact(c1.tc.Add(info.n.Mult(c1.r)), c2.tc.Add(info.n.Mult(-c2.r)), 0)','info.PushContact(c1.tc.Add(info.n.Mult(c2.r)), c2.tc.Add(info.n.Mult(-c2.r)), 0)')
M(ALL,C,'			info.n = Vector{1, 0}','			info.n = Vector{0, 0}')
M(ALL,C,'	closestT := Clamp01(segDelta','	closestT := (segDelta')
M(ALL,C,'	delta := closest.Sub(center)','	delta := center.Sub(closest)')
M(ALL,C,'	segA := segment.ta','	segA := segment.a')
M(ALL,C,'			info.n = segment.tn','			info.n = segment.n')
M(ALL,C,'closestT != 0.0 || n.Dot(segment.a_tangent.Rotate(rot)) >= 0.0','closestT != 0.0 || n.Dot(segment.a_tangent.Rotate(rot)) > 0.0')
M(ALL,C,'closestT != 0.0 || n.Dot(segment.a_tangent.Rotate(rot)) >= 0.0','closestT != 0.0 || n.Dot(segment.a_tangent) >= 0.0')
M(ALL,C,'closestT != 1.0 || n.Dot(segment.b_tangent.Rotate(rot)) >= 0.0','closestT != 1.0 || n.Dot(segment.a_tangent.Rotate(rot)) >= 0.0')
M(ALL,C,'closest.Add(n.Mult(-segment.r)), 0)','closest.Add(n.Mult(-circle.r)), 0)')
M(ALL,C,'	mindist := circle.r + segment.r','	mindist := circle.r')
M(ALL,C,'SupportContext{info.a, info.b, SegmentSupportPoint, SegmentSupportPoint}','SupportContext{info.a, info.a, SegmentSupportPoint, SegmentSupportPoint}')
M(ALL,C,'SupportContext{info.a, info.b, CircleSupportPoint, PolySupportPoint}','SupportContext{info.b, info.a, PolySupportPoint, CircleSupportPoint}')
M(ALL,C,'	if points.d > (seg1.r + seg2.r) {','	if points.d > (seg1.r - seg2.r) {')
M(ALL,C,'(!points.a.Equal(seg1.ta) || n.Dot(seg1.a_tangent.Rotate(rot1)) <= 0)','(!points.a.Equal(seg1.ta) || n.Dot(seg1.a_tangent.Rotate(rot1)) >= 0)')
M(ALL,C,'(!points.b.Equal(seg2.ta) || n.Dot(seg2.a_tangent.Rotate(rot2)) >= 0)','(!points.b.Equal(seg2.ta) || n.Dot(seg2.a_tangent.Rotate(rot1)) >= 0)')
M(ALL,C,'(!points.b.Equal(seg2.tb) || n.Dot(seg2.b_tangent.Rotate(rot2)) >= 0)','(!points.a.Equal(seg2.tb) || n.Dot(seg2.b_tangent.Rotate(rot2)) >= 0)')
M(ALL,C,'SupportEdgeForSegment(seg1, n), SupportEdgeForSegment(seg2, n.Neg())','SupportEdgeForSegment(seg1, n), SupportEdgeForSegment(seg2, n)')
M(ALL,C,'SupportEdgeForSegment(seg1, n), SupportEdgeForSegment(seg2, n.Neg())','SupportEdgeForSegment(seg2, n.Neg()), SupportEdgeForSegment(seg1, n)')
M(ALL,C,'	if points.d <= circle.r+poly.r {','	if points.d <= circle.r {')
M(ALL,C,'info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)','info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)')
M(ALL,C,'		info.n = points.n\n		info.Push','		info.n = points.n.Neg()\n		info.Push')
M(ALL,C,'	if points.d-segment.r-polyshape.r <= 0 && (','	if points.d-polyshape.r <= 0 && (')
M(ALL,C,'		(!points.a.Equal(segment.tb) || n.Dot(segment.b_tangent.Rotate(rot)) <= 0)) {','		(!points.a.Equal(segment.ta) || n.Dot(segment.b_tangent.Rotate(rot)) <= 0)) {')
M(ALL,C,'	rot := info.a.body.Rotation()','	rot := info.b.body.Rotation()')
M(ALL,C,'	if points.d-poly1.r-poly2.r <= 0 {','	if points.d-poly1.r <= 0 {')
M(ALL,C,'SupportEdgeForPoly(poly1, points.n), SupportEdgeForPoly(poly2, points.n.Neg())','SupportEdgeForPoly(poly1, points.n.Neg()), SupportEdgeForPoly(poly2, points.n)')
M(ALL,C,'			a: EdgePoint{seg.ta, HashPair(hashid, 0)},\n			b: EdgePoint{seg.tb, HashPair(hashid, 1)},','			a: EdgePoint{seg.tb, HashPair(hashid, 1)},\n			b: EdgePoint{seg.ta, HashPair(hashid, 0)},')
M(ALL,C,'		a: EdgePoint{seg.tb, HashPair(hashid, 1)},\n		b','		a: EdgePoint{seg.tb, HashPair(hashid, 0)},\n		b')
M(ALL,C,'		n: seg.tn.Neg(),','		n: seg.tn,')
M(ALL,C,'	i0 := (i1 - 1 + count) % count','	i0 := (i1 + 1 + count) % count')
M(ALL,C,'	if n.Dot(planes[i1].n) > n.Dot(planes[i2].n) {','	if n.Dot(planes[i1].n) < n.Dot(planes[i2].n) {')
M(ALL,C,'	if n.Dot(planes[i1].n) > n.Dot(planes[i2].n) {','	if n.Dot(planes[i0].n) > n.Dot(planes[i2].n) {')
M(ALL,C,'		poly.r,\n		planes[i2].n,','		poly.r,\n		planes[i1].n,')
M(ALL,C,'EdgePoint{planes[i2].v0, HashPair(hashId, HashValue(i2))}','EdgePoint{planes[i2].v0, HashPair(hashId, HashValue(i1))}')
M(ALL,C,'	info.n = points.n\n\n	dE1A','	dE1A')
M(ALL,C,'	dE2B := e2.b.p.Cross(n)','	dE2B := e2.a.p.Cross(n)')
M(ALL,C,'Clamp01((dE2B-dE1A)*e1Denom)','(dE2B-dE1A)*e1Denom')
M(ALL,C,'Clamp01((dE1A-dE2A)*e2Denom)','Clamp01((dE1B-dE2A)*e2Denom)')
M(ALL,C,'n.Mult(-e2.r).Add(e2.a.p.Lerp(e2.b.p, Clamp01((dE1B','n.Mult(e2.r).Add(e2.a.p.Lerp(e2.b.p, Clamp01((dE1B')
M(ALL,C,'			hash1b2a := HashPair(e1.b.hash, e2.a.hash)','			hash1b2a := HashPair(e1.a.hash, e2.b.hash)')
M(ALL,C,'		if dist <= 0 {\n			hash1b2a','		if dist >= 0 {\n			hash1b2a')
M(ALL,C,'	CircleToPoly,\n	SegmentToPoly,','	SegmentToPoly,\n	CircleToPoly,')
M(ALL,C,'	if a.Order() > b.Order() {','	if a.Order() < b.Order() {')
M(ALL,C,'	BuiltinCollisionFuncs[info.a.Order()+info.b.Order()*SHAPE_TYPE_NUM](&info)','	BuiltinCollisionFuncs[info.a.Order()*SHAPE_TYPE_NUM+info.b.Order()](&info)')
M(ALL,C,'		arr:         contacts,\n','		arr:         contacts[1:],\n')
M(ALL,C,'		collisionId: collisionID,\n','')
M(ALL,H,'	case *Segment:\n		return 1','	case *Segment:\n		return 2')
M(ALL,E,'	con.r2 = p2','	con.r2 = p1')
M(ALL,E,'	con.hash = hash','	con.hash = 0')
M(ALL,H,'		set.Normal = info.n.Neg()','		set.Normal = info.n')
M(ALL,H,'			set.Points[i].PointA = p2','			set.Points[i].PointA = p1')
M(ALL,H,'p2.Sub(p1).Dot(info.n)','p2.Sub(p1).Dot(set.Normal)')
M(ALL,H,'	swapped := a != info.a','	swapped := a == info.a')
M(ALL,H,'	contacts := make([]Contact, MAX_CONTACTS_PER_ARBITER)','	contacts := make([]Contact, 1)')
# behaviour preserving
R(ALL,C,'	mindist := c1.r + c2.r\n	delta := c2.tc.Sub(c1.tc)\n	distsq := delta.LengthSq()\n','	delta := c2.tc.Sub(c1.tc)\n	mindist, distsq := c2.r+c1.r, c1.tc.DistanceSq(c2.tc)\n')
R(ALL,C,'		if dist != 0 {\n			info.n = delta.Mult(1.0 / dist)\n		} else {\n			info.n = Vector{1, 0}\n		}','		info.n = Vector{1, 0}\n		if dist != 0 {\n			info.n = Vector{delta.X / dist, delta.Y / dist}\n		}')
R(ALL,C,'c2.tc.Add(info.n.Mult(-c2.r)), 0)','c2.tc.Sub(info.n.Mult(c2.r)), 0)')
R(ALL,C,'	if points.d > (seg1.r + seg2.r) {\n		return\n	}\n','	if points.d-seg1.r-seg2.r > 0 {\n		return\n	}\n')
R(ALL,C,'	rot := info.a.body.Rotation()\n\n	segment := info.a.Class.(*Segment)','	segment := info.a.Class.(*Segment)\n	rot := segment.body.Rotation()')
R(ALL,C,'		if (closestT != 0.0 || n.Dot(segment.a_tangent.Rotate(rot)) >= 0.0) &&\n			(closestT != 1.0 || n.Dot(segment.b_tangent.Rotate(rot)) >= 0.0) {\n','		if closestT == 0.0 && n.Dot(segment.a_tangent.Rotate(rot)) < 0.0 {\n			return\n		}\n		if closestT == 1.0 && n.Dot(segment.b_tangent.Rotate(rot)) < 0.0 {\n			return\n		}\n		{\n')
R(ALL,C,'	if n.Dot(planes[i1].n) > n.Dot(planes[i2].n) {','	if n.Dot(planes[i1].n) >= n.Dot(planes[i2].n) {')
R(ALL,C,'	i2 := (i1 + 1) % count','	i2 := i1 + 1\n	if i2 == count {\n		i2 = 0\n	}')
R(ALL,C,'	i0 := (i1 - 1 + count) % count','	i0 := i1 - 1\n	if i0 < 0 {\n		i0 = count - 1\n	}')
R(ALL,C,'	// Make sure the shape types are in order.\n	if a.Order() > b.Order() {\n		info.a = b\n		info.b = a\n	} else {\n		info.a = a\n		info.b = b\n	}','	if b.Order() < a.Order() {\n		info.a, info.b = info.b, info.a\n	}')
R(ALL,C,'	if points.d > mindist {\n		return\n	}\n\n	n := points.n','	if points.d >= mindist+0 && points.d != mindist {\n		return\n	}\n\n	n := points.n')
R(ALL,C,'		dist := p2.Sub(p1).Dot(n)\n		if dist <= 0 {\n			hash1a2b := HashPair(e1.a.hash, e2.b.hash)\n			info.PushContact(p1, p2, hash1a2b)\n		}','		if p2.Dot(n) <= p1.Dot(n) {\n			info.PushContact(p1, p2, HashPair(e1.a.hash, e2.b.hash))\n		}')
R(ALL,H,'	swapped := a != info.a\n	if swapped {\n		set.Normal = info.n.Neg()\n	} else {\n		set.Normal = info.n\n	}','	swapped := a != info.a\n	set.Normal = info.n\n	if swapped {\n		set.Normal = set.Normal.Neg()\n	}')
R(ALL,H,'		p1 := contacts[i].r1\n		p2 := contacts[i].r2\n\n		if swapped {\n			set.Points[i].PointA = p2\n			set.Points[i].PointB = p1\n		} else {\n			set.Points[i].PointA = p1\n			set.Points[i].PointB = p2\n		}\n','		p1, p2 := contacts[i].r1, contacts[i].r2\n		pt := &set.Points[i]\n		pt.PointA, pt.PointB = p1, p2\n		if swapped {\n			pt.PointA, pt.PointB = p2, p1\n		}\n')
