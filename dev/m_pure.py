M('C22', 'space.go', '	info := &PointQueryInfo{nil, Vector{}, maxDistance, Vector{}}', '	info := &PointQueryInfo{nil, Vector{}, maxDistance, Vector{}}\n	space.dynamicShapes.class.Each(func(s *Shape) { s.CacheBB() })')
M('C22', 'arbiter.go', '	set.Count = arb.Count()\n', '	set.Count = arb.Count()\n	if arb.swapped {\n		arb.n = arb.n.Neg()\n		arb.swapped = false\n	}\n')
M('C22', 'body.go', '	return body.sleepingRoot != nil\n', '	if body.sleepingRoot == nil {\n		body.sleepingNext = nil\n	}\n	return body.sleepingRoot != nil\n')
M('C22', 'shape.go', '	contacts := make([]Contact, MAX_CONTACTS_PER_ARBITER)', '	contacts := shapesCollideScratch[:]', [('shape.go','func ShapesCollide','var shapesCollideScratch [MAX_CONTACTS_PER_ARBITER]Contact\n\nfunc ShapesCollide')])
R('C22', 'shape.go', '	contacts := make([]Contact, MAX_CONTACTS_PER_ARBITER)', '	var buf [MAX_CONTACTS_PER_ARBITER]Contact\n	contacts := buf[:]')
R('C22', 'body.go', '	return body.v\n', '	v := &body.v\n	return *v\n')
M('C22', 'segment.go', 'func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {\n', 'func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {\n	seg.CacheData(seg.Shape.body.transform)\n')
M('C22', 'space.go', 'func (space *Space) ContainsShape(shape *Shape) bool {\n', 'func (space *Space) ContainsShape(shape *Shape) bool {\n	if shape.space == nil {\n		shape.space = space\n		defer shape.SetSpace(nil)\n	}\n')
M('C22', 'bbtree.go', 'func (tree *BBTree) Query(obj interface{}, bb BB, f SpatialIndexQuery, data interface{}) {\n', 'func (tree *BBTree) Query(obj interface{}, bb BB, f SpatialIndexQuery, data interface{}) {\n	tree.IncrementStamp()\n')
M('C22', 'space.go', '	bb := shape.Update(', '	space.ReindexShape(shape)\n	bb := shape.Update(') if False else None
M('C22', 'constraint.go', 'func (c *Constraint) Next(body *Body) *Constraint {\n', 'func (c *Constraint) Next(body *Body) *Constraint {\n	if c.next_a == c {\n		c.next_a = nil\n	}\n')
M('C22', 'pinjoint.go', '	return math.Abs(joint.jnAcc)', '	j := math.Abs(joint.jnAcc)\n	joint.jnAcc = 0\n	return j')
M('C22', 'draw.go', 'func DrawShape(shape *Shape, options Drawer) {\n', 'func DrawShape(shape *Shape, options Drawer) {\n	shape.CacheBB()\n')
R('C22', 'everything.go', '		vsum = vsum.Add(v1.Add(v2).Mult(cross))', '		accumulate(&vsum, v1.Add(v2).Mult(cross))', [('everything.go', '// CentroidForPoly', 'func accumulate(sum *Vector, v Vector) { sum.X += v.X; sum.Y += v.Y }\n\n// CentroidForPoly')])
R('C22', 'body.go', '	v := VelocityAt', '	v := VelocityAt') if False else None
M('C22', 'body.go', 'func (body *Body) KineticEnergy() float64 {\n', 'func accumulate(sum *Vector, v Vector) { sum.X += v.X; sum.Y += v.Y }\n\nfunc (body *Body) KineticEnergy() float64 {\n	accumulate(&body.v, Vector{0, 1e-300})\n')
