# One entry per property: properties.jsonl and MANIFEST.json are generated from this (gen.py).
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, na=na))


P("C01", "Every operation leaves the space's lock count as it found it",
  "Every exported operation that returns leaves the space locked exactly as deeply as it was when the operation began, on every path, whether it is used on an unlocked space, from inside a callback or query, or from a post-step callback; Lock adds one and Unlock takes one away. The guard against nested post-step callbacks is left as it was found, too.",
  ["inputs", "histories"], "every exported operation, every path through it, at every nesting depth",
  "A missed release on a rare path stops bodies from waking and post-step callbacks from running for ever after; tests take the common paths only.",
  ["space.go", "body.go", "shape.go", "bbtree.go", "spacehash.go"], [("Space.Lock", "space.go"), ("Space.Unlock", "space.go")],
  "interprocedural typestate analysis of the lock count over SSA and the call graph")
P("C02", "Callbacks run while the space is locked, post-step callbacks unlocked",
  "Whenever an exported operation of Space calls a function the user supplied (collision, constraint and query callbacks, EachBody/EachShape/EachConstraint functions, custom position and velocity functions), the space is locked, so that what the callback does cannot disturb the lists being walked. "
  "Post-step callbacks are called while the space is not locked, and never one inside another.",
  ["inputs", "histories"], "every exported operation of Space, every path to a callback",
  "Tests use few callbacks and none that depends on the lock state.",
  ["space.go", "arbiter.go", "bbtree.go", "spacehash.go", "body.go"], [("Space.Step", "space.go"), ("Space.Lock", "space.go"), ("Space.Unlock", "space.go")],
  "interprocedural typestate analysis of the lock count over SSA and the call graph, closures followed into the spatial index")
P("C03", "Post-step callbacks run exactly once, in order, after the step or query",
  "AddPostStepCallback queues the function with its key and data and returns true, unless the key is not nil and a queued callback has the same key: then it queues nothing and returns false. "
  "When a step, a query or an EachBody/EachShape/EachConstraint call that is not nested in another one ends, every queued callback is called exactly once, in the order queued, with the space, its key and its data, those queued meanwhile included, and the queue is empty afterwards. None is called in the middle of a step.",
  ["inputs", "histories"], "every operation that releases the space, every queue, callbacks that queue more callbacks",
  "Order, exactly-once and callbacks that add callbacks are histories; the tests use one callback.",
  ["space.go"], [("Space.AddPostStepCallback", "space.go"), ("Space.Unlock", "space.go"), ("Space.Step", "space.go")],
  "guarded value summaries of queueing and draining; typestate analysis of release and drain over the call graph")
P("C09", "A body's inverse mass and moment always match its mass and moment",
  "After every exported operation that can change a body's mass data (creating it, setting mass or moment, changing its type, adding, removing or changing the mass, density or geometry of shapes), the inverse mass is the reciprocal of the mass and the inverse moment the reciprocal of the moment, both zero for an infinite quantity; a body made kinematic or static has zero inverse mass and moment and no velocity. "
  "A body whose mass comes from its shapes has the sum of their masses, the mass-weighted mean of their centres of gravity, and the sum of their moments moved to that centre. Summing the mass again does not move the body.",
  ["inputs", "histories"], "every body, every value given to the setters, every set of shapes, every order of operations",
  "The tests check a handful of masses; the relation has to hold after every operation that can reach the mass data, for all values.",
  ["body.go", "shape.go"], [("Body.SetMass", "body.go"), ("Body.SetMoment", "body.go"), ("Body.SetType", "body.go"), ("Body.AccumulateMassFromShapes", "body.go")],
  "guarded value summaries (SSA dataflow, polynomial normal form) at every writer of the mass data")
P("C10", "A body's transform always agrees with its position, angle and centre",
  "After every exported operation that moves or turns a body or changes its centre of gravity, the rotation and the conversions between local and world coordinates agree with the body's position, angle and centre of gravity: world = position + rotation by the angle of (local - centre). "
  "Position and Angle return what SetPosition and SetAngle were given, setting one leaves the other alone, and converting to world coordinates and back gives the same point.",
  ["inputs", "histories"], "every body, every position, angle and centre of gravity, every order of operations",
  "The tests sample a few angles at the origin; the agreement is an invariant over all writers of position, angle and centre of gravity.",
  ["body.go", "transform.go"], [("Body.SetPosition", "body.go"), ("Body.SetAngle", "body.go"), ("Body.SetTransform", "body.go"), ("BodyUpdatePosition", "body.go")],
  "guarded value summaries (SSA dataflow, polynomial normal form) at every writer of the transform")
P("C11", "Joints and contacts exchange equal and opposite impulses",
  "Whenever a joint, spring, motor or contact changes the velocities of its two bodies (preparing a step, applying the impulse of the step before, or solving), the linear impulses on the two bodies are equal and opposite and each body's spin changes by the moment of its impulse about its own anchor or contact point. "
  "Joints that only turn bodies apply equal and opposite angular impulses (in the proportion of the gear ratio for a gear) and no linear ones. Anchors given in body coordinates turn with the body and are measured from its centre of gravity.",
  ["inputs", "histories"], "every constraint type, every pair of bodies, masses, anchors and velocities",
  "A wrong sign or a wrong body in one of thirty solver methods conserves momentum in symmetric test scenes; the tests exercise none of the joints.",
  ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go", "arbiter.go", "constraint.go"],
  [("Constrainer.ApplyImpulse", "constraint.go"), ("Arbiter.ApplyImpulse", "arbiter.go"), ("apply_impulses", "arbiter.go")],
  "velocity-change identities in polynomial normal form over the gated SSA of every solver method")
P("C12", "Bodies of infinite mass are not moved by impulses, joints or contacts",
  "A body of infinite mass and infinite moment (static or kinematic) keeps its velocity and spin whatever joints, springs, motors, contacts or impulses act on it. "
  "The default velocity integration leaves a kinematic body's velocity and spin alone: gravity, damping and forces have no effect on it.",
  ["inputs"], "every constraint type and solver phase, every state of the other body",
  "The tests never put a static or kinematic body on one of the joints.",
  ["arbiter.go", "body.go", "constraint.go", "pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go"],
  [("Constrainer", "constraint.go"), ("Body.UpdateVelocity", "body.go")],
  "velocity-change identities in polynomial normal form over the gated SSA with zero inverse mass")
P("C13", "Joint impulses and corrections stay inside their limits",
  "After every solver iteration the accumulated impulse of a joint or motor is at most its maximum force times the time step, and the corrective velocity it aims for is at most its maximum bias (springs have no limit). "
  "Joints with limits (slide, rotary limit, ratchet) only ever push back towards their range, and do nothing while inside it.",
  ["inputs"], "every joint type, every limit, every velocity and position",
  "Bounds must hold for all inputs; no test reads a joint's impulse.",
  ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go", "vector.go", "everything.go"],
  [("Clamp", "everything.go"), ("Vector.Clamp", "vector.go"), ("Constraint.MaxForce", "constraint.go")],
  "guarded values of min/max/clamp structure with sign reasoning over SSA")
P("C14", "Contacts push apart, with restitution and friction of the pair",
  "After every solver iteration the accumulated normal impulse and position correction of every contact are not negative, the friction impulse is at most the pair's friction times the normal impulse, and what the bodies receive is the change of the accumulated impulses along the normal and the tangent. "
  "The pair's elasticity and friction are the products of the shapes' values and its surface velocity the tangential part of their difference; the normal impulse aims at the elasticity times the approach speed, the position correction at the configured share of the overlap beyond the allowed slop, and friction at stopping the sliding relative to the surface velocity. "
  "A contact that persists from the step before starts from that step's impulses, a new one from zero, and every contact of the pair is treated.",
  ["inputs", "histories"], "every pair of shapes, every number of contacts, every velocity, elasticity and friction",
  "Unit tests look at one resting or bouncing configuration at most; sign and cone conditions quantify over all velocities.",
  ["arbiter.go", "collision.go"], [("Arbiter.ApplyImpulse", "arbiter.go"), ("Arbiter.PreStep", "arbiter.go"), ("Arbiter.Update", "arbiter.go")],
  "guarded values of the contact loops over SSA; loop coverage analysis")
P("C15", "Each joint drives its own error to zero at the configured rate",
  "For every joint type, the corrective velocity prepared for a step is the share 1 - errorBias^dt of the joint's position error (distance, angle, ratio or limit overrun) divided by the time step, directed to reduce it, and the mass used is the joint's true effective mass; one solver iteration that stays inside the force limit leaves exactly that relative velocity (for a motor its rate, for a spring the damped velocity). "
  "A spring's impulse is its force or torque function's result for the current length or relative angle times the time step. An iteration adds to the accumulated impulse what it applied to the bodies, and warm starting re-applies the accumulated impulse scaled by the ratio of the time steps. Joint constructors keep the bodies and parameters they are given, and GetImpulse reports the size of the accumulated impulse.",
  ["inputs"], "every joint type, bodies, anchors, parameters, velocities and time steps",
  "A wrong effective mass or a flipped correction only shows as slow convergence or drift in particular scenes; the tests exercise no joint.",
  ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go", "everything.go"],
  [("Constrainer.PreStep", "constraint.go"), ("k_scalar", "everything.go"), ("k_tensor", "everything.go"), ("bias_coef", "everything.go")],
  "algebraic identities between guarded values over SSA")

P("C22", "Looking at the world does not change it",
  "Point, box, segment and shape queries, the Each functions, Contains functions, getters, contact points, drawing, and the mass and geometry helpers change nothing that a later step or query depends on, asleep or awake, locked or not, with either spatial index: "
  "no body wakes, no shape moves or is indexed anew, no arbiter or contact changes. What they note down for themselves is limited to the lock count while a callback runs, the stamps and dropped handles of a spatial hash, the direction of an arbiter while EachArbiter shows it, DebugInfo's maximums, "
  "and, for ShapeQuery, the cached geometry of the shape it is given. Colliding two shapes for a query uses contacts of its own.",
  ["inputs", "histories"], "every query and getter, state of the world and index",
  "A query that refreshes a cache or wakes a body changes a later step only; tests look once and compare nothing.",
  ["space.go", "body.go", "shape.go", "arbiter.go", "bbtree.go", "spacehash.go", "draw.go"], [("Space.BBQuery", "space.go"), ("Shape.PointQuery", "shape.go"), ("Arbiter.ContactPointSet", "arbiter.go"), ("DrawSpace", "draw.go")],
  "interprocedural mod/ref effect analysis, following function values")
P("C23", "Spaces share nothing that changes",
  "Two spaces that have no body, shape or constraint in common can be used at the same time by two goroutines: no operation writes memory that a package variable leads to (atomic operations aside), hands such memory to the user or to his callbacks, keeps it where the user can reach it, or starts a goroutine. "
  "What a constructor returns is its own.",
  ["schedules", "histories"], "every operation of the package, any interleaving of operations on different spaces",
  "Sharing shows only with two spaces, and a race only under particular interleavings; no test uses two.",
  ["space.go", "body.go", "arbiter.go", "draw.go", "hashset.go", "collision.go"], [("NewSpace", "space.go"), ("NewBody", "body.go"), ("DrawConstraint", "draw.go")],
  "interprocedural taint analysis from package variables")
P("C24", "The same calls give the same world",
  "What a space does depends on the calls made on it and its objects alone: not on addresses, map order, time, random numbers, environment, goroutines or the garbage collector, nor on how many objects other spaces have made. "
  "Objects that come from a pool are made anew in every field before anything reads them, so that it makes no difference whether the pool had an old one; body ids, which all spaces count on together, appear in names only.",
  ["inputs", "histories", "schedules"], "every operation; every state of pools, allocator and counters",
  "Such differences appear between runs or processes; a test that compares one run with itself sees none.",
  ["space.go", "body.go", "arbiter.go", "spacehash.go", "hashset.go"], [("Arbiter.Init", "arbiter.go"), ("Handle.Init", "spacehash.go"), ("Space.AddShape", "space.go")],
  "effect analysis of the sources of indeterminacy, with guarded value summaries of re-initialisation")
P("C25", "Contacts have room of their own for as long as they are needed",
  "The memory of contacts is a ring of buffers. Every step, at its own time stamp, takes the oldest buffer into use, empty, if it is older than the collision persistence (so that no contact in it can be compared with a new one any more), and otherwise a new one, linked in between the newest and the oldest. "
  "The slice handed out for a pair lies wholly in the buffer in use, begins at the first free contact and has room for the two contacts a pair may have; when there is no such room another buffer is taken into use. "
  "No collision function reports more than two contacts; each is stored with both its points and its hash, in order. A pair that collides keeps exactly the contacts just found.",
  ["inputs", "histories"], "every number of contacts per step, every history of steps, every persistence, every pair of shapes",
  "Contacts overwritten too early need a thousand contacts or a pair that comes back after some steps; tests have one or two contacts.",
  ["space.go", "contactbuffer.go", "everything.go", "arbiter.go", "collision.go"], [("Space.PushFreshContactBuffer", "space.go"), ("Space.ContactBufferGetArray", "space.go"), ("CollisionInfo.PushContact", "everything.go"), ("Arbiter.Update", "arbiter.go")],
  "guarded value summaries of the ring of buffers; typestate analysis of contacts pushed and of the buffer in use")
P("C26", "Closest points come from the simplex of support points that decides them",
  "The support function of every shape gives its outermost point in the direction asked for, with the vertex id it belongs to; the point of the Minkowski difference is the second shape's outermost point one way less the first's the other way, with both ids. "
  "The search starts at the vertices of the cached collision id when there is one and at the axis between the two boxes' centers otherwise, and never works with an axis of zero length. "
  "Each step of it turns the edge round when the origin lies behind it, hands over to the penetration search when the new point encloses the origin, ends at the edge when the new point is no further out, and otherwise continues with the half of the triangle that is closer to the origin. "
  "The penetration search takes the edge of the hull closest to the origin, ends there when the point beyond it is already known or no further out, and otherwise continues with the hull that has this point inserted and what it covers dropped. "
  "The closest points of an edge are interpolated at the point of it closest to the origin, with normal and distance from the axis of separation, also when the edge has no length. Both searches are bounded. Nothing but the result is changed.",
  ["inputs"], "every pair of shapes and positions, every collision id, every simplex and hull a search can reach",
  "Which simplex a search meets depends on shapes, angles and cached ids; tests drop a few boxes.",
  ["collision.go", "shape.go", "poly.go"], [("GJK", "collision.go"), ("GJKRecurse", "collision.go"), ("EPA", "collision.go"), ("EPARecurse", "collision.go"), ("MinkowskiPoint.ClosestPoints", "collision.go")],
  "polynomial normal form over gated SSA dataflow; per-step relations of the searches, as recursion or as loop; induction over the hull loops")

P("C27", "Segments gather into lines without loss, and simplifying keeps what matters",
  "Collecting a segment extends the line that ends at its start, or the line that starts at its end, or joins the two, or closes the one that does both, or begins a new line; nothing else in the set changes, no vertex is lost or doubled, and the searches for ends and starts find a matching line whenever there is one. "
  "A line is closed exactly when it has more than one vertex and ends where it begins. "
  "Simplifying by angle keeps the first two vertices, replaces the last kept vertex when the direction changes by no more than the tolerance and keeps every vertex that turns more, and treats the seam of a closed line alike, leaving it closed. "
  "Simplifying curves starts and ends open lines at their ends, closed ones at their lexicographic extreme; a piece is dropped only when its vertices are adjacent, when it is short, or when no vertex is further than the tolerance from its chord, and is otherwise split at the furthest vertex, walking round the ring from start to end. Neither changes the line given.",
  ["inputs", "histories"], "every order of segments, every line, every tolerance",
  "Which case a segment is depends on all segments before it; the tests have no line at all.",
  ["polyline.go", "poly.go"], [("PolyLineCollectSegment", "polyline.go"), ("PolyLineSet.Join", "polyline.go"), ("PolyLine.SimplifyVertexes", "polyline.go"), ("PolyLine.SimplifyCurves", "polyline.go"), ("DouglasPeucker", "polyline.go"), ("LoopIndexes", "poly.go")],
  "guarded value summaries of lists; induction over the loops; per-step relation of the recursion")

P("C28", "Marching squares separates the samples above the threshold from the others",
  "Samples are taken at the grid points of the box, ends included; every cell is given the four samples and the bounds of its own corners, once, with the same threshold. "
  "Inside a cell the lines reported separate the corners above the threshold from the others: on every side whose corners differ exactly one line starts or ends, at the point interpolated between the two samples (smooth) or halfway and via the center of the cell (hard), with the corners above on the left; on other sides none. Lines without length are left out. "
  "So neighbouring cells agree on the side they share, and outlines have no loose ends inside the box. The set of lines returned holds only what was collected in the call.",
  ["inputs"], "every sample function, threshold, box and sampling density; all sixteen corner cases of both cell kinds",
  "A mistake in one of 16 cases or one stale sample shows only for particular sample patterns; no test runs it.",
  ["march.go"], [("MarchCells", "march.go"), ("MarchCellSoft", "march.go"), ("MarchCellHard", "march.go"), ("MarchSoft", "march.go"), ("MarchHard", "march.go")],
  "guarded value summaries; loop induction for the row buffer; case table derived from the corner signs and compared by polynomial normal form")

P("C29", "Vector, transform and bounding-box operations obey their algebra",
  "The exported operations on vectors, numbers, transforms and bounding boxes compute what their names say, for all finite inputs, up to rounding: sums, products and rotations and their inverses; projection, normalisation, clamping, interpolation and the nearest point of a segment; composition, inverse and the named transforms; "
  "a box that is merged, expanded or transformed holds all it should and no more; the overlap and containment tests are exact; and BB.SegmentQuery gives the fraction at which the segment enters the box (0 from inside), or infinity exactly when it misses, with IntersectsSegment agreeing.",
  ["inputs"], "every vector, angle, transform, box and segment (divisors not zero, boxes and limits the right way round)",
  "Identities over all reals; the tests check a few vectors and no transform.",
  ["vector.go", "transform.go", "bb.go"], [("Vector.Rotate", "vector.go"), ("Transform.Inverse", "transform.go"), ("BB.SegmentQuery", "bb.go"), ("BB.Merge", "bb.go")],
  "polynomial normal forms and sign reasoning over min/max structure of the functions' SSA values")
P("C30", "Moments, areas and centroids are the textbook ones",
  "The moment of a box, an off-centre box, a (hollow) circle, a fat segment and a polygon, the area of a circle, a fat segment and a fat polygon (signed by its winding), and the centroid of a polygon are the values of the known formulas, for every number of vertices, either winding and any place of the vertices; a polygon of two vertices has the moment of a line. "
  "Mass, area, density, moment and centre of gravity of a shape are those of its mass properties, setting a density sets the mass to density times area, and setting a mass makes the body work out its own again.",
  ["inputs"], "every size, offset and radius, every polygon of any number of vertices",
  "The tests compute one or two values for shapes around the origin; polygons of any number of vertices need induction over the edges.",
  ["everything.go", "shape.go"], [("MomentForPoly", "everything.go"), ("AreaForPoly", "everything.go"), ("CentroidForPoly", "everything.go"), ("Shape.SetMass", "shape.go")],
  "polynomial normal form of the formulas; sums over the edges by induction over the loops")
P("C31", "Changing a shape's geometry is like making it that way",
  "A new circle, segment or polygon has the given geometry, no mass, collides with everything, belongs to its body and knows the area, centre of gravity and moment that follow from its geometry. Boxes are polygons of their four corners, counter-clockwise; polygons made from points use the hull of the transformed points. "
  "SetRadius, SetEndpoints, SetVertsRaw and SetVertsUnsafe leave a shape with the geometry (normals included) and mass properties a new one would have, but with its own mass, let the body work out its mass again if the shape has any, after the change, and change nothing else.",
  ["inputs", "histories"], "every geometry, every mass, every number of vertices, every order of changes",
  "The mass properties feed the body's only through its other shapes and a nonzero mass; a stale one changes numbers slightly, in no test.",
  ["circle.go", "segment.go", "poly.go", "shape.go"], [("NewCircle", "circle.go"), ("NewSegment", "segment.go"), ("NewPolyShapeRaw", "poly.go"), ("PolyShape.SetVertsRaw", "poly.go"), ("Segment.SetEndpoints", "segment.go")],
  "guarded value summaries of constructors and setters compared with one specification; induction over vertices")
P("C36", "What is cached of a shape follows its body",
  "Refreshing a shape stores its centre, ends or vertices and normals transformed by the body's transform (never the local ones, which stay), and as bounding box the smallest one around them with the radius added on every side. "
  "Step, CacheBB, Update, ReindexShape and adding a shape use the body's current transform and keep the box; ReindexShape then updates both indexes, and UseSpatialHash moves every shape of each index to the new one for the same role. The accessors return local data under local names and cached data under transform names.",
  ["inputs", "histories"], "every shape, number of vertices, transform and order of calls",
  "Boxes too small lose collisions only near the side that is wrong; boxes too large only cost time; tests use shapes around the origin.",
  ["circle.go", "segment.go", "poly.go", "shape.go", "space.go"], [("ShapeClass.CacheData", "shape.go"), ("Shape.Update", "shape.go"), ("Space.ReindexShape", "space.go"), ("Space.UseSpatialHash", "space.go")],
  "guarded value summaries; minima and maxima over the vertices by induction over the loop")
P("C37", "What is set is what is got, and nothing else changes",
  "Each setter of a body, shape, constraint or space stores exactly what it is given: the getter of the same name returns it afterwards, for every value and every state of the object, attached or not. "
  "No other property of the object changes (setting a velocity does not touch forces, setting a friction not the filter, setting a limit not the other limits). Getters return the field they are named after and change nothing. "
  "Constructors start with the documented values: a space with ten iterations, no gravity, damping 1, collision slop 0.1, persistence 3, sleeping off; every joint without a force or speed limit, error bias 0.9^60 and colliding bodies, between the two bodies it is given; "
  "every shape without friction, elasticity, surface velocity and group, in and colliding with all categories; every body at rest at the origin with the given mass and moment.",
  ["inputs", "histories"], "every setter and constructor, every value and state of the object",
  "A setter that also resets or clamps something shows only for the one combination of values and order of calls; the tests call few of them.",
  ["body.go", "shape.go", "constraint.go", "space.go"], [("Body.SetVelocity", "body.go"), ("Shape.SetElasticity", "shape.go"), ("Constraint.SetMaxForce", "constraint.go"), ("NewSpace", "space.go")],
  "guarded value summaries with a frame condition over the object's fields")
P("C40", "Hash sets hold what was put in and not taken out, each once",
  "HashSet.Insert returns the element that is already there for the hash and pointer, otherwise makes one, exactly once, puts it with its hash into the chain of that hash in an unused bin, counts it and returns it; growing the table moves every bin to the chain of its hash in the new one. Find returns the element or the zero value and changes nothing; Remove takes the element found out of its chain, counts it out and returns it; Each calls its function once for every element, also when the function removes it; "
  "Filter keeps exactly the elements its function accepts. Bins in use and pooled bins never mix.",
  ["inputs", "histories"], "every hash, order of calls, table size and chain length",
  "Losing an entry needs colliding hashes, a growing table or neighbouring removals; the tests use no hash set directly.",
  ["hashset.go"], [("HashSet.Insert", "hashset.go"), ("HashSet.Remove", "hashset.go"), ("HashSet.Filter", "hashset.go")],
  "typestate of bins and chains over guarded value summaries, by induction over the chain walks")
P("C32", "The tree index finds everything its boxes meet",
  "BBTree.Query calls its function once for every leaf whose box meets the box given, SegmentQuery visits every child whose box the segment enters before the exit time it returns, the least it was given or found. Inserting and removing leaves keeps child and parent links in agreement, makes nodes of unused ones, and keeps the box of every node around those of its children, up to the root; GetBB holds the shape's box. "
  "A leaf whose shape left its box gets a new box and place, loses its pairs and takes the current stamp. Pairs are linked into the lists of both leaves and unlinked from the other when cleared. Marking reports every pair of leaves whose boxes meet, one of which is dynamic: both moved, one moved, or known from before, the left subtree before the right; ReindexQuery updates all leaves first, and the stamp goes on last.",
  ["inputs", "histories"], "every shape of the tree, box, stamp and history of insertions, moves and removals",
  "A pair or hit is lost only for certain shapes of the tree and orders of moves; the tests hold few shapes.",
  ["bbtree.go", "spatialindex.go"], [("Node.SubtreeQuery", "bbtree.go"), ("Node.MarkLeafQuery", "bbtree.go"), ("BBTree.PairInsert", "bbtree.go"), ("BBTree.LeafUpdate", "bbtree.go")],
  "guarded value summaries of each operation, by structural induction over the tree and induction over list walks; typestate of pooled nodes")
P("C41", "The spatial hash asks about everything that shares a cell, once",
  "With a spatial hash (Space.UseSpatialHash): a shape inserted or reindexed is filed in the chain of every cell its box meets (both ends included); Query asks once about every shape filed in a cell the box given meets, other than the object itself and removed shapes; ReindexQuery empties the table, files every shape again after asking about the shapes already filed in the same cells, and then asks about the static shapes; SegmentQuery walks through every cell the segment crosses until the exit time, asks once about every shape there, and shortens the exit time at most to the least answer. "
  "Removed shapes are never asked about and hide no others, handles go back to their pool only when nothing holds them, bins in use and pooled bins never mix, and Each, Count and Contains are those of the set of shapes.",
  ["inputs", "histories"], "every box, segment, cell size, table size, hash collision and order of insertions, removals and queries",
  "A missed pair needs colliding cells, removed shapes in a chain or boxes and segments at cell borders; the tests use no spatial hash.",
  ["spacehash.go"], [("SpaceHash.Insert", "spacehash.go"), ("SpaceHash.Query", "spacehash.go"), ("SpaceHash.ReindexQuery", "spacehash.go"), ("SpaceHash.SegmentQuery", "spacehash.go")],
  "typestate of handles and bins, and loop coverage over guarded value summaries")
P("C42", "Every joint drives its bodies towards what it is named for",
  "Preparing a step, each joint finds its error from where its anchors and bodies are now and aims at the velocity that corrects its share of it, 1 - errorBias^dt per step, up to its maximum bias: a pin joint its distance, a slide joint the nearer limit along the line between the anchors (nothing inside the limits), a pivot joint the gap between its anchors, a groove joint the gap to the nearest point of the groove (with the ends holding outwards only), a rotary limit joint the nearer limit, a ratchet the last click it has passed, a gear the phase at its ratio; a motor aims at its rate. "
  "Coinciding anchors give no direction and no division by their distance. "
  "The mass it works against is that of the two bodies at its anchors, so that one pass that no force limit interferes with makes the bodies move as aimed at, and the accumulated impulse of a pass is the one before plus what is missing, within the limits of the joint; both bodies receive the change. "
  "A damped spring applies the force its function gives for the current length or angle, once per step, and takes the share 1 - e^(-damping*dt/mass) of the relative speed per step, starting at rest each step. "
  "What a joint has pushed is kept from one step to the next unless the joint has nothing to do. The impulse of the step before is applied again scaled by the change of the time step (not by springs), and the impulse reported is the one accumulated. A new joint has the anchors, limits and parameters it was given and no impulse.",
  ["inputs", "histories"], "every joint type, all positions, velocities, masses, anchors, limits and time steps",
  "Each law is a formula over all positions, masses and anchors with cases at its limits; the tests contain no joint.",
  ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go", "everything.go"],
  [("PinJoint.PreStep", "pinjoint.go"), ("SlideJoint.ApplyImpulse", "slidejoint.go"), ("GrooveJoint.PreStep", "groovejoint.go"), ("DampedSpring.ApplyImpulse", "dampedspring.go"), ("RatchetJoint.PreStep", "ratchetjoint.go"), ("k_tensor", "everything.go")],
  "polynomial normal form over gated SSA dataflow of each joint's three solver phases and constructor")

P("C33", "A debug build refuses misuse before anything changes, and valid use never",
  "Built with the debug tag, a call that breaks a rule of use panics before it changes the world or calls anything: adding a shape, body or joint that is in a space already (this one or another), adding a joint without two bodies, removing one that is not in the space or the space's own static body, adding, removing or reindexing while the space is locked, waking what touches a body that is not static as if it were, setting a negative friction, elasticity, damping, maximum force, maximum bias or error bias, asking a polygon for a vertex it does not have, giving a space another static body while the one it had has shapes. Changing the kind of a body of a locked space panics before the lists of the space change. A call that breaks none of these rules gets past the check (a value of zero included).",
  ["inputs", "histories"], "every exported operation that states a rule of use, every state of the space and the objects given",
  "The tests are built without the debug tag and none of them misuses the API; which misuse is refused and that nothing happened before depends on every combination of states.",
  ["space.go", "body.go", "shape.go", "constraint.go", "poly.go", "debug.go", "release.go"],
  [("Space.AddShape", "space.go"), ("Space.RemoveBody", "space.go"), ("Constraint.SetMaxForce", "constraint.go"), ("Shape.SetFriction", "shape.go"), ("assert", "debug.go")],
  "guarded value summaries of the debug build: reachability of every event and return under each misuse")

P("C43", "Drawing a space draws every shape, joint and contact once, where it is",
  "One DrawSpace call draws each shape of the dynamic and the static index, each joint and each contact of each arbiter exactly once. A circle is drawn at its world center with its radius and its body's angle, a segment between its world ends with its radius, a polygon with its world vertices in order and its radius, in the colours the drawer gives for that shape. A joint is drawn at the world positions of its anchors, each through the transform of the body it is attached to: dots at the anchors of pins, slides, pivots, springs and the sliding anchor of a groove, a line between the anchors of a pin or slide and along the groove, a coil from one anchor of a spring to the other; joints without anchors draw nothing and no joint type of the library panics. A contact is drawn as a line along its normal through its points on the two bodies.",
  ["inputs"], "all shapes, joints, transforms and contacts of a space, any drawer",
  "No test draws anything; the claim is about every kind of shape and joint and every transform.",
  ["draw.go"],
  [("DrawSpace", "draw.go"), ("DrawShape", "draw.go"), ("DrawConstraint", "draw.go")],
  "guarded value summaries of the calls made to the drawer, with loop-coverage analysis of the walks")

P("C44", "The convex hull of points is found by splitting them side by side",
  "ConvexHull moves the least point (by x, then y) to the front and the greatest behind it, loses no other point, answers with the index of the least if asked to, counts one vertex if the two are the same, and otherwise works out the sides from the least past the greatest and back, behind the first vertex. Points are split by a line: exactly those more than the tolerance (times the line's length, as a cross product) to its outer side come to the front, the farthest of them first, and their number is returned; the others stay behind them and none is lost. A side with no points beside it is its end alone; otherwise its points are split by the line from its start to its farthest point, the inner ones by the line from there to its end, and the vertices are those of the first part, the farthest point and those of the second, in this order, each part worked out exactly if it has points.",
  ["inputs"], "every list of points, tolerance and depth of division, coinciding and collinear points included",
  "No test builds a hull of more than a handful of points; a lost point or a wrong side shows only for some arrangements.",
  ["poly.go"],
  [("ConvexHull", "poly.go"), ("LoopIndexes", "poly.go"), ("QHullReduce", "poly.go"), ("QHullPartition", "poly.go")],
  "polynomial normal form over gated SSA dataflow; per-step relations of the recursion and induction over the partition loop")

P("C34", "A step does everything once, in order, for every body and contact",
  "Space.Step with a zero time step does nothing. Otherwise it advances the stamp by one, keeps the time step, and does the following, each exactly once for every element: the position function of every awake movable body with the time step; the search for collisions, from updated shape bounds and a fresh contact list; dropping stale contacts; preparing every contact with the time step, the slop and 1 - collisionBias^dt, and every constraint after its pre-solve function; the velocity function of every awake movable body with the gravity, damping^dt and the time step; "
  "the cached impulses of every contact and constraint, scaled by this time step over the last one (zero at first); Iterations passes over all contacts and constraints; every constraint's and every collision's post-solve function. The phases run in this order.",
  ["inputs", "histories"], "every time step, every number of bodies, contacts and constraints",
  "The order and exactly-once coverage of the phases shows only as drift or jitter; no test looks at it.",
  ["space.go"], [("Space.Step", "space.go"), ("Arbiter.PreStep", "arbiter.go"), ("Arbiter.ApplyImpulse", "arbiter.go")],
  "guarded effect summary of the step: loop coverage and ordering of its calls over SSA")
P("C35", "Bodies integrate by the equations of motion, forces act at their point",
  "The default velocity function leaves kinematic bodies alone and otherwise turns v into v*damping + (gravity + force/mass)*dt and w into w*damping + torque/moment*dt and uses up the forces; the default position function moves by (velocity + correction)*dt, turns likewise and uses up the corrections. "
  "A force or impulse at a point, in world or body coordinates, adds the vector and its moment about the centre of gravity; the velocity at a point is that of the rigid body there; kinetic energy is m*v^2 + i*w^2 (no half, as in Chipmunk). Velocity, spin, force, torque and the update functions are what they were set to, and new bodies get the default functions.",
  ["inputs"], "every body, force, point and time step",
  "Quantifies over all positions, rotations and off-centre points; the tests check no off-centre force.",
  ["body.go"], [("BodyUpdateVelocity", "body.go"), ("BodyUpdatePosition", "body.go"), ("Body.ApplyForceAtWorldPoint", "body.go"), ("Body.VelocityAtWorldPoint", "body.go")],
  "guarded value summaries (SSA dataflow, polynomial normal form) compared with the equations of motion")
P("C16", "Collision callbacks follow the begin, pre-solve, separate protocol",
  "For two shapes found touching in a step the handler registered for their collision types (in either order; the default one otherwise) is asked: BeginFunc exactly when the pair starts to touch, PreSolveFunc in every step it touches and is not ignored, each once, with the arbiter, the space and the handler's UserData. A pair refused by BeginFunc, or ignored, gets no PreSolveFunc and stays ignored until it separates. "
  "The pair is solved exactly if PreSolveFunc accepts it, neither shape is a sensor and not both bodies have infinite mass; otherwise its contacts are released and it still counts as touching. "
  "SeparateFunc is called once when the pair stops touching (not for pairs asleep or static) or one of its shapes is removed, after which the pair starts anew; pairs unused for collisionPersistence steps are forgotten. "
  "The default callbacks call both wildcard handlers, of the first and the second type, and accept if both do; new handlers start out with these, wildcard handlers with neutral ones.",
  ["inputs", "histories"], "every pair of shapes, every history of touching and separating, every handler and callback result",
  "The protocol is a property of histories (touch, ignore, sensor, sleep, separate, remove); the tests cover one of them.",
  ["space.go", "arbiter.go", "hashset_arbiter.go", "everything.go"], [("SpaceCollideShapesFunc", "space.go"), ("Arbiter.Update", "arbiter.go"), ("SpaceArbiterSetFilter", "hashset_arbiter.go"), ("Space.LookupHandler", "space.go")],
  "guarded value summaries: the condition, arguments and order of every callback call over SSA")
P("C17", "Collision data is reported in the order the handler was registered for",
  "Shapes, Bodies, Normal, TotalImpulse and ContactPointSet agree on which shape comes first: the one whose type comes first in the handler, or the second shape while the handler of the second type's wildcard is called, or the body's own one inside EachArbiter. The normal points from the first to the second shape, the total impulse is the one on the first body, PointA lies on the first shape and PointB on the second, Distance is their distance along the normal. "
  "SetContactPointSet takes its points and normal in that same order. Calling a wildcard handler or EachArbiter leaves the order as it found it, and EachArbiter visits every collision of the body once.",
  ["inputs", "histories"], "every arbiter, in either order, every number of contacts, nested callbacks",
  "The swapped order only occurs for some handlers and creation orders; no test uses it.",
  ["arbiter.go", "body.go"], [("Arbiter.Shapes", "arbiter.go"), ("Arbiter.ContactPointSet", "arbiter.go"), ("Arbiter.TotalImpulse", "arbiter.go"), ("Body.EachArbiter", "body.go")],
  "guarded value summaries of the accessors and of the calls to handlers over SSA")

P("C18", "Point and segment queries answer with points of the shape's surface",
  "For a circle, segment or polygon and a point: the distance answered is the distance to the shape's circle centre, segment or polygon outline, negated inside a polygon, less the shape's radius; a polygon contains a point exactly if it is in front of none of its faces, and its nearest edge is the nearest of all of them. The point answered lies the radius away from there, towards the point asked about or, inside a polygon, away from it, and is finite even where the two coincide; the gradient is the unit vector from the skeleton to the point (away from it inside), and the normal of the segment or edge, or up for a circle, where that distance is tiny. "
  "For a segment of a given radius: a circle is hit where the moving point first comes within the sum of the radii of the centre; a segment shape is hit where it first comes that near to the side facing the start and, if it passes beyond the ends, at the earlier of the hits of its two end circles; a polygon is hit at the face it enters from outside between the face's two corners, or at the earlier hit of a corner circle when there is any radius. The answer then names the shape, the fraction of the way, the normal facing the start, and the point of the surface, the query's radius before its centre; otherwise the answer stays blank. Geometry is that of the shape as last placed by its body.",
  ["inputs"], "every shape, point, segment and radius, up to rounding",
  "The tests ask about a few points of axis-aligned shapes; edges, corners, radii and coincident points give different code paths.",
  ["circle.go", "segment.go", "poly.go"], [("Circle.PointQuery", "circle.go"), ("CircleSegmentQuery", "circle.go"), ("Segment.PointQuery", "segment.go"), ("Segment.SegmentQuery", "segment.go"), ("PolyShape.PointQuery", "poly.go"), ("PolyShape.SegmentQuery", "poly.go")],
  "polynomial normal form of the answers over gated SSA dataflow; induction over the loops over edges")

P("C19", "Two shapes touch where their surfaces meet, whatever kinds and order",
  "Colliding two shapes treats every pair of kinds, in either order, with the shapes put in the order circle, segment, polygon, so the answer for (b, a) is that for (a, b) turned round. "
  "Two circles touch exactly if their centres are nearer than the sum of the radii; a circle and a segment exactly if the centre is that near to the segment (and not beyond an end that has a neighbour on that side); for the other pairs the nearest points found by the closest-point search decide: the shapes touch if these are no farther apart than the sum of the radii. "
  "The normal is a unit vector from the first shape to the second, also where centres coincide; contact points lie on the skeletons moved out by the radii along it. Where two edges face each other, each contact joins an end of one edge to its projection onto the other, kept on the edge, and only where they overlap along the normal; the edge of a polygon is, of the two at its support vertex, the one facing the normal more, of a segment the side facing it. "
  "Contacts carry a pair hash that names the features that touch, the same whichever contact is found first. ShapesCollide reports the same contacts as points of the first and of the second shape asked about, the normal from first to second, and the depth as the negative distance along it.",
  ["inputs"], "every pair of shapes and positions, up to rounding, given the nearest points of the search (property C26)",
  "The tests collide a few boxes and circles; each pair of kinds, order, end, neighbour, radius and coincident centre is a different code path.",
  ["collision.go", "shape.go", "everything.go"], [("Collide", "collision.go"), ("CircleToCircle", "collision.go"), ("CircleToSegment", "collision.go"), ("SegmentToSegment", "collision.go"), ("ContactPoints", "collision.go"), ("SupportEdgeForPoly", "collision.go"), ("ShapesCollide", "shape.go")],
  "polynomial normal form over gated SSA dataflow for every pair of shape kinds through the function table")

P("C20", "Shapes collide unless filter, body, box or constraint rules it out",
  "Two shape filters reject each other exactly if both have the same non-zero group, or the categories of one share no bit with the mask of the other, in either direction. "
  "A pair of shapes is refused before the collision test exactly if both belong to one body, their filters reject each other, their bounding boxes do not meet (touching counts as meeting), or some constraint between their two bodies, in either order and wherever it stands among the bodies' constraints, was set not to let them collide. "
  "New shapes are in no group and all categories and accept all, new constraints let their bodies collide; SetFilter and SetCollideBodies store what they are given; SHAPE_FILTER_ALL and SHAPE_FILTER_NONE mean what they say.",
  ["inputs", "histories"], "every pair of shapes, every filter value, every list of constraints",
  "Tests use one or two filters; which of several constraints forbids a collision depends on the order they were added.",
  ["everything.go", "space.go", "constraint.go", "shape.go"], [("ShapeFilter.Reject", "everything.go"), ("QueryReject", "space.go"), ("Constraint.SetCollideBodies", "constraint.go"), ("Shape.SetFilter", "shape.go")],
  "guarded value summaries compared as decision diagrams; induction over the constraint list walk")
P("C21", "Space queries ask every shape and report exactly the matching ones",
  "PointQueryNearest, SegmentQuery, SegmentQueryFirst, BBQuery and ShapeQuery each ask the index of static shapes and the index of dynamic shapes exactly once, for the query's own box or segment. For the shapes an index finds: "
  "PointQueryNearest returns the answer of a shape strictly nearer than the given maximum and than every other shape asked before it, skipping sensors and shapes the filter rejects, and otherwise no shape and the maximum distance; "
  "SegmentQueryFirst likewise keeps the hit with the smallest alpha, below 1, otherwise no shape and alpha 1, and never cuts the search off before its best hit; "
  "SegmentQuery calls the function for exactly the shapes the filter accepts and the segment hits, with the point, normal and alpha of the hit and the caller's data, and cuts nothing off; "
  "BBQuery calls it for exactly the shapes the filter accepts whose box meets the given one; "
  "ShapeQuery, having placed the shape by its body's transform, considers all shapes but itself and those its filter rejects, calls the function for exactly those with contact points, and returns whether one of these pairs has no sensor. "
  "A single shape's PointQuery and SegmentQuery ask its class about the given point or segment with a blank answer; a segment that starts within the radius hits at alpha 0; the result is whether there is a hit.",
  ["inputs", "histories"], "every query, every space and set of shapes, every callback",
  "Tests hold one or two shapes; results depend on the order shapes are found in and on sensors and filtered shapes between them.",
  ["space.go", "shape.go", "circle.go", "segment.go", "poly.go"], [("Space.PointQueryNearest", "space.go"), ("Space.SegmentQueryFirst", "space.go"), ("Space.SegmentQuery", "space.go"), ("Space.BBQuery", "space.go"), ("Space.ShapeQuery", "space.go"), ("Shape.SegmentQuery", "shape.go")],
  "guarded value summaries of the queries with the visiting closures bound to the arguments the index passes on")
P("C04", "Changing a sleeping body, its shapes or joints, or gravity wakes it up",
  "For every dynamic body: every setter of the body (angle, position, velocity, angular velocity, force, torque, mass, moment, and its type unless it stays the same) and every function that applies a force or impulse to it wakes it; every setter of a shape (sensor, mass, density, collision type, friction, surface velocity, elasticity, filter) wakes the shape's body; every setter of a constraint, and adding or removing the constraint, wakes both its bodies; adding or removing a shape wakes its body and removing a body wakes it; all before what is changed could keep the wake from being complete (mass, type, the lists of shapes and constraints). "
  "Removing a shape of a static body wakes the bodies touching that shape, before its contacts are dropped. Setting gravity wakes every sleeping component. "
  "A body woken while the space is locked is queued, once, and nothing else happens to the space; when the last lock is released every queued body is returned to the space, and the queue is empty.",
  ["inputs", "histories"], "every setter, every path through it, every body, shape and constraint, every lock state",
  "A setter that forgets to wake the body works in every test without sleeping; a body that stays asleep ignores the change for good.",
  ["body.go", "shape.go", "constraint.go", "space.go"], [("Body.Activate", "body.go"), ("Body.ActivateStatic", "body.go"), ("Space.SetGravity", "space.go"), ("Space.Activate", "space.go"), ("Space.Unlock", "space.go")],
  "guarded value summaries: the path conditions of the wake-up calls cover all inputs; induction over list walks")
P("C05", "Walking bodies, shapes, joints or contacts visits each exactly once",
  "Space.EachBody calls the function once for every body the space has: awake, static, sleeping, and woken while the space was locked, also when the function wakes bodies. Space.EachShape calls it once for every shape, Space.EachConstraint once for every constraint of awake bodies. "
  "Body.EachShape, Body.EachConstraint and Body.EachArbiter call it once for each shape, constraint or contact the body has, also when the function removes the one it is called for. "
  "The walks of the spatial indexes and hash sets underneath (Each, Filter) visit every element once, also when it is taken out meanwhile.",
  ["inputs", "histories"], "every walk, every collection, whatever the function called removes or wakes",
  "What is skipped depends on what the function changes during the walk; the tests' functions change nothing.",
  ["space.go", "body.go", "hashset.go", "bbtree.go", "spacehash.go"], [("Space.EachBody", "space.go"), ("Space.EachShape", "space.go"), ("Body.EachShape", "body.go"), ("Body.EachConstraint", "body.go"), ("Body.EachArbiter", "body.go"), ("HashSet.Each", "hashset.go"), ("HashSet.Filter", "hashset.go")],
  "guarded value summaries of the walks; induction over lists and indexed loops, with what the callback may change forgotten")
P("C06", "Sleeping and waking move a body with all its shapes, joints and contacts",
  "When a body falls asleep it leaves the space's list of dynamic bodies, each of its shapes goes from the dynamic to the static index, and for each of its contacts and joints that it owns (it is the first body, or the first one is static) the contact leaves the cache of contacts and the list of contacts to solve and keeps its points in memory of its own, and the joint leaves the list of joints. "
  "When it is woken up the same things go back, each once, the contact's points into the space's buffer and with the current time stamp. "
  "Activate does this for every body of the sleeping component, removes the component from the list of sleeping ones and resets the idle time of the body, of every body of the component and of every non-static body the body touches; it does nothing for bodies that are not dynamic. Nothing else of the body, its shapes, contacts and joints changes.",
  ["inputs", "histories"], "every body with any number of shapes, contacts and joints, in either order of bodies, every component",
  "Contacts and joints shared by two bodies must be moved once, whichever is asked; tests have no sleeping body with joints or several contacts.",
  ["space.go", "body.go"], [("Body.Activate", "body.go"), ("Space.Activate", "space.go"), ("Space.Deactivate", "space.go")],
  "guarded value summaries of every list, index and set a body's belongings are in; induction over the list walks")
P("C07", "Adding and removing keeps lists, indexes, links and masses in step",
  "AddBody enters the body in the list of its kind, AddShape in its body's list and in the static index for a static body and the dynamic one otherwise, under a new hash id and after its box was brought up to date, AddConstraint in the space's list and at the head of the lists of both bodies; each sets the space of what was added. The Remove functions undo exactly this, whatever the position in the lists and whichever end of a joint the body is, and clear the space. "
  "Adding or removing a shape with mass reworks the mass of its body. Removing a shape drops exactly the contacts that involve it (from the cache, the bodies' lists and the contacts to solve), calling SeparateFunc where it touched. The Contains functions say whether the thing's space is this one. Nothing else changes.",
  ["inputs", "histories"], "every body, shape and joint, every content of the lists, every order of adding and removing",
  "Which link is followed depends on the order things were added in; tests add much and remove little.",
  ["space.go", "body.go", "hashset_arbiter.go"], [("Space.AddBody", "space.go"), ("Space.AddShape", "space.go"), ("Space.AddConstraint", "space.go"), ("Space.RemoveBody", "space.go"), ("Space.RemoveShape", "space.go"), ("Space.RemoveConstraint", "space.go"), ("Body.RemoveConstraint", "body.go")],
  "guarded value summaries of every list, index and link written; induction over the list walks and the recursion")
P("C08", "A body's type decides the lists and indexes it and its shapes are in",
  "A body whose idle time is infinite is static, otherwise one of infinite mass is kinematic, otherwise it is dynamic; the constructors make bodies of the type they are named after, and a space's own body is static. "
  "SetType makes GetType answer the new type. A body that stops being dynamic gets infinite mass and moment with zero inverses and stops moving; one that becomes dynamic has its mass worked out from its shapes. "
  "If it is in a space it moves between the lists of static and of other bodies, and every one of its shapes between the static and the dynamic index, exactly if it becomes or stops being static. Setting the type it has changes nothing.",
  ["inputs", "histories"], "every body, every change of type, any number of shapes",
  "Six changes of type, inside and outside a space, asleep and awake; the tests try one.",
  ["body.go", "space.go"], [("Body.SetType", "body.go"), ("Body.GetType", "body.go"), ("NewStaticBody", "body.go"), ("NewKinematicBody", "body.go")],
  "guarded value summaries of SetType and the constructors, list and index operations recognised from the dataflow")
P("C38", "A component of bodies sleeps only when all of it has been idle",
  "With a SleepTimeThreshold (positive; without one nothing of this happens) each step adds the time step to the idle time of every dynamic body whose kinetic energy is at most its mass times the square of IdleSpeedThreshold (of gravity times the time step if that is zero), and resets it otherwise. A contact with, or a joint to, a kinematic body, and a contact found for a sleeping body, wake the body. "
  "Then the dynamic bodies connected by contacts and joints form components: a component falls asleep, all of it, exactly if every body of it has been idle for the threshold; it is entered once in the list of sleeping components, its bodies linked from its root. Bodies that stay awake keep no links. Bodies fall asleep nowhere else.",
  ["inputs", "histories"], "every space, every graph of contacts and joints, every history of motion",
  "Quantifies over contact graphs; a link missed when marking puts half a component to sleep, which no test would notice.",
  ["space.go", "body.go"], [("Space.ProcessComponents", "space.go"), ("FloodFillComponent", "space.go"), ("ComponentActive", "space.go"), ("Body.ComponentAdd", "body.go")],
  "guarded value summaries of the search for idle components; induction over lists and the marking recursion")
P("C39", "The contact lists of the bodies are well linked and complete",
  "Each step enters every contact of the step exactly once, at the head, in the lists of both its bodies, whichever of the two each body is, and only after taking it out of lists it may still be in (the bodies of a sleeping pair may have been woken up since the step began). Taking a contact out links its neighbours to one another in the lists of both bodies, moves the head of a list only if it was the head, and clears its own links; this is harmless for a contact in no list. The links are changed nowhere else.",
  ["inputs", "histories"], "every contact, every neighbour in either role, every order of entering and taking out",
  "A wrong link shows only for certain orders of contacts and roles of bodies; tests have one or two contacts.",
  ["arbiter.go", "body.go", "space.go"], [("Arbiter.Unthread", "arbiter.go"), ("Body.PushArbiter", "body.go"), ("Space.ProcessComponents", "space.go")],
  "guarded value summaries of linking and unlinking; typestate of a contact's links (free before it is entered)")
