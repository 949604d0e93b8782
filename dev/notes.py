# How each property is decided: one paragraph per property, copied into DESIGN.md by gen.py.
NOTES = {
"C01": "Typestate of Space.locked, an integer offset carried along every path of every exported operation, callees and closures followed with the constants they are given; every return must be at offset 0 (Lock +1, Unlock -1), and so must the guard against nested post-step callbacks. Enumerated: every exported function that can reach a write of the lock.",
"C02": "The same typestate, read at every call of a function value that can come from the user: the offset there is > 0, or the call is the post-step drain and the offset is provably 0.",
"C03": "Guarded values of the queueing (which requests are accepted) and the draining loop (visits every entry, entries added meanwhile included, queue emptied), and the typestate: every operation that unlocks to zero drains at its end.",
"C04": "For every setter of a body, constraint, shape or space that can change motion: the disjunction of the guards under which Body.Activate is called on the bodies concerned covers every input, and the call comes before or after the change as required.",
"C05": "For every walk over a list of the library that calls user code: what list is walked (a copy, or one whose writers all refuse or defer while locked), that the walk visits each element once, and that nothing the callback may call (effect analysis over the exported API) changes the list under it.",
"C06": "Body.Activate / Space.Activate / Space.Deactivate as functions of the lists, indexes and sets before: each belonging of a body is on exactly one side afterwards; the walks over its shapes, contacts and constraints are complete.",
"C07": "Add*/Remove*/Contains* as functions of every list, index, link and back pointer before; removing undoes adding; refused while locked, refused twice.",
"C08": "SetType and the constructors as functions of old and new kind.",
"C09": "Every writer of mass, moment or their inverses, found by effect analysis; at the end of each exported operation m·m_inv = 1 (or 0 for infinite) in polynomial normal form; the sum over shapes by loop induction.",
"C10": "Every writer of position, angle, centre of gravity or transform; the transform's six components equal those of the definition at the end of each.",
"C11": "For each method of each constraint class and the contact solver: m_a·dv_a + m_b·dv_b = 0 and the matching angular identity, as polynomial identities over all paths.",
"C12": "The same velocity changes with one body's inverse mass and moment set to zero vanish identically for that body.",
"C13": "Signs and bounds of the accumulated impulse and of the bias over min/max/clamp structure.",
"C14": "One iteration of the contact loop: non-negative normal impulse, friction cone, restitution and bias; the loop visits every contact.",
"C15": "For each constraint class: prepared effective mass × true inverse mass = 1; after one iteration without limits the relative velocity equals the bias; the bias is the configured fraction of the error; springs: force laws; constructors set what they are given.",
"C16": "Guards, arguments and order of every handler call, and the state machine of an arbiter's life (first collision, normal, cached, ignored) as guarded values of Step's collision code.",
"C17": "Accessor values (normal, points, bodies, shapes, surface velocity) as functions of the swap flag, compared with one definition of which shape is first.",
"C18": "Value summaries of the six query methods: distance, point and gradient are compared as polynomials over square roots with the closed form, in each region of the plane the property distinguishes; the polygon loops are verified by induction (running minimum with its edge, in front of any face so far, first hit so far), with the ways a loop can name an edge (previous index, wrapped index, carried vertex) enumerated.",
"C19": "The table of collision functions is read from the package initialisation and evaluated for all nine pairs of kinds: shapes in order, function for that pair. Each collision function is summarised with the closest-point search cut off (its result is a free value; C26 says what it is): guard and arguments of each pushed contact, and the normal, are compared as polynomials with the definition, equality cases left open where either answer is right. Support edges are compared with both ways of stepping round a polygon; ShapesCollide by induction over its loop, with and without swapped shapes.",
"C20": "The predicate under which a pair reaches the narrow phase, compared as a Boolean function with the definition (bounding boxes, filter groups/categories/masks, joints' CollideBodies, same body).",
"C21": "Each query of Space: indexes asked, filter applied, what is reported under which condition, and, for nearest/first queries, the running best.",
"C22": "Every looking operation is analysed with function values followed into the indexes and back; a write counts unless it goes to a variable of the call, to a type that no field of the world leads to, or to the listed scratch of that operation.",
"C23": "Taint with two bits per value (from a package variable; from an argument), class-based through fields, over all functions; sinks are stores, appends, results of exported functions, arguments of user functions and of other packages, and exported fields.",
"C24": "All conversions, map loops, goroutines and calls of other packages are enumerated; each sync.Pool.Get is followed to its re-initialisation, whose summary may read no field of the old object; the shared id counter is followed to the field it ends in and that field's readers.",
"C25": "The head of the ring after taking a buffer into use is split by case (none yet, oldest reused, new one) and each link, stamp and count compared; reuse must imply stamp + persistence < now. The slice handed out is compared with the buffer and the free count in the memory after the call, and its end bounded by the array length. Contacts pushed are counted along every path of every function in the collision table (typestate, saturating at three); the buffer in use when the index is asked for pairs must have been taken into use after the stamp of that step.",
"C26": "The result of every support function (and of Shape.Point, which a cached id is turned into points with) is compared with its specification: a circle's center, an edge's end, by induction over the loop the vertex with the largest projection; the two ids are bytes of the collision id and are followed as such. The interpolation of an edge is a polynomial identity with its clamp, its normal split by the case that decides it (edge without length, origin on the edge, overlapping, corner). The step of the search is a relation between its state now and its state next or its result: it is found both when a search is written as recursion and when it is written as loop, and split by whether the origin lies behind the edge. The nearest edge of a hull and the new hull are invariants of their loops, by induction. Bounds: a counter tested against a constant ends each search. That the search has converged when it ends, and how accurate the result is in floating point, is not decided (see the not-applicable properties).",
"C27": "The lists stored are compared as terms: append, prepend, append-all and delete of the list read, in the line or set it belongs to, case by case over what the two searches return; the searches are found-first walks over all lines. For the simplifications the loops are taken by induction: the value kept per step is a function of the last two kept vertices and the next, the length of a piece is the sum of its steps, the furthest vertex is carried with its distance. The recursion is one step: both halves, meeting in the furthest vertex, in order, the vertex in between. What is not claimed: that the result of simplifying is within the tolerance as a number (the tolerance bounds each step by construction).",
"C28": "The grid: in the loops of MarchCells the values in the row buffer are shown by induction to be the samples of the row below, and each call of the cell function to be given a (lower left), b (lower right), c, d (upper) with the coordinates of these samples; a statement executed on the right guard per cell, no other cells. The cell functions are called with symbolic corners; for each of the 16 combinations of 'above the threshold' the segments they report are compared as polynomials with a table derived from the side rule (the two saddles may be connected either way, the same way round). The threshold is exclusive at every corner of both functions, which is what makes neighbours agree.",
"C29": "The vector, transform, box and moment algebra: some 200 identities in polynomial normal form with sin/cos/sqrt relations.",
"C30": "Moment/area/centroid functions: the body of each loop's contribution against the closed form per edge.",
"C31": "Geometry setters produce the same fields as the constructor would; the planes of a polygon are its edges.",
"C32": "The dynamic bounding-box tree: shape of every operation on nodes (insert, remove, replace, pair cache), boxes contain children, queries descend under a condition implied by containment. Recursion by assuming the operation on children (structural induction).",
"C34": "Space.Step's event sequence: order of the phases, arguments, elements visited.",
"C35": "Integrators and force/impulse application against the equations of motion.",
"C36": "Each shape class's CacheData/Update as a function of the transform; the box contains the shape.",
"C37": "Every setter is summarised as a function of its arguments and of the object: the field, the result of the getter evaluated in the memory after the setter, and one frame obligation per other field of the type. Constructors are summarised once each and every default compared.",
"C38": "Idle-time update, the reasons that keep a body awake, the flood fill (structural induction over the contact graph) and the decision to sleep.",
"C39": "Insertion and removal in doubly linked contact threads as heap updates, with a typestate (free / threaded) of each contact.",
"C40": "Hash sets: bucket chains as lists; insert, find, remove, visit as functions of the chain; the same bucket function everywhere.",
"C41": "Spatial hash: cells of a box are the floor-divided range, one chain per cell, a handle is in the chain iff its box meets the cell, queries visit every cell of their box, segments step through every cell crossed (DDA step equations).",
"C42": "For each joint type the values stored by PreStep (direction, mass, corrective velocity, remembered angle), by ApplyImpulse (accumulated impulse, velocities of both bodies) and by ApplyCachedImpulse are compared with the law of the joint, case by case over its limits, as rational functions of positions, velocities, levers and masses; intermediate fields (levers, direction, masses) are named between the phases. The masses are checked as inverses: mass times the response of the two bodies is one, matrix times tensor is the identity. Spring functions are user functions: called once, with the spring and the current length or angle, and their result is what is applied. What is not claimed: convergence of several joints, stability for large time steps.",
"C33": "Summaries of the debug build, where a failed assertion ends the path. For each operation the misuses are written over the fields on entry (space, locked, StaticBody, arguments); no event (store, call, loop, callback) and no return may be reachable under any of them, and in the complement some event or return must be reached for every state. The assertion function itself must let exactly the true conditions through. Whether the callees wake or index correctly is C01, C07 and C32; the release build, which does not check, is not claimed.",
"C43": "The calls of the Drawer interface are events of the summaries. For each class of shape (found as the implementers of ShapeClass) exactly one call is reachable, with the world geometry (tc, ta, tb, world planes), radius and the colours returned by the drawer; for each implementer of Constrainer the set of dots and lines equals the one of its kind as polynomials in transforms and anchors, with none missing or drawn on some paths only, and the function returns. DrawSpace's walks go over both indexes, the joint list, the arbiter list and its contacts from first to last. Line width, dot size and the length of the contact mark are not judged; the drawer is taken not to change the world.",
"C44": "Each function is summarised once with the recursive calls kept as events, so the check decides the step of the recursion for every state: the lines and sub-slices handed on, where the farthest point is put, the number returned. The partition loop is decided per iteration (which points count, what is swapped, which index is farthest), with its invariant 0 <= head <= tail+1 and its end; the contents of the slice at an arbitrary index show that no other point moves. That the vertices written never run over points still to be divided (they share one array), and that rounding does not turn a side over, is not decided; nor is the hull as a whole compared with a definition: that it is convex follows from the steps by induction over the number of points, on paper.",
}
