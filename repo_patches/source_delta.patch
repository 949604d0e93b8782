From abd9a4d2dcded81aab8b0ba51ce5c991c8a9c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 01/31] fix: SetGravity wakes every sleeping component

Activate() removes the component from the list the loop ranged over, so every other one was skipped.
---
 space.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/space.go b/space.go
index a3a1bfe..2d5fcf6 100644
--- a/space.go
+++ b/space.go
@@ -117,8 +117,9 @@ func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
 	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
-		component.Activate()
+	// Activating a component removes it from the list.
+	for len(space.sleepingComponents) > 0 {
+		space.sleepingComponents[0].Activate()
 	}
 }
 
-- 
2.43.0


From 08d06f02fcb02df8f91177060816a17979f87157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 02/31] fix: run post-step callbacks added by post-step
 callbacks

The range expression was evaluated once, so callbacks added while draining the list were dropped by the truncation that follows.
---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 2d5fcf6..ea81d20 100644
--- a/space.go
+++ b/space.go
@@ -804,7 +804,9 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
+		// Callbacks may add more callbacks, so the length can change.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 			f := callback.callback
 
 			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-- 
2.43.0


From 5858b6013405a31b896d9a253b36d4c3efe9a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 03/31] fix: pass the handler's UserData to PostSolveFunc

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index ea81d20..d504782 100644
--- a/space.go
+++ b/space.go
@@ -776,7 +776,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From b08a278ca510cb769c2189165b97de2dd2323e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 04/31] fix: call both wildcard handlers even if the first one
 returns false

---
 arbiter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..8adcd06 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -386,11 +386,15 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	retA := arb.CallWildcardBeginA(space)
+	retB := arb.CallWildcardBeginB(space)
+	return retA && retB
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	retA := arb.CallWildcardPreSolveA(space)
+	retB := arb.CallWildcardPreSolveB(space)
+	return retA && retB
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From b601e0a51fa901bb95ccb6a2945d8088dd4c9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 05/31] fix: SetSurfaceV wakes the body like the other shape
 setters

---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 51f7123..5792b21 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,7 @@ func (s *Shape) SetFriction(u float64) {
 }
 
 func (s *Shape) SetSurfaceV(surfaceV Vector) {
+	s.body.Activate()
 	s.surfaceV = surfaceV
 }
 
-- 
2.43.0


From 50c6811cdcbb7a5832456fac9c312bd21e3347a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 06/31] fix: SetType on a sleeping body wakes it up

Activate() was called after the type had changed, when it does nothing, so the body stayed in the sleeping lists and removing its shapes from the wrong index panicked.
---
 body.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body.go b/body.go
index 308e868..caeee4f 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,9 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	// Wake up the body while it still is of its old type, Activate() ignores bodies that are not dynamic.
+	body.Activate()
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
-- 
2.43.0


From 4edc47984d3b6731199aa45440f4a2febd93aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 07/31] fix: SetEndpoints computes the same normal as
 NewSegment

---
 segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..bdcd74d 100644
--- a/segment.go
+++ b/segment.go
@@ -62,7 +62,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().Perp()
+	seg.n = b.Sub(a).Normalize().ReversePerp()
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
-- 
2.43.0


From 4451540cab9ab9f52c74f9398f373c929249439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 08/31] fix: PolyShape.SetRadius updates the mass info like the
 other shapes

---
 poly.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/poly.go b/poly.go
index fbc370b..a1144a5 100644
--- a/poly.go
+++ b/poly.go
@@ -33,6 +33,17 @@ func (poly PolyShape) Radius() float64 {
 
 func (poly *PolyShape) SetRadius(r float64) {
 	poly.r = r
+
+	// The area depends on the radius.
+	verts := make([]Vector, poly.count)
+	for i := range verts {
+		verts[i] = poly.planes[i+poly.count].v0
+	}
+	mass := poly.massInfo.m
+	poly.massInfo = PolyShapeMassInfo(mass, poly.count, verts, poly.r)
+	if mass > 0 {
+		poly.body.AccumulateMassFromShapes()
+	}
 }
 
 func (poly *PolyShape) CacheData(transform Transform) BB {
-- 
2.43.0


From 29cb4d3ed2badc7f19efab373139fdae247cf382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 09/31] fix: circle to poly contacts lie on the surface of the
 rounded poly

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 58f03a1..87c078d 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 71fd12e5322084e3d5da0ae29c1923f6a25880d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 10/31] fix: debug assertions of AddBody, SetFriction and
 SetElasticity

AddBody did not reject a locked space, the others tested the old value instead of the argument.
---
 shape.go | 4 ++--
 space.go | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/shape.go b/shape.go
index 5792b21..ac7a39c 100644
--- a/shape.go
+++ b/shape.go
@@ -140,7 +140,7 @@ func (s *Shape) Friction() float64 {
 }
 
 func (s *Shape) SetFriction(u float64) {
-	assert(s.u >= 0, "Must be positive")
+	assert(u >= 0, "Must be positive")
 	s.body.Activate()
 	s.u = u
 }
@@ -155,7 +155,7 @@ func (s *Shape) Elasticity() float64 {
 }
 
 func (s *Shape) SetElasticity(e float64) {
-	assert(s.e >= 0, "Must be positive")
+	assert(e >= 0, "Must be positive")
 	s.body.Activate()
 	s.e = e
 }
diff --git a/space.go b/space.go
index d504782..a5cc98e 100644
--- a/space.go
+++ b/space.go
@@ -288,6 +288,7 @@ func (space *Space) AddShape(shape *Shape) *Shape {
 func (space *Space) AddBody(body *Body) *Body {
 	assert(body.space != space, "Already added to this space")
 	assert(body.space == nil, "Already added to another space")
+	assert(space.locked == 0, "Space is locked")
 	if body.GetType() == BODY_STATIC {
 		space.staticBodies = append(space.staticBodies, body)
 	} else {
-- 
2.43.0


From 4e77181886ac4bedde1426a0b3a3c21752752096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 11/31] fix: SetStaticBody only panics if the old static body
 has shapes

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index a5cc98e..912ec7d 100644
--- a/space.go
+++ b/space.go
@@ -138,8 +138,10 @@ func (space *Space) SetCollisionSlop(slop float64) {
 
 func (space *Space) SetStaticBody(body *Body) {
 	if space.StaticBody != nil {
+		if len(space.StaticBody.shapeList) > 0 {
+			panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
+		}
 		space.StaticBody.space = nil
-		panic("Internal Error: Changing the designated static body while the old one still had shapes attached.")
 	}
 	space.StaticBody = body
 	body.space = space
-- 
2.43.0


From 0edced39c6ad28807161aea72811f49658c11590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 12/31] fix: IsShort loops over the original vertexes and
 terminates

---
 polyline.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polyline.go b/polyline.go
index 81f7c52..b17ec0a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -34,8 +34,7 @@ func (pl *PolyLine) IsClosed() bool {
 
 func (pl *PolyLine) IsShort(count, start, end int, min float64) bool {
 	var length float64
-	// Next doesn't have side effects and its return value is ignored (SA4017)go-staticcheck
-	for i := start; i != end; Next(i, count) {
+	for i := start; i != end; i = Next(i, count) {
 		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])
 		if length > min {
 			return false
@@ -77,7 +76,7 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	b := verts[end]
 
 	// Check if the length is below the threshold
-	if a.Near(b, min) && reduced.IsShort(length, start, end, min) {
+	if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {
 		return reduced
 	}
 
-- 
2.43.0


From fb9af732898f138b8cfec6889893352d2fe8145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 13/31] fix: SimplifyVertexes keeps closed lines closed

---
 polyline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polyline.go b/polyline.go
index b17ec0a..4efc93a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -61,6 +61,7 @@ func (pl *PolyLine) SimplifyVertexes(tol float64) *PolyLine {
 
 	if pl.IsClosed() && Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[0], reduced.Verts[1]) < minSharp {
 		reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]
+		reduced.Verts = reduced.Verts[:len(reduced.Verts)-1]
 	}
 	return &reduced
 }
-- 
2.43.0


From e94fe664266032a1660d0a2765387e5be8fa898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 14/31] fix: ShapeQuery reports a collision even if a sensor is
 visited last

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 912ec7d..951a5c5 100644
--- a/space.go
+++ b/space.go
@@ -1120,7 +1120,7 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			anyCollision = anyCollision || !(a.sensor || b.sensor)
 		}
 
 		return collisionId
-- 
2.43.0


From b2ae3649298b423483e8cde394c05021fc8c94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 15/31] fix: ShapesCollide distances are negative for overlaps
 in either shape order

p1 and p2 are in the collision's order, so the normal has to be as well.
---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index ac7a39c..4ddfc28 100644
--- a/shape.go
+++ b/shape.go
@@ -265,7 +265,7 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From 2ae0154f67b36d61836014396ac1959b698d6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 16/31] fix: EachBody visits every sleeping body when the
 callback wakes them up

---
 space.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/space.go b/space.go
index 951a5c5..44e1cb3 100644
--- a/space.go
+++ b/space.go
@@ -911,15 +911,16 @@ func (space *Space) EachBody(f func(body *Body)) {
 		f(body)
 	}
 
+	// f may wake up bodies, which takes the sleeping components apart.
+	var sleeping []*Body
 	for _, root := range space.sleepingComponents {
-		body := root
-
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
+		for body := root; body != nil; body = body.sleepingNext {
+			sleeping = append(sleeping, body)
 		}
 	}
+	for _, body := range sleeping {
+		f(body)
+	}
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From 9fde910341cd617d5218a685fda389aa5bca61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 17/31] fix: Body.EachShape visits every shape when the
 callback removes them

---
 body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/body.go b/body.go
index caeee4f..18c05e5 100644
--- a/body.go
+++ b/body.go
@@ -596,8 +596,9 @@ func (body *Body) EachArbiter(f func(*Arbiter)) {
 
 // EachShape calls f once for each shape attached to this body
 func (body *Body) EachShape(f func(*Shape)) {
-	for i := 0; i < len(body.shapeList); i++ {
-		f(body.shapeList[i])
+	// f may remove the shape from the body.
+	for _, shape := range append([]*Shape(nil), body.shapeList...) {
+		f(shape)
 	}
 }
 
-- 
2.43.0


From 59b225854aac5aedfe6f742f436871a0a3bb4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 18/31] fix: the gradient of a segment point query is in world
 coordinates

---
 segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index bdcd74d..8aea74f 100644
--- a/segment.go
+++ b/segment.go
@@ -103,7 +103,7 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	if d > MAGIC_EPSILON {
 		info.Gradient = g
 	} else {
-		info.Gradient = seg.n
+		info.Gradient = seg.tn
 	}
 }
 
-- 
2.43.0


From 01846c24acd748d9a9fc82cc3ebadc1edb3ba192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 19/31] fix: bodies can be created by several goroutines

The id counter was shared without synchronization, even by unrelated spaces.
---
 body.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/body.go b/body.go
index 18c05e5..b37c109 100644
--- a/body.go
+++ b/body.go
@@ -3,6 +3,7 @@ package cp
 import (
 	"fmt"
 	"math"
+	"sync/atomic"
 )
 
 // Body types
@@ -12,7 +13,7 @@ const (
 	BODY_STATIC
 )
 
-var bodyCur int = 0
+var bodyCur atomic.Int64
 
 // BodyVelocityFunc is rigid body velocity update function type.
 type BodyVelocityFunc func(body *Body, gravity Vector, damping float64, dt float64)
@@ -74,7 +75,7 @@ func (b Body) String() string {
 // Guessing the moment of inertia is usually a bad idea. Use the moment estimation functions MomentFor*().
 func NewBody(mass, moment float64) *Body {
 	body := &Body{
-		id:            bodyCur,
+		id:            int(bodyCur.Add(1) - 1),
 		cog:           Vector{},
 		p:             Vector{},
 		v:             Vector{},
@@ -84,7 +85,6 @@ func NewBody(mass, moment float64) *Body {
 		velocity_func: BodyUpdateVelocity,
 		position_func: BodyUpdatePosition,
 	}
-	bodyCur++
 
 	body.SetMass(mass)
 	body.SetMoment(moment)
-- 
2.43.0


From 2bda2d4f6afba0cdd6d8eb2f1a21a5fbbc6261c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 20/31] fix: DebugInfo keeps its maximums per space

---
 everything.go | 18 ++++++++----------
 space.go      |  3 +++
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/everything.go b/everything.go
index 5527359..1f6d2dd 100644
--- a/everything.go
+++ b/everything.go
@@ -311,14 +311,14 @@ func DebugInfo(space *Space) string {
 	}
 
 	constraints := len(space.constraints) + points*int(space.Iterations)
-	if arbiters > maxArbiters {
-		maxArbiters = arbiters
+	if arbiters > space.maxArbiters {
+		space.maxArbiters = arbiters
 	}
-	if points > maxPoints {
-		maxPoints = points
+	if points > space.maxPoints {
+		space.maxPoints = points
 	}
-	if constraints > maxConstraints {
-		maxConstraints = constraints
+	if constraints > space.maxConstraints {
+		space.maxConstraints = constraints
 	}
 
 	var ke float64
@@ -332,8 +332,8 @@ func DebugInfo(space *Space) string {
 	return fmt.Sprintf(`Arbiters: %d (%d) - Contact Points: %d (%d)
 Other Constraints: %d, Iterations: %d
 Constraints x Iterations: %d (%d)
-KE: %e`, arbiters, maxArbiters,
-		points, maxPoints, len(space.constraints), space.Iterations, constraints, maxConstraints, ke)
+KE: %e`, arbiters, space.maxArbiters,
+		points, space.maxPoints, len(space.constraints), space.Iterations, constraints, space.maxConstraints, ke)
 }
 
 func k_scalar_body(body *Body, r, n Vector) float64 {
@@ -392,5 +392,3 @@ func k_tensor(a, b *Body, r1, r2 Vector) Mat2x2 {
 func bias_coef(errorBias, dt float64) float64 {
 	return 1.0 - math.Pow(errorBias, dt)
 }
-
-var maxArbiters, maxPoints, maxConstraints int
diff --git a/space.go b/space.go
index 44e1cb3..130a5ef 100644
--- a/space.go
+++ b/space.go
@@ -51,6 +51,9 @@ type Space struct {
 	postStepCallbacks []*PostStepCallback
 
 	StaticBody *Body
+
+	// Maximums shown by DebugInfo
+	maxArbiters, maxPoints, maxConstraints int
 }
 
 func arbiterSetEql(shapes ShapePair, arb *Arbiter) bool {
-- 
2.43.0


From 6fd41a3639b47406fdf1f3d8d81fe1b99cb5523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 21/31] fix: EachBody skipped sleeping bodies when the callback
 for an awake body woke them

---
 space.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/space.go b/space.go
index 130a5ef..e2ced30 100644
--- a/space.go
+++ b/space.go
@@ -906,6 +906,14 @@ func (space *Space) EachBody(f func(body *Body)) {
 	space.Lock()
 	defer space.Unlock(true)
 
+	// f may wake up bodies, which takes the sleeping components apart.
+	var sleeping []*Body
+	for _, root := range space.sleepingComponents {
+		for body := root; body != nil; body = body.sleepingNext {
+			sleeping = append(sleeping, body)
+		}
+	}
+
 	for _, body := range space.dynamicBodies {
 		f(body)
 	}
@@ -914,13 +922,6 @@ func (space *Space) EachBody(f func(body *Body)) {
 		f(body)
 	}
 
-	// f may wake up bodies, which takes the sleeping components apart.
-	var sleeping []*Body
-	for _, root := range space.sleepingComponents {
-		for body := root; body != nil; body = body.sleepingNext {
-			sleeping = append(sleeping, body)
-		}
-	}
 	for _, body := range sleeping {
 		f(body)
 	}
-- 
2.43.0


From b7e1c656294420c06c56d068e1719bb51ec11c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 22/31] fix: EachBody called from a callback skipped the bodies
 woken up since the space was locked

---
 space.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index e2ced30..00d8f27 100644
--- a/space.go
+++ b/space.go
@@ -907,7 +907,8 @@ func (space *Space) EachBody(f func(body *Body)) {
 	defer space.Unlock(true)
 
 	// f may wake up bodies, which takes the sleeping components apart.
-	var sleeping []*Body
+	// Bodies woken up while the space was locked are not back among the others yet.
+	sleeping := append([]*Body(nil), space.rousedBodies...)
 	for _, root := range space.sleepingComponents {
 		for body := root; body != nil; body = body.sleepingNext {
 			sleeping = append(sleeping, body)
-- 
2.43.0


From 7ecb2c880f29054339bb0fb8f23be82e9d731c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 23/31] fix: contacts of bodies woken up during a step are not
 linked twice

---
 space.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/space.go b/space.go
index 00d8f27..4c3b2a9 100644
--- a/space.go
+++ b/space.go
@@ -586,6 +586,8 @@ func (space *Space) ProcessComponents(dt float64) {
 			}
 		}
 
+		// The contacts of a body woken up since the step began are still in the bodies' lists.
+		arb.Unthread()
 		a.PushArbiter(arb)
 		b.PushArbiter(arb)
 	}
-- 
2.43.0


From 572754dad5eedf145d936f078f66b7755e50044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:24 +0000
Subject: [PATCH 24/31] fix: segment queries of a spatial hash starting on a
 cell border

---
 spacehash.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..a0e48bd 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -257,7 +257,7 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 
 	if b.X > a.X {
 		xInc = 1
-		tempH = math.Floor(a.X+1.0) - a.X
+		tempH = math.Floor(a.X) + 1.0 - a.X
 	} else {
 		xInc = -1
 		tempH = a.X - math.Floor(a.X)
@@ -265,7 +265,7 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 
 	if b.Y > a.Y {
 		yInc = 1
-		tempV = math.Floor(a.Y+1.0) - a.Y
+		tempV = math.Floor(a.Y) + 1.0 - a.Y
 	} else {
 		yInc = -1
 		tempV = a.Y - math.Floor(a.Y)
@@ -289,12 +289,12 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 	var nextH, nextV float64
 	if tempH != 0 {
 		nextH = tempH * dtdx
-	} else {
+	} else if dx == 0 {
 		nextH = dtdx
 	}
 	if tempV != 0 {
 		nextV = tempV * dtdy
-	} else {
+	} else if dy == 0 {
 		nextV = dtdy
 	}
 
-- 
2.43.0


From 6fb8fb23f654ba51cfa80f7ab10a8ac6e66e8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 25/31] fix: impulse reported by damped rotary springs

---
 dampedrotaryspring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dampedrotaryspring.go b/dampedrotaryspring.go
index c29e960..c10c657 100644
--- a/dampedrotaryspring.go
+++ b/dampedrotaryspring.go
@@ -58,7 +58,7 @@ func (spring *DampedRotarySpring) ApplyImpulse(dt float64) {
 	spring.targetWrn = wrn+wDamp
 
 	jDamp := wDamp*spring.iSum
-	spring.jAcc += jDamp
+	spring.jAcc -= jDamp // the spring's impulse turns b the other way
 
 	a.w += jDamp*a.i_inv
 	b.w -= jDamp*b.i_inv
-- 
2.43.0


From a53bfeb43b5715e042158b460574051fe1939f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 26/31] fix: contacts hashed by the address of their shapes, so
 the order of separate callbacks differed from run to run

---
 space.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index 4c3b2a9..e6fb3de 100644
--- a/space.go
+++ b/space.go
@@ -3,7 +3,6 @@ package cp
 import (
 	"math"
 	"sync"
-	"unsafe"
 )
 
 const MAX_CONTACTS_PER_ARBITER = 2
@@ -189,7 +188,7 @@ func (space *Space) Activate(body *Body) {
 			a := arbiter.a
 			b := arbiter.b
 			shapePair := ShapePair{a, b}
-			arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+			arbHashId := HashPair(a.hashid, b.hashid)
 			space.cachedArbiters.Insert(arbHashId, shapePair, func(_ ShapePair) *Arbiter {
 				return arbiter
 			})
@@ -446,7 +445,7 @@ func SpaceCollideShapesFunc(obj interface{}, b *Shape, collisionId uint32, vspac
 	// Get an arbiter from space->arbiterSet for the two shapes.
 	// This is where the persistent contact magic comes from.
 	shapePair := ShapePair{info.a, info.b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(info.a)), HashValue(unsafe.Pointer(info.b)))
+	arbHashId := HashPair(info.a.hashid, info.b.hashid)
 	arb := space.cachedArbiters.Insert(arbHashId, shapePair, func(shapes ShapePair) *Arbiter {
 		arb := space.pooledArbiters.Get().(*Arbiter)
 		arb.Init(shapes.a, shapes.b)
@@ -835,7 +834,7 @@ func (space *Space) UncacheArbiter(arb *Arbiter) {
 	a := arb.a
 	b := arb.b
 	shapePair := ShapePair{a, b}
-	arbHashId := HashPair(HashValue(unsafe.Pointer(a)), HashValue(unsafe.Pointer(b)))
+	arbHashId := HashPair(a.hashid, b.hashid)
 	space.cachedArbiters.Remove(arbHashId, shapePair)
 	for i, a := range space.arbiters {
 		if a == arb {
-- 
2.43.0


From 7a65125d6f2471e10d58b5f40aefc5cdadc44a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 27/31] fix: zero-length segments collide with circles and
 answer point queries

Clamp01 let NaN through, so the closest point of a segment whose endpoints
coincide was NaN.
---
 vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector.go b/vector.go
index cea4a8c..3f05478 100644
--- a/vector.go
+++ b/vector.go
@@ -110,7 +110,7 @@ func Clamp(f, min, max float64) float64 {
 }
 
 func Clamp01(f float64) float64 {
-	return math.Max(0, math.Min(f, 1))
+	return Clamp(f, 0, 1)
 }
 
 func Lerp(f1, f2, t float64) float64 {
-- 
2.43.0


From 2bd9c8ce5a3e340131ead04f2b9a76eff2f4fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 28/31] fix: point query at the center of a circle is not NaN

---
 circle.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circle.go b/circle.go
index 11fce2d..a9ba4db 100644
--- a/circle.go
+++ b/circle.go
@@ -55,7 +55,11 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	r := circle.r
 
 	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
+	if d != 0 {
+		info.Point = circle.tc.Add(delta.Mult(r / d))
+	} else {
+		info.Point = circle.tc.Add(Vector{0, r})
+	}
 	info.Distance = d - r
 
 	if d > MAGIC_EPSILON {
-- 
2.43.0


From f20b8690fc94ddf5b96ba9b6c3de89b02c0ced60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 29/31] fix: point query on the boundary of a poly is not NaN

---
 poly.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poly.go b/poly.go
index a1144a5..907a513 100644
--- a/poly.go
+++ b/poly.go
@@ -112,7 +112,11 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	g := p.Sub(closestPoint).Mult(1.0 / dist)
 
 	info.Shape = poly.Shape
-	info.Point = closestPoint.Add(g.Mult(r))
+	if dist != 0 {
+		info.Point = closestPoint.Add(g.Mult(r))
+	} else {
+		info.Point = closestPoint.Add(closestNormal.Mult(r))
+	}
 	info.Distance = dist - r
 
 	if minDist > MAGIC_EPSILON {
-- 
2.43.0


From e387401fd3746a0780e5459026fb70fd199dcd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:05 +0000
Subject: [PATCH 30/31] fix: nearest points of a Minkowski edge without length

When both support points are the same, as for segments that lie end to end on
one line, the edge has no normal: the distance came out as 0 and segments a
unit apart were reported as touching, along a normal of zero.
---
 collision.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collision.go b/collision.go
index 87c078d..a813afd 100644
--- a/collision.go
+++ b/collision.go
@@ -238,14 +238,17 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	if delta != (Vector{}) && (d <= 0 || (-1 < t && t < 1)) {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
 	d2 := p.Length()
-	n2 := p.Mult(1 / (d2 + 1e-15))
+	n2 := Vector{1, 0}
+	if d2 != 0 {
+		n2 = p.Mult(1 / (d2 + 1e-15))
+	}
 
 	return ClosestPoints{pa, pb, n2, d2, id}
 }
-- 
2.43.0


From f44cab74fa93067e1c5d30f4c1bc314126272542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:06 +0000
Subject: [PATCH 31/31] fix: colliding shapes whose centers coincide

With an axis of zero the search for the closest points stopped at its first
pair of points, with a normal of zero and no depth: equal boxes at the same
place never came apart.
---
 collision.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collision.go b/collision.go
index a813afd..4aa8661 100644
--- a/collision.go
+++ b/collision.go
@@ -370,6 +370,10 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 	} else {
 		// No cached indexes, use the shapes' bounding box centers as a guess for a starting axis.
 		axis := ctx.shape1.bb.Center().Sub(ctx.shape2.bb.Center()).Perp()
+		if axis == (Vector{}) {
+			// The centers coincide, any axis will do.
+			axis = Vector{1, 0}
+		}
 		v0 = ctx.Support(axis)
 		v1 = ctx.Support(axis.Neg())
 	}
-- 
2.43.0

