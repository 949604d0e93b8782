v='vector.go'; t='transform.go'; b='bb.go'; y='body.go'
M('C29',v,'v.X == other.X && v.Y == other.Y','v.X == other.X || v.Y == other.Y')
M('C29',v,'return Vector{-v.X, -v.Y}','return Vector{-v.X, v.Y}')
M('C29',v,'return Vector{v.Y, -v.X}','return Vector{-v.Y, v.X}')
M('C29',v,'other.Mult(v.Dot(other) / other.Dot(other))','other.Mult(v.Dot(other) / v.Dot(v))')
M('C29',v,'v.Y*other.X - v.X*other.Y}','v.X*other.Y - v.Y*other.X}')
M('C29',v,'math.Atan2(v.Y, v.X)','math.Atan(v.Y / v.X)')
M('C29',v,'(v.Length() + 1e-15)','(v.Length() + 1e-5)')
M('C29',v,'return v.Mult(1.0 - t).Add(other.Mult(t))','return v.Add(other.Mult(t))')
M('C29',v,'return math.Min(f, max)','return math.Max(f, max)')
M('C29',v,'if v.Dot(v) > length*length {\n		return v.Normalize','if v.Dot(v) > length {\n		return v.Normalize')
M('C29',v,'return f1 + Clamp(f2-f1, -d, d)','return f1 + Clamp(f2-f1, 0, d)')
M('C29',v,'t := Clamp01(delta.Dot(v.Sub(b)) / delta.LengthSq())','t := math.Min(1, delta.Dot(v.Sub(b)) / delta.LengthSq())')
M('C29',v,'return v.DistanceSq(other) < d*d','return v.DistanceSq(other) < d')
M('C29',t,'t.c*t.ty-t.tx*t.d,\n		-t.b, t.a','t.c*t.ty-t.tx*t.b,\n		-t.b, t.a')
M('C29',t,'(t.tx*t.b-t.a*t.ty)*inv_det','(t.tx*t.b-t.a*t.ty)')
M('C29',t,'t.a*t2.tx+t.c*t2.ty+t.tx','t.a*t2.tx+t.c*t2.ty+t2.tx')
M('C29',t,'return t.Inverse().Mult(inner.Mult(t))','return t.Mult(inner.Mult(t.Inverse()))')
M('C29',t,'hw_max := math.Max(math.Abs(a+b), math.Abs(a-b))','hw_max := math.Max(math.Abs(a+b), a-b)')
M('C29',t,'hh_max := math.Max(math.Abs(d+e), math.Abs(d-e))','hh_max := math.Max(math.Abs(d), math.Abs(e))')
M('C29',t,'-(bb.T+bb.B)/(bb.T-bb.B)','(bb.T+bb.B)/(bb.T-bb.B)')
M('C29',b,'a.B <= b.T && b.B <= a.T','a.B <= b.T && b.B < a.T')
M('C29',b,'bb.R >= other.R','bb.R >= other.L')
M('C29',b,'math.Max(bb.T, v.Y)','math.Max(bb.R, v.Y)')
M('C29',b,'t2 := (bb.T - a.Y) / delta.Y\n		tmin = math.Max(tmin, math.Min(t1, t2))\n		tmax = math.Min(tmax, math.Max(t1, t2))','t2 := (bb.T - a.Y) / delta.Y\n		tmin = math.Max(tmin, math.Min(t1, t2))\n		tmax = math.Max(t1, t2)')
M('C29',b,'tmin <= tmax && 0 <= tmax && tmin <= 1.0','tmin <= tmax && tmin <= 1.0')
M('C29',b,'if a.Y < bb.B || bb.T < a.Y {','if a.Y < bb.B || bb.T < a.X {')
M('C29',b,'return math.Max(tmin, 0.0)','return tmin')
M('C35',y,'body.w = body.w*damping + body.t*body.i_inv*dt\n\n	body.f = Vector{}\n	body.t = 0\n}\n\n// BodyUpdatePosition','body.w = body.w*damping + body.t*body.i_inv*dt\n\n	body.f = Vector{}\n}\n\n// BodyUpdatePosition')
M('C35',y,'(body.w+body.w_bias)*dt','body.w*dt')
M('C35',y,'	body.v_bias = Vector{}\n	body.w_bias = 0\n}','	body.v_bias = Vector{}\n}')
M('C35',y,'body.f.Mult(body.m_inv)).Mult(dt))\n	body.w = body.w*damping + body.t*body.i_inv*dt\n\n	body.f = Vector{}\n	body.t = 0\n}\n\n// BodyUp','body.f.Mult(body.m_inv)).Mult(dt))\n	body.w = (body.w + body.t*body.i_inv*dt)*damping\n\n	body.f = Vector{}\n	body.t = 0\n}\n\n// BodyUp')
M('C35',y,'r := point.Sub(body.transform.Point(body.cog))\n	body.t +=','r := point.Sub(body.p.Add(body.cog))\n	body.t +=')
M('C35',y,'body.ApplyForceAtWorldPoint(body.transform.Vect(force), body.transform.Point(point))','body.ApplyForceAtWorldPoint(body.transform.Point(force), body.transform.Point(point))')
M('C35',y,'body.ApplyImpulseAtWorldPoint(body.transform.Vect(impulse), body.transform.Point(point))','body.ApplyImpulseAtWorldPoint(impulse, body.transform.Point(point))')
M('C35',y,'r := body.transform.Vect(point.Sub(body.cog))\n	return','r := body.transform.Vect(point)\n	return')
M('C35',y,'r := point.Sub(body.transform.Point(body.cog))\n	return body.v.Add(r.Perp()','r := point.Sub(body.p)\n	return body.v.Add(r.ReversePerp()')
R('C29',b,'return a.L <= b.R && b.L <= a.R && a.B <= b.T && b.B <= a.T','return !(a.L > b.R || b.L > a.R) && !(a.B > b.T || a.T < b.B)')
R('C29',v,'return math.Max(0, math.Min(f, 1))','if f < 0 {\n		return 0\n	}\n	if f > 1 {\n		return 1\n	}\n	return f')
R('C29',v,'return f1 + Clamp(f2-f1, -d, d)','if diff := f2 - f1; diff > d {\n		return f1 + d\n	} else if diff < -d {\n		return f1 - d\n	}\n	return f2')
R('C29',t,'inv_det := 1.0 / (t.a*t.d - t.c*t.b)','det := t.a*t.d - t.b*t.c\n	inv_det := 1.0 / det')
R('C29',t,'hw_max := math.Max(math.Abs(a+b), math.Abs(a-b))\n	hh_max := math.Max(math.Abs(d+e), math.Abs(d-e))','hw_max := math.Abs(a) + math.Abs(b)\n	hh_max := math.Abs(d) + math.Abs(e)')
R('C29',b,'''	delta := b.Sub(a)
	tmin := -INFINITY
	tmax := INFINITY
''','''	delta := b.Sub(a)
	tmin, tmax := -INFINITY, INFINITY
	clip := func(p, d, lo, hi float64) bool {
		if d == 0 {
			return p >= lo && p <= hi
		}
		enter, leave := (lo-p)/d, (hi-p)/d
		if d < 0 {
			enter, leave = leave, enter
		}
		if enter > tmin {
			tmin = enter
		}
		if leave < tmax {
			tmax = leave
		}
		return true
	}
	if !clip(a.X, delta.X, bb.L, bb.R) || !clip(a.Y, delta.Y, bb.B, bb.T) {
		return INFINITY
	}
	if tmin > tmax || tmax < 0 || tmin > 1 {
		return INFINITY
	}
	return math.Max(0, tmin)
}

func (bb BB) oldSegmentQuery(a, b Vector) float64 {
	delta := b.Sub(a)
	tmin := -INFINITY
	tmax := INFINITY
''')
R('C35',y,'	r := point.Sub(body.transform.Point(body.cog))\n	body.t += r.Cross(force)','	body.t += point.Cross(force) - body.LocalToWorld(body.cog).Cross(force)')
R('C35',y,'	body.p = body.p.Add(body.v.Add(body.v_bias).Mult(dt))\n	body.a = body.a + (body.w+body.w_bias)*dt\n	body.SetTransform(body.p, body.a)','	body.a += body.w*dt + body.w_bias*dt\n	body.p.X += (body.v.X + body.v_bias.X) * dt\n	body.p.Y += (body.v.Y + body.v_bias.Y) * dt\n	body.SetTransform(body.p, body.a)')
M('C29', 'bb.go', 'Clamp(v.X, bb.L, bb.R)', 'Clamp(v.X, bb.R, bb.L)')
M('C29', 'bb.go', 'Clamp(v.Y, bb.B, bb.T)', 'Clamp(v.Y, bb.B, bb.R)')
M('C29', 'vector.go', 'p.Dot(n) <= math.Max(v.Dot(n), v1.Dot(n))', 'p.Dot(n) <= math.Min(v.Dot(n), v1.Dot(n))')
M('C29', 'vector.go', 'return -Clamp(delta.Dot(v.Add(b))/delta.LengthSq(), -1.0, 1.0)', 'return -Clamp(delta.Dot(v.Add(b))/delta.LengthSq(), 0, 1.0)')
M('C29', 'vector.go', 'v.Mult(0.5 - ht).Add(b.Mult(0.5 + ht))', 'v.Mult(0.5 + ht).Add(b.Mult(0.5 - ht))')
R('C29', 'vector.go', 'p.Dot(n) <= math.Max(v.Dot(n), v1.Dot(n))', '!(p.Dot(n) > v.Dot(n) && p.Dot(n) > v1.Dot(n))')
R('C29', 'bb.go', 'return Vector{Clamp(v.X, bb.L, bb.R), Clamp(v.Y, bb.B, bb.T)}', 'w := *v\n	w.X = Clamp(w.X, bb.L, bb.R)\n	w.Y = math.Min(math.Max(w.Y, bb.B), bb.T)\n	return w')
