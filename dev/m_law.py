M('C42',"gearjoint.go","1.0 / ratio,","1.0 * ratio,")
M('C42',"dampedspring.go","	if dist != 0 {","	if true || dist != 0 {")
M('C42',"pinjoint.go","(dist - joint.Dist)/dt","(joint.Dist - dist)/dt")
M('C42',"pinjoint.go","1/k_scalar(a, b, joint.r1, joint.r2, joint.n)","1/k_scalar(a, b, joint.r1, joint.r1, joint.n)")
M('C42',"pinjoint.go","	jn = joint.jnAcc - jnOld\n","")
M('C42',"pinjoint.go","joint.n.Mult(joint.jnAcc*dt_coef)","joint.n.Mult(joint.jnAcc)")
M('C42',"pinjoint.go","	if dist != 0 {\n","	if true || dist != 0 {\n")
M('C42',"slidejoint.go","		pdist = joint.Min - dist\n","		pdist = dist - joint.Min\n")
M('C42',"slidejoint.go","delta.Normalize().Neg()","delta.Normalize()")
M('C42',"slidejoint.go","(joint.bias - vrn) * joint.nMass","(joint.bias + vrn) * joint.nMass")
M('C42',"pivotjoint.go","-bias_coef(joint.Constraint.errorBias, dt) / dt","-bias_coef(joint.Constraint.errorBias, dt)")
M('C42',"pivotjoint.go","joint.k = k_tensor(a, b, joint.r1, joint.r2)","joint.k = k_tensor(a, b, joint.r2, joint.r1)")
M('C42',"everything.go","r1nxy := -r1.X * r1.Y * a_i_inv","r1nxy := r1.X * r1.Y * a_i_inv")
M('C42',"everything.go","k22 * det_inv, -k12 * det_inv,","k11 * det_inv, -k12 * det_inv,")
M('C42',"pivotjoint.go","anchorB = b.WorldToLocal(pivot)","anchorB = a.WorldToLocal(pivot)")
M('C42',"groovejoint.go","joint.clamp = -1\n","joint.clamp = 1\n")
M('C42',"groovejoint.go","joint.r1 = tb.Sub(a.p)","joint.r1 = ta.Sub(a.p)")
M('C42',"groovejoint.go","n.Perp().Mult(-td)","n.Perp().Mult(td)")
M('C42',"groovejoint.go","joint.clamp*j.Cross(n) > 0","joint.clamp*j.Cross(n) < 0")
M('C42',"groovejoint.go","grooveB.Sub(grooveA).Normalize().Perp()","grooveA.Sub(grooveB).Normalize().Perp()")
M('C42',"dampedspring.go","spring.Damping*dt*k","spring.Damping*k")
M('C42',"dampedspring.go","	spring.targetVrn = vrn + vDamp\n","")
M('C42',"dampedspring.go","	spring.targetVrn = 0\n","")
M('C42',"dampedspring.go","(spring.RestLength - dist)","(dist - spring.RestLength)")
M('C42',"dampedspring.go","RestLength:      restLength,\n		Stiffness:       stiffness,\n		Damping:         damping,","RestLength:      restLength,\n		Stiffness:       damping,\n		Damping:         stiffness,")
M('C42',"dampedrotaryspring.go","a.a-b.a)*dt","b.a-a.a)*dt")
M('C42',"dampedrotaryspring.go","moment := a.i_inv + b.i_inv","moment := a.i_inv - b.i_inv")
M('C42',"rotarylimitjoint.go","pdist = joint.Max - dist","pdist = dist - joint.Max")
M('C42',"rotarylimitjoint.go","j := -(joint.bias + wr)*joint.iSum","j := -(joint.bias - wr)*joint.iSum")
M('C42',"rotarylimitjoint.go","		Min: min,\n		Max: max,","		Min: max,\n		Max: min,")
M('C42',"ratchetjoint.go","math.Floor((delta-phase)/ratchet)*ratchet+phase","math.Floor((delta-phase)/ratchet)*ratchet")
M('C42',"ratchetjoint.go","diff*ratchet > 0","diff > 0")
M('C42',"ratchetjoint.go","joint.Angle -= a.a","joint.Angle = a.a")
M('C42',"gearjoint.go","b.a*joint.ratio-a.a-joint.phase","b.a*joint.ratio-a.a+joint.phase")
M('C42',"gearjoint.go","a.i_inv*joint.ratio_inv + joint.ratio*b.i_inv","a.i_inv*joint.ratio + joint.ratio_inv*b.i_inv")
M('C42',"gearjoint.go","wr := b.w*joint.ratio - a.w","wr := b.w - a.w*joint.ratio")
M('C42',"simplemotor.go","b.w - a.w + motor.Rate","b.w - a.w - motor.Rate")
M("C42","simplemotor.go","return math.Abs(motor.jAcc)","return math.Max(motor.jAcc, 0)")
M('C42',"everything.go","return 1.0 - math.Pow(errorBias, dt)","return 1.0 - math.Pow(dt, errorBias)")
R('C42',"pinjoint.go","	jn := (joint.bias - vrn)*joint.nMass\n	jnOld := joint.jnAcc\n	joint.jnAcc = Clamp(jnOld+jn, -jnMax, jnMax)\n	jn = joint.jnAcc - jnOld","	jnOld := joint.jnAcc\n	joint.jnAcc = math.Max(-jnMax, math.Min(jnMax, jnOld+(joint.bias - vrn)*joint.nMass))\n	jn := joint.jnAcc - jnOld")
R('C42',"slidejoint.go","	pdist := 0.0\n	if dist > joint.Max {\n		pdist = dist - joint.Max\n		joint.n = delta.Normalize()\n	} else if dist < joint.Min {\n		pdist = joint.Min - dist\n		joint.n = delta.Normalize().Neg()\n	} else {\n		joint.n = Vector{}\n		joint.jnAcc = 0\n	}","	var pdist float64\n	switch {\n	case dist > joint.Max:\n		pdist, joint.n = dist-joint.Max, delta.Normalize()\n	case dist < joint.Min:\n		pdist, joint.n = joint.Min-dist, delta.Neg().Normalize()\n	default:\n		joint.n, joint.jnAcc = Vector{}, 0\n	}")
R('C42',"pinjoint.go","	if dist != 0 {\n		joint.n = delta.Mult(1 / dist)\n	} else {\n		joint.n = delta.Mult(1 / INFINITY)\n	}","	joint.n = Vector{}\n	if dist != 0 {\n		joint.n = delta.Mult(1 / dist)\n	}")
R('C42',"rotarylimitjoint.go","	if joint.bias < 0 {\n		joint.jAcc = Clamp(jOld + j, 0, jMax)\n	} else {\n		joint.jAcc = Clamp(jOld + j, -jMax, 0)\n	}","	lo, hi := -jMax, 0.0\n	if joint.bias < 0 {\n		lo, hi = 0, jMax\n	}\n	joint.jAcc = Clamp(jOld+j, lo, hi)")
R('C42',"groovejoint.go","	var jClamp Vector\n	if joint.clamp*j.Cross(n) > 0 {\n		jClamp = j\n	} else {\n		jClamp = j.Project(n)\n	}\n	return jClamp.Clamp(joint.maxForce * dt)","	if joint.clamp*j.Cross(n) <= 0 {\n		j = j.Project(n)\n	}\n	return j.Clamp(joint.maxForce * dt)")
R('C42',"groovejoint.go","	td := b.p.Add(joint.r2).Cross(n)\n\n	if td <= ta.Cross(n) {","	td := b.p.Add(joint.r2).Cross(n)\n	first := ta.Cross(n)\n\n	if !(td > first) {")
R('C42',"simplemotor.go","	wr := b.w - a.w + motor.Rate\n\n	jMax := motor.maxForce * dt\n\n	j := -wr * motor.iSum\n	jOld := motor.jAcc\n	motor.jAcc = Clamp(jOld+j, -jMax, jMax)\n	j = motor.jAcc - jOld\n\n	a.w -= j * a.i_inv","	jMax := motor.maxForce * dt\n	jOld := motor.jAcc\n	motor.jAcc = Clamp(jOld+(a.w-b.w-motor.Rate)*motor.iSum, -jMax, jMax)\n	j := motor.jAcc - jOld\n\n	a.w -= j * a.i_inv")
R('C42',"everything.go","	det_inv := 1.0 / det\n	return Mat2x2{\n		k22 * det_inv, -k12 * det_inv,\n		-k21 * det_inv, k11 * det_inv,\n	}","	return Mat2x2{\n		k22 / det, -k12 / det,\n		-k21 / det, k11 / det,\n	}")
R('C42',"ratchetjoint.go","	if b != nil {\n		joint.Angle = b.a\n	}\n	if a != nil {\n		joint.Angle -= a.a\n	}","	if a != nil && b != nil {\n		joint.Angle = b.a - a.a\n	}")
R('C42',"gearjoint.go","	joint := &GearJoint{\n		phase:     phase,\n		ratio:     ratio,\n		ratio_inv: 1.0 / ratio,\n		jAcc: 0,\n	}","	joint := new(GearJoint)\n	joint.phase, joint.ratio = phase, ratio\n	joint.ratio_inv = 1 / ratio")
