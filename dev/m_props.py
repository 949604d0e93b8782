M('C37','body.go','''	body.Activate()
	body.w = angularVelocity''','''	body.Activate()
	body.w = angularVelocity
	body.w_bias = 0''')
M('C37','shape.go','	s.e = e','	s.e = math.Min(e, 1)',[('shape.go','import "fmt"','import ("fmt"; "math")')])
M('C37','constraint.go','	c.maxBias = max','	c.maxForce = max')
M('C37','constraint.go','	c.errorBias = errorBias','	if c.space == nil { c.errorBias = errorBias }')
M('C37','space.go','	space.damping = damping','	if damping > 0 { space.damping = damping }')
M('C37','body.go','	body.t = torque','	body.t += torque')
M('C37','shape.go','			Mask:       ALL_CATEGORIES,','			Mask:       1,')
M('C37','space.go','		IdleSpeedThreshold:   0.0,','		IdleSpeedThreshold:   0.1,')
M('C37','slidejoint.go','	joint.Constraint = NewConstraint(joint, a, b)','	joint.Constraint = NewConstraint(joint, a, b)\n	joint.Constraint.maxForce = 1e9')
R('C37','constraint.go','	c.maxBias = max','	c.setMaxBias(max)',[('constraint.go','func (c *Constraint) SetMaxBias','func (c *Constraint) setMaxBias(x float64) { c.maxBias = x }\n\nfunc (c *Constraint) SetMaxBias')])
R('C37','space.go','		IdleSpeedThreshold:   0.0,','')
R('C37','body.go','	body.w = angularVelocity','	if body.w != angularVelocity { body.w = angularVelocity }')
