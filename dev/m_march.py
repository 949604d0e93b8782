F="march.go"
M('C28',F,"	x_denom = 1.0 / float64(xSamples-1)","	x_denom = 1.0 / float64(xSamples)")
M('C28',F,"float64(i)*x_denom), bb.B}","float64(i)*x_denom), bb.T}")
M('C28',F,"for j = 0; j < ySamples-1; j++ {","for j = 0; j < ySamples-2; j++ {")
M('C28',F,"for i = 0; i < xSamples-1; i++ {","for i = 1; i < xSamples-1; i++ {")
M('C28',F,"		buffer[0] = d\n","")
M('C28',F,"			buffer[i+1] = d\n","			buffer[i] = d\n")
M('C28',F,"			buffer[i+1] = d\n","			if d > t {\n				buffer[i+1] = d\n			}\n")
M('C28',F,"			b = buffer[i+1]\n			c = d\n			d = marchSample(Vector{x1, y1})\n			buffer[i+1] = d\n","			c = d\n			d = marchSample(Vector{x1, y1})\n			buffer[i+1] = d\n			b = buffer[i+1]\n")
M('C28',F,"			c = d\n","			c = a\n")
M('C28',F,"d = marchSample(Vector{x1, y1})","d = marchSample(Vector{x1, y0})")
M('C28',F,"marchCell(t, a, b, c, d, x0","marchCell(t, b, a, c, d, x0")
M('C28',F,"			marchCell(t, a,","			if a != d || b != c {\n			marchCell(t, a,",[("march.go","marchSegment, segmentData)\n		}\n	}\n\n	return","marchSegment, segmentData)\n		}\n		}\n	}\n\n	return")])
M('C28',F,"	if !v0.Equal(v1) {\n		marchSegment(v1, v0","	if v0.X != v1.X && v0.Y != v1.Y {\n		marchSegment(v1, v0")
M('C28',F,"marchSegment(v1, v0,","marchSegment(v0, v1,")
M('C28',F,"(t-s0)/(s1-s0)","(s1-t)/(s1-s0)")
M('C28',F,"	if a > t {\n		at = 1\n	}\n	if b > t {\n		bt = 1\n	}\n	if c > t {\n		ct = 1\n	}\n	if d > t {\n		dt = 1\n	}\n\n	switch (at)<<0 | (bt)<<1 | (ct)<<2 | (dt)<<3 {\n	case 0x1:\n		seg(","	if a >= t {\n		at = 1\n	}\n	if b > t {\n		bt = 1\n	}\n	if c > t {\n		ct = 1\n	}\n	if d > t {\n		dt = 1\n	}\n\n	switch (at)<<0 | (bt)<<1 | (ct)<<2 | (dt)<<3 {\n	case 0x1:\n		seg(")
M('C28',F,"	case 0x7:\n		seg(Vector{midlerp(x0, x1, c, d, t), y1}","	case 0x7:\n		seg(Vector{midlerp(x0, x1, a, b, t), y1}")
M('C28',F,"	case 0x9:\n		seg(Vector{x0, midlerp(y0, y1, a, c, t)}","	case 0x9:\n		seg(Vector{x0, midlerp(y0, y1, c, a, t)}") if False else None
M('C28',F,"	case 0xE:\n		segs(Vector{xm, y0}, Vector{xm, ym}, Vector{x0, ym}","	case 0xE:\n		segs(Vector{x0, ym}, Vector{xm, ym}, Vector{xm, y0}")
M('C28',F,"	case 0x4:\n		segs(Vector{xm, y1}","	case 0x4:\n		segs(Vector{xm, y0}")
M('C28',F,"	xm := Lerp(x0, x1, 0.5)","	xm := Lerp(x0, x1, 0.25)")
M('C28',F,"	seg(b, c, marchSegment, segmentData)\n","")
M('C28',F,"marchSegment, marchSample, MarchCellHard)","marchSegment, marchSample, MarchCellSoft)")
M('C28',F,"MarchCells(bb, xSamples, ySamples, t, marchSegment, marchSample, MarchCellSoft)","MarchCells(bb, ySamples, xSamples, t, marchSegment, marchSample, MarchCellSoft)")
# behaviour-preserving
R('C28',F,"	seg(b, c, marchSegment, segmentData)\n	seg(a, b, marchSegment, segmentData)\n","	seg(a, b, marchSegment, segmentData)\n	seg(b, c, marchSegment, segmentData)\n")
R('C28',F,"	return Lerp(x0, x1, (t-s0)/(s1-s0))","	f := (s0 - t) / (s0 - s1)\n	return x0*(1-f) + x1*f")
R('C28',F,"	if !v0.Equal(v1) {\n		marchSegment(v1, v0, segmentData)\n	}","	if v0.Equal(v1) {\n		return\n	}\n	marchSegment(v1, v0, segmentData)")
R('C28',F,"			a := b // = -> :=\n			b = buffer[i+1]\n			c = d\n","			a, right := b, buffer[i+1]\n			b = right\n			c = d\n")
R('C28',F,"	xm := Lerp(x0, x1, 0.5)\n	ym := Lerp(y0, y1, 0.5)\n","	xm, ym := (x0+x1)/2, (y0+y1)*0.5\n")
R('C28',F,"	for j = 0; j < ySamples-1; j++ {\n		y0 := Lerp(bb.B, bb.T, float64(j+0)*y_denom)\n		y1 := Lerp(bb.B, bb.T, float64(j+1)*y_denom)\n","	for j = 1; j < ySamples; j++ {\n		y0 := Lerp(bb.B, bb.T, float64(j-1)*y_denom)\n		y1 := Lerp(bb.B, bb.T, float64(j)*y_denom)\n")
R('C28',F,"	case 0xF:\n","") if False else None
R('C28',F,"	case 0x1:\n		segs(Vector{x0, ym}, Vector{xm, ym}, Vector{xm, y0}, marchSegment, segmentData)\n	case 0x2:","	case 0:\n	case 0x1:\n		segs(Vector{x0, ym}, Vector{xm, ym}, Vector{xm, y0}, marchSegment, segmentData)\n	case 0x2:")
# a table of corners in place of the flags
R('C28',F,"	at := 0\n	bt := 0\n	ct := 0\n	dt := 0\n	if a > t {\n		at = 1\n	}\n	if b > t {\n		bt = 1\n	}\n	if c > t {\n		ct = 1\n	}\n	if d > t {\n		dt = 1\n	}\n\n	switch (at)<<0 | (bt)<<1 | (ct)<<2 | (dt)<<3 {\n	case 0x1:\n		seg(","	switch cornerBits(t, a, b, c, d) {\n	case 0x1:\n		seg(",[("march.go","func midlerp(","func cornerBits(t float64, corners ...float64) int {\n	bits := 0\n	if corners[0] > t {\n		bits |= 1\n	}\n	if corners[1] > t {\n		bits += 2\n	}\n	if corners[2] > t {\n		bits |= 4\n	}\n	if corners[3] > t {\n		bits |= 8\n	}\n	return bits\n}\n\nfunc midlerp(")])
