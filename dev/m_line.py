F="polyline.go"
M('C27',F,"return (i + 1) % count","return (i + 2) % count")
M('C27',F,"a.Sub(b).Normalize().Dot(c.Sub(b).Normalize())","a.Sub(b).Dot(c.Sub(b).Normalize())")
M('C27',F,"a.Sub(b).Normalize().Dot(c.Sub(b)","b.Sub(a).Normalize().Dot(c.Sub(b)")
M('C27',F,"pl.Verts = append([]Vector{v}, pl.Verts...)","pl.Verts = append(pl.Verts, v)")
M('C27',F,"len(pl.Verts) > 1 && pl.Verts[0].Equal(pl.Verts[len(pl.Verts)-1])","len(pl.Verts) > 1 && pl.Verts[0].Equal(pl.Verts[len(pl.Verts)-2])")
M('C27',F,"		if length > min {\n			return false","		if length > min*min {\n			return false")
M('C27',F,"length += pl.Verts[i].Distance(","length = pl.Verts[i].Distance(")
M('C27',F,"i := start; i != end; i = Next(i, count) {\n		length","i := start; i < end; i = Next(i, count) {\n		length")
M('C27',F,"Verts: []Vector{pl.Verts[0], pl.Verts[1]}}\n	min","Verts: pl.Verts[:2]}\n	min")
M('C27',F,"minSharp := -math.Cos(tol)","minSharp := math.Cos(tol)")
M('C27',F,"sharp <= minSharp","sharp < -minSharp")
M('C27',F,"reduced.Verts[len(reduced.Verts)-1] = vert","reduced.Verts[len(reduced.Verts)-2] = vert")
M('C27',F,"for i := 2; i < len(pl.Verts); i++","for i := 2; i < len(pl.Verts)-1; i++")
M('C27',F,"reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]","reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-1]")
M('C27',F,"if (end-start+length)%length < 2 {","if end-start < 2 {")
M('C27',F,"a.Near(b, min) && (&PolyLine","a.Near(b, min) || (&PolyLine")
M('C27',F,"d := n.Dot(a)","d := a.Length()")
M('C27',F,"math.Abs(n.Dot(verts[i]) - d)","n.Dot(verts[i]) - d")
M('C27',F,"			max = dist\n","")
M('C27',F,"if max > tol {","if max > min {")
M('C27',F,"		reduced.Push(verts[maxi])\n","		reduced.Push(verts[start])\n")
M('C27',F,"length, maxi, end, min, tol)","length, start, end, min, tol)")
M('C27',F,"len(pl.Verts)-1, end, start, min, tol)","len(pl.Verts), end, start, min, tol)")
M('C27',F,"		reduced = reduced.Push(pl.Verts[end])\n","")
M('C27',F,"line.Verts[len(line.Verts)-1].Equal(v)","line.Verts[0].Equal(v)")
M('C27',F,"		if line.Verts != nil && line.Verts[0].Equal(v) {\n			return i","		if line.Verts != nil && line.Verts[0].Equal(v) {\n			return i+1")
M('C27',F,"append(pls.Lines[before].Verts, pls.Lines[after].Verts...)","append(pls.Lines[after].Verts, pls.Lines[before].Verts...)")
M('C27',F,"append(pls.Lines[before].Verts, pls.Lines[after].Verts...)","append(pls.Lines[before].Verts, pls.Lines[after].Verts[1:]...)")
M('C27',F,"copy(pls.Lines[after:], pls.Lines[after+1:])","copy(pls.Lines[before:], pls.Lines[before+1:])")
M('C27',F,"pls.Lines[after].Enqueue(v0)","pls.Lines[after].Push(v0)")
M('C27',F,"		if before == after {\n			pls.Lines[before].Push(v1)\n		} else {\n			pls.Join(before, after)\n		}","		pls.Join(before, after)")
M('C27',F,"pls.Push(&PolyLine{Verts: []Vector{v0, v1}})","pls.Push(&PolyLine{Verts: []Vector{v1, v0}})")
M('C27',F,"before := pls.FindEnds(v0)","before := pls.FindEnds(v1)")
G="poly.go"
M('C27',G,"v.X == min.X && v.Y < min.Y","v.Y < min.Y")
M('C27',G,"v.X == max.X && v.Y > max.Y","v.X == max.X && v.Y < max.Y")
M('C27',G,"			max = v\n			end = i","			end = i")
M('C27',G,"	for i := 1; i < count; i++ {\n		v := verts[i]\n\n		if v.X < min.X","	for i := 1; i < count-1; i++ {\n		v := verts[i]\n\n		if v.X < min.X")
# kept
R('C27',F,"	if max > tol {\n		reduced = Doug","	if !(tol >= max) {\n		reduced = Doug")
R('C27',F,"			max = dist\n			maxi = i","			maxi, max = i, dist")
R('C27',F,"	for i, line := range pls.Lines {\n		if line.Verts != nil && line.Verts[0].Equal(v) {\n			return i\n		}\n	}\n	return -1","	for i := 0; i < len(pls.Lines); i++ {\n		verts := pls.Lines[i].Verts\n		if len(verts) == 0 {\n			continue\n		}\n		if verts[0].Equal(v) {\n			return i\n		}\n	}\n	return -1")
R('C27',F,"	for i, line := range pls.Lines {\n		if line.Verts != nil && line.Verts[0].Equal(v) {\n			return i\n		}\n	}\n	return -1","	found := -1\n	for i, line := range pls.Lines {\n		if line.Verts != nil && line.Verts[0].Equal(v) {\n			found = i\n			break\n		}\n	}\n	return found")
R('C27',F,"	copy(pls.Lines[after:], pls.Lines[after+1:])\n	pls.Lines = pls.Lines[:len(pls.Lines)-1]","	pls.Lines = append(pls.Lines[:after], pls.Lines[after+1:]...)")
R('C27',F,"	pls.Lines[before].Verts = append(pls.Lines[before].Verts, pls.Lines[after].Verts...)","	head, tail := pls.Lines[before], pls.Lines[after]\n	head.Verts = append(head.Verts, tail.Verts...)")
R('C27',F,"	if before >= 0 && after >= 0 {\n		if before == after {\n			pls.Lines[before].Push(v1)\n		} else {\n			pls.Join(before, after)\n		}\n	} else if before >= 0 {\n		pls.Lines[before].Push(v1)\n	} else if after >= 0 {\n		pls.Lines[after].Enqueue(v0)\n	} else {\n		pls.Push(&PolyLine{Verts: []Vector{v0, v1}})\n	}","	switch {\n	case before < 0 && after < 0:\n		pls.Push(&PolyLine{Verts: []Vector{v0, v1}})\n	case before < 0:\n		pls.Lines[after].Enqueue(v0)\n	case after < 0 || before == after:\n		pls.Lines[before].Push(v1)\n	default:\n		pls.Join(before, after)\n	}")
R('C27',F,"	var length float64\n	for i := start; i != end; i = Next(i, count) {\n		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])\n		if length > min {\n			return false\n		}\n	}\n	return true","	left := min\n	for i := start; i != end; {\n		n := Next(i, count)\n		left -= pl.Verts[i].Distance(pl.Verts[n])\n		if left < 0 {\n			return false\n		}\n		i = n\n	}\n	return true")
R('C27',F,"		vert := pl.Verts[i]\n		sharp := Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[len(reduced.Verts)-1], vert)\n		if sharp <= minSharp {\n			reduced.Verts[len(reduced.Verts)-1] = vert\n		} else {\n			reduced.Push(vert)\n		}","		vert := pl.Verts[i]\n		last := len(reduced.Verts) - 1\n		if Sharpness(reduced.Verts[last-1], reduced.Verts[last], vert) > minSharp {\n			reduced.Push(vert)\n			continue\n		}\n		reduced.Verts[last] = vert")
R('C27',F,"	pl.Verts = append([]Vector{v}, pl.Verts...)\n","	verts := make([]Vector, 0, len(pl.Verts)+1)\n	verts = append(verts, v)\n	pl.Verts = append(verts, pl.Verts...)\n")
R('C27',G,"		if v.X < min.X || (v.X == min.X && v.Y < min.Y) {\n			min = v\n			start = i\n		} else if v.X > max.X || (v.X == max.X && v.Y > max.Y) {\n			max = v\n			end = i\n		}\n	}\n\n	return start, end","		if v.X < min.X || (v.X == min.X && v.Y < min.Y) {\n			min = v\n			start = i\n		}\n		if v.X > max.X || (v.X == max.X && v.Y > max.Y) {\n			max = v\n			end = i\n		}\n	}\n\n	return start, end")
R('C27',G,"	min := verts[0]\n	max := min\n\n	for i := 1; i < count; i++ {\n		v := verts[i]\n\n		if v.X < min.X || (v.X == min.X && v.Y < min.Y) {\n			min = v\n			start = i\n		} else if v.X > max.X || (v.X == max.X && v.Y > max.Y) {\n			max = v\n			end = i\n		}","	for i := 1; i < count; i++ {\n		v, min, max := verts[i], verts[start], verts[end]\n\n		if v.X < min.X || (v.X == min.X && v.Y < min.Y) {\n			start = i\n		} else if v.X > max.X || (v.X == max.X && v.Y > max.Y) {\n			end = i\n		}")
