def H(old,new): M('C44','poly.go',old,new)
H('verts[0], verts[start] = verts[start], verts[0]\n	if end','if end')
H('	if end == 0 {\n		verts[1], verts[start] = verts[start], verts[1]\n	} else {\n		verts[1], verts[end] = verts[end], verts[1]\n	}','	verts[1], verts[end] = verts[end], verts[1]')
H('if end == 0 {\n		verts[1], verts[start]','if end == 1 {\n		verts[1], verts[start]')
H('		*first = start\n','		*first = end\n')
H('verts[2:], count-2, a, b, a, verts[1:]) + 1','verts[2:], count-2, a, b, b, verts[1:]) + 1')
H('verts[2:], count-2, a, b, a, verts[1:]) + 1','verts[2:], count-2, a, b, a, verts[1:])')
H('verts[2:], count-2, a, b, a, verts[1:]) + 1','verts[1:], count-1, a, b, a, verts[1:]) + 1')
H('verts[2:], count-2, a, b, a, verts[1:]) + 1','verts[2:], count-2, b, a, b, verts[1:]) + 1')
H('	if start == end {\n		if first','	if count == 1 {\n		if first')
H('if leftCount-1 >= 0 {','if leftCount-1 > 0 {')
H('if rightCount-1 < 0 {','if rightCount-1 <= 0 {')
H('QHullPartition(verts[leftCount:], count-leftCount, pivot, b, tol)','QHullPartition(verts[leftCount:], count-leftCount, b, pivot, tol)')
H('QHullPartition(verts[leftCount:], count-leftCount, pivot, b, tol)','QHullPartition(verts, count, pivot, b, tol)')
H('QHullPartition(verts[leftCount:], count-leftCount, pivot, b, tol)','QHullPartition(verts[leftCount:], count-leftCount, a, b, tol)')
H('QHullPartition(verts, count, a, pivot, tol)','QHullPartition(verts, count, a, b, tol)')
H('QHullPartition(verts, count, a, pivot, tol)','QHullPartition(verts, count, a, pivot, 0)')
H('leftCount-1, a, verts[0], pivot, result)','leftCount-1, a, verts[0], b, result)')
H('leftCount-1, a, verts[0], pivot, result)','leftCount, a, verts[0], pivot, result)')
H('pivot, verts[leftCount], b, result[index:])','pivot, verts[0], b, result[index:])')
H('pivot, verts[leftCount], b, result[index:])','pivot, verts[leftCount], b, result)')
H('return index + QHullReduce','return QHullReduce')
H('verts[leftCount+1:], rightCount-1','verts[leftCount:], rightCount-1')
H('	result[index] = pivot\n	index++\n','	result[index] = b\n	index++\n')
H('value > valueTol {','value >= valueTol {')
H('value > valueTol {','value > 0*valueTol {')
H('			if value > max {\n','			if value > valueTol+0*max {\n')
H('				max = value\n','')
H('				pivot = head\n','				pivot = head + 1\n')
H('valueTol := tol * delta.Length()','valueTol := tol')
H('verts[head].Sub(a).Cross(delta)','delta.Cross(verts[head].Sub(a))')
H('verts[head].Sub(a).Cross(delta)','verts[head].Sub(b).Dot(delta)')
H('head <= tail; {','head < tail; {')
H('tail := count - 1;','tail := count;')
H('			verts[head], verts[tail] = verts[tail], verts[head]\n','')
H('			verts[head], verts[tail] = verts[tail], verts[head]\n','			verts[head] = verts[tail]\n')
H('	if pivot != 0 {\n		verts[0], verts[pivot] = verts[pivot], verts[0]\n	}','	_ = pivot')
H('	if pivot != 0 {\n		verts[0], verts[pivot] = verts[pivot], verts[0]\n	}','	verts[0] = verts[pivot]')
H('	max := 0.0\n	pivot','	max := 1.0\n	pivot')
H('v.X < min.X || (v.X == min.X && v.Y < min.Y)','v.X < min.X')
def Q(old,new,*x): R('C44','poly.go',old,new,list(x))
Q('	if pivot != 0 {\n		verts[0], verts[pivot] = verts[pivot], verts[0]\n	}','	verts[0], verts[pivot] = verts[pivot], verts[0]')
Q('	for tail := count - 1; head <= tail; {','	tail := count - 1\n	for head <= tail {')
Q('	for tail := count - 1; head <= tail; {','	for tail := count - 1; tail >= head; {')
Q('''		value := verts[head].Sub(a).Cross(delta)
		if value > valueTol {
			if value > max {
				max = value
				pivot = head
			}

			head++
		} else {
			verts[head], verts[tail] = verts[tail], verts[head]
			tail--
		}
''','''		v := verts[head]
		value := v.Sub(a).Cross(delta)
		if value <= valueTol {
			verts[head] = verts[tail]
			verts[tail] = v
			tail--
			continue
		}
		if max < value {
			max, pivot = value, head
		}
		head++
''')
Q('''	var index int
	if leftCount-1 >= 0 {''','''	index := 0
	if leftCount > 0 {''')
Q('''	if rightCount-1 < 0 {
		return index
	}
	return index + QHullReduce(tol, verts[leftCount+1:], rightCount-1, pivot, verts[leftCount], b, result[index:])''','''	if rightCount > 0 {
		rest := verts[leftCount:]
		index += QHullReduce(tol, rest[1:], rightCount-1, pivot, rest[0], b, result[index:])
	}
	return index''')
Q('''	leftCount := QHullPartition(verts, count, a, pivot, tol)
	var index int
	if leftCount-1 >= 0 {
		index = QHullReduce(tol, verts[1:], leftCount-1, a, verts[0], pivot, result)
	}
''','''	leftCount := QHullPartition(verts, count, a, pivot, tol)
	index := hullOf(tol, verts, leftCount, a, pivot, result)
''',('poly.go','func QHullPartition(','''func hullOf(tol float64, verts []Vector, n int, a, b Vector, result []Vector) int {
	if n == 0 {
		return 0
	}
	return QHullReduce(tol, verts[1:], n-1, a, verts[0], b, result)
}

func QHullPartition('''))
Q('''	if end == 0 {
		verts[1], verts[start] = verts[start], verts[1]
	} else {
		verts[1], verts[end] = verts[end], verts[1]
	}
''','''	if end == 0 {
		end = start
	}
	verts[1], verts[end] = verts[end], verts[1]
''')
Q('''		if first != nil {
			*first = 0
		}
		return 1
	}
''','''		if first == nil {
			return 1
		}
		*first = 0
		return 1
	}
''')
Q('	a := verts[0]\n	b := verts[1]\n','	a, b := verts[0], verts[1]\n')
Q('''	a := verts[0]
	b := verts[1]

	if first != nil {
		*first = start
	}

	return QHullReduce(tol, verts[2:], count-2, a, b, a, verts[1:]) + 1''','''	if first != nil {
		*first = start
	}

	rest := verts[1:]
	n := QHullReduce(tol, rest[1:], count-2, verts[0], rest[0], verts[0], rest)
	return 1 + n''')
Q('''	if start == end {
		if first != nil {
			*first = 0
		}
		return 1
	}
''','''	if first != nil {
		*first = start
	}
	if start == end {
		return 1
	}
''')
