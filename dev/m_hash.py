F='spacehash.go'
def m(o,n,ex=()): M('C41',F,o,n,ex)
def r(o,n,ex=()): R('C41',F,o,n,ex)
# hashHandle
m("	l := floor(bb.L / dim)\n	r := floor(bb.R / dim)\n	b := floor(bb.B / dim)\n	t := floor(bb.T / dim)\n\n	n := hash.numCells\n	for i := l; i <= r; i++ {\n		for j := b; j <= t; j++ {\n			idx","	l := floor(bb.L / dim)\n	r := floor(bb.R / dim)\n	b := floor(bb.B / dim)\n	t := floor(bb.T / dim)\n\n	n := hash.numCells\n	for i := l; i < r; i++ {\n		for j := b; j <= t; j++ {\n			idx")
m("		for j := b; j <= t; j++ {\n			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))","		for j := b; j < t; j++ {\n			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))")
m("			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))\n			bin","			idx := hashFunc(HashValue(j), HashValue(i), HashValue(n))\n			bin")

m("	l := floor(bb.L / dim)","	l := floor(bb.L/dim) + 1")
m("			hand.retain()\n			newBin := hash.getEmptyBin()","			newBin := hash.getEmptyBin()")
m("			newBin.next = bin\n			hash.table[idx] = newBin\n		}\n	}\n}\n\nfunc (hash *SpaceHash) Count","			newBin.next = bin.next0()\n			hash.table[idx] = newBin\n		}\n	}\n}\nfunc (bin *SpaceHashBin) next0() *SpaceHashBin { if bin == nil { return nil }; return bin.next }\n\nfunc (hash *SpaceHash) Count")
m("			if bin.containsHandle(hand) {\n				continue\n			}\n\n			hand.retain()\n			newBin","			if bin.containsHandle(hand) {\n				break\n			}\n\n			hand.retain()\n			newBin")
m("			if bin.containsHandle(hand) {\n				continue\n			}\n\n			hand.retain()\n			newBin","			if bin.containsHandle(hand) {\n				return\n			}\n\n			hand.retain()\n			newBin")
m("		if item.handle == hand {\n			return true","		if item.handle == hand || item.next == nil {\n			return true")
m("		if item.handle == hand {","		if item.handle.obj == hand.obj || item.handle.obj == nil {")
m("	hash.hashHandle(hand, hash.bbfunc(obj))\n}","	if hand.retains == 1 {\n		hash.hashHandle(hand, obj.bb)\n	}\n}")
m("		hand.Init(obj)\n		hand.retain()","		hand.Init(obj)")
m("	hand.obj = obj\n	hand.retains = 0","	hand.retains = 0")
# remove
m("		hand.obj = nil\n		hand.release(&hash.pooledHandles)\n	}\n}\n\nfunc (hash *SpaceHash) Reindex()","		hand.release(&hash.pooledHandles)\n	}\n}\n\nfunc (hash *SpaceHash) Reindex()")
m("		hand.obj = nil\n		hand.release(&hash.pooledHandles)\n	}\n}\n\nfunc (hash *SpaceHash) Reindex()","		hand.obj = nil\n		hash.pooledHandles.Put(hand)\n	}\n}\n\nfunc (hash *SpaceHash) Reindex()")
m("	hand.retains--\n	if hand.retains == 0 {","	hand.retains--\n	if hand.retains <= 1 {")
m("	hand.retains--\n	if hand.retains == 0 {","	if hand.retains--; hand.obj == nil {")
m("		hand.release(&hash.pooledHandles)\n\n		hash.Insert(obj, hashId)","		hash.Insert(obj, hashId)\n		hand.release(&hash.pooledHandles)\n		hand.release(&hash.pooledHandles)")
m("		hand.obj = nil\n		hand.release(&hash.pooledHandles)\n\n		hash.Insert(obj, hashId)","		hand.release(&hash.pooledHandles)\n\n		hash.Insert(obj, hashId)")
m("		hash.Insert(obj, hashId)\n	}\n}","		hash.handleSet.Insert(hashId, obj, func(*Shape) *Handle { return hand })\n	}\n}")
# orphans
m("			*binPtr = bin.next\n			hash.recycleBin(bin)","			hash.recycleBin(bin)\n			*binPtr = bin.next")
m("			binPtr = &bin.next\n		}\n\n		bin = next","		}\n\n		bin = next")
m("			binPtr = &bin.next\n		}\n\n		bin = next","		}\n		binPtr = &bin.next\n\n		bin = next")
m("			hash.recycleBin(bin)\n\n			hand.release(&hash.pooledHandles)\n		} else {","			hash.recycleBin(bin)\n\n			hand.release(&hash.pooledHandles)\n			hand.release(&hash.pooledHandles)\n		} else {")
m("		if hand.obj == nil {\n			// orphaned","		if hand.obj == nil || hand.retains == 1 {\n			// orphaned")
# queryHelper
m("		if hand.stamp == hash.stamp || obj == other {\n			continue","		if hand.stamp == hash.stamp || obj == other {\n			break")
m("		if hand.stamp == hash.stamp || obj == other {","		if obj == other {")
m("		if hand.stamp == hash.stamp || obj == other {","		if hand.stamp == hash.stamp {")
m("		if hand.stamp == hash.stamp || obj == other {","		if hand.stamp >= hash.stamp-1 || obj == other {")
m("			f(obj, other, 0, data)\n			hand.stamp = hash.stamp","			f(obj, other, 0, data)")
m("			f(obj, other, 0, data)\n			hand.stamp = hash.stamp","			f(other, obj.(*Shape), 0, data)\n			hand.stamp = hash.stamp")
m("		} else if other != nil {\n			f(obj, other, 0, data)\n			hand.stamp = hash.stamp\n		} else {\n			hash.removeOrphanedHandles(binPtr)\n			goto restart\n		}","		} else if other != nil {\n			f(obj, other, 0, data)\n			hand.stamp = hash.stamp\n		} else {\n			hash.removeOrphanedHandles(binPtr)\n			return\n		}")
m("			f(obj, other, 0, data)\n			hand.stamp = hash.stamp","			f(obj, other, 0, nil)\n			hand.stamp = hash.stamp")
m("		if hand.stamp == hash.stamp || obj == other {\n			continue\n		}","		if hand.stamp == hash.stamp || obj == other {\n			hand.stamp = hash.stamp\n			continue\n		}") if False else None
m("	if f < 0 && float64(i) != f {","	if f < -1 && float64(i) != f {")
m("	if f < 0 && float64(i) != f {","	if f < 0 {")
m("		return i - 1\n	}\n	return i\n","		return i\n	}\n	return i\n")
# reindexquery
m("func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {\n	hash.clearTable()\n","func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {\n")
m("				if bin.containsHandle(hand) {\n					continue\n				}\n\n				hand.retain()\n				hash.queryHelper","				if bin.containsHandle(hand) {\n					continue\n				}\n\n				hash.queryHelper")
m("				hash.queryHelper(&bin, hand.obj, f, data)\n","				if bin != nil && bin.next != nil {\n					hash.queryHelper(&bin, hand.obj, f, data)\n				}\n")
m("		hash.stamp++\n	})\n","	})\n	hash.stamp++\n")
m("				newBin.next = bin\n				hash.table[idx] = newBin\n			}\n		}\n\n		hash.stamp++","				newBin.next = bin\n				hash.table[idx] = newBin\n				hash.stamp++\n			}\n		}\n")
m("	hash.CollideStatic(hash.staticIndex, f, data)\n}","	hash.CollideStatic(hash.dynamicIndex, f, data)\n}")
m("	hash.CollideStatic(hash.staticIndex, f, data)\n}","}")
m("		bb := hash.SpatialIndex.bbfunc(hand.obj)","		bb := hand.obj.bb")
m("			r := floor(bb.R / hash.celldim)","			r := floor(bb.R / hash.celldim)") if False else None
m("		t := floor(bb.T / hash.celldim)","		t := floor(bb.B / hash.celldim)")
m("	for i := 0; i < hash.numCells; i++ {\n		hash.clearTableCell(i)","	for i := 1; i < hash.numCells; i++ {\n		hash.clearTableCell(i)")
m("	hash.table[idx] = nil\n","	hash.table[idx] = bin\n")
m("		next := bin.next\n\n		bin.handle.release(&hash.pooledHandles)\n		hash.recycleBin(bin)\n\n		bin = next","		bin.handle.release(&hash.pooledHandles)\n		hash.recycleBin(bin)\n\n		bin = bin.next")
m("		bin.handle.release(&hash.pooledHandles)\n		hash.recycleBin(bin)","		bin.handle.release(&hash.pooledHandles)\n		bin.handle.release(&hash.pooledHandles)\n		hash.recycleBin(bin)")
# Query
m("			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)\n		}\n	}\n\n	hash.stamp++","			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)\n		}\n	}\n")
m("			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)\n		}\n	}\n\n	hash.stamp++","			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)\n			hash.stamp++\n		}\n	}\n")
m("hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)","hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j+1), HashValue(n))], obj, f, data)")
m("hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)","hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n-1))], obj, f, data)")
# segment

m("	t := 1.0\n\nrestart:","	t := 0.5\n\nrestart:")
m("restart:\n	for bin := *binPtr; bin != nil; bin = bin.next {\n		hand := bin.handle\n		other := hand.obj\n\n		if hand.stamp == hash.stamp {","	t0 := t\nrestart:\n	t = t0\n	for bin := *binPtr; bin != nil; bin = bin.next {\n		hand := bin.handle\n		other := hand.obj\n\n		if hand.stamp == hash.stamp {") if False else None
m("		if hand.stamp == hash.stamp {\n			continue","		if hand.stamp == hash.stamp || other == nil {\n			break")
m("			t = math.Min(t, f(obj, other, data))\n			hand.stamp = hash.stamp","			t = math.Min(t, f(obj, other, data))")
m("	cellX := int(floor(a.X))","	cellX := int(a.X)")
m("	cellY := int(floor(a.Y))","	cellY := int(floor(a.X))")
m("	b = b.Mult(1.0 / hash.celldim)\n","")
m("		tempH = math.Floor(a.X) + 1.0 - a.X","		tempH = a.X - math.Floor(a.X)")
m("		tempV = a.Y - math.Floor(a.Y)","		tempV = math.Floor(a.Y) + 1.0 - a.Y")
m("		yInc = -1","		yInc = 1")
m("	} else if dx == 0 {\n		nextH = dtdx","	} else {\n		nextH = dtdx")
m("		nextH = tempH * dtdx\n","		nextH = tempH * dtdy\n")
m("	dy := math.Abs(b.Y - a.Y)","	dy := b.Y - a.Y")
m("	for t < t_exit {","	for t < t_exit/2 {")
m("		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data))","		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data)) - dtdx")
m("		idx := hashFunc(HashValue(cellX), HashValue(cellY), HashValue(hash.numCells))\n		t_exit","		idx := hashFunc(HashValue(cellY), HashValue(cellX), HashValue(hash.numCells))\n		t_exit")
m("		if nextV < nextH {","		if nextV > nextH {")
m("			t = nextV\n			nextV += dtdy","			nextV += dtdy\n			t = nextV")
m("			nextH += dtdx\n		}\n	}\n","			nextH += dtdy\n		}\n	}\n")
m("			cellX += xInc","			cellX += yInc")
m("			nextH += dtdx\n		}\n	}\n\n	hash.stamp++","			nextH += dtdx\n		}\n	}\n")
m("			t = nextH\n","			t += dtdx\n")
# bins
m("		hash.pooledBins = bin.next\n		return bin","		return bin")
m("	bin.next = hash.pooledBins\n	hash.pooledBins = bin","	hash.pooledBins = bin")
m("	return &SpaceHashBin{}\n}","	return hash.pooledBins\n}")
m("		table:    make([]*SpaceHashBin, num),","		table:    make([]*SpaceHashBin, num/2),")
m("		stamp:         1,","		stamp:         0,")
m("	return (x*1640531513 ^ y*2654435789) % n","	return (x*1640531513 ^ y*2654435789) & n")
m("	hash.handleSet.Each(func(elt *Handle) {\n		f(elt.obj)","	hash.handleSet.Each(func(elt *Handle) {\n		if elt.retains > 1 {\n			f(elt.obj)\n		}")
m("	return hash.handleSet.Find(hashId, obj) != nil","	return hash.handleSet.Find(hashId, obj) == nil")
# refactorings
r("	l := floor(bb.L / dim)\n	r := floor(bb.R / dim)\n	b := floor(bb.B / dim)\n	t := floor(bb.T / dim)\n\n	n := hash.numCells\n	for i := l; i <= r; i++ {\n		for j := b; j <= t; j++ {\n			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))\n			bin","	l, r := floor(bb.L/dim), floor(bb.R/dim)\n	b, t := floor(bb.B/dim), floor(bb.T/dim)\n\n	n := hash.numCells\n	for j := b; j <= t; j++ {\n		for i := l; i < r+1; i++ {\n			idx := hashFunc(HashValue(i), HashValue(j), HashValue(n))\n			bin")
r("func floor(f float64) int {\n	i := int(f)\n	if f < 0 && float64(i) != f {\n		return i - 1\n	}\n	return i","func floor(f float64) int {\n	i := int(f)\n	if float64(i) != f && f < 0 {\n		i--\n	}\n	return i")
r("func floor(f float64) int {\n	i := int(f)\n	if f < 0 && float64(i) != f {\n		return i - 1\n	}\n	return i","func floor(f float64) int {\n	return int(math.Floor(f))")
r("func floor(f float64) int {\n	i := int(f)\n	if f < 0 && float64(i) != f {\n		return i - 1\n	}\n	return i","func floor(f float64) int {\n	i := int(f)\n	if f < float64(i) {\n		return i - 1\n	}\n	return i")
r("			if bin.containsHandle(hand) {\n				continue\n			}\n\n			hand.retain()\n			newBin := hash.getEmptyBin()\n			newBin.handle = hand\n			newBin.next = bin\n			hash.table[idx] = newBin\n","			if !bin.containsHandle(hand) {\n				newBin := hash.getEmptyBin()\n				newBin.next = bin\n				newBin.handle = hand\n				hash.table[idx] = newBin\n				hand.retain()\n			}\n")
r("				newBin := hash.getEmptyBin()\n				newBin.handle = hand\n				newBin.next = bin\n				hash.table[idx] = newBin\n","				hash.push(idx, bin, hand)\n",[(F,"func (hash *SpaceHash) Query(","func (hash *SpaceHash) push(idx HashValue, next *SpaceHashBin, hand *Handle) {\n	newBin := hash.getEmptyBin()\n	newBin.handle, newBin.next = hand, next\n	hash.table[idx] = newBin\n}\n\nfunc (hash *SpaceHash) Query(")])
r("		if hand.stamp == hash.stamp || obj == other {\n			continue\n		} else if other != nil {\n			f(obj, other, 0, data)\n			hand.stamp = hash.stamp\n		} else {\n			hash.removeOrphanedHandles(binPtr)\n			goto restart\n		}","		if obj == other || hand.stamp == hash.stamp {\n			continue\n		}\n		if other == nil {\n			hash.removeOrphanedHandles(binPtr)\n			goto restart\n		}\n		f(obj, other, 0, data)\n		hand.stamp = hash.stamp")
r("			f(obj, other, 0, data)\n			hand.stamp = hash.stamp","			hand.stamp = hash.stamp\n			f(obj, other, 0, data)")
r("	bin := *binPtr\n	for bin != nil {\n		hand := bin.handle\n		next := bin.next\n","	for bin, next := *binPtr, (*SpaceHashBin)(nil); bin != nil; bin = next {\n		hand := bin.handle\n		next = bin.next\n",[(F,"			binPtr = &bin.next\n		}\n\n		bin = next\n","			binPtr = &bin.next\n		}\n")])
r("		if hand.obj == nil {\n			// orphaned handle\n			*binPtr = bin.next\n			hash.recycleBin(bin)\n\n			hand.release(&hash.pooledHandles)\n		} else {\n			binPtr = &bin.next\n		}\n","		if hand.obj != nil {\n			binPtr = &bin.next\n		} else {\n			*binPtr = next\n			hand.release(&hash.pooledHandles)\n			hash.recycleBin(bin)\n		}\n")
r("	dim := hash.celldim\n	l := floor(bb.L / dim)\n	r := floor(bb.R / dim)\n	b := floor(bb.B / dim)\n	t := floor(bb.T / dim)\n\n	n := hash.numCells\n\n	for i := l; i <= r; i++ {\n		for j := b; j <= t; j++ {\n			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)\n		}\n	}\n","	hash.eachCell(bb, func(idx HashValue) {\n		hash.queryHelper(&hash.table[idx], obj, f, data)\n	})\n",[(F,"func (hash *SpaceHash) Query(","func (hash *SpaceHash) eachCell(bb BB, g func(idx HashValue)) {\n	dim := hash.celldim\n	for i := floor(bb.L / dim); i <= floor(bb.R/dim); i++ {\n		for j := floor(bb.B / dim); j <= floor(bb.T/dim); j++ {\n			g(hashFunc(HashValue(i), HashValue(j), HashValue(hash.numCells)))\n		}\n	}\n}\n\nfunc (hash *SpaceHash) Query(")])
r("	for i := 0; i < hash.numCells; i++ {\n		hash.clearTableCell(i)\n	}","	for i := range hash.table {\n		hash.clearTableCell(i)\n	}")
r("	bin := hash.table[idx]\n	for bin != nil {\n		next := bin.next\n","	bin := hash.table[idx]\n	hash.table[idx] = nil\n	for bin != nil {\n		next := bin.next\n",[(F,"		bin = next\n	}\n\n	hash.table[idx] = nil\n","		bin = next\n	}\n")])
r("	for t < t_exit {\n		idx := hashFunc(HashValue(cellX), HashValue(cellY), HashValue(hash.numCells))\n		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data))\n","	n := HashValue(hash.numCells)\n	for {\n		if t >= t_exit {\n			break\n		}\n		hit := hash.segmentQueryHelper(&hash.table[hashFunc(HashValue(cellX), HashValue(cellY), n)], obj, f, data)\n		if hit < t_exit {\n			t_exit = hit\n		}\n")
r("		if nextV < nextH {\n			cellY += yInc\n			t = nextV\n			nextV += dtdy\n		} else {\n			cellX += xInc\n			t = nextH\n			nextH += dtdx\n		}","		if nextH <= nextV {\n			t = nextH\n			cellX += xInc\n			nextH += dtdx\n		} else {\n			t, cellY = nextV, cellY+yInc\n			nextV += dtdy\n		}")
r("		if nextV < nextH {","		if nextV <= nextH {")
r("	var nextH, nextV float64\n	if tempH != 0 {\n		nextH = tempH * dtdx\n	} else if dx == 0 {\n		nextH = dtdx\n	}","	var nextH, nextV float64\n	if dx == 0 {\n		nextH = INFINITY\n	} else {\n		nextH = tempH * dtdx\n	}")
r("			t = math.Min(t, f(obj, other, data))\n			hand.stamp = hash.stamp","			if x := f(obj, other, data); x < t {\n				t = x\n			}\n			hand.stamp = hash.stamp")
r("	bin := hash.pooledBins\n\n	if bin != nil {\n		hash.pooledBins = bin.next\n		return bin\n	}\n","	if bin := hash.pooledBins; bin != nil {\n		hash.pooledBins = bin.next\n		bin.next = nil\n		return bin\n	}\n")
r("	hand := hash.handleSet.Remove(hashId, obj)\n\n	if hand != nil {\n		hand.obj = nil\n		hand.release(&hash.pooledHandles)\n\n		hash.Insert(obj, hashId)\n	}","	if hash.Contains(obj, hashId) {\n		hash.Remove(obj, hashId)\n		hash.Insert(obj, hashId)\n	}")
r("	hand := hash.handleSet.Remove(hashId, obj)\n\n	if hand != nil {\n		hand.obj = nil\n		hand.release(&hash.pooledHandles)\n\n		hash.Insert(obj, hashId)\n	}","	hand := hash.handleSet.Remove(hashId, obj)\n	if hand == nil {\n		return\n	}\n	hash.orphan(hand)\n	hash.Insert(obj, hashId)",[(F,"func (hash *SpaceHash) Query(","func (hash *SpaceHash) orphan(hand *Handle) {\n	hand.obj = nil\n	hand.release(&hash.pooledHandles)\n}\n\nfunc (hash *SpaceHash) Query(")])
