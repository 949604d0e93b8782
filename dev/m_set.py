F='hashset.go'
M('C40',F,'bin.next = set.table[idx]\n\tset.table[idx] = bin','bin.next = nil\n\tset.table[idx] = bin')
M('C40',F,'	bin.hash = hash\n','')
M('C40',F,'	set.entries++\n','	set.entries += 2\n')
M('C40',F,'set.entries++\n\tif set.entries','if set.entries')
M('C40',F,'			bin.next = newTable[idx]\n','			bin.next = set.table[idx]\n')
M('C40',F,'			bin.next = newTable[idx]\n','')
M('C40',F,'idx := uint(bin.hash) % newSize','idx := uint(bin.hash) % set.size')
M('C40',F,'	set.size = newSize\n','')
M('C40',F,'for i = 0; i < set.size; i++ {\n		bin','for i = 1; i < set.size; i++ {\n		bin')
M('C40',F,'		prevPtr = &bin.next\n		bin = bin.next','		bin = bin.next')
M('C40',F,'		*prevPtr = bin.next\n		set.entries--\n','		*prevPtr = bin.next\n')
M('C40',F,'		elt := bin.elt\n		set.recycle(bin)\n\n		return elt','		set.recycle(bin)\n\n		return bin.elt')
M('C40',F,'			next := bin.next\n			f(bin.elt)\n			bin = next','			f(bin.elt)\n			bin = bin.next')
M('C40',F,'''			if f(bin.elt) {
				prevPtr = &bin.next
			} else {''','''			if f(bin.elt) {
			} else {''')
M('C40',F,'				*prevPtr = next\n\n				set.entries--\n','				*prevPtr = next\n				prevPtr = &bin.next\n				set.entries--\n')
M('C40',F,'				set.entries--\n				set.recycle(bin)','				set.recycle(bin)')
M('C40',F,'if f(bin.elt) {','if !f(bin.elt) {')
M('C40',F,'		set.pooledBins = bin.next\n		return bin','		return bin')
M('C40',F,'	return &HashSetBin[U]{}\n}','	return set.pooledBins\n}')
M('C40',F,'	bin.next = set.pooledBins\n	set.pooledBins','	set.pooledBins')
M('C40',F,'''	for bin != nil && !set.isEqual(ptr, bin.elt) {
		bin = bin.next
	}

	if bin != nil {
		return bin.elt
	}
	var''','''	for bin != nil && bin.hash != hash {
		bin = bin.next
	}

	if bin != nil {
		return bin.elt
	}
	var''')
M('C40',F,'''	for bin != nil && !set.isEqual(ptr, bin.elt) {
		bin = bin.next
	}

	if bin != nil {
		return bin.elt
	}
	var''','''	for bin != nil && bin.next != nil && !set.isEqual(ptr, bin.elt) {
		bin = bin.next
	}

	if bin != nil {
		return bin.elt
	}
	var''')
M('C40',F,'''	if set.entries >= set.size {
		set.resize()
	}

	return bin.elt''','''	if set.entries >= set.size {
		set.resize()
		bin = set.table[idx]
	}

	return bin.elt''')
M('C40',F,'	bin.elt = transform(ptr)\n\n	bin.next = set.table[idx]\n	set.table[idx] = bin\n','	bin.next = set.table[idx]\n	set.table[idx] = bin\n	bin.elt = transform(ptr)\n',[(F,'	bin = set.getUnusedBin()\n	bin.hash = hash','	bin = set.getUnusedBin()')])
M('C40',F,'		size:    size,\n','		size:    size + 1,\n')
M('C40',F,'table:   make([]*HashSetBin[U], size)','table:   make([]*HashSetBin[U], 4, size)')
R('C40',F,'	for _, bin := range set.table {\n','	for i := 0; i < len(set.table); i++ {\n		bin := set.table[i]\n')
R('C40',F,'	for i = 0; i < set.size; i++ {\n		bin := set.table[i]\n','	_ = i\n	for _, bin := range set.table {\n')
R('C40',F,'''	bin := set.table[idx]
	prevPtr := &set.table[idx]

	// Find the bin
	for bin != nil && !set.isEqual(ptr, bin.elt) {
		prevPtr = &bin.next
		bin = bin.next
	}
''','''	prevPtr := &set.table[idx]
	for *prevPtr != nil && !set.isEqual(ptr, (*prevPtr).elt) {
		prevPtr = &(*prevPtr).next
	}
	bin := *prevPtr
''')
R('C40',F,'''	idx := uint(hash) % set.size
	bin := set.table[idx]
	for bin != nil && !set.isEqual(ptr, bin.elt) {
		bin = bin.next
	}

	if bin != nil {
		return bin.elt
	}
	var zero U
	return zero
''','''	for bin := set.table[uint(hash)%uint(len(set.table))]; bin != nil; bin = bin.next {
		if set.isEqual(ptr, bin.elt) {
			return bin.elt
		}
	}
	var zero U
	return zero
''')
R('C40',F,'''	bin := set.table[idx]
	for bin != nil && !set.isEqual(ptr, bin.elt) {
		bin = bin.next
	}

	if bin != nil {
		return bin.elt
	}

	// Create''','''	for bin := set.table[idx]; bin != nil; bin = bin.next {
		if set.isEqual(ptr, bin.elt) {
			return bin.elt
		}
	}
	var bin *HashSetBin[U]

	// Create''')
R('C40',F,'''	for i := 0; i < POOLED_BUFFER_SIZE; i++ {
		set.recycle(&HashSetBin[U]{})
	}

	return &HashSetBin[U]{}''','''	return &HashSetBin[U]{}''')
R('C40',F,'''	bin := set.pooledBins

	if bin != nil {
		set.pooledBins = bin.next
		return bin
	}

	for i := 0; i < POOLED_BUFFER_SIZE; i++ {
		set.recycle(&HashSetBin[U]{})
	}

	return &HashSetBin[U]{}''','''	if set.pooledBins == nil {
		for i := 0; i < POOLED_BUFFER_SIZE; i++ {
			set.recycle(&HashSetBin[U]{})
		}
	}
	bin := set.pooledBins
	set.pooledBins = bin.next
	return bin''')
R('C40',F,'''			next := bin.next

			if f(bin.elt) {
				prevPtr = &bin.next
			} else {
				*prevPtr = next

				set.entries--
				set.recycle(bin)
			}

			bin = next
''','''			next := bin.next
			keep := f(bin.elt)
			if !keep {
				*prevPtr = next
				set.recycle(bin)
				set.entries--
				bin = next
				continue
			}
			prevPtr = &bin.next
			bin = bin.next
''')
R('C40',F,'''	set.entries++
	if set.entries >= set.size {
		set.resize()
	}

	return bin.elt
''','''	elt := bin.elt
	set.entries++
	if set.size <= set.entries {
		set.resize()
	}

	return elt
''')
R('C40',F,'''	set.table = newTable
	set.size = newSize
''','''	set.size = newSize
	set.table = newTable
''')
R('C40',F,'''	bin.hash = hash
	bin.elt = transform(ptr)

	bin.next = set.table[idx]
	set.table[idx] = bin

	set.entries++
''','''	set.entries++
	bin.elt = transform(ptr)
	bin.next = set.table[idx]
	bin.hash = hash
	set.table[idx] = bin
''')
R('C40',F,'''	var i uint
	for i = 0; i < set.size; i++ {
		prevPtr''','''	for i := range set.table {
		prevPtr''')
