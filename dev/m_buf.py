ALL='C25'
M(ALL, 'arbiter.go', '	arb.contacts = info.arr[:info.count]\n', '')
M(ALL, 'arbiter.go', '	arb.contacts = info.arr[:info.count]\n', '	arb.contacts = info.arr\n')
M('C06', 'space.go', '			copy(arbiter.contacts, contacts)\n', '			_ = contacts\n')
M('C06', 'space.go', '			arbiter.contacts = space.ContactBufferGetArray()[:numContacts]', '			arbiter.contacts = space.ContactBufferGetArray()[:1]')
M('C06', 'space.go', '			space.PushContacts(numContacts)\n', '')
M('C06', 'space.go', '			copy(contacts, arb.contacts[:arb.count])\n', '')
M('C06', 'space.go', '			arb.contacts = contacts\n', '')
M(ALL, 'space.go', '	if space.contactBuffersHead.numContacts+MAX_CONTACTS_PER_ARBITER > CONTACTS_BUFFER_SIZE {', '	if space.contactBuffersHead.numContacts+MAX_CONTACTS_PER_ARBITER > CONTACTS_BUFFER_SIZE+1 {')
M(ALL, 'space.go', 'stamp-head.next.stamp > space.collisionPersistence', 'stamp-head.next.stamp >= space.collisionPersistence')
M(ALL, 'space.go', 'stamp-head.next.stamp > space.collisionPersistence', 'stamp-head.stamp > space.collisionPersistence')
M(ALL, 'space.go', '		head.next = buffer\n', '')
M(ALL, 'contactbuffer.go', '		c.next = splice.next\n', '		c.next = splice\n')
M(ALL, 'contactbuffer.go', '	c.stamp = stamp\n', '')
M(ALL, 'contactbuffer.go', '	c.numContacts = 0\n', '')
M(ALL, 'contactbuffer.go', '		c.next = c\n', '')
M(ALL, 'space.go', 'space.contactBuffersHead = tail.InitHeader(stamp, tail)', 'tail.InitHeader(stamp, tail)')
M(ALL, 'space.go', 'head.contacts[head.numContacts : head.numContacts+MAX_CONTACTS_PER_ARBITER]', 'head.contacts[head.numContacts/2*2 : head.numContacts/2*2+MAX_CONTACTS_PER_ARBITER]')
M(ALL, 'everything.go', '	con.r1 = p1\n', '')
M(ALL, 'everything.go', '	con.hash = hash\n', '')
M(ALL, 'everything.go', '	info.count++\n', '')
M(ALL, 'space.go', '	space.PushFreshContactBuffer()\n', '')
M(ALL, 'space.go', '	space.contactBuffersHead.numContacts -= count', '	space.contactBuffersHead.numContacts -= 1')
R(ALL, 'space.go', '			copy(arbiter.contacts, contacts)\n', '			for i := range contacts {\n				arbiter.contacts[i] = contacts[i]\n			}\n')
R(ALL, 'space.go', '	head := space.contactBuffersHead\n	return head.contacts[head.numContacts : head.numContacts+MAX_CONTACTS_PER_ARBITER]', '	head := space.contactBuffersHead\n	n := head.numContacts\n	return head.contacts[n:][:MAX_CONTACTS_PER_ARBITER]')
M(ALL, 'contactbuffer.go', '	if splice != nil {\n		c.next = splice.next\n	} else {\n		c.next = c\n	}\n', '	c.next = c\n	if splice != nil {\n		c.next = splice.next\n	}\n')

M(ALL, 'collision.go', '		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)\n', '		for i := 0; i < 3; i++ {\n			info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)\n		}\n')
M(ALL, 'collision.go', '			info.PushContact(p1, p2, hash1b2a)\n', '			info.PushContact(p1, p2, hash1b2a)\n			if dist < -mindist {\n				info.PushContact(p1.Lerp(p2, 0.5), p2, hash1b2a)\n			}\n')
M(ALL, 'space.go', '		buffer := NewContactBuffer(stamp, head)\n', '		buffer := NewContactBuffer(stamp, nil)\n')
M(ALL, 'space.go', '	} else if stamp-head.next.stamp > space.collisionPersistence {', '	} else if head.next != head && stamp-head.next.stamp > 1 {')
R(ALL, 'space.go', '	} else if stamp-head.next.stamp > space.collisionPersistence {\n		tail := head.next\n', '	} else if tail := head.next; tail.stamp+space.collisionPersistence < stamp {\n')
R(ALL, 'space.go', '	if space.contactBuffersHead.numContacts+MAX_CONTACTS_PER_ARBITER > CONTACTS_BUFFER_SIZE {', '	if CONTACTS_BUFFER_SIZE-space.contactBuffersHead.numContacts < MAX_CONTACTS_PER_ARBITER {')
R(ALL, 'everything.go', '	con := &info.arr[info.count]\n	con.r1 = p1\n	con.r2 = p2\n	con.hash = hash\n\n	info.count++\n', '	n := info.count\n	info.count = n + 1\n	info.arr[n].r1, info.arr[n].r2 = p1, p2\n	info.arr[n].hash = hash\n')
R(ALL, 'arbiter.go', '	arb.contacts = info.arr[:info.count]\n	arb.count = info.count\n', '	arb.count = info.count\n	arb.contacts = info.arr[0:arb.count]\n')
R(ALL, 'space.go', '		// Allocate a new buffer and push it into the ring\n		buffer := NewContactBuffer(stamp, head)\n		head.next = buffer\n		space.contactBuffersHead = buffer\n', '		buffer := &ContactBuffer{stamp: stamp, next: head.next}\n		space.contactBuffersHead = buffer\n		head.next = buffer\n')
