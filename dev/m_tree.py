F='bbtree.go'
P='C32'
M(P,F,'	if subtree.bb.Intersects(bb) {\n		if subtree.IsLeaf() {\n			query','	if bb.Contains(subtree.bb) {\n		if subtree.IsLeaf() {\n			query')
M(P,F,'			subtree.b.SubtreeQuery(obj, bb, query, data)\n','')
M(P,F,'			subtree.b.SubtreeQuery(obj, bb, query, data)\n','			subtree.a.SubtreeQuery(obj, bb, query, data)\n')
M(P,F,'			subtree.b.SubtreeQuery(obj, bb, query, data)\n','			subtree.b.SubtreeQuery(obj, subtree.a.bb, query, data)\n')
M(P,F,'			query(obj, subtree.obj, 0, data)','			query(subtree.obj, subtree.obj, 0, data)')
M(P,F,'''		if tA < t_exit {
			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tB < t_exit {''','''		if tA < t_exit {
			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		} else if tB < t_exit {''')
M(P,F,'''		if tB < t_exit {
			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tA''','''		if tB < t_exit {
			t_exit = subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data)
		}
		if tA''')
M(P,F,'	tB := subtree.b.bb.SegmentQuery(a, b)','	tB := subtree.a.bb.SegmentQuery(a, b)')
M(P,F,'	tB := subtree.b.bb.SegmentQuery(a, b)','	tB := subtree.b.bb.SegmentQuery(b, a)')
M(P,F,'	if tA < tB {\n		if tA < t_exit {','	if tA < tB {\n		if tA < t_exit/2 {')
M(P,F,'	node.bb = a.bb.Merge(b.bb)','	node.bb = a.bb')
M(P,F,'	node.obj = nil\n','')
M(P,F,'	node.bb = a.bb.Merge(b.bb)\n	node.parent = nil\n','	node.bb = a.bb.Merge(b.bb)\n')
M(P,F,'	NodeSetB(node, b)\n	return node','	node.b = b\n	return node')
M(P,F,'	node.stamp = 0\n	node.pairs = nil','	node.stamp = 0')
M(P,F,'	node.bb = tree.GetBB(obj)\n	node.parent = nil','	node.bb = tree.GetBB(obj)')
M(P,F,'	node.bb = tree.GetBB(obj)\n','	node.bb = tree.spatialIndex.bbfunc(nil)\n')
M(P,F,'bb.L + math.Min(-x, v.X)','bb.L + v.X')
M(P,F,'bb.R + math.Max(x, v.X)','bb.R + math.Min(x, v.X)')
M(P,F,'bb.T + math.Max(y, v.Y)','bb.B + math.Max(y, v.Y)')
M(P,F,'	subtree.bb = subtree.bb.Merge(leaf.bb)\n','')
M(P,F,'	subtree.bb = subtree.bb.Merge(leaf.bb)\n','	subtree.bb = leaf.bb\n')
M(P,F,'NodeSetB(subtree, tree.SubtreeInsert(subtree.b, leaf))','tree.SubtreeInsert(subtree.b, leaf)')
M(P,F,'NodeSetB(subtree, tree.SubtreeInsert(subtree.b, leaf))','NodeSetA(subtree, tree.SubtreeInsert(subtree.b, leaf))')
M(P,F,'NodeSetA(subtree, tree.SubtreeInsert(subtree.a, leaf))','NodeSetA(subtree, tree.SubtreeInsert(subtree.b, leaf))')
M(P,F,'return tree.NewNode(leaf, subtree)','return tree.NewNode(leaf, subtree.parent)')
M(P,F,'		other.parent = subtree.parent\n','')
M(P,F,'		other.parent = subtree.parent\n		tree.RecycleNode(subtree)\n','		tree.RecycleNode(subtree)\n		other.parent = subtree.parent\n')
M(P,F,'	tree.ReplaceChild(parent.parent, parent, parent.Other(leaf))','	tree.ReplaceChild(parent.parent, parent, leaf)')
M(P,F,'	for node := parent; node != nil; node = node.parent {\n		node.bb','	for node := parent; node.parent != nil; node = node.parent {\n		node.bb')
M(P,F,'	for node := parent; node != nil; node = node.parent {\n		node.bb = node.a.bb.Merge(node.b.bb)\n	}\n','	parent.bb = parent.a.bb.Merge(parent.b.bb)\n')
M(P,F,'		node.bb = node.a.bb.Merge(node.b.bb)\n','		node.bb = node.b.bb.Merge(node.b.bb)\n')
M(P,F,'''		tree.RecycleNode(parent.a)
		NodeSetA(parent, value)''','''		tree.RecycleNode(parent.a)
		NodeSetB(parent, value)''')
M(P,F,'	if node.a == child {\n		return node.b\n	}\n	return node.a','	if node.a == child {\n		return node.a\n	}\n	return node.b')
M(P,F,'	pair.b = Thread{prev: nil, next: nextB, leaf: b}','	pair.b = Thread{prev: nil, next: nextA, leaf: b}')
M(P,F,'	pair.b = Thread{prev: nil, next: nextB, leaf: b}','	pair.b = Thread{prev: nil, next: nextB, leaf: a}')
M(P,F,'	b.pairs = pair\n\n','\n')
M(P,F,'	pair.collisionId = 0\n','')
M(P,F,'''		if nextB.a.leaf == b {
			nextB.a.prev = pair''','''		if nextB.b.leaf == b {
			nextB.a.prev = pair''')
M(P,F,'''	if nextB != nil {
		if nextB.a.leaf == b {''','''	if nextB != nil && nextA != nil {
		if nextB.a.leaf == b {''')
M(P,F,'		tree.pooledPairs = pair.a.next\n','')
M(P,F,'		tree.pooledPairs = pair.a.next\n','		tree.pooledPairs = pair.b.next\n')
M(P,F,'''			next.a.prev = prev
''','''			next.b.prev = prev
''')
M(P,F,'''			prev.b.next = next
''','''			prev.b.next = nil
''')
M(P,F,'''	} else {
		thread.leaf.pairs = next
	}''','''	}''')
M(P,F,'''	} else {
		thread.leaf.pairs = next
	}''','''	}
	thread.leaf.pairs = next''')
M(P,F,'	leaf.pairs = nil\n','')
M(P,F,'''			next := pair.b.next
			pair.a.Unlink()
''','''			next := pair.b.next
''')
M(P,F,'''			next := pair.a.next
			pair.b.Unlink()
			tree.RecyclePair(pair)
			pair = next''','''			pair.b.Unlink()
			tree.RecyclePair(pair)
			pair = pair.a.next''')
M(P,F,'''			next := pair.a.next
			pair.b.Unlink()''','''			next := pair.b.next
			pair.b.Unlink()''')
M(P,F,'''			next := pair.a.next
			pair.b.Unlink()''','''			next := pair.a.next
			pair.a.Unlink()''')
M(P,F,'if subtree.stamp < leaf.stamp {','if subtree.stamp <= leaf.stamp {')
M(P,F,'if subtree.stamp < leaf.stamp {','if subtree.stamp > leaf.stamp {')
M(P,F,'context.tree.PairInsert(leaf, subtree)','context.tree.PairInsert(subtree, leaf)')
M(P,F,'''					context.tree.PairInsert(subtree, leaf)
				}
				context.f(leaf.obj, subtree.obj, 0, context.data)''','''					context.tree.PairInsert(subtree, leaf)
					context.f(leaf.obj, subtree.obj, 0, context.data)
				}''')
M(P,F,'context.f(leaf.obj, subtree.obj, 0, context.data)','context.f(leaf.obj, leaf.obj, 0, context.data)')
M(P,F,'			subtree.b.MarkLeafQuery(leaf, left, context)\n','			subtree.b.MarkLeafQuery(leaf, true, context)\n')
M(P,F,'			subtree.b.MarkLeafQuery(leaf, left, context)\n','')
M(P,F,'	if leaf.bb.Intersects(subtree.bb) {','	if leaf.bb.Contains(subtree.bb) {')
M(P,F,'		subtree.a.MarkSubtree(context)\n		subtree.b.MarkSubtree(context)\n','		subtree.b.MarkSubtree(context)\n		subtree.a.MarkSubtree(context)\n')
M(P,F,'		subtree.a.MarkSubtree(context)\n','')
M(P,F,'''				node.parent.b.MarkLeafQuery(leaf, true, context)
			} else {
				node.parent.a.MarkLeafQuery(leaf, false, context)''','''				node.parent.b.MarkLeafQuery(leaf, false, context)
			} else {
				node.parent.a.MarkLeafQuery(leaf, true, context)''')
M(P,F,'for node := leaf; node.parent != nil; node = node.parent {','for node := leaf; node.parent != nil && node.parent.parent != nil; node = node.parent {')
M(P,F,'staticRoot.MarkLeafQuery(leaf, false, context)','staticRoot.MarkLeafQuery(leaf, true, context)')
M(P,F,'if leaf.stamp == tree.GetMasterTree().stamp {','if leaf.stamp == tree.stamp {')
M(P,F,'pair.collisionId = context.f(pair.a.leaf.obj, leaf.obj, pair.collisionId, context.data)','pair.collisionId = context.f(pair.a.leaf.obj, leaf.obj, 0, context.data)')
M(P,F,'pair.collisionId = context.f(pair.a.leaf.obj, leaf.obj, pair.collisionId, context.data)','context.f(pair.a.leaf.obj, leaf.obj, pair.collisionId, context.data)')
M(P,F,'				pair = pair.b.next\n			} else {','				pair = pair.a.next\n			} else {')
M(P,F,'			if leaf == pair.b.leaf {','			if leaf == pair.a.leaf {')
M(P,F,'			dynamicRoot.MarkLeafQuery(leaf, true, context)','			dynamicRoot.MarkLeafQuery(leaf, false, context)')
M(P,F,'context := &MarkContext{dynamicTree, nil, nil, nil}','_ = dynamicTree\n			context := &MarkContext{nil, nil, nil, nil}')
M(P,F,'context := &MarkContext{tree, staticRoot, VoidQueryFunc, nil}','_ = staticRoot\n		context := &MarkContext{tree, nil, VoidQueryFunc, nil}')
M(P,F,'context := &MarkContext{tree, staticRoot, f, data}','context := &MarkContext{tree, nil, f, data}')
M(P,F,'context := &MarkContext{tree, staticRoot, f, data}','context := &MarkContext{tree, staticRoot, VoidQueryFunc, data}')
M(P,F,'''	tree.root.MarkSubtree(context)

''','''	tree.IncrementStamp()
	tree.root.MarkSubtree(context)

''',[(F,'''		tree.spatialIndex.CollideStatic(staticIndex, f, data)
	}

	tree.IncrementStamp()
''','''		tree.spatialIndex.CollideStatic(staticIndex, f, data)
	}
''')])
M(P,F,'''		tree.spatialIndex.CollideStatic(staticIndex, f, data)
	}

	tree.IncrementStamp()
''','''		tree.spatialIndex.CollideStatic(staticIndex, f, data)
	}
''')
M(P,F,'''	// LeafUpdate() may modify tree->root. Don't cache it.
''','''	root := tree.root
''',[(F,'	tree.root.MarkSubtree(context)','	root.MarkSubtree(context)')])
M(P,F,'''	tree.leaves.Each(func(leaf *Node) {
		tree.LeafUpdate(leaf)
	})

''','')
M(P,F,'	if !leaf.bb.Contains(bb) {','	if !leaf.bb.Intersects(bb) {')
M(P,F,'		leaf.bb = tree.GetBB(leaf.obj)\n\n','')
M(P,F,'		leaf.bb = tree.GetBB(leaf.obj)\n','		leaf.bb = bb\n')
M(P,F,'		tree.root = tree.SubtreeInsert(root, leaf)\n\n		tree.PairsClear(leaf)\n','		tree.root = tree.SubtreeInsert(root, leaf)\n\n')
M(P,F,'		tree.root = tree.SubtreeInsert(root, leaf)\n\n		tree.PairsClear','		tree.SubtreeInsert(root, leaf)\n\n		tree.PairsClear')
M(P,F,'		root = tree.SubtreeRemove(root, leaf)\n','		tree.SubtreeRemove(root, leaf)\n')
M(P,F,'		leaf.stamp = tree.GetMasterTree().stamp\n		return true','		leaf.stamp = tree.stamp\n		return true')
M(P,F,'		leaf.stamp = tree.GetMasterTree().stamp\n		return true','		leaf.stamp = tree.GetMasterTree().stamp\n		return false')
M(P,F,'''		if tree.LeafUpdate(leaf) {
			tree.LeafAddPairs(leaf)
		}
		tree.IncrementStamp()''','''		if tree.LeafUpdate(leaf) {
			tree.IncrementStamp()
			tree.LeafAddPairs(leaf)
		}''')
M(P,F,'''		if tree.LeafUpdate(leaf) {
			tree.LeafAddPairs(leaf)
		}''','''		tree.LeafUpdate(leaf)''')
M(P,F,'''	leaf.stamp = tree.GetMasterTree().stamp
	tree.LeafAddPairs(leaf)
	tree.IncrementStamp()''','''	leaf.stamp = tree.GetMasterTree().stamp
	tree.IncrementStamp()
	tree.LeafAddPairs(leaf)''')
M(P,F,'''	leaf.stamp = tree.GetMasterTree().stamp
	tree.LeafAddPairs(leaf)
	tree.IncrementStamp()''','''	tree.LeafAddPairs(leaf)
	leaf.stamp = tree.GetMasterTree().stamp
	tree.IncrementStamp()''')
M(P,F,'''	leaf.stamp = tree.GetMasterTree().stamp
	tree.LeafAddPairs(leaf)
	tree.IncrementStamp()''','''	leaf.stamp = tree.GetMasterTree().stamp
	tree.LeafAddPairs(leaf)''')
M(P,F,'	tree.root = tree.SubtreeRemove(tree.root, leaf)\n	tree.PairsClear(leaf)\n','	tree.root = tree.SubtreeRemove(tree.root, leaf)\n')
M(P,F,'	tree.root = tree.SubtreeRemove(tree.root, leaf)\n	tree.PairsClear(leaf)\n','	tree.SubtreeRemove(tree.root, leaf)\n	tree.PairsClear(leaf)\n')
M(P,F,'		dynamicTree.stamp++\n	} else {\n		tree.stamp++\n','		dynamicTree.stamp++\n	} else {\n')
M(P,F,'		dynamicTree.stamp++\n','		tree.stamp++\n')
M(P,F,'		tree.pooledNodes = node.parent\n		return node','		return node')
M(P,'spatialindex.go','		staticIndex.dynamicIndex = index\n','		index.dynamicIndex = staticIndex\n')
M(P,F,'	bbtree.spatialIndex = NewSpatialIndex(bbtree, bbfunc, staticIndex)\n	return','	bbtree.spatialIndex = NewSpatialIndex(bbtree, bbfunc, nil)\n	return')
M(P,F,'return tree.leaves.Find(hashId, obj) != nil','return tree.leaves.Find(0, obj) != nil')
# same behaviour
R(P,F,'''	if subtree.bb.Intersects(bb) {
		if subtree.IsLeaf() {
			query(obj, subtree.obj, 0, data)
		} else {
			subtree.a.SubtreeQuery(obj, bb, query, data)
			subtree.b.SubtreeQuery(obj, bb, query, data)
		}
	}
''','''	for subtree.bb.Intersects(bb) {
		if subtree.IsLeaf() {
			query(obj, subtree.obj, 0, data)
			return
		}
		subtree.a.SubtreeQuery(obj, bb, query, data)
		subtree = subtree.b
	}
''')
R(P,F,'''	if subtree.bb.Intersects(bb) {
		if subtree.IsLeaf() {
			query(obj, subtree.obj, 0, data)
		} else {
			subtree.a.SubtreeQuery(obj, bb, query, data)
			subtree.b.SubtreeQuery(obj, bb, query, data)
		}
	}
''','''	if !subtree.bb.Intersects(bb) {
		return
	}
	if subtree.obj != nil {
		query(obj, subtree.obj, 0, data)
		return
	}
	for _, child := range []*Node{subtree.a, subtree.b} {
		child.SubtreeQuery(obj, bb, query, data)
	}
''')
R(P,F,'''	if tA < tB {
		if tA < t_exit {
			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tB < t_exit {
			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
	} else {
		if tB < t_exit {
			t_exit = math.Min(t_exit, subtree.b.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tA < t_exit {
			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
	}
''','''	first, second := subtree.a, subtree.b
	if tB <= tA {
		first, second = second, first
		tA, tB = tB, tA
	}
	if tA < t_exit {
		t_exit = math.Min(t_exit, first.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
	}
	if tB < t_exit {
		t_exit = math.Min(t_exit, second.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
	}
''')
R(P,F,'''		if tA < t_exit {
			t_exit = math.Min(t_exit, subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data))
		}
		if tB < t_exit {''','''		if tA < t_exit {
			if t := subtree.a.SubtreeSegmentQuery(obj, a, b, t_exit, f, data); t < t_exit {
				t_exit = t
			}
		}
		if tB < t_exit {''')
R(P,F,'''	if cost_b < cost_a {
		NodeSetB(subtree, tree.SubtreeInsert(subtree.b, leaf))
	} else {
		NodeSetA(subtree, tree.SubtreeInsert(subtree.a, leaf))
	}

	subtree.bb = subtree.bb.Merge(leaf.bb)
''','''	subtree.bb = subtree.bb.Merge(leaf.bb)
	if cost_a <= cost_b {
		subtree.a = tree.SubtreeInsert(subtree.a, leaf)
		subtree.a.parent = subtree
	} else {
		subtree.b = tree.SubtreeInsert(subtree.b, leaf)
		subtree.b.parent = subtree
	}
''')
R(P,F,'	subtree.bb = subtree.bb.Merge(leaf.bb)\n','	subtree.bb = subtree.a.bb.Merge(subtree.b.bb)\n')
R(P,F,'''		other := subtree.Other(leaf)
		other.parent = subtree.parent
''','''		other := subtree.a
		if other == leaf {
			other = subtree.b
		}
		other.parent = subtree.parent
''')
R(P,F,'''	if parent.a == child {
		tree.RecycleNode(parent.a)
		NodeSetA(parent, value)
	} else {
		tree.RecycleNode(parent.b)
		NodeSetB(parent, value)
	}
''','''	if parent.a == child {
		NodeSetA(parent, value)
	} else {
		NodeSetB(parent, value)
	}
	tree.RecycleNode(child)
''')
R(P,F,'''	for node := parent; node != nil; node = node.parent {
		node.bb''','''	for node := parent; ; node = node.parent {
		if node == nil {
			break
		}
		node.bb''')
R(P,F,'''		for node := leaf; node.parent != nil; node = node.parent {
			if node == node.parent.a {
				node.parent.b.MarkLeafQuery(leaf, true, context)
			} else {
				node.parent.a.MarkLeafQuery(leaf, false, context)
			}
		}
''','''		node := leaf
		for parent := node.parent; parent != nil; parent = parent.parent {
			if node == parent.a {
				parent.b.MarkLeafQuery(leaf, true, context)
			} else {
				parent.a.MarkLeafQuery(leaf, false, context)
			}
			node = parent
		}
''')
R(P,F,'''			if node == node.parent.a {
				node.parent.b.MarkLeafQuery(leaf, true, context)
			} else {
				node.parent.a.MarkLeafQuery(leaf, false, context)
			}
''','''			node.parent.Other(node).MarkLeafQuery(leaf, node == node.parent.a, context)
''')
R(P,F,'''		pair := leaf.pairs
		for pair != nil {
			if leaf == pair.b.leaf {
				pair.collisionId = context.f(pair.a.leaf.obj, leaf.obj, pair.collisionId, context.data)
				pair = pair.b.next
			} else {
				pair = pair.a.next
			}
		}
''','''		for pair := leaf.pairs; pair != nil; {
			if pair.a.leaf == leaf {
				pair = pair.a.next
				continue
			}
			pair.collisionId = context.f(pair.a.leaf.obj, leaf.obj, pair.collisionId, context.data)
			pair = pair.b.next
		}
''')
R(P,F,'''				if subtree.stamp < leaf.stamp {
					context.tree.PairInsert(subtree, leaf)
				}
				context.f(leaf.obj, subtree.obj, 0, context.data)
''','''				older := leaf.stamp > subtree.stamp
				context.f(leaf.obj, subtree.obj, 0, context.data)
				if older {
					context.tree.PairInsert(subtree, leaf)
				}
''')
R(P,F,'''	if nextA != nil {
		if nextA.a.leaf == a {
			nextA.a.prev = pair
		} else {
			nextA.b.prev = pair
		}
	}

	if nextB != nil {
		if nextB.a.leaf == b {
			nextB.a.prev = pair
		} else {
			nextB.b.prev = pair
		}
	}
}
''','''	setPrev(nextA, a, pair)
	setPrev(nextB, b, pair)
}

func setPrev(next *Pair, leaf *Node, prev *Pair) {
	if next == nil {
		return
	}
	t := &next.b
	if next.a.leaf == leaf {
		t = &next.a
	}
	t.prev = prev
}
''')
R(P,F,'''		if pair.a.leaf == leaf {
			next := pair.a.next
			pair.b.Unlink()
			tree.RecyclePair(pair)
			pair = next
		} else {
			next := pair.b.next
			pair.a.Unlink()
			tree.RecyclePair(pair)
			pair = next
		}
''','''		own, other := &pair.a, &pair.b
		if pair.a.leaf != leaf {
			own, other = other, own
		}
		next := own.next
		other.Unlink()
		tree.RecyclePair(pair)
		pair = next
''')
R(P,F,'''	if !leaf.bb.Contains(bb) {
		leaf.bb = tree.GetBB(leaf.obj)

		root = tree.SubtreeRemove(root, leaf)
		tree.root = tree.SubtreeInsert(root, leaf)

		tree.PairsClear(leaf)
		leaf.stamp = tree.GetMasterTree().stamp
		return true
	}

	return false
''','''	if leaf.bb.Contains(bb) {
		return false
	}
	tree.PairsClear(leaf)
	leaf.stamp = tree.GetMasterTree().stamp
	root = tree.SubtreeRemove(root, leaf)
	leaf.bb = tree.GetBB(leaf.obj)
	tree.root = tree.SubtreeInsert(root, leaf)
	return true
''')
R(P,F,'''	leaf := tree.leaves.Find(hashId, obj)
	if leaf != nil {
		if tree.LeafUpdate(leaf) {
			tree.LeafAddPairs(leaf)
		}
		tree.IncrementStamp()
	}
''','''	leaf := tree.leaves.Find(hashId, obj)
	if leaf == nil {
		return
	}
	moved := tree.LeafUpdate(leaf)
	if moved {
		tree.LeafAddPairs(leaf)
		tree.IncrementStamp()
	}
''')
R(P,F,'	tree.root = tree.SubtreeRemove(tree.root, leaf)\n	tree.PairsClear(leaf)\n','	tree.PairsClear(leaf)\n	tree.root = tree.SubtreeRemove(tree.root, leaf)\n')
R(P,F,'''	root := tree.root
	tree.root = tree.SubtreeInsert(root, leaf)

	leaf.stamp = tree.GetMasterTree().stamp
''','''	leaf.stamp = tree.GetMasterTree().stamp
	tree.root = tree.SubtreeInsert(tree.root, leaf)
''')
R(P,F,'''	dynamicTree := tree.spatialIndex.dynamicIndex.GetTree()
	if dynamicTree != nil {
		dynamicTree.stamp++
	} else {
		tree.stamp++
	}
''','''	tree.GetMasterTree().stamp++
''')
R(P,F,'''	if staticIndex != nil && staticRoot == nil {
		tree.spatialIndex.CollideStatic(staticIndex, f, data)
	}
''','')
R(P,F,'		staticRoot = staticIndex.class.(*BBTree).root','		staticRoot = staticIndex.GetRootIfTree()')
R(P,F,'''	pair.a = Thread{prev: nil, next: nextA, leaf: a}
	pair.b = Thread{prev: nil, next: nextB, leaf: b}
	pair.collisionId = 0
''','''	*pair = Pair{a: Thread{next: nextA, leaf: a}, b: Thread{next: nextB, leaf: b}}
''')
R(P,F,'''	node.obj = obj
	node.bb = tree.GetBB(obj)
	node.parent = nil
	node.stamp = 0
	node.pairs = nil
''','''	*node = Node{obj: obj, bb: tree.GetBB(obj)}
''')
