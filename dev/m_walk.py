s='space.go'; b='body.go'; h='hashset.go'; t='bbtree.go'
coll='''	sleeping := append([]*Body(nil), space.rousedBodies...)
	for _, root := range space.sleepingComponents {
		for body := root; body != nil; body = body.sleepingNext {
			sleeping = append(sleeping, body)
		}
	}

'''
M('C05',s,'append([]*Body(nil), space.rousedBodies...)','[]*Body(nil)')
M('C05',s,coll,'',[(s,'	for _, body := range sleeping {\n',coll+'	for _, body := range sleeping {\n')])
M('C05',s,'	for _, body := range space.staticBodies {\n		f(body)\n	}\n','')
M('C05',s,coll,'',[(s,'	for _, body := range sleeping {\n		f(body)\n	}','	for _, root := range space.sleepingComponents {\n		for body := root; body != nil; {\n			next := body.sleepingNext\n			f(body)\n			body = next\n		}\n	}')])
M('C05',s,'		for body := root; body != nil; body = body.sleepingNext {\n			sleeping','		for body := root.sleepingNext; body != nil; body = body.sleepingNext {\n			sleeping')
M('C05',s,'		for body := root; body != nil; body = body.sleepingNext {\n			sleeping','		if body := root; body != nil {\n			sleeping')
M('C05',s,'	space.staticShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n','')
M('C05',s,'	space.staticShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n','	space.staticShapes.class.Each(func(shape *Shape) {\n		if !shape.sensor {\n			f(shape)\n		}\n	})\n')
M('C05',s,'	for i := 0; i < len(space.constraints); i++ {\n		f(','	for i := 1; i < len(space.constraints); i++ {\n		f(')
M('C05',b,'append([]*Shape(nil), body.shapeList...)','body.shapeList')
M('C05',b,'		next := constraint.Next(body)\n		f(constraint)\n		constraint = next','		f(constraint)\n		constraint = constraint.Next(body)')
M('C05',b,'		next := constraint.Next(body)\n		f(constraint)','		next := constraint.next_a\n		f(constraint)')
M('C05',b,'		next := arb.Next(body)\n','		next := arb.thread_a.next\n		if swapped := arb.swapped; swapped {\n			next = arb.thread_b.next\n		}\n')
M('C05',h,'			next := bin.next\n			f(bin.elt)\n			bin = next','			f(bin.elt)\n			bin = bin.next')
M('C05',h,'			next := bin.next\n\n			if f(bin.elt) {\n				prevPtr = &bin.next\n			} else {\n				*prevPtr = next\n\n				set.entries--\n				set.recycle(bin)\n			}\n\n			bin = next','			next := bin.next\n\n			if f(bin.elt) {\n				prevPtr = &bin.next\n			} else {\n				*prevPtr = next\n\n				set.entries--\n				set.recycle(bin)\n			}\n\n			bin = bin.next')
M('C05',h,'	for i = 0; i < set.size; i++ {\n		prevPtr','	for i = 0; i < set.size-1; i++ {\n		prevPtr')
M('C05',h,'	for _, bin := range set.table {\n		for bin != nil {','	for _, bin := range set.table {\n		if bin != nil {')
M('C05',t,'	tree.leaves.Each(func(node *Node) {\n		f(node.obj)\n	})','	tree.leaves.Each(func(node *Node) {\n		if node.parent != nil {\n			f(node.obj)\n		}\n	})')
R('C05',s,'	space.dynamicShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n	space.staticShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n','	space.dynamicShapes.class.Each(f)\n	space.staticShapes.class.Each(f)\n')
R('C05',s,'	space.dynamicShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n	space.staticShapes.class.Each(func(shape *Shape) {\n		f(shape)\n	})\n','	for _, index := range []*SpatialIndex{space.dynamicShapes, space.staticShapes} {\n		index.class.Each(f)\n	}\n')
R('C05',s,'	for i := 0; i < len(space.constraints); i++ {\n		f(space.constraints[i])\n	}','	for _, c := range space.constraints {\n		f(c)\n	}')
R('C05',s,coll,'	sleeping := space.asleep()\n',[(s,'func (space *Space) EachShape','func (space *Space) asleep() (bodies []*Body) {\n	bodies = append(bodies, space.rousedBodies...)\n	for i := range space.sleepingComponents {\n		body := space.sleepingComponents[i]\n		for body != nil {\n			bodies = append(bodies, body)\n			body = body.sleepingNext\n		}\n	}\n	return bodies\n}\n\nfunc (space *Space) EachShape')])
R('C05',s,'	for _, body := range space.dynamicBodies {\n		f(body)\n	}\n\n	for _, body := range space.staticBodies {\n		f(body)\n	}\n\n	for _, body := range sleeping {\n		f(body)\n	}\n','	bodies := append([]*Body{}, space.dynamicBodies...)\n	bodies = append(bodies, space.staticBodies...)\n	bodies = append(bodies, sleeping...)\n	for _, body := range bodies {\n		f(body)\n	}\n')
R('C05',b,'	for _, shape := range append([]*Shape(nil), body.shapeList...) {\n		f(shape)\n	}','	shapes := make([]*Shape, len(body.shapeList))\n	copy(shapes, body.shapeList)\n	for i := range shapes {\n		f(shapes[i])\n	}')
R('C05',b,'	constraint := body.constraintList\n	for constraint != nil {\n		next := constraint.Next(body)\n		f(constraint)\n		constraint = next\n	}','	for constraint, next := body.constraintList, (*Constraint)(nil); constraint != nil; constraint = next {\n		if constraint.a == body {\n			next = constraint.next_a\n		} else {\n			next = constraint.next_b\n		}\n		f(constraint)\n	}')
R('C05',h,'	for _, bin := range set.table {\n		for bin != nil {\n			next := bin.next\n			f(bin.elt)\n			bin = next\n		}\n	}','	for i := range set.table {\n		for bin := set.table[i]; bin != nil; {\n			elt := bin.elt\n			bin = bin.next\n			f(elt)\n		}\n	}')
R('C05',h,'	for i = 0; i < set.size; i++ {\n		prevPtr','	for i = 0; i < uint(len(set.table)); i++ {\n		prevPtr')
R('C05',h,'			next := bin.next\n\n			if f(bin.elt) {\n				prevPtr = &bin.next\n			} else {\n				*prevPtr = next\n\n				set.entries--\n				set.recycle(bin)\n			}\n\n			bin = next','			next := bin.next\n\n			if !f(bin.elt) {\n				set.entries--\n				*prevPtr = next\n				set.recycle(bin)\n				bin = next\n				continue\n			}\n			prevPtr = &bin.next\n			bin = next')
