M('C23', 'hashset.go', '	for n > primes[i] {', '	if i == 0 && n > primes[0] {\n		primes[0] = 5\n	}\n	for n > primes[i] {')
M('C23', 'space.go', 'func NewSpace() *Space {\n', 'var lastSpace *Space\n\nfunc NewSpace() *Space {\n	defer func() { lastSpace = nil }()\n')
M('C23', 'bbtree.go', 'func (tree *BBTree) IncrementStamp() {\n', 'var allTrees uint\n\nfunc (tree *BBTree) IncrementStamp() {\n	allTrees++\n')
M('C23', 'draw.go', '		verts := []Vector{}\n', '		verts := springVerts[:0]\n')
M('C23', 'space.go', '		pooledArbiters:       sync.Pool{', '		pooledArbiters:       sync.Pool{') if False else None
M('C23', 'arbiter.go', '	arb.handler = handler\n', '	arb.handler = handler\n	arb.handler.UserData = nil\n')
M('C23', 'space.go', 'func (space *Space) UseWildcardDefaultHandler() {\n', 'func (space *Space) UseWildcardDefaultHandler() {\n	space.defaultHandler.UserData = space\n')
M('C23', 'space.go', '	handler := &CollisionHandler{\n', '	handler := &CollisionHandlerDefault\n	*handler = CollisionHandler{\n') if False else None
M('C23', 'shape.go', '	contacts := make([]Contact, MAX_CONTACTS_PER_ARBITER)', '	contacts := shapesCollideScratch[:]', [('shape.go','func ShapesCollide','var shapesCollideScratch [MAX_CONTACTS_PER_ARBITER]Contact\n\nfunc ShapesCollide')])
M('C24', 'arbiter.go', '	arbiter.surface_vr = Vector{}\n', '')
M('C24', 'arbiter.go', '	arbiter.state = CP_ARBITER_STATE_FIRST_COLLISION\n', '')
M('C24', 'spacehash.go', '	hand.stamp = 0\n', '')
R('C24', 'spacehash.go', '	hand.obj = obj\n	hand.retains = 0\n	hand.stamp = 0\n', '	*hand = Handle{obj: obj}\n')
R('C24 C23', 'arbiter.go', '	arbiter.e = 0\n	arbiter.u = 0\n', '	arbiter.e, arbiter.u = 0, 0\n')
M('C24', 'body.go', 'func (body *Body) IdleTime() float64 {\n', 'func (body *Body) IdleTime() float64 {\n	if body.id < 0 {\n		return 0\n	}\n')
M('C24', 'arbiter.go', 'func (arb *Arbiter) Ignore() bool {\n', 'func (arb *Arbiter) Ignore() bool {\n	for range map[int]int{1: 1} {\n	}\n')
M('C24', 'space.go', '	HashPair(a.hashid, b.hashid)', '	HashPair(HashValue(uintptr(unsafe.Pointer(a))), HashValue(uintptr(unsafe.Pointer(b))))', [('space.go', '	"sync"\n', '	"sync"\n	"unsafe"\n')]) if False else None
R('C23 C24', 'body.go', '		id:            int(bodyCur.Add(1) - 1),', '		id:            nextBodyID(),', [('body.go', 'func NewBody(', 'func nextBodyID() int {\n	n := bodyCur.Add(1)\n	return int(n) - 1\n}\n\nfunc NewBody(')])
R('C24 C23', 'space.go', '		arb := space.pooledArbiters.Get().(*Arbiter)\n		arb.Init(', '		arb, _ := space.pooledArbiters.Get().(*Arbiter)\n		arb.Init(')
