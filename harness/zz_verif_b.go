package rudd

// Bounded harnesses ("B" jobs): an arbitrary well-formed node table of a given small size, one real
// call on it, and the full representation invariant afterwards.

type bWorld struct {
	b      *BDD
	V, N   int
	used   []bool
	lev    []int
	lo, hi []int
	rc     []int
	size   int // size of the table before the call
	stack  []int
	prot   []bool
}

// bNew builds an arbitrary well-formed table. Cells 0..2V+1 are the constants and the variables.
func bNew() *bWorld {
	w := &bWorld{V: vParam("V", 2), N: vParam("N", 9)}
	b, err := New(w.V, Nodesize(w.N), Cachesize(3), Minfreenodes(vParam("minfree", 20)),
		Maxnodesize(vParam("maxsize", 0)), Maxnodeincrease(vParam("maxinc", 1<<20)), Cacheratio(vParam("ratio", 0)))
	if err != nil || b.size() != w.N {
		vAssert(false, "New fails or gives a table of another size")
		return nil
	}
	w.b = b
	bInstall()
	first := 2*w.V + 2
	for k := 0; k < first; k++ {
		w.used = append(w.used, true)
		w.lev = append(w.lev, int(b.level(k)))
		w.lo = append(w.lo, b.low(k))
		w.hi = append(w.hi, b.high(k))
		w.rc = append(w.rc, int(_MAXREFCOUNT))
	}
	for k := first; k < w.N; k++ {
		if vParam("full", 0) != 0 {
			w.used = append(w.used, true)
		} else {
			w.used = append(w.used, vBool("used", k))
		}
		w.lev = append(w.lev, vRange("lev", 0, w.V-1, k))
		w.lo = append(w.lo, vRange("low", 0, w.N-1, k))
		w.hi = append(w.hi, vRange("high", 0, w.N-1, k))
		w.rc = append(w.rc, vIte(w.used[k], vRange("rc", 0, int(_MAXREFCOUNT), k), 0))
	}
	free := 0
	for k := first; k < w.N; k++ {
		free = vIte(w.used[k], free, free+1)
		l, h := w.lo[k], w.hi[k]
		ok := vAnd(l != h, vAnd(w.at(w.used, l), w.at(w.used, h)))
		ok = vAnd(ok, vAnd(w.lev[k] < w.ati(w.lev, l), w.lev[k] < w.ati(w.lev, h)))
		for j := 2; j < k; j++ {
			ok = vAnd(ok, !vAnd(w.used[j], vAnd(w.lev[j] == w.lev[k], vAnd(w.lo[j] == l, w.hi[j] == h))))
		}
		vAssume(vImp(w.used[k], ok))
	}
	// the free list: any order
	fp := vRange("freepos", 0, w.N-1)
	rank, next := make([]int, w.N), make([]int, w.N)
	for k := first; k < w.N; k++ {
		rank[k] = vRange("rank", 0, w.N-first-1, k)
		next[k] = vRange("next", 0, w.N-1, k)
	}
	vAssume(vIte(free == 0, fp == 0, vAnd(fp >= first, vAnd(!w.at(w.used, fp), w.ati(rank, fp) == 0))))
	for k := first; k < w.N; k++ {
		last := rank[k] == free-1
		ok := vIte(last, next[k] == 0, vAnd(next[k] >= first, vAnd(!w.at(w.used, next[k]), w.ati(rank, next[k]) == rank[k]+1)))
		vAssume(vOr(w.used[k], ok))
	}
	w.size = w.N
	w.put(fp, free, next)
	w.dirty()
	return w
}

// dirty: caches hold anything
func (w *bWorld) dirty() {
	b := w.b
	for i := range b.applycache.table {
		b.applycache.table[i].a = vInt("ca", i)
	}
	for i := range b.itecache.table {
		b.itecache.table[i].a = vInt("ci", i)
	}
	for i := range b.quantcache.table {
		b.quantcache.table[i].a = vInt("cq", i)
	}
	for i := range b.appexcache.table {
		b.appexcache.table[i].a = vInt("cx", i)
	}
	for i := range b.replacecache.table {
		b.replacecache.table[i].a = vInt("cr", i)
	}
}

func (w *bWorld) at(a []bool, i int) bool {
	r := false
	for k := range a {
		r = vOr(r, vAnd(i == k, a[k]))
	}
	return r
}

func (w *bWorld) ati(a []int, i int) int {
	r := a[0]
	for k := 1; k < len(a); k++ {
		r = vIte(i == k, a[k], r)
	}
	return r
}

// protect computes the nodes in use: reachable from a node with a reference or from the stack
func (w *bWorld) protect(stack ...int) {
	w.stack = stack
	w.b.refstack = append(w.b.refstack[:0], stack...)
	w.prot = make([]bool, w.N)
	for k := 0; k < w.N; k++ {
		p := vOr(k < 2, w.rc[k] > 0)
		for _, s := range stack {
			p = vOr(p, s == k)
		}
		w.prot[k] = vAnd(p, w.used[k])
	}
	for r := 1; r < w.V; r++ {
		q := make([]bool, w.N)
		for k := 0; k < w.N; k++ {
			q[k] = w.prot[k]
			for p := 2*w.V + 2; p < w.N; p++ {
				if p != k {
					q[k] = vOr(q[k], vAnd(w.prot[p], vOr(w.lo[p] == k, w.hi[p] == k)))
				}
			}
		}
		w.prot = q
	}
}

// anyNode: an arbitrary node of the table
func (w *bWorld) anyNode(name string, idx ...int) int {
	i := vRange(name, 0, w.N-1, idx...)
	vAssume(w.at(w.used, i))
	return i
}

func (w *bWorld) tripleAt(i int) (int, int, int) {
	return w.ati(w.lev, i), w.ati(w.lo, i), w.ati(w.hi, i)
}

// invariant: representation invariant of the current table
func (w *bWorld) invariant() {
	b := w.b
	n := b.size()
	first := 2*w.V + 2
	free := 0
	// n is at most the size asked for
	for k := 0; k < n; k++ {
		lev, lo, hi, rc := b.bGet(k)
		if k < first {
			vAssert(vAnd(lev == w.lev[k], vAnd(lo == w.lo[k], vAnd(hi == w.hi[k], rc == int(_MAXREFCOUNT)))), "a constant or a variable is changed")
			continue
		}
		if lo == -1 {
			free++
			vAssert(rc == 0, "a free slot has references")
			continue
		}
		vAssert(vAnd(rc >= 0, rc <= int(_MAXREFCOUNT)), "a reference count is out of range (or a node stays marked)")
		vAssert(vAnd(lev >= 0, lev < w.V), "a level is out of range (or a node stays marked)")
		in := vAnd(vAnd(lo >= 0, lo < n), vAnd(hi >= 0, hi < n))
		vAssert(vAnd(in, lo != hi), "a node has wrong branches")
		if in {
			l1, ll, _, _ := b.bGet(lo)
			l2, hl, _, _ := b.bGet(hi)
			vAssert(vAnd(ll != -1, hl != -1), "a node has a free slot as branch")
			vAssert(vAnd(lev < l1, lev < l2), "a node is not before its branches")
		}
		for j := 2; j < k; j++ {
			lev2, lo2, hi2, _ := b.bGet(j)
			vAssert(!vAnd(lev == lev2, vAnd(lo == lo2, hi == hi2)), "two nodes have the same variable and branches")
		}
	}
	vAssert(b.freenum == free, "the number of free slots is wrong")
	// free list
	cur, cnt := b.freepos, 0
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		if cur == 0 {
			break
		}
		in := vAnd(cur >= first, cur < n)
		vAssert(in, "the free list leaves the table")
		if !in {
			return
		}
		_, lo, _, _ := b.bGet(cur)
		vAssert(vAnd(lo == -1, !w.atn(seen, cur)), "a slot in use, or a slot twice, in the free list")
		for k := range seen {
			seen[k] = vOr(seen[k], cur == k)
		}
		cnt++
		cur = b.bNext(cur)
	}
	vAssert(vAnd(cur == 0, cnt == free), "the free list does not contain every free slot")
	w.unique(n)
}

func (w *bWorld) atn(a []bool, i int) bool { return w.at(a, i) }

// kept: node k has its contents
func (w *bWorld) kept(k int) bool {
	lev, lo, hi, rc := w.b.bGet(k)
	return vAnd(vAnd(lev == w.lev[k], rc == w.rc[k]), vAnd(lo == w.lo[k], hi == w.hi[k]))
}

func (w *bWorld) cachesClean() bool {
	b := w.b
	r := true
	for i := range b.applycache.table {
		r = vAnd(r, b.applycache.table[i].a == -1)
	}
	for i := range b.itecache.table {
		r = vAnd(r, b.itecache.table[i].a == -1)
	}
	for i := range b.quantcache.table {
		r = vAnd(r, b.quantcache.table[i].a == -1)
	}
	for i := range b.appexcache.table {
		r = vAnd(r, b.appexcache.table[i].a == -1)
	}
	for i := range b.replacecache.table {
		r = vAnd(r, b.replacecache.table[i].a == -1)
	}
	return r
}

// V_B_makenode: creation of a node in an arbitrary table
func V_B_makenode() {
	w := bNew()
	b := w.b
	level := vRange("level", 0, w.V-1)
	low, high := w.anyNode("argl"), w.anyNode("argh")
	vAssume(vAnd(level < w.ati(w.lev, low), level < w.ati(w.lev, high)))
	w.protect(low, high, w.anyNode("argx"))
	exists, where := false, 0
	for k := 2; k < w.N; k++ {
		e := vAnd(w.used[k], vAnd(w.lev[k] == level, vAnd(w.lo[k] == low, w.hi[k] == high)))
		exists = vOr(exists, e)
		where = vIte(e, k, where)
	}
	free0 := b.freepos != 0
	res := b.Makenode(int32(level), low, high)
	n := b.size()
	gc := len(b.gcstat.history) > 0
	if low == high {
		vReach("same")
		vAssert(res == low, "Makenode with equal branches does not return the branch")
	} else if exists {
		vReach("exists")
		vAssert(res == where, "Makenode does not return the existing node")
	} else if res >= 0 {
		vReach("new")
		vAssert(res >= 2 && res < n, "Makenode returns an index outside the table")
		if res >= 2 && res < n {
			lev, lo, hi, rc := b.bGet(res)
			vAssert(vAnd(lev == level, vAnd(lo == low, hi == high)), "the node created is not the one requested")
			vAssert(rc == 0, "a new node has references")
			vAssert(vImp(res < w.N, !vAnd(w.at(w.used, res), w.at(w.prot, res))), "the slot of a node in use is given to another node")
			vAssert(vImp(free0, vImp(res < w.N, !w.at(w.used, res))), "the slot of a node is given to another node")
		}
	}
	if res < 0 {
		vReach("?failed")
		vAssert(b.error != nil, "Makenode fails without an error status")
		vAssert(!free0, "Makenode fails although a slot is free")
		vAssert(b.freenum == 0, "Makenode fails although slots were reclaimed")
		vAssert(n == w.N, "Makenode fails although the table was enlarged")
	} else {
		vAssert(b.error == nil, "Makenode sets the error status")
	}
	for k := 2*w.V + 2; k < w.N; k++ {
		keep := vIte(gc, w.prot[k], w.used[k])
		vAssert(vImp(keep, w.kept(k)), "a node in use is changed")
		if gc {
			_, lo, _, _ := b.bGet(k)
			vAssert(vImp(!w.prot[k], vOr(lo == -1, k == res)), "a node that is not in use is not reclaimed")
		}
	}
	if gc {
		vReach("gc")
		vAssert(w.cachesClean(), "the operation caches keep entries after a collection")
	} else {
		vAssert(n == w.N, "the table is resized without a collection")
	}
	if n > w.N {
		vReach("?grown")
	}
	w.invariant()
}
