package rudd

// V_I_release (C15): the handle of an arbitrary node is released at an arbitrary moment of one call.
func V_I_release() {
	// a small BDD on the side shows what a release does
	b0, err := New(2, Nodesize(11), Cachesize(3))
	if err != nil {
		vAssert(false, "New fails")
		return
	}
	h0 := b0.Retnode(b0.Makenode(0, 0, b0.varset[1][0]))
	if h0 == nil {
		vAssert(false, "Retnode refuses a node")
		return
	}
	vLearn(h0)
	w := bNew()
	b := w.b
	n := w.anyNode("n")
	vAssume(n >= 2*w.V+2)
	rc := w.ati(w.rc, n)
	vAssume(rc < int(_MAXREFCOUNT)-2)
	h := b.Retnode(n) // the handle to be released
	if h == nil {
		vAssert(false, "Retnode refuses a node")
		return
	}
	old := append([]int{}, w.rc...)
	for k := range w.rc {
		w.rc[k] = vIte(k == n, rc+1, w.rc[k])
	}
	more, res := 0, 0
	m := w.anyNode("m")
	low, high := w.anyNode("argl"), w.anyNode("argh")
	level := vRange("level", 0, w.V-1)
	vAssume(vAnd(level < w.ati(w.lev, low), level < w.ati(w.lev, high)))
	w.protect(low, high, m)
	vArm(h, "when")
	switch vParam("call", 0) {
	case 0:
		if b.Retnode(m) == nil {
			vAssert(false, "Retnode refuses a node")
		}
		more = 1
	case 1:
		res = b.Makenode(int32(level), low, high)
	case 2:
		b.Allnodes(func(id, level, low, high int) error { res++; return nil }, inode(m))
	case 3:
		b.Allnodes(func(id, level, low, high int) error { res++; return nil })
	case 4:
		x := b.Not(inode(m & 1))
		vAssert(x != nil, "Not of a constant fails")
	case 6:
		b.Allnodes(func(id, level, low, high int) error { return dErr }, inode(m))
	case 7:
		b.Allnodes(func(id, level, low, high int) error { return dErr })
	case 8:
		b.Allsat(func(p []int) error { return dErr }, inode(m))
	case 5:
		b.Satcount(inode(m))
		b.Label(inode(m))
		b.Low(inode(m))
		b.High(inode(m))
		b.Equal(inode(m), inode(n))
	}
	vAssert(vUnlocked(), "a lock is not released")
	vDisarm()
	vReach("done")
	vAssert(vUnlocked(), "a lock is not released")
	for k := 2*w.V + 2; k < w.N; k++ {
		lev, lo, hi, r := b.bGet(k)
		in := vOr(old[k] > 0, vOr(k == low, vOr(k == high, k == m)))
		want := vIte(more == 1 && k == m, vIte(old[k] < int(_MAXREFCOUNT), old[k]+1, old[k]), old[k])
		vAssert(vImp(vAnd(in, w.used[k]), vAnd(r == want, vAnd(lev == w.lev[k], vAnd(lo == w.lo[k], hi == w.hi[k])))),
			"a reference is lost or counted twice")
		vAssert(vImp(lo != -1, vImp(!in, r == 0)), "a reference is counted twice")
		vAssert(vImp(lo == -1, r == 0), "a free slot has references")
	}
	if len(b.gcstat.history) > 0 {
		vReach("?gc")
	}
	if b.size() > w.N {
		vReach("?grown")
	}
}
