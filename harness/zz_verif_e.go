package rudd

// V_E_grow (C10, C11): a full table with arbitrary limits; some nodes are protected, one more is needed.
func V_E_grow() {
	V, N := 3, vParam("N", 11)
	minfree, maxsize, maxinc := vRange("minfree", 0, 100), vInt("maxsize"), vInt("maxinc")
	vAssume(vAnd(maxsize >= 0, maxinc >= 0))
	ratio := vParam("ratio", 0)
	b, err := New(V, Nodesize(N), Cachesize(vParam("cs", 3)), Minfreenodes(minfree), Maxnodesize(maxsize), Maxnodeincrease(maxinc), Cacheratio(ratio))
	if err != nil || b.size() != N {
		vAssert(false, "New fails or gives a table of another size")
		return
	}
	x2, nx2 := b.varset[2][0], b.varset[2][1]
	pairs := [][2]int{{0, x2}, {x2, 0}, {1, x2}, {x2, 1}, {nx2, x2}, {x2, nx2}, {0, nx2}, {nx2, 0}, {1, nx2}, {nx2, 1}}
	extra := N - 2*V - 2
	keep := make([]bool, extra)
	ids := make([]int, extra)
	p := 0
	for i := range keep {
		ids[i] = b.Makenode(1, pairs[i][0], pairs[i][1])
		keep[i] = vBool("keep", i)
		p = vIte(keep[i], p+1, p)
	}
	for i := range keep {
		h := b.Retnode(ids[i])
		if !keep[i] {
			vFire(h)
		}
	}
	vAssert(b.freepos == 0 && b.freenum == 0 && len(b.gcstat.history) == 0, "the table is not full after as many nodes as it has slots")
	// expected size
	want := 2 * N
	if maxinc > 0 && N+maxinc < want && N+maxinc > 0 {
		want = N + maxinc
	}
	if maxsize > 0 && want > maxsize {
		want = maxsize
	}
	want = ePrime(want, N)
	f := extra - p
	if f*100/N > minfree || want <= N {
		want = N
	}
	last := pairs[extra]
	w := &bWorld{b: b}
	w.dirty()
	res := b.Makenode(1, last[0], last[1])
	n := b.size()
	vTrace("size", n)
	vTrace("res", res)
	vAssert(n == want, "the table does not grow as configured")
	if n > N {
		vReach("?grown")
		vAssert(vImp(maxsize > 0, n <= maxsize), "the table grows beyond Maxnodesize")
		vAssert(vImp(maxinc > 0, n-N <= maxinc), "the table grows by more than Maxnodeincrease")
	} else {
		vReach("?kept")
	}
	if f == 0 && want == N {
		vReach("?full")
		vAssert(res == -1 && b.error != nil, "no error when the table is full and cannot grow")
	} else {
		vAssert(res >= 0 && b.error == nil, "a node is refused although there is room for it")
		vAssert(b.freenum == n-2*V-2-p-1, "slots are lost or counted twice")
		if res >= 2 && res < n {
			lev, lo, hi, rc := b.bGet(res)
			vAssert(vAnd(vAnd(lev == 1, rc == 0), vAnd(lo == last[0], hi == last[1])), "the node created is not the one requested")
		}
	}
	for i := range ids {
		lev, lo, hi, rc := b.bGet(ids[i])
		vAssert(vImp(keep[i], vAnd(vAnd(lev == 1, rc == 1), vAnd(lo == pairs[i][0], hi == pairs[i][1]))), "a node in use is changed")
	}
	for v := 0; v < V; v++ {
		for s := 0; s < 2; s++ {
			lev, lo, hi, _ := b.bGet(b.varset[v][s])
			vAssert(vAnd(lev == v, vAnd(lo == s, hi == 1-s)), "a variable is changed")
		}
	}
	// caches: cleared, and sized as configured
	vAssert(w.cachesClean(), "the operation caches keep entries after a collection")
	if ratio > 0 && n > N {
		m := n * ratio / 100
		for _, l := range []int{len(b.applycache.table), len(b.itecache.table), len(b.quantcache.table), len(b.appexcache.table), len(b.replacecache.table)} {
			vAssert(l >= m && l >= 1, "a cache is not resized to its share of the node table")
		}
	}
}
