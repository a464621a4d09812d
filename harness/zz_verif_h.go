package rudd

import "errors"

const hMaxVar = 1<<21 - 1

// V_H_reject (C23): New rejects every number of variables out of [1..2^21-1] and goes on with the others.
func V_H_reject() {
	v := vInt("varnum")
	ok := vAnd(v >= 1, v <= hMaxVar)
	vAssume(!vAnd(ok, v > 64)) // large numbers of variables are accepted: V_H_accept
	vStub("makeconfigs", func(n int) *configs {
		vReach("?accepted")
		vAssert(vAnd(n == v, ok), "New goes on with an invalid number of variables")
		vAssume(false)
		return nil
	})
	b, err := New(v)
	vReach("rejected")
	if ok {
		// natively only
		vAssert(err == nil && b != nil, "New refuses a valid number of variables")
		return
	}
	vAssert(vAnd(err != nil, b == nil), "New accepts an invalid number of variables")
}

// V_H_accept (C23): every number of variables in [1..2^21-1] gets past the validation.
func V_H_accept() {
	v := vInt("varnum")
	vAssume(vAnd(v >= 1, v <= hMaxVar))
	vStub("makeconfigs", func(n int) *configs {
		vReach("accepted")
		vAssume(false)
		return nil
	})
	b, err := New(v)
	vAssert(err == nil && b != nil, "New refuses a valid number of variables")
}

// V_H_new (C23): the table and the caches of a new BDD, for arbitrary options.
func V_H_new() {
	V := vParam("V", 2)
	ns := vRange("nodesize", -3, 2*V+2+vParam("extra", 5))
	cs := vRange("cachesize", 1, vParam("maxcache", 6))
	ratio, minfree, maxsize, maxinc := vInt("ratio"), vInt("minfree"), vInt("maxsize"), vInt("maxinc")
	opts := []func(*configs){Nodesize(ns), Cachesize(cs), Cacheratio(ratio), Minfreenodes(minfree), Maxnodesize(maxsize), Maxnodeincrease(maxinc)}
	if vParam("order", 0) != 0 {
		opts = []func(*configs){Maxnodeincrease(maxinc), Maxnodesize(maxsize), Minfreenodes(minfree), Cacheratio(ratio), Cachesize(cs), Nodesize(ns)}
	}
	b, err := New(V, opts...)
	if err != nil || b == nil {
		vAssert(false, "New fails for valid options")
		return
	}
	vReach("made")
	n := b.size()
	vTrace("size", n)
	vAssert(vAnd(n >= ns, n >= 2*V+2), "the node table is smaller than asked for")
	vAssert(n <= vIte(ns > 2*V+2, ns, 2*V+2)*2, "the node table is far larger than asked for")
	vAssert(b.Varnum() == V, "Varnum is wrong")
	vAssert(b.error == nil && !b.Errored(), "a new BDD has an error status")
	hWell(b, V)
	for _, l := range []int{len(b.applycache.table), len(b.itecache.table), len(b.quantcache.table), len(b.appexcache.table), len(b.replacecache.table)} {
		vAssert(l >= cs, "a cache is smaller than asked for")
	}
	w := &bWorld{b: b, V: V, N: 2*V + 2 + vParam("extra", 5)}
	vAssert(w.cachesClean(), "a cache of a new BDD has entries")
	w.unique(n)
}

// hWell: the table holds the constants and the variables and nothing else
func hWell(b *BDD, V int) {
	n := b.size()
	for k := 0; k < 2; k++ {
		lev, lo, hi, rc := b.bGet(k)
		vAssert(vAnd(vAnd(lev == V, rc == int(_MAXREFCOUNT)), vAnd(lo == k, hi == k)), "a constant is wrong in a new BDD")
	}
	used := make([]bool, n)
	for v := 0; v < V; v++ {
		for s := 0; s < 2; s++ {
			x := b.varset[v][s]
			in := vAnd(x >= 2, x < n)
			vAssert(in, "a variable has no node")
			if !in {
				return
			}
			lev, lo, hi, rc := b.bGet(x)
			vAssert(vAnd(lev == v, vAnd(lo == s, hi == 1-s)), "the node of a variable is wrong")
			vAssert(rc == int(_MAXREFCOUNT), "a variable is not permanently protected")
			for k := range used {
				vAssert(!vAnd(used[k], x == k), "two literals share a node")
				used[k] = vOr(used[k], x == k)
			}
			h := b.Ithvar(v)
			if s == 1 {
				h = b.NIthvar(v)
			}
			vAssert(h != nil, "a literal is refused")
			if h != nil {
				vAssert(*h == x, "a literal is another node")
			}
		}
	}
	// free list
	cnt, cur := 0, b.freepos
	for i := 0; i < n; i++ {
		if cur == 0 {
			break
		}
		in := vAnd(cur >= 2, cur < n)
		vAssert(in, "the free list leaves the table")
		if !in {
			return
		}
		_, lo, _, rc := b.bGet(cur)
		vAssert(vAnd(lo == -1, rc == 0), "a free slot is not empty")
		for k := range used {
			vAssert(!vAnd(used[k], cur == k), "a slot in use, or a slot twice, in the free list")
			used[k] = vOr(used[k], cur == k)
		}
		cnt++
		cur = b.bNext(cur)
	}
	vAssert(vAnd(cur == 0, vAnd(cnt == n-2-2*V, b.freenum == cnt)), "the free list is not every free slot")
}

// V_H_default (C23): without options
func V_H_default() {
	V := vParam("V", 2)
	b, err := New(V)
	if err != nil || b == nil {
		vAssert(false, "New fails")
		return
	}
	vReach("made")
	vAssert(b.size() >= 2*V+2, "the node table is smaller than asked for")
	vAssert(len(b.applycache.table) >= 10000 && len(b.replacecache.table) >= 10000, "a cache is smaller than documented")
	hWell(b, V)
}

// V_H_mark (C08, C18, C23): nodes at any level up to 2^21-2 go through traversals and collections
func V_H_mark() {
	b, err := New(1, Nodesize(5), Cachesize(3))
	if err != nil {
		vAssert(false, "New fails")
		return
	}
	lev := 1
	if vParam("few", 0) == 0 {
		lev = vRange("lev", 1, hMaxVar-1)
	} else {
		c := vRange("bit", 1, 22)
		for i := uint(1); i <= 20; i++ {
			lev = vIte(c == int(i), 1<<i, lev)
		}
		lev = vIte(c == 21, hMaxVar-1, lev)
	}
	s := vParam("pol", 0)
	k := b.Makenode(int32(lev), s, 1-s)
	vAssert(k == 4, "a node is refused")
	h := b.Retnode(k)
	if k != 4 || h == nil {
		return
	}
	_, lo0, hi0, rc0 := b.bGet(k)
	stop := vBool("stop")
	cnt := 0
	errStop := errors.New("stop")
	b.Allnodes(func(id, level, low, high int) error {
		cnt++
		vAssert(vAnd(vAnd(id == k, level == lev), vAnd(low == s, high == 1-s)), "Allnodes gives wrong data")
		if stop {
			return errStop
		}
		return nil
	}, h)
	vReach("visited")
	vAssert(cnt == 1, "Allnodes does not visit the node once")
	l, lo, hi, rc := b.bGet(k)
	vAssert(vAnd(vAnd(l == lev, lo == lo0), vAnd(hi == hi0, rc == rc0)), "a traversal changes a node")
	vAssert(b.Label(h) == lev, "the label of a node is wrong")
	// the table is full in the default implementation: this collects, and grows
	for i := 0; i < 4; i++ {
		x := b.Makenode(int32(lev), 2+i%2, 2+(i+1)%2)
		vAssert(x >= 4, "a node is refused")
		l, lo, hi, rc = b.bGet(k)
		vAssert(vAnd(vAnd(l == lev, lo == lo0), vAnd(hi == hi0, rc == rc0)), "a collection changes a node in use")
		y := b.Makenode(int32(lev), 3, k)
		vAssert(y >= 5, "a node is refused")
	}
	vAssert(len(b.gcstat.history) > 0 || b.size() > 5, "no collection")
	vReach("collected")
}
