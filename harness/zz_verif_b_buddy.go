//go:build buddy

package rudd

// bInstall: with hash=1 the hash of a node is an arbitrary function of the node and of the table size
func bInstall() {
	if vParam("hash", 0) == 0 {
		return
	}
	vStub("_TRIPLE", func(a, b, c, len int) int {
		h := vHash("triple", a, b, c, len)
		if m := vParam("buckets", 0); m > 0 {
			h = h % m
		}
		vAssume(h < len)
		return h
	})
}

func (b *BDD) bGet(k int) (int, int, int, int) {
	n := b.nodes[k]
	return int(n.level), n.low, n.high, int(n.refcou)
}

func (b *BDD) bNext(k int) int { return b.nodes[k].next }

func (w *bWorld) put(fp, free int, next []int) {
	t := w.b.tables
	for k := 0; k < w.N; k++ {
		t.nodes[k].hash = 0
	}
	for k := 2*w.V + 2; k < w.N; k++ {
		u := w.used[k]
		t.nodes[k] = buddynode{level: int32(w.lev[k]), low: vIte(u, w.lo[k], -1), high: vIte(u, w.hi[k], 0), refcou: int32(w.rc[k]), next: next[k]}
	}
	// collision chains, in one of two orders
	for i := 2; i < w.N; i++ {
		k := i
		if vParam("desc", 0) != 0 {
			k = w.N + 1 - i
		}
		if w.used[k] {
			h := t.ptrhash(k)
			t.nodes[k].next = t.nodes[h].hash
			t.nodes[h].hash = k
		}
	}
	t.freepos, t.freenum = fp, free
}

// unique: the collision chains hold exactly the nodes in use (checked for one arbitrary node)
func (w *bWorld) unique(n int) {
	t := w.b.tables
	k := vRange("probe", 2, 2*w.N)
	if k >= n || t.nodes[k].low == -1 {
		return
	}
	h := t.ptrhash(k)
	found := false
	cur := t.nodes[h].hash
	for i := 0; i < n; i++ {
		found = vOr(found, cur == k)
		vAssert(t.nodes[cur].low != -1, "a free slot is in a collision chain")
		cur = vIte(cur == 0, 0, t.nodes[cur].next)
	}
	vAssert(cur == 0, "a collision chain has a cycle")
	vAssert(found, "a node is not found in the unique table")
}

// ePrime: the table size is the largest prime up to size, when it is more than min
func ePrime(size, min int) int {
	r := min
	for k := min + 1; k <= 2*min; k++ {
		p := true
		for d := 2; d < k; d++ {
			p = p && k%d != 0
		}
		if p && k <= size {
			r = k
		}
	}
	return r
}

func (b *BDD) bSet(k, lev, lo, hi, rc int) {
	b.nodes[k] = buddynode{level: int32(lev), low: lo, high: hi, refcou: int32(rc)}
}
