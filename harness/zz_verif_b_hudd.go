//go:build !buddy

package rudd

func bInstall() {}

func (b *BDD) bGet(k int) (int, int, int, int) {
	n := b.nodes[k]
	return int(n.level), n.low, n.high, int(n.refcou)
}

func (b *BDD) bNext(k int) int { return b.nodes[k].high }

func (w *bWorld) put(fp, free int, next []int) {
	t := w.b.tables
	for k := 2*w.V + 2; k < w.N; k++ {
		u := w.used[k]
		t.nodes[k] = huddnode{level: int32(w.lev[k]), low: vIte(u, w.lo[k], -1), high: vIte(u, w.hi[k], next[k]), refcou: int32(w.rc[k])}
		if u {
			t.huddhash(int32(w.lev[k]), w.lo[k], w.hi[k])
			t.unique[t.hbuff] = k
		}
	}
	t.freepos, t.freenum = fp, free
}

// unique: the unique table holds exactly the nodes in use
func (w *bWorld) unique(n int) {
	t := w.b.tables
	cnt := 0
	for k := 2; k < n; k++ {
		nd := t.nodes[k]
		if nd.low != -1 {
			cnt++
			i, ok := t.nodehash(nd.level, nd.low, nd.high)
			vAssert(vAnd(ok, i == k), "a node is not found in the unique table")
		}
	}
	vAssert(len(t.unique) == cnt, "the unique table holds other entries than the nodes in use")
}

func ePrime(size, min int) int { return size }

func (b *BDD) bSet(k, lev, lo, hi, rc int) {
	b.nodes[k] = huddnode{level: int32(lev), low: lo, high: hi, refcou: int32(rc)}
}
