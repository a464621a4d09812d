package rudd

import "math/big"

// gTable is a BDD with many variables and three more nodes with arbitrary branches, at three chosen levels.
func gTable() (b *BDD, lv [3]int, val [8][]bool, ids []int) {
	V := vParam("V", 70)
	lv = [3]int{vParam("l0", 0), vParam("l1", 1), vParam("l2", V-1)}
	b, err := New(V, Nodesize(vParam("N", 2*V+6)), Cachesize(3))
	if err != nil {
		vAssert(false, "New fails")
		return
	}
	// 0 1 x2 -x2 x1 -x1 e0(level l1) e1(level l0) x0 -x0
	ids = []int{0, 1, b.varset[lv[2]][0], b.varset[lv[2]][1], b.varset[lv[1]][0], b.varset[lv[1]][1]}
	next := b.freepos
	pick := func(name string, n int) (int, int) {
		c := vRange(name, 0, n-1)
		r := ids[0]
		for i := 1; i < n; i++ {
			r = vIte(c == i, ids[i], r)
		}
		return c, r
	}
	for a := range val {
		s0, s1, s2 := a&1 != 0, a&2 != 0, a&4 != 0
		val[a] = []bool{false, true, s2, !s2, s1, !s1}
		_ = s0
	}
	add := func(level int, cl, cr, lo, hi, bit int) {
		k := next
		next = b.bNext(next)
		b.bSet(k, level, lo, hi, 1)
		ids = append(ids, k)
		for a := range val {
			l, h := false, false
			for i, x := range val[a] {
				l = vOr(l, vAnd(cl == i, x))
				h = vOr(h, vAnd(cr == i, x))
			}
			if a&bit != 0 {
				val[a] = append(val[a], h)
			} else {
				val[a] = append(val[a], l)
			}
		}
	}
	cl, lo := pick("el", 4)
	cr, hi := pick("eh", 4)
	vAssume(cl != cr)
	add(lv[1], cl, cr, lo, hi, 2)
	cl, lo = pick("fl", 7)
	cr, hi = pick("fh", 7)
	vAssume(cl != cr)
	add(lv[0], cl, cr, lo, hi, 1)
	return b, lv, val, ids
}

// V_D_satbig (C16): numbers of assignments beyond machine integers
func V_D_satbig() {
	b, _, val, ids := gTable()
	n := vRange("n", 0, len(ids)-1)
	cnt, id := 0, 0
	for i := range ids {
		is := n == i
		id = vIte(is, ids[i], id)
		for a := range val {
			cnt = vIte(vAnd(is, val[a][i]), cnt+1, cnt)
		}
	}
	vReach("count")
	c := b.Satcount(inode(id))
	vTrace("sign", c.Sign())
	want := new(big.Int).Lsh(big.NewInt(int64(cnt)), uint(b.Varnum()-3))
	vAssert(c.Cmp(want) == 0, "Satcount is not the number of satisfying assignments")
	vAssert(b.error == nil, "Satcount sets the error status")
}
