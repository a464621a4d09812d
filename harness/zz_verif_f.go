package rudd

// V_B_wide (C07): nodes with branches of any 64-bit index are kept apart.
func V_B_wide() {
	b, err := New(1, Nodesize(vParam("N", 7)), Cachesize(3))
	if err != nil {
		vAssert(false, "New fails")
		return
	}
	bInstall()
	l1, l2 := vI32("lev1"), vI32("lev2")
	var a1, h1, a2, h2 int
	if s := vParam("shift", 0); s == 0 {
		a1, h1 = vInt("low1"), vInt("high1")
		a2, h2 = vInt("low2"), vInt("high2")
	} else {
		// any two values of eight that differ from bit s on only
		l1, l2, a1, a2, h1, h2 = 1, 1, 5, 5, 4, 4
		x1, x2 := vRange("x1", 0, 7)<<uint(s), vRange("x2", 0, 7)<<uint(s)
		switch vParam("which", 0) {
		case 0:
			a1, a2 = 5+x1, 5+x2
		case 1:
			h1, h2 = 4+x1, 4+x2
		case 2:
			l1, l2 = int32(1+x1), int32(1+x2)
		}
	}
	vAssume(vAnd(vAnd(l1 >= 0, l2 >= 0), vAnd(a1 > 1, h1 > 1)))
	vAssume(vAnd(vAnd(a2 > 1, h2 > 1), vAnd(a1 != h1, a2 != h2)))
	x := b.Makenode(l1, a1, h1)
	y := b.Makenode(l2, a2, h2)
	same := vAnd(l1 == l2, vAnd(a1 == a2, h1 == h2))
	vTrace("x", x)
	vTrace("y", y)
	vAssert(vAnd(x >= 4, y >= 4), "a node is refused, or confused with a variable")
	vAssert((x == y) == same, "two different nodes are confused, or a node is created twice")
	if x < 4 || x >= 7 || y < 4 || y >= 7 {
		return
	}
	vReach("both")
	lev, lo, hi, _ := b.bGet(x)
	vAssert(vAnd(lev == int(l1), vAnd(lo == a1, hi == h1)), "the first node is not the one requested")
	lev, lo, hi, _ = b.bGet(y)
	vAssert(vAnd(lev == int(l2), vAnd(lo == a2, hi == h2)), "the second node is not the one requested")
	if x == y {
		vReach("same")
	} else {
		vReach("different")
	}
	z := b.Makenode(l1, a1, h1)
	vAssert(z == x, "a node is not found again")
	if vParam("hash", 0) == 0 {
		v := b.Makenode(0, 0, 1)
		vAssert(v == b.varset[0][0], "a variable is not found again")
	}
}

// V_F_hash (C13): the slot of a cache entry or of a node is inside the table
func V_F_hash() {
	a, b, c := vInt("a"), vInt("b"), vInt("c")
	n := vInt("len")
	vAssume(vAnd(n > 0, n < 1<<40))
	p := _PAIR(a, b, n)
	vReach("pair")
	vAssert(vAnd(p >= 0, p < n), "_PAIR leaves the table")
	t := _TRIPLE(a, b, c, n)
	vReach("triple")
	vAssert(vAnd(t >= 0, t < n), "_TRIPLE leaves the table")
}

// V_D_equal (C06): in a well-formed table two nodes are the same if and only if they have the same values
func V_D_equal() {
	w := bNew()
	n, m := w.anyNode("n"), w.anyNode("m")
	eq := true
	for k := 0; k < 1<<uint(w.V); k++ {
		sig := make([]bool, w.V)
		for i := range sig {
			sig[i] = k>>uint(i)&1 == 1
		}
		v := w.vals(sig)
		eq = vAnd(eq, w.at(v, n) == w.at(v, m))
	}
	if eq {
		vReach("same")
	} else {
		vReach("different")
	}
	vAssert(w.b.Equal(inode(n), inode(m)) == eq, "Equal is not equality of functions")
	vAssert(w.b.error == nil, "Equal sets the error status")
}
