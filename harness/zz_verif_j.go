package rudd

// Text written by Print and Dot (C24).

func jRoots(w *bWorld, nr int) ([]int, []Node) {
	var roots []int
	var args []Node
	for i := 0; i < nr; i++ {
		r := w.anyNode("root", i)
		roots = append(roots, r)
		args = append(args, inode(r))
	}
	return roots, args
}

func (w *bWorld) count(c []int, k int) {
	for i := range c {
		c[i] = vIte(i == k, c[i]+1, c[i])
	}
}

// V_J_dot: roots=0 means all the active nodes
func V_J_dot() {
	w := bNew()
	b := w.b
	nr := vParam("roots", 0)
	roots, args := jRoots(w, nr)
	want := w.reachable(roots)
	if nr == 0 {
		for k := range want {
			want[k] = vAnd(k > 1, w.used[k])
		}
	}
	vert, elo, ehi := make([]int, w.N), make([]int, w.N), make([]int, w.N)
	head, tail := 0, 0
	sink := vNewSink()
	vOnOut(func(stmt string, ints []int) {
		if stmt == "digraph G {" {
			vAssert(head == 0, "the graph starts twice")
			head++
			return
		}
		if stmt == "}" {
			vAssert(head == 1, "the graph ends before it starts")
			tail++
			return
		}
		vAssert(head == 1 && tail == 0, "something is written outside the graph")
		if len(ints) == 0 {
			vAssert(false, "unexpected text")
			return
		}
		id := ints[0]
		vAssert(vAnd(id >= 0, id < w.N), "an id is out of the table")
		if vHas(stmt, "->") {
			if len(ints) != 2 {
				vAssert(false, "an edge has not two ends")
				return
			}
			_, lo, hi := w.tripleAt(id)
			vAssert(vAnd(id > 1, ints[1] != 0), "an edge from a constant or to False")
			if vHas(stmt, "dotted") {
				vAssert(ints[1] == lo, "a dotted edge does not go to the low branch")
				w.count(elo, id)
			} else {
				vAssert(ints[1] == hi, "a solid edge does not go to the high branch")
				w.count(ehi, id)
			}
			return
		}
		if id < 2 {
			return
		}
		lev, _, _ := w.tripleAt(id)
		ok := false
		if len(ints) == 5 {
			ok = ints[2] == lev
		} else {
			for _, i := range ints[1:] {
				ok = vOr(ok, i == lev)
			}
		}
		vAssert(ok, "a vertex is not labelled with its variable")
		w.count(vert, id)
	})
	err := b.Dot(sink, args...)
	vAssert(vOutDone(), "text is not flushed")
	vReach("done")
	vAssert(err == nil, "Dot returns an error")
	vAssert(head == 1 && tail == 1, "the graph is not complete")
	for k := 2; k < w.N; k++ {
		_, lo, hi := w.tripleAt(k)
		vTrace("vert", vert[k], k)
		vAssert(vert[k] == vIte(want[k], 1, 0), "a node does not have exactly one vertex when it is reachable")
		vAssert(elo[k] == vIte(vAnd(want[k], lo != 0), 1, 0), "a low branch does not have exactly one edge when it is not False")
		vAssert(ehi[k] == vIte(vAnd(want[k], hi != 0), 1, 0), "a high branch does not have exactly one edge when it is not False")
	}
	vAssert(b.error == nil, "Dot sets the error status")
	w.unchanged()
}

// V_J_print: roots=0 means all the active nodes
func V_J_print() {
	w := bNew()
	b := w.b
	nr := vParam("roots", 0)
	roots, args := jRoots(w, nr)
	want := w.reachable(roots)
	if nr == 0 {
		for k := range want {
			want[k] = vAnd(k > 1, w.used[k])
		}
	}
	rows := make([]int, w.N)
	last, consts, val := 1, 0, 0
	sink := vNewSink()
	vOnOut(func(stmt string, ints []int) {
		if stmt == "True" || stmt == "False" {
			consts++
			if stmt == "True" {
				val = 1
			}
			return
		}
		if len(ints) != 4 {
			vAssert(false, "unexpected text")
			return
		}
		id := ints[0]
		vAssert(vAnd(id > 1, id < w.N), "an id is out of the table")
		vAssert(id > last, "the rows are not in increasing order of ids")
		last = id
		lev, lo, hi := w.tripleAt(id)
		vAssert(vAnd(ints[1] == lev, vAnd(ints[2] == lo, ints[3] == hi)), "a row has the wrong contents")
		w.count(rows, id)
	})
	b.Print(sink, args...)
	vAssert(vOutDone(), "text is not flushed")
	vReach("done")
	one := nr == 1 && roots[0] < 2
	vAssert(consts == vIte(one, 1, 0), "True or False is not printed exactly for a constant")
	vAssert(!one || val == roots[0], "the wrong constant is printed")
	for k := 2; k < w.N; k++ {
		vTrace("row", rows[k], k)
		vAssert(rows[k] == vIte(want[k], 1, 0), "a node does not have exactly one row when it is reachable")
	}
	vAssert(b.error == nil, "Print sets the error status")
	w.unchanged()
}

// V_J_bad: an invalid node or an error status is reported instead
func V_J_bad() {
	w := bNew()
	b := w.b
	good := w.anyNode("good")
	var bad Node
	kind := vRange("kind", 0, 2)
	x := vInt("x")
	switch kind {
	case 0:
		vAssume(vOr(x < 0, vOr(x >= w.N, vAnd(x >= 0, vAnd(x < w.N, !w.ati01(x))))))
		bad = inode(x)
	case 2:
		bad = inode(good)
		b.seterror("an error")
	}
	nodes, msgs := 0, 0
	sink := vNewSink()
	vOnOut(func(stmt string, ints []int) {
		if vHas(stmt, "->") || stmt == "digraph G {" || stmt == "True" || stmt == "False" || len(ints) >= 4 {
			nodes++
			return
		}
		msgs++
	})
	first := vBool("first")
	args := []Node{inode(good), bad}
	if first {
		args = []Node{bad, inode(good)}
	}
	if vBool("alone") {
		args = []Node{bad}
	}
	if vParam("dot", 0) != 0 {
		err := b.Dot(sink, args...)
		vAssert(err != nil, "Dot gives no error")
	} else {
		b.Print(sink, args...)
	}
	vAssert(vOutDone(), "text is not flushed")
	vReach("done")
	vAssert(nodes == 0, "nodes are written in spite of the error")
	vAssert(msgs >= 1, "the error is not written")
	w.unchanged()
}

func (w *bWorld) ati01(x int) bool {
	r := false
	for k := range w.used {
		r = vOr(r, vAnd(x == k, w.used[k]))
	}
	return r
}
