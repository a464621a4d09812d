package rudd

// Sequences ("S" jobs): several public calls in a row from a new BDD with a small table, with
// collections in between, so that the slots of dropped nodes are given to other nodes.

type kWorld struct {
	b   *BDD
	V   int
	sig []bool
}

func kNew() *kWorld {
	w := &kWorld{V: vParam("V", 2)}
	b, err := New(w.V, Nodesize(vParam("N", 7)), Cachesize(vParam("cs", 3)), Minfreenodes(vParam("minfree", 0)), Cacheratio(vParam("ratio", 0)))
	if err != nil || b.size() != vParam("N", 7) {
		vAssert(false, "New fails or gives a table of another size")
		return nil
	}
	w.b = b
	// some slots are taken
	top := b.varset[w.V-1][0]
	junk := [][2]int{{top, 1}, {0, top}, {top, 0}, {1, top}}
	for i := 0; i < vParam("fill", 0); i++ {
		if b.Retnode(b.Makenode(0, junk[i][0], junk[i][1])) == nil {
			vAssert(false, "Retnode refuses a node")
			return nil
		}
	}
	w.sig = make([]bool, w.V)
	for i := range w.sig {
		w.sig[i] = vBool("sig", i)
	}
	return w
}

// kTriple: one level and two branches, constants or literals of later variables
type kTriple struct {
	lev    int
	lo, hi int
	v      bool // value
}

// branch gives an arbitrary constant or literal: its node, its value, its level
func (w *kWorld) branch(c int) (int, bool, int) {
	x, v, l := vIte(c == 1, 1, 0), c == 1, w.V
	for i := 1; i < w.V; i++ {
		for s := 0; s < 2; s++ {
			k := 2*i + s
			x = vIte(c == k, w.b.varset[i][s], x)
			v = vIte(c == k, w.sig[i] != (s == 1), v)
			l = vIte(c == k, i, l)
		}
	}
	return x, v, l
}

func (w *kWorld) triple(name string, i int) kTriple {
	t := kTriple{}
	t.lev = 0
	if w.V > 2 {
		t.lev = vRange(name+"lev", 0, w.V-2, i)
	}
	cl, ch := w.pickBranch(name+"lo", i), w.pickBranch(name+"hi", i)
	vAssume(cl != ch)
	var vl, vh bool
	var ll, lh int
	t.lo, vl, ll = w.branch(cl)
	t.hi, vh, lh = w.branch(ch)
	vAssume(vAnd(t.lev < ll, t.lev < lh))
	// not a literal
	vAssume(!vAnd(cl < 2, ch < 2))
	s := w.sig[0]
	for k := 1; k < w.V; k++ {
		s = vIte(t.lev == k, w.sig[k], s)
	}
	t.v = vIte(s, vh, vl)
	return t
}

func (w *kWorld) pickBranch(name string, i int) int {
	c := 0
	switch w.V {
	case 2:
		c = vRange(name, 0, 3, i)
	case 3:
		c = vRange(name, 0, 5, i)
	default:
		c = vRange(name, 0, 7, i)
	}
	return vIte(c < 2, c, c) // 2*1.. are the literals
}

// make builds the node of a triple
func (w *kWorld) make(t kTriple) int {
	res := w.b.Makenode(int32(t.lev), t.lo, t.hi)
	vAssert(res >= 2 && res < w.b.size(), "Makenode fails")
	if res >= 2 && res < w.b.size() {
		lev, lo, hi, _ := w.b.bGet(res)
		vAssert(vAnd(lev == t.lev, vAnd(lo == t.lo, hi == t.hi)), "Makenode gives a node that is not the one requested")
	}
	return res
}

// value of a node
func (w *kWorld) value(n Node) bool {
	if n == nil {
		vAssert(false, "an operation fails")
		return false
	}
	k := *n
	for i := 0; i < w.V; i++ {
		in := vAnd(k >= 0, k < w.b.size())
		vAssert(in, "a result is not a node")
		if !in {
			return false
		}
		lev, lo, hi, _ := w.b.bGet(k)
		vAssert(lo != -1, "a result is not a node")
		s := false
		for j := range w.sig {
			s = vOr(s, vAnd(lev == j, w.sig[j]))
		}
		k = vIte(k < 2, k, vIte(s, hi, lo))
	}
	vAssert(vOr(k == 0, k == 1), "a result has more levels than there are variables")
	return k == 1
}

// V_S_make (C07): nodes made, dropped, collected and made again
func V_S_make() {
	w := kNew()
	if w == nil {
		return
	}
	K := vParam("K", 4)
	ts := make([]kTriple, K)
	for i := range ts {
		ts[i] = w.triple("t", i)
	}
	var keep []int
	var which []int
	for i := range ts {
		r := w.make(ts[i])
		if i < vParam("keep", 0) {
			// this one stays
			if w.b.Retnode(r) == nil {
				vAssert(false, "Retnode refuses a node")
				return
			}
			keep, which = append(keep, r), append(which, i)
		}
		for j, x := range keep {
			t := ts[which[j]]
			lev, lo, hi, _ := w.b.bGet(x)
			vAssert(vAnd(lev == t.lev, vAnd(lo == t.lo, hi == t.hi)), "a node in use is changed")
			same := vAnd(t.lev == ts[i].lev, vAnd(t.lo == ts[i].lo, t.hi == ts[i].hi))
			vAssert(same == (x == r), "two nodes for the same function, or one for two")
		}
	}
	vTrace("last", w.b.level2(w.b.size()))
	if len(w.b.gcstat.history) > 0 {
		vReach("?gc")
	} else {
		vReach("?nogc")
	}
	vReach("done")
}

func (b *BDD) level2(n int) int { return n }

// set gives an arbitrary set of variables: its node and its members
func (w *kWorld) set(i int) (int, []bool) {
	in := make([]bool, w.V)
	if vParam("sets", 0) == 0 || w.V == 2 {
		// one literal or two variables
		v := w.choose(i, vParam("set0", w.V), vParam("set1", w.V), vRange("set", 0, w.V, i))
		if v == w.V {
			in[0], in[w.V-1] = true, true
			return w.made(0, 0, w.b.varset[w.V-1][0]), in
		}
		x := w.b.varset[0][0]
		for j := range in {
			in[j] = v == j
			x = vIte(v == j, w.b.varset[j][0], x)
		}
		return x, in
	}
	// two variables
	c := w.choose(i, vParam("set0", 0), vParam("set1", 0), vRange("set", 0, 2, i))
	lo, hi := vIte(c == 2, 1, 0), vIte(c == 0, 1, 2)
	for j := range in {
		in[j] = vOr(lo == j, hi == j)
	}
	return w.made(lo, 0, vIte(hi == 1, w.b.varset[1][0], w.b.varset[2][0])), in
}

func (w *kWorld) made(lev, lo, hi int) int {
	return w.make(kTriple{lev: lev, lo: lo, hi: hi})
}

// choose: the arguments of the first calls are parameters of the job
func (w *kWorld) choose(i, first, second, c int) int {
	if i < vParam("K", 2)-1 {
		if i == 0 {
			return first
		}
		return second
	}
	return c
}

type kOp struct {
	lev, cl, ch int
}

func (w *kWorld) arg(name string, i int) kOp {
	t := kOp{}
	if w.V > 2 {
		t.lev = w.choose(i, vParam(name+"lev0", 0), vParam(name+"lev1", 0), vRange(name+"lev", 0, w.V-2, i))
	}
	t.cl = w.choose(i, vParam(name+"lo0", 2), vParam(name+"lo1", 2), w.pickBranch(name+"lo", i))
	t.ch = w.choose(i, vParam(name+"hi0", 3), vParam(name+"hi1", 3), w.pickBranch(name+"hi", i))
	_, _, ll := w.branch(t.cl)
	_, _, lh := w.branch(t.ch)
	vAssume(vAnd(t.cl != t.ch, vAnd(t.lev < ll, t.lev < lh)))
	vAssume(!vAnd(t.cl < 2, t.ch < 2))
	return t
}

func (w *kWorld) build(t kOp) Node {
	lo, _, _ := w.branch(t.cl)
	hi, _, _ := w.branch(t.ch)
	h := w.b.Retnode(w.made(t.lev, lo, hi))
	if h == nil {
		vAssert(false, "Retnode refuses a node")
	}
	return h
}

func (w *kWorld) val(t kOp, sig []bool) bool {
	old := w.sig
	w.sig = sig
	_, l, _ := w.branch(t.cl)
	_, h, _ := w.branch(t.ch)
	w.sig = old
	s := sig[0]
	for k := 1; k < w.V; k++ {
		s = vIte(t.lev == k, sig[k], s)
	}
	return vIte(s, h, l)
}

func kApply(op int, f, g bool) bool {
	switch op {
	case 0:
		return vAnd(f, g)
	case 1:
		return f != g
	case 2:
		return vOr(f, g)
	}
	return !vAnd(f, g)
}

// exists: f for some values of the variables of a set
func (w *kWorld) exists(in []bool, f func(sig []bool) bool) bool {
	r := false
	for a := 0; a < 1<<uint(w.V); a++ {
		sig := make([]bool, w.V)
		ok := true
		for i := range sig {
			sig[i] = a>>uint(i)&1 == 1
			ok = vAnd(ok, vOr(in[i], sig[i] == w.sig[i]))
		}
		r = vOr(r, vAnd(ok, f(sig)))
	}
	return r
}

// V_S_op: an operation, then the same operation on other nodes, with a collection in between
func V_S_op() {
	w := kNew()
	if w == nil {
		return
	}
	b := w.b
	K := vParam("K", 2)
	op, operator := vParam("op", 0), vParam("operator", 0)
	last := op
	var r0, r1 Replacer
	if op == 6 || vParam("op0", 0) == 6 {
		var e0, e1 error
		r0, e0 = b.NewReplacer([]int{0}, []int{w.V - 1})
		r1, e1 = b.NewReplacer([]int{0, w.V - 1}, []int{w.V - 1, 0})
		_ = e1
		if e0 != nil || r0 == nil {
			vAssert(false, "NewReplacer fails")
			return
		}
		if r1 == nil {
			r1 = r0
		}
	}
	for i := 0; i < K; i++ {
		op = last
		if i < K-1 {
			op = vParam("op0", last)
			if i > 0 {
				op = vParam("op1", last)
			}
		}
		t := w.arg("n", i)
		h := w.build(t)
		if h == nil {
			return
		}
		var r, x, y Node
		want := false
		set := 0
		switch op {
		case 0:
			r = b.Not(h)
			want = !w.val(t, w.sig)
		case 1, 2:
			c := w.choose(i, vParam("arg0", 2), vParam("arg1", 2), w.pickBranch("arg", i))
			k, v, _ := w.branch(c)
			if op == 1 {
				r = b.Apply(h, inode(k), Operator(operator))
				want = kApply(operator, w.val(t, w.sig), v)
			} else {
				r = b.Ite(h, inode(k), b.Ithvar(0))
				want = vIte(w.val(t, w.sig), v, w.sig[0])
			}
		case 3:
			var in []bool
			set, in = w.set(i)
			x = b.Retnode(set)
			r = b.Exist(h, x)
			want = w.exists(in, func(sig []bool) bool { return w.val(t, sig) })
		case 4:
			var in []bool
			set, in = w.set(i)
			x = b.Retnode(set)
			c := w.choose(i, vParam("arg0", 2), vParam("arg1", 2), w.pickBranch("arg", i))
			k, _, _ := w.branch(c)
			r = b.AppEx(h, inode(k), Operator(operator), x)
			want = w.exists(in, func(sig []bool) bool {
				old := w.sig
				w.sig = sig
				_, v, _ := w.branch(c)
				w.sig = old
				return kApply(operator, w.val(t, sig), v)
			})
		case 6:
			rep := r0
			if w.choose(i, vParam("rep0", 0), vParam("rep1", 0), vRange("rep", 0, 1, i)) == 1 {
				rep = r1
			}
			// the node does not depend on the last variable
			sup := true
			for s := 0; s < 2; s++ {
				k := 2*(w.V-1) + s
				sup = vAnd(sup, vAnd(t.cl != k, t.ch != k))
			}
			vAssume(sup)
			r = b.Replace(h, rep)
			sig := append([]bool{}, w.sig...)
			sig[0] = w.sig[w.V-1]
			want = w.val(t, sig)
		case 7:
			cnt := 0
			sig := make([]bool, w.V)
			for a := 0; a < 1<<uint(w.V); a++ {
				for j := range sig {
					sig[j] = a>>uint(j)&1 == 1
				}
				cnt = vIte(w.val(t, sig), cnt+1, cnt)
			}
			c := b.Satcount(h)
			vAssert(c.IsInt64() && int(c.Int64()) == cnt, "Satcount is not the number of satisfying assignments")
		case 8:
			hits := 0
			err := b.Allsat(func(p []int) error {
				m := true
				for j := range w.sig {
					m = vAnd(m, vOr(p[j] == -1, (p[j] == 1) == w.sig[j]))
				}
				hits = vIte(m, hits+1, hits)
				return nil
			}, h)
			vAssert(err == nil, "Allsat returns an error")
			vAssert(hits == vIte(w.val(t, w.sig), 1, 0), "an assignment is not covered exactly when it satisfies the node, by exactly one profile")
		case 9:
			cnt := 0
			b.Allnodes(func(id, level, low, high int) error {
				lev, lo, hi, _ := b.bGet(id)
				vAssert(vAnd(lev == level, vAnd(lo == low, hi == high)), "Allnodes gives wrong data")
				cnt++
				return nil
			}, h)
			want := vIte(t.cl >= 2, 2, 1)
			want = vIte(t.ch >= 2, want+1, want)
			vAssert(cnt == want, "Allnodes does not visit every node once")
		}
		if op < 7 {
			vAssert(w.value(r) == want, "an operation gives a wrong result")
			if r == nil {
				return
			}
		}
		vAssert(b.error == nil, "an operation sets the error status")
		vFire(h)
		if x != nil && set >= 2*w.V+2 && x != h {
			vFire(x)
		}
		if r != nil && *r >= 2*w.V+2 && r != h && r != x {
			vFire(r)
		}
		_ = y
	}
	if len(b.gcstat.history) > 0 {
		vReach("?gc")
	} else {
		vReach("?nogc")
	}
	vReach("done")
}
