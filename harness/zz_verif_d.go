package rudd

// Direct harnesses: one public call on an arbitrary well-formed table (or on arbitrary arguments).

import (
	"errors"
	"math"
)

// vals: the value of every node for one assignment
func (w *bWorld) vals(sig []bool) []bool {
	v := make([]bool, w.N)
	v[1] = true
	for k := 2; k < 2*w.V+2; k++ {
		v[k] = vIte(w.lo[k] == 0, sig[w.lev[k]], !sig[w.lev[k]])
	}
	for l := w.V - 1; l >= 0; l-- {
		u := make([]bool, w.N)
		for k := range v {
			u[k] = v[k]
			if k >= 2*w.V+2 {
				u[k] = vIte(w.lev[k] == l, vIte(sig[l], w.at(v, w.hi[k]), w.at(v, w.lo[k])), v[k])
			}
		}
		v = u
	}
	return v
}

// unchanged: the table is as before
func (w *bWorld) unchanged() {
	b := w.b
	vAssert(b.size() == w.N, "the size of the table changes")
	for k := 0; k < w.N; k++ {
		if k < 2 {
			_, lo, hi, rc := b.bGet(k)
			vAssert(vAnd(lo == k, vAnd(hi == k, rc == int(_MAXREFCOUNT))), "a constant changes")
			continue
		}
		lev, lo, _, rc := b.bGet(k)
		vAssert(vImp(w.used[k], w.kept(k)), "a node changes")
		vAssert(vOr(w.used[k], vAnd(lo == -1, vAnd(rc == 0, lev == w.lev[k]))), "a free slot changes")
	}
}

func dSig(w *bWorld) []bool {
	sig := make([]bool, w.V)
	for i := range sig {
		sig[i] = vBool("sig", i)
	}
	return sig
}

// reach: the non-constant nodes reachable from the roots
func (w *bWorld) reachable(roots []int) []bool {
	r := make([]bool, w.N)
	for k := 2; k < w.N; k++ {
		for _, x := range roots {
			r[k] = vOr(r[k], x == k)
		}
	}
	for i := 1; i < w.V; i++ {
		q := make([]bool, w.N)
		for k := 2; k < w.N; k++ {
			q[k] = r[k]
			for p := 2*w.V + 2; p < w.N; p++ {
				if p != k {
					q[k] = vOr(q[k], vAnd(r[p], vOr(w.lo[p] == k, w.hi[p] == k)))
				}
			}
		}
		r = q
	}
	return r
}

// V_D_satcount (C16)
func V_D_satcount() {
	w := bNew()
	b := w.b
	n := w.anyNode("n")
	want := 0
	sig := make([]bool, w.V)
	for a := 0; a < 1<<uint(w.V); a++ {
		for i := range sig {
			sig[i] = a>>uint(i)&1 == 1
		}
		want = vIte(w.at(w.vals(sig), n), want+1, want)
	}
	vReach("count")
	c := b.Satcount(inode(n))
	vTrace("count", int(c.Int64()))
	vAssert(c.IsInt64() && int(c.Int64()) == want, "Satcount is not the number of satisfying assignments")
	if vParam("twice", 0) != 0 {
		d := b.Satcount(inode(n))
		vAssert(d.IsInt64() && int(d.Int64()) == want, "Satcount gives another result the second time")
		vAssert(int(c.Int64()) == want, "Satcount changes the result of an earlier call")
	}
	vAssert(b.error == nil, "Satcount sets the error status")
	w.unchanged()
}

var dErr = errors.New("stop")

// V_D_allsat (C17): one arbitrary assignment, matched by as many profiles as it should
func V_D_allsat() {
	w := bNew()
	b := w.b
	n := w.anyNode("n")
	sig := dSig(w)
	hits, calls := 0, 0
	err := b.Allsat(func(p []int) error {
		calls++
		if len(p) != w.V {
			vAssert(false, "a profile has not one entry per variable")
			return nil
		}
		m := true
		for i := 0; i < w.V; i++ {
			vAssert(vAnd(p[i] >= -1, p[i] <= 1), "an entry of a profile is not -1, 0 or 1")
			m = vAnd(m, vOr(p[i] == -1, (p[i] == 1) == sig[i]))
		}
		hits = vIte(m, hits+1, hits)
		return nil
	}, inode(n))
	vReach("done")
	vTrace("calls", calls)
	vAssert(err == nil, "Allsat returns an error")
	vAssert(hits == vIte(w.at(w.vals(sig), n), 1, 0), "an assignment is not covered exactly when it satisfies the node, by exactly one profile")
	vAssert(b.error == nil, "Allsat sets the error status")
	w.unchanged()
}

// V_D_allsaterr (C17): the enumeration stops at the first error
func V_D_allsaterr() {
	w := bNew()
	b := w.b
	n := w.anyNode("n")
	stop := vRange("stop", 1, 4)
	calls, late := 0, false
	err := b.Allsat(func(p []int) error {
		calls++
		late = vOr(late, calls > stop)
		if calls == stop {
			return dErr
		}
		return nil
	}, inode(n))
	vAssert(!late, "the function is called again after it returned an error")
	if calls >= stop {
		vReach("stopped")
		vAssert(err == dErr, "Allsat does not return the error of the function")
	} else {
		vReach("complete")
		vAssert(err == nil, "Allsat returns an error")
	}
	w.unchanged()
}

// V_D_allnodes (C18): roots=0 means all the active nodes
func V_D_allnodes() {
	w := bNew()
	b := w.b
	nr := vParam("roots", 2)
	var roots []int
	var args []Node
	for i := 0; i < nr; i++ {
		r := w.anyNode("root", i)
		roots = append(roots, r)
		args = append(args, inode(r))
	}
	want := w.reachable(roots)
	if nr == 0 {
		for k := range want {
			want[k] = w.used[k]
		}
	}
	seen := make([]int, w.N)
	stop := vRange("stop", 0, 20)
	calls, late := 0, false
	err := b.Allnodes(func(id, level, low, high int) error {
		calls++
		late = vOr(late, vAnd(stop > 0, calls > stop))
		vAssert(vAnd(id >= 0, id < w.N), "an id is out of the table")
		if id >= 0 && id < w.N {
			for k := range seen {
				seen[k] = vIte(k == id, seen[k]+1, seen[k])
			}
			lev, lo, hi := w.tripleAt(id)
			vAssert(vOr(id < 2, vAnd(level == lev, vAnd(low == lo, high == hi))), "a node is given with the wrong contents")
		}
		if calls == stop {
			return dErr
		}
		return nil
	}, args...)
	vAssert(!late, "the function is called again after it returned an error")
	vTrace("calls", calls)
	if stop > 0 && calls >= stop {
		vReach("stopped")
		vAssert(err == dErr, "Allnodes does not return the error of the function")
	} else {
		vReach("complete")
		vAssert(err == nil, "Allnodes returns an error")
		for k := 0; k < w.N; k++ {
			if k >= 2 || nr == 0 {
				vAssert(seen[k] == vIte(want[k], 1, 0), "a node is not visited exactly once when it is reachable")
			}
		}
	}
	vAssert(b.error == nil, "Allnodes sets the error status")
	w.unchanged()
}

// V_D_access (C20): literals, accessors, constants and Equal
func V_D_access() {
	w := bNew()
	b := w.b
	i := vInt("i")
	in := vAnd(i >= 0, i < w.V)
	for s := 0; s < 2; s++ {
		var x Node
		if s == 0 {
			x = b.Ithvar(i)
		} else {
			x = b.NIthvar(i)
		}
		if x == nil {
			vReach("badvar")
			vAssert(!in, "a literal is refused")
			vAssert(b.error != nil, "a literal is refused without an error status")
		} else {
			vReach("literal")
			vAssert(in, "a literal is given for an unknown variable")
			vAssert(b.error == nil, "a literal sets the error status")
			if in && *x >= 0 && *x < w.N {
				lev, lo, hi := w.tripleAt(*x)
				vAssert(vAnd(lev == i, vAnd(lo == s, hi == 1-s)), "a literal is not the node of its variable")
			} else {
				vAssert(false, "a literal is not a node")
			}
		}
	}
	b.error = nil
	n, m := w.anyNode("n"), w.anyNode("m")
	N, M := inode(n), inode(m)
	vAssert(b.Equal(N, M) == (n == m), "Equal does not compare nodes")
	vAssert(b.Equal(N, N), "Equal is not reflexive")
	vAssert(!b.Equal(nil, N) && !b.Equal(N, nil), "Equal of nil and a node")
	if n >= 2 {
		lev, lo, hi := w.tripleAt(n)
		vAssert(b.Label(N) == lev, "Label is not the variable of the node")
		l, h := b.Low(N), b.High(N)
		if l == nil || h == nil {
			vAssert(false, "Low or High of a valid node is nil")
		} else {
			vReach("branches")
			vAssert(vAnd(*l == lo, *h == hi), "Low or High is not the branch of the node")
		}
		vAssert(b.error == nil, "an accessor sets the error status")
	} else {
		vReach("const")
		vAssert(b.Label(N) == -1 && b.error != nil, "Label of a constant")
	}
	t, f := b.True(), b.False()
	vAssert(*t == 1 && *f == 0, "True or False is wrong")
	x := vBool("from")
	vAssert(*b.From(x) == vIte(x, 1, 0), "From is wrong")
	vAssert(b.Varnum() == w.V, "Varnum is wrong")
}

// V_D_setscan (C21): Makeset of an arbitrary slice, then Scanset
func V_D_setscan() {
	V, n := vParam("V", 3), vParam("n", 3)
	b, _ := New(V, Nodesize(vParam("N", 30)), Cachesize(3))
	s := make([]int, n)
	in := make([]bool, V)
	ok := true
	for i := range s {
		s[i] = vInt("s", i)
		ok = vAnd(ok, vAnd(s[i] >= 0, s[i] < V))
		for v := range in {
			in[v] = vOr(in[v], s[i] == v)
		}
	}
	t := append([]int(nil), s...)
	m := b.Makeset(s)
	for i := range s {
		vAssert(s[i] == t[i], "Makeset changes its argument")
	}
	if !ok {
		vReach("?bad")
		vAssert(b.error != nil, "Makeset accepts an unknown variable")
		vAssert(m != nil && *m == 0, "Makeset of an unknown variable is not False")
		return
	}
	vAssert(b.error == nil && m != nil, "Makeset of valid variables fails")
	if m == nil {
		return
	}
	vReach("set")
	// the conjunction: true for one arbitrary assignment iff all its variables are
	val, want := *m, true
	for v := 0; v < V; v++ {
		x := vBool("sig", v)
		want = vAnd(want, vImp(in[v], x))
		if val >= 2 && int(b.level(val)) == v {
			val = vIte(x, b.high(val), b.low(val))
		}
	}
	vAssert(val == vIte(want, 1, 0), "Makeset is not the conjunction of its variables")
	sc := b.Scanset(m)
	cnt := 0
	for v := range in {
		cnt = vIte(in[v], cnt+1, cnt)
	}
	vTrace("len", len(sc))
	vAssert(len(sc) == cnt, "Scanset does not give each variable once")
	for i := 0; i < len(sc); i++ {
		vAssert(vAnd(sc[i] >= 0, sc[i] < V), "Scanset gives an unknown variable")
		x := false
		for v := range in {
			x = vOr(x, vAnd(in[v], sc[i] == v))
		}
		vAssert(x, "Scanset gives a variable that is not in the set")
		if i > 0 {
			vAssert(sc[i-1] < sc[i], "Scanset is not sorted")
		}
	}
}

// V_D_newreplacer (C22)
func V_D_newreplacer() {
	V, p, q := vParam("V", 3), vParam("p", 2), vParam("q", 2)
	b, _ := New(V, Nodesize(2*V+3), Cachesize(3))
	_REPLACEID = vInt("nextid")
	vAssume(vAnd(_REPLACEID >= 1, _REPLACEID <= math.MaxInt32>>2))
	full := _REPLACEID >= math.MaxInt32>>2
	full2 := _REPLACEID >= math.MaxInt32>>2-1
	old, nw := make([]int, p), make([]int, q)
	ok := p == q
	for i := range old {
		old[i] = vInt("old", i)
		ok = vAnd(ok, vAnd(old[i] >= 0, old[i] < V))
	}
	for i := range nw {
		nw[i] = vInt("new", i)
		ok = vAnd(ok, vAnd(nw[i] >= 0, nw[i] < V))
	}
	if p == q {
		for i := range old {
			for j := range old {
				if i < j {
					ok = vAnd(ok, vAnd(old[i] != old[j], nw[i] != nw[j]))
				}
				// no variable of new is in old, unless it is renamed to itself
				ok = vAnd(ok, vOr(nw[i] != old[j], nw[j] == old[j]))
			}
		}
	}
	r, err := b.NewReplacer(old, nw)
	if err != nil {
		vReach("refused")
		vAssert(vOr(!ok, full), "a well-formed renaming is refused")
		vAssert(r == nil, "a replacer is given with an error")
		return
	}
	vReach("?accepted")
	vAssert(ok, "an ill-formed renaming is accepted")
	if r == nil {
		vAssert(false, "no replacer and no error")
		return
	}
	// the last level maps to itself, with or without the flag (it is the level of the constants)
	l := vRange("level", 0, V)
	img, _ := r.Replace(int32(l))
	want := l
	for i := range old {
		if p == q {
			want = vIte(old[i] == l, nw[i], want)
		}
	}
	vTrace("image", int(img))
	vAssert(int(img) == want, "a replacer maps a level to another one than asked")
	_, flag := r.Replace(int32(V))
	vAssert(!flag, "a replacer maps the constants")
	r2, err2 := b.NewReplacer(old, nw)
	if err2 == nil {
		vReach("?second")
		vAssert(r2.Id() != r.Id(), "two replacers have the same identifier")
	} else {
		vAssert(full2, "a well-formed renaming is refused the second time")
	}
}

// V_D_invalid (C19): an operation with an operand that is not a live node
func V_D_invalid() {
	w := bNew()
	b := w.b
	var bad Node
	if vParam("nil", 0) == 0 {
		x := vInt("bad")
		vAssume(vOr(x < 0, vOr(x >= w.N, !w.at(w.used, x))))
		bad = inode(x)
	}
	good, good2 := inode(w.anyNode("g")), inode(w.anyNode("g2"))
	op := Operator(vRange("op", 0, 9))
	var res Node
	switch vParam("call", 0) {
	case 0:
		res = b.Not(bad)
	case 1:
		res = b.Apply(bad, good, op)
	case 2:
		res = b.Apply(good, bad, op)
	case 3:
		res = b.Ite(bad, good, good2)
	case 4:
		res = b.Ite(good, bad, good2)
	case 5:
		res = b.Ite(good, good2, bad)
	case 6:
		res = b.Exist(bad, good)
	case 7:
		res = b.Exist(good, bad)
	case 8:
		vAssume(op < 4)
		res = b.AppEx(bad, good, op, good2)
	case 9:
		vAssume(op < 4)
		res = b.AppEx(good, bad, op, good2)
	case 10:
		vAssume(op < 4)
		res = b.AppEx(good, good2, op, bad)
	case 11:
		r, _ := b.NewReplacer([]int{0}, []int{1})
		res = b.Replace(bad, r)
	case 12:
		c := b.Satcount(bad)
		vAssert(c != nil && c.Sign() == 0, "the count of an invalid node is not zero")
	case 13:
		err := b.Allsat(func([]int) error { vAssert(false, "Allsat calls its function for an invalid node"); return nil }, bad)
		vAssert(err != nil, "Allsat of an invalid node returns no error")
	case 14:
		err := b.Allnodes(func(a, b, c, d int) error { vAssert(false, "Allnodes calls its function for an invalid node"); return nil }, good, bad)
		vAssert(err != nil, "Allnodes of an invalid node returns no error")
	case 15:
		vAssert(b.Label(bad) == -1, "the label of an invalid node is not -1")
	case 16:
		res = b.Low(bad)
	case 17:
		res = b.High(bad)
	case 18:
		vAssert(len(b.Scanset(bad)) == 0, "Scanset of an invalid node is not empty")
	case 19:
		res = b.And(good, bad)
	case 20:
		res = b.Or(bad, good)
	case 21:
		res = b.Imp(bad, good)
	case 22:
		res = b.Equiv(good, bad)
	case 23:
		res = b.And(bad)
	case 24:
		res = b.Or(bad)
	case 25:
		res = b.AndExist(good, bad, good2)
	case 26:
		vAssert(!b.Equal(bad, good), "an invalid node is equal to a valid one")
		b.seterror("x")
	}
	vReach("returned")
	vAssert(res == nil, "an operation on an invalid node returns a node")
	vAssert(b.error != nil, "an operation on an invalid node does not set the error status")
	vAssert(b.Errored(), "Errored is false after an error")
	w.unchanged()
}

// V_D_sticky (C19): operations on valid nodes go on working after an error, and the status stays
func V_D_sticky() {
	w := bNew()
	b := w.b
	b.Not(nil)
	vAssert(b.Errored() && b.Error() != "", "no error is reported")
	n := w.anyNode("n")
	x := b.Low(inode(n))
	if n >= 2 {
		vReach("low")
		lo := w.ati(w.lo, n)
		vAssert(x != nil, "Low fails after an error")
		if x != nil {
			vAssert(*x == lo, "Low gives another node after an error")
		}
	}
	b.Not(inode(n & 1))
	vAssert(b.Errored() && b.Error() != "", "the error status is lost")
}

// V_D_retnode (C14): several handles to arbitrary nodes, released in an arbitrary order
func V_D_retnode() {
	w := bNew()
	b := w.b
	K := vParam("K", 3)
	x := vInt("out")
	vAssume(vOr(x < 0, x >= w.N))
	hs := make([]Node, K)
	id := make([]int, K)
	cnt := make([]int, w.N)
	for k := range cnt {
		cnt[k] = w.rc[k]
	}
	sat := make([]bool, w.N)
	for i := 0; i < K; i++ {
		id[i] = w.anyNode("id", i)
		hs[i] = b.Retnode(id[i])
		if hs[i] == nil {
			vAssert(false, "Retnode refuses a node")
			return
		}
		vAssert(*hs[i] == id[i], "a handle is for another node")
	}
	vReach("made")
	held := make([]bool, K)
	for i := range held {
		held[i] = true
	}
	for i := 0; i < K; i++ {
		if vBool("release", i) {
			held[i] = false
			vFire(hs[i])
		}
	}
	_ = sat
	for k := 2; k < w.N; k++ {
		_, _, _, rc := b.bGet(k)
		rel, live, born := 0, false, 0
		for i := 0; i < K; i++ {
			is := id[i] == k
			born = vIte(is, born+1, born)
			rel = vIte(vAnd(is, !held[i]), rel+1, rel)
			live = vOr(live, vAnd(is, held[i]))
		}
		was := cnt[k]
		vAssert(vImp(live, rc > 0), "a node with a live handle is not protected")
		vAssert(vAnd(rc >= 0, rc <= int(_MAXREFCOUNT)), "a reference count is out of range")
		// earlier handles stay protected, and a count that was never saturated is exact
		vAssert(vImp(vAnd(was > 0, true), rc > 0), "a node with an older handle is not protected")
		vAssert(vImp(was+born < int(_MAXREFCOUNT), rc == was+born-rel), "a reference count is not exact")
		// and stays so once the older handles are released
		vAssert(vImp(vAnd(was < int(_MAXREFCOUNT), rc != int(_MAXREFCOUNT)), rc-was == born-rel), "a handle is not counted although the counter is not saturated")
		vAssert(vImp(was == int(_MAXREFCOUNT), rc == was), "a permanently protected node loses its protection")
	}
	if held[0] {
		vReach("held")
	} else {
		vReach("released")
	}
	b.error = nil
	vAssert(b.Retnode(x) == nil, "Retnode gives a handle for an index out of the table")
	for k := 2; k < w.N; k++ {
		lev, lo, hi, _ := b.bGet(k)
		vAssert(vImp(w.used[k], vAnd(lev == w.lev[k], vAnd(lo == w.lo[k], hi == w.hi[k]))), "a handle changes a node")
	}
}
