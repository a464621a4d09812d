package rudd

// Modular step harnesses ("C" jobs).
//
// One call of a recursive operation is executed symbolically on an arbitrary node table of
// arbitrary size; recursive calls, calls of other operations and Makenode are replaced by their
// contracts.  Node contents are uninterpreted arrays indexed by node id.  The function denoted by a
// node is represented by its value at one arbitrary valuation of the variables (sigma); what is
// proved for every sigma holds of the functions.  The invariants of the table are instantiated for
// every id that the code touches.  A collection may happen in every Makenode and in every call: then
// only the ids that the reference stack protects are known to be still in use.

const vErrMsg = "verif"

type vErr struct{}

func (vErr) Error() string { return vErrMsg }

type cWorld struct {
	b      *BDD
	V      int
	N      int
	sigma  []bool
	lo, hi vArrU
	lev    vArrW
	den    vArrB // value at sigma
	dem    vArrB // value at sigma composed with the renaming
	cube   vArrB // sets built by Makeset
	sup    vArrW // variables of the function
	qs     vArrW // variables of the node read as a set
	valid  vArrB
	rc     vArrU
	failed bool // some node could not be created
	cur    string
	meas   int // minimal level of the operands of the step under check
	hand   []int
	svar   int // current variable set
	hasS   bool
	rep    *replacer
	rs     []int
	aop    int
	xop    int
	xid    int
	qid    int
	qsid   int32
	qlast  int32
	rid    int
	qsetc  []int32
}

var cw *cWorld

func cS2(k int) uint16 { return 1 << k }

// value of variable lev
func (w *cWorld) sg(lev int) bool {
	r := w.sigma[0]
	for k := 1; k < w.V; k++ {
		r = vIte(lev == k, w.sigma[k], r)
	}
	return r
}

func (w *cWorld) in(set uint16, lev int) bool {
	r := false
	for k := 0; k < w.V; k++ {
		r = vOr(r, vAnd(lev == k, set&cS2(k) != 0))
	}
	return r
}

func (w *cWorld) bit(lev int) uint16 {
	r := uint16(0)
	for k := 0; k < w.V; k++ {
		r = vIte(lev == k, cS2(k), r)
	}
	return r
}

// sg at sigma composed with the renaming
func (w *cWorld) sgm(lev int) bool {
	r := w.sg(int(w.rep.image[0]))
	for k := 1; k < w.V; k++ {
		r = vIte(lev == k, w.sg(int(w.rep.image[k])), r)
	}
	return r
}

func (w *cWorld) base(i int) {
	if !vRecord("base", i) {
		return
	}
	lev, den, qs, sup := vSelW(w.lev, i), vSelB(w.den, i), vSelW(w.qs, i), vSelW(w.sup, i)
	vFact(vImp(i == 0, vAnd(lev == uint16(w.V), vAnd(!den, vAnd(qs == 0, sup == 0)))))
	vFact(vImp(i == 1, vAnd(lev == uint16(w.V), vAnd(den, vAnd(qs == 0, sup == 0)))))
	vFact(vImp(i >= 2, lev < uint16(w.V)))
	vFact(qs&^sup == 0)
	vFact(vImp(vSelB(w.cube, i), vAnd(qs == sup, i != 0)))
	for k := 0; k < w.V; k++ {
		vFact(vImp(uint16(k) < lev, sup&cS2(k) == 0))
		vFact(vImp(uint16(k) == lev, sup&cS2(k) != 0))
	}
	vFact(sup>>w.V == 0)
	w.lemma(i)
}

// quantifying or renaming variables that do not occur changes nothing
func (w *cWorld) lemma(i int) {
	if w.rep != nil {
		m := uint16(0)
		for k := 0; k < w.V; k++ {
			m |= vIte(w.rep.image[k] != int32(k), cS2(k), 0)
		}
		vFact(vImp(m&vSelW(w.sup, i) == 0, vSelB(w.dem, i) == w.d(i)))
	}
	if w.hasS {
		vFact(vImp(vSelW(w.qs, w.svar)&vSelW(w.sup, i) == 0, w.ex(i, w.svar) == w.d(i)))
	}
}

func (w *cWorld) kids(i int) (int, int) {
	l, h := int(vSelU(w.lo, i)&0x7fffffff), int(vSelU(w.hi, i)&0x7fffffff)
	return vIte(i < 2, i, l), vIte(i < 2, i, h)
}

func (w *cWorld) closure(v vArrB, i int) {
	l, h := w.kids(i)
	vFact(vImp(vSelB(v, i), vAnd(vSelB(v, l), vSelB(v, h))))
}

func (w *cWorld) touch(i int) {
	w.base(i)
	l, h := w.kids(i)
	if vRecord("touch", i) {
		w.base(l)
		w.base(h)
		lev := w.l(i)
		big := i >= 2
		vFact(l < w.N)
		vFact(h < w.N)
		vFact(vImp(big, vAnd(l != h, vAnd(lev < w.l(l), lev < w.l(h)))))
		vFact(vImp(big, w.d(i) == vIte(w.sg(lev), w.d(h), w.d(l))))
		vFact(vImp(big, vSelW(w.sup, i) == vSelW(w.sup, l)|vSelW(w.sup, h)|w.bit(lev)))
		vFact(vImp(big, vSelW(w.qs, i) == vSelW(w.qs, h)|w.bit(lev)))
		vFact(vImp(vAnd(big, vSelB(w.cube, i)), vAnd(l == 0, vSelB(w.cube, h))))
		if w.rep != nil {
			vFact(vImp(big, vSelB(w.dem, i) == vIte(w.sgm(lev), vSelB(w.dem, h), vSelB(w.dem, l))))
		}
		if w.hasS {
			el, eh := w.ex(l, w.svar), w.ex(h, w.svar)
			vFact(vImp(big, w.ex(i, w.svar) == vIte(w.in(vSelW(w.qs, w.svar), lev), vOr(el, eh), vIte(w.sg(lev), eh, el))))
		}
	}
	w.closure(w.valid, i)
}

// ex is the value at sigma of (exists s. n)
func (w *cWorld) ex(n, s int) bool { return vUFB("ex", n, s) }

// exop is the value at sigma of (exists s. l op r); the four operators are commutative
func (w *cWorld) exop(op, l, r, s int) bool {
	a := vUFB("exop", l<<32|r, s<<2|op)
	if vRecord("exop", (l<<32|r)^(s<<2|op)<<17) {
		vFact(a == vUFB("exop", r<<32|l, s<<2|op))
	}
	return a
}

// exopDef states what (exists s. l op r) is
func (w *cWorld) exopDef(op, l, r, s int) {
	w.touch(l)
	w.touch(r)
	e := w.exop(op, l, r, s)
	d := cOp(op, w.d(l), w.d(r))
	vFact(vImp(vAnd(l < 2, r < 2), e == d))
	vFact(vImp(vSelW(w.qs, s)&(vSelW(w.sup, l)|vSelW(w.sup, r)) == 0, e == d))
	// cases where (l op r) is one of the operands, or a constant
	one := func(l, r int) {
		x := w.ex(r, s)
		vFact(vImp(vAnd(op == 0, l == 0), !e))
		vFact(vImp(vAnd(op == 0, l == 1), e == x))
		vFact(vImp(vAnd(op == 0, l == r), e == x))
		vFact(vImp(vAnd(op == 1, l == 0), e == x))
		vFact(vImp(vAnd(op == 1, l == r), !e))
		vFact(vImp(vAnd(op == 2, l == 1), e))
		vFact(vImp(vAnd(op == 2, l == 0), e == x))
		vFact(vImp(vAnd(op == 2, l == r), e == x))
		vFact(vImp(vAnd(op == 3, l == 0), e))
	}
	one(l, r)
	one(r, l)
	m := cMin(w.l(l), w.l(r))
	ll, lh := w.kids(l)
	rl, rh := w.kids(r)
	el := w.exop(op, vIte(w.l(l) == m, ll, l), vIte(w.l(r) == m, rl, r), s)
	eh := w.exop(op, vIte(w.l(l) == m, lh, l), vIte(w.l(r) == m, rh, r), s)
	vFact(vImp(m < w.V, e == vIte(w.in(vSelW(w.qs, s), m), vOr(el, eh), vIte(w.sg(m), eh, el))))
}

// node is called for every read of a node.
func (w *cWorld) node(i int) (int32, int, int) {
	w.touch(i)
	vAssert(vSelB(w.valid, i), "reads a node that may have been collected")
	l, h := w.kids(i)
	return int32(vSelW(w.lev, i)), l, h
}

// epoch returns the set of nodes in use after a collection.
func (w *cWorld) epoch() vArrB {
	v := vNewArrB("valid")
	vFact(vSelB(v, 0))
	vFact(vSelB(v, 1))
	for _, r := range w.b.refstack {
		vFact(vOr(r < 0, vSelB(v, r)))
	}
	for _, r := range w.hand {
		vFact(vSelB(v, r))
	}
	for _, r := range vRecorded("touch") {
		w.closure(v, r)
	}
	return v
}

func (w *cWorld) ok(i int) bool { return vAnd(vAnd(i >= 0, i < w.N), vSelB(w.valid, i)) }

func (w *cWorld) d(i int) bool { return vSelB(w.den, i) }
func (w *cWorld) l(i int) int  { return int(vSelW(w.lev, i)) }
func cMin(a, b int) int          { return vIte(a < b, a, b) }

// operand: an arbitrary node in use
func (w *cWorld) operand(name string) int {
	i := vInt(name)
	vFact(vAnd(i >= 0, i < w.N))
	vFact(vSelB(w.valid, i))
	w.base(i)
	vTrace(name+".id", i)
	vTrace(name+".level", w.l(i))
	vTrace(name+".sup", int(vSelW(w.sup, i)))
	vTrace(name+".qs", int(vSelW(w.qs, i)))
	return i
}

// use: operand i of a called operation must be in use and stay so during the call
func (w *cWorld) use(nv vArrB, i int, what string) {
	p := vAnd(i >= 0, vAnd(i < w.N, vAnd(vSelB(w.valid, i), vSelB(nv, i))))
	vAssert(p, what)
	vAssume(p)
}

func (w *cWorld) setErr(fail bool) {
	w.failed = vOr(w.failed, fail)
	w.b.error = vIte[error](fail, vErr{}, w.b.error)
}

// result of a called operation: a node with value den, whose variables are in sup
func (w *cWorld) result(nv vArrB, den bool, sup uint16) int {
	w.valid = nv
	fail := vFreshBool("fail")
	w.setErr(fail)
	return vIte(fail, -1, w.fresh(den, sup))
}

func (w *cWorld) fresh(den bool, sup uint16) int {
	r := vFreshInt("res") & 0x7fffffff
	w.base(r)
	vFactHere(vAnd(w.ok(r), vAnd(w.d(r) == den, w.supIn(r, sup))))
	return r
}

func (w *cWorld) supIn(r int, sup uint16) bool { return vSelW(w.sup, r)&^sup == 0 }
func (w *cWorld) s(i int) uint16               { return vSelW(w.sup, i) }

// ---------- contracts ----------

func cMakenode(b *BDD, level int32, low, high int) int {
	w := cw
	if low < 0 || high < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	nv := w.epoch()
	w.use(nv, low, "low branch passed to Makenode may be collected")
	w.use(nv, high, "high branch passed to Makenode may be collected")
	ord := vAnd(level >= 0, vAnd(int(level) < w.V, vAnd(int(level) < w.l(low), int(level) < w.l(high))))
	vAssert(ord, "node out of variable order")
	vAssume(ord)
	if low == high {
		return low
	}
	w.valid = nv
	fail := vFreshBool("fail")
	w.setErr(fail)
	r := vFreshInt("node") & 0x7fffffff
	w.touch(r)
	l, h := w.kids(r)
	vFactHere(vAnd(vAnd(w.ok(r), r >= 2), vAnd(w.l(r) == int(level), vAnd(l == low, h == high))))
	return vIte(fail, -1, r)
}

func cOp(op int, a, b bool) bool {
	r := vAnd(a, b)
	r = vIte(op == 1, a != b, r)
	r = vIte(op == 2, vOr(a, b), r)
	r = vIte(op == 3, !vAnd(a, b), r)
	r = vIte(op == 4, !vOr(a, b), r)
	r = vIte(op == 5, vOr(!a, b), r)
	r = vIte(op == 6, a == b, r)
	r = vIte(op == 7, vAnd(a, !b), r)
	r = vIte(op == 8, vAnd(!a, b), r)
	r = vIte(op == 9, vOr(a, !b), r)
	return r
}

// img: the new names of a set of variables
func (w *cWorld) img(set uint16) uint16 {
	r := uint16(0)
	for k := 0; k < w.V; k++ {
		r |= vIte(set&cS2(k) != 0, w.bit(int(w.rep.image[k])), 0)
	}
	return r
}

// clash: some renamed variable and its new name both occur in the set
func (w *cWorld) clash(set uint16) bool {
	c := false
	for k := 0; k < w.V; k++ {
		for j := 0; j < w.V; j++ {
			if j != k {
				c = vOr(c, vAnd(w.rep.image[k] == int32(j), vAnd(set&cS2(k) != 0, set&cS2(j) != 0)))
			}
		}
	}
	return c
}

func (w *cWorld) measure(op string, m int) {
	if w.cur == op {
		vAssert(m > w.meas, "recursive call does not descend")
	}
}

func cApply(b *BDD, left, right int) int {
	w := cw
	op := b.applycache.op
	if op < 0 || op > 9 {
		w.setErr(true)
		return -1
	}
	if left < 0 || right < 0 {
		vAssert(b.error != nil, "failure without an error status")
		if op == int(OPor) && (left == 1 || right == 1) {
			return vIte(vFreshBool("absorb"), 1, -1)
		}
		return -1
	}
	nv := w.epoch()
	w.use(nv, left, "left operand of apply may be collected")
	w.use(nv, right, "right operand of apply may be collected")
	w.measure("apply", cMin(w.l(left), w.l(right)))
	return w.result(nv, cOp(op, w.d(left), w.d(right)), w.s(left)|w.s(right))
}

func cNot(b *BDD, n int) int {
	w := cw
	if n < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	nv := w.epoch()
	w.use(nv, n, "operand of not may be collected")
	w.measure("not", w.l(n))
	return w.result(nv, !w.d(n), w.s(n))
}

func cIteF(f, g, h bool) bool { return vIte(f, g, h) }

func cIte(b *BDD, f, g, h int) int {
	w := cw
	if f < 0 || g < 0 || h < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	nv := w.epoch()
	w.use(nv, f, "operand f of ite may be collected")
	w.use(nv, g, "operand g of ite may be collected")
	w.use(nv, h, "operand h of ite may be collected")
	w.measure("ite", cMin(w.l(f), cMin(w.l(g), w.l(h))))
	return w.result(nv, cIteF(w.d(f), w.d(g), w.d(h)), w.s(f)|w.s(g)|w.s(h))
}

// quantState: the quantification set is the set of variables of node s
func (w *cWorld) quantState(s int) {
	b := w.b
	qs := vSelW(w.qs, s)
	vAssert(len(b.quantset) == w.V, "quantset has a wrong size")
	good := true
	for k := 0; k < w.V; k++ {
		in := qs&cS2(k) != 0
		good = vAnd(good, in == (b.quantset[k] == b.quantsetID))
		good = vAnd(good, vImp(in, b.quantlast >= int32(k)))
	}
	vAssert(good, "the quantification set is not the set of variables of varset")
}

func cQuant(b *BDD, n, varset int) int {
	w := cw
	if n < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	nv := w.epoch()
	w.use(nv, n, "operand of quant may be collected")
	w.use(nv, varset, "varset of quant may be collected")
	vAssert(b.applycache.op == int(OPor), "operator in use during a quantification is not OPor")
	w.quantState(varset)
	w.measure("quant", w.l(n))
	return w.result(nv, w.ex(n, varset), w.s(n)&^vSelW(w.qs, varset))
}

func cAppquant(b *BDD, left, right, varset int) int {
	w := cw
	op := b.appexcache.op
	if op < 0 || op > 4 {
		w.setErr(true)
		return -1
	}
	vAssert(op <= 3, "appquant called with a wrong operator")
	if left < 0 || right < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	nv := w.epoch()
	w.use(nv, left, "left operand of appquant may be collected")
	w.use(nv, right, "right operand of appquant may be collected")
	w.use(nv, varset, "varset of appquant may be collected")
	vAssert(b.applycache.op == int(OPor), "operator in use during a quantification is not OPor")
	vAssert(b.appexcache.id == (varset<<2)|op, "cache id of appquant is not (varset, op)")
	w.quantState(varset)
	w.measure("appquant", cMin(w.l(left), w.l(right)))
	return w.result(nv, w.exop(op, left, right, varset), (w.s(left)|w.s(right))&^vSelW(w.qs, varset))
}

func cReplace(b *BDD, n int, r Replacer) int {
	w := cw
	if n < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	q, isr := r.(*replacer)
	vAssert(isr && q == w.rep, "replace called with another replacer")
	vAssert(b.replacecache.id == w.rep.id, "cache id of replace is not the identifier of the replacer")
	nv := w.epoch()
	w.use(nv, n, "operand of replace may be collected")
	w.measure("replace", w.l(n))
	w.valid = nv
	ref := vAnd(w.clash(w.s(n)), vFreshBool("refuse"))
	fail := vOr(ref, vFreshBool("fail"))
	f0 := w.failed
	w.setErr(fail)
	w.failed = vIte(ref, f0, w.failed)
	return vIte(fail, -1, w.fresh(vSelB(w.dem, n), w.img(w.s(n))))
}

func (w *cWorld) corrF(level int32, low, high int) bool {
	return vIte(w.sg(int(level)), w.d(high), w.d(low))
}

func (w *cWorld) corrDep(level int32, low, high int) bool {
	return w.in(w.s(low)|w.s(high), int(level))
}

func cCorrectify(b *BDD, level int32, low, high int) int {
	w := cw
	if low < 0 || high < 0 {
		vAssert(b.error != nil, "failure without an error status")
		return -1
	}
	nv := w.epoch()
	w.use(nv, low, "low operand of correctify may be collected")
	w.use(nv, high, "high operand of correctify may be collected")
	in := vAnd(level >= 0, int(level) < w.V)
	vAssert(in, "correctify with an unknown variable")
	vAssume(in)
	w.measure("correctify", cMin(w.l(low), w.l(high)))
	den := w.corrF(level, low, high)
	w.valid = nv
	ref := vAnd(w.corrDep(level, low, high), vFreshBool("refuse"))
	fail := vOr(ref, vFreshBool("fail"))
	f0 := w.failed
	w.setErr(fail)
	w.failed = vIte(ref, f0, w.failed)
	return vIte(fail, -1, w.fresh(den, w.s(low)|w.s(high)|w.bit(int(level))))
}

// ---------- caches ----------

func (w *cWorld) entRes(res int, den bool) bool {
	return vOr(res == -1, vAnd(w.ok(res), w.d(res) == den))
}

// entSup: variables of a cached result (consequence of the function it denotes)
func (w *cWorld) entSup(res int, sup uint16) bool { return vOr(res == -1, w.supIn(res, sup)) }

func (w *cWorld) applyInv(e data4n) bool {
	bin := vAnd(vAnd(w.ok(e.a), w.ok(e.b)), w.entRes(e.res, cOp(e.c, w.d(e.a), w.d(e.b))))
	un := vAnd(w.ok(e.a), w.entRes(e.res, !w.d(e.a)))
	return vAnd(vAnd(e.c >= 0, e.c <= 10), vIte(e.c == 10, un, bin))
}
func (w *cWorld) applySup(e data4n) bool {
	return w.entSup(e.res, w.s(e.a)|vIte(e.c == 10, 0, w.s(e.b)))
}
func (w *cWorld) iteInv(e data4n) bool {
	return vAnd(vAnd(w.ok(e.a), vAnd(w.ok(e.b), w.ok(e.c))), w.entRes(e.res, cIteF(w.d(e.a), w.d(e.b), w.d(e.c))))
}
func (w *cWorld) iteSup(e data4n) bool {
	return w.entSup(e.res, w.s(e.a)|w.s(e.b)|w.s(e.c))
}
func (w *cWorld) quantInv(e data4n) bool {
	return vAnd(vAnd(w.ok(e.a), w.ok(e.b)), w.entRes(e.res, w.ex(e.a, e.b)))
}
func (w *cWorld) quantSup(e data4n) bool {
	return w.entSup(e.res, w.s(e.a)&^vSelW(w.qs, e.b))
}
func (w *cWorld) appexInv(e data4n) bool {
	s, op := e.c>>2, e.c&3
	return vAnd(vAnd(w.ok(e.a), vAnd(w.ok(e.b), w.ok(s))), w.entRes(e.res, w.exop(op, e.a, e.b, s)))
}
func (w *cWorld) appexSup(e data4n) bool {
	return w.entSup(e.res, (w.s(e.a)|w.s(e.b))&^vSelW(w.qs, e.c>>2))
}
func (w *cWorld) replInv(e data3n) bool {
	if w.rep == nil {
		return true
	}
	return vImp(e.c == w.rep.id, vAnd(w.ok(e.a), w.entRes(e.res, vSelB(w.dem, e.a))))
}
func (w *cWorld) replSup(e data3n) bool {
	if w.rep == nil {
		return true
	}
	return vImp(e.c == w.rep.id, w.entSup(e.res, w.img(w.s(e.a))))
}

func (w *cWorld) entry(inv, sup func(data4n) bool) data4n {
	e := data4n{res: vFreshInt("cache.res"), a: vFreshInt("cache.a"), b: vFreshInt("cache.b"), c: vFreshInt("cache.c")}
	w.base(e.res)
	vFact(vOr(e.a == -1, vAnd(inv(e), sup(e))))
	vFact(e.a >= -1)
	return e
}

func (w *cWorld) table(inv, sup func(data4n) bool) []data4n {
	return vVirtual(7, func(i int) data4n { return w.entry(inv, sup) }, func(i int, e data4n) {
		w.base(e.res)
		vAssert(vOr(e.a == -1, inv(e)), "a wrong result is stored in an operation cache")
	})
}

func (w *cWorld) caches() {
	b := w.b
	b.applycache.table = w.table(w.applyInv, w.applySup)
	b.itecache.table = w.table(w.iteInv, w.iteSup)
	b.quantcache.table = w.table(w.quantInv, w.quantSup)
	b.appexcache.table = w.table(w.appexInv, w.appexSup)
	b.replacecache.table = vVirtual(7, func(i int) data3n {
		e := data3n{res: vFreshInt("cache.res"), a: vFreshInt("cache.a"), c: vFreshInt("cache.c")}
		w.base(e.res)
		vFact(vOr(e.a == -1, vAnd(w.replInv(e), w.replSup(e))))
		vFact(e.a >= -1)
		return e
	}, func(i int, e data3n) {
		w.base(e.res)
		vAssert(vOr(e.a == -1, w.replInv(e)), "a wrong result is stored in the replace cache")
	})
}

// cHash: any index; the tables of the caches do not depend on the index
func cHash(len int) int {
	r := vFreshInt("hash")
	vFact(vAnd(r >= 0, r < len))
	return r
}

// ---------- set up ----------

func cNew() *cWorld {
	V := vParam("V", 4)
	b, err := New(V, Nodesize(2*V+2), Cachesize(3))
	if err != nil {
		vAssert(false, "New fails")
		return nil
	}
	w := &cWorld{b: b, V: V, meas: -1}
	cw = w
	w.N = vInt("N")
	vFact(vAnd(w.N >= 2*V+2, w.N <= 0x7ffffffe))
	for k := 0; k < V; k++ {
		w.sigma = append(w.sigma, vBool("sigma", k))
	}
	w.lo, w.hi = vNewArrU("lo"), vNewArrU("hi")
	w.lev, w.sup, w.qs = vNewArrW("lev"), vNewArrW("sup"), vNewArrW("qs")
	w.cube = vNewArrB("cube")
	w.den, w.dem = vNewArrB("den"), vNewArrB("dem")
	w.rc = vNewArrU("rc")
	w.valid = vNewArrB("valid0")
	vFact(vSelB(w.valid, 0))
	vFact(vSelB(w.valid, 1))
	vFact(vAnd(!vSelB(w.dem, 0), vSelB(w.dem, 1)))
	w.base(0)
	w.base(1)
	w.caches()
	w.install()
	vStub("?_PAIR", func(a, b, len int) int { return cHash(len) })
	vStub("?_TRIPLE", func(a, b, c, len int) int { return cHash(len) })
	vStub("(*BDD).Makenode", cMakenode)
	vStub("(*BDD).apply", cApply)
	vStub("(*BDD).not", cNot)
	vStub("(*BDD).ite", cIte)
	vStub("(*BDD).quant", cQuant)
	vStub("(*BDD).appquant", cAppquant)
	vStub("(*BDD).replace", cReplace)
	vStub("(*BDD).correctify", cCorrectify)
	if vBool("errset") {
		b.error = vErr{}
	}
	// arbitrary operator registers
	b.applycache.op = vRange("aop", 0, 9)
	b.appexcache.op = vRange("xop", 0, 3)
	b.appexcache.id = vInt("xid")
	b.quantcache.id = vInt("qid")
	b.replacecache.id = vInt("rid")
	b.quantsetID = vI32("qsid")
	b.quantlast = vI32("qlast")
	vFact(vAnd(b.quantsetID >= 0, b.quantsetID < 0x7fffffff))
	for k := 0; k < V; k++ {
		b.quantset[k] = vI32("qset", k)
		vFact(vAnd(b.quantset[k] >= 0, b.quantset[k] <= b.quantsetID))
	}
	return w
}

// enter: state at the entry of a recursive operation
func (w *cWorld) enter(op string, meas int, rs ...int) {
	w.cur, w.meas = op, meas
	w.b.refstack = append(w.b.refstack[:0], rs...)
	w.rs = append([]int{}, rs...)
	b := w.b
	w.aop, w.xop, w.xid, w.qid, w.rid = b.applycache.op, b.appexcache.op, b.appexcache.id, b.quantcache.id, b.replacecache.id
	w.qsid, w.qlast = b.quantsetID, b.quantlast
	w.qsetc = append([]int32{}, b.quantset...)
}

// leave: frame conditions at the exit of a recursive operation
func (w *cWorld) leave() {
	b := w.b
	vReach("end")
	same := len(b.refstack) == len(w.rs)
	vAssert(same, "reference stack not restored")
	if same {
		for k, r := range w.rs {
			vAssert(b.refstack[k] == r, "reference stack not restored")
		}
	}
	vAssert(vAnd(b.applycache.op == w.aop, vAnd(b.appexcache.op == w.xop, b.appexcache.id == w.xid)), "operator registers not restored")
	vAssert(vAnd(b.replacecache.id == w.rid, vAnd(b.quantsetID == w.qsid, b.quantlast == w.qlast)), "operator registers not restored")
	vAssert(len(b.quantset) == w.V, "quantset changed")
	for k := 0; k < w.V; k++ {
		vAssert(b.quantset[k] == w.qsetc[k], "quantset changed")
	}
}

// post: the result denotes den, or the operation failed with an error status
func (w *cWorld) post(res int, den bool) {
	if res < 0 {
		vReach("fail")
		vAssert(w.b.error != nil, "failure without an error status")
		vAssert(w.failed, "operation fails although every node was created")
		return
	}
	vReach("result")
	w.base(res)
	vAssert(w.ok(res), "the result is not a node in use")
	vAssert(w.d(res) == den, "wrong result")
}

// setQuant: arbitrary quantification state for the variables of s
func (w *cWorld) setQuant(s int) {
	b := w.b
	w.svar, w.hasS = s, true
	for _, i := range vRecorded("base") {
		w.lemma(i)
	}
	w.touch(s)
	qs := vSelW(w.qs, s)
	for k := 0; k < w.V; k++ {
		in := qs&cS2(k) != 0
		vAssume(in == (b.quantset[k] == b.quantsetID))
		vAssume(vImp(in, b.quantlast >= int32(k)))
	}
	b.applycache.op = int(OPor)
}

func V_C_apply() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	w.enter("apply", cMin(w.l(l), w.l(r)), l, r)
	vTrace("op", w.aop)
	res := w.b.apply(l, r)
	w.post(res, cOp(w.aop, w.d(l), w.d(r)))
	w.leave()
}

// a failed operand is never hidden
func V_C_applyfail() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	w.b.applycache.op = int(OPor)
	l = vIte(vBool("lf"), -1, l)
	r = vIte(vBool("rf"), -1, r)
	vAssume(vOr(l < 0, r < 0))
	w.b.error = vErr{}
	w.enter("apply", -1, l, r)
	res := w.b.apply(l, r)
	vAssert(vOr(res == -1, vAnd(res == 1, vOr(l == 1, r == 1))), "apply hides the failure of an operand")
	w.leave()
}

func V_C_not() {
	w := cNew()
	n := w.operand("n")
	w.enter("not", w.l(n), n)
	res := w.b.not(n)
	w.post(res, !w.d(n))
	w.leave()
}

func V_C_ite() {
	w := cNew()
	f, g, h := w.operand("f"), w.operand("g"), w.operand("h")
	w.enter("ite", cMin(w.l(f), cMin(w.l(g), w.l(h))), f, g, h)
	res := w.b.ite(f, g, h)
	w.post(res, cIteF(w.d(f), w.d(g), w.d(h)))
	w.leave()
}

func V_C_quant() {
	w := cNew()
	n, s := w.operand("n"), w.operand("s")
	w.setQuant(s)
	w.enter("quant", w.l(n), n, s)
	res := w.b.quant(n, s)
	w.post(res, w.ex(n, s))
	w.leave()
}

func V_C_appquant() {
	w := cNew()
	l, r, s := w.operand("l"), w.operand("r"), w.operand("s")
	w.setQuant(s)
	b := w.b
	b.appexcache.id = s<<2 | b.appexcache.op
	w.enter("appquant", cMin(w.l(l), w.l(r)), l, r, s)
	vTrace("op", w.xop)
	w.exopDef(w.xop, l, r, s)
	res := b.appquant(l, r, s)
	w.post(res, w.exop(w.xop, l, r, s))
	w.leave()
}

// anyReplacer: an arbitrary well-formed renaming
func (w *cWorld) anyReplacer() *replacer {
	r := &replacer{id: vInt("repid"), last: int32(vRange("last", 0, w.V-1))}
	for k := 0; k < w.V; k++ {
		r.image = append(r.image, int32(vRange("img", 0, w.V-1, k)))
	}
	for k := 0; k < w.V; k++ {
		vTrace("img", int(r.image[k]), k)
		vFact(vImp(r.image[k] != int32(k), r.last >= int32(k)))
		for j := 0; j < w.V; j++ {
			if j != k {
				// a new variable is not renamed, and is the new name of one variable only
				vFact(vImp(r.image[k] == int32(j), r.image[j] == int32(j)))
				for i := k + 1; i < w.V; i++ {
					if i != j {
						vFact(!vAnd(r.image[k] == int32(j), r.image[i] == int32(j)))
					}
				}
			}
		}
	}
	w.rep = r
	w.b.replacecache.id = r.id
	return r
}

func (w *cWorld) postRefuse(res int, den bool, may bool) {
	if res < 0 {
		vReach("fail")
		vAssert(w.b.error != nil, "failure without an error status")
		vAssert(vOr(w.failed, may), "the renaming is refused without reason")
		return
	}
	vReach("result")
	w.base(res)
	vAssert(w.ok(res), "the result is not a node in use")
	vAssert(w.d(res) == den, "wrong result")
}

func V_C_replace() {
	w := cNew()
	r := w.anyReplacer()
	n := w.operand("n")
	w.enter("replace", w.l(n), n)
	res := w.b.replace(n, r)
	w.postRefuse(res, vSelB(w.dem, n), w.clash(w.s(n)))
	w.leave()
}

func V_C_correctify() {
	w := cNew()
	l, h := w.operand("l"), w.operand("h")
	level := int32(vRange("level", 0, w.V-1))
	vTrace("level", int(level))
	w.enter("correctify", cMin(w.l(l), w.l(h)), l, h)
	res := w.b.correctify(level, l, h)
	w.postRefuse(res, w.corrF(level, l, h), w.corrDep(level, l, h))
	w.leave()
}

// operators outside the supported range
func V_C_applybad() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	w.b.applycache.op = vInt("bad")
	vAssume(vOr(w.b.applycache.op < 0, w.b.applycache.op > 9))
	w.enter("apply", -1, l, r)
	vReach("called")
	res := w.b.apply(l, r)
	vAssert(res == -1, "apply accepts an unknown operator")
	vAssert(w.b.error != nil, "failure without an error status")
	w.leave()
}

func V_C_appquantbad() {
	w := cNew()
	l, r, s := w.operand("l"), w.operand("r"), w.operand("s")
	w.setQuant(s)
	w.b.appexcache.op = vInt("bad")
	vAssume(vOr(w.b.appexcache.op < 0, w.b.appexcache.op > 4))
	w.enter("appquant", -1, l, r, s)
	vReach("called")
	res := w.b.appquant(l, r, s)
	vAssert(res == -1, "appquant accepts an unknown operator")
	vAssert(w.b.error != nil, "failure without an error status")
	w.leave()
}

// ---------- calls of the public functions ----------

// postNode: the Node returned denotes den, or is nil with an error status
func (w *cWorld) postNode(n Node, den bool, may bool) {
	if n == nil {
		vReach("?nil")
		vAssert(w.b.error != nil, "nil result without an error status")
		vAssert(vOr(w.failed, may), "operation fails although every node was created")
		return
	}
	vReach("node")
	w.base(*n)
	vAssert(w.ok(*n), "the result is not a node in use")
	vAssert(w.d(*n) == den, "wrong result")
}

func (w *cWorld) varset(name string) int {
	s := w.operand(name)
	vFact(vSelB(w.cube, s))
	w.svar, w.hasS = s, true
	for _, i := range vRecorded("base") {
		w.lemma(i)
	}
	return s
}

func V_W_apply() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	op := vRange("op", 0, 9)
	vTrace("op", op)
	n := w.b.Apply(&l, &r, Operator(op))
	w.postNode(n, cOp(op, w.d(l), w.d(r)), false)
}

func V_W_applybad() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	op := vInt("op")
	vAssume(vOr(op < 0, op > 9))
	n := w.b.Apply(&l, &r, Operator(op))
	vReach("called")
	vAssert(n == nil, "Apply accepts an unknown operator")
	vAssert(w.b.error != nil, "nil result without an error status")
}

func V_W_imp() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	n := w.b.Imp(&l, &r)
	w.postNode(n, vOr(!w.d(l), w.d(r)), false)
}

func V_W_equiv() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	n := w.b.Equiv(&l, &r)
	w.postNode(n, w.d(l) == w.d(r), false)
}

// And, Or of n operands
func V_W_nary() {
	w := cNew()
	k := vParam("n", 3)
	var ns []Node
	and, or := true, false
	for i := 0; i < k; i++ {
		x := w.operand([4]string{"x0", "x1", "x2", "x3"}[i])
		w.hand = append(w.hand, x)
		ns = append(ns, &x)
		and, or = vAnd(and, w.d(x)), vOr(or, w.d(x))
	}
	if vParam("or", 0) == 0 {
		w.postNode(w.b.And(ns...), and, false)
	} else {
		w.postNode(w.b.Or(ns...), or, false)
	}
}

func V_W_not() {
	w := cNew()
	n := w.operand("n")
	w.postNode(w.b.Not(&n), !w.d(n), false)
}

func V_W_ite() {
	w := cNew()
	f, g, h := w.operand("f"), w.operand("g"), w.operand("h")
	w.postNode(w.b.Ite(&f, &g, &h), cIteF(w.d(f), w.d(g), w.d(h)), false)
}

func V_W_exist() {
	w := cNew()
	n := w.operand("n")
	s := w.varset("s")
	w.postNode(w.b.Exist(&n, &s), w.ex(n, s), false)
}

func V_W_appex() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	s := w.varset("s")
	op := vRange("op", 0, 3)
	vTrace("op", op)
	n := w.b.AppEx(&l, &r, Operator(op), &s)
	w.exopDef(op, l, r, s)
	w.postNode(n, w.exop(op, l, r, s), false)
}

func V_W_andexist() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	s := w.varset("s")
	n := w.b.AndExist(&l, &r, &s)
	w.exopDef(0, l, r, s)
	w.postNode(n, w.exop(0, l, r, s), false)
}

func V_W_appexbad() {
	w := cNew()
	l, r := w.operand("l"), w.operand("r")
	s := w.varset("s")
	op := vInt("op")
	vAssume(vOr(op < 0, op > 3))
	n := w.b.AppEx(&l, &r, Operator(op), &s)
	vReach("called")
	vAssert(n == nil, "AppEx accepts an unsupported operator")
	vAssert(w.b.error != nil, "nil result without an error status")
}

func V_W_replace() {
	w := cNew()
	r := w.anyReplacer()
	w.b.replacecache.id = vInt("rid2")
	n := w.operand("n")
	w.postNode(w.b.Replace(&n, r), vSelB(w.dem, n), w.clash(w.s(n)))
}

// Makeset of k arbitrary variables
func V_W_makeset() {
	w := cNew()
	k := vParam("n", 3)
	var vs []int
	den, valid := true, true
	for i := 0; i < k; i++ {
		v := vInt("v", i)
		vs = append(vs, v)
		vTrace("v", v, i)
		in := vAnd(v >= 0, v < w.V)
		valid = vAnd(valid, in)
		den = vAnd(den, w.sg(v))
	}
	old := append([]int{}, vs...)
	n := w.b.Makeset(vs)
	for i := range old {
		vAssert(vs[i] == old[i], "Makeset changes its argument")
	}
	if !valid {
		vReach("invalid")
		vAssert(n != nil && *n == 0, "Makeset of an unknown variable is not False")
		vAssert(w.b.error != nil, "Makeset of an unknown variable without an error status")
		return
	}
	w.postNode(n, den, false)
}

// Makecube of k increasing variables, polarity of k2 elements
func V_W_makecube() {
	w := cNew()
	k, k2 := vParam("n", 3), vParam("m", 3)
	var vs []int
	var ps []bool
	den, valid := true, true
	for i := 0; i < k; i++ {
		v := vInt("v", i)
		if i > 0 {
			vAssume(v > vs[i-1])
		}
		vs = append(vs, v)
		valid = vAnd(valid, vAnd(v >= 0, v < w.V))
	}
	for i := 0; i < k2; i++ {
		p := vBool("p", i)
		ps = append(ps, p)
		if i < k {
			den = vAnd(den, w.sg(vs[i]) == p)
		} else if k == 0 && i < w.V {
			den = vAnd(den, w.sigma[i] == p)
		}
	}
	n := w.b.Makecube(vs, ps)
	if (k > 0 && k != k2) || (k == 0 && k2 != w.V) {
		vReach("length")
		vAssert(n == nil, "Makecube accepts slices of different lengths")
		vAssert(w.b.error != nil, "nil result without an error status")
		return
	}
	if !valid {
		vReach("invalid")
		vAssert(n == nil, "Makecube accepts an unknown variable")
		vAssert(w.b.error != nil, "nil result without an error status")
		return
	}
	w.postNode(n, den, false)
}
