package rudd

// Native confirmation driver.  A violation found by the solver in a modular ("C"/"W") job starts
// from an arbitrary intermediate state; it is reported only when a concrete history of public calls
// on the real code shows it.  This driver looks for such a history: it compares every result with
// truth tables over at most six support variables.  It never decides a property by itself.

import (
	"errors"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

type dFail struct {
	Kind string   `json:"kind"`
	What string   `json:"what"`
	Hist []string `json:"history"`
}

type dStop struct{ f dFail }

type dH struct {
	n  Node
	tt uint64
}

type dW struct {
	b     *BDD
	V, K  int   // variables; support variables
	pos   []int // positions of the support variables, increasing
	live  []dH
	hist  []string
	r     *rand.Rand
	may   bool // node creation may fail (limits on the table)
	ops   []string
	accept map[string]bool
	ids   map[uint64]int
	steps int
	ff    bool
}

func (w *dW) fail(kind, format string, a ...interface{}) {
	base := kind
	if i := strings.Index(kind, ":"); i > 0 && !w.accept[kind] {
		base = kind[:i]
	}
	if !w.accept[kind] && !w.accept[base] {
		return
	}
	h := w.hist
	if len(h) > 400 {
		h = append([]string{h[0], "..."}, h[len(h)-400:]...)
	}
	panic(dStop{dFail{kind, fmt.Sprintf(format, a...), append([]string(nil), h...)}})
}

func (w *dW) log(format string, a ...interface{}) { w.hist = append(w.hist, fmt.Sprintf(format, a...)) }

func (w *dW) mask() uint64 {
	if w.K == 6 {
		return ^uint64(0)
	}
	return 1<<(1<<uint(w.K)) - 1
}

// varTT: truth table of support variable i (assignment a gives variable i the bit i of a)
func (w *dW) varTT(i int) uint64 {
	var t uint64
	for a := 0; a < 1<<uint(w.K); a++ {
		if a>>uint(i)&1 == 1 {
			t |= 1 << uint(a)
		}
	}
	return t
}

func dTT(op Operator, f, g uint64) uint64 {
	switch op {
	case OPand:
		return f & g
	case OPxor:
		return f ^ g
	case OPor:
		return f | g
	case OPnand:
		return ^(f & g)
	case OPnor:
		return ^(f | g)
	case OPimp:
		return ^f | g
	case OPbiimp:
		return ^(f ^ g)
	case OPdiff:
		return f &^ g
	case OPless:
		return ^f & g
	case OPinvimp:
		return f | ^g
	}
	return 0
}

func (w *dW) existTT(f uint64, set int) uint64 {
	for i := 0; i < w.K; i++ {
		if set>>uint(i)&1 == 1 {
			v := w.varTT(i)
			s := uint(1) << uint(i)
			hi, lo := f&v, f&^v
			f = hi | hi>>s | lo | lo<<s
		}
	}
	return f & w.mask()
}

// eval gives the truth table of a node, with Label, Low and High
func (w *dW) eval(n Node) (tt uint64, ok bool) {
	memo := map[int]uint64{}
	ok = true
	var rec func(n Node, depth int) uint64
	rec = func(n Node, depth int) uint64 {
		if n == nil || depth > w.V+2 {
			ok = false
			return 0
		}
		if *n == 0 {
			return 0
		}
		if *n == 1 {
			return w.mask()
		}
		if t, in := memo[*n]; in {
			return t
		}
		lab := w.b.Label(n)
		i := -1
		for k, p := range w.pos {
			if p == lab {
				i = k
			}
		}
		if i < 0 {
			ok = false
			return 0
		}
		lo, hi := w.b.Low(n), w.b.High(n)
		v := w.varTT(i)
		t := rec(lo, depth+1)&^v | rec(hi, depth+1)&v
		vFire(lo)
		vFire(hi)
		memo[*n] = t
		return t
	}
	tt = rec(n, 0)
	return tt, ok
}

// result checks the outcome of one call
func (w *dW) result(op string, n Node, want uint64) {
	want &= w.mask()
	if n == nil {
		if !w.b.Errored() {
			w.fail("nil:"+op, "%s returns nil without an error", op)
		}
		if !w.may {
			w.fail("nil:"+op, "%s fails: %s", op, w.b.Error())
		}
		panic(dStop{dFail{Kind: "restart"}})
	}
	had := w.b.Errored()
	tt, ok := w.eval(n)
	if !ok || (w.b.Errored() && !had) {
		w.fail("wrong:"+op, "%s returns a node (%d) that is not valid: %s", op, *n, w.b.Error())
		panic(dStop{dFail{Kind: "restart"}})
	}
	if tt != want {
		w.fail("wrong:"+op, "%s returns %x instead of %x (truth table over variables %v)", op, tt, want, w.pos)
	}
	if w.b.Errored() && !w.may {
		w.fail("error:"+op, "%s sets the error status: %s", op, w.b.Error())
	}
	if id, in := w.ids[tt]; in && id != *n {
		w.fail("canon:"+op, "%s returns node %d, but the same function is also node %d", op, *n, id)
	}
	w.keep(n, tt)
	if w.b.Errored() {
		panic(dStop{dFail{Kind: "restart"}})
	}
}

func (w *dW) keep(n Node, tt uint64) {
	w.ids[tt] = *n
	w.live = append(w.live, dH{n, tt})
}

func (w *dW) drop(i int) {
	h := w.live[i]
	w.live[i] = w.live[len(w.live)-1]
	w.live = w.live[:len(w.live)-1]
	same, alias := false, false
	for _, o := range w.live {
		same = same || o.tt == h.tt
		alias = alias || o.n == h.n // And(n) and Exist(n, {}) return n itself
	}
	if !same {
		delete(w.ids, h.tt)
	}
	if !alias {
		vFire(h.n)
	}
}

func (w *dW) checkLive() {
	for _, h := range w.live {
		tt, ok := w.eval(h.n)
		if !ok || tt != h.tt {
			w.fail("live", "a live node (%d) was %x and is now %x", *h.n, h.tt, tt)
			panic(dStop{dFail{Kind: "restart"}})
		}
	}
}

func (w *dW) checkTable() {
	type tr struct{ a, b, c int }
	seen := map[tr]int{}
	nodes := map[int]tr{}
	_ = w.b.Allnodes(func(id, level, low, high int) error {
		nodes[id] = tr{level, low, high}
		return nil
	})
	for id, t := range nodes {
		if id < 2 {
			continue
		}
		if o, in := seen[t]; in {
			w.fail("table", "nodes %d and %d are both (%d,%d,%d)", o, id, t.a, t.b, t.c)
		}
		seen[t] = id
		if t.b == t.c {
			w.fail("table", "node %d has two equal branches", id)
		}
		if t.a < 0 || t.a >= w.V {
			w.fail("table", "node %d has level %d", id, t.a)
		}
		for _, c := range []int{t.b, t.c} {
			ct, in := nodes[c]
			if !in {
				w.fail("table", "node %d has branch %d, which is not a node", id, c)
			} else if ct.a <= t.a {
				w.fail("table", "node %d is not before its branch %d", id, c)
			}
		}
	}
}

func (w *dW) pick() dH { return w.live[w.r.Intn(len(w.live))] }

func (w *dW) lit(i int, neg bool) dH {
	if neg {
		n := w.b.NIthvar(w.pos[i])
		return dH{n, ^w.varTT(i) & w.mask()}
	}
	return dH{w.b.Ithvar(w.pos[i]), w.varTT(i)}
}

func (w *dW) varset(set int) Node {
	// built by hand, so that it does not depend on Makeset
	n := w.b.True()
	for i := w.K - 1; i >= 0; i-- {
		if set>>uint(i)&1 == 1 {
			n = w.b.Apply(w.b.Ithvar(w.pos[i]), n, OPand)
		}
	}
	if n == nil {
		panic(dStop{dFail{Kind: "restart"}})
	}
	return n
}

func (w *dW) setOf(set int) []int {
	var s []int
	for i := 0; i < w.K; i++ {
		if set>>uint(i)&1 == 1 {
			s = append(s, w.pos[i])
		}
	}
	return s
}

func (w *dW) step() {
	w.steps++
	op := w.ops[w.r.Intn(len(w.ops))]
	w.do(op)
	if len(w.live) > 40 {
		w.live = append([]dH(nil), w.live...)
	}
	limit := 3 + w.r.Intn(14)
	for len(w.live) > limit {
		w.drop(w.r.Intn(len(w.live)))
	}
	if w.r.Intn(4) == 0 {
		w.checkLive()
	}
	if w.r.Intn(16) == 0 {
		w.checkTable()
	}
	if w.r.Intn(64) == 0 {
		runtime.GC()
	}
}

func (w *dW) do(op string) {
	b := w.b
	switch op {
	case "apply":
		f, g := w.pick(), w.pick()
		o := Operator(w.r.Intn(10))
		w.log("Apply(%d:%x, %d:%x, %s)", *f.n, f.tt, *g.n, g.tt, o)
		w.result(op, b.Apply(f.n, g.n, o), dTT(o, f.tt, g.tt))
	case "build": // not under test: gives varied functions
		i := w.r.Intn(w.K)
		l, f := w.lit(i, w.r.Intn(2) == 0), w.pick()
		o := []Operator{OPand, OPor, OPxor}[w.r.Intn(3)]
		n := b.Apply(l.n, f.n, o)
		w.log("build Apply(%d, %d:%x, %s)", *l.n, *f.n, f.tt, o)
		w.result(op, n, dTT(o, l.tt, f.tt))
	case "imp":
		f, g := w.pick(), w.pick()
		w.log("Imp(%d:%x, %d:%x)", *f.n, f.tt, *g.n, g.tt)
		w.result(op, b.Imp(f.n, g.n), ^f.tt|g.tt)
	case "equiv":
		f, g := w.pick(), w.pick()
		w.log("Equiv(%d:%x, %d:%x)", *f.n, f.tt, *g.n, g.tt)
		w.result(op, b.Equiv(f.n, g.n), ^(f.tt ^ g.tt))
	case "and", "or":
		k := w.r.Intn(6)
		var ns []Node
		tt := w.mask()
		if op == "or" {
			tt = 0
		}
		s := ""
		for i := 0; i < k; i++ {
			f := w.pick()
			ns = append(ns, f.n)
			s += fmt.Sprintf(" %d:%x", *f.n, f.tt)
			if op == "or" {
				tt |= f.tt
			} else {
				tt &= f.tt
			}
		}
		w.log("%s(%s)", op, s)
		if op == "or" {
			w.result(op, b.Or(ns...), tt)
		} else {
			w.result(op, b.And(ns...), tt)
		}
	case "not":
		f := w.pick()
		w.log("Not(%d:%x)", *f.n, f.tt)
		w.result(op, b.Not(f.n), ^f.tt)
	case "ite":
		f, g, h := w.pick(), w.pick(), w.pick()
		w.log("Ite(%d:%x, %d:%x, %d:%x)", *f.n, f.tt, *g.n, g.tt, *h.n, h.tt)
		w.result(op, b.Ite(f.n, g.n, h.n), f.tt&g.tt|^f.tt&h.tt)
	case "exist":
		f := w.pick()
		set := w.r.Intn(1 << uint(w.K))
		s := w.varset(set)
		w.log("Exist(%d:%x, set %b = node %d)", *f.n, f.tt, set, *s)
		w.result(op, b.Exist(f.n, s), w.existTT(f.tt, set))
		vFire(s)
	case "appex", "andexist":
		f, g := w.pick(), w.pick()
		set := w.r.Intn(1 << uint(w.K))
		s := w.varset(set)
		o := Operator(w.r.Intn(4))
		if op == "andexist" {
			o = OPand
		}
		w.log("%s(%d:%x, %d:%x, %s, set %b = node %d)", op, *f.n, f.tt, *g.n, g.tt, o, set, *s)
		var n Node
		if op == "appex" {
			n = b.AppEx(f.n, g.n, o, s)
		} else {
			n = b.AndExist(f.n, g.n, s)
		}
		w.result(op, n, w.existTT(dTT(o, f.tt, g.tt)&w.mask(), set))
		vFire(s)
	case "replace":
		w.replace()
	case "makeset":
		set := w.r.Intn(1 << uint(w.K))
		s := w.setOf(set)
		if w.r.Intn(3) == 0 && len(s) > 0 {
			s = append(s, s[w.r.Intn(len(s))])
		}
		w.r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		in := append([]int(nil), s...)
		w.log("Makeset(%v)", s)
		n := b.Makeset(s)
		tt := w.mask()
		for i := 0; i < w.K; i++ {
			if set>>uint(i)&1 == 1 {
				tt &= w.varTT(i)
			}
		}
		if fmt.Sprint(in) != fmt.Sprint(s) {
			w.fail("wrong:makeset", "Makeset changes its argument from %v to %v", in, s)
		}
		w.result(op, n, tt)
		if n != nil {
			sc := b.Scanset(n)
			want := w.setOf(set)
			if fmt.Sprint(sc) != fmt.Sprint(want) {
				w.fail("wrong:scanset", "Scanset(Makeset(%v)) is %v", in, sc)
			}
		}
	case "makecube":
		set := 1 + w.r.Intn(1<<uint(w.K)-1)
		s := w.setOf(set)
		pol := make([]bool, len(s))
		tt := w.mask()
		for k, i := 0, 0; i < w.K; i++ {
			if set>>uint(i)&1 == 1 {
				pol[k] = w.r.Intn(2) == 0
				if pol[k] {
					tt &= w.varTT(i)
				} else {
					tt &^= w.varTT(i)
				}
				k++
			}
		}
		if w.K == w.V && w.r.Intn(2) == 0 && set == 1<<uint(w.K)-1 {
			s = nil
		}
		w.log("Makecube(%v, %v)", s, pol)
		w.result(op, b.Makecube(s, pol), tt)
	case "lowhigh":
		f := w.pick()
		if *f.n < 2 {
			return
		}
		lab := b.Label(f.n)
		for i, p := range w.pos {
			if p == lab {
				v := w.varTT(i)
				sh := uint(1) << uint(i)
				lo, hi := f.tt&^v, f.tt&v
				w.log("Low/High(%d:%x)", *f.n, f.tt)
				w.result(op, b.Low(f.n), lo|lo<<sh)
				w.result(op, b.High(f.n), hi|hi>>sh)
			}
		}
	case "lits":
		i := w.r.Intn(w.K)
		l := w.lit(i, w.r.Intn(2) == 0)
		w.log("literal %d", w.pos[i])
		w.result(op, l.n, l.tt)
	case "satcount":
		f := w.pick()
		c := 0
		for a := 0; a < 1<<uint(w.K); a++ {
			c += int(f.tt >> uint(a) & 1)
		}
		want := new(big.Int).Lsh(big.NewInt(int64(c)), uint(w.V-w.K))
		w.log("Satcount(%d:%x)", *f.n, f.tt)
		if got := b.Satcount(f.n); got.Cmp(want) != 0 {
			w.fail("wrong:satcount", "Satcount is %s instead of %s", got, want)
		}
	case "allsat":
		w.allsat()
	case "allnodes":
		w.allnodes()
	case "drop":
		if len(w.live) > 2 {
			i := w.r.Intn(len(w.live))
			w.log("drop %d", *w.live[i].n)
			w.drop(i)
		}
	case "dup": // a second handle to the same node
		f := w.pick()
		w.log("Apply(%d, %d, and)", *f.n, *f.n)
		w.result(op, b.Apply(f.n, f.n, OPand), f.tt)
	}
}

func (w *dW) replace() {
	b := w.b
	f := w.pick()
	perm := w.r.Perm(w.K)
	k := w.r.Intn(w.K + 1)
	var olds, news []int
	img := make([]int, w.K)
	for i := range img {
		img[i] = i
	}
	used := map[int]bool{}
	if w.r.Intn(2) == 0 { // a permutation of some variables
		sub := append([]int(nil), perm[:k]...)
		sh := append([]int(nil), sub...)
		w.r.Shuffle(k, func(i, j int) { sh[i], sh[j] = sh[j], sh[i] })
		for i := range sub {
			olds, news = append(olds, w.pos[sub[i]]), append(news, w.pos[sh[i]])
			img[sub[i]] = sh[i]
		}
	} else {
		for i := 0; i < k/2; i++ {
			olds, news = append(olds, w.pos[perm[i]]), append(news, w.pos[perm[k-1-i]])
			img[perm[i]] = perm[k-1-i]
			used[perm[i]], used[perm[k-1-i]] = true, true
		}
	}
	r, err := b.NewReplacer(olds, news)
	w.log("NewReplacer(%v, %v) -> %v", olds, news, err)
	if err != nil {
		// a renaming such as {a->b} with b not renamed is accepted; permutations where a new variable
		// is also an old one that moves are refused by design
		bad := false
		for _, v := range news {
			for i, o := range olds {
				if o == v && news[i] != v {
					bad = true
				}
			}
		}
		if !bad {
			w.fail("wrong:newreplacer", "NewReplacer(%v, %v) refuses: %v", olds, news, err)
		}
		return
	}
	// the documented case: f does not depend on the new variables, unless they are renamed too
	for i := 0; i < w.K; i++ {
		for j := 0; j < w.K; j++ {
			if img[i] == j && i != j {
				v := w.varTT(j)
				sh := uint(1) << uint(j)
				if (f.tt&v)>>sh != f.tt&^v { // f depends on the target
					dep := false
					vi := w.varTT(i)
					if (f.tt&vi)>>(uint(1)<<uint(i)) != f.tt&^vi {
						dep = true
					}
					n := b.Replace(f.n, r)
					w.log("Replace(%d:%x) with a target in the support", *f.n, f.tt)
					if n == nil {
						if !b.Errored() {
							w.fail("nil:replace", "Replace returns nil without an error")
						}
						panic(dStop{dFail{Kind: "restart"}})
					}
					_ = dep
					w.result("replace", n, w.subst(f.tt, img))
					return
				}
			}
		}
	}
	n := b.Replace(f.n, r)
	w.log("Replace(%d:%x) by %v", *f.n, f.tt, img)
	w.result("replace", n, w.subst(f.tt, img))
}

// subst: g(a) = f(a'), with a'[i] = a[img[i]]
func (w *dW) subst(f uint64, img []int) uint64 {
	var t uint64
	for a := 0; a < 1<<uint(w.K); a++ {
		x := 0
		for i, j := range img {
			if a>>uint(j)&1 == 1 {
				x |= 1 << uint(i)
			}
		}
		t |= f >> uint(x) & 1 << uint(a)
	}
	return t
}

func (w *dW) allsat() {
	f := w.pick()
	w.log("Allsat(%d:%x)", *f.n, f.tt)
	var got uint64
	msg := ""
	err := w.b.Allsat(func(p []int) error {
		if len(p) != w.V {
			msg = "a profile of wrong length"
			return nil
		}
		var c uint64 = w.mask()
		for v, x := range p {
			in := -1
			for k, q := range w.pos {
				if q == v {
					in = k
				}
			}
			if x == -1 {
				continue
			}
			if (x != 0 && x != 1) || in < 0 {
				msg = fmt.Sprintf("value %d for variable %d", x, v)
				return nil
			}
			if x == 1 {
				c &= w.varTT(in)
			} else {
				c &^= w.varTT(in)
			}
		}
		if got&c != 0 {
			msg = "an assignment is enumerated twice"
		}
		got |= c
		return nil
	}, f.n)
	if err != nil || msg != "" || got != f.tt {
		w.fail("wrong:allsat", "Allsat enumerates %x for %x; %s %v", got, f.tt, msg, err)
	}
	stop := errors.New("stop")
	cnt, n := 0, 1+w.r.Intn(3)
	total := 0
	_ = w.b.Allsat(func(p []int) error { total++; return nil }, f.n)
	err = w.b.Allsat(func(p []int) error {
		cnt++
		if cnt == n {
			return stop
		}
		return nil
	}, f.n)
	if n <= total && (err != stop || cnt != n) {
		w.fail("wrong:allsat", "Allsat calls the function %d times and returns %v after an error at call %d", cnt, err, n)
	}
}

func (w *dW) allnodes() {
	var roots []Node
	k := 1 + w.r.Intn(3)
	for i := 0; i < k; i++ {
		roots = append(roots, w.pick().n)
	}
	want := map[int]bool{}
	var rec func(n Node)
	rec = func(n Node) {
		if n == nil || *n < 2 || want[*n] {
			return
		}
		want[*n] = true
		lo, hi := w.b.Low(n), w.b.High(n)
		rec(lo)
		rec(hi)
		vFire(lo)
		vFire(hi)
	}
	s := ""
	for _, n := range roots {
		rec(n)
		s += fmt.Sprintf(" %d", *n)
	}
	w.log("Allnodes(%s)", s)
	var got []int
	bad := ""
	err := w.b.Allnodes(func(id, level, low, high int) error {
		if id > 1 {
			got = append(got, id)
			n := inode(id)
			lo, hi := w.b.Low(n), w.b.High(n)
			if w.b.Label(n) != level || *lo != low || *hi != high {
				bad = fmt.Sprintf("node %d is given as (%d,%d,%d)", id, level, low, high)
			}
			vFire(lo)
			vFire(hi)
		}
		return nil
	}, roots...)
	var ids []int
	for id := range want {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	sort.Ints(got)
	if err != nil || fmt.Sprint(ids) != fmt.Sprint(got) {
		w.fail("wrong:allnodes", "Allnodes visits %v instead of %v; %v", got, ids, err)
	}
	_ = bad
	stop := errors.New("stop")
	cnt := 0
	err = w.b.Allnodes(func(id, level, low, high int) error { cnt++; return stop }, roots...)
	if cnt > 0 && (cnt != 1 || err != stop) {
		w.fail("wrong:allnodes", "Allnodes goes on after an error (%d calls, %v)", cnt, err)
	}
	w.checkLive()
}

// world makes a new BDD with random settings
func dNew(r *rand.Rand, ops []string, accept map[string]bool, small bool) *dW {
	w := &dW{r: r, ops: ops, accept: accept, ids: map[uint64]int{}}
	w.V = 1 + r.Intn(6)
	w.K = w.V
	switch {
	case small:
		w.V = 1 + r.Intn(3)
		w.K = w.V
	case r.Intn(8) == 0:
		w.V = []int{7, 40, 130, 300, 70000}[r.Intn(5)]
		w.K = 2 + r.Intn(4)
	}
	if w.K > w.V {
		w.K = w.V
	}
	for _, p := range r.Perm(w.V)[:w.K] {
		w.pos = append(w.pos, p)
	}
	sort.Ints(w.pos)
	opts := []func(*configs){}
	desc := fmt.Sprintf("New(%d", w.V)
	nodesize := 0
	if r.Intn(3) > 0 {
		nodesize = 2*w.V + 2 + r.Intn(12)
		if r.Intn(4) == 0 {
			nodesize += r.Intn(300)
		}
		opts = append(opts, Nodesize(nodesize))
		desc += fmt.Sprintf(", Nodesize(%d)", nodesize)
	} else {
		nodesize = 2*w.V + 2
	}
	cs := []int{0, 1, 2, 3, 5, 11, 40, 1000}[r.Intn(8)]
	if w.V > 1000 && cs == 0 {
		cs = 100
	}
	opts = append(opts, Cachesize(cs))
	desc += fmt.Sprintf(", Cachesize(%d)", cs)
	if r.Intn(2) == 0 {
		x := []int{1, 10, 25, 50, 100, 200}[r.Intn(6)]
		opts = append(opts, Cacheratio(x))
		desc += fmt.Sprintf(", Cacheratio(%d)", x)
	}
	if r.Intn(2) == 0 {
		x := []int{0, 1, 10, 50, 90, 99, 100}[r.Intn(7)]
		opts = append(opts, Minfreenodes(x))
		desc += fmt.Sprintf(", Minfreenodes(%d)", x)
	}
	if r.Intn(3) == 0 {
		x := []int{0, 64, 100, 1000}[r.Intn(4)]
		if r.Intn(3) == 0 {
			x = 1 + r.Intn(20)
			w.may = true
		}
		opts = append(opts, Maxnodeincrease(x))
		desc += fmt.Sprintf(", Maxnodeincrease(%d)", x)
	}
	if r.Intn(3) == 0 {
		x := nodesize + r.Intn(40)
		w.may = true
		opts = append(opts, Maxnodesize(x))
		desc += fmt.Sprintf(", Maxnodesize(%d)", x)
	}
	if w.K <= 2 && w.V == w.K && nodesize >= 16 {
		w.may = false // every function has a slot
	}
	w.log("%s)", desc)
	b, err := New(w.V, opts...)
	if err != nil {
		w.fail("new", "%s) fails: %v", desc, err)
		panic(dStop{dFail{Kind: "restart"}})
	}
	w.b = b
	dAccel(w)
	w.keep(b.True(), w.mask())
	w.keep(b.False(), 0)
	for i := 0; i < w.K; i++ {
		l := w.lit(i, false)
		w.keep(l.n, l.tt)
	}
	return w
}

func dRun(r *rand.Rand, ops []string, accept map[string]bool, n int, small bool) (f *dFail) {
	var w *dW
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(dStop); ok {
				if s.f.Kind != "restart" {
					f = &s.f
				}
				return
			}
			h := []string{}
			if w != nil {
				h = w.hist
			}
			if accept["panic"] {
				f = &dFail{"panic", fmt.Sprint(e), h}
			}
		}
	}()
	w = dNew(r, ops, accept, small)
	for i := 0; i < n; i++ {
		w.step()
	}
	w.checkLive()
	w.checkTable()
	return nil
}

type dJob struct {
	Ops    []string `json:"ops"`
	Accept []string `json:"accept"`
	Secs   float64  `json:"secs"`
	Seed   int64    `json:"seed"`
}

func TestVerifDriver(t *testing.T) {
	f := os.Getenv("VERIF_DRIVER")
	if f == "" {
		t.Skip()
	}
	js, _ := os.ReadFile(f)
	var job dJob
	if err := json.Unmarshal(js, &job); err != nil {
		t.Skip()
	}
	acc := map[string]bool{}
	for _, a := range job.Accept {
		acc[a] = true
	}
	end := time.Now().Add(time.Duration(job.Secs * float64(time.Second)))
	var mu sync.Mutex
	var best *dFail
	runs := 0
	var wg sync.WaitGroup
	for p := 0; p < runtime.GOMAXPROCS(0); p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(job.Seed*1000 + int64(p)))
			for i := 0; time.Now().Before(end); i++ {
				n := 20 + r.Intn(60)
				if i%4 == 3 {
					n = 600
				}
				x := dRun(r, job.Ops, acc, n, i%3 == 0)
				mu.Lock()
				runs++
				if x != nil && (best == nil || len(x.Hist) < len(best.Hist)) {
					best = x
				}
				done := best != nil
				mu.Unlock()
				if done {
					return
				}
			}
		}(p)
	}
	wg.Wait()
	out := map[string]interface{}{"runs": runs, "fail": best}
	b, _ := json.MarshalIndent(out, "", " ")
	fmt.Printf("\nVERIF-RESULT %s\n", strings.ReplaceAll(string(b), "\n", " "))
	if best != nil {
		t.Fail()
	}
}
