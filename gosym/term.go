package main

// Hash-consed SMT terms (Bool, BitVec up to 64 bits, arrays BV64 -> scalar) with local
// simplification.  One process handles one harness, so the tables are global.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SArr
)

type Sort struct {
	K    SortKind
	W    int
	Elem *Sort // arrays: index is always BV64
}

var BoolS = &Sort{K: SBool}
var bvSorts [65]*Sort
var arrSorts = map[*Sort]*Sort{}

func BV(w int) *Sort {
	if w < 1 || w > 64 {
		panic(fmt.Sprintf("bad width %d", w))
	}
	if bvSorts[w] == nil {
		bvSorts[w] = &Sort{K: SBV, W: w}
	}
	return bvSorts[w]
}

func ArrOf(e *Sort) *Sort {
	if s, ok := arrSorts[e]; ok {
		return s
	}
	s := &Sort{K: SArr, Elem: e}
	arrSorts[e] = s
	return s
}

func (s *Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return "(_ BitVec " + strconv.Itoa(s.W) + ")"
	}
	return "(Array (_ BitVec 64) " + s.Elem.String() + ")"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract
	OConcat
	OSelect
	OStore
	OUF
	OConstArr
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OSelect: "select", OStore: "store", OConcat: "concat"}

type Term struct {
	op   Op
	sort *Sort
	args [3]*Term
	n    int
	val  uint64
	lo   int // extract low bit
	name string
	id   int
	// leaves: number of leaves if this is a nest of ite with constant leaves (consts have 1); 0 otherwise
	leaves int
	printed bool
	um      uint64 // memo of umax (0: not computed)
}

type tkey struct {
	op         Op
	sort       *Sort
	a, b, c    int
	val        uint64
	lo         int
	name       string
}

var termTab = map[tkey]*Term{}
var termCount int

func mk(op Op, s *Sort, val uint64, lo int, name string, args ...*Term) *Term {
	k := tkey{op: op, sort: s, val: val, lo: lo, name: name, a: -1, b: -1, c: -1}
	n := len(args)
	if n > 0 {
		k.a = args[0].id
	}
	if n > 1 {
		k.b = args[1].id
	}
	if n > 2 {
		k.c = args[2].id
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, n: n, val: val, lo: lo, name: name, id: termCount}
	copy(t.args[:], args)
	termCount++
	if op == OConst {
		t.leaves = 1
	} else if op == OIte && t.args[1].leaves > 0 && t.args[2].leaves > 0 {
		t.leaves = len(leafVals(t))
		if t.leaves > 48 {
			t.leaves = 0
			delete(leafCache, t)
		}
	}
	termTab[k] = t
	return t
}

// leafVals: sorted distinct constant leaves of an ite nest
var leafCache = map[*Term][]uint64{}

func leafVals(t *Term) []uint64 {
	if t.op == OConst {
		return []uint64{t.val}
	}
	if v, ok := leafCache[t]; ok {
		return v
	}
	a, b := leafVals(t.args[1]), leafVals(t.args[2])
	r := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	leafCache[t] = r
	return r
}

var True = mk(OConst, BoolS, 1, 0, "")
var False = mk(OConst, BoolS, 0, 0, "")

func mask(w int) uint64 {
	if w == 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func Const(w int, v uint64) *Term { return mk(OConst, BV(w), v&mask(w), 0, "") }
func C64(v int64) *Term           { return Const(64, uint64(v)) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

var varList []*Term

func Var(s *Sort, name string) *Term {
	n := termCount
	t := mk(OVar, s, 0, 0, name)
	if termCount != n {
		varList = append(varList, t)
	}
	return t
}

var freshN int

func Fresh(s *Sort, hint string) *Term {
	freshN++
	return Var(s, fmt.Sprintf("%s!%d", hint, freshN))
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }
func (t *Term) S64() int64 { // signed value of a constant
	w := t.sort.W
	return int64(t.val<<(64-uint(w))) >> (64 - uint(w))
}

func Not(a *Term) *Term {
	if a.op == OConst {
		return BoolC(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return mk(ONot, BoolS, 0, 0, "", a)
}

func compl(a, b *Term) bool {
	return (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a)
}

func And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == False || b == False {
		return False
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if compl(a, b) {
		return False
	}
	// shallow absorption
	if a.op == OAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	if a.op == OAnd && (compl(a.args[0], b) || compl(a.args[1], b)) {
		return False
	}
	if b.op == OAnd && (compl(b.args[0], a) || compl(b.args[1], a)) {
		return False
	}
	if a.op == OOr {
		if a.args[0] == b || a.args[1] == b {
			return b
		}
		if compl(a.args[0], b) {
			return And(a.args[1], b)
		}
		if compl(a.args[1], b) {
			return And(a.args[0], b)
		}
	}
	if b.op == OOr {
		if b.args[0] == a || b.args[1] == a {
			return a
		}
		if compl(b.args[0], a) {
			return And(a, b.args[1])
		}
		if compl(b.args[1], a) {
			return And(a, b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OAnd, BoolS, 0, 0, "", a, b)
}

func Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == True || b == True {
		return True
	}
	if a == False {
		return b
	}
	if b == False {
		return a
	}
	if compl(a, b) {
		return True
	}
	if a.op == OOr && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OOr && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	if a.op == OOr && (compl(a.args[0], b) || compl(a.args[1], b)) {
		return True
	}
	if b.op == OOr && (compl(b.args[0], a) || compl(b.args[1], a)) {
		return True
	}
	if a.op == OAnd {
		if a.args[0] == b || a.args[1] == b {
			return b
		}
		if compl(a.args[0], b) {
			return Or(a.args[1], b)
		}
		if compl(a.args[1], b) {
			return Or(a.args[0], b)
		}
	}
	if b.op == OAnd {
		if b.args[0] == a || b.args[1] == a {
			return a
		}
		if compl(b.args[0], a) {
			return Or(a, b.args[1])
		}
		if compl(b.args[1], a) {
			return Or(a, b.args[0])
		}
		if a.op == OAnd {
			// (x&y)|(x&!y) -> x
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if a.args[i] == b.args[j] && compl(a.args[1-i], b.args[1-j]) {
						return a.args[i]
					}
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OOr, BoolS, 0, 0, "", a, b)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func AndL(ts ...*Term) *Term {
	r := True
	for _, t := range ts {
		r = And(r, t)
	}
	return r
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %v %v", a.sort, b.sort))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort.K == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		if a == c {
			return Or(c, b)
		}
		if b == c {
			return And(c, a)
		}
		if compl(a, c) {
			return And(Not(c), b)
		}
		if compl(b, c) {
			return Or(Not(c), a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	// ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	return mk(OIte, a.sort, 0, 0, "", c, a, b)
}

// lift1 applies f to the leaves of a constant-leaf ite nest.
func lift1(t *Term, key string, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OConst {
			return f(t)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := Ite(t.args[0], rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

func liftable(t *Term) bool { return t.op == OIte && t.leaves > 0 }

var eqMemo = map[[2]int]*Term{}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %v %v", a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return BoolC(a.val == b.val)
	}
	if a.sort.K == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if compl(a, b) {
			return False
		}
	}
	if b.op == OConst {
		a, b = b, a
	}
	// a const?
	if a.op == OConst && a.sort.K == SBV {
		if liftable(b) {
			k := [2]int{a.id, b.id}
			if r, ok := eqMemo[k]; ok {
				return r
			}
			found := false
			for _, v := range leafVals(b) {
				if v == a.val {
					found = true
				}
			}
			var r *Term
			if !found {
				r = False
			} else {
				r = lift1(b, "", func(l *Term) *Term { return BoolC(l.val == a.val) })
			}
			eqMemo[k] = r
			return r
		}
		switch b.op {
		case OZext:
			w := b.args[0].sort.W
			if a.val&^mask(w) != 0 {
				return False
			}
			return Eq(Const(w, a.val), b.args[0])
		case OSext:
			w := b.args[0].sort.W
			sv := Const(w, a.val)
			if uint64(sv.S64())&mask(a.sort.W) != a.val {
				return False
			}
			return Eq(sv, b.args[0])
		case OIte:
			// one arm constant
			if b.args[1].op == OConst || b.args[2].op == OConst {
				return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
			}
		case OAdd:
			if b.args[1].op == OConst {
				return Eq(Const(a.sort.W, a.val-b.args[1].val), b.args[0])
			}
		}
	} else if a.sort.K == SBV {
		// both non constant
		if liftable(a) && liftable(b) && a.leaves*b.leaves <= 64 {
			return lift1(a, "", func(l *Term) *Term { return Eq(l, b) })
		}
		if (a.op == OZext && b.op == OZext || a.op == OSext && b.op == OSext) && a.args[0].sort == b.args[0].sort {
			return Eq(a.args[0], b.args[0])
		}
		if a.op == OZext && b.op == OZext {
			x, y := a.args[0], b.args[0]
			if x.sort.W < y.sort.W {
				return Eq(Zext(x, y.sort.W), y)
			}
			return Eq(x, Zext(y, x.sort.W))
		}
		if a.op == OIte && (a.args[1] == b || a.args[2] == b) {
			if a.args[1] == b {
				return Or(a.args[0], Eq(a.args[2], b))
			}
			return Or(Not(a.args[0]), Eq(a.args[1], b))
		}
		if b.op == OIte && (b.args[1] == a || b.args[2] == a) {
			if b.args[1] == a {
				return Or(b.args[0], Eq(b.args[2], a))
			}
			return Or(Not(b.args[0]), Eq(b.args[1], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, BoolS, 0, 0, "", a, b)
}

func evalBin(op Op, w int, a, b uint64) uint64 {
	m := mask(w)
	sa := int64(a<<(64-uint(w))) >> (64 - uint(w))
	sb := int64(b<<(64-uint(w))) >> (64 - uint(w))
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSrem:
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sa < sb)
	case OSle:
		return bo(sa <= sb)
	}
	panic("evalBin")
}

func isCmp(op Op) bool { return op == OUlt || op == OUle || op == OSlt || op == OSle }

type binMemoK struct {
	op   Op
	a, b int
}

var binMemo = map[binMemoK]*Term{}

// umax: conservative unsigned maximum
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return umax(t.args[0])
	case OIte:
		if t.um == 0 {
			a, b := umax(t.args[1]), umax(t.args[2])
			if a > b {
				t.um = a
			} else {
				t.um = b
			}
		}
		return t.um
	case OBand:
		a, b := umax(t.args[0]), umax(t.args[1])
		if a < b {
			return a
		}
		return b
	case OUrem:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			a := umax(t.args[0])
			if a < t.args[1].val {
				return a
			}
			return t.args[1].val - 1
		}
		return umax(t.args[0])
	case OAdd, OMul:
		if t.um == 0 {
			m := mask(t.sort.W)
			a, b := umax(t.args[0]), umax(t.args[1])
			r := m
			if t.op == OAdd {
				if s, c := bits.Add64(a, b, 0); c == 0 && s <= m {
					r = s
				}
			} else if hi, lo := bits.Mul64(a, b); hi == 0 && lo <= m {
				r = lo
			}
			t.um = r
		}
		return t.um
	case OUdiv:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			return umax(t.args[0]) / t.args[1].val
		}
	case OLshr:
		if t.args[1].op == OConst && t.args[1].val < 64 {
			return umax(t.args[0]) >> t.args[1].val
		}
	}
	return mask(t.sort.W)
}

// narrow rewrites an arithmetic operation on values with many known zero bits to a narrower one.
func narrow(op Op, a, b *Term) *Term {
	w := a.sort.W
	if w < 16 {
		return nil
	}
	ma, mb := umax(a), umax(b)
	if ma == mask(w) || mb == mask(w) {
		return nil
	}
	m := ma
	if mb > m {
		m = mb
	}
	var r uint64
	switch op {
	case OAdd:
		s, c := bits.Add64(ma, mb, 0)
		if c != 0 {
			return nil
		}
		r = s
	case OMul:
		hi, lo := bits.Mul64(ma, mb)
		if hi != 0 {
			return nil
		}
		r = lo
	case OUrem:
		if b.op == OConst && b.val > ma {
			return a
		}
		r = ma
		if b.op != OConst {
			return nil
		}
	case OUdiv:
		if b.op != OConst || b.val == 0 {
			return nil
		}
		r = ma
	case OLshr:
		if b.op != OConst {
			return nil
		}
		r, m = ma, ma
		if b.val >= uint64(bits.Len64(ma)) {
			return Const(w, 0)
		}
	default:
		return nil
	}
	if r > m {
		m = r
	}
	k := bits.Len64(m)
	if k == 0 {
		k = 1
	}
	if k >= w-4 {
		return nil
	}
	return Zext(Bin(op, Extract(a, 0, k), Extract(b, 0, k)), w)
}

func Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bin %s sorts %v %v", opNames[op], a.sort, b.sort))
	}
	w := a.sort.W
	res := a.sort
	if isCmp(op) {
		res = BoolS
	}
	if a.op == OConst && b.op == OConst {
		v := evalBin(op, w, a.val, b.val)
		if res == BoolS {
			return BoolC(v == 1)
		}
		return Const(w, v)
	}
	if a == b {
		switch op {
		case OUle, OSle:
			return True
		case OUlt, OSlt:
			return False
		case OSub, OBxor:
			return Const(w, 0)
		case OBand, OBor:
			return a
		}
	}
	// identities with constants
	if b.op == OConst {
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if b.val == 0 {
				return a
			}
		case OMul:
			if b.val == 1 {
				return a
			}
			if b.val == 0 {
				return b
			}
			if bits.OnesCount64(b.val) == 1 {
				return Bin(OShl, a, Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		case OUdiv:
			if b.val == 1 {
				return a
			}
			if bits.OnesCount64(b.val) == 1 {
				return Bin(OLshr, a, Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		case OSdiv:
			if b.val == 1 {
				return a
			}
		case OBand:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		case OUlt:
			if b.val == 0 {
				return False
			}
			if umax(a) < b.val {
				return True
			}
		case OUle:
			if umax(a) <= b.val {
				return True
			}
		case OSlt:
			if b.S64() > 0 && a.op == OZext && umax(a) < b.val {
				return True
			}
			if b.S64() <= 0 && a.op == OZext && a.args[0].sort.W < w {
				return False
			}
		case OSle:
			if b.S64() >= 0 && a.op == OZext && umax(a) <= b.val {
				return True
			}
			if b.S64() < 0 && a.op == OZext && a.args[0].sort.W < w {
				return False
			}
		}
	}
	if a.op == OConst {
		switch op {
		case OAdd, OBor, OBxor, OMul, OBand:
			return Bin(op, b, a)
		case OShl, OLshr:
			if a.val == 0 {
				return a
			}
		case OUlt:
			if a.val >= umax(b) {
				return False
			}
		case OUle:
			if a.val == 0 {
				return True
			}
			if a.val > umax(b) {
				return False
			}
		case OSlt:
			if b.op == OZext && b.args[0].sort.W < w {
				if a.S64() < 0 {
					return True
				}
				if a.val >= umax(b) {
					return False
				}
			}
		case OSle:
			if b.op == OZext && b.args[0].sort.W < w {
				if a.S64() <= 0 {
					return True
				}
				if a.val > umax(b) {
					return False
				}
			}
		}
	}
	// add constant folding: (x+c1)+c2
	if op == OSub && b.op == OConst {
		return Bin(OAdd, a, Const(w, -b.val))
	}
	if op == OAdd && b.op == OConst && a.op == OAdd && a.args[1].op == OConst {
		return Bin(OAdd, a.args[0], Const(w, a.args[1].val+b.val))
	}
	if op == OSub && a.op == OAdd && a.args[1].op == OConst && a.args[0] == b {
		return a.args[1]
	}
	if op == OSub && a.op == OAdd && b.op == OAdd && a.args[0] == b.args[0] && a.args[1].op == OConst && b.args[1].op == OConst {
		return Const(w, a.args[1].val-b.args[1].val)
	}
	// lift over ite nests with constant leaves
	if (liftable(a) && b.op == OConst) || (liftable(b) && a.op == OConst) || (liftable(a) && liftable(b) && a.leaves*b.leaves <= 40) {
		k := binMemoK{op, a.id, b.id}
		if r, ok := binMemo[k]; ok {
			return r
		}
		var r *Term
		if liftable(a) {
			r = lift1(a, "", func(l *Term) *Term { return Bin(op, l, b) })
		} else {
			r = lift1(b, "", func(l *Term) *Term { return Bin(op, a, l) })
		}
		binMemo[k] = r
		return r
	}
	if b.op == OConst && a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) && isCmp(op) {
		return Ite(a.args[0], Bin(op, a.args[1], b), Bin(op, a.args[2], b))
	}
	if a.op == OConst && b.op == OIte && (b.args[1].op == OConst || b.args[2].op == OConst) && isCmp(op) {
		return Ite(b.args[0], Bin(op, a, b.args[1]), Bin(op, a, b.args[2]))
	}
	if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort && isCmp(op) && a.args[0].sort.W < w {
		u := op
		if op == OSlt {
			u = OUlt
		}
		if op == OSle {
			u = OUle
		}
		return Bin(u, a.args[0], b.args[0])
	}
	switch op {
	case OAdd, OMul, OUrem, OUdiv, OLshr:
		if r := narrow(op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if b.op != OConst && a.id > b.id {
			a, b = b, a
		}
	}
	return mk(op, res, 0, 0, "", a, b)
}

func Add(a, b *Term) *Term { return Bin(OAdd, a, b) }
func Sub(a, b *Term) *Term { return Bin(OSub, a, b) }
func Ult(a, b *Term) *Term { return Bin(OUlt, a, b) }
func Slt(a, b *Term) *Term { return Bin(OSlt, a, b) }
func Sle(a, b *Term) *Term { return Bin(OSle, a, b) }

func BNot(a *Term) *Term {
	if a.op == OConst {
		return Const(a.sort.W, ^a.val)
	}
	if a.op == OBnot {
		return a.args[0]
	}
	if liftable(a) {
		return lift1(a, "", BNot)
	}
	return mk(OBnot, a.sort, 0, 0, "", a)
}

func Zext(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.op == OConst {
		return Const(w, a.val)
	}
	if a.op == OZext {
		return Zext(a.args[0], w)
	}
	if liftable(a) {
		return lift1(a, "", func(l *Term) *Term { return Const(w, l.val) })
	}
	return mk(OZext, BV(w), 0, 0, "", a)
}

func Sext(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.op == OConst {
		return Const(w, uint64(a.S64()))
	}
	if a.op == OZext && a.args[0].sort.W < a.sort.W {
		return Zext(a.args[0], w)
	}
	if a.op == OSext {
		return Sext(a.args[0], w)
	}
	if liftable(a) {
		return lift1(a, "", func(l *Term) *Term { return Const(w, uint64(l.S64())) })
	}
	return mk(OSext, BV(w), 0, 0, "", a)
}

// Extract bits [lo, lo+w)
func Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.sort.W {
		return a
	}
	switch a.op {
	case OConst:
		return Const(w, a.val>>uint(lo))
	case OExtract:
		return Extract(a.args[0], a.lo+lo, w)
	case OZext:
		iw := a.args[0].sort.W
		if lo >= iw {
			return Const(w, 0)
		}
		if lo+w <= iw {
			return Extract(a.args[0], lo, w)
		}
		return Zext(Extract(a.args[0], lo, iw-lo), w)
	case OSext:
		iw := a.args[0].sort.W
		if lo+w <= iw {
			return Extract(a.args[0], lo, w)
		}
		if lo < iw {
			return Sext(Extract(a.args[0], lo, iw-lo), w)
		}
	case OLshr, OAshr:
		if a.args[1].op == OConst {
			k := int(a.args[1].val)
			if a.args[1].val < 64 && lo+k+w <= a.sort.W {
				return Extract(a.args[0], lo+k, w)
			}
		}
	case OIte:
		if w == 8 {
			break // keep bytes of one word recognisable (map keys)
		}
		if a.leaves > 0 {
			return lift1(a, "", func(l *Term) *Term { return Const(w, l.val>>uint(lo)) })
		}
		return Ite(a.args[0], Extract(a.args[1], lo, w), Extract(a.args[2], lo, w))
	}
	return mk(OExtract, BV(w), 0, lo, "", a)
}

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case OStore:
			if a.args[1] == i {
				return a.args[2]
			}
			if Eq(a.args[1], i) == False {
				a = a.args[0]
				continue
			}
		case OConstArr:
			return a.args[0]
		}
		break
	}
	return mk(OSelect, a.sort.Elem, 0, 0, "", a, i)
}

func StoreT(a, i, v *Term) *Term {
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	return mk(OStore, a.sort, 0, 0, "", a, i, v)
}

func ConstArr(e *Term) *Term { return mk(OConstArr, ArrOf(e.sort), 0, 0, "", e) }

type ufDecl struct {
	name string
	args []*Sort
	ret  *Sort
}

var ufDecls = map[string]*ufDecl{}

func UF(name string, ret *Sort, args ...*Term) *Term {
	if _, ok := ufDecls[name]; !ok {
		d := &ufDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		ufDecls[name] = d
	}
	return mk(OUF, ret, 0, 0, name, args...)
}

// ---------- printing ----------

func (t *Term) leafStr() (string, bool) {
	switch t.op {
	case OConst:
		if t.sort.K == SBool {
			if t.val == 1 {
				return "true", true
			}
			return "false", true
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(t.sort.W) + ")", true
	case OVar:
		return "|" + t.name + "|", true
	}
	return "", false
}

func (t *Term) ref() string {
	if s, ok := t.leafStr(); ok {
		return s
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, t.args[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, t.args[0].ref())
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.lo+t.sort.W-1, t.lo, t.args[0].ref())
	case OUF:
		if t.n == 0 {
			return "|" + t.name + "|"
		}
		sb.WriteString("(|" + t.name + "|")
		for i := 0; i < t.n; i++ {
			sb.WriteString(" " + t.args[i].ref())
		}
		sb.WriteString(")")
	case OConstArr:
		fmt.Fprintf(&sb, "((as const %s) %s)", t.sort, t.args[0].ref())
	default:
		sb.WriteString("(" + opNames[t.op])
		for i := 0; i < t.n; i++ {
			sb.WriteString(" " + t.args[i].ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// postorder visits t's DAG below unvisited nodes, iteratively.
func postorder(t *Term, seen map[int]bool, f func(*Term)) {
	type fr struct {
		t *Term
		i int
	}
	if seen[t.id] {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		top := &st[len(st)-1]
		if seen[top.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if top.i < top.t.n {
			c := top.t.args[top.i]
			top.i++
			if !seen[c.id] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		seen[top.t.id] = true
		f(top.t)
		st = st[:len(st)-1]
	}
}
