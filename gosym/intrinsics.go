package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgPath = "github.com/dalzilio/rudd"

type callCtx struct {
	fn   *ssa.Function
	args []Val
	pos  token.Pos
}

type intrinsic func(x *Exec, st *State, c *callCtx) (Val, bool)

var intrinsics map[string]intrinsic

var void = &TupleV{}

func (x *Exec) newError(st *State, msg *StrV) Val {
	x.nextObj++
	id := x.nextObj
	t := x.errTyp.(*types.Pointer).Elem()
	x.objType[id] = t
	root := st
	for root.parent != nil {
		root = root.parent
	}
	root.heap[id] = &StructV{[]Val{msg}}
	return &IfaceV{[]IfaceAlt{{True, x.errTyp, &PtrV{[]PtrAlt{{g: True, obj: id}}}}}}
}

func conStr(v Val) string {
	s, ok := v.(*StrV)
	if !ok || len(s.alts) != 1 || !s.alts[0].con {
		unsup("constant string expected")
	}
	return s.alts[0].s
}

func (x *Exec) anySlice(st *State, v Val) []Val {
	s := v.(*SliceV)
	vs, ok := x.sliceVals(st, s, types.NewInterfaceType(nil, nil))
	if !ok {
		return nil
	}
	return vs
}

// variadic ints
func (x *Exec) idxSuffix(st *State, v Val) string {
	s, ok := v.(*SliceV)
	if !ok {
		return ""
	}
	vs, ok := x.sliceVals(st, s, types.Typ[types.Int])
	if !ok {
		unsup("symbolic nondet index")
	}
	r := ""
	for _, e := range vs {
		t, ok := e.(*Term)
		if !ok || !t.IsConst() {
			unsup("symbolic nondet index")
		}
		r += fmt.Sprintf("[%d]", t.S64())
	}
	return r
}

func (x *Exec) nondet(name, typ string, s *Sort) *Term {
	if t, ok := x.ndSeen[name]; ok {
		unsup("nondet %s drawn twice", name)
		return t
	}
	t := Var(s, name)
	x.ndSeen[name] = t
	x.nondets = append(x.nondets, Nondet{name, t, typ})
	return t
}

func (x *Exec) bigGet(st *State, v Val, pos token.Pos) *Term {
	return x.load(st, v.(*PtrV), x.bigTyp, pos).(*Term)
}

func (x *Exec) bigNew(st *State, t *Term) Val {
	id := x.alloc(st, t, x.bigTyp)
	return &PtrV{[]PtrAlt{{g: True, obj: id}}}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I

	// ----- errors, fmt, log -----
	I["errors.New"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.newError(st, c.args[0].(*StrV)), true
	}
	I["fmt.Errorf"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		f := c.args[0].(*StrV)
		me := false
		for _, a := range f.alts {
			if a.con && a.s == "" || !a.con && a.empty {
				me = true
			}
		}
		return x.newError(st, strOpaque(me)), true
	}
	I["(*errors.errorString).Error"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		v := x.load(st, c.args[0].(*PtrV), nil, c.pos)
		return v.(*StructV).f[0], true
	}
	nop := func(x *Exec, st *State, c *callCtx) (Val, bool) { return void, true }
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "log.SetOutput", "log.SetFlags", "log.SetPrefix", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive"} {
		I[n] = nop
	}
	I["fmt.Printf"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return &TupleV{[]Val{C64(0), nilIface}}, true
	}
	I["fmt.Println"] = I["fmt.Printf"]
	I["fmt.Print"] = I["fmt.Printf"]
	die := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		x.oblige(st, False, "panic", "panic via "+c.fn.String(), c.pos)
		return nil, false
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		I[n] = die
	}

	// ----- sync -----
	lockTo := func(kind string) intrinsic {
		return func(x *Exec, st *State, c *callCtx) (Val, bool) {
			p := c.args[0].(*PtrV)
			x.heldLks[x.ptrKey(p)] = p
			if x.conc != nil {
				x.concLock(st, p, kind, c.pos)
				defer x.concQuiet()()
			}
			t := x.load(st, p, nil, c.pos).(*Term)
			const W = 0x10000
			w := func(v uint64) *Term { return Const(32, v) }
			switch kind {
			case "Lock":
				x.oblige(st, Eq(t, w(0)), "lock", "Lock while the lock is already held (self-deadlock)", c.pos)
				x.store(st, p, w(W), c.pos)
			case "Unlock":
				x.oblige(st, Eq(t, w(W)), "lock", "Unlock of an unlocked mutex", c.pos)
				x.store(st, p, w(0), c.pos)
			case "RLock":
				x.oblige(st, Ult(t, w(W)), "lock", "RLock while write-locked (self-deadlock)", c.pos)
				if x.conc != nil && x.conc.armed != nil && !x.conc.inF {
					x.oblige(st, Eq(t, w(0)), "lock", "nested RLock: deadlock with a release that waits for the lock", c.pos)
				}
				x.store(st, p, Add(t, w(1)), c.pos)
			case "RUnlock":
				x.oblige(st, And(Not(Eq(t, w(0))), Ult(t, w(W))), "lock", "RUnlock of an unlocked mutex", c.pos)
				x.store(st, p, Sub(t, w(1)), c.pos)
			}
			return void, true
		}
	}
	for _, ty := range []string{"RWMutex", "Mutex"} {
		for _, k := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			I["(*sync."+ty+")."+k] = lockTo(k)
		}
	}
	atomicAdd := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		p := c.args[0].(*PtrV)
		if x.conc != nil {
			x.concAtomic(st, p, c.pos)
			defer x.concQuiet()()
		}
		t := Add(x.load(st, p, nil, c.pos).(*Term), c.args[1].(*Term))
		x.store(st, p, t, c.pos)
		return t, true
	}
	atomicLoad := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		if x.conc != nil {
			x.concAtomic(st, c.args[0].(*PtrV), c.pos)
			defer x.concQuiet()()
		}
		return x.load(st, c.args[0].(*PtrV), nil, c.pos), true
	}
	atomicStore := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		if x.conc != nil {
			x.concAtomic(st, c.args[0].(*PtrV), c.pos)
			defer x.concQuiet()()
		}
		x.store(st, c.args[0].(*PtrV), c.args[1], c.pos)
		return void, true
	}
	atomicCas := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		p := c.args[0].(*PtrV)
		if x.conc != nil {
			x.concAtomic(st, p, c.pos)
			defer x.concQuiet()()
		}
		old := x.load(st, p, nil, c.pos).(*Term)
		e := Eq(old, c.args[1].(*Term))
		x.store(st, p, Ite(e, c.args[2].(*Term), old), c.pos)
		return e, true
	}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		I["sync/atomic.Add"+n] = atomicAdd
		I["sync/atomic.Load"+n] = atomicLoad
		I["sync/atomic.Store"+n] = atomicStore
		I["sync/atomic.CompareAndSwap"+n] = atomicCas
	}
	I["runtime.SetFinalizer"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		iv, ok := c.args[0].(*IfaceV)
		if !ok || len(iv.alts) != 1 {
			unsup("SetFinalizer")
		}
		p, ok := iv.alts[0].val.(*PtrV)
		if !ok {
			unsup("SetFinalizer on %T", iv.alts[0].val)
		}
		fv, ok := c.args[1].(*IfaceV)
		if !ok {
			unsup("SetFinalizer finalizer %T", c.args[1])
		}
		for _, a := range fv.alts {
			var f Val
			if a.typ != nil {
				f = a.val
			}
			x.fins = append(x.fins, FinEnt{And(st.reach, a.g), p, f})
		}
		return void, true
	}

	// ----- math/big on 64-bit words -----
	bi := func(n string, f func(x *Exec, st *State, a []*Term) *Term) {
		I["(*math/big.Int)."+n] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
			var a []*Term
			for _, v := range c.args[1:] {
				switch w := v.(type) {
				case *PtrV:
					a = append(a, x.bigGet(st, w, c.pos))
				case *Term:
					a = append(a, w)
				default:
					unsup("big.%s(%T)", n, v)
				}
			}
			r := f(x, st, a)
			x.store(st, c.args[0].(*PtrV), r, c.pos)
			return c.args[0], true
		}
	}
	bi("Add", func(x *Exec, st *State, a []*Term) *Term { return Add(a[0], a[1]) })
	bi("Sub", func(x *Exec, st *State, a []*Term) *Term { return Sub(a[0], a[1]) })
	bi("Mul", func(x *Exec, st *State, a []*Term) *Term { return Bin(OMul, a[0], a[1]) })
	bi("Set", func(x *Exec, st *State, a []*Term) *Term { return a[0] })
	bi("SetInt64", func(x *Exec, st *State, a []*Term) *Term { return a[0] })
	bi("SetUint64", func(x *Exec, st *State, a []*Term) *Term { return a[0] })
	bi("Neg", func(x *Exec, st *State, a []*Term) *Term { return Sub(C64(0), a[0]) })
	shl := func(a, n *Term) *Term { return Ite(Ult(n, C64(64)), Bin(OShl, a, n), C64(0)) }
	bi("Lsh", func(x *Exec, st *State, a []*Term) *Term { return shl(a[0], a[1]) })
	bi("Rsh", func(x *Exec, st *State, a []*Term) *Term {
		return Ite(Ult(a[1], C64(64)), Bin(OLshr, a[0], a[1]), C64(0))
	})
	bi("Quo", func(x *Exec, st *State, a []*Term) *Term { return Bin(OSdiv, a[0], a[1]) })
	bi("Div", func(x *Exec, st *State, a []*Term) *Term { return Bin(OSdiv, a[0], a[1]) })
	I["(*math/big.Int).SetBit"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		a := x.bigGet(st, c.args[1], c.pos)
		i := c.args[2].(*Term)
		bt := c.args[3].(*Term)
		x.oblige(st, Sle(C64(0), i), "panic", "big.Int.SetBit: negative index", c.pos)
		x.oblige(st, Slt(i, C64(62)), "unwind", "big.Int beyond 62 bits", c.pos)
		m := shl(C64(1), i)
		r := Ite(Eq(bt, Const(bt.sort.W, 0)), Bin(OBand, a, BNot(m)), Bin(OBor, a, m))
		x.store(st, c.args[0].(*PtrV), r, c.pos)
		return c.args[0], true
	}
	I["(*math/big.Int).Exp"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		b := x.bigGet(st, c.args[1], c.pos)
		e := x.bigGet(st, c.args[2], c.pos)
		if !b.IsConst() || b.val != 2 {
			unsup("big.Exp")
		}
		x.store(st, c.args[0].(*PtrV), shl(C64(1), e), c.pos)
		return c.args[0], true
	}
	I["math/big.NewInt"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.bigNew(st, c.args[0].(*Term)), true
	}
	I["(*math/big.Int).Int64"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.bigGet(st, c.args[0], c.pos), true
	}
	I["(*math/big.Int).Uint64"] = I["(*math/big.Int).Int64"]
	I["(*math/big.Int).IsInt64"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return True, true }
	I["(*math/big.Int).IsUint64"] = I["(*math/big.Int).IsInt64"]
	I["(*math/big.Int).Cmp"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		a, b := x.bigGet(st, c.args[0], c.pos), x.bigGet(st, c.args[1], c.pos)
		return Ite(Slt(a, b), C64(-1), Ite(Eq(a, b), C64(0), C64(1))), true
	}
	I["(*math/big.Int).Sign"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		a := x.bigGet(st, c.args[0], c.pos)
		return Ite(Slt(a, C64(0)), C64(-1), Ite(Eq(a, C64(0)), C64(0), C64(1))), true
	}
	I["(*math/big.Int).ProbablyPrime"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		a := x.bigGet(st, c.args[0], c.pos)
		if !a.IsConst() {
			if vs := leafVals0(a); vs != nil {
				r := False
				for _, v := range vs {
					if big.NewInt(int64(v)).ProbablyPrime(0) {
						r = Or(r, Eq(a, C64(int64(v))))
					}
				}
				return r, true
			}
			vals := x.enumVals(st, a, 80, "ProbablyPrime argument")
			r := False
			for _, v := range vals {
				if big.NewInt(int64(v)).ProbablyPrime(0) {
					r = Or(r, Eq(a, C64(int64(v))))
				}
			}
			return r, true
		}
		return BoolC(big.NewInt(a.S64()).ProbablyPrime(0)), true
	}
	I["(*math/big.Int).String"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return strOpaque(false), true }
	for _, n := range []string{"Add", "Sub", "Mul", "Set", "SetInt64", "SetUint64", "Neg", "Lsh", "Rsh", "Quo", "Div", "SetBit", "Exp"} {
		name, narrow := n, I["(*math/big.Int)."+n]
		I["(*math/big.Int)."+n] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
			if params["big"] == 0 {
				return narrow(x, st, c)
			}
			return x.bigOp(st, c, name), true
		}
	}
	for _, n := range []string{"Int64", "Uint64", "IsInt64", "IsUint64", "Cmp", "Sign", "ProbablyPrime", "BitLen"} {
		name, narrow := n, I["(*math/big.Int)."+n]
		I["(*math/big.Int)."+n] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
			if params["big"] == 0 {
				if narrow == nil {
					unsup("big.%s", name)
				}
				return narrow(x, st, c)
			}
			return x.bigQuery(st, c, name), true
		}
	}
	newNarrow := I["math/big.NewInt"]
	I["math/big.NewInt"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		if params["big"] == 0 {
			return newNarrow(x, st, c)
		}
		t := c.args[0].(*Term)
		return x.bigNew(st, x.bigMap(st, []*Term{t}, func(v []uint64) *big.Int { return big.NewInt(int64(v[0])) })), true
	}

	// ----- sort -----
	I["sort.Slice"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return x.sortSlice(st, c) }
	I["sort.SliceStable"] = I["sort.Slice"]

	// ----- harness run time -----
	I["rt.vInt"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.nondet(conStr(c.args[0])+x.idxSuffix(st, c.args[1]), "int", BV(64)), true
	}
	I["rt.vI32"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.nondet(conStr(c.args[0])+x.idxSuffix(st, c.args[1]), "int32", BV(32)), true
	}
	I["rt.vBool"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.nondet(conStr(c.args[0])+x.idxSuffix(st, c.args[1]), "bool", BoolS), true
	}
	I["rt.vRange"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		name := conStr(c.args[0]) + x.idxSuffix(st, c.args[3])
		lo, hi := c.args[1].(*Term), c.args[2].(*Term)
		if !lo.IsConst() || !hi.IsConst() {
			unsup("vRange bounds")
		}
		l, h := lo.S64(), hi.S64()
		if l > h {
			return nil, false
		}
		if l == h {
			// keep the name for replay
			x.nondets = append(x.nondets, Nondet{name, lo, "int"})
			return lo, true
		}
		if l >= 0 && h > l {
			w := 1
			for uint64(h) > mask(w) {
				w++
			}
			v := x.nondet(name, "int", BV(w))
			if uint64(h) != mask(w) {
				x.fact(Bin(OUle, v, Const(w, uint64(h))))
			}
			if l > 0 {
				x.fact(Bin(OUle, Const(w, uint64(l)), v))
			}
			return Zext(v, 64), true
		}
		v := x.nondet(name, "int", BV(64))
		x.fact(And(Sle(lo, v), Sle(v, hi)))
		return v, true
	}
	I["rt.vAssume"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		t := c.args[0].(*Term)
		if t == False {
			return nil, false
		}
		st.assume(t)
		if st.reach == False {
			return nil, false
		}
		return void, true
	}
	I["rt.vAssert"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		t, ok := c.args[0].(*Term)
		if !ok {
			unsup("vAssert of %T", c.args[0])
		}
		x.oblige(st, t, "assert", conStr(c.args[1]), c.pos)
		return void, true
	}
	I["rt.vFact"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		x.fact(c.args[0].(*Term))
		return void, true
	}
	I["rt.vReach"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		l := conStr(c.args[0])
		if r, ok := x.reaches[l]; ok {
			x.reaches[l] = Or(r, st.reach)
		} else {
			x.reaches[l] = st.reach
			x.reachOrd = append(x.reachOrd, l)
		}
		return void, true
	}
	I["rt.vTrace"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		if t, ok := c.args[1].(*Term); ok {
			x.traces = append(x.traces, Trace{conStr(c.args[0]) + x.idxSuffix(st, c.args[2]), st.reach, t})
		}
		return void, true
	}
	I["rt.vLoad"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return nilPtr, true }
	I["rt.vSymbolic"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return True, true }
	I["rt.vUninterpreted"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { x.uninter = true; return void, true }
	I["rt.vStub"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		name := conStr(c.args[0])
		opt := strings.HasPrefix(name, "?")
		name = strings.TrimPrefix(name, "?")
		full := ""
		switch {
		case strings.HasPrefix(name, "(*"):
			full = "(*" + pkgPath + "." + name[2:]
		default:
			full = pkgPath + "." + name
		}
		iv, ok := c.args[1].(*IfaceV)
		if !ok {
			unsup("vStub")
		}
		fv := iv.alts[0].val.(*FuncV)
		target := x.findFunc(full)
		if target == nil {
			if opt {
				return void, true
			}
			unsup("stub target %s not found", name)
		}
		if !sigMatch(target, fv.alts[0].fn, len(fv.alts[0].bindings)) {
			if opt {
				return void, true
			}
			unsup("stub target %s has another signature", name)
		}
		x.stubs[full] = fv
		return void, true
	}
	I["rt.vVirtual"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		et := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		n := c.args[0].(*Term)
		va := &VirtArr{n: n, elem: et, load: c.args[1].(*FuncV), store: c.args[2].(*FuncV)}
		id := x.alloc(st, va, et)
		return &SliceV{[]SliceAlt{{True, id, nil, C64(0), n, n}}}, true
	}
	I["rt.vNewArrU"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return Fresh(ArrOf(BV(64)), conStr(c.args[0])), true
	}
	I["rt.vNewArrW"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return Fresh(ArrOf(BV(16)), conStr(c.args[0])), true
	}
	I["rt.vNewArrB"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return Fresh(ArrOf(BoolS), conStr(c.args[0])), true
	}
	sel := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return Select(c.args[0].(*Term), c.args[1].(*Term)), true
	}
	I["rt.vSelU"], I["rt.vSelB"], I["rt.vSelW"] = sel, sel, sel
	upd := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return StoreT(c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)), true
	}
	I["rt.vUpdU"], I["rt.vUpdB"] = upd, upd
	I["rt.vIte"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return mergeVal(c.args[0].(*Term), c.args[1], c.args[2]), true
	}
	bo := func(f func(a, b *Term) *Term) intrinsic {
		return func(x *Exec, st *State, c *callCtx) (Val, bool) {
			return f(c.args[0].(*Term), c.args[1].(*Term)), true
		}
	}
	I["rt.vAnd"], I["rt.vOr"], I["rt.vImp"] = bo(And), bo(Or), bo(Implies)
	// uninterpreted predicate
	I["rt.vUFB"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return UF("uf."+conStr(c.args[0]), BoolS, c.args[1].(*Term), c.args[2].(*Term)), true
	}
	// vHash: an uninterpreted function of the low 8 bits of four values, with a result of 5 bits
	I["rt.vHash"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		var as []*Term
		for _, a := range c.args[1:] {
			as = append(as, Extract(a.(*Term), 0, 8))
		}
		p := func(a, b *Term) *Term { // both values in 16 bits
			return Bin(OBor, Bin(OShl, Zext(a, 16), Const(16, 8)), Zext(b, 16))
		}
		return Zext(UF("hash."+conStr(c.args[0]), BV(5), p(as[0], as[1]), p(as[2], as[3])), 64), true
	}
	// facts that hold whenever this point is reached
	I["rt.vFactHere"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		x.fact(Or(Not(st.reach), c.args[0].(*Term)))
		return void, true
	}
	// path-independent log of values, used to instantiate facts
	I["rt.vRecord"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		k := conStr(c.args[0])
		t := c.args[1].(*Term)
		for _, o := range x.recorded[k] {
			if o == t {
				return False, true
			}
		}
		x.recorded[k] = append(x.recorded[k], t)
		return True, true
	}
	I["rt.vRecorded"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		a := &ArrV{}
		for _, t := range x.recorded[conStr(c.args[0])] {
			a.e = append(a.e, t)
		}
		n := len(a.e)
		id := x.alloc(st, a, types.NewArray(types.Typ[types.Int], int64(n)))
		return sliceOf(id, nil, n), true
	}
	I["rt.vFreshInt"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		t := Fresh(BV(64), conStr(c.args[0]))
		x.nondets = append(x.nondets, Nondet{t.name, t, "int"})
		return t, true
	}
	I["rt.vFreshBool"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		t := Fresh(BoolS, conStr(c.args[0]))
		x.nondets = append(x.nondets, Nondet{t.name, t, "bool"})
		return t, true
	}
	I["rt.vFire"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		// run the finalizers registered on pointer c.args[0] (in registration order; the last registration wins)
		cases := x.finCases(st, c.args[0].(*PtrV))
		if !x.runFin(st, cases, c.pos) {
			return nil, false
		}
		return void, true
	}
	I["rt.vLearn"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return void, x.concLearn(st, c.args[0].(*PtrV), c.pos)
	}
	I["rt.vArm"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		x.concArm(st, c.args[0].(*PtrV), conStr(c.args[1]))
		return void, true
	}
	I["rt.vDisarm"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return x.concDisarm(st, c.pos) }
	I["rt.vUnlocked"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		r := True
		if x.conc != nil {
			defer x.concQuiet()()
		}
		ks := make([]string, 0, len(x.heldLks))
		for k := range x.heldLks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r = And(r, Eq(x.load(st, x.heldLks[k], nil, c.pos).(*Term), Const(32, 0)))
		}
		return r, true
	}
	I["rt.vHasFin"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		p := c.args[0].(*PtrV)
		r := False
		for _, f := range x.fins {
			r = Or(r, And(f.g, x.equal(st, f.p, p)))
		}
		return r, true
	}
	// pick: force case analysis on the value of an expression, so that it is a nest over constants
	I["rt.vPick"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		t := c.args[0].(*Term)
		vs := x.enumVals(st, t, 300, "vPick")
		var r *Term
		for i := len(vs) - 1; i >= 0; i-- {
			k := Const(t.sort.W, vs[i])
			if r == nil {
				r = k
			} else {
				r = Ite(Eq(t, k), k, r)
			}
		}
		if r == nil {
			return t, true
		}
		return r, true
	}
}

func leafVals0(t *Term) []uint64 {
	if t.op == OConst || t.leaves > 0 {
		return leafVals(t)
	}
	return nil
}

func sigMatch(t, s *ssa.Function, nb int) bool {
	tp := []types.Type{}
	for _, p := range t.Params {
		tp = append(tp, p.Type())
	}
	if len(s.Params) != len(tp) {
		return false
	}
	for i := range tp {
		if !types.Identical(tp[i], s.Params[i].Type()) {
			return false
		}
	}
	return types.Identical(t.Signature.Results(), s.Signature.Results())
}

func (x *Exec) sortSlice(st *State, c *callCtx) (Val, bool) {
	iv, ok := c.args[0].(*IfaceV)
	if !ok || len(iv.alts) != 1 {
		unsup("sort.Slice")
	}
	s := iv.alts[0].val.(*SliceV)
	less := c.args[1].(*FuncV)
	if len(s.alts) != 1 || !s.alts[0].len.IsConst() {
		unsup("sort.Slice on a symbolic slice")
	}
	a := s.alts[0]
	n := int64(a.len.val)
	if n > 24 {
		unsup("sort.Slice too long")
	}
	at := func(k int64) []PathElem {
		return append(append([]PathElem(nil), a.path...), PathElem{idx: Add(a.off, C64(k))})
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			r, ok := x.callCases(st, []callCase{{g: True, fn: less.alts[0].fn, args: []Val{C64(j), C64(j - 1)}, bind: less.alts[0].bindings}}, c.pos)
			if !ok {
				return nil, false
			}
			l := r.(*Term)
			o := st.getObj(a.obj)
			p, q := x.readPath(o, at(j)), x.readPath(o, at(j-1))
			o = x.writePath(st, o, at(j), q, l)
			o = x.writePath(st, o, at(j-1), p, l)
			st.setObj(a.obj, o)
		}
	}
	return void, true
}

// packages whose source is executed symbolically
var inlinePkgs = map[string]bool{"sort": true, "slices": true, "cmp": true, "math/bits": true, "math": true, "strings": true,
	"container/list": true, "container/heap": true, "maps": true, "iter": true}

func (x *Exec) external(st *State, p, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool, bool) {
	if inlinePkgs[p] {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if len(fn.Blocks) > 0 {
			return nil, false, false
		}
	}
	if p == "sync" || p == "sync/atomic" || p == "math/big" || p == "runtime" || p == "unsafe" || p == "reflect" {
		unsup("unmodelled function %s", name)
	}
	if p == pkgPath {
		return nil, false, false
	}
	// output and formatting packages: arbitrary result, no effect on the package state
	switch p {
	case "fmt", "log", "os", "io", "text/tabwriter", "bufio", "bytes", "time", "strconv", "errors", "unicode/utf8":
		return x.opaqueResult(fn.Signature), true, true
	}
	unsup("unmodelled function %s", name)
	return nil, false, true
}

func init() {
	intrinsics["rt.vParam"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		if v, ok := params[conStr(c.args[0])]; ok {
			return C64(v), true
		}
		return c.args[1], true
	}
}

// ----- math/big, exact (parameter big=1) -----
// A big.Int is an index into a pool of concrete numbers; operations enumerate the values of their operands.

var bigPool = []*big.Int{big.NewInt(0)}
var bigIdx = map[string]int{"0": 0}

func bigConst(v *big.Int) *Term {
	k := v.String()
	i, ok := bigIdx[k]
	if !ok {
		i = len(bigPool)
		bigIdx[k] = i
		bigPool = append(bigPool, v)
	}
	return C64(int64(i))
}

func (x *Exec) bigCases(st *State, ts []*Term, f func(v []uint64) *Term) *Term {
	var res *Term
	v := make([]uint64, len(ts))
	var rec func(i int, g *Term)
	rec = func(i int, g *Term) {
		if g.IsFalse() {
			return
		}
		if i == len(ts) {
			r := f(v)
			if res == nil {
				res = r
			} else {
				res = Ite(g, r, res)
			}
			return
		}
		for _, u := range x.enumVals(st, ts[i], 400, "big.Int operand") {
			v[i] = u
			rec(i+1, And(g, Eq(ts[i], Const(ts[i].sort.W, u))))
		}
	}
	rec(0, True)
	return res
}

func (x *Exec) bigMap(st *State, ts []*Term, f func(v []uint64) *big.Int) *Term {
	return x.bigCases(st, ts, func(v []uint64) *Term { return bigConst(f(v)) })
}

func (x *Exec) bigOp(st *State, c *callCtx, name string) Val {
	var ts []*Term
	var isBig []bool
	for _, v := range c.args[1:] {
		switch w := v.(type) {
		case *PtrV:
			if name == "Exp" && len(ts) == 2 {
				continue
			}
			ts, isBig = append(ts, x.bigGet(st, w, c.pos)), append(isBig, true)
		case *Term:
			ts, isBig = append(ts, w), append(isBig, false)
		default:
			unsup("big.%s(%T)", name, v)
		}
	}
	if name == "SetBit" {
		x.oblige(st, Sle(C64(0), ts[1]), "panic", "big.Int.SetBit: negative index", c.pos)
	}
	r := x.bigMap(st, ts, func(v []uint64) *big.Int {
		var b []*big.Int
		for i, u := range v {
			if isBig[i] {
				b = append(b, bigPool[u])
			} else {
				b = append(b, nil)
			}
		}
		z := new(big.Int)
		sh := func(u uint64) uint {
			if u > 4096 {
				return 0 // cannot happen, or excluded by an obligation
			}
			return uint(u)
		}
		switch name {
		case "Add":
			return z.Add(b[0], b[1])
		case "Sub":
			return z.Sub(b[0], b[1])
		case "Mul":
			return z.Mul(b[0], b[1])
		case "Set":
			return b[0]
		case "SetInt64":
			return z.SetInt64(int64(v[0]))
		case "SetUint64":
			return z.SetUint64(v[0])
		case "Neg":
			return z.Neg(b[0])
		case "Lsh":
			return z.Lsh(b[0], sh(v[1]))
		case "Rsh":
			return z.Rsh(b[0], sh(v[1]))
		case "Quo", "Div":
			if b[1].Sign() == 0 {
				return z
			}
			if name == "Quo" {
				return z.Quo(b[0], b[1])
			}
			return z.Div(b[0], b[1])
		case "SetBit":
			return z.SetBit(b[0], int(sh(v[1])), uint(v[2]))
		case "Exp":
			return z.Exp(b[0], b[1], nil)
		}
		unsup("big.%s", name)
		return nil
	})
	if name == "Quo" || name == "Div" {
		x.oblige(st, Not(Eq(ts[1], C64(0))), "panic", "division by zero", c.pos)
	}
	x.store(st, c.args[0].(*PtrV), r, c.pos)
	return c.args[0]
}

func (x *Exec) bigQuery(st *State, c *callCtx, name string) Val {
	ts := []*Term{x.bigGet(st, c.args[0], c.pos)}
	if name == "Cmp" {
		ts = append(ts, x.bigGet(st, c.args[1], c.pos))
	}
	return x.bigCases(st, ts, func(v []uint64) *Term {
		a := bigPool[v[0]]
		switch name {
		case "Int64":
			return C64(a.Int64())
		case "Uint64":
			return C64(int64(a.Uint64()))
		case "IsInt64":
			return BoolC(a.IsInt64())
		case "IsUint64":
			return BoolC(a.IsUint64())
		case "Cmp":
			return C64(int64(a.Cmp(bigPool[v[1]])))
		case "Sign":
			return C64(int64(a.Sign()))
		case "BitLen":
			return C64(int64(a.BitLen()))
		case "ProbablyPrime":
			return BoolC(a.ProbablyPrime(0))
		}
		unsup("big.%s", name)
		return nil
	})
}
