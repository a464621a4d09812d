package main

// One finalizer running concurrently with the code under test.
//
// The finalizer F of a handle runs at an arbitrary moment: before any access of the main thread to a
// location F also uses (one of the two writing), and before any lock operation, when the locks allow
// it.  The moment is the value of a symbolic variable.  F itself runs atomically; that is justified
// by an obligation at every store of the main thread to a location of F while F may still run: some
// lock must exclude the store from the whole of F, unless both use atomic operations only.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

type concUse struct{ read, write, excl, shared, plain bool }

type conc struct {
	learning bool
	base     int // objects made later are locals of F
	inF      bool
	quiet    int
	foot     map[string]*concUse
	locks    map[string]string // lock key -> strongest mode used by F
	held     map[string]string // while learning
	armed    []callCase
	handle   *PtrV
	node     *Term
	when     *Term
	n        int
	ran      int // object: F has run
	moved    int // object: the main thread touched what F uses since the last point where F could run
}

func (x *Exec) altKey(a PtrAlt) string {
	t := x.objType[a.obj]
	var sb strings.Builder
	if ar, ok := t.(*types.Array); ok {
		sb.WriteString("[]" + ar.Elem().String())
	} else if t != nil {
		sb.WriteString(t.String())
	}
	for _, p := range a.path {
		if p.idx != nil {
			sb.WriteString("[]")
		} else {
			fmt.Fprintf(&sb, ".%d", p.field)
		}
	}
	return sb.String() + "/"
}

func (x *Exec) ptrKey(p *PtrV) string {
	k := ""
	for _, a := range p.alts {
		if a.obj != 0 {
			k += fmt.Sprintf("%d:%s;", a.obj, x.altKey(a))
		}
	}
	return k
}

func (x *Exec) concQuiet() func() {
	x.conc.quiet++
	return func() { x.conc.quiet-- }
}

func overlap(a, b string) bool {
	a, b = strings.TrimSuffix(a, "/"), strings.TrimSuffix(b, "/")
	if len(a) > len(b) {
		a, b = b, a
	}
	return strings.HasPrefix(b, a) && (len(a) == len(b) || b[len(a)] == '.' || b[len(a)] == '[')
}

// shared: an object that existed before F was created, not a local of a function
func (c *conc) use(k string) *concUse {
	u := c.foot[k]
	if u == nil {
		u = &concUse{excl: true, shared: true}
		c.foot[k] = u
	}
	return u
}

func (x *Exec) concRecord(p *PtrV, write, atomic bool) {
	c := x.conc
	for _, a := range p.alts {
		if a.obj == 0 || a.obj > c.base || x.objType[a.obj] == nil {
			continue
		}
		k := x.altKey(a)
		u := c.use(k)
		if write {
			u.write = true
		} else {
			u.read = true
		}
		if !atomic {
			u.plain = true
		}
		ex, sh := false, false
		for _, m := range c.held {
			if m == "Lock" {
				ex = true
			}
			sh = true
		}
		u.excl = u.excl && ex
		u.shared = u.shared && sh
	}
}

func (x *Exec) concConflict(p *PtrV, write bool) (u *concUse, hit PtrAlt) {
	c := x.conc
	for _, a := range p.alts {
		if a.obj == 0 {
			continue
		}
		k := x.altKey(a)
		for f, fu := range c.foot {
			if overlap(k, f) && (write || fu.write) {
				if u == nil {
					u, hit = &concUse{excl: true, shared: true}, a
				}
				u.read = u.read || fu.read
				u.write = u.write || fu.write
				u.plain = u.plain || fu.plain
				u.excl = u.excl && fu.excl
				u.shared = u.shared && fu.shared
			}
		}
	}
	return
}

func (x *Exec) concAccess(st *State, p *PtrV, write bool, pos token.Pos) {
	x.concDo(st, p, write, false, pos)
}

func (x *Exec) concAtomic(st *State, p *PtrV, pos token.Pos) {
	x.concDo(st, p, true, true, pos)
}

func (x *Exec) concDo(st *State, p *PtrV, write, atomic bool, pos token.Pos) {
	c := x.conc
	if c.quiet > 0 {
		return
	}
	if c.learning {
		x.concRecord(p, write, atomic)
		return
	}
	if c.armed == nil || c.inF {
		return
	}
	u, a := x.concConflict(p, write)
	if u == nil {
		return
	}
	same := True
	for _, e := range a.path {
		if e.idx != nil {
			same = Eq(e.idx, c.node)
			break
		}
	}
	if write && (!atomic || u.plain) {
		// the store must be excluded from the whole of F
		q := x.concQuiet()
		prot := False
		for k, l := range x.heldLks {
			_ = k
			mode, ok := c.locks[x.lockKey(l)]
			if !ok {
				continue
			}
			t := x.load(st, l, nil, pos).(*Term)
			w := Eq(t, Const(32, 0x10000))
			if mode == "Lock" {
				w = Not(Eq(t, Const(32, 0)))
			}
			prot = Or(prot, w)
		}
		if !(u.excl || u.shared) {
			prot = False
		}
		ran := st.getObj(c.ran).(*Term)
		x.oblige(st, Or(prot, Or(Not(same), ran)), "lock", "a store that a concurrent release of a handle can undo (no lock excludes it)", pos)
		q()
	}
	x.concPoint(st, pos)
	st.setObj(c.moved, Or(st.getObj(c.moved).(*Term), same))
}

func (x *Exec) lockKey(l *PtrV) string {
	for _, a := range l.alts {
		if a.obj != 0 {
			return x.altKey(a)
		}
	}
	return ""
}

func (x *Exec) concLock(st *State, p *PtrV, kind string, pos token.Pos) {
	c := x.conc
	if c.quiet > 0 {
		return
	}
	k := x.lockKey(p)
	if c.learning {
		switch kind {
		case "Lock", "RLock":
			c.held[k] = kind
			if c.locks[k] != "Lock" {
				c.locks[k] = kind
			}
		default:
			delete(c.held, k)
		}
		return
	}
	if c.armed == nil || c.inF {
		return
	}
	if kind == "Lock" || kind == "RLock" {
		x.concPoint(st, pos)
	}
}

// concPoint: F may run here
func (x *Exec) concPoint(st *State, pos token.Pos) {
	c := x.conc
	id := c.n
	c.n++
	q := x.concQuiet()
	free := True
	for _, l := range x.heldLks {
		mode, ok := c.locks[x.lockKey(l)]
		if !ok {
			continue
		}
		t := x.load(st, l, nil, pos).(*Term)
		if mode == "Lock" {
			free = And(free, Eq(t, Const(32, 0)))
		} else {
			free = And(free, Ult(t, Const(32, 0x10000)))
		}
	}
	q()
	// running F here or at the last point is the same unless the main thread touched something in between
	moved := st.getObj(c.moved).(*Term)
	g := And(And(free, moved), And(Eq(c.when, C64(int64(id))), Not(st.getObj(c.ran).(*Term))))
	x.concRun(st, g, pos)
	st.setObj(c.moved, And(moved, Not(free)))
}

func (x *Exec) concRun(st *State, g *Term, pos token.Pos) bool {
	c := x.conc
	if And(st.reach, g) == False {
		return true
	}
	c.inF = true
	c.quiet++
	defer func() { c.inF = false; c.quiet-- }()
	if And(st.reach, Not(g)) == False {
		ok := x.runFin(st, c.armed, pos)
		st.setObj(c.ran, True)
		return ok
	}
	a, b := st.fork(g)
	if !x.runFin(a, c.armed, pos) {
		unsup("finalizer panics")
	}
	a.setObj(c.ran, True)
	if mergeStates(a, b) != st {
		unsup("finalizer merge")
	}
	return true
}

func (x *Exec) concLearn(st *State, p *PtrV, pos token.Pos) bool {
	if x.conc == nil {
		x.conc = &conc{foot: map[string]*concUse{}, locks: map[string]string{}, held: map[string]string{}}
	}
	c := x.conc
	cases := x.finCases(st, p)
	if len(cases) == 0 {
		return true
	}
	// locals of the finalizer are allocated after this point
	c.base = x.nextObj
	c.learning = true
	ok := x.runFin(st, cases, pos)
	c.learning = false
	delete(c.foot, "int/") // the handle itself
	if verbose {
		for k, u := range c.foot {
			fmt.Printf("finalizer uses %s %+v\n", k, *u)
		}
		fmt.Println("finalizer locks", c.locks)
	}
	return ok
}

func (x *Exec) concArm(st *State, p *PtrV, name string) {
	c := x.conc
	if c == nil {
		unsup("vArm before vLearn")
	}
	q := x.concQuiet()
	c.node = x.load(st, p, types.Typ[types.Int], token.NoPos).(*Term)
	q()
	c.handle = p
	c.when = x.nondet(name, "int", BV(64))
	c.n = 0
	c.ran = x.alloc(st, False, types.Typ[types.Bool])
	c.moved = x.alloc(st, True, types.Typ[types.Bool])
	c.armed = x.finCases(st, p)
	if c.armed == nil {
		c.armed = []callCase{}
	}
}

func (x *Exec) concDisarm(st *State, pos token.Pos) (Val, bool) {
	c := x.conc
	ran := st.getObj(c.ran).(*Term)
	if !x.concRun(st, Not(ran), pos) {
		return nil, false
	}
	c.armed = nil
	if verbose {
		fmt.Println("preemption points:", c.n)
	}
	return C64(int64(c.n)), true
}

func (x *Exec) finCases(st *State, p *PtrV) []callCase {
	var cases []callCase
	seen := False
	for i := len(x.fins) - 1; i >= 0; i-- {
		f := x.fins[i]
		e := And(f.g, x.equal(st, f.p, p))
		e = And(e, Not(seen))
		if And(st.reach, e) == False {
			continue
		}
		seen = Or(seen, e)
		if f.fn == nil {
			continue
		}
		fv := f.fn.(*FuncV)
		cases = append(cases, callCase{g: e, fn: fv.alts[0].fn, args: []Val{p}, bind: fv.alts[0].bindings})
	}
	return cases
}

func (x *Exec) runFin(st *State, cases []callCase, pos token.Pos) bool {
	for _, cc := range cases {
		if And(st.reach, cc.g) == False {
			continue
		}
		if And(st.reach, Not(cc.g)) == False {
			if _, ok := x.callFn(st, cc, pos); !ok {
				return false
			}
			continue
		}
		a, b := st.fork(cc.g)
		if _, ok := x.callFn(a, cc, pos); !ok {
			unsup("finalizer panics")
		}
		if mergeStates(a, b) != st {
			unsup("fire merge")
		}
	}
	return true
}
