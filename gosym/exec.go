package main

// The symbolic interpreter for go/ssa.

import (
	"fmt"
	"time"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	cond *Term // reachable failure condition
	kind string
	msg  string
	pos  string
}

type Nondet struct {
	name string
	t    *Term
	typ  string // int, int32, bool
}

type Trace struct {
	name  string
	reach *Term
	t     *Term
}

type Exec struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	sol      *Solver
	nextObj  int
	objType  map[int]types.Type
	globals  map[*ssa.Global]int
	obls     []Obl
	oblSeen  map[*Term]bool
	facts    []*Term
	factSeen map[*Term]bool
	nondets  []Nondet
	ndSeen   map[string]*Term
	traces   []Trace
	reaches  map[string]*Term
	reachOrd []string
	stubs    map[string]*FuncV
	hooks    map[string]*ssa.Function
	funcs    map[string]int // encoded functions -> instruction count
	stack    []*Frame
	steps    int
	maxSteps int
	forks    int
	merges   int
	feasMemo map[*Term]bool
	feasQ    int
	maxDepth int
	maxIter  int
	wto      map[*ssa.Function]*fnOrder
	out      *outSink
	strFacts map[int]*Term
	bigTyp   types.Type
	errTyp   types.Type
	noFeas   bool
	boundHit *Term
	fins     []FinEnt
	recorded map[string][]*Term
	uninter  bool
	inHook   int
	initing  bool
	conc     *conc
	heldLks  map[string]*PtrV
}

type FinEnt struct {
	g  *Term
	p  *PtrV
	fn Val
}


type Frame struct {
	fn    *ssa.Function
	base  *State
	iters map[int]int
	depth int
}

func NewExec() *Exec {
	return &Exec{objType: map[int]types.Type{}, globals: map[*ssa.Global]int{}, oblSeen: map[*Term]bool{},
		factSeen: map[*Term]bool{}, ndSeen: map[string]*Term{}, reaches: map[string]*Term{}, stubs: map[string]*FuncV{},
		recorded: map[string][]*Term{}, hooks: map[string]*ssa.Function{}, funcs: map[string]int{}, feasMemo: map[*Term]bool{}, wto: map[*ssa.Function]*fnOrder{},
		maxSteps: 40000000, maxDepth: 120, maxIter: 100, strFacts: map[int]*Term{}, boundHit: False, heldLks: map[string]*PtrV{}}
}

func (x *Exec) pos() string {
	for i := len(x.stack) - 1; i >= 0; i-- {
		return x.stack[i].fn.String()
	}
	return ""
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return x.pos()
	}
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d (%s)", f, ps.Line, x.pos())
}

// oblige: p must hold when st is reached.
func (x *Exec) oblige(st *State, p *Term, kind, msg string, pos token.Pos) {
	c := And(st.reach, Not(p))
	if c == False || x.oblSeen[c] {
		return
	}
	x.oblSeen[c] = true
	x.obls = append(x.obls, Obl{c, kind, msg, x.posOf(pos)})
}

func (x *Exec) fact(t *Term) {
	if t == True || x.factSeen[t] {
		return
	}
	x.factSeen[t] = true
	x.facts = append(x.facts, t)
	x.sol.Assert(t)
}

func (x *Exec) alloc(st *State, v Val, t types.Type) int {
	x.nextObj++
	x.objType[x.nextObj] = t
	st.setObj(x.nextObj, v)
	return x.nextObj
}

var verbose = os.Getenv("GOSYM_VERBOSE") != ""

// feasible: can reach be true?  Unknown counts as feasible.
func (x *Exec) feasible(c *Term) bool {
	if c == False {
		return false
	}
	if c == True {
		return true
	}
	if r, ok := x.feasMemo[c]; ok {
		return r
	}
	x.feasQ++
	t0 := time.Now()
	rs := x.sol.Check(false, c)
	r := rs != "unsat"
	if verbose {
		if d := time.Since(t0); d > 300*time.Millisecond {
			n := ""
			if len(x.stack) > 0 {
				n = x.stack[len(x.stack)-1].fn.Name()
			}
			fmt.Fprintf(os.Stderr, "slow feasibility query: %s %dms in %s (terms %d)\n", rs, d.Milliseconds(), n, termCount)
		}
	}
	x.feasMemo[c] = r
	return r
}

// ---------- block order (weak topological order) ----------

type fnOrder struct {
	idx    []int  // block index -> position
	cyclic []bool // block is inside a cycle
}

func orderOf(fn *ssa.Function) *fnOrder {
	n := len(fn.Blocks)
	o := &fnOrder{idx: make([]int, n), cyclic: make([]bool, n)}
	var seq []int
	var rec func(nodes []int, entry int, removed map[[2]int]bool)
	rec = func(nodes []int, entry int, removed map[[2]int]bool) {
		in := map[int]bool{}
		for _, b := range nodes {
			in[b] = true
		}
		// Tarjan, SCCs come out in reverse topological order
		index := map[int]int{}
		low := map[int]int{}
		on := map[int]bool{}
		var stk []int
		var sccs [][]int
		cnt := 0
		var dfs func(v int)
		dfs = func(v int) {
			cnt++
			index[v], low[v] = cnt, cnt
			stk = append(stk, v)
			on[v] = true
			for _, s := range fn.Blocks[v].Succs {
				w := s.Index
				if !in[w] || removed[[2]int{v, w}] {
					continue
				}
				if index[w] == 0 {
					dfs(w)
					if low[w] < low[v] {
						low[v] = low[w]
					}
				} else if on[w] && index[w] < low[v] {
					low[v] = index[w]
				}
			}
			if low[v] == index[v] {
				var c []int
				for {
					w := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					on[w] = false
					c = append(c, w)
					if w == v {
						break
					}
				}
				sccs = append(sccs, c)
			}
		}
		dfs(entry)
		for _, b := range nodes {
			if index[b] == 0 {
				dfs(b)
			}
		}
		for i := len(sccs) - 1; i >= 0; i-- {
			c := sccs[i]
			if len(c) == 1 {
				v := c[0]
				self := false
				for _, s := range fn.Blocks[v].Succs {
					if s.Index == v && !removed[[2]int{v, v}] {
						self = true
					}
				}
				if self {
					o.cyclic[v] = true
				}
				seq = append(seq, v)
				continue
			}
			// header: the member reached first by the dfs
			h := c[0]
			for _, v := range c {
				o.cyclic[v] = true
				if index[v] < index[h] {
					h = v
				}
			}
			rm := map[[2]int]bool{}
			for k := range removed {
				rm[k] = true
			}
			for _, v := range c {
				rm[[2]int{v, h}] = true
			}
			rec(c, h, rm)
		}
	}
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	rec(all, 0, map[[2]int]bool{})
	for p, b := range seq {
		o.idx[b] = p
	}
	return o
}

// ---------- function execution ----------

func (x *Exec) isHarness(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		g := f
		if o := f.Origin(); o != nil {
			g = o
		}
		if g.Pos().IsValid() {
			return strings.Contains(x.prog.Fset.Position(g.Pos()).Filename, "zz_verif_")
		}
	}
	return false
}

// call runs fn; returns nil,false if no path returns.
func (x *Exec) call(st *State, fn *ssa.Function, args []Val, bind []Val) (Val, bool) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	depth := 0
	rec := 0
	if len(x.stack) > 0 {
		depth = x.stack[len(x.stack)-1].depth + 1
		for _, f := range x.stack {
			if f.fn == fn {
				rec++
			}
		}
	}
	if rec > 0 && st.reach != True && !x.noFeas && !x.feasible(st.reach) {
		return nil, false
	}
	if rec > x.maxDepth {
		x.oblige(st, False, "unwind", "recursion bound exceeded in "+fn.String(), fn.Pos())
		return nil, false
	}
	if _, ok := x.funcs[fn.String()]; !ok {
		n := 0
		for _, b := range fn.Blocks {
			n += len(b.Instrs)
		}
		x.funcs[fn.String()] = n
	}
	cs := &State{reach: st.reach, cond: True, heap: map[int]Val{}, env: map[interface{}]Val{}, parent: st, depth: st.depth + 1, envTop: true, live: 1}
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		cs.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		cs.env[p] = bind[i]
	}
	fr := &Frame{fn: fn, base: cs, iters: map[int]int{}, depth: depth}
	x.stack = append(x.stack, fr)
	ret := x.run(fr, cs)
	x.stack = x.stack[:len(x.stack)-1]
	if ret == nil {
		return nil, false
	}
	v := ret.getEnv(retKey{})
	// fold the layers from ret down to cs into st (older first)
	var chain []*State
	for p := ret; p != st; p = p.parent {
		chain = append(chain, p)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for k, w := range chain[i].heap {
			st.heap[k] = w
		}
	}
	if r := ret.rel(st); r != True {
		st.assume(r)
	}
	return v, true
}

type pend struct {
	st *State
}

func (x *Exec) run(fr *Frame, cs *State) *State {
	fn := fr.fn
	o := x.wto[fn]
	if o == nil {
		o = orderOf(fn)
		x.wto[fn] = o
	}
	pending := map[int]*State{0: cs}
	var ret *State
	arrive := func(b *ssa.BasicBlock, st *State) {
		if q, ok := pending[b.Index]; ok {
			x.merges++
			pending[b.Index] = mergeStates(q, st)
		} else {
			pending[b.Index] = st
		}
	}
	for len(pending) > 0 {
		best := -1
		for b := range pending {
			if best < 0 || o.idx[b] < o.idx[best] {
				best = b
			}
		}
		st := pending[best]
		delete(pending, best)
		blk := fn.Blocks[best]
		// run straight-line
		for {
			alive := true
			var last ssa.Instruction
			for _, in := range blk.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				last = in
				switch in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
					continue
				}
				x.steps++
				if x.steps > x.maxSteps {
					unsup("step limit")
				}
				if !x.instr(fr, st, in) {
					alive = false
					break
				}
			}
			if !alive {
				st.kill()
				break
			}
			next := (*ssa.BasicBlock)(nil)
			switch in := last.(type) {
			case *ssa.Jump:
				x.edge(fr, st, blk, 0)
				next = blk.Succs[0]
			case *ssa.Return:
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = x.val(st, in.Results[0])
				default:
					t := &TupleV{}
					for _, r := range in.Results {
						t.e = append(t.e, x.val(st, r))
					}
					v = t
				}
				if v == nil {
					v = &TupleV{}
				}
				st.env[retKey{}] = v
				if ret == nil {
					ret = st
				} else {
					x.merges++
					ret = mergeStates(ret, st)
				}
			case *ssa.Panic:
				x.oblige(st, False, "panic", "explicit panic", in.Pos())
				st.kill()
			case *ssa.If:
				c := x.term(st, in.Cond)
				k := -1
				if c == True {
					k = 0
				} else if c == False {
					k = 1
				} else {
					if o.cyclic[best0(blk)] || x.recursive(fn) {
						if !x.noFeas && !x.isHarness(fn) {
							if !x.feasible(And(st.reach, c)) {
								k = 1
							} else if !x.feasible(And(st.reach, Not(c))) {
								k = 0
							}
						}
					}
				}
				if k >= 0 {
					x.edge(fr, st, blk, k)
					next = blk.Succs[k]
					break
				}
				x.forks++
				if o.cyclic[blk.Index] {
					fr.iters[blk.Index]++
					if fr.iters[blk.Index] > x.maxIter && (!x.isHarness(fn) || fr.iters[blk.Index] > 200*x.maxIter) {
						x.oblige(st, False, "unwind", "loop bound exceeded in "+fn.String(), in.Pos())
						st.kill()
						break
					}
				}
				a, b := st.fork(c)
				x.edge(fr, a, blk, 0)
				x.edge(fr, b, blk, 1)
				arrive(blk.Succs[0], a)
				arrive(blk.Succs[1], b)
			default:
				unsup("block ends with %T", last)
			}
			if next == nil {
				break
			}
			// continue directly if nothing else must run first and nothing merges
			if len(pending) == 0 {
				blk = next
				continue
			}
			arrive(next, st)
			break
		}
	}
	return ret
}

func best0(b *ssa.BasicBlock) int { return b.Index }

func (x *Exec) recursive(fn *ssa.Function) bool {
	n := 0
	for _, f := range x.stack {
		if f.fn == fn {
			n++
		}
	}
	return n > 1
}

func (x *Exec) edge(fr *Frame, st *State, from *ssa.BasicBlock, k int) {
	to := from.Succs[k]
	if len(to.Instrs) == 0 {
		return
	}
	if _, ok := to.Instrs[0].(*ssa.Phi); !ok {
		return
	}
	// which predecessor index? (a block may be a predecessor twice)
	pi := -1
	seen := 0
	want := 0
	for i := 0; i < k; i++ {
		if from.Succs[i] == to {
			want++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if seen == want {
				pi = i
				break
			}
			seen++
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.val(st, phi.Edges[pi]))
	}
	for i, p := range phis {
		st.env[p] = vals[i]
	}
}

// ---------- operands ----------

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &PtrV{[]PtrAlt{{g: True, obj: x.globalObj(st, c)}}}
	case *ssa.Function:
		return &FuncV{[]FuncAlt{{g: True, fn: c}}}
	case *ssa.Builtin:
		return &FuncV{[]FuncAlt{{g: True, builtin: c}}}
	}
	r := st.getEnv(v)
	if r == nil {
		unsup("undefined value %s in %s", v.Name(), x.pos())
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	r := x.val(st, v)
	t, ok := r.(*Term)
	if !ok {
		if _, o := r.(*OpaqueV); o {
			s := scalarSort(v.Type())
			if s == nil {
				s = BV(64)
			}
			return Fresh(s, "opaque")
		}
		unsup("scalar expected, got %T for %s", r, v)
	}
	return t
}

func (x *Exec) globalObj(st *State, g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var v Val
	if g.Pkg != x.pkg {
		// globals of other packages: run-time initialised; only opaque use
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			v = x.newError(st, strOpaque(false))
		} else {
			v = x.opaqueOf(t)
		}
	} else {
		v = zeroVal(t)
	}
	x.nextObj++
	id := x.nextObj
	x.objType[id] = t
	// globals live in the root state
	root := st
	for root.parent != nil {
		root = root.parent
	}
	root.heap[id] = v
	x.globals[g] = id
	return id
}

func (x *Exec) opaqueOf(t types.Type) Val {
	if s := scalarSort(t); s != nil && s.K != SArr {
		return Fresh(s, "opaque")
	}
	if isString(t) {
		return strOpaque(true)
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		x.nextObj++
		x.objType[x.nextObj] = t
		return &PtrV{[]PtrAlt{{g: True, obj: x.nextObj}}}
	}
	return &OpaqueV{t.String()}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if s := scalarSort(t); s != nil {
		if s.K == SBool {
			return BoolC(constant.BoolVal(c.Value))
		}
		iv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return Const(s.W, u)
		}
		i, _ := constant.Int64Val(iv)
		return Const(s.W, uint64(i))
	}
	if isString(t) {
		return strConst(constant.StringVal(c.Value))
	}
	return &OpaqueV{"const"}
}

// ---------- memory ----------

func hasArr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArr(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func disown(v Val) {
	switch n := v.(type) {
	case *ArrV:
		n.owner = nil
		for _, e := range n.e {
			disown(e)
		}
	case *StructV:
		for _, e := range n.f {
			disown(e)
		}
	}
}

func (x *Exec) nilCheck(st *State, p *PtrV, pos token.Pos, what string) {
	for _, a := range p.alts {
		if a.obj == 0 {
			x.oblige(st, Not(a.g), "panic", "nil pointer dereference "+what, pos)
		}
	}
}

func (x *Exec) load(st *State, p *PtrV, t types.Type, pos token.Pos) Val {
	x.nilCheck(st, p, pos, "(load)")
	if x.conc != nil {
		x.concAccess(st, p, false, pos)
	}
	var r Val
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		if a.obj == 0 {
			continue
		}
		o := st.getObj(a.obj)
		if o == nil {
			return x.opaqueOf(t)
		}
		var v Val
		if va, ok := o.(*VirtArr); ok {
			v = x.virtLoad(st, va, a)
		} else {
			v = x.readPath(o, a.path)
		}
		if v == nil {
			continue
		}
		if r == nil {
			r = v
		} else {
			r = mergeVal(a.g, v, r)
		}
	}
	if r == nil {
		r = zeroVal(t)
	}
	if t != nil && hasArr(t) {
		disown(r)
	}
	return r
}

func (x *Exec) store(st *State, p *PtrV, v Val, pos token.Pos) {
	x.nilCheck(st, p, pos, "(store)")
	if x.conc != nil {
		x.concAccess(st, p, true, pos)
	}
	for _, a := range p.alts {
		if a.obj == 0 {
			continue
		}
		o := st.getObj(a.obj)
		if o == nil {
			continue
		}
		if va, ok := o.(*VirtArr); ok {
			x.virtStore(st, va, a, v)
			continue
		}
		st.setObj(a.obj, x.writePath(st, o, a.path, v, a.g))
	}
}

// virtLoad runs the load hook of a virtual array.  Hooks see the current path condition.
func (x *Exec) virtLoad(st *State, va *VirtArr, a PtrAlt) Val {
	x.inHook++
	defer func() { x.inHook-- }()
	f := va.load.alts[0]
	v, ok := x.call(st, f.fn, []Val{a.path[0].idx}, f.bindings)
	if !ok {
		unsup("load hook does not return")
	}
	return x.readPath(v, a.path[1:])
}

func (x *Exec) virtStore(st *State, va *VirtArr, a PtrAlt, v Val) {
	if va.store == nil || va.store.alts[0].fn == nil {
		unsup("store to a read-only virtual array in %s", x.pos())
	}
	if a.g != True {
		unsup("guarded store to a virtual array")
	}
	if len(a.path) > 1 {
		old := x.virtLoad(st, va, PtrAlt{True, a.obj, a.path[:1]})
		v = x.writePath(st, old, a.path[1:], v, True)
	}
	x.inHook++
	defer func() { x.inHook-- }()
	f := va.store.alts[0]
	if _, ok := x.call(st, f.fn, []Val{a.path[0].idx, v}, f.bindings); !ok {
		unsup("store hook does not return")
	}
}

func (x *Exec) addPath(p *PtrV, e PathElem) *PtrV {
	r := &PtrV{make([]PtrAlt, len(p.alts))}
	for i, a := range p.alts {
		np := make([]PathElem, len(a.path)+1)
		copy(np, a.path)
		np[len(a.path)] = e
		if a.obj == 0 {
			np = nil
		}
		r.alts[i] = PtrAlt{a.g, a.obj, np}
	}
	return r
}

// ---------- instructions ----------

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		id := x.alloc(st, zeroVal(t), t)
		st.env[i] = &PtrV{[]PtrAlt{{g: True, obj: id}}}
	case *ssa.BinOp:
		st.env[i] = x.binop(st, i)
	case *ssa.UnOp:
		st.env[i] = x.unop(st, i)
	case *ssa.ChangeType:
		st.env[i] = x.val(st, i.X)
	case *ssa.ChangeInterface:
		st.env[i] = x.val(st, i.X)
	case *ssa.Convert:
		st.env[i] = x.convert(st, x.val(st, i.X), i.X.Type(), i.Type())
	case *ssa.MakeInterface:
		st.env[i] = &IfaceV{[]IfaceAlt{{True, i.X.Type(), x.val(st, i.X)}}}
	case *ssa.Extract:
		tv := x.val(st, i.Tuple)
		if t, ok := tv.(*TupleV); ok {
			st.env[i] = t.e[i.Index]
		} else {
			st.env[i] = x.opaqueOf(i.Type())
		}
	case *ssa.Field:
		switch s := x.val(st, i.X).(type) {
		case *StructV:
			st.env[i] = s.f[i.Field]
		default:
			st.env[i] = x.opaqueOf(i.Type())
		}
	case *ssa.FieldAddr:
		p := x.val(st, i.X).(*PtrV)
		for _, a := range p.alts {
			if a.obj == 0 {
				x.oblige(st, Not(a.g), "panic", "nil pointer dereference (field)", i.Pos())
			}
		}
		st.env[i] = x.addPath(p, PathElem{field: i.Field})
	case *ssa.Index:
		idx := Sext64(x.term(st, i.Index), i.Index.Type())
		switch a := x.val(st, i.X).(type) {
		case *ArrV:
			x.bounds(st, idx, C64(int64(len(a.e))), i.Pos())
			st.env[i] = x.readPath(a, []PathElem{{idx: idx}})
		case *StrV:
			st.env[i] = x.strIndex(st, a, idx, i.Pos())
		default:
			unsup("index of %T", a)
		}
	case *ssa.IndexAddr:
		idx := Sext64(x.term(st, i.Index), i.Index.Type())
		switch a := x.val(st, i.X).(type) {
		case *PtrV: // *array
			n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.bounds(st, idx, C64(n), i.Pos())
			st.env[i] = x.addPath(a, PathElem{idx: idx})
		case *SliceV:
			r := &PtrV{}
			for _, s := range a.alts {
				if s.g == True {
					x.bounds(st, idx, s.len, i.Pos())
				} else {
					x.oblige(st, Or(Not(s.g), And(Sle(C64(0), idx), Slt(idx, s.len))), "panic", "index out of range", i.Pos())
				}
				if s.obj == 0 {
					r.alts = append(r.alts, PtrAlt{g: s.g})
					continue
				}
				np := make([]PathElem, len(s.path)+1)
				copy(np, s.path)
				np[len(s.path)] = PathElem{idx: Add(s.off, idx)}
				r.alts = append(r.alts, PtrAlt{s.g, s.obj, np})
			}
			st.env[i] = r
		default:
			unsup("indexaddr of %T", a)
		}
	case *ssa.Lookup:
		st.env[i] = x.lookup(st, i)
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		id := x.alloc(st, &MapC{count: C64(0), elem: mt.Elem()}, i.Type())
		st.env[i] = &MapV{[]RefAlt{{True, id}}}
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, i.Map).(*MapV), x.val(st, i.Key), x.val(st, i.Value), false, i.Pos())
	case *ssa.MakeSlice:
		st.env[i] = x.makeSlice(st, i)
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, x.val(st, v))
		}
		st.env[i] = &FuncV{[]FuncAlt{{g: True, fn: i.Fn.(*ssa.Function), bindings: b}}}
	case *ssa.Slice:
		st.env[i] = x.slice(st, i)
	case *ssa.Store:
		x.store(st, x.val(st, i.Addr).(*PtrV), x.val(st, i.Val), i.Pos())
	case *ssa.TypeAssert:
		st.env[i] = x.typeAssert(st, i)
	case *ssa.Range:
		st.env[i] = x.rangeInit(st, i)
	case *ssa.Next:
		st.env[i] = x.next(st, i)
	case *ssa.Defer:
		var args []Val
		for _, a := range i.Call.Args {
			args = append(args, x.val(st, a))
		}
		d := &deferEnt{g: True, call: &i.Call, args: args, pos: i.Pos()}
		if !i.Call.IsInvoke() {
			d.fv = x.val(st, i.Call.Value).(*FuncV)
		} else {
			d.recv = x.val(st, i.Call.Value)
		}
		l, _ := st.getEnv(deferKey{}).(*deferList)
		nl := &deferList{}
		if l != nil {
			nl.d = append(nl.d, l.d...)
		}
		nl.d = append(nl.d, d)
		st.env[deferKey{}] = nl
	case *ssa.RunDefers:
		l, _ := st.getEnv(deferKey{}).(*deferList)
		if l != nil {
			for k := len(l.d) - 1; k >= 0; k-- {
				d := l.d[k]
				if d.g == True {
					if _, ok := x.doCall(st, d.call, d.fv, d.recv, d.args, d.pos); !ok {
						return false
					}
					continue
				}
				a, b := st.fork(d.g)
				if _, ok := x.doCall(a, d.call, d.fv, d.recv, d.args, d.pos); !ok {
					unsup("panic in conditional defer")
				}
				if mergeStates(a, b) != st {
					unsup("defer merge")
				}
			}
			st.env[deferKey{}] = &deferList{}
		}
	case *ssa.Call:
		var fv *FuncV
		var recv Val
		if i.Call.IsInvoke() {
			recv = x.val(st, i.Call.Value)
		} else {
			v := x.val(st, i.Call.Value)
			f, ok := v.(*FuncV)
			if !ok {
				unsup("call of opaque function in %s", x.pos())
			}
			fv = f
		}
		args := make([]Val, len(i.Call.Args))
		for k, a := range i.Call.Args {
			args[k] = x.val(st, a)
		}
		r, ok := x.doCall(st, &i.Call, fv, recv, args, i.Pos())
		if !ok {
			return false
		}
		if r == nil {
			r = &TupleV{}
		}
		st.env[i] = r
	case *ssa.Go:
		unsup("go statement")
	default:
		unsup("instruction %T in %s", in, x.pos())
	}
	return true
}

type deferEnt struct {
	g    *Term
	call *ssa.CallCommon
	fv   *FuncV
	recv Val
	args []Val
	pos  token.Pos
}
type deferList struct{ d []*deferEnt }

func Sext64(t *Term, ty types.Type) *Term {
	if t.sort.W == 64 {
		return t
	}
	if isSigned(ty) {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (x *Exec) bounds(st *State, idx, n *Term, pos token.Pos) {
	x.oblige(st, And(Sle(C64(0), idx), Slt(idx, n)), "panic", "index out of range", pos)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fs, ts := scalarSort(from), scalarSort(to)
	if fs != nil && ts != nil && fs.K == SBV && ts.K == SBV {
		t, ok := v.(*Term)
		if !ok {
			return x.opaqueOf(to)
		}
		if ts.W < fs.W {
			return Extract(t, 0, ts.W)
		}
		if ts.W > fs.W {
			if isSigned(from) {
				return Sext(t, ts.W)
			}
			return Zext(t, ts.W)
		}
		return t
	}
	if isFloat(from) || isFloat(to) {
		if ts != nil {
			return Fresh(ts, "float")
		}
		return &OpaqueV{"float"}
	}
	if isString(from) && isString(to) {
		return v
	}
	if isString(to) {
		return strOpaque(true)
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	unsup("convert %v to %v", from, to)
	return nil
}

func (x *Exec) unop(st *State, i *ssa.UnOp) Val {
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		return x.load(st, v.(*PtrV), i.Type(), i.Pos())
	case token.NOT:
		if t, ok := v.(*Term); ok {
			return Not(t)
		}
		return Fresh(BoolS, "opaque")
	case token.SUB:
		if t, ok := v.(*Term); ok {
			return Sub(Const(t.sort.W, 0), t)
		}
		return v
	case token.XOR:
		return BNot(v.(*Term))
	}
	unsup("unop %v", i.Op)
	return nil
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Val {
	a, b := x.val(st, i.X), x.val(st, i.Y)
	switch i.Op {
	case token.EQL:
		return x.equal(st, a, b)
	case token.NEQ:
		return Not(x.equal(st, a, b))
	}
	if isString(i.X.Type()) {
		return x.strBin(st, i.Op, a.(*StrV), b.(*StrV))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		// floats
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Fresh(BoolS, "float")
		}
		return &OpaqueV{"float"}
	}
	sg := isSigned(i.X.Type())
	switch i.Op {
	case token.ADD:
		return Add(ta, tb)
	case token.SUB:
		return Sub(ta, tb)
	case token.MUL:
		return x.mul(ta, tb)
	case token.QUO, token.REM:
		x.oblige(st, Not(Eq(tb, Const(tb.sort.W, 0))), "panic", "division by zero", i.Pos())
		return x.divrem(i.Op == token.QUO, sg, ta, tb)
	case token.AND:
		if ta.sort.K == SBool {
			return And(ta, tb)
		}
		return Bin(OBand, ta, tb)
	case token.OR:
		if ta.sort.K == SBool {
			return Or(ta, tb)
		}
		return Bin(OBor, ta, tb)
	case token.XOR:
		return Bin(OBxor, ta, tb)
	case token.AND_NOT:
		return Bin(OBand, ta, BNot(tb))
	case token.SHL, token.SHR:
		w := ta.sort.W
		if isSigned(i.Y.Type()) {
			x.oblige(st, Sle(Const(tb.sort.W, 0), tb), "panic", "negative shift", i.Pos())
		}
		big := Not(Ult(tb, Const(tb.sort.W, uint64(w))))
		if tb.sort.W < 8 && uint64(w) > mask(tb.sort.W) {
			big = False
		}
		var sh *Term
		if tb.sort.W > w {
			sh = Extract(tb, 0, w)
		} else {
			sh = Zext(tb, w)
		}
		if i.Op == token.SHL {
			return Ite(big, Const(w, 0), Bin(OShl, ta, sh))
		}
		if sg {
			return Ite(big, Bin(OAshr, ta, Const(w, uint64(w-1))), Bin(OAshr, ta, sh))
		}
		return Ite(big, Const(w, 0), Bin(OLshr, ta, sh))
	case token.LSS:
		return cmp(sg, true, ta, tb)
	case token.LEQ:
		return cmp(sg, false, ta, tb)
	case token.GTR:
		return cmp(sg, true, tb, ta)
	case token.GEQ:
		return cmp(sg, false, tb, ta)
	}
	unsup("binop %v", i.Op)
	return nil
}

func cmp(sg, strict bool, a, b *Term) *Term {
	op := OUle
	switch {
	case sg && strict:
		op = OSlt
	case sg:
		op = OSle
	case strict:
		op = OUlt
	}
	return Bin(op, a, b)
}

func nleaf(t *Term) int {
	if t.op == OConst {
		return 1
	}
	return t.leaves
}

// mul: symbolic products are uninterpreted unless both are narrow or small nests
func (x *Exec) mul(a, b *Term) *Term {
	if a.op == OConst || b.op == OConst || (nleaf(a) > 0 && nleaf(b) > 0 && nleaf(a)*nleaf(b) <= 40) || !x.uninter {
		return Bin(OMul, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return UF(fmt.Sprintf("mul%d", a.sort.W), a.sort, a, b)
}

func nonlinear(t *Term, d int) bool {
	if t.op == OUF && strings.HasPrefix(t.name, "mul") {
		return true
	}
	if d == 0 {
		return false
	}
	for i := 0; i < t.n; i++ {
		if nonlinear(t.args[i], d-1) {
			return true
		}
	}
	return false
}

func (x *Exec) divrem(quo, sg bool, a, b *Term) *Term {
	if !quo && !sg && x.uninter && a.op != OConst && nonlinear(a, 6) {
		r := UF(fmt.Sprintf("urem%d", a.sort.W), a.sort, a, b)
		x.fact(Or(Eq(b, Const(b.sort.W, 0)), Ult(r, b)))
		return r
	}
	op := OUrem
	switch {
	case quo && sg:
		op = OSdiv
	case quo:
		op = OUdiv
	case sg:
		op = OSrem
	}
	// non-negative signed operands: use the unsigned operation
	if sg && b.op == OConst && b.S64() > 0 && umax(a) <= mask(a.sort.W)>>1 {
		if quo {
			op = OUdiv
		} else {
			op = OUrem
		}
	}
	return Bin(op, a, b)
}

// ---------- equality ----------

func (x *Exec) equal(st *State, a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return Eq(p, q)
		}
		return Fresh(BoolS, "opaque")
	case *OpaqueV:
		return Fresh(BoolS, "opaque")
	case *PtrV:
		q := b.(*PtrV)
		r := False
		for _, u := range p.alts {
			for _, v := range q.alts {
				if u.obj != v.obj {
					continue
				}
				e := True
				if u.obj != 0 {
					same, shape := samePath(u.path, v.path)
					if !same {
						if !shape {
							continue
						}
						for k := range u.path {
							if u.path[k].idx != nil {
								e = And(e, Eq(u.path[k].idx, v.path[k].idx))
							}
						}
					}
				}
				r = Or(r, AndL(u.g, v.g, e))
			}
		}
		return r
	case *SliceV:
		q := b.(*SliceV)
		// only comparisons with nil
		pn, qn := False, False
		for _, u := range p.alts {
			if u.obj == 0 {
				pn = Or(pn, u.g)
			}
		}
		for _, u := range q.alts {
			if u.obj == 0 {
				qn = Or(qn, u.g)
			}
		}
		if qn == True {
			return pn
		}
		return qn
	case *MapV:
		q := b.(*MapV)
		r := False
		for _, u := range p.alts {
			for _, v := range q.alts {
				if u.obj == v.obj {
					r = Or(r, And(u.g, v.g))
				}
			}
		}
		return r
	case *FuncV:
		q := b.(*FuncV)
		isnil := func(f *FuncV) *Term {
			r := False
			for _, u := range f.alts {
				if u.fn == nil && u.builtin == nil {
					r = Or(r, u.g)
				}
			}
			return r
		}
		if n := isnil(q); n == True {
			return isnil(p)
		}
		return isnil(q)
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok {
			unsup("interface compared with %T", b)
		}
		r := False
		for _, u := range p.alts {
			for _, v := range q.alts {
				g := And(u.g, v.g)
				if g == False {
					continue
				}
				if u.typ == nil || v.typ == nil {
					if u.typ == nil && v.typ == nil {
						r = Or(r, g)
					}
					continue
				}
				if types.Identical(u.typ, v.typ) {
					r = Or(r, And(g, x.equal(st, u.val, v.val)))
				}
			}
		}
		return r
	case *StructV:
		q := b.(*StructV)
		r := True
		for i := range p.f {
			r = And(r, x.equal(st, p.f[i], q.f[i]))
		}
		return r
	case *ArrV:
		q := b.(*ArrV)
		r := True
		for i := range p.e {
			r = And(r, x.equal(st, p.e[i], q.e[i]))
		}
		return r
	case *StrV:
		q := b.(*StrV)
		r := False
		for _, u := range p.alts {
			for _, v := range q.alts {
				g := And(u.g, v.g)
				if g == False {
					continue
				}
				switch {
				case u.con && v.con:
					if u.s == v.s {
						r = Or(r, g)
					}
				case !u.con && !v.con && u.id == v.id:
					r = Or(r, g)
				case u.con && u.s == "" && !v.empty, v.con && v.s == "" && !u.empty:
				default:
					r = Or(r, And(g, Fresh(BoolS, "streq")))
				}
			}
		}
		return r
	}
	unsup("compare %T", a)
	return nil
}

func conAlt(a StrAlt) StrAlt { a.g = True; return a }

func (x *Exec) strBin(st *State, op token.Token, a, b *StrV) Val {
	if op == token.ADD {
		var alts []StrAlt
		for _, u := range a.alts {
			for _, v := range b.alts {
				g := And(u.g, v.g)
				if g == False {
					continue
				}
				if u.con && v.con {
					alts = append(alts, StrAlt{g: g, con: true, s: u.s + v.s})
					continue
				}
				if u.con && u.s == "" {
					v.g = g
					alts = append(alts, v)
					continue
				}
				if v.con && v.s == "" {
					u.g = g
					alts = append(alts, u)
					continue
				}
				strN++
				strMeta[strN] = &strInfo{cat: []*StrV{{[]StrAlt{conAlt(u)}}, {[]StrAlt{conAlt(v)}}}}
				me := (u.con && u.s == "" || !u.con && u.empty) && (v.con && v.s == "" || !v.con && v.empty)
				alts = append(alts, StrAlt{g: g, id: strN, empty: me})
			}
		}
		return &StrV{alts}
	}
	if len(a.alts) == 1 && len(b.alts) == 1 && a.alts[0].con && b.alts[0].con {
		p, q := a.alts[0].s, b.alts[0].s
		switch op {
		case token.LSS:
			return BoolC(p < q)
		case token.LEQ:
			return BoolC(p <= q)
		case token.GTR:
			return BoolC(p > q)
		case token.GEQ:
			return BoolC(p >= q)
		}
	}
	return Fresh(BoolS, "strcmp")
}

func (x *Exec) strIndex(st *State, a *StrV, idx *Term, pos token.Pos) Val {
	if len(a.alts) == 1 && a.alts[0].con && idx.IsConst() {
		s := a.alts[0].s
		x.bounds(st, idx, C64(int64(len(s))), pos)
		if idx.val < uint64(len(s)) {
			return Const(8, uint64(s[idx.val]))
		}
	}
	return Fresh(BV(8), "strbyte")
}

// ---------- slices ----------

func sliceOf(obj int, path []PathElem, n int) *SliceV {
	c := C64(int64(n))
	return &SliceV{[]SliceAlt{{True, obj, path, C64(0), c, c}}}
}

// enumVals: all feasible values of t under reach (at most max)
func (x *Exec) enumVals(st *State, t *Term, max int, what string) []uint64 {
	if t.op == OConst {
		return []uint64{t.val}
	}
	if t.leaves > 0 && t.leaves <= max {
		return leafVals(t)
	}
	var vs []uint64
	c := st.reach
	for {
		x.sol.define(t)
		if x.sol.Check(true, c) == "unsat" {
			x.sol.Pop()
			break
		}
		v, ok := x.sol.GetValue(t)
		x.sol.Pop()
		if !ok {
			unsup("cannot enumerate %s", what)
		}
		vs = append(vs, v)
		if len(vs) > max {
			unsup("too many values for %s", what)
		}
		c = And(c, Not(Eq(t, Const(t.sort.W, v))))
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	return vs
}

func (x *Exec) makeSlice(st *State, i *ssa.MakeSlice) Val {
	et := i.Type().Underlying().(*types.Slice).Elem()
	l := Sext64(x.term(st, i.Len), i.Len.Type())
	c := Sext64(x.term(st, i.Cap), i.Cap.Type())
	x.oblige(st, And(Sle(C64(0), l), Sle(l, c)), "panic", "makeslice: len out of range", i.Pos())
	var r *SliceV
	for _, cv := range x.enumVals(st, c, 80, "make capacity") {
		g := Eq(c, C64(int64(cv)))
		if int64(cv) < 0 || cv > 1<<21 {
			if g == True {
				unsup("make of size %d", cv)
			}
			x.oblige(st, Not(g), "unwind", "make size beyond the bound", i.Pos())
			continue
		}
		a := &ArrV{e: make([]Val, cv)}
		z := zeroVal(et)
		for k := range a.e {
			a.e[k] = z
		}
		a.owner = st
		id := x.alloc(st, a, types.NewArray(et, int64(cv)))
		ll := l
		if l == c {
			ll = C64(int64(cv))
		}
		s := &SliceV{[]SliceAlt{{True, id, nil, C64(0), ll, C64(int64(cv))}}}
		if r == nil {
			r = s
		} else {
			r = mergeVal(g, s, r).(*SliceV)
		}
	}
	if r == nil {
		r = nilSlice
	}
	return r
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return Sext64(x.term(st, v), v.Type())
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = C64(0)
	}
	switch a := x.val(st, i.X).(type) {
	case *SliceV:
		r := &SliceV{}
		for _, s := range a.alts {
			h := hi
			if h == nil {
				h = s.len
			}
			c := s.cap
			if mx != nil {
				x.oblige(st, Or(Not(s.g), And(Sle(h, mx), Sle(mx, s.cap))), "panic", "slice bounds out of range", i.Pos())
				c = mx
			}
			x.oblige(st, Or(Not(s.g), AndL(Sle(C64(0), lo), Sle(lo, h), Sle(h, c))), "panic", "slice bounds out of range", i.Pos())
			r.alts = append(r.alts, SliceAlt{s.g, s.obj, s.path, Add(s.off, lo), Sub(h, lo), Sub(c, lo)})
		}
		return r
	case *PtrV:
		n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		h := hi
		if h == nil {
			h = C64(n)
		}
		c := C64(n)
		if mx != nil {
			c = mx
		}
		x.oblige(st, AndL(Sle(C64(0), lo), Sle(lo, h), Sle(h, c)), "panic", "slice bounds out of range", i.Pos())
		r := &SliceV{}
		for _, s := range a.alts {
			if s.obj == 0 {
				x.oblige(st, Not(s.g), "panic", "nil pointer dereference (slice)", i.Pos())
				continue
			}
			r.alts = append(r.alts, SliceAlt{s.g, s.obj, s.path, lo, Sub(h, lo), Sub(c, lo)})
		}
		return r
	case *StrV:
		if len(a.alts) == 1 && a.alts[0].con && lo.IsConst() && (hi == nil || hi.IsConst()) {
			s := a.alts[0].s
			h := uint64(len(s))
			if hi != nil {
				h = hi.val
			}
			if lo.val <= h && h <= uint64(len(s)) {
				return strConst(s[lo.val:h])
			}
		}
		return strOpaque(true)
	}
	unsup("slice of %T", x.val(st, i.X))
	return nil
}

func (x *Exec) sliceElem(st *State, s SliceAlt, k *Term, et types.Type) Val {
	o := st.getObj(s.obj)
	p := append(append([]PathElem(nil), s.path...), PathElem{idx: Add(s.off, k)})
	if va, ok := o.(*VirtArr); ok {
		return x.virtLoad(st, va, PtrAlt{True, s.obj, p})
	}
	return x.readPath(o, p)
}

// appendVals appends a (small) list of values to a slice.
func (x *Exec) appendVals(st *State, s *SliceV, vals []Val, et types.Type) *SliceV {
	if len(vals) == 0 {
		return s
	}
	var r *SliceV
	k := int64(len(vals))
	for ai := len(s.alts) - 1; ai >= 0; ai-- {
		a := s.alts[ai]
		lens := x.enumVals(st, a.len, 80, "append length")
		for li := len(lens) - 1; li >= 0; li-- {
			n := int64(lens[li])
			g := And(a.g, Eq(a.len, C64(n)))
			if g == False {
				continue
			}
			if n < 0 || n > 1<<20 {
				continue
			}
			if !a.cap.IsConst() {
				// one alternative per capacity
				unsup("append with symbolic capacity")
			}
			cp := int64(a.cap.val)
			var res *SliceV
			if a.obj != 0 && n+k <= cp {
				for j, v := range vals {
					p := PtrAlt{g, a.obj, append(append([]PathElem(nil), a.path...), PathElem{idx: Add(a.off, C64(n+int64(j)))})}
					st.setObj(a.obj, x.writePath(st, st.getObj(a.obj), p.path, v, g))
				}
				res = &SliceV{[]SliceAlt{{True, a.obj, a.path, a.off, C64(n + k), a.cap}}}
			} else {
				nc := cp * 2
				if nc < n+k {
					nc = n + k
				}
				if nc < 4 {
					nc = 4
				}
				arr := &ArrV{e: make([]Val, nc)}
				z := zeroVal(et)
				for j := range arr.e {
					switch {
					case int64(j) < n:
						arr.e[j] = x.sliceElem(st, a, C64(int64(j)), et)
					case int64(j) < n+k:
						arr.e[j] = vals[int64(j)-n]
					default:
						arr.e[j] = z
					}
				}
				id := x.alloc(st, arr, types.NewArray(et, nc))
				res = &SliceV{[]SliceAlt{{True, id, nil, C64(0), C64(n + k), C64(nc)}}}
			}
			if r == nil {
				r = res
			} else {
				r = mergeVal(g, res, r).(*SliceV)
			}
		}
	}
	if r == nil {
		r = nilSlice
	}
	return r
}

func (x *Exec) sliceVals(st *State, s *SliceV, et types.Type) ([]Val, bool) {
	// concrete-length single alternative
	if len(s.alts) == 1 && s.alts[0].len.IsConst() {
		var vs []Val
		n := int64(s.alts[0].len.val)
		for k := int64(0); k < n; k++ {
			vs = append(vs, x.sliceElem(st, s.alts[0], C64(k), et))
		}
		return vs, true
	}
	return nil, false
}

func (x *Exec) appendSlice(st *State, s, t *SliceV, et types.Type) *SliceV {
	if vs, ok := x.sliceVals(st, t, et); ok {
		return x.appendVals(st, s, vs, et)
	}
	// split on the appended slice
	var r *SliceV
	type cs struct {
		g *Term
		a SliceAlt
		n int64
	}
	var cases []cs
	for _, a := range t.alts {
		for _, n := range x.enumVals(st, a.len, 80, "append length") {
			if g := And(a.g, Eq(a.len, C64(int64(n)))); g != False && int64(n) >= 0 {
				cases = append(cases, cs{g, a, int64(n)})
			}
		}
	}
	base := st
	for i, c := range cases {
		if i == len(cases)-1 && r == nil {
			c.g = True
		}
		var vs []Val
		for k := int64(0); k < c.n; k++ {
			vs = append(vs, x.sliceElem(base, c.a, C64(k), et))
		}
		a, b := st.fork(c.g)
		ra := x.appendVals(a, s, vs, et)
		m := mergeStates(a, b)
		if m != st {
			unsup("append split")
		}
		if r == nil {
			r = ra
		} else {
			r = mergeVal(c.g, ra, r).(*SliceV)
		}
	}
	if r == nil {
		r = s
	}
	return r
}

func (x *Exec) copySlice(st *State, d, s *SliceV, et types.Type) *Term {
	// number copied = min(len d, len s)
	total := C64(0)
	for _, sa := range s.alts {
		for _, da := range d.alts {
			g := And(sa.g, da.g)
			if g == False {
				continue
			}
			n := Ite(Slt(sa.len, da.len), sa.len, da.len)
			total = Ite(g, n, total)
			if sa.obj == 0 || da.obj == 0 {
				continue
			}
			var max int64
			for _, v := range x.enumVals(st, n, 2000, "copy length") {
				if int64(v) > max {
					max = int64(v)
				}
			}
			vals := make([]Val, max)
			for k := int64(0); k < max; k++ {
				if x.conc != nil {
					x.concAccess(st, &PtrV{[]PtrAlt{{g: True, obj: sa.obj, path: append(append([]PathElem(nil), sa.path...), PathElem{idx: Add(sa.off, C64(k))})}}}, false, token.NoPos)
				}
				vals[k] = x.sliceElem(st, sa, C64(k), et)
			}
			for k := int64(0); k < max; k++ {
				c := And(g, Slt(C64(k), n))
				p := append(append([]PathElem(nil), da.path...), PathElem{idx: Add(da.off, C64(k))})
				if x.conc != nil {
					x.concAccess(st, &PtrV{[]PtrAlt{{g: True, obj: da.obj, path: p}}}, true, token.NoPos)
				}
				st.setObj(da.obj, x.writePath(st, st.getObj(da.obj), p, vals[k], c))
			}
		}
	}
	return total
}

func (s *SliceV) length() *Term {
	var r *Term
	for i := len(s.alts) - 1; i >= 0; i-- {
		if r == nil {
			r = s.alts[i].len
		} else {
			r = Ite(s.alts[i].g, s.alts[i].len, r)
		}
	}
	return r
}

func (s *SliceV) capacity() *Term {
	var r *Term
	for i := len(s.alts) - 1; i >= 0; i-- {
		if r == nil {
			r = s.alts[i].cap
		} else {
			r = Ite(s.alts[i].g, s.alts[i].cap, r)
		}
	}
	return r
}

// ---------- maps ----------

func (x *Exec) keyTerms(v Val) []*Term {
	switch k := v.(type) {
	case *Term:
		return []*Term{k}
	case *ArrV:
		var r []*Term
		for _, e := range k.e {
			r = append(r, x.keyTerms(e)...)
		}
		return coalesce(r)
	case *StructV:
		var r []*Term
		for _, e := range k.f {
			r = append(r, x.keyTerms(e)...)
		}
		return r
	case *PtrV:
		if len(k.alts) == 1 && len(k.alts[0].path) == 0 {
			return []*Term{C64(int64(k.alts[0].obj))}
		}
	case *StrV:
		if len(k.alts) == 1 && k.alts[0].con {
			var r []*Term
			r = append(r, C64(int64(len(k.alts[0].s))))
			for _, c := range []byte(k.alts[0].s) {
				r = append(r, Const(8, uint64(c)))
			}
			return r
		}
	}
	unsup("map key %T", v)
	return nil
}

// coalesce glues little-endian byte extracts of one word back together.
func coalesce(ts []*Term) []*Term {
	var out []*Term
	i := 0
	for i < len(ts) {
		t := ts[i]
		if t.sort.K == SBV && t.sort.W == 8 && t.op == OExtract && t.lo == 0 {
			src := t.args[0]
			j := i + 1
			for j < len(ts) && ts[j].op == OExtract && ts[j].args[0] == src && ts[j].lo == (j-i)*8 && ts[j].sort.W == 8 {
				j++
			}
			// sign/zero-extension bytes may have been simplified: only accept full words
			if (j-i)*8 == src.sort.W {
				out = append(out, src)
				i = j
				continue
			}
		}
		out = append(out, t)
		i++
	}
	return out
}

func keyEq(a, b []*Term) *Term {
	// both are sequences of words with equal total width; split constants as needed
	r := True
	i, j := 0, 0
	var ra, rb []*Term // pending remainders as byte lists
	nextA := func() *Term { t := a[i]; i++; return t }
	nextB := func() *Term { t := b[j]; j++; return t }
	_ = ra
	_ = rb
	for i < len(a) && j < len(b) {
		s, t := nextA(), nextB()
		if s.sort == t.sort {
			r = And(r, Eq(s, t))
			if r == False {
				return False
			}
			continue
		}
		if s.sort.K != SBV || t.sort.K != SBV {
			unsup("map key shapes")
		}
		// gather the narrower side
		for s.sort.W != t.sort.W {
			if s.sort.W < t.sort.W {
				if i >= len(a) {
					unsup("map key widths")
				}
				n := a[i]
				i++
				s = concatLE(s, n)
			} else {
				if j >= len(b) {
					unsup("map key widths")
				}
				n := b[j]
				j++
				t = concatLE(t, n)
			}
			if s == nil || t == nil {
				unsup("map key widths")
			}
		}
		r = And(r, Eq(s, t))
		if r == False {
			return False
		}
	}
	if i != len(a) || j != len(b) {
		return False
	}
	return r
}

// concatLE: hi:lo concatenation where lo comes first in memory
func concatLE(lo, hi *Term) *Term {
	w := lo.sort.W + hi.sort.W
	if w > 64 {
		return nil
	}
	return Bin(OBor, Zext(lo, w), Bin(OShl, Zext(hi, w), Const(w, uint64(lo.sort.W))))
}

func (x *Exec) mapLookup(st *State, mv *MapV, key Val, elem types.Type) (Val, *Term) {
	kt := x.keyTerms(key)
	var rv Val = zeroVal(elem)
	ok := False
	for _, m := range mv.alts {
		if m.obj == 0 {
			continue
		}
		mc := st.getObj(m.obj).(*MapC)
		// last write wins: build from the oldest to the newest
		var v Val = zeroVal(elem)
		f := False
		for i := range mc.ents {
			e := &mc.ents[i]
			c := And(e.g, keyEq(e.key, kt))
			if c == False {
				continue
			}
			if e.del {
				v = mergeVal(c, zeroVal(elem), v)
				f = And(f, Not(c))
			} else {
				v = mergeVal(c, e.v, v)
				f = Or(f, c)
			}
		}
		rv = mergeVal(m.g, v, rv)
		ok = Ite(m.g, f, ok)
	}
	return rv, ok
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) Val {
	switch m := x.val(st, i.X).(type) {
	case *MapV:
		el := i.X.Type().Underlying().(*types.Map).Elem()
		v, ok := x.mapLookup(st, m, x.val(st, i.Index), el)
		if i.CommaOk {
			return &TupleV{[]Val{v, ok}}
		}
		return v
	case *StrV:
		return x.strIndex(st, m, Sext64(x.term(st, i.Index), i.Index.Type()), i.Pos())
	}
	unsup("lookup")
	return nil
}

func (x *Exec) mapUpdate(st *State, mv *MapV, key, val Val, del bool, pos token.Pos) {
	kt := x.keyTerms(key)
	for _, m := range mv.alts {
		if m.obj == 0 {
			if !del {
				x.oblige(st, Not(m.g), "panic", "assignment to entry in nil map", pos)
			}
			continue
		}
		mc := st.getObj(m.obj).(*MapC)
		_, found := x.mapLookup(st, &MapV{[]RefAlt{{True, m.obj}}}, key, mc.elem)
		nm := &MapC{elem: mc.elem}
		// drop entries certainly overwritten when unconditional
		for i := range mc.ents {
			e := mc.ents[i]
			if m.g == True {
				c := keyEq(e.key, kt)
				if c == True {
					continue
				}
			}
			nm.ents = append(nm.ents, e)
		}
		if !(del && found == False) {
			if !(del && m.g == True && len(nm.ents) < len(mc.ents) && x.noneMayMatch(nm, kt)) {
				nm.ents = append(nm.ents, MapEnt{g: m.g, key: kt, kv: key, del: del, v: val})
			}
		}
		if del {
			nm.count = Ite(And(m.g, found), Sub(mc.count, C64(1)), mc.count)
		} else {
			nm.count = Ite(And(m.g, Not(found)), Add(mc.count, C64(1)), mc.count)
		}
		st.setObj(m.obj, nm)
	}
}

func (x *Exec) noneMayMatch(m *MapC, kt []*Term) bool {
	for i := range m.ents {
		if And(m.ents[i].g, keyEq(m.ents[i].key, kt)) != False {
			return false
		}
	}
	return true
}

// map / string iteration: the iterator is a heap object with a concrete position
type iterV struct {
	obj int
	str *StrV
	ks  []Val
	vs  []Val
	gs  []*Term
}

func (x *Exec) rangeInit(st *State, i *ssa.Range) Val {
	it := &iterV{}
	switch m := x.val(st, i.X).(type) {
	case *MapV:
		for _, a := range m.alts {
			if a.obj == 0 {
				continue
			}
			mc := st.getObj(a.obj).(*MapC)
			for k := range mc.ents {
				e := &mc.ents[k]
				if e.del {
					continue
				}
				g := And(a.g, e.g)
				for q := k + 1; q < len(mc.ents); q++ {
					g = And(g, Not(And(mc.ents[q].g, keyEq(e.key, mc.ents[q].key))))
				}
				if g == False {
					continue
				}
				it.ks = append(it.ks, e.kv)
				it.vs = append(it.vs, e.v)
				it.gs = append(it.gs, g)
			}
		}
	case *StrV:
		if len(m.alts) != 1 || !m.alts[0].con {
			unsup("range over string")
		}
		for k, r := range m.alts[0].s {
			it.ks = append(it.ks, C64(int64(k)))
			it.vs = append(it.vs, Const(32, uint64(r)))
			it.gs = append(it.gs, True)
		}
	default:
		unsup("range over %T", m)
	}
	it.obj = x.alloc(st, C64(0), types.Typ[types.Int])
	return it
}

func (x *Exec) next(st *State, i *ssa.Next) Val {
	it := x.val(st, i.Iter).(*iterV)
	pos := st.getObj(it.obj).(*Term)
	ok := False
	var k, v Val
	np := pos
	for q := len(it.ks) - 1; q >= 0; q-- {
		c := And(it.gs[q], Sle(pos, C64(int64(q))))
		if c == False {
			continue
		}
		ok = Or(c, ok)
		k = mergeVal(c, it.ks[q], k)
		v = mergeVal(c, it.vs[q], v)
		np = Ite(c, C64(int64(q+1)), np)
	}
	st.setObj(it.obj, np)
	if k == nil {
		tt := i.Type().(*types.Tuple)
		zk := func(t types.Type) Val {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return C64(0)
			}
			return zeroVal(t)
		}
		k, v = zk(tt.At(1).Type()), zk(tt.At(2).Type())
	}
	return &TupleV{[]Val{ok, k, v}}
}

// ---------- type assertions ----------

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) Val {
	v := x.val(st, i.X)
	iv, ok := v.(*IfaceV)
	if !ok {
		unsup("type assertion on %T", v)
	}
	okc := False
	var r Val
	it, isI := i.AssertedType.Underlying().(*types.Interface)
	for k := len(iv.alts) - 1; k >= 0; k-- {
		a := iv.alts[k]
		if a.typ == nil {
			continue
		}
		match := false
		var w Val
		if isI {
			match = types.Implements(a.typ, it)
			w = &IfaceV{[]IfaceAlt{{True, a.typ, a.val}}}
		} else {
			match = types.Identical(a.typ, i.AssertedType)
			w = a.val
		}
		if !match {
			continue
		}
		okc = Or(okc, a.g)
		if r == nil {
			r = w
		} else {
			r = mergeVal(a.g, w, r)
		}
	}
	if i.CommaOk {
		z := zeroVal(i.AssertedType)
		if r == nil {
			r = z
		} else {
			r = mergeVal(okc, r, z)
		}
		return &TupleV{[]Val{r, okc}}
	}
	x.oblige(st, okc, "panic", "failed type assertion", i.Pos())
	if r == nil {
		r = zeroVal(i.AssertedType)
	}
	return r
}

// ---------- calls ----------

func (x *Exec) doCall(st *State, c *ssa.CallCommon, fv *FuncV, recv Val, args []Val, pos token.Pos) (Val, bool) {
	if c.IsInvoke() {
		iv, ok := recv.(*IfaceV)
		if !ok {
			// opaque receiver (e.g. an io.Writer)
			return x.opaqueResult(c.Signature()), true
		}
		var cases []callCase
		for _, a := range iv.alts {
			if a.typ == nil {
				x.oblige(st, Not(a.g), "panic", "method call on nil interface", pos)
				continue
			}
			if _, o := a.val.(*OpaqueV); o {
				cases = append(cases, callCase{g: a.g, opaque: c.Signature()})
				continue
			}
			m := x.prog.LookupMethod(a.typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				unsup("method %s of %s", c.Method.Name(), a.typ)
			}
			cases = append(cases, callCase{g: a.g, fn: m, args: append([]Val{a.val}, args...)})
		}
		return x.callCases(st, cases, pos)
	}
	if len(fv.alts) == 1 && fv.alts[0].builtin != nil {
		return x.builtin(st, fv.alts[0].builtin, c, args, pos)
	}
	var cases []callCase
	for _, a := range fv.alts {
		if a.fn == nil {
			x.oblige(st, Not(a.g), "panic", "call of nil function", pos)
			continue
		}
		cases = append(cases, callCase{g: a.g, fn: a.fn, args: args, bind: a.bindings})
	}
	return x.callCases(st, cases, pos)
}

type callCase struct {
	g      *Term
	fn     *ssa.Function
	args   []Val
	bind   []Val
	opaque *types.Signature
}

func (x *Exec) callCases(st *State, cs []callCase, pos token.Pos) (Val, bool) {
	if len(cs) == 0 {
		return nil, false
	}
	if len(cs) == 1 {
		return x.callFn(st, cs[0], pos)
	}
	c := cs[0]
	// a: first case, b: the rest
	if And(st.reach, c.g) == False {
		return x.callCases(st, cs[1:], pos)
	}
	if And(st.reach, Not(c.g)) == False {
		return x.callFn(st, c, pos)
	}
	a, b := st.fork(c.g)
	va, oka := x.callFn(a, c, pos)
	vb, okb := x.callCases(b, cs[1:], pos)
	switch {
	case !oka && !okb:
		a.kill()
		b.kill()
		for p := st; p != nil; p = p.parent { // the caller kills st
			p.live++
			if p.envTop {
				break
			}
		}
		return nil, false
	case oka && okb:
		a.env[retKey{}], b.env[retKey{}] = va, vb
		m := mergeStates(a, b)
		if m != st {
			unsup("call merge")
		}
		v := st.env[retKey{}]
		delete(st.env, retKey{})
		return v, true
	}
	s, v, d := a, va, b
	if !oka {
		s, v, d = b, vb, a
	}
	d.kill()
	// collapse s into st
	for k, w := range s.heap {
		st.heap[k] = w
	}
	if s.parent != st {
		unsup("call collapse")
	}
	st.assume(s.cond)
	return v, true
}

func (x *Exec) opaqueResult(sig *types.Signature) Val {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return &TupleV{}
	case 1:
		return x.opaqueOf(rs.At(0).Type())
	}
	t := &TupleV{}
	for i := 0; i < rs.Len(); i++ {
		t.e = append(t.e, x.opaqueOf(rs.At(i).Type()))
	}
	return t
}

var debugCalls = os.Getenv("GOSYM_TRACE") != ""

func (x *Exec) callFn(st *State, c callCase, pos token.Pos) (Val, bool) {
	if c.opaque != nil {
		return x.opaqueResult(c.opaque), true
	}
	fn := c.fn
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if debugCalls {
		fmt.Fprintf(os.Stderr, "%*s%s\n", len(x.stack), "", name)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Pkg != x.pkg {
		return void, true
	}
	if f, ok := intrinsics[name]; ok {
		return f(x, st, &callCtx{fn: fn, args: c.args, pos: pos})
	}
	if strings.HasPrefix(name, pkgPath+".v") {
		if f, ok := intrinsics["rt."+fn.Name()]; ok {
			return f(x, st, &callCtx{fn: fn, args: c.args, pos: pos})
		}
		if o := fn.Origin(); o != nil {
			if f, ok := intrinsics["rt."+o.Name()]; ok {
				return f(x, st, &callCtx{fn: fn, args: c.args, pos: pos})
			}
		}
	}
	if fn.Pkg != nil && fn.Pkg != x.pkg || fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg().Path() != pkgPath {
		p := ""
		if fn.Pkg != nil {
			p = fn.Pkg.Pkg.Path()
		} else {
			p = fn.Object().Pkg().Path()
		}
		if v, ok, done := x.external(st, p, name, fn, c.args, pos); done {
			return v, ok
		}
	}
	if s, ok := x.stubs[name]; ok && x.inHook == 0 {
		caller := (*ssa.Function)(nil)
		if len(x.stack) > 0 {
			caller = x.stack[len(x.stack)-1].fn
		}
		if caller == nil || !x.isHarness(caller) {
			return x.call(st, s.alts[0].fn, c.args, s.alts[0].bindings)
		}
	}
	return x.call(st, fn, c.args, c.bind)
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) (Val, bool) {
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			return a.length(), true
		case *MapV:
			r := C64(0)
			for _, m := range a.alts {
				if m.obj != 0 {
					r = Ite(m.g, st.getObj(m.obj).(*MapC).count, r)
				}
			}
			return r, true
		case *StrV:
			var r *Term
			for i := len(a.alts) - 1; i >= 0; i-- {
				u := a.alts[i]
				var l *Term
				if u.con {
					l = C64(int64(len(u.s)))
				} else {
					l = Var(BV(64), fmt.Sprintf("strlen!%d", u.id))
					x.fact(Sle(C64(0), l))
					x.fact(Slt(l, C64(1<<40)))
					if !u.empty {
						x.fact(Slt(C64(0), l))
					}
				}
				if r == nil {
					r = l
				} else {
					r = Ite(u.g, l, r)
				}
			}
			return r, true
		case *ArrV:
			return C64(int64(len(a.e))), true
		case *PtrV:
			t := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return C64(t.Len()), true
		}
	case "cap":
		if a, ok := args[0].(*SliceV); ok {
			return a.capacity(), true
		}
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if _, ok := args[1].(*StrV); ok {
			unsup("append of string")
		}
		return x.appendSlice(st, args[0].(*SliceV), args[1].(*SliceV), et), true
	case "copy":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if _, ok := args[1].(*StrV); ok {
			unsup("copy of string")
		}
		return x.copySlice(st, args[0].(*SliceV), args[1].(*SliceV), et), true
	case "delete":
		x.mapUpdate(st, args[0].(*MapV), args[1], nil, true, pos)
		return &TupleV{}, true
	case "clear":
		switch a := args[0].(type) {
		case *MapV:
			for _, m := range a.alts {
				if m.obj == 0 {
					continue
				}
				mc := st.getObj(m.obj).(*MapC)
				st.setObj(m.obj, mergeVal(m.g, &MapC{elem: mc.elem, count: C64(0)}, mc))
			}
			return &TupleV{}, true
		case *SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for _, s := range a.alts {
				if s.obj == 0 {
					continue
				}
				var max int64
				for _, v := range x.enumVals(st, s.len, 4000, "clear length") {
					if int64(v) > max {
						max = int64(v)
					}
				}
				for k := int64(0); k < max; k++ {
					p := append(append([]PathElem(nil), s.path...), PathElem{idx: Add(s.off, C64(k))})
					st.setObj(s.obj, x.writePath(st, st.getObj(s.obj), p, zeroVal(et), And(s.g, Slt(C64(k), s.len))))
				}
			}
			return &TupleV{}, true
		}
	case "min", "max":
		r, ok := args[0].(*Term)
		if ok {
			sg := isSigned(c.Args[0].Type())
			for _, a := range args[1:] {
				t := a.(*Term)
				lt := cmp(sg, true, t, r)
				if b.Name() == "max" {
					lt = cmp(sg, true, r, t)
				}
				r = Ite(lt, t, r)
			}
			return r, true
		}
	case "print", "println":
		return &TupleV{}, true
	case "recover":
		return nilIface, true
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0].(*PtrV), pos, "(method)")
		return args[0], true
	}
	unsup("builtin %s(%T)", b.Name(), args[0])
	return nil, false
}
