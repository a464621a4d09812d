package main

// Symbolic values, heap contents and merging.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PathElem struct {
	field int   // used when idx == nil
	idx   *Term // BV64
}

type PtrAlt struct {
	g    *Term
	obj  int // 0: nil
	path []PathElem
}
type PtrV struct{ alts []PtrAlt }

type SliceAlt struct {
	g             *Term
	obj           int // 0: nil slice
	path          []PathElem
	off, len, cap *Term
}
type SliceV struct{ alts []SliceAlt }

type RefAlt struct {
	g   *Term
	obj int
}
type MapV struct{ alts []RefAlt }

type IfaceAlt struct {
	g   *Term
	typ types.Type // nil: nil interface
	val Val
}
type IfaceV struct{ alts []IfaceAlt }

type FuncAlt struct {
	g        *Term
	fn       *ssa.Function // nil: nil func
	bindings []Val
	builtin  *ssa.Builtin
}
type FuncV struct{ alts []FuncAlt }

type StructV struct{ f []Val }
type ArrV struct {
	e     []Val
	owner *State
}
type TupleV struct{ e []Val }

type StrAlt struct {
	g     *Term
	con   bool
	s     string
	id    int
	empty bool // opaque string that may be empty
}
type StrV struct{ alts []StrAlt }

type OpaqueV struct{ why string } // unmodelled scalar (floats); any use in a branch is nondeterministic

// VirtArr is an array whose cells are produced and consumed by harness hooks.
type VirtArr struct {
	n     *Term
	elem  types.Type
	load  *FuncV
	store *FuncV
}

type MapEnt struct {
	g   *Term
	key []*Term
	kv  Val
	del bool
	v   Val
}
type MapC struct {
	ents  []MapEnt
	count *Term // len
	elem  types.Type
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---------- types ----------

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && (pkg == "" && o.Pkg() == nil || o.Pkg() != nil && o.Pkg().Path() == pkg)
}

var ghostArrB = ArrOf(BoolS)

func scalarSort(t types.Type) *Sort {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		p, nm := n.Obj().Pkg().Path(), n.Obj().Name()
		switch {
		case p == "math/big" && nm == "Int":
			return BV(64)
		case p == "sync" && (nm == "RWMutex" || nm == "Mutex"):
			return BV(32)
		case nm == "vArrB":
			return ArrOf(BoolS)
		case nm == "vArrW":
			return ArrOf(BV(16))
		case nm == "vArrU":
			return ArrOf(BV(64))
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return BV(64)
	case types.Int32, types.Uint32, types.UntypedRune:
		return BV(32)
	case types.Int16, types.Uint16:
		return BV(16)
	case types.Int8, types.Uint8:
		return BV(8)
	}
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func constSort(s *Sort, v uint64) *Term {
	switch s.K {
	case SBool:
		return BoolC(v != 0)
	case SBV:
		return Const(s.W, v)
	}
	return ConstArr(constSort(s.Elem, v))
}

func zeroVal(t types.Type) Val {
	if s := scalarSort(t); s != nil {
		return constSort(s, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return strConst("")
		}
		if u.Kind() == types.UnsafePointer {
			return &PtrV{[]PtrAlt{{g: True}}}
		}
		return &OpaqueV{"zero " + t.String()}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return &MapV{[]RefAlt{{True, 0}}}
	case *types.Interface:
		return nilIface
	case *types.Signature:
		return &FuncV{[]FuncAlt{{g: True}}}
	case *types.Chan:
		return &OpaqueV{"chan"}
	case *types.Struct:
		r := &StructV{make([]Val, u.NumFields())}
		for i := range r.f {
			r.f[i] = zeroVal(u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		r := &ArrV{e: make([]Val, n)}
		if n > 0 {
			z := zeroVal(u.Elem())
			for i := range r.e {
				r.e[i] = z
			}
		}
		return r
	case *types.Tuple:
		r := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, zeroVal(u.At(i).Type()))
		}
		return r
	}
	unsup("zero value of %v", t)
	return nil
}

var nilPtr = &PtrV{[]PtrAlt{{g: True}}}
var nilSlice = &SliceV{[]SliceAlt{{g: True, off: C64(0), len: C64(0), cap: C64(0)}}}
var nilIface = &IfaceV{[]IfaceAlt{{g: True}}}

func strConst(s string) *StrV { return &StrV{[]StrAlt{{g: True, con: true, s: s}}} }

var strN int

func strOpaque(mayEmpty bool) *StrV {
	strN++
	return &StrV{[]StrAlt{{g: True, id: strN, empty: mayEmpty}}}
}

// ---------- merging ----------

func samePath(a, b []PathElem) (same, shape bool) {
	if len(a) != len(b) {
		return false, false
	}
	same = true
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) {
			return false, false
		}
		if a[i].idx == nil {
			if a[i].field != b[i].field {
				return false, false
			}
		} else if a[i].idx != b[i].idx {
			same = false
		}
	}
	return same, true
}

func mergeVal(c *Term, a, b Val) Val {
	if a == b {
		return a
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			if _, ok := b.(*OpaqueV); ok {
				return b
			}
			unsup("merge %T %T", a, b)
		}
		return Ite(c, x, y)
	case *OpaqueV:
		return x
	case *StructV:
		y := b.(*StructV)
		r := &StructV{make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = mergeVal(c, x.f[i], y.f[i])
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{make([]Val, len(x.e))}
		for i := range x.e {
			r.e[i] = mergeVal(c, x.e[i], y.e[i])
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		if len(x.e) != len(y.e) {
			unsup("merge arrays of different length")
		}
		r := &ArrV{e: make([]Val, len(x.e))}
		for i := range x.e {
			r.e[i] = mergeVal(c, x.e[i], y.e[i])
		}
		return r
	case *PtrV:
		y := b.(*PtrV)
		var alts []PtrAlt
		add := func(g *Term, p PtrAlt) {
			g = And(g, p.g)
			if g == False {
				return
			}
			for i := range alts {
				if alts[i].obj != p.obj {
					continue
				}
				same, shape := samePath(alts[i].path, p.path)
				if same {
					alts[i].g = Or(alts[i].g, g)
					return
				}
				if shape {
					np := make([]PathElem, len(p.path))
					for k := range np {
						np[k] = p.path[k]
						if np[k].idx != nil {
							np[k].idx = Ite(g, p.path[k].idx, alts[i].path[k].idx)
						}
					}
					alts[i].path = np
					alts[i].g = Or(alts[i].g, g)
					return
				}
			}
			alts = append(alts, PtrAlt{g, p.obj, p.path})
		}
		for _, p := range x.alts {
			add(c, p)
		}
		nc := Not(c)
		for _, p := range y.alts {
			add(nc, p)
		}
		return fixPtr(&PtrV{alts})
	case *SliceV:
		y := b.(*SliceV)
		var alts []SliceAlt
		add := func(g *Term, p SliceAlt) {
			g = And(g, p.g)
			if g == False {
				return
			}
			for i := range alts {
				if alts[i].obj != p.obj {
					continue
				}
				if same, _ := samePath(alts[i].path, p.path); same {
					alts[i].off = Ite(g, p.off, alts[i].off)
					alts[i].len = Ite(g, p.len, alts[i].len)
					alts[i].cap = Ite(g, p.cap, alts[i].cap)
					alts[i].g = Or(alts[i].g, g)
					return
				}
			}
			p.g = g
			alts = append(alts, p)
		}
		for _, p := range x.alts {
			add(c, p)
		}
		nc := Not(c)
		for _, p := range y.alts {
			add(nc, p)
		}
		if len(alts) == 1 {
			alts[0].g = True
		}
		return &SliceV{alts}
	case *MapV:
		y := b.(*MapV)
		return &MapV{mergeRefs(c, x.alts, y.alts)}
	case *IfaceV:
		y := b.(*IfaceV)
		var alts []IfaceAlt
		add := func(g *Term, p IfaceAlt) {
			g = And(g, p.g)
			if g == False {
				return
			}
			for i := range alts {
				if (alts[i].typ == nil) != (p.typ == nil) {
					continue
				}
				if p.typ == nil || alts[i].val == p.val && types.Identical(alts[i].typ, p.typ) {
					alts[i].g = Or(alts[i].g, g)
					return
				}
				if types.Identical(alts[i].typ, p.typ) {
					if _, ok := p.val.(*OpaqueV); ok {
						continue
					}
					alts[i].val = mergeVal(g, p.val, alts[i].val)
					alts[i].g = Or(alts[i].g, g)
					return
				}
			}
			p.g = g
			alts = append(alts, p)
		}
		for _, p := range x.alts {
			add(c, p)
		}
		nc := Not(c)
		for _, p := range y.alts {
			add(nc, p)
		}
		if len(alts) == 1 {
			alts[0].g = True
		}
		return &IfaceV{alts}
	case *FuncV:
		y := b.(*FuncV)
		var alts []FuncAlt
		add := func(g *Term, p FuncAlt) {
			g = And(g, p.g)
			if g == False {
				return
			}
			for i := range alts {
				if alts[i].fn == p.fn && alts[i].builtin == p.builtin && len(alts[i].bindings) == len(p.bindings) {
					nb := make([]Val, len(p.bindings))
					for k := range nb {
						nb[k] = mergeVal(g, p.bindings[k], alts[i].bindings[k])
					}
					alts[i].bindings = nb
					alts[i].g = Or(alts[i].g, g)
					return
				}
			}
			p.g = g
			alts = append(alts, p)
		}
		for _, p := range x.alts {
			add(c, p)
		}
		nc := Not(c)
		for _, p := range y.alts {
			add(nc, p)
		}
		if len(alts) == 1 {
			alts[0].g = True
		}
		return &FuncV{alts}
	case *StrV:
		y := b.(*StrV)
		var alts []StrAlt
		add := func(g *Term, p StrAlt) {
			g = And(g, p.g)
			if g == False {
				return
			}
			for i := range alts {
				if alts[i].con == p.con && alts[i].s == p.s && alts[i].id == p.id {
					alts[i].g = Or(alts[i].g, g)
					return
				}
			}
			p.g = g
			alts = append(alts, p)
		}
		for _, p := range x.alts {
			add(c, p)
		}
		nc := Not(c)
		for _, p := range y.alts {
			add(nc, p)
		}
		if len(alts) == 1 {
			alts[0].g = True
		}
		return &StrV{alts}
	case *deferList:
		y := b.(*deferList)
		n := 0
		for n < len(x.d) && n < len(y.d) && x.d[n] == y.d[n] {
			n++
		}
		r := &deferList{d: append([]*deferEnt(nil), x.d[:n]...)}
		for _, e := range x.d[n:] {
			f := *e
			f.g = And(c, e.g)
			r.d = append(r.d, &f)
		}
		for _, e := range y.d[n:] {
			f := *e
			f.g = And(Not(c), e.g)
			r.d = append(r.d, &f)
		}
		return r
	case *MapC:
		y := b.(*MapC)
		// common prefix
		n := 0
		for n < len(x.ents) && n < len(y.ents) && sameEnt(&x.ents[n], &y.ents[n]) {
			n++
		}
		r := &MapC{elem: x.elem, count: Ite(c, x.count, y.count)}
		r.ents = append(r.ents, x.ents[:n]...)
		for _, e := range x.ents[n:] {
			e.g = And(c, e.g)
			if e.g != False {
				r.ents = append(r.ents, e)
			}
		}
		nc := Not(c)
		for _, e := range y.ents[n:] {
			e.g = And(nc, e.g)
			if e.g != False {
				r.ents = append(r.ents, e)
			}
		}
		return r
	}
	unsup("merge of %T", a)
	return nil
}

func sameEnt(a, b *MapEnt) bool {
	if a.g != b.g || a.del != b.del || a.v != b.v || len(a.key) != len(b.key) {
		return false
	}
	for i := range a.key {
		if a.key[i] != b.key[i] {
			return false
		}
	}
	return true
}

func fixPtr(p *PtrV) *PtrV {
	if len(p.alts) == 1 {
		p.alts[0].g = True
	}
	return p
}

func mergeRefs(c *Term, x, y []RefAlt) []RefAlt {
	var alts []RefAlt
	add := func(g *Term, p RefAlt) {
		g = And(g, p.g)
		if g == False {
			return
		}
		for i := range alts {
			if alts[i].obj == p.obj {
				alts[i].g = Or(alts[i].g, g)
				return
			}
		}
		alts = append(alts, RefAlt{g, p.obj})
	}
	for _, p := range x {
		add(c, p)
	}
	nc := Not(c)
	for _, p := range y {
		add(nc, p)
	}
	if len(alts) == 1 {
		alts[0].g = True
	}
	return alts
}

// ---------- state ----------

type retKey struct{}
type deferKey struct{}

// State is a node in a tree of copy-on-write layers.  cond is relative to the parent.
type State struct {
	reach  *Term
	cond   *Term
	heap   map[int]Val
	env    map[interface{}]Val
	parent *State
	depth  int
	live   int  // number of live leaves at or below this state (within the frame)
	envTop bool // env lookups do not continue to the parent (function entry)
	spec   int  // > 0: running speculatively
}

func NewState() *State {
	return &State{reach: True, cond: True, heap: map[int]Val{}, env: map[interface{}]Val{}, envTop: true, live: 1}
}

func (s *State) getObj(id int) Val {
	for p := s; p != nil; p = p.parent {
		if v, ok := p.heap[id]; ok {
			return v
		}
	}
	return nil
}

func (s *State) setObj(id int, v Val) { s.heap[id] = v }

func (s *State) getEnv(k interface{}) Val {
	for p := s; p != nil; p = p.parent {
		if v, ok := p.env[k]; ok {
			return v
		}
		if p.envTop {
			break
		}
	}
	return nil
}

func (s *State) setEnv(k interface{}, v Val) { s.env[k] = v }

func (s *State) child(c *Term) *State {
	return &State{reach: And(s.reach, c), cond: c, heap: map[int]Val{}, env: map[interface{}]Val{}, parent: s, depth: s.depth + 1}
}

// fork makes s an inner node with two leaves.
func (s *State) fork(c *Term) (*State, *State) {
	a, b := s.child(c), s.child(Not(c))
	a.live, b.live = 1, 1
	for p := s; p != nil; p = p.parent {
		p.live++
		if p.envTop {
			break
		}
	}
	return a, b
}

// kill removes a leaf.
func (s *State) kill() {
	for p := s; p != nil; p = p.parent {
		p.live--
		if p.envTop {
			break
		}
	}
}

// assume narrows the state.
func (s *State) assume(c *Term) {
	s.cond = And(s.cond, c)
	s.reach = And(s.reach, c)
}

func (s *State) rel(anc *State) *Term {
	var cs []*Term
	for p := s; p != anc; p = p.parent {
		cs = append(cs, p.cond)
	}
	r := True
	for i := len(cs) - 1; i >= 0; i-- {
		r = And(r, cs[i])
	}
	return r
}

// mergeStates joins two live leaves of one frame into one.
func mergeStates(s1, s2 *State) *State {
	a, b := s1, s2
	for a != b {
		if a.depth >= b.depth {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	anc := a
	c1, c2 := s1.rel(anc), s2.rel(anc)
	cond := Or(c1, c2)
	if c1 == False {
		cond = c2
	}
	hk := map[int]bool{}
	ek := map[interface{}]bool{}
	for _, s := range []*State{s1, s2} {
		for p := s; p != anc; p = p.parent {
			for k := range p.heap {
				hk[k] = true
			}
			for k := range p.env {
				ek[k] = true
			}
		}
	}
	ks := make([]int, 0, len(hk))
	for k := range hk {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	// a smaller selector: prefer the simpler of c1 / not c2
	sel := c1
	if nc2 := Not(c2); termSize(c2) < termSize(c1) {
		sel = nc2
	}
	nh := make(map[int]Val, len(ks))
	for _, k := range ks {
		nh[k] = mergeVal(sel, s1.getObj(k), s2.getObj(k))
	}
	ne := map[interface{}]Val{}
	for k := range ek {
		v1, v2 := s1.getEnv(k), s2.getEnv(k)
		if v, ok := k.(ssa.Value); ok && !crossBlock(v) {
			continue
		}
		if _, isdef := k.(deferKey); isdef {
			if v1 == nil {
				v1 = &deferList{}
			}
			if v2 == nil {
				v2 = &deferList{}
			}
			ne[k] = mergeVal(sel, v1, v2)
			continue
		}
		if _, isret := k.(retKey); isret {
			ne[k] = mergeVal(sel, v1, v2)
			continue
		}
		if v1 == nil || v2 == nil {
			// defined on one side only: cannot be used after the join
			continue
		}
		if v, ok := tryMerge(sel, v1, v2); ok {
			ne[k] = v
		}
	}
	s1.kill()
	s2.kill()
	if anc.live == 0 {
		for k, v := range nh {
			anc.heap[k] = v
		}
		for k, v := range ne {
			anc.env[k] = v
		}
		if cond != True {
			anc.assume(cond)
		}
		for p := anc; p != nil; p = p.parent {
			p.live++
			if p.envTop {
				break
			}
		}
		return anc
	}
	m := anc.child(cond)
	m.heap, m.env = nh, ne
	for p := m; p != nil; p = p.parent {
		p.live++
		if p.envTop {
			break
		}
	}
	return m
}

func tryMerge(c *Term, a, b Val) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return mergeVal(c, a, b), true
}

// termSize: shallow size estimate
func termSize(t *Term) int {
	n := 0
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		n++
		if d == 0 || n > 40 {
			return
		}
		for i := 0; i < t.n; i++ {
			rec(t.args[i], d-1)
		}
	}
	rec(t, 5)
	return n
}

var crossMemo = map[ssa.Value]bool{}

// crossBlock: is v used outside its own block (or by a phi)?
func crossBlock(v ssa.Value) bool {
	if r, ok := crossMemo[v]; ok {
		return r
	}
	r := false
	if _, isPhi := v.(*ssa.Phi); isPhi {
		crossMemo[v] = true
		return true
	}
	in, isInstr := v.(ssa.Instruction)
	refs := v.Referrers()
	if !isInstr || refs == nil {
		r = true
	} else {
		for _, u := range *refs {
			if _, isPhi := u.(*ssa.Phi); isPhi || u.Block() != in.Block() {
				r = true
				break
			}
		}
	}
	crossMemo[v] = r
	return r
}

// ---------- structure access ----------

func (x *Exec) readPath(v Val, path []PathElem) Val {
	for i, p := range path {
		switch n := v.(type) {
		case *StructV:
			if p.idx != nil {
				unsup("index into struct")
			}
			v = n.f[p.field]
		case *ArrV:
			if p.idx == nil {
				unsup("field of array")
			}
			if p.idx.IsConst() {
				k := p.idx.val
				if k >= uint64(len(n.e)) {
					// guarded away by a bounds obligation
					if len(n.e) == 0 {
						return nil
					}
					k = 0
				}
				v = n.e[k]
				continue
			}
			rest := path[i+1:]
			var r Val
			for k := len(n.e) - 1; k >= 0; k-- {
				c := Eq(p.idx, C64(int64(k)))
				if c == False {
					continue
				}
				e := x.readPath(n.e[k], rest)
				if r == nil {
					r = e
				} else {
					r = mergeVal(c, e, r)
				}
			}
			if r == nil && len(n.e) > 0 {
				r = x.readPath(n.e[0], rest)
			}
			return r
		case nil:
			return nil
		default:
			unsup("path through %T", v)
		}
	}
	return v
}

func (x *Exec) writePath(st *State, v Val, path []PathElem, nv Val, cond *Term) Val {
	if cond == False {
		return v
	}
	if len(path) == 0 {
		return mergeVal(cond, nv, v)
	}
	p := path[0]
	switch n := v.(type) {
	case *StructV:
		o := n.f[p.field]
		w := x.writePath(st, o, path[1:], nv, cond)
		if w == o {
			return v
		}
		r := &StructV{append([]Val(nil), n.f...)}
		r.f[p.field] = w
		return r
	case *ArrV:
		if p.idx.IsConst() {
			k := p.idx.val
			if k >= uint64(len(n.e)) {
				return v
			}
			r := n
			if n.owner == nil || n.owner != st {
				r = &ArrV{append([]Val(nil), n.e...), st}
			}
			r.e[k] = x.writePath(st, n.e[k], path[1:], nv, cond)
			return r
		}
		r := &ArrV{append([]Val(nil), n.e...), st}
		for k := range n.e {
			c := And(cond, Eq(p.idx, C64(int64(k))))
			if c == False {
				continue
			}
			r.e[k] = x.writePath(st, n.e[k], path[1:], nv, c)
		}
		return r
	}
	unsup("write path through %T", v)
	return nil
}
