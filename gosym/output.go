package main

// Text written by the code under test: strings are kept as sequences of literal pieces and integers, and every
// complete statement (ended by a newline or a semicolon outside brackets) is given to a function of the harness.

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"unicode"
)

type piece struct {
	s   string
	t   *Term // decimal number
	unk bool  // any text
}

type pieces struct {
	g  *Term
	ps []piece
}

type strInfo struct {
	fmt   string
	args  []Val
	cat   []*StrV // concatenation
	fixed []piece
}

var strMeta = map[int]*strInfo{}

type outSink struct {
	fn  *FuncV
	pos token.Pos
	obj int // bool: text is in a buffer that was not flushed
}

func cross(a []pieces, b []pieces) []pieces {
	var r []pieces
	for _, u := range a {
		for _, v := range b {
			g := And(u.g, v.g)
			if g.IsFalse() {
				continue
			}
			r = append(r, pieces{g, append(append([]piece(nil), u.ps...), v.ps...)})
		}
	}
	if len(r) > 64 {
		unsup("output with too many forms")
	}
	return r
}

func lit(s string) []pieces { return []pieces{{True, []piece{{s: s}}}} }

var anyText = []pieces{{True, []piece{{unk: true}}}}

func (x *Exec) strPieces(v *StrV) []pieces {
	var r []pieces
	for _, a := range v.alts {
		var ps []pieces
		m := strMeta[a.id]
		switch {
		case a.con:
			ps = lit(a.s)
		case m == nil:
			ps = anyText
		case m.fixed != nil:
			ps = []pieces{{True, m.fixed}}
		case m.cat != nil:
			ps = lit("")
			for _, c := range m.cat {
				ps = cross(ps, x.strPieces(c))
			}
		default:
			ps = x.fmtPieces(m.fmt, m.args)
		}
		for _, p := range ps {
			if g := And(a.g, p.g); !g.IsFalse() {
				r = append(r, pieces{g, p.ps})
			}
		}
	}
	return r
}

// argPieces: an operand of a printing function; isStr tells whether it is a string
func (x *Exec) argPieces(v Val, verb byte) (r []pieces, isStr bool) {
	iv, ok := v.(*IfaceV)
	if !ok {
		return anyText, false
	}
	for _, a := range iv.alts {
		var ps []pieces
		switch w := a.val.(type) {
		case *Term:
			b, ok := a.typ.(*types.Basic)
			if ok && b.Info()&types.IsInteger != 0 && w.sort.K == SBV && (verb == 'd' || verb == 'v') {
				t := w
				if t.sort.W < 64 {
					if isSigned(a.typ) {
						t = Sext(t, 64)
					} else {
						t = Zext(t, 64)
					}
				}
				ps = []pieces{{True, []piece{{t: t}}}}
			}
		case *StrV:
			if _, ok := a.typ.(*types.Basic); ok && (verb == 's' || verb == 'v') {
				ps = x.strPieces(w)
				isStr = true
			}
		}
		if ps == nil {
			ps = anyText
		}
		for _, p := range ps {
			if g := And(a.g, p.g); !g.IsFalse() {
				r = append(r, pieces{g, p.ps})
			}
		}
	}
	return r, isStr
}

func (x *Exec) fmtPieces(f string, args []Val) []pieces {
	r := lit("")
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = cross(r, lit(f[i:]))
			break
		}
		r = cross(r, lit(f[i:i+j]))
		i += j + 1
		if i < len(f) && f[i] == '%' {
			r = cross(r, lit("%"))
			i++
			continue
		}
		plain := true
		for i < len(f) && strings.IndexByte("-0123456789", f[i]) >= 0 {
			if f[i] == '0' && (f[i-1] == '%' || f[i-1] == '-') {
				plain = false
			}
			i++
		}
		if i == len(f) || !unicode.IsLetter(rune(f[i])) || k >= len(args) {
			return cross(r, anyText)
		}
		if plain {
			ps, _ := x.argPieces(args[k], f[i])
			r = cross(r, ps)
		} else {
			r = cross(r, anyText)
		}
		k++
		i++
	}
	return r
}

func (x *Exec) printPieces(args []Val, ln bool) []pieces {
	r := lit("")
	str := true
	for i, a := range args {
		ps, s := x.argPieces(a, 'v')
		if i > 0 && (ln || !str && !s) {
			r = cross(r, lit(" "))
		}
		str = s
		r = cross(r, ps)
	}
	if ln {
		r = cross(r, lit("\n"))
	}
	return r
}

func (x *Exec) newStr(ps []pieces) *StrV {
	s := &StrV{}
	for _, p := range ps {
		all := true
		t := ""
		me := true
		for _, e := range p.ps {
			all = all && e.t == nil && !e.unk
			t += e.s
			me = me && e.t == nil && e.s == ""
		}
		if all {
			s.alts = append(s.alts, StrAlt{g: p.g, con: true, s: t})
			continue
		}
		strN++
		strMeta[strN] = &strInfo{fixed: p.ps}
		s.alts = append(s.alts, StrAlt{g: p.g, id: strN, empty: me})
	}
	if len(s.alts) == 1 {
		s.alts[0].g = True
	}
	return s
}

var outInt = regexp.MustCompile(`-?[0-9]+|\x00`)

// outSplit cuts a text into statements; numbers are replaced by '#', spaces are collapsed. rest: text after the last
// complete statement.  num gives the number for each placeholder (\x00).
func outSplit(text string) (stmts []string, nums [][]string, rest string) {
	depth := 0
	cur := ""
	flush := func() {
		t := strings.Join(strings.FieldsFunc(cur, unicode.IsSpace), " ")
		cur = ""
		if t == "" {
			return
		}
		var n []string
		t = outInt.ReplaceAllStringFunc(t, func(m string) string { n = append(n, m); return "#" })
		stmts = append(stmts, t)
		nums = append(nums, n)
	}
	for _, c := range text {
		if depth == 0 && (c == ';' || c == '\n') {
			flush()
			continue
		}
		switch c {
		case '[':
			depth++
		case ']':
			depth--
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" {
		rest = cur
	}
	return
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// emit gives a text to the harness
func (x *Exec) emit(st *State, ps []pieces, w Val, pos token.Pos) bool {
	o := x.out
	if o == nil {
		return true
	}
	if iv, ok := w.(*IfaceV); ok {
		buf := False
		for _, a := range iv.alts {
			if a.typ != nil && (strings.HasSuffix(a.typ.String(), "tabwriter.Writer") || strings.HasSuffix(a.typ.String(), "bufio.Writer")) {
				buf = Or(buf, a.g)
			}
		}
		st.setObj(o.obj, Or(st.getObj(o.obj).(*Term), buf))
	}
	// statement k of every form
	type call struct {
		g    *Term
		stmt string
		ints []*Term
	}
	var forms [][]call
	for _, p := range ps {
		text := ""
		var ts []*Term
		unk := false
		for i, e := range p.ps {
			switch {
			case e.unk:
				text += "?"
				unk = true
			case e.t != nil:
				if text != "" && (isDigit(text[len(text)-1]) || text[len(text)-1] == 0) || strings.HasSuffix(text, "-") {
					unsup("a number is written next to another one")
				}
				text += "\x00"
				ts = append(ts, e.t)
			default:
				if i > 0 && p.ps[i-1].t != nil && e.s != "" && isDigit(e.s[0]) {
					unsup("a number is written next to another one")
				}
				text += e.s
			}
		}
		if unk && !strings.HasSuffix(text, "\n") {
			text += "\n"
		}
		stmts, nums, rest := outSplit(text)
		if rest != "" {
			unsup("a line is written in several pieces")
		}
		var cs []call
		k := 0
		for i, s := range stmts {
			c := call{g: p.g, stmt: s}
			for _, n := range nums[i] {
				if n == "\x00" {
					c.ints = append(c.ints, ts[k])
					k++
				} else {
					v := int64(0)
					neg := false
					for _, d := range n {
						if d == '-' {
							neg = true
						} else {
							v = v*10 + int64(d-'0')
						}
					}
					if neg {
						v = -v
					}
					c.ints = append(c.ints, C64(v))
				}
			}
			cs = append(cs, c)
		}
		forms = append(forms, cs)
	}
	for k := 0; ; k++ {
		var cases []callCase
		rest := False
		any := false
		for i, f := range forms {
			if k >= len(f) {
				rest = Or(rest, ps[i].g)
				continue
			}
			any = true
			a := &ArrV{}
			for _, t := range f[k].ints {
				a.e = append(a.e, t)
			}
			id := x.alloc(st, a, types.NewArray(types.Typ[types.Int], int64(len(a.e))))
			fa := o.fn.alts[0]
			cases = append(cases, callCase{g: f[k].g, fn: fa.fn, args: []Val{strConst(f[k].stmt), sliceOf(id, nil, len(a.e))}, bind: fa.bindings})
		}
		if !any {
			return true
		}
		if !rest.IsFalse() {
			cases = append(cases, callCase{g: rest, opaque: types.NewSignatureType(nil, nil, nil, nil, nil, false)})
		}
		if _, ok := x.callCases(st, cases, pos); !ok {
			return false
		}
	}
}

func init() {
	I := intrinsics
	wr := &TupleV{[]Val{C64(0), nilIface}}
	I["fmt.Fprintf"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		ps := anyText
		if s, ok := c.args[1].(*StrV); ok && len(s.alts) == 1 && s.alts[0].con && x.out != nil {
			ps = x.fmtPieces(s.alts[0].s, x.anySlice(st, c.args[2]))
		}
		return wr, x.emit(st, ps, c.args[0], c.pos)
	}
	I["fmt.Fprintln"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return wr, x.emit(st, x.printPieces(x.anySlice(st, c.args[1]), true), c.args[0], c.pos)
	}
	I["fmt.Fprint"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return wr, x.emit(st, x.printPieces(x.anySlice(st, c.args[1]), false), c.args[0], c.pos)
	}
	I["io.WriteString"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return wr, x.emit(st, x.strPieces(c.args[1].(*StrV)), c.args[0], c.pos)
	}
	I["fmt.Sprintf"] = func(x *Exec, st *State, c *callCtx) (Val, bool) { return x.sprintf(st, c), true }
	I["fmt.Sprint"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.newStr(x.printPieces(x.anySlice(st, c.args[0]), false)), true
	}
	I["fmt.Sprintln"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.newStr(x.printPieces(x.anySlice(st, c.args[0]), true)), true
	}
	I["strconv.Itoa"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return x.newStr([]pieces{{True, []piece{{t: c.args[0].(*Term)}}}}), true
	}
	flush := func(x *Exec, st *State, c *callCtx) (Val, bool) {
		if x.out != nil {
			st.setObj(x.out.obj, False)
		}
		return nilIface, true
	}
	I["(*text/tabwriter.Writer).Flush"] = flush
	I["(*bufio.Writer).Flush"] = flush
	I["rt.vOnOut"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		x.out = &outSink{fn: c.args[0].(*FuncV), pos: c.pos, obj: x.alloc(st, False, types.Typ[types.Bool])}
		return void, true
	}
	I["rt.vOutDone"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		return Not(st.getObj(x.out.obj).(*Term)), true
	}
	I["rt.vHas"] = func(x *Exec, st *State, c *callCtx) (Val, bool) {
		r := False
		sub := conStr(c.args[1])
		for _, a := range c.args[0].(*StrV).alts {
			if !a.con {
				unsup("vHas of an unknown string")
			}
			if strings.Contains(a.s, sub) {
				r = Or(r, a.g)
			}
		}
		return r, true
	}
}

// sprintf keeps the pieces of the result
func (x *Exec) sprintf(st *State, c *callCtx) Val {
	f, ok := c.args[0].(*StrV)
	if ok && len(f.alts) == 1 && f.alts[0].con {
		if f.alts[0].s == "" {
			return strConst("")
		}
		s := strOpaque(false)
		strMeta[s.alts[0].id] = &strInfo{fmt: f.alts[0].s, args: x.anySlice(st, c.args[1])}
		return s
	}
	return strOpaque(true)
}
