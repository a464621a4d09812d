package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (x *Exec) findFunc(full string) *ssa.Function {
	for f := range ssautil.AllFunctions(x.prog) {
		if f.String() == full && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

type Result struct {
	Harness   string            `json:"harness"`
	Tag       string            `json:"tag"`
	Status    string            `json:"status"` // ok, violated, unknown, unencodable, bound, vacuous
	Msg       string            `json:"msg,omitempty"`
	Fails     []Fail            `json:"fails,omitempty"`
	Obls      int               `json:"obligations"`
	Discharged int              `json:"discharged"`
	Trivial   int               `json:"-"`
	Reaches   []ReachRes        `json:"reaches,omitempty"`
	Functions map[string]int    `json:"functions"`
	Queries   int               `json:"queries"`
	SolverMs  int64             `json:"solver_ms"`
	FeasQ     int               `json:"feasibility_queries"`
	Steps     int               `json:"steps"`
	Forks     int               `json:"forks"`
	Merges    int               `json:"merges"`
	Terms     int               `json:"terms"`
	WallMs    int64             `json:"wall_ms"`
	Stubs     []string          `json:"stubs,omitempty"`
}

type Fail struct {
	Kind  string           `json:"kind"`
	Msg   string           `json:"msg"`
	Pos   string           `json:"pos"`
	Model map[string]int64 `json:"model"`
	Trace map[string]int64 `json:"trace,omitempty"`
}

type ReachRes struct {
	Label string           `json:"label"`
	Res   string           `json:"res"`
	Model map[string]int64 `json:"model,omitempty"`
	Trace map[string]int64 `json:"trace,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	hdir := flag.String("harness", "/verif/harness", "comma separated list of harness files")
	fn := flag.String("fn", "", "harness function")
	tag := flag.String("tag", "", "build tags")
	out := flag.String("out", "", "")
	timeout := flag.Int("timeout", 60000, "ms per final query")
	feas := flag.Int("feas", 2000, "ms per feasibility query")
	solver := flag.String("solver", "z3-new", "")
	list := flag.Bool("list", false, "")
	param := flag.String("param", "", "k=v,k=v integer constants for the harness (vParam)")
	maxIter := flag.Int("maxiter", 100, "")
	maxFails := flag.Int("maxfails", 4, "")
	flag.Parse()
	start := time.Now()
	if p := os.Getenv("GOSYM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(60 * time.Second)
			pprof.StopCPUProfile()
			f.Close()
			os.Exit(4)
		}()
	}
	_ = list

	overlay := map[string][]byte{}
	var files []string
	if fi, err := os.Stat(*hdir); err == nil && fi.IsDir() {
		files, _ = filepath.Glob(filepath.Join(*hdir, "zz_verif_*.go"))
	} else {
		files = strings.Split(*hdir, ",")
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fail(err.Error())
		}
		overlay[filepath.Join(*repo, filepath.Base(f))] = b
	}
	params = map[string]int64{}
	for _, kv := range strings.Split(*param, ",") {
		if kv == "" {
			continue
		}
		p := strings.SplitN(kv, "=", 2)
		var v int64
		fmt.Sscan(p[1], &v)
		params[p[0]] = v
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repo, Overlay: overlay, BuildFlags: []string{"-tags=" + *tag}}
	pkgs, err := packages.Load(cfg, ".")
	res := &Result{Harness: *fn, Tag: *tag, Functions: map[string]int{}}
	emit := func() {
		res.WallMs = time.Since(start).Milliseconds()
		b, _ := json.MarshalIndent(res, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			os.Stdout.Write(b)
			fmt.Println()
		}
	}
	if err != nil || len(pkgs) != 1 {
		res.Status, res.Msg = "unencodable", fmt.Sprint("load: ", err)
		emit()
		return
	}
	if len(pkgs[0].Errors) > 0 {
		res.Status, res.Msg = "unencodable", "load: "+pkgs[0].Errors[0].Error()
		emit()
		return
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	spkg := spkgs[0]
	spkg.Build()
	x := NewExec()
	x.prog, x.pkg = prog, spkg
	x.maxIter = *maxIter
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case "errors":
			x.errTyp = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
		case "math/big":
			x.bigTyp = p.Pkg.Scope().Lookup("Int").Type()
		}
	}
	x.sol = NewSolver(*solver, *feas)
	h := spkg.Func(*fn)
	if h == nil {
		res.Status, res.Msg = "unencodable", "no harness "+*fn
		emit()
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(Unsupported)
				if !ok {
					if os.Getenv("GOSYM_PANIC") != "" {
						panic(r)
					}
					u = Unsupported{fmt.Sprint("internal: ", r)}
				}
				res.Status = "unencodable"
				var stk []string
				for _, f := range x.stack {
					stk = append(stk, f.fn.Name())
				}
				res.Msg = u.msg + " [" + strings.Join(stk, ">") + "]"
			}
		}()
		st := NewState()
		// package initialisation (own package only)
		if in := spkg.Func("init"); in != nil {
			x.initing = true
			x.call(st, in, nil, nil)
			x.initing = false
			x.funcs = map[string]int{}
		}
		_, ok := x.call(st, h, nil, nil)
		_ = ok
	}()
	for f, n := range x.funcs {
		if !strings.Contains(f, ".v") && !strings.Contains(f, ".V_") {
			res.Functions[strings.ReplaceAll(f, pkgPath+".", "")] = n
		}
	}
	for s := range x.stubs {
		res.Stubs = append(res.Stubs, strings.ReplaceAll(s, pkgPath+".", ""))
	}
	sort.Strings(res.Stubs)
	if os.Getenv("GOSYM_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "executed %s: steps=%d terms=%d obls=%d feasQ=%d (%.1fs) forks=%d merges=%d wall=%.1fs\n", *fn, x.steps, termCount, len(x.obls), x.feasQ, solverStats.time.Seconds(), x.forks, x.merges, time.Since(start).Seconds())
	}
	if res.Status == "" {
		x.decide(res, *timeout, *maxFails)
	}
	res.Queries, res.SolverMs, res.FeasQ = solverStats.queries, solverStats.time.Milliseconds(), x.feasQ
	res.Steps, res.Forks, res.Merges, res.Terms = x.steps, x.forks, x.merges, termCount
	x.sol.Close()
	emit()
}

var params map[string]int64

func fail(s string) {
	fmt.Fprintln(os.Stderr, s)
	os.Exit(3)
}

// model reads back all harness inputs.
func (x *Exec) model(s *Solver) map[string]int64 {
	m := map[string]int64{}
	for _, n := range x.nondets {
		if n.t.op != OConst && !s.defined[n.t.id] {
			m[n.name] = 0
			continue
		}
		v, ok := s.GetValue(n.t)
		if n.t.op == OConst {
			v, ok = n.t.val, true
		}
		if !ok {
			continue
		}
		w := 64
		if n.t.sort.K == SBV {
			w = n.t.sort.W
		}
		sv := int64(v)
		if n.typ == "int32" && w == 32 {
			sv = int64(int32(v))
		}
		m[n.name] = sv
	}
	return m
}

// ask decides the satisfiability of the facts and d.  The live solver is tried first, then several
// solvers race on a fresh copy.  When the answer is sat the returned solver holds the model (Pop it).
func (x *Exec) ask(d *Term, timeout int) (string, *Solver) {
	if d == False {
		return "unsat", nil
	}
	s := x.sol
	first := timeout
	if first > 15000 {
		first = 15000
	}
	s.SetTimeout(first)
	r := s.Check(true, d)
	if r == "sat" {
		return r, s
	}
	s.Pop()
	if r == "unsat" || first == timeout {
		return r, nil
	}
	type ans struct {
		r string
		s *Solver
	}
	ch := make(chan ans, 3)
	var rs []*Solver
	for _, bin := range []string{"z3-new", "z3", "cvc5"} {
		c := s.Clone(bin, timeout)
		if c == nil {
			continue
		}
		rs = append(rs, c)
		go func() { ch <- ans{c.Check(true, d), c} }()
	}
	best := ans{"unknown", nil}
	for range rs {
		a := <-ch
		if a.r != "unknown" {
			best = a
			break
		}
	}
	for _, c := range rs {
		if c != best.s || best.r != "sat" {
			c.Kill()
		}
	}
	if best.r == "sat" {
		return "sat", best.s
	}
	return best.r, nil
}

func (x *Exec) release(s *Solver) {
	if s == x.sol {
		s.Pop()
	} else {
		s.Kill()
	}
}

func (x *Exec) trace(s *Solver) map[string]int64 {
	m := map[string]int64{}
	for _, t := range x.traces {
		if g, ok := s.GetValue(t.reach); ok && g == 1 {
			if v, ok := s.GetValue(t.t); ok {
				w := uint(64)
				if t.t.sort.K == SBV {
					w = uint(t.t.sort.W)
				}
				m[t.name] = int64(v<<(64-w)) >> (64 - w)
				if t.t.sort.K == SBool {
					m[t.name] = int64(v)
				}
			}
		}
	}
	return m
}

func (x *Exec) decide(res *Result, timeout, maxFails int) {
	s := x.sol
	var soft []Obl // unwinding obligations
	var hard []Obl
	for _, o := range x.obls {
		if o.kind == "unwind" {
			soft = append(soft, o)
		} else {
			hard = append(hard, o)
		}
		s.define(o.cond)
	}
	for _, t := range x.traces {
		s.define(t.reach)
		s.define(t.t)
	}
	res.Obls = len(x.obls)
	unknown := 0
	fails := 0
	// everything at once; split when the solver gives up; after a model, go on with the other obligations
	var solve func(os []Obl) bool
	solve = func(os []Obl) bool {
		if len(os) == 0 {
			return true
		}
		d := False
		for _, o := range os {
			d = Or(d, o.cond)
		}
		tmo := timeout
		if len(os) > 1 && unknown > 0 {
			tmo = timeout / 2
		}
		r, m := x.ask(d, tmo)
		switch {
		case r == "unsat":
			res.Discharged += len(os)
			return true
		case r == "unknown" && len(os) == 1:
			unknown++
			if res.Msg == "" {
				res.Msg = "undecided: " + os[0].msg + " at " + os[0].pos
			}
			return false
		case r == "unknown":
			h := len(os) / 2
			a := solve(os[:h])
			b := fails < maxFails && solve(os[h:])
			return a && b
		}
		var bad, rest []Obl
		for _, o := range os {
			v, ok := m.GetValue(o.cond)
			if ok && v == 1 {
				bad = append(bad, o)
			} else {
				rest = append(rest, o)
			}
		}
		if len(bad) == 0 {
			bad, rest = os[:1], os[1:]
		}
		res.Fails = append(res.Fails, Fail{bad[0].kind, bad[0].msg, bad[0].pos, x.model(m), x.trace(m)})
		x.release(m)
		fails++
		if fails >= maxFails {
			return false
		}
		var rr []Obl
		for _, o := range append(append([]Obl(nil), bad[1:]...), rest...) {
			if o.msg != bad[0].msg || o.kind != bad[0].kind {
				rr = append(rr, o)
			}
		}
		solve(rr)
		return false
	}
	// first everything at once; when that is too hard, group by group on several solvers
	quick := func(os []Obl) bool {
		if len(os) == 0 {
			return true
		}
		d := False
		for _, o := range os {
			d = Or(d, o.cond)
		}
		tmo := timeout
		if tmo > 10000 {
			tmo = 10000
		}
		s.SetTimeout(tmo)
		if s.Check(false, d) == "unsat" {
			res.Discharged += len(os)
			return true
		}
		return false
	}
	if quick(hard) {
		hard = nil
	} else if len(hard) > 1 {
		hard = x.groups(hard, timeout, res)
	}
	ok := solve(hard)
	if !ok && len(res.Fails) > 0 {
		res.Status = "violated"
	} else if unknown > 0 {
		res.Status = "unknown"
	}
	nf := len(res.Fails)
	fails = 0
	if quick(soft) {
		soft = nil
	}
	sok := solve(soft)
	if !sok && res.Status == "" {
		res.Status = "bound"
		if len(res.Fails) > nf {
			res.Msg = res.Fails[nf].Msg + " at " + res.Fails[nf].Pos
		}
	}
	if res.Status == "" {
		res.Status = "ok"
	}
	// vacuity witnesses
	if res.Status == "ok" && len(x.reachOrd) == 0 {
		res.Status, res.Msg = "vacuous", "no witness"
	}
	for _, l := range x.reachOrd {
		r, m := x.ask(x.reaches[l], timeout)
		rr := ReachRes{Label: l, Res: r}
		if r == "sat" {
			rr.Model = x.model(m)
			rr.Trace = x.trace(m)
			x.release(m)
		} else if r == "unsat" && res.Status == "ok" && !strings.HasPrefix(l, "?") {
			res.Status, res.Msg = "vacuous", "label "+l+" is unreachable"
		}
		res.Reaches = append(res.Reaches, rr)
	}
}

// groups discharges obligations message by message, on several solvers; the rest is returned.
func (x *Exec) groups(os []Obl, timeout int, res *Result) []Obl {
	g := map[string][]Obl{}
	var ks []string
	for _, o := range os {
		k := o.kind + o.msg + " " + o.pos
		if g[k] == nil {
			ks = append(ks, k)
		}
		g[k] = append(g[k], o)
	}
	type ans struct {
		k string
		r string
		d time.Duration
	}
	in, out := make(chan string, len(ks)), make(chan ans, len(ks))
	for _, k := range ks {
		in <- k
	}
	close(in)
	n := 4
	if len(ks) < n {
		n = len(ks)
	}
	tmo := timeout / 2
	for i := 0; i < n; i++ {
		c := x.sol.Clone("z3-new", tmo)
		go func() {
			for k := range in {
				t := time.Now()
				d := False
				dmu.Lock()
				for _, o := range g[k] {
					d = Or(d, o.cond)
				}
				dmu.Unlock()
				r := "unknown"
				if c != nil {
					r = c.Check(false, d)
				}
				out <- ans{k, r, time.Since(t)}
			}
			if c != nil {
				c.Kill()
			}
		}()
	}
	var rest []Obl
	for range ks {
		a := <-out
		if verbose && a.d > time.Second {
			fmt.Fprintf(stderr, "GROUP %6.2f %s %s\n", a.d.Seconds(), a.r, a.k)
		}
		if a.r == "unsat" {
			res.Discharged += len(g[a.k])
		} else {
			rest = append(rest, g[a.k]...)
		}
	}
	return rest
}

var dmu sync.Mutex
var stderr = os.Stderr
