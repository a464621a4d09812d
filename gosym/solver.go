package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver is one live z3 process fed incrementally.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	ufs     map[string]bool
	nq      int
	t       time.Duration
	log     io.Writer
	bin     string
	timeout int
	level   int
	trail   [][]int // ids defined at each push level
	dead    bool
	script  []string // permanent declarations, definitions and assertions
}

// Clone starts another solver with the same permanent script.
func (s *Solver) Clone(bin string, timeoutMs int) *Solver {
	if _, err := exec.LookPath(bin); err != nil {
		return nil
	}
	c := NewSolver(bin, timeoutMs)
	c.log = nil
	for _, l := range s.script {
		c.send(l)
	}
	for k := range s.defined {
		c.defined[k] = true
	}
	for k := range s.ufs {
		c.ufs[k] = true
	}
	return c
}

func (s *Solver) perm(l string) {
	s.script = append(s.script, l)
	s.send(l)
}

func (s *Solver) Kill() {
	s.dead = true
	s.cmd.Process.Kill()
	go s.cmd.Wait()
}

var statMu sync.Mutex

var solverStats struct {
	queries   int
	sat       int
	unsat     int
	unknown   int
	time      time.Duration
}

func NewSolver(bin string, timeoutMs int, extra ...string) *Solver {
	args := []string{"-in"}
	if bin == "cvc5" {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(timeoutMs)}
	}
	args = append(args, extra...)
	c := exec.Command(bin, args...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		panic(err)
	}
	s := &Solver{cmd: c, in: bufio.NewWriterSize(in, 1<<16), inc: in, out: bufio.NewReaderSize(out, 1<<16),
		defined: map[int]bool{}, ufs: map[string]bool{}, bin: bin, timeout: timeoutMs}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", p, time.Now().UnixNano()))
		s.log = f
	}
	if bin != "cvc5" {
		s.send("(set-option :timeout " + strconv.Itoa(timeoutMs) + ")")
	}
	s.send("(set-option :produce-models true)")
	if bin == "cvc5" {
		s.send("(set-logic ALL)")
	}
	return s
}

func (s *Solver) send(x string) {
	if s.log != nil {
		fmt.Fprintln(s.log, x)
	}
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func (s *Solver) SetTimeout(ms int) {
	if ms != s.timeout && s.bin != "cvc5" {
		s.timeout = ms
		s.send("(set-option :timeout " + strconv.Itoa(ms) + ")")
	}
}

func (s *Solver) define(t *Term) {
	postorder(t, s.defined, func(x *Term) {
		switch x.op {
		case OConst:
			return
		case OVar:
			s.perm("(declare-fun |" + x.name + "| () " + x.sort.String() + ")")
			return
		case OUF:
			if !s.ufs[x.name] {
				s.ufs[x.name] = true
				d := ufDecls[x.name]
				var as []string
				for _, a := range d.args {
					as = append(as, a.String())
				}
				s.perm("(declare-fun |" + x.name + "| (" + strings.Join(as, " ") + ") " + d.ret.String() + ")")
			}
		}
		s.perm("(define-fun t" + strconv.Itoa(x.id) + " () " + x.sort.String() + " " + x.body() + ")")
	})
}

func (s *Solver) Assert(t *Term) {
	if t == True {
		return
	}
	s.define(t)
	s.perm("(assert " + t.ref() + ")")
}

// Check asks for satisfiability of the conjunction of the permanent assertions and ts.
// It leaves the pushed scope open when keep is set (for GetValues); call Pop then.
func (s *Solver) Check(keep bool, ts ...*Term) string {
	for _, t := range ts {
		if t == False && !keep {
			return "unsat"
		}
	}
	for _, t := range ts {
		s.define(t)
	}
	start := time.Now()
	s.send("(push 1)")
	for _, t := range ts {
		s.send("(assert " + t.ref() + ")")
	}
	if s.bin == "z3-new" {
		s.send("(check-sat-using (try-for default " + strconv.Itoa(s.timeout) + "))")
	} else {
		s.send("(check-sat)")
	}
	s.in.Flush()
	r := s.readLine()
	if !keep {
		s.send("(pop 1)")
	}
	d := time.Since(start)
	s.nq++
	s.t += d
	statMu.Lock()
	defer statMu.Unlock()
	if verbose && d > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query: %s %s %dms\n", s.bin, r, d.Milliseconds())
	}
	solverStats.queries++
	solverStats.time += d
	switch r {
	case "sat":
		solverStats.sat++
	case "unsat":
		solverStats.unsat++
	default:
		solverStats.unknown++
		if r != "unknown" && r != "timeout" {
			fmt.Fprintln(os.Stderr, "solver says:", r)
		}
		r = "unknown"
	}
	return r
}

func (s *Solver) Pop() { s.send("(pop 1)") }

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error eof " + err.Error() + ")"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

func (s *Solver) readSexp() string {
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String()
			}
		}
	}
}

// GetValue returns the values of scalar terms in the current model.
func (s *Solver) GetValue(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.val, true
	}
	if !s.defined[t.id] {
		return 0, false
	}
	s.send("(get-value (" + t.ref() + "))")
	s.in.Flush()
	r := s.readSexp()
	return parseValue(r)
}

func parseValue(r string) (uint64, bool) {
	r = strings.TrimSpace(r)
	if i := strings.LastIndex(r, "#x"); i >= 0 {
		j := i + 2
		for j < len(r) && strings.IndexByte("0123456789abcdefABCDEF", r[j]) >= 0 {
			j++
		}
		v, err := strconv.ParseUint(r[i+2:j], 16, 64)
		return v, err == nil
	}
	if i := strings.LastIndex(r, "#b"); i >= 0 {
		j := i + 2
		for j < len(r) && (r[j] == '0' || r[j] == '1') {
			j++
		}
		v, err := strconv.ParseUint(r[i+2:j], 2, 64)
		return v, err == nil
	}
	if i := strings.LastIndex(r, "(_ bv"); i >= 0 {
		f := strings.Fields(r[i+5:])
		v, err := strconv.ParseUint(f[0], 10, 64)
		return v, err == nil
	}
	if strings.HasSuffix(strings.TrimRight(r, ") \n"), "true") {
		return 1, true
	}
	if strings.HasSuffix(strings.TrimRight(r, ") \n"), "false") {
		return 0, true
	}
	return 0, false
}

func (s *Solver) Close() {
	if s.dead {
		return
	}
	s.dead = true
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}
