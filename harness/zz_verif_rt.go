package rudd

// Harness run time.  The symbolic executor intercepts these functions; the bodies below are the
// native versions used when a solver model is replayed against the real code.

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

type vArrU struct{ m map[int]uint64 }
type vArrW struct{ m map[int]uint16 }
type vArrB struct{ m map[int]bool }

type vState struct {
	model  map[string]int64
	params map[string]int64
	fails  []string
	trace  map[string]int64
	reach  map[string]bool
}

var vS = vLoad()

func vLoad() *vState {
	s := &vState{model: map[string]int64{}, params: map[string]int64{}, trace: map[string]int64{}, reach: map[string]bool{}}
	if f := os.Getenv("VERIF_MODEL"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			_ = json.Unmarshal(b, s.jsonView())
		}
	}
	return s
}

func (s *vState) jsonView() interface{} {
	return &struct {
		Model  *map[string]int64 `json:"model"`
		Params *map[string]int64 `json:"params"`
	}{&s.model, &s.params}
}

type vAssumeFailed struct{}

func vName(name string, idx []int) string {
	for _, i := range idx {
		name += fmt.Sprintf("[%d]", i)
	}
	return name
}

func vInt(name string, idx ...int) int          { return int(vS.model[vName(name, idx)]) }
func vI32(name string, idx ...int) int32        { return int32(vS.model[vName(name, idx)]) }
func vBool(name string, idx ...int) bool        { return vS.model[vName(name, idx)] != 0 }
func vRange(name string, lo, hi int, idx ...int) int {
	v, ok := vS.model[vName(name, idx)]
	if !ok || int(v) < lo || int(v) > hi {
		return lo
	}
	return int(v)
}

// vParam is a constant chosen by the driver.
func vParam(name string, def int) int {
	if v, ok := vS.params[name]; ok {
		return int(v)
	}
	return def
}
func vAssume(c bool) {
	if !c {
		panic(vAssumeFailed{})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		vS.fails = append(vS.fails, msg)
		if os.Getenv("VERIF_STACK") != "" {
			b := make([]byte, 4000)
			fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, b[:runtime.Stack(b, false)])
		}
	}
}
func vReach(label string)                           { vS.reach[label] = true }
func vTrace(name string, v int, idx ...int)         { vS.trace[vName(name, idx)] = int64(v) }
func vSymbolic() bool                               { return false }
func vFact(c bool)                                  {}
func vStub(name string, f interface{})              {}
func vUninterpreted()                               {}
func vPick(x int) int                               { return x }
func vVirtual[T any](n int, load func(i int) T, store func(i int, v T)) []T {
	panic("vVirtual is not available natively")
}
func vNewArrU(name string) vArrU               { return vArrU{} }
func vNewArrB(name string) vArrB               { return vArrB{} }
func vSelU(a vArrU, i int) uint64              { return a.m[i] }
func vSelB(a vArrB, i int) bool                { return a.m[i] }
func vUpdU(a vArrU, i int, v uint64) vArrU     { panic("native") }
func vUpdB(a vArrB, i int, v bool) vArrB       { panic("native") }
func vNewArrW(name string) vArrW               { return vArrW{} }
func vSelW(a vArrW, i int) uint16              { return a.m[i] }
func vFactHere(c bool)                         {}
func vRecord(key string, i int) bool           { return false }
func vRecorded(key string) []int               { return nil }
func vIte[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}
func vHash(name string, a, b, c, d int) int { panic("native") }
func vUFB(name string, a, b int) bool { return false }
func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vImp(a, b bool) bool { return !a || b }
func vFreshInt(name string) int                { return 0 }
func vFreshBool(name string) bool              { return false }

// finalizers: the replay build rewrites runtime.SetFinalizer into vSetFinalizer
var (
	vFins  = map[*int]func(*int){}
	vFinMu sync.Mutex
)

func vSetFinalizer(p interface{}, f interface{}) {
	q, ok := p.(*int)
	if !ok {
		return
	}
	g, ok := f.(func(*int))
	vFinMu.Lock()
	defer vFinMu.Unlock()
	if !ok {
		delete(vFins, q)
		return
	}
	vFins[q] = g
}
func vFire(n Node) {
	vFinMu.Lock()
	f, ok := vFins[n]
	delete(vFins, n)
	vFinMu.Unlock()
	if ok {
		f(n)
	}
}
func vHasFin(n Node) bool {
	vFinMu.Lock()
	defer vFinMu.Unlock()
	_, ok := vFins[n]
	return ok
}

// vLearn runs the finalizer of a handle and records what it uses; vArm lets the finalizer of a handle
// run at an arbitrary moment until vDisarm, which runs it if it has not run.
func vLearn(n Node)   { vFire(n) }
func vUnlocked() bool { return true }

var vArmed Node

func vArm(n Node, name string) { vArmed = n }
func vDisarm() int             { vFire(vArmed); return 0 }

// Text: vOnOut gives every complete statement of the text written to a vSink to f; numbers are replaced by '#'
// and spaces are collapsed.  Natively this happens at vOutDone, which tells whether all the text was flushed.
type vSink struct{ text []byte }

var vTheSink *vSink
var vOutFn func(stmt string, ints []int)

func (s *vSink) Write(p []byte) (int, error) {
	s.text = append(s.text, p...)
	return len(p), nil
}

func vNewSink() *vSink {
	vTheSink = &vSink{}
	return vTheSink
}
func vOnOut(f func(stmt string, ints []int)) { vOutFn = f }
func vHas(s, sub string) bool                { return strings.Contains(s, sub) }

func vOutDone() bool {
	vIntRe := regexp.MustCompile(`-?[0-9]+`)
	depth, cur := 0, ""
	text := string(vTheSink.text)
	vTheSink.text = nil
	for _, c := range text + "\n" {
		if depth == 0 && (c == ';' || c == '\n') {
			t := strings.Join(strings.FieldsFunc(cur, unicode.IsSpace), " ")
			cur = ""
			if t != "" {
				var ints []int
				t = vIntRe.ReplaceAllStringFunc(t, func(m string) string {
					n, _ := strconv.Atoi(m)
					ints = append(ints, n)
					return "#"
				})
				vOutFn(t, ints)
			}
			continue
		}
		switch c {
		case '[':
			depth++
		case ']':
			depth--
		}
		cur += string(c)
	}
	return true
}
