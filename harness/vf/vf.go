// Package zzvf is the interface between the verification harnesses and the two
// ways of executing them. Under the symbolic executor every function here is an
// intrinsic; in the native build (replay of counterexamples and validation of
// explored paths) the bodies below run and inputs come from a JSON file.
package zzvf

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"text/template"
)

var (
	mu     sync.Mutex
	inputs map[string]any
	params map[string]int
	counts = map[string]int{}
	events []string
	reachd = map[string]bool{}
	failed []string
	stdout = os.Stdout // harnesses may redirect os.Stdout
)

// Load reads the inputs of a native run.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f struct {
		Inputs map[string]any `json:"inputs"`
		Params map[string]int `json:"params"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	inputs, params = f.Inputs, f.Params
	return nil
}

// Finish prints the outcome of a native run and exits.
func Finish(status string, code int) {
	mu.Lock()
	out := map[string]any{"status": status, "events": events, "failed": failed}
	b, _ := json.Marshal(out)
	fmt.Fprintln(stdout, "VF-RESULT "+string(b))
	os.Exit(code)
}

func uniq(name string) string {
	name = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' || r == '(' || r == ')' || r == ' ' {
			return '_'
		}
		return r
	}, name)
	mu.Lock()
	defer mu.Unlock()
	n := counts[name]
	counts[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func num(name string, lo int64) int64 {
	v, ok := inputs[uniq(name)]
	if !ok {
		return lo
	}
	switch v := v.(type) {
	case string:
		if i, err := strconv.ParseInt(v, 10, 64); err == nil {
			return i
		}
		u, _ := strconv.ParseUint(v, 10, 64)
		return int64(u)
	case float64:
		return int64(v)
	}
	return lo
}

// Bool returns a symbolic boolean.
func Bool(name string) bool {
	v, _ := inputs[uniq(name)].(bool)
	return v
}

// Int returns a symbolic integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(num(name, int64(lo))) }

// Int64 returns a symbolic integer in [lo, hi].
func Int64(name string, lo, hi int64) int64 { return num(name, lo) }

// Int32 returns a symbolic integer in [lo, hi].
func Int32(name string, lo, hi int32) int32 { return int32(num(name, int64(lo))) }

// Uint64 returns a symbolic integer in [lo, hi].
func Uint64(name string, lo, hi uint64) uint64 { return uint64(num(name, int64(lo))) }

// Byte returns a symbolic byte in [lo, hi].
func Byte(name string, lo, hi byte) byte { return byte(num(name, int64(lo))) }

// StrN returns a string of n symbolic bytes, each in [lo, hi].
func StrN(name string, n int, lo, hi byte) string {
	if m, ok := inputs[uniq(name)].(map[string]any); ok {
		if h, ok := m["bytes"].(string); ok {
			b, _ := hex.DecodeString(h)
			return string(b)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = lo
	}
	return string(b)
}

// Assume restricts the executions considered.
func Assume(b bool) {
	if !b {
		Finish("assume", 4)
	}
}

// Assert is a property assertion.
func Assert(b bool, label string) {
	if !b {
		mu.Lock()
		failed = append(failed, label)
		mu.Unlock()
		Finish("fail", 3)
	}
}

// Unsupported ends an execution the harness has no model for.
func Unsupported(what string) { Finish("unsupported: "+what, 5) }

// Reach records that a path of interest was taken.
func Reach(label string) {}

// Event appends to the trace compared between symbolic and native runs.
func Event(s string) {
	mu.Lock()
	events = append(events, s)
	mu.Unlock()
}

// Symbolic tells whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

// IsSym tells whether i is symbolic (never natively).
func IsSym(i int) bool { return false }

// Param returns a bound.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// MapOrder makes map iteration order symbolic for maps of at most n entries.
func MapOrder(n int) {}

// ExploreSchedules turns schedule exploration on or off.
func ExploreSchedules(b bool) {}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() {
	for i := 0; i < 2000; i++ {
		runtime.Gosched()
	}
}

// And is a conjunction without forking.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

// Or is a disjunction without forking.
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

// Not negates.
func Not(a bool) bool { return !a }

// Implies is implication without forking.
func Implies(a, b bool) bool { return !a || b }

// Iff is equivalence without forking.
func Iff(a, b bool) bool { return a == b }

// IteInt is a conditional without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteByte is a conditional without forking.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Template renders a text/template with a struct of strings.
func Template(text string, data any) (string, bool) {
	t, err := template.New("").Parse(text)
	if err != nil {
		return "", false
	}
	var b bytes.Buffer
	if err := t.Execute(&b, data); err != nil {
		return "", false
	}
	return b.String(), true
}
