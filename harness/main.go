// Command zzverif is the replay / bounded stand-in harness. It is compiled
// into /repo's module through an overlay and runs the real code.
//
// It never decides a property alone: it (a) concretises failed proof
// obligations and (b) stands in, with the bounds it prints, for the functions
// the deductive verifier cannot reach.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

// Ctx is what a property check sees.
type Ctx struct {
	R        *rand.Rand
	Thorough bool
	Deadline time.Time
	Evals    int
	Nontriv  map[string]bool
	Samples  []string
	Fails    []Failure
	trace    *os.File
	only     string // replay just this case
	prop     string
}

// Failure is a concrete failing input on the real code.
type Failure struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
}

// N scales a count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick * 8
}

// Case runs one case. desc must identify the input completely. f returns ""
// when the property held, and otherwise "expected ... got ..." text.
func (c *Ctx) Case(desc string, nontrivial bool, f func() (expected, got string)) bool {
	if len(c.Fails) > 0 {
		return false
	}
	if c.only != "" && c.only != desc {
		return true
	}
	c.Evals++
	if nontrivial && len(c.Nontriv) < 2000000 {
		c.Nontriv[desc] = true
	}
	if len(c.Samples) < 6 && (c.Evals == 1 || c.R.Intn(400) == 0) {
		c.Samples = append(c.Samples, desc)
	}
	if c.trace != nil {
		c.trace.Truncate(0)
		c.trace.WriteAt([]byte(desc), 0)
	}
	exp, got := func() (exp, got string) {
		defer func() {
			if r := recover(); r != nil {
				exp, got = "no panic", fmt.Sprintf("panic: %v\n%s", r, firstLines(string(debug.Stack()), 40))
			}
		}()
		return f()
	}()
	if exp != got {
		c.Fails = append(c.Fails, Failure{c.prop, desc, exp, got})
		return false
	}
	return true
}

func firstLines(s string, n int) string {
	k := 0
	for i := range s {
		if s[i] == '\n' {
			k++
			if k == n {
				return s[:i]
			}
		}
	}
	return s
}

// Done reports whether the check should stop.
func (c *Ctx) Done() bool { return len(c.Fails) > 0 || time.Now().After(c.Deadline) }

type check struct {
	fn    func(*Ctx)
	bound string
}

var checks = map[string]check{}

func register(id, bound string, fn func(*Ctx)) { checks[id] = check{fn, bound} }

func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	id := os.Args[1]
	ck, ok := checks[id]
	if !ok {
		fmt.Println("{}")
		return
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs := 20.0
	if s, err := strconv.ParseFloat(os.Getenv("HARNESS_SECS"), 64); err == nil {
		secs = s
	}
	c := &Ctx{
		R:        rand.New(rand.NewSource(seed*7919 + int64(len(id)))),
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		Deadline: time.Now().Add(time.Duration(secs * float64(time.Second))),
		Nontriv:  map[string]bool{},
		prop:     id,
		only:     os.Getenv("HARNESS_ONLY"),
	}
	if p := os.Getenv("HARNESS_TRACE"); p != "" {
		c.trace, _ = os.Create(p)
	}
	ck.fn(c)
	out := map[string]interface{}{
		"property":            id,
		"bound":               ck.bound,
		"evaluations":         c.Evals,
		"distinct_nontrivial": len(c.Nontriv),
		"samples":             c.Samples,
		"failures":            c.Fails,
		"timed_out":           time.Now().After(c.Deadline),
	}
	b, _ := json.MarshalIndent(out, "", " ")
	fmt.Println(string(b))
	if len(c.Fails) > 0 {
		os.Exit(3)
	}
}
